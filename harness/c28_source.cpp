// The single-file distribution itself, in a namespace of its own.
#define argos argos_single
#include ARGOS_SINGLE_CPP
