// The checks of values.cpp on the single-file distribution.
#define argos argos_single
#include ARGOS_SINGLE_HPP
#define ARGOS_INCLUDED
#include "values.cpp"
