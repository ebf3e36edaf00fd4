#include "c28_setup.hpp"
#define argos argos_single
#include ARGOS_SINGLE_HPP
#define ARGOS_NS argos_single
#define CASE_NS case_single
#include "c28_case.hpp"
