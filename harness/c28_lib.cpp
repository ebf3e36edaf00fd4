#include "c28_setup.hpp"
#include <Argos/Argos.hpp>
#define ARGOS_NS argos
#define CASE_NS case_lib
#include "c28_case.hpp"
