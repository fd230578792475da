#pragma once
#include "Kokkos_MathematicalFunctions.hpp"
