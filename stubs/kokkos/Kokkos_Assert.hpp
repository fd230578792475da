#pragma once
#include "kstub_base.hpp"
