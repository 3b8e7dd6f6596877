#pragma once
#include "omega_h_standin.hpp"
