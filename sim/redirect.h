#pragma once
#include "sim.h"
