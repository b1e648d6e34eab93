#pragma once
#include "absl_shim/time.h"
