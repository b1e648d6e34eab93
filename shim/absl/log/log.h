#pragma once
#include "absl_shim/log_short.h"
