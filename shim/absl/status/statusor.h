#pragma once
#include "absl_shim/status.h"
