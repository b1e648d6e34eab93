#pragma once
#include "absl_shim/strings.h"
