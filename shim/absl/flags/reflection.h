#pragma once
#include "absl_shim/flags.h"
