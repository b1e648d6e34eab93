#pragma once
#include "absl_shim/base.h"
