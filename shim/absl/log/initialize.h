#pragma once
#include "absl_shim/log.h"
