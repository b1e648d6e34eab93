#pragma once
#include "absl_shim/sync.h"
