#pragma once
#include "absl_shim/hash.h"
