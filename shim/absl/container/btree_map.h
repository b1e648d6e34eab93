#pragma once
#include "absl_shim/containers.h"
