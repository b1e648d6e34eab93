#pragma once
#include "absl_shim/log.h"
#define LOG ABSL_LOG
#define LOG_IF ABSL_LOG_IF
#define DLOG ABSL_DLOG
#define VLOG ABSL_VLOG
#define CHECK ABSL_CHECK
#define QCHECK ABSL_QCHECK
#define PCHECK ABSL_PCHECK
#define DCHECK ABSL_DCHECK
#define CHECK_EQ ABSL_CHECK_EQ
#define CHECK_NE ABSL_CHECK_NE
#define CHECK_LT ABSL_CHECK_LT
#define CHECK_LE ABSL_CHECK_LE
#define CHECK_GT ABSL_CHECK_GT
#define CHECK_GE ABSL_CHECK_GE
#define CHECK_OK ABSL_CHECK_OK
#define QCHECK_OK ABSL_QCHECK_OK
#define QCHECK_EQ ABSL_QCHECK_EQ
#define DCHECK_EQ ABSL_CHECK_EQ
#define DCHECK_NE ABSL_CHECK_NE
#define DCHECK_LT ABSL_CHECK_LT
#define DCHECK_LE ABSL_CHECK_LE
#define DCHECK_GT ABSL_CHECK_GT
#define DCHECK_GE ABSL_CHECK_GE
