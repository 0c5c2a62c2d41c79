#define EMBC_LOG_GLOBAL_LEVEL EMBC_LOG_LEVEL_ALL
#define EMBC_LOG_LEVEL EMBC_LOG_LEVEL_ALL
#include "embc/log.h"
#include "c31.h"
C31_EMIT(c31_emit_all)
