#include "embc/log.h"
#include "c31.h"
C31_EMIT(c31_emit_default)
