#ifndef C31_H_
#define C31_H_
/* one statement of each level macro; returns the line of the statement */
#define C31_MACROS(X) \
    X(0, EMBC_LOG_EMERGENCY) X(1, EMBC_LOG_ALERT) X(2, EMBC_LOG_CRITICAL) X(3, EMBC_LOG_ERROR) X(3, EMBC_LOG_ERR) \
    X(4, EMBC_LOG_WARNING) X(4, EMBC_LOG_WARN) X(5, EMBC_LOG_NOTICE) X(6, EMBC_LOG_INFO) X(7, EMBC_LOG_DEBUG1) \
    X(7, EMBC_LOG_DEBUG) X(7, EMBC_LOG_DBG) X(8, EMBC_LOG_DEBUG2) X(9, EMBC_LOG_DEBUG3) X(3, EMBC_LOGE) X(4, EMBC_LOGW) \
    X(5, EMBC_LOGN) X(6, EMBC_LOGI) X(7, EMBC_LOGD) X(7, EMBC_LOGD1) X(8, EMBC_LOGD2) X(9, EMBC_LOGD3)
enum { C31_COUNT = 22 };
extern int c31_effects;
static inline int c31_effect(int v) { ++c31_effects; return v; }
/* emits macro number i with two arguments (or, form 1, a single message) */
typedef void (*c31_emit_fn)(int i, int form, const char *msg, int v, int *level, int *line, int *global, int *module);
void c31_emit_default(int, int, const char *, int, int *, int *, int *, int *);
void c31_emit_off(int, int, const char *, int, int *, int *, int *, int *);
void c31_emit_error(int, int, const char *, int, int *, int *, int *, int *);
void c31_emit_all(int, int, const char *, int, int *, int *, int *, int *);
void c31_emit_mixed(int, int, const char *, int, int *, int *, int *, int *);
#define C31_CASE(LV, M) if (n++ == i) { *level = LV; \
    if (form == 1) { M(msg); *line = __LINE__; } \
    else if (form == 2) { if (v & 1) M("%s<%d>", msg, c31_effect(v)); else M("%d<%s>", c31_effect(v), msg); *line = __LINE__; } \
    else { M("%s|%d|%c|%08x|%%|%ld|%u|%s|%d|%d|%d", msg, c31_effect(v), 'q', 0xbeefu, -7l, 9u, "t", 1, 2, 3); *line = __LINE__; } }
#define C31_EMIT(NAME) \
void NAME(int i, int form, const char *msg, int v, int *level, int *line, int *global, int *module) { \
    int n = 0; *global = EMBC_LOG_GLOBAL_LEVEL; *module = EMBC_LOG_LEVEL; \
    C31_MACROS(C31_CASE) \
    /* the level given as an expression that binds less tightly than a comparison */ \
    if (i == C31_COUNT) { *level = (v & 1) ? 3 : 7; EMBC_LOG((v & 1) ? EMBC_LOG_LEVEL_ERROR : EMBC_LOG_LEVEL_DEBUG1, "%s|%d", msg, c31_effect(v)); *line = __LINE__; } \
    if (i == C31_COUNT + 1) { *level = v & 7; EMBC_LOG(v & 7, "%s|%d", msg, c31_effect(v)); *line = __LINE__; } }
#endif
