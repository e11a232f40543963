/* Interface between a harness and the symbolic executor (or, natively, the replay runtime). */
#pragma once
#ifdef __cplusplus
extern "C" {
#endif
typedef unsigned long vp_u64;
vp_u64 vp_sym(const char *name, vp_u64 bits);             /* unconstrained symbolic value */
vp_u64 vp_range(const char *name, vp_u64 lo, vp_u64 hi);  /* symbolic value in [lo, hi] */
unsigned vp_choice(const char *name, unsigned n);         /* symbolic value in [0, n), one path per value */
void vp_assume(int cond);
void vp_check(int cond, const char *msg);                 /* the property: reported if it can be false */
void vp_fail(const char *msg);
void vp_reach(const char *label);                         /* reachability witness */
void vp_log(const char *tag, vp_u64 value);               /* observable trace, compared with the native run */
vp_u64 vp_live(void);                                     /* live heap objects */
vp_u64 vp_concretize(vp_u64);
void vp_end(void);
void vp_debug(const char *tag, vp_u64 value);
/* threads */
vp_u64 vp_thread_create(void *(*fn)(void *), void *arg);
void vp_thread_join(vp_u64 id);
int vp_cond_wait(void *cond, void *mutex);
int vp_cond_timedwait(void *cond, void *mutex);           /* 1: timed out */
void vp_cond_signal(void *cond);
void vp_cond_broadcast(void *cond);
void vp_yield(void);
#ifdef __cplusplus
}
#endif
