/* Driver interface of the run-time simulator, seen by the generated programs. Every call marked "op" is a scheduling
   decision point of the macro schedule and appears in the recorded history. */
#ifndef SIM_H
#define SIM_H
#ifdef __cplusplus
extern "C" {
#endif
void sim_obs(int tag, long v);            /* op: observable output */
void sim_obsd(int tag, double v);         /* op: observable output */
void sim_obss(int tag, const char *s);    /* op: observable output */
long sim_env(int ch);                     /* op: environment call; >= 0, or -1 with errno set when a fault is injected */
long sim_cell_add(int cell, long v);      /* op: atomic shared counter; returns the old value */
void sim_lock(int m);                     /* op */
void sim_unlock(int m);                   /* op */
void sim_spawn(int fn);                   /* op: starts thread function fn */
void sim_exit(int code);                  /* op: ends the process */
long sim_stop(int ch);                    /* as sim_env, but for some outcomes the process exits */
long sim_throw(int ch);                   /* as sim_env, but for some outcomes an int is thrown */
void *sim_alloc(long n);                  /* op: fallible allocation (zeroed, never freed) */
int sim_tick(void);                       /* fuel: non-zero once the thread has used up its budget */
void sim_cov(int g);                      /* coverage reference: group g begins */
void sim_cove(int g);                     /* coverage reference: group g completed */
#ifdef __cplusplus
}
#endif
#endif
