// API between simulation harnesses and the simulator runtime (simrt.cc).
//
// Every function here may only be called by a simulated thread while a run is
// in progress (except where noted).
#ifndef VERIF_SIM_H_
#define VERIF_SIM_H_
#include <cstddef>
#include <cstdint>

extern "C" {
// Workload decision in [0, n); 0 is the simplest value.
uint64_t sim_choose(uint64_t n);
// Fault decision: true with probability `per_mille`/1000 (false is simplest).
bool sim_fault(const char* kind, unsigned per_mille);
// Reports a violation and ends the run. `key` identifies the violation class.
[[noreturn]] void sim_fail(const char* key, const char* fmt, ...)
    __attribute__((format(printf, 2, 3)));
// Adds a line to the event log (part of the determinism hash).
void sim_note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
// Counts that a condition of interest was reached.
void sim_probe(const char* name);
void sim_probe_add(const char* name, uint64_t n);
// A plain scheduling point.
void sim_yield(void);
// Simulated thread number (0 = the scenario's main thread).
int sim_tid(void);
// Global event sequence number: strictly increasing over the run.
uint64_t sim_seq(void);
uint64_t sim_now_ns(void);
void sim_advance_ns(uint64_t ns);
// Number of simulated threads that have started and not finished.
int sim_live_threads(void);
// Number of simulated threads ever created in the run (without main).
int sim_created_threads(void);
// Parks the calling thread until every other thread finished or is blocked;
// returns the number of blocked (not finished) others.
int sim_quiesce(void);
// Happens-before annotations for stand-in primitives.
void sim_acquire(const void* a);
void sim_release(const void* a, int join);
// A synchronisation event of a stand-in primitive at address a.
void sim_sync(const void* a, int kind);
void sim_ignore_begin(void);
void sim_ignore_end(void);
// Bytes and blocks allocated in this run and not freed.
uint64_t sim_live_blocks(void);
uint64_t sim_live_bytes(void);
bool sim_is_freed(const void* p);
// True while a simulated run is in progress.
bool sim_active(void);
// Run configuration, set by the harness at the start of its scenario.
void sim_set_hwconc(int n);
void sim_set_fault_pthread_create(unsigned per_mille);
void sim_set_fault_spurious(unsigned per_mille);
void sim_set_fault_early_timer(unsigned per_mille);
void sim_set_max_steps(uint64_t n);
// Marks a state fingerprint as reached (distinct states are counted).
void sim_state(uint64_t h);
// Signals: after `n` scheduling points, `fn` interrupts whichever thread is
// running (0 disarms).  sim_signal_now() runs `fn` as a handler right here.  A
// handler that allocates, or blocks (unless allowed), is a violation.
void sim_arm_signal(uint64_t n, void (*fn)(void));
void sim_signal_now(void (*fn)(void));
void sim_block_signals(bool on);
void sim_signal_may_block(bool on);
// Disables / enables preemption (nested) around oracle bookkeeping.
void sim_nopreempt_begin(void);
void sim_nopreempt_end(void);

// Provided by each harness.
extern const char* const sim_harness_name;
void sim_init(void);      // once, before the runs (single threaded)
void sim_scenario(void);  // one run
}

#ifdef __cplusplus
struct SimNoPreempt {
  SimNoPreempt() { sim_nopreempt_begin(); }
  ~SimNoPreempt() { sim_nopreempt_end(); }
};
#define SIM_CHECK(cond, key, ...) \
  do {                            \
    if (!(cond)) sim_fail(key, __VA_ARGS__); \
  } while (0)
#endif
#endif
