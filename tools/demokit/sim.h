// The stand-in headers run on real threads here.
#ifndef SIM_H_
#define SIM_H_
inline void sim_sync(const void*, int) {}
inline void sim_ignore_begin() {}
inline void sim_ignore_end() {}
inline void sim_acquire(const void*) {}
inline void sim_release(const void*, int) {}
inline bool sim_active() { return false; }
inline void sim_fail(const char*, const char*, ...) {}
#endif
