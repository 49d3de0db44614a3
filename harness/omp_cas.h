// Replays: every compare and swap of the code under test is a visible operation of the schedule.
extern "C" void rk_before_cas();
template<class T,class U,class V> static inline bool rk_cas(T*p,U o,V n){ rk_before_cas(); return __sync_bool_compare_and_swap(p,(T)o,(T)n); }
template<class T,class U,class V> static inline T rk_casv(T*p,U o,V n){ rk_before_cas(); return __sync_val_compare_and_swap(p,(T)o,(T)n); }
#define __sync_bool_compare_and_swap rk_cas
#define __sync_val_compare_and_swap rk_casv
