// Use of the delay-and-sum class, analysed together with its source.
#include "das.h"

#define DRIVE(NAME, T) \
  extern "C" int NAME(DASType das_type, dream_idx_type a_scan_len, dream_idx_type No, dream_idx_type num_t, dream_idx_type num_r, \
                      const T *Y, const T *Ro, const T *Gt, const T *Gr, T dt, DelayType delay_type, const T *delay, T cp, T *Im, \
                      ErrorLevel err_level) \
  { \
    DAS<T> das(das_type, a_scan_len, No, num_t, num_r); \
    das.set_running(); \
    return (int) das.das(Y, Ro, Gt, Gr, dt, delay_type, delay, cp, Im, err_level); \
  }
DRIVE(drive_das_d, double)
DRIVE(drive_das_f, float)
