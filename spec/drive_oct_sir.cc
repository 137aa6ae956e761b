// The worker WORKER of an Octave spatial impulse response function, called for the points [start, stop).
#include SOURCE
extern "C" void drive_points(dream_idx_type start, dream_idx_type stop, double *Ro, dream_idx_type No, double r, double dt,
                             dream_idx_type nt, DelayType delay_type, double *delay, double v, double cp, dream_idx_type int_len,
                             double *h)
{
  DATA D;
  D.start = start;
  D.stop = stop;
  D.Ro = Ro;
  D.No = No;
  D.r = r;
  D.dt = dt;
  D.nt = nt;
  D.delay_type = delay_type;
  D.delay = delay;
  D.v = v;
  D.cp = cp;
  D.h = h;
#ifdef SAMPLED
  D.int_len = int_len;
#endif
  WORKER(&D);
}
