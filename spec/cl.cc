// Reference: the OpenCL kernels, one observation point each.  Same responses and images as on the CPU.
#include "das.cc"
#include "dream_single.cc"
#include "sir.cc"

#define DAS_KERNELS(NAME, T) \
  extern "C" void spec_cl_das_saft_##NAME(const T *Y, int len, const T *G, int Nt, const T *Ro, int No, T dt, T delay, T cp, T *Im, idx no) \
  { point<T>(no, DASType::saft, len, No, Nt, 0, Y, Ro, G, (const T *) 0, dt, delay, cp, Im); } \
  extern "C" void spec_cl_das_tfm_##NAME(const T *Y, int len, const T *Gt, int Nt, const T *Gr, int Nr, const T *Ro, int No, T dt, T delay, T cp, \
                                         T *Im, idx no) \
  { point<T>(no, DASType::tfm, len, No, Nt, Nr, Y, Ro, Gt, Gr, dt, delay, cp, Im); } \
  extern "C" void spec_cl_das_rca_coltx_##NAME(const T *Y, int len, const T *Gt, int Nt, const T *Gr, int Nr, const T *Ro, int No, T dt, T delay, \
                                               T cp, T *Im, idx no) \
  { point<T>(no, DASType::rca_coltx, len, No, Nt, Nr, Y, Ro, Gt, Gr, dt, delay, cp, Im); } \
  extern "C" void spec_cl_das_rca_rowtx_##NAME(const T *Y, int len, const T *Gt, int Nt, const T *Gr, int Nr, const T *Ro, int No, T dt, T delay, \
                                               T cp, T *Im, idx no) \
  { point<T>(no, DASType::rca_rowtx, len, No, Nt, Nr, Y, Ro, Gt, Gr, dt, delay, cp, Im); }
DAS_KERNELS(double, double)
DAS_KERNELS(float, float)

static inline void clear(double *h, int nt) { for (idx i = 0; i < nt; i++) h[i] = 0; }

extern "C" void spec_cl_dreamrect(const double *Ro, int No, double a, double b, double dx, double dy, double dt, int nt, double delay,
                                  double v, double cp, double *h, idx n)
{
  clear(h + n*nt, nt);
  rect_element(0, AT(n), a, b, dx, dy, dt, nt, delay, v, cp, h + n*nt, 1);
}

extern "C" void spec_cl_dreamcirc(const double *Ro, int No, double R, double dx, double dy, double dt, int nt, double delay,
                                  double v, double cp, double *h, idx n)
{
  clear(h + n*nt, nt);
  circ_element(0, AT(n), R, dx, dy, dt, nt, delay, v, cp, h + n*nt, 1);
}

extern "C" void spec_cl_rect_sir(const double *Ro, int No, double a, double b, double dt, int nt, double delay, double v, double cp,
                                 double *h, idx n)
{
  rect(Ro[n], Ro[n + No], Ro[n + 2*No], a, b, dt, nt, delay, v, cp, h + n*nt, true);
}
