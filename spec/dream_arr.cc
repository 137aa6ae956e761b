// Reference: array transducers.  The response of an array is the superposition over its elements of the response of the element
// translated to its position, weighted by the apodization of that element, with the focusing and steering delays of the element
// added to its propagation delay.
#include "spec.h"
#include "laws.h"

#define POINTS(n) for (idx n = start; n < stop; n++)
#define DELAY(n) delay[dtype == DelayType::single ? 0 : n]

static double biggest(const double *g, idx n)
{
  double m = fabs(g[0]);
  for (idx i = 1; i < n; i++)
    if (fabs(g[i]) > m)
      m = fabs(g[i]);
  return m;
}

// Delay [us] that makes the contributions of the elements arrive together at depth F: path of the outermost position minus the
// path of this one.
static double focus(FocusMet met, const double *F, idx n, double x, double y, double xmax, double ymax, double rmax, double cp)
{
  switch (met) {
  case FocusMet::x:   return (hyp(xmax, F[0]) - hyp(x, F[0])) * 1000 / cp;
  case FocusMet::y:   return (hyp(ymax, F[0]) - hyp(y, F[0])) * 1000 / cp;
  case FocusMet::xy:  return (hyp(rmax, F[0]) - dist(x, y, F[0])) * 1000 / cp;
  case FocusMet::x_y: return (hyp(rmax, F[0]) - hyp(x, F[0]) - hyp(y, F[0])) * 1000 / cp;
  case FocusMet::ud:  return F[n];      // given by the user
  default:            return 0;
  }
}

// Delay [us] that tilts the wave front by theta about y and phi about x (degrees).
static double steer(SteerMet met, double theta, double phi, double x, double y, double xmax, double ymax, double cp)
{
  double tx = (xmax + x) * sin(theta * PI / 180) * 1000 / cp;
  double ty = (ymax + y) * sin(phi * PI / 180) * 1000 / cp;
  switch (met) {
  case SteerMet::x:  return tx;
  case SteerMet::y:  return ty;
  case SteerMet::xy: return tx + ty;
  default:           return 0;
  }
}

#define ELEMENT(call)                                                                                                   \
  POINTS(n) {                                                                                                           \
    const double *gx = G, *gy = G + num, *gz = G + 2*num;                                                               \
    double xmax = biggest(gx, num), ymax = biggest(gy, num), rmax = sqrt(xmax*xmax + ymax*ymax);                        \
    for (idx e = 0; e < num; e++) {                                                                                     \
      double extra = focus(fmet, F, e, gx[e], gy[e], xmax, ymax, rmax, cp)                                              \
        + steer(smet, theta, phi, gx[e], gy[e], xmax, ymax, cp);                                                        \
      double w = do_apod ? window(amet, apod, e, hyp(gx[e], gy[e]), rmax, par) : 1;                                     \
      double x = Ro[n] - gx[e], y = Ro[n + No] - gy[e], z = Ro[n + 2*No] - gz[e];                                       \
      call;                                                                                                             \
    }                                                                                                                   \
  }

extern "C" void spec_dream_arr_rect(idx start, idx stop, double alpha, double *Ro, idx No, double a, double b, double dx, double dy,
                                    double dt, idx nt, DelayType dtype, double *delay, double v, double cp, idx num, double *G,
                                    FocusMet fmet, double *F, SteerMet smet, double theta, double phi, double *apod,
                                    bool do_apod, ApodMet amet, double par, double *h, ErrorLevel)
{
  ELEMENT(rect_element(alpha, x, y, z, a, b, dx, dy, dt, nt, DELAY(n) - extra, v, cp, h + n*nt, w))
}

extern "C" void spec_dream_arr_circ(idx start, idx stop, double alpha, double *Ro, idx No, double R, double dx, double dy,
                                    double dt, idx nt, DelayType dtype, double *delay, double v, double cp, idx num, double *G,
                                    FocusMet fmet, double *F, SteerMet smet, double theta, double phi, double *apod,
                                    bool do_apod, ApodMet amet, double par, double *h, ErrorLevel)
{
  ELEMENT(circ_element(alpha, x, y, z, R, dx, dy, dt, nt, DELAY(n) - extra, v, cp, h + n*nt, w))
}

extern "C" void spec_dream_arr_cylind(idx start, idx stop, double alpha, double *Ro, idx No, double a, double b, double Rcurv,
                                      double dx, double dy, double dt, idx nt, DelayType dtype, double *delay, double v,
                                      double cp, idx num, double *G, FocusMet fmet, double *F, SteerMet smet, double theta,
                                      double phi, double *apod, bool do_apod, ApodMet amet, double par, double *h, ErrorLevel)
{
  ELEMENT(cylind_element(alpha, x, y, z, a, b, Rcurv, dx, dy, dt, nt, DELAY(n) - extra, v, cp, h + n*nt, w))
}
