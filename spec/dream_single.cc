// Reference: the single-element transducers.  The spatial impulse response at an observation point is the sum over the cells
// of a regular grid on the aperture of  v ds / (2 pi r), in SI units per sample, added at the sample nearest to the
// propagation delay of that cell (minus the start delay, plus the focusing delay when there is one).
#include "spec.h"

#define POINTS(n) for (idx n = start; n < stop; n++)
#define AT(n) Ro[n], Ro[n + No], Ro[n + 2*No]
#define DELAY(n) delay[dtype == DelayType::single ? 0 : n]

extern "C" void spec_dreamrect(idx start, idx stop, double alpha, double *Ro, idx No, double a, double b, double dx, double dy,
                               double dt, idx nt, DelayType dtype, double *delay, double v, double cp, double *h, ErrorLevel)
{
  POINTS(n) rect_element(alpha, AT(n), a, b, dx, dy, dt, nt, DELAY(n), v, cp, h + n*nt, 1);
}

extern "C" void spec_dreamcirc(idx start, idx stop, double alpha, double *Ro, idx No, double R, double dx, double dy,
                               double dt, idx nt, DelayType dtype, double *delay, double v, double cp, double *h, ErrorLevel)
{
  POINTS(n) circ_element(alpha, AT(n), R, dx, dy, dt, nt, DELAY(n), v, cp, h + n*nt, 1);
}

extern "C" void spec_dreamcylind(idx start, idx stop, double alpha, double *Ro, idx No, double a, double b, double Rcurv,
                                 double dx, double dy, double dt, idx nt, DelayType dtype, double *delay, double v, double cp,
                                 double *h, ErrorLevel)
{
  POINTS(n) cylind_element(alpha, AT(n), a, b, Rcurv, dx, dy, dt, nt, DELAY(n), v, cp, h + n*nt, 1);
}

// A strip of width dy along x.
extern "C" void spec_dreamline(idx start, idx stop, double alpha, double *Ro, idx No, double a, double dx, double dy,
                               double dt, idx nt, DelayType dtype, double *delay, double v, double cp, double *h, ErrorLevel)
{
  POINTS(n) {
    for (idx i = 0; i < nt; i++)
      h[n*nt + i] = 0;
    for (idx i = 0; -a/2 + dx/2 + i*dx <= a/2; i++) {
      double r = dist(Ro[n] - (-a/2 + dx/2 + i*dx), Ro[n + No], Ro[n + 2*No]);
      deposit(alpha, r, strength(1, v, dx * dy, r, dt), DELAY(n), 0, dt, nt, cp, h + n*nt);
    }
  }
}

// A spherical cap: the grid is on the projected disc, the depth of a point follows the sphere; Rcurv < 0 is convex.
extern "C" void spec_dreamsphere(idx start, idx stop, double alpha, double *Ro, idx No, double R, double Rcurv, double dx,
                                 double dy, double dt, idx nt, DelayType dtype, double *delay, double v, double cp, double *h,
                                 ErrorLevel)
{
  POINTS(n) {
    for (idx i = 0; i < nt; i++)
      h[n*nt + i] = 0;
    for (idx j = 0; -R + dy/2 + j*dy <= R; j++) {
      double ys = -R + dy/2 + j*dy;
      double w = sqrt(R*R - ys*ys);
      for (idx i = 0; -w + dx/2 + i*dx <= w; i++) {
        double xs = -w + dx/2 + i*dx;
        double sag = fabs(Rcurv) - sqrt(Rcurv*Rcurv - xs*xs - ys*ys);
        double r = dist(Ro[n] - xs, Ro[n + No] - ys, Rcurv >= 0 ? Ro[n + 2*No] - sag : Ro[n + 2*No] + sag);
        deposit(alpha, r, strength(1, v, dx * dy, r, dt), DELAY(n), 0, dt, nt, cp, h + n*nt);
      }
    }
  }
}

// Focusing delay in microseconds of a point of the aperture: zero for no focusing (and for methods that do not apply to a
// continuous aperture), otherwise the difference in path to the focus between the outermost point and this one.
static double focus(FocusMet met, double F, double xs, double ys, double xmax, double ymax, double rmax, double cp)
{
  if (met == FocusMet::x)
    return (hyp(xmax, F) - hyp(xs, F)) * 1000 / cp;
  if (met == FocusMet::y)
    return (hyp(ymax, F) - hyp(ys, F)) * 1000 / cp;
  if (met == FocusMet::xy)
    return (hyp(rmax, F) - dist(xs, ys, F)) * 1000 / cp;
  if (met == FocusMet::x_y)
    return (hyp(rmax, F) - (hyp(xs, F) + hyp(ys, F))) * 1000 / cp;
  return 0;
}

extern "C" void spec_dreamrect_f(idx start, idx stop, double alpha, double *Ro, idx No, double a, double b, FocusMet met,
                                 double F, double dx, double dy, double dt, idx nt, DelayType dtype, double *delay, double v,
                                 double cp, double *h, ErrorLevel)
{
  POINTS(n) {
    for (idx i = 0; i < nt; i++)
      h[n*nt + i] = 0;
    for (idx j = 0; -b/2 + dy/2 + j*dy <= b/2; j++)
      for (idx i = 0; -a/2 + dx/2 + i*dx <= a/2; i++) {
        double xs = -a/2 + dx/2 + i*dx, ys = -b/2 + dy/2 + j*dy;
        double r = dist(Ro[n] - xs, Ro[n + No] - ys, Ro[n + 2*No]);
        deposit(alpha, r, strength(1, v, dx * dy, r, dt), DELAY(n), focus(met, F, xs, ys, a, b, sqrt(a*a + b*b), cp), dt, nt, cp,
                h + n*nt);
      }
  }
}

extern "C" void spec_dreamcirc_f(idx start, idx stop, double alpha, double *Ro, idx No, double R, FocusMet met,
                                 double F, double dx, double dy, double dt, idx nt, DelayType dtype, double *delay, double v,
                                 double cp, double *h, ErrorLevel)
{
  POINTS(n) {
    for (idx i = 0; i < nt; i++)
      h[n*nt + i] = 0;
    for (idx j = 0; -R + dy/2 + j*dy <= R; j++) {
      double ys = -R + dy/2 + j*dy;
      double w = sqrt(R*R - ys*ys);
      for (idx i = 0; -w + dx/2 + i*dx <= w; i++) {
        double xs = -w + dx/2 + i*dx;
        double r = dist(Ro[n] - xs, Ro[n + No] - ys, Ro[n + 2*No]);
        deposit(alpha, r, strength(1, v, dx * dy, r, dt), DELAY(n), focus(met, F, xs, ys, R, R, R, cp), dt, nt, cp, h + n*nt);
      }
    }
  }
}
