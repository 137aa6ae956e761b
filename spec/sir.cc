// Reference: analytic spatial impulse responses of a circular and a rectangular piston.
#include "spec.h"

// cosine of half the angle the piston subtends on the circle cp*t cuts in its plane
static inline double arc(double ct, double z, double r, double rho)
{
  return (ct*ct - z*z + rho*rho - r*r) / (2*rho*sqrt(ct*ct - z*z));
}

static inline void circ(double xo, double yo, double zo, double R, double dt, idx nt, double delay, double v, double cp, double *h)
{
  double x = xo/1000, y = yo/1000, z = zo/1000, r = R/1000;
  double rho = hyp(x, y), near = hyp(z, r - rho), far = hyp(z, r + rho);
  for (idx i = 0; i < nt; i++) {
    double ct = cp * (i*dt + delay)/1e6;
    if (r > rho) {
      if (ct < z)
        h[i] = 0;
      else if (ct < near)
        h[i] = v*cp;
      else
        h[i] = ct < far ? v*cp/PI * acos(arc(ct, z, r, rho)) : 0;
    } else {
      if (ct < near || ct >= far)
        h[i] = 0;
      else
        h[i] = v*cp/PI * acos(arc(ct, z, r, rho));
    }
  }
}

static inline double angle(double c)
{
  return c < -1 ? PI : c > 1 ? 0 : acos(c);
}

// trapezoidal rule with n intervals for the angle between the times t1 and t2
static inline double integral(double t1, double t2, double z, double r, double rho, double cp, idx n)
{
  double step = (t2 - t1)/n, y = 0;
  for (idx k = 0; k < n; k++) {
    double t = t1 + k*step;
    y += (angle(arc(cp*t, z, r, rho)) + angle(arc(cp*(t + step), z, r, rho)))/2 * step;
  }
  return y;
}

static inline double part(double t1, double t2, double z, double r, double rho, double near, double far, double cp, idx n)
{
  return far > near ? cp/PI * integral(t1, t2, z, r, rho, cp, n) : 0;
}

// mean over the sampling interval around each sample, cut at time 0
static inline void scirc(double xo, double yo, double zo, double R, double dt, idx nt, double delay, double v, double cp, idx n, double *h)
{
  double x = xo/1000, y = yo/1000, z = zo/1000, r = R/1000;
  double rho = hyp(x, y), near = hyp(z, r - rho), far = hyp(z, r + rho), tn = near/cp, tf = far/cp;
  for (idx i = 0; i < nt; i++) {
    double t1 = (i*dt + delay - dt/2)/1e6, t2 = (i*dt + delay + dt/2)/1e6, s = 0;
    if (t1 < 0)
      t1 = 0;
    double c1 = cp*t1, c2 = cp*t2;
    if (r > rho) {
      if (c1 < z) {
        if (c2 < z)
          s = 0;
        else if (c2 < near)
          s = cp*(t2 - z/cp);
        else
          s = cp*(tn - z/cp) + (c2 < far ? part(tn, t2, z, r, rho, near, far, cp, n) : part(tn, tf, z, r, rho, near, far, cp, n));
      } else if (c2 < near)
        s = cp*(t2 - t1);
      else if (c1 < near)
        s = cp*(tn - t1) + (c2 < far ? part(tn, t2, z, r, rho, near, far, cp, n) : part(tn, tf, z, r, rho, near, far, cp, n));
      else if (c2 < far)
        s = part(t1, t2, z, r, rho, near, far, cp, n);
      else if (c1 < far)
        s = part(t1, tf, z, r, rho, near, far, cp, n);
    } else {
      if (c2 < near)
        s = 0;
      else if (c1 < near)
        s = c2 < far ? part(tn, t2, z, r, rho, near, far, cp, n) : part(tn, tf, z, r, rho, near, far, cp, n);
      else if (c2 < far)
        s = part(t1, t2, z, r, rho, near, far, cp, n);
      else if (c1 < far)
        s = part(t1, tf, z, r, rho, near, far, cp, n);
    }
    h[i] = v * s / (dt/1e6);
  }
}

// the four rectangles with one corner below the point and one at a corner of the piston, added or subtracted
static inline void rect(double xo, double yo, double zo, double A, double B, double dt, idx nt, double delay, double v, double cp, double *h,
                        bool drop = false)
{
  double x = fabs(xo)/1000, y = fabs(yo)/1000, z = zo/1000, a = A/1000, b = B/1000;
  for (idx i = 0; i < nt; i++)
    h[i] = 0;
  for (int j = 0; j < 2; j++)
    for (int k = 0; k < 2; k++) {
      double s = fabs(j ? a/2 + x : a/2 - x), l = fabs(k ? b/2 + y : b/2 - y);
      double sign = (j || x <= a/2) == (k || y <= b/2) ? 1 : -1;
      for (idx i = 0; i < nt; i++) {
        double t = (i*dt + delay)/1e6, w = 0;
        double end = sqrt(z*z + l*l + s*s)/cp;
        if (t <= end) {
          if (t >= z/cp)
            w += cp/4;
          if (t >= hyp(z, s)/cp)
            w -= cp/(2*PI) * acos(s/(cp*sqrt(t*t - (z/cp)*(z/cp))));
          if (t >= hyp(z, l)/cp)
            w -= cp/(2*PI) * acos(l/(cp*sqrt(t*t - (z/cp)*(z/cp))));
        }
        if (!drop || w > 0)     // w >= 0 in exact arithmetic; drop: what rounding makes negative is left out
          h[i] += v * sign * w;
      }
    }
}

extern "C" void spec_rect_sir(idx start, idx stop, double *Ro, idx No, double a, double b, double dt, idx nt, int single, double *delay,
                              double v, double cp, double *h)
{
  for (idx n = start; n < stop; n++)
    rect(Ro[n], Ro[n + No], Ro[n + 2*No], a, b, dt, nt, single == 0 ? delay[0] : delay[n], v, cp, h + n*nt);
}

extern "C" void spec_circ_sir(idx start, idx stop, double *Ro, idx No, double r, double dt, idx nt, int single, double *delay,
                              double v, double cp, idx, double *h)
{
  for (idx n = start; n < stop; n++)
    circ(Ro[n], Ro[n + No], Ro[n + 2*No], r, dt, nt, single == 0 ? delay[0] : delay[n], v, cp, h + n*nt);
}

extern "C" void spec_scirc_sir(idx start, idx stop, double *Ro, idx No, double r, double dt, idx nt, int single, double *delay,
                               double v, double cp, idx n_int, double *h)
{
  for (idx n = start; n < stop; n++)
    scirc(Ro[n], Ro[n + No], Ro[n + 2*No], r, dt, nt, single == 0 ? delay[0] : delay[n], v, cp, n_int, h + n*nt);
}
