// Reference specifications: what each computation is documented to produce, written as plainly as possible and without any
// concern for speed.  They are never executed: both these and the implementation are reduced to a normal form that is compared.
#pragma once
#include <math.h>
#include "dream.h"
typedef dream_idx_type idx;
static const double PI = 3.14159265358979323846;

extern "C" {
  // the lossy response: attenuated Green's function for distance r and start sample it, scaled and added to h
  void spec_att(idx nt, double dt, double alpha, double r, idx it, double *h, double ai);
  // a cell whose sample lies outside the response
  void spec_oob();
  // scratch array, all zero
  void *calloc(__SIZE_TYPE__, __SIZE_TYPE__) __attribute__((nothrow));
}
static inline double *zeros(idx n) { return (double *) calloc(n, sizeof(double)); }

static inline double hyp(double x, double y) { return sqrt(x*x + y*y); }
static inline double dist(double x, double y, double z) { return sqrt(x*x + y*y + z*z); }

// Contribution of a cell of area ds at distance r [mm]: w v ds / (2 pi r) per sample, in SI units.
static inline double strength(double w, double v, double ds, double r, double dt)
{
  return w * v * ds / (2 * PI * r) * 1000 / dt;
}

// One cell's contribution of strength ai at distance r; extra is a focusing delay [us].
static inline void deposit(double alpha, double r, double ai, double delay, double extra, double dt, idx nt, double cp, double *h)
{
  idx it = (idx) rint((r * 1000 / cp - delay + extra) / dt);
  if (it < 0 || it >= nt)
    spec_oob();
  else if (alpha > 2.220446049250313e-16)
    spec_att(nt, dt, alpha, r, it, h, ai);
  else
    h[it] += ai;
}

// Flat rectangle a x b centred at the origin.
static inline void rect_element(double alpha, double xo, double yo, double zo, double a, double b, double dx, double dy, double dt,
                                idx nt, double delay, double v, double cp, double *h, double weight)
{
  for (idx j = 0; -b/2 + dy/2 + j*dy <= b/2; j++)
    for (idx i = 0; -a/2 + dx/2 + i*dx <= a/2; i++) {
      double r = dist(xo - (-a/2 + dx/2 + i*dx), yo - (-b/2 + dy/2 + j*dy), zo);
      deposit(alpha, r, strength(weight, v, dx * dy, r, dt), delay, 0, dt, nt, cp, h);
    }
}

// Flat disc of radius R: rows of cells, each row as wide as the disc is there.
static inline void circ_element(double alpha, double xo, double yo, double zo, double R, double dx, double dy, double dt,
                                idx nt, double delay, double v, double cp, double *h, double weight)
{
  for (idx j = 0; -R + dy/2 + j*dy <= R; j++) {
    double ys = -R + dy/2 + j*dy;
    double w = sqrt(R*R - ys*ys);
    for (idx i = 0; -w + dx/2 + i*dx <= w; i++) {
      double r = dist(xo - (-w + dx/2 + i*dx), yo - ys, zo);
      deposit(alpha, r, strength(weight, v, dx * dy, r, dt), delay, 0, dt, nt, cp, h);
    }
  }
}

// Cylindrical segment of chord b, curved with radius |Rcurv| about the x axis: the grid is regular in x and in the angle;
// Rcurv < 0 is convex (the surface bends away from the field).
static inline void cylind_element(double alpha, double xo, double yo, double zo, double a, double b, double Rcurv, double dx,
                                  double dy, double dt, idx nt, double delay, double v, double cp, double *h, double weight)
{
  double R = fabs(Rcurv);
  double half = atan((b/2) / sqrt(Rcurv*Rcurv - b*b/4));
  double dphi = asin(dy / R);
  for (idx j = 0; -half + dphi/2 + j*dphi <= half; j++) {
    double ys = R * sin(-half + dphi/2 + j*dphi);
    double sag = R - sqrt(R*R - ys*ys);
    for (idx i = 0; -a/2 + dx/2 + i*dx <= a/2; i++) {
      double r = dist(xo - (-a/2 + dx/2 + i*dx), yo - ys, Rcurv >= 0 ? zo - sag : zo + sag);
      deposit(alpha, r, strength(weight, v, R * dx * dphi, r, dt), delay, 0, dt, nt, cp, h);
    }
  }
}
