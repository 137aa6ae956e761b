// Laws shared by several references.
#pragma once
// Aperture weight at distance r from the centre of an aperture of radius R.
static inline double window(ApodMet met, const double *ud, idx n, double r, double R, double p)
{
  switch (met) {
  case ApodMet::ud:               return ud[n];
  case ApodMet::triangle:         return 1 - fabs(r) / R;
  case ApodMet::gauss:            return exp(-p * r*r / (R*R));
  case ApodMet::raised_cosine:    return p + cos(PI * r / R);
  case ApodMet::hann:             return 0.5 - 0.5 * cos((r + R) * PI / R);
  case ApodMet::hamming:          return 25.0/46 - (1 - 25.0/46) * cos((r + R) * PI / R);
  case ApodMet::simply_supported: return 1 - r*r / (R*R);
  case ApodMet::clamped:          return (1 - r*r / (R*R)) * (1 - r*r / (R*R));
  default:                        return 1;
  }
}
