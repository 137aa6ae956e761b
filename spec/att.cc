// Reference: a pressure pulse that has travelled r [mm] through a medium with absorption alpha [dB/(cm MHz)], sampled at dt [us],
// arriving at sample `it`: amplitude spectrum exp(-alpha r f) and the minimum-phase-like delay of Piwakowski and Sbai (A6).
#include "spec.h"
extern "C" void spec_c2r(idx n, double *spectrum, double *x);   // unnormalised inverse transform, consumes the spectrum

extern "C" void spec_attenuation(idx n, double dt, double alpha, double r, idx it, double *h, double ai, idx element)
{
  double *S = zeros(2*(n/2 + 1)), *g = zeros(n);
  double a = alpha / (8.686 * 10000);     // Np/(m Hz)
  double T = dt * 1e-6;                   // s
  double R = r * 1e-3;                    // m
  for (idx k = 0; k <= n/2; k++) {
    if (k == 0) {
      S[0] = 1;
      S[1] = 0;
    } else {
      double w = k * (2*PI/n) / T;        // rad/s
      double amplitude = exp(-R * a * w / (2*PI));
      double phase = -w * R * a / (PI*PI) * log(1 / (T * 0.95 / PI * w)) - it * T * w;
      S[2*k] = amplitude * cos(phase);
      S[2*k + 1] = amplitude * sin(phase);
    }
  }
  spec_c2r(n, S, g);
  for (idx i = 0; i < n; i++)
    h[element*n + i] += ai * (g[i] / n);
}
