// The weight of element n of N elements spread over a line from one edge of the array (1) towards the other (-1).
#include "spec.h"
#include "laws.h"
extern "C" void spec_apodwin(ApodMet met, const double *ud, idx n, idx N, double p, double *w)
{
  double x = 2 * (0.5 - (double)n / (double)N);
  *w = window(met, ud, n, sqrt(x * x), 1, p);
}
