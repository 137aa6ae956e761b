// Uses of the library's absorption filter, analysed together with its source.
#include "attenuation.h"

extern "C" void drive_att(dream_idx_type len, double dt, double alpha, double r, dream_idx_type it, double *h, double ai,
                          dream_idx_type element)
{
  Attenuation att(len, dt, alpha);
  FFTCVec xc(len);
  FFTVec x(len);
  att.att(xc, x, r, it, h, ai, element);
}
