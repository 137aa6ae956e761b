// Uses of the convolution functions, analysed together with their sources.
#include "conv.h"
#include "fftconv.h"
#include "fftconv_p.h"

extern "C" void drive_fftconv_p(double *Y, const double *A, dream_idx_type A_M, dream_idx_type A_N, const double *B, dream_idx_type B_M,
                                dream_idx_type B_N, ConvMode mode)
{
  FFTConvP c;
  c.run(Y, A, A_M, A_N, B, B_M, B_N, mode);
}

extern "C" void drive_conv(double *Y, double *A, dream_idx_type A_M, double *B, dream_idx_type B_M, ConvMode mode)
{
  conv(A, A_M, B, B_M, Y, mode);
}

extern "C" void drive_fftconv(double *Y, double *A, dream_idx_type A_M, double *B, dream_idx_type B_M, ConvMode mode)
{
  dream_idx_type n = A_M + B_M - 1;
  FFT fft(n);
  FFTVec a(n), b(n), c(n);
  FFTCVec af(n), bf(n), cf(n);
  fftconv(fft, A, A_M, B, B_M, Y, a.get(), b.get(), c.get(), af.get(), bf.get(), cf.get(), mode);
}
