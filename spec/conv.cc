// Reference: linear convolution of columns, directly and by way of the discrete Fourier transform of the padded signals.
#include "spec.h"
extern "C" void spec_r2c(idx n, double *x, double *spectrum);   // forward transform of n real samples
extern "C" void spec_c2r(idx n, double *spectrum, double *x);   // unnormalised inverse transform, consumes the spectrum

static inline void put(double *y, double v, int mode)
{
  if (mode == 1)
    *y += v;
  else if (mode == 2)
    *y -= v;
  else
    *y = v;
}

extern "C" void spec_conv(idx start, idx stop, double *Y, const double *A, idx A_M, const double *B, idx B_M, idx B_N, int mode)
{
  idx len = A_M + B_M - 1;
  for (idx n = start; n < stop; n++) {
    double *y = Y + n*len;
    if (mode == 0)
      for (idx i = 0; i < len; i++)
        y[i] = 0;
    for (idx i = 0; i < A_M; i++)
      for (idx j = 0; j < B_M; j++) {
        double p = A[n*A_M + i] * B[B_N > 1 ? n*B_M + j : j];
        if (mode == 2)
          y[i + j] -= p;
        else
          y[i + j] += p;
      }
  }
}

static inline void convolve(idx A_M, const double *a, idx len_a, idx B_M, const double *b, double *c)
{
  idx len = A_M + B_M - 1;
  double *x = zeros(len), *X = zeros(2*(len/2 + 1)), *y = zeros(len), *W = zeros(2*(len/2 + 1));
  for (idx i = 0; i < len_a; i++)
    x[i] = a[i];
  for (idx i = 0; i < B_M; i++)
    y[i] = b[i];
  spec_r2c(len, x, X);
  spec_r2c(len, y, W);
  for (idx k = 0; k <= len/2; k++) {
    double re = X[2*k] * W[2*k] - X[2*k + 1] * W[2*k + 1], im = X[2*k] * W[2*k + 1] + X[2*k + 1] * W[2*k];
    X[2*k] = re;
    X[2*k + 1] = im;
  }
  spec_c2r(len, X, c);
}

extern "C" void spec_fftconv(idx start, idx stop, double *Y, const double *A, idx A_M, const double *B, idx B_M, idx B_N, int mode)
{
  idx len = A_M + B_M - 1;
  for (idx n = start; n < stop; n++) {
    double *c = zeros(len);
    convolve(A_M, A + n*A_M, A_M, B_M, B_N > 1 ? B + n*B_M : B, c);
    for (idx i = 0; i < len; i++)
      put(Y + n*len + i, c[i] / len, mode);
  }
}
extern "C" void spec_conv1(double *Y, const double *A, idx A_M, const double *B, idx B_M, int mode)
{
  spec_conv(0, 1, Y, A, A_M, B, B_M, 1, mode);
}

extern "C" void spec_fftconv1(double *Y, const double *A, idx A_M, const double *B, idx B_M, int mode)
{
  spec_fftconv(0, 1, Y, A, A_M, B, B_M, 1, mode);
}

// the sum over L channels of H[l] column n with the signal l; the result is scaled once more by the length, as documented
extern "C" void spec_sum_fftconv(idx start, idx stop, double *Y, double *, idx H_M, const double *U, idx U_M, idx, int mode, idx,
                                 double **H, int L)
{
  idx len = H_M + U_M - 1;
  for (idx n = start; n < stop; n++) {
    double *C = zeros(2*(len/2 + 1)), *c = zeros(len);
    for (idx l = 0; l < L; l++) {
      double *x = zeros(len), *X = zeros(2*(len/2 + 1)), *y = zeros(len), *W = zeros(2*(len/2 + 1));
      for (idx i = 0; i < H_M; i++)
        x[i] = H[l][n*H_M + i];
      for (idx i = 0; i < U_M; i++)
        y[i] = U[l*U_M + i];
      spec_r2c(len, x, X);
      spec_r2c(len, y, W);
      for (idx k = 0; k <= len/2; k++) {
        C[2*k] += (X[2*k] * W[2*k] - X[2*k + 1] * W[2*k + 1]) / len;
        C[2*k + 1] += (X[2*k] * W[2*k + 1] + X[2*k + 1] * W[2*k]) / len;
      }
    }
    spec_c2r(len, C, c);
    for (idx i = 0; i < len; i++)
      put(Y + n*len + i, c[i] / len, mode);
  }
}

// overlap-add: blocks of A convolved one by one, their tails overlapping
extern "C" void spec_fftconv_ola(idx start, idx stop, double *Y, const double *A, idx A_M, const double *B, idx B_M, idx B_N, int mode,
                                 idx block_len)
{
  idx len = A_M + B_M - 1;
  for (idx n = start; n < stop; n++) {
    double *y = Y + n*len;
    if (mode == 0)
      for (idx i = 0; i < len; i++)
        y[i] = 0;
    for (idx k = 0; k < A_M; k += block_len) {
      double *c = zeros(block_len + B_M - 1);
      convolve(block_len, A + n*A_M + k, k + block_len < A_M ? block_len : A_M - k, B_M, B_N > 1 ? B + n*B_M : B, c);
      idx m = k + block_len < A_M ? block_len + B_M - 1 : len - k;
      for (idx i = 0; i < m; i++)
        if (mode == 2)
          y[k + i] -= c[i] / (block_len + B_M - 1);
        else
          y[k + i] += c[i] / (block_len + B_M - 1);
    }
  }
}

// the threaded form treats a second operand with one row or one column as a vector
extern "C" void spec_fftconv_p(idx start, idx stop, double *Y, const double *A, idx A_M, idx, const double *B, idx B_M, idx B_N, int mode)
{
  if (B_M == 1 || B_N == 1)
    spec_fftconv(start, stop, Y, A, A_M, B, B_M * B_N, 1, mode);
  else
    spec_fftconv(start, stop, Y, A, A_M, B, B_M, B_N, mode);
}
