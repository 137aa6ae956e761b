// The column worker WORKER of an Octave convolution function, called for the columns [start, stop).  The file is included so
// that its private record type can be named; KIND selects the operands it has.
#include SOURCE
extern "C" void drive_columns(dream_idx_type start, dream_idx_type stop, double *Y, double *A, dream_idx_type A_M, double *B,
                              dream_idx_type B_M, dream_idx_type B_N, ConvMode mode, dream_idx_type block_len, double **H,
                              int L)
{
  DATA D;
  D.col_start = start;
  D.col_stop = stop;
  D.Y = Y;
  D.conv_mode = mode;
#if KIND == 3
  D.H = H;
  D.L = L;
  D.H_M = A_M;
  D.U = B;
  D.U_M = B_M;
  D.U_N = L;
#else
  D.A = A;
  D.A_M = A_M;
  D.B = B;
  D.B_M = B_M;
  D.B_N = B_N;
#endif
#if KIND == 1
  FFT fft(A_M + B_M - 1);
  D.fft = &fft;
#elif KIND == 2
  FFT fft(block_len + B_M - 1);
  D.fft = &fft;
  D.block_len = block_len;
#elif KIND == 3
  FFT fft(A_M + B_M - 1);
  D.fft = &fft;
#endif
  WORKER(&D);
}
