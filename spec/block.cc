// Reference for copy_p and add_p: B goes into (is added to) the block of A with rows r[0]..r[1] and columns k[0]..k[1]
// (counted from one).  start and stop number the columns of B a thread works on.

void spec_copy_p(long start, long stop, double *A, long A_M, const double *r, const double *k, const double *B, long B_M)
{
  for (long n=start; n<stop; n++)
    for (long l=0; l < (long) (r[1] - r[0] + 1); l++)
      A[(long) (r[0]-1) + l + ((long) (k[0]-1) + n)*A_M] = B[l + n*B_M];
}

void spec_add_p(long start, long stop, double *A, long A_M, const double *r, const double *k, const double *B, long B_M)
{
  for (long n=start; n<stop; n++)
    for (long l=0; l < (long) (r[1] - r[0] + 1); l++)
      A[(long) (r[0]-1) + l + ((long) (k[0]-1) + n)*A_M] += B[l + n*B_M];
}
