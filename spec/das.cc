// Reference: delay-and-sum beamforming.  Every image point sums, over all A-scans, the sample at the (double path) travel time.
#include "spec.h"

// a stripe electrode covers lo..hi: distance of p to it along that axis
template <class T> static T outside(T p, T lo, T hi) { return p >= lo && p <= hi ? 0 : p < lo ? lo - p : hi - p; }

template <class T> static void pick(const T *y, idx len, double t, double dt, double *sum)
{
  idx k = (idx) (t / dt * 1000);        // t [ms], dt [us]: the sample in progress at time t
  if (k < 0 || k >= len)
    spec_oob();
  else
    *sum += y[k];
}

// image point no; no receivers (Nr = 0) means that the transmitters receive
template <class T>
static void point(idx no, DASType type, idx len, idx No, idx Nt, idx Nr, const T *Y, const T *Ro, const T *Gt, const T *Gr, T dt, T delay, T cp, T *Im)
{
  double x = Ro[no], y = Ro[no + No], z = Ro[no + 2*No];
  double d = delay / 1000.0;
  double sum = 0;
  Im[no] = 0;
  if (type == DASType::saft) {
    for (idx i = 0; i < Nt; i++)
      pick<T>(Y + i*len, len, 2 * (dist(Gt[i] - x, Gt[i + Nt] - y, Gt[i + 2*Nt] - z) / cp + d), dt, &sum);
  } else if (type == DASType::tfm) {
    for (idx i = 0; i < Nt; i++)
      for (idx j = 0; j < Nr; j++)
        pick<T>(Y + (i*Nr + j)*len, len, dist(Gt[i] - x, Gt[i + Nt] - y, Gt[i + 2*Nt] - z) / cp + d
                + dist(Gr[j] - x, Gr[j + Nr] - y, Gr[j + 2*Nr] - z) / cp, dt, &sum);
  } else {
    // columns (Gt) stacked along x and as long in y as the rows reach, rows (Gr) the other way round
    idx a = type == DASType::rca_coltx ? Nt : Nr, b = type == DASType::rca_coltx ? Nr : Nt;
    for (idx i = 0; i < a; i++)
      for (idx j = 0; j < b; j++) {
        idx c = type == DASType::rca_coltx ? i : j, r = type == DASType::rca_coltx ? j : i;
        double tc = dist(Gt[c] - x, outside<double>(y, Gr[Nr], Gr[2*Nr - 1]), Gt[c + 2*Nt] - z) / cp;
        double tr = dist(outside<double>(x, Gt[0], Gt[Nt - 1]), Gr[r + Nr] - y, Gr[r + 2*Nr] - z) / cp;
        pick<T>(Y + (i*b + j)*len, len, tc + d + tr, dt, &sum);
      }
  }
  Im[no] = sum;
}

template <class T>
static void das(idx start, idx stop, DASType type, idx len, idx No, idx Nt, idx Nr, const T *Y, const T *Ro, const T *Gt, const T *Gr,
                T dt, DelayType delay_type, const T *delay, T cp, T *Im)
{
  if (Nr == 0)
    type = DASType::saft;
  for (idx no = start; no < stop; no++)
    point<T>(no, type, len, No, Nt, Nr, Y, Ro, Gt, Gr, dt, delay_type == DelayType::single ? delay[0] : delay[no], cp, Im);
}

#define INSTANCE(NAME, T) \
  extern "C" void NAME(idx start, idx stop, DASType type, idx len, idx No, idx Nt, idx Nr, const T *Y, const T *Ro, const T *Gt, \
                       const T *Gr, T dt, DelayType delay_type, const T *delay, T cp, T *Im) \
  { das<T>(start, stop, type, len, No, Nt, Nr, Y, Ro, Gt, Gr, dt, delay_type, delay, cp, Im); }
INSTANCE(spec_das_d, double)
INSTANCE(spec_das_f, float)
