// Reference: annular array.  Ring n is what lies between two concentric discs; its response is the difference of the two disc
// responses.  Each ring is weighted, delayed by a whole number of samples (its focusing delay, plus the one sample of latency
// of the superposition) and added to the output.
#include "spec.h"
#include "laws.h"

extern "C" void spec_dream_arr_annu(idx start, idx stop, double alpha, double *Ro, idx No, double dx, double dy, double dt, idx nt,
                                    DelayType dtype, double *delay, double v, double cp, idx num_radii, double *G, FocusMet fmet,
                                    double *F, double *apod, bool do_apod, ApodMet amet, double par, double *h, ErrorLevel)
{
  for (idx n = start; n < stop; n++) {
    double *out = h + n*nt;
    for (idx i = 0; i < nt; i++)
      out[i] = 0;
    idx rings = (num_radii + 1) / 2;

    // responses of all discs; a first radius of zero means that there is no centre disc
    double *disc = zeros(nt * num_radii);
    for (idx k = 0; k < num_radii; k++)
      if (!(k == 0 && G[k] <= 2.220446049250313e-16))
        circ_element(alpha, Ro[n], Ro[n + No], Ro[n + 2*No], G[k], dx, dy, dt, nt, delay[dtype == DelayType::single ? 0 : n],
                     v, cp, disc + k*nt, 1);

    // radius of the middle of each ring, zero for the centre
    double *mid = zeros(rings);
    for (idx k = 2, m = 1; k < num_radii; k += 2, m++)
      mid[m] = (G[k - 1] + G[k]) / 2;
    double R = mid[rings - 1];

    for (idx k = 0; k < rings; k++) {
      double extra = 0;
      if (fmet == FocusMet::ud)
        extra = F[k];
      else if (fmet == FocusMet::x || fmet == FocusMet::y || fmet == FocusMet::xy || fmet == FocusMet::x_y)
        extra = (hyp(R, F[0]) - hyp(mid[k], F[0])) * 1000 / cp;
      double w = do_apod ? window(amet, apod, k, mid[k], R, par) : 1;
      idx d = (idx) rint(extra / dt) + 1;
      double *ring = zeros(nt);
      for (idx i = 0; i < nt; i++)
        ring[i] = k == 0 ? disc[i] : disc[i + 2*k*nt] - disc[i + (2*k - 1)*nt];
      double *late = zeros(2*nt);
      if (d < nt)
        for (idx i = 0; i < nt; i++)
          if (i + d >= 0)
            late[i + d] = ring[i];
      for (idx i = 0; i < nt; i++)
        out[i] += w * late[i];
    }
  }
}
