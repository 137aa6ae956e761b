from fractions import Fraction as Q
from sa import kernels as K, expr as X, build
from .common import ASSUME_KERNEL as ASSUME, EXPLAIN_KERNEL as EXPLAIN, TECH_KERNEL as TECHNIQUE, NOTE_KERNEL as NOTE, parallel
LEVEL = "translation_validation"
MIN_OBLIGATIONS = 32
J = X.patom(X.atom("sym", "J", isint=True, dom=(0, None)))
C = X.patom(X.atom("sym", "C", isint=True, dom=(0, None)))
MODES = ("=", "+=", "-=")
DIRECT, FFT = ["extra_src/conv.cc"], ["extra_src/fftconv.cc"]


def length(a, b):
    return X.padd(X.padd(a.leaf, b.leaf), X.ONE, -1)


def below(j, n):
    return X.padd(X.padd(n, j, -1), X.ONE, -1)


def vector(fn, src, mode):
    def place(ps):
        n = length(ps[2], ps[4])
        return [below(J, n)], [(0, X.pscale(J, Q(8)))]
    r = K.Result("P07")
    K.drive(r, "drive_conv", src, "drive_" + fn, "conv", f"spec_{fn}1", place, mins={2: 1, 4: 1}, fixed={5: mode}, what="convolution",
            label=f" ({fn}, '{MODES[mode]}')")
    return r


def columns(file, worker, kind, src, spec, mode, matrix):
    def place(ps):
        n = length(ps[4], ps[6])
        c = X.padd(ps[0].leaf, C)
        return [below(J, n), below(c, ps[1].leaf)], [(2, X.pscale(X.padd(X.pmul(c, n), J), Q(8)))]
    r = K.Result("P07")
    fixed, mins = {8: mode}, {4: 1, 6: 1, 9: 1, 11: 1}
    if matrix:
        mins[7] = 2
    else:
        fixed[7] = 1
    K.drive(r, "drive_oct_conv", src, "drive_columns", "conv", spec, place, mins=mins, fixed=fixed, what="columns",
            label=f" ({file}, '{MODES[mode]}', {'matrix' if matrix else 'vector'} second operand)",
            defs=(f'-DSOURCE="{build.REPO}/extra_src/{file}"', f"-DWORKER={worker}", f"-DKIND={kind}"), inline_workers=True)
    return r


def threaded(mode, matrix):
    from sa import arrays

    def place(ps, c):
        n = length(ps[2], ps[5])
        if not matrix:
            n = X.padd(X.padd(ps[2].leaf, X.pmul(ps[5].leaf, ps[6].leaf)), X.ONE, -1)
        return [below(J, n)], [(0, X.pscale(X.padd(X.pmul(c, n), J), Q(8)))]
    r = K.Result("P07")
    mins, fixed = {2: 1, 3: 1, 5: 1, 6: 1}, {7: mode}
    if matrix:
        mins.update({5: 2, 6: 2})
    else:
        fixed[6] = 1
    K.driven_arrays(r, "drive_conv", FFT + ["extra_src/fftconv_p.cc"], "drive_fftconv_p", "conv", "spec_fftconv_p", fixed, mins, "oct", (),
                    f" (FFTConvP::run, '{MODES[mode]}', {'matrix' if matrix else 'vector'} second operand)", None, 8, place,
                    arrays.fft_model)
    return r


WORKERS = [("oct_conv_p.cc", "smp_dream_conv", 0, DIRECT, "spec_conv"), ("oct_fftconv_p.cc", "smp_dream_fftconv", 1, FFT, "spec_fftconv"),
           ("oct_fftconv_ola.cc", "smp_dream_fftconv_ola", 2, FFT, "spec_fftconv_ola")]


def one(a):
    return a[0](*a[1:])


def check(tier):
    jobs = [(vector, f, s, m) for f, s in (("conv", DIRECT), ("fftconv", FFT)) for m in range(3)]
    jobs += [(columns,) + w + (m, b) for w in WORKERS for m in range(3) for b in (False, True)]
    jobs += [(columns, "oct_sum_fftconv.cc", "smp_dream_sum_fftconv", 3, FFT, "spec_sum_fftconv", m, True) for m in (0, 1)]
    jobs += [(threaded, m, b) for m in range(3) for b in (False, True)]
    return parallel("P07", one, jobs)
