from fractions import Fraction as Q
from sa import kernels as K, expr as X, build
from .common import ASSUME_KERNEL as ASSUME, EXPLAIN_KERNEL as EXPLAIN, TECH_KERNEL as TECHNIQUE, NOTE_KERNEL as NOTE, parallel
LEVEL = "translation_validation"
MIN_OBLIGATIONS = 6
J = X.patom(X.atom("sym", "J", isint=True, dom=(0, None)))
C = X.patom(X.atom("sym", "C", isint=True, dom=(0, None)))


def below(j, n):
    return X.padd(X.padd(n, j, -1), X.ONE, -1)


def points(file, worker, src, spec, defs, single):
    def place(ps):
        n = ps[6].leaf
        c = X.padd(ps[0].leaf, C)
        return [below(J, n), below(c, ps[1].leaf)], [(12, X.pscale(X.padd(X.pmul(c, n), J), Q(8)))]
    r = K.Result("P08")
    K.drive(r, "drive_oct_sir", [src], "drive_points", "sir", spec, place, mins={6: 1, 11: 1}, fixed={7: 0 if single else 1}, what="response",
            label=f" ({file}, {'common delay' if single else 'delay per point'})",
            defs=(f'-DSOURCE="{build.REPO}/extra_src/{file}"', f"-DWORKER={worker}") + defs, inline_workers=True)
    return r


def rect():
    r = K.Result("P08")
    K.kernel(r, ["extra_src/rect_sir.cc"], r"::rect_sir\(", "sir", "spec_rect_sir", 10, 5, token=False)
    return r


def one(a):
    return a[0](*a[1:])


def check(tier):
    jobs = [(points, "oct_circ_sir.cc", "smp_dream_circ_sir", "extra_src/circ_sir.cc", "spec_circ_sir", (), s) for s in (True, False)]
    jobs += [(points, "oct_scirc_sir.cc", "smp_dream_scirc_sir", "extra_src/scirc_sir.cc", "spec_scirc_sir", ("-DSAMPLED",), s)
             for s in (True, False)]
    jobs += [(rect,)]
    return parallel("P08", one, jobs)
