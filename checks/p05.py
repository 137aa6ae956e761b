from fractions import Fraction as Q
from sa import kernels as K, expr as X
from .common import ASSUME_KERNEL as ASSUME, EXPLAIN_KERNEL as EXPLAIN, TECH_KERNEL as TECHNIQUE, NOTE_KERNEL as NOTE
LEVEL = "translation_validation"
MIN_OBLIGATIONS = 2


def check(tier):
    r = K.Result("P05")
    J = X.atom("sym", "J", isint=True, dom=(0, None))

    def place(ps):
        n, el = ps[0].leaf, ps[7].leaf
        return [X.padd(X.padd(n, X.patom(J), -1), X.ONE, -1)], [(5, X.pscale(X.padd(X.pmul(n, el), X.patom(J)), Q(8)))]
    for name, mins, fixed in ((" (single response)", {0: 1, 4: 0}, {7: 0}), (" (response of a later element)", {0: 1, 4: 0, 7: 1}, {})):
        K.drive(r, "drive_att", ["src/attenuation.cc"], "drive_att", "att", "spec_attenuation", place, mins=mins, fixed=fixed,
                what="absorbed pulse", label=name)
    return r
