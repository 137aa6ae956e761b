from sa import kernels as K
from .common import ASSUME_KERNEL as ASSUME, EXPLAIN_KERNEL as EXPLAIN, TECH_KERNEL as TECHNIQUE, NOTE_KERNEL as NOTE, parallel
LEVEL = "translation_validation"
MIN_OBLIGATIONS = 10
CASES = [("saft", {0: 0}, {3: 1, 4: 0}), ("tfm", {0: 1}, {3: 1, 4: 1}), ("rca_coltx", {0: 2}, {3: 1, 4: 1}), ("rca_rowtx", {0: 3}, {3: 1, 4: 1}),
         ("no receivers", {4: 0}, {3: 1})]


def one(a):
    prec, (name, fixed, mins) = a
    r = K.Result("P06")
    K.driven(r, "drive_das", ["extra_src/das.cc"], "drive_das_" + prec, "das", "spec_das_" + prec, fixed=fixed, mins=mins,
             single=prec == "f", out=13, size=8 if prec == "d" else 4, label=f" ({'double' if prec == 'd' else 'single'}, {name})")
    return r


def check(tier):
    return parallel("P06", one, [(p, c) for p in "df" for c in CASES])
