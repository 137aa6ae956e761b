from sa import kernels as K
from .common import ASSUME_KERNEL as ASSUME, EXPLAIN_KERNEL as EXPLAIN, TECH_KERNEL as TECHNIQUE, NOTE_KERNEL as NOTE
LEVEL = "translation_validation"
MIN_OBLIGATIONS = 2


def check(tier):
    r = K.Result("P04")
    K.kernel(r, ["src/dream_arr_annu.cc", "src/dreamcirc.cc", "src/attenuation.cc"], r"::dream_arr_annu\(", "dream_annu",
             "spec_dream_arr_annu", 19, 6, mins={11: 1}, token=False)
    return r
