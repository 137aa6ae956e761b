from sa import kernels as K
from .common import ASSUME_KERNEL as ASSUME, EXPLAIN_KERNEL as EXPLAIN, TECH_KERNEL as TECHNIQUE, NOTE_KERNEL as NOTE
LEVEL = "translation_validation"
MIN_OBLIGATIONS = 5
# entry point: (position of nt, position of h)
JOBS = {"dreamrect": (8, 13), "dreamcirc": (7, 12), "dreamline": (7, 12), "dreamcylind": (9, 14), "dreamsphere": (8, 13)}


def check(tier):
    r = K.Result("P01")
    for j, (nt, h) in JOBS.items():
        K.kernel(r, [f"src/{j}.cc", "src/attenuation.cc"], rf"::{j}\(", "dream_single", f"spec_{j}", h, nt)
    return r
