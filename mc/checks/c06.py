"""C06: the transforms of implementation "c" compute the wavelet transform."""
import lat
from checks import transforms as T
from checks.transforms import ASSUMPTIONS, RULE, run  # noqa: F401

PROPERTY = "C06"
CHUNK = 10**6
IMPL = ("c",)


def plan(tier):
    return T.plan_grouped(tier, IMPL)
