"""C07: the transforms of implementation "pjax" compute the wavelet transform."""
import lat
from checks import transforms as T
from checks.transforms import ASSUMPTIONS, RULE, run  # noqa: F401

PROPERTY = "C07"
CHUNK = 10**6
IMPL = ("pjax",)


def plan(tier):
    return T.plan_grouped(tier, IMPL)
