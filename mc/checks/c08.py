"""C08: the transforms of implementation "ptorch" compute the wavelet transform."""
import lat
from checks import transforms as T
from checks.transforms import ASSUMPTIONS, RULE, run  # noqa: F401

PROPERTY = "C08"
CHUNK = 10**6
IMPL = ("ptorch",)


def plan(tier):
    return T.plan_grouped(tier, IMPL)
