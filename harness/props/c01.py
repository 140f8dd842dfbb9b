from props import _pp
from props._pp import execute  # noqa: F401

MODELS = [_pp.SIM, *_pp.CACHE]
TRACE = ("T_PP", "T_PP_C01.cfg")
scenarios = _pp.scenarios
ASSUMPTIONS = ["coordinates are lattice points scaled by 1/2 to 4000; windows are rectangles, "
               "an L shape and a square with a hole"]
