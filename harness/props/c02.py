from props import _pp
from props._pp import execute  # noqa: F401

MODELS = [_pp.SIM, _pp.LAWS]
TRACE = ("T_PP", "T_PP_C02.cfg")
scenarios = _pp.scenarios
ASSUMPTIONS = ["coordinates are lattice points scaled by 1/2 to 4000; marks are numbers or strings"]
