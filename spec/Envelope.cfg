CONSTANTS R = 2
M = 2
Workers = {w1, w2}
Vals = {0, 1}
Variant = "ok"
SPECIFICATION Spec
INVARIANTS Consistent Determined
