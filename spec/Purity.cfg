CONSTANTS Fns = {1, 2}
Objs = {1, 2}
Depth = 4
Variant = "ok"
Emitting = TRUE
SPECIFICATION Spec
INVARIANTS Untouched Determined Sensitive Emit
