CONSTANTS Fns = {1, 2}
Objs = {1, 2}
Depth = 4
Variant = "inplace"
Emitting = FALSE
SPECIFICATION Spec
INVARIANTS Untouched Determined Sensitive Emit
