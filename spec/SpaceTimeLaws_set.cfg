SPECIFICATION Spec
CONSTANTS NMax = 3 G = 1 TG = 1 Rule = "perm" Cond = "set" Emitting = FALSE
INVARIANTS Conditional
