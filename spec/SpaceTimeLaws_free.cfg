SPECIFICATION Spec
CONSTANTS NMax = 3 G = 1 TG = 1 Rule = "free" Cond = "swap" Emitting = FALSE
INVARIANTS Relabel
