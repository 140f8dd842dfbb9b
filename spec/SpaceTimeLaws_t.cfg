SPECIFICATION Spec
CONSTANTS NMax = 4 G = 1 TG = 2 Rule = "perm" Cond = "swap" Emitting = TRUE
INVARIANTS TableOk MeanOk Relabel Conditional Hyper SwapUniform
