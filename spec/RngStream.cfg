CONSTANTS Fns = {1}
Seeds = {7, 8}
Gens = {1, 2}
Depth = 4
Variant = "ok"
Emitting = TRUE
SPECIFICATION Spec
INVARIANTS Reproducible Advances SeedsDiffer Emit
PROPERTIES Isolated
