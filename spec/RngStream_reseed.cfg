CONSTANTS Fns = {1}
Seeds = {7, 8}
Gens = {1, 2}
Depth = 3
Variant = "reseed"
Emitting = FALSE
SPECIFICATION Spec
INVARIANTS Reproducible Advances SeedsDiffer Emit
PROPERTIES Isolated
