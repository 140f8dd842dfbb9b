CONSTANTS Ns = {1, 2, 5, 12}
Reps = {1, 2, 3}
Intens <- IntensDef
Areas2 = {32, 50, 18}
SPECIFICATION Spec
INVARIANTS Rejected Follows Density Shape Groups Emit
