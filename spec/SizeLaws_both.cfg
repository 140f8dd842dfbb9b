CONSTANTS Ns = {5}
Reps = {2}
Intens <- IntensDef
Areas2 = {32, 50}
SPECIFICATION Spec
INVARIANTS FloorEverywhere
