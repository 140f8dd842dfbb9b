CONSTANTS M = 6
V = {0, 1, 2, 3}
Rule = "geq"
SPECIFICATION Spec
INVARIANTS Level Bounds Largest
