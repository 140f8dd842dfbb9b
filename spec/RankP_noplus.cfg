CONSTANTS M = 4
V = {0, 1, 2}
Rule = "noplus"
SPECIFICATION Spec
INVARIANTS Level Bounds Largest
