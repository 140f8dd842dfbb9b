CONSTANTS M = 4
V = {0, 1, 2}
Rule = "gt"
SPECIFICATION Spec
INVARIANTS Level Bounds Largest
