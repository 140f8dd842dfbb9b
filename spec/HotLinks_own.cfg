SPECIFICATION Spec
CONSTANTS N = 3 XMax = 2 TMax = 1 Links = "own" Emitting = FALSE
INVARIANTS Components Listed
