SPECIFICATION Spec
CONSTANTS N = 4 XMax = 3 TMax = 0 Links = "first" Emitting = FALSE
INVARIANTS Components Listed
