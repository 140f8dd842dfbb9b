SPECIFICATION Spec
CONSTANTS N = 3 XMax = 2 TMax = 1 Links = "all" Emitting = TRUE
INVARIANTS Components Listed
