SPECIFICATION Spec
CONSTANTS N = 4 XMax = 3 TMax = 1 Links = "all" Emitting = TRUE
INVARIANTS Components Listed
