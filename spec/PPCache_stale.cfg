SPECIFICATION Spec
CONSTANTS Objs = {1, 2} Wins = {1, 2}
 Cached = {"mbb", "nnd", "lambda_window"}
 Shared = FALSE
INVARIANT Coherent
