SPECIFICATION Spec
CONSTANTS Objs = {1, 2} Wins = {1, 2}
 Cached = {"mbb", "nnd"}
 Shared = TRUE
INVARIANT Coherent
