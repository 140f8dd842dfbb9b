SPECIFICATION Spec
CONSTANTS Steps = 4 Close = "own" Draw = "new" Emitting = TRUE
INVARIANT Faithful
