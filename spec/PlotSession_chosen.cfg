SPECIFICATION Spec
CONSTANTS Steps = 3 Close = "own" Draw = "chosen" Emitting = FALSE
INVARIANT Faithful
