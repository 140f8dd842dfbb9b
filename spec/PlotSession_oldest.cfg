SPECIFICATION Spec
CONSTANTS Steps = 3 Close = "oldest" Draw = "new" Emitting = FALSE
INVARIANT Faithful
