SPECIFICATION Spec
CONSTANTS Islands = FALSE Ends = "always" Emitting = FALSE
INVARIANTS Right Closed AreaOk
