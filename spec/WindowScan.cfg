SPECIFICATION Spec
CONSTANTS Islands = FALSE Ends = "closing" Emitting = TRUE
INVARIANTS Right Closed AreaOk
