SPECIFICATION Spec
CONSTANTS Islands = TRUE Ends = "closing" Emitting = FALSE
INVARIANTS Right Closed AreaOk
