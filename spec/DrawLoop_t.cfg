CONSTANTS N = 12
Par = 9
MaxRounds = 3
Variant = "ok"
SPECIFICATION Spec
INVARIANTS Count OneRound AtMost Emit
