CONSTANTS N = 7
Par = 6
MaxRounds = 3
Variant = "ok"
SPECIFICATION Spec
INVARIANTS Count OneRound AtMost Emit
