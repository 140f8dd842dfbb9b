CONSTANTS N = 7
Par = 6
MaxRounds = 3
Variant = "floor"
SPECIFICATION Spec
INVARIANTS Count OneRound AtMost Emit
