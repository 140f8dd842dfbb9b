CONSTANTS MaxK = 4
MaxN = 5
SPECIFICATION Spec
INVARIANTS Sum Zero Att TailLaw Emit
