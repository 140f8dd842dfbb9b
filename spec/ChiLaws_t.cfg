CONSTANTS MaxK = 5
MaxN = 7
SPECIFICATION Spec
INVARIANTS Sum Zero Att TailLaw Emit
