SPECIFICATION Spec
CONSTANTS NMax = 3 G = 2 WMax = 2
INVARIANTS Accumulated OrderFree Equivariant WeightsAreMultiplicities MedianMinimises Psd
