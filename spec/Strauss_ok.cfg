CONSTANTS Places = {1, 2, 3, 4, 5, 6, 7}
Target = 3
Variant = "ok"
SPECIFICATION Spec
INVARIANTS BornAreFree GivesUpOnlyOnPairs Size
PROPERTIES NeverMore HardCoreKept
