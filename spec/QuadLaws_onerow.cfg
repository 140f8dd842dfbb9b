CONSTANTS MaxU = 6
MaxV = 5
MaxH = 3
MaxCells = 4
Variant = "onerow"
SPECIFICATION Spec
INVARIANTS RectTotal RectCover RectTight HexCover HexTile HexNum
