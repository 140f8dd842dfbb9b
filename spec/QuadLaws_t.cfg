CONSTANTS MaxU = 16
MaxV = 15
MaxH = 6
MaxCells = 4
Variant = "ok"
SPECIFICATION Spec
INVARIANTS RectTotal RectCover RectTight HexCover HexTile HexNum Emit
