SPECIFICATION Spec
CONSTANTS MaxObj = 6 MaxN = 7 Grid = 5 Steps = 14 Random = TRUE
