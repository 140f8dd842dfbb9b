SPECIFICATION SpecMC
CONSTANTS MaxObj = 3 MaxN = 2 Grid = 1 Steps = 3 Random = FALSE
 Namings <- NamingsMC Kinds <- KindsMC Wins <- WinsMC
INVARIANTS TypeOK UniqueLaws SuperLaws ExplodeLaws HullLaws
VIEW View
