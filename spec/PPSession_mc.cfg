SPECIFICATION SpecMC
CONSTANTS MaxObj = 2 MaxN = 2 Grid = 1 Steps = 2 Random = FALSE
 Namings <- NamingsMC Kinds <- KindsMC Wins <- NoWins
INVARIANTS TypeOK UniqueLaws SuperLaws ExplodeLaws HullLaws
VIEW View
