SPECIFICATION TSpec
CONSTANT Groups = {"coherence"}
