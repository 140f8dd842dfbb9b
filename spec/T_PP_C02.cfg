SPECIFICATION TSpec
CONSTANT Groups = {"algebra"}
