----------------------------- MODULE SchemaGen -----------------------------
(* Prints every tree.                                                      *)
EXTENDS Schema, TLC, Json
GInit == Init /\ PrintT("SEQ " \o ToJson(tree))
GSpec == GInit /\ [][FALSE]_vars
==============================================================================
