----------------------------- MODULE ObjectsGen -----------------------------
(* All histories of a given length of making, copying, assigning, destroying *)
(* and deriving grids, point sets and trees among a few names.  Every        *)
(* history is written out and then executed by the real code; Gridpp.tla     *)
(* says what each step must answer.  The model is the bare protocol: which   *)
(* step is possible when.                                                    *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Names, Depth
VARIABLES objs, h
None == "none"
Init == objs = [n \in Names |-> None] /\ h = <<>>
Step(op, n, kind, args) == /\ Len(h) < Depth
                           /\ objs' = [objs EXCEPT ![n] = kind]
                           /\ h' = Append(h, <<op, n>> \o args)
Live == {n \in Names : objs[n] # None}
\* names not in use are interchangeable: the first one is taken
Fresh == {n \in Names : objs[n] = None}
Target == Live \cup (IF Fresh = {} THEN {} ELSE {CHOOSE n \in Fresh : TRUE})
Make == \E n \in Target, k \in {"grid", "points", "tree"} : Step("mk_" \o k, n, k, <<>>)
Copy == \E m \in Live : \E n \in Target \ {m} : Step("copy", n, objs[m], <<m>>)
Assign == \E m, n \in Live : objs[m] = objs[n] /\ Step("assign", n, objs[m], <<m>>)
Del == \E n \in Live : Step("del", n, None, <<>>)
ToPoints == \E m \in Live, n \in Target : objs[m] = "grid" /\ Step("to_points", n, "points", <<m>>)
FromTree == \E m \in Live, n \in Target : objs[m] = "tree" /\ Step("mk_points_from_tree", n, "points", <<m>>)
Subset == \E m \in Live, n \in Target : objs[m] = "points" /\ Step("subset", n, "points", <<m>>)
InDomain == \E m, g \in Live, n \in Target : objs[m] = "points" /\ objs[g] = "grid" /\ Step("in_domain", n, "points", <<m, g>>)
Probe == \E n \in Live : h # <<>> /\ h[Len(h)][1] # "probe" /\ Step("probe", n, objs[n], <<>>)
Next == Make \/ Copy \/ Assign \/ Del \/ ToPoints \/ FromTree \/ Subset \/ InDomain \/ Probe
Out == Len(h) = Depth => PrintT("H" \o ToString(h))
TypeOK == \A n \in Names : objs[n] \in {None, "grid", "points", "tree"}
=============================================================================
