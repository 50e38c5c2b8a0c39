------------------------------- MODULE Races -------------------------------
(* When accesses of several threads to one piece of memory clash.  A record  *)
(* of an access: thread t, writing or not (w), lock held (l, 0 for none),    *)
(* bytes of the word touched (m).                                            *)
EXTENDS Integers, Sequences
Overlap(a, b) == \E i \in DOMAIN a.m : a.m[i] = 1 /\ b.m[i] = 1
Clash(a, b) == a.t # b.t /\ (a.w \/ b.w) /\ (a.l = 0 \/ a.l # b.l) /\ Overlap(a, b)
RaceFreeCell(c) == \A i, j \in DOMAIN c : ~Clash(c[i], c[j])
=============================================================================
