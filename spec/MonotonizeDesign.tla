-------------------------- MODULE MonotonizeDesign --------------------------
(* Making a curve monotone, node by node, for every sequence of forecasts of *)
(* at most N nodes out of 1..V.                                              *)
EXTENDS Curves
CONSTANTS N, V
VARIABLES F, s, i, kept
Init == /\ F \in UNION {[1..n -> 1..V] : n \in 1..N}
        /\ s = Mono0(F) /\ i = 2 /\ kept = <<>>
Next == \/ /\ i <= Len(F) /\ s' = MonoStep(F, s, i) /\ i' = i + 1 /\ UNCHANGED <<F, kept>>
        \/ /\ i = Len(F) + 1 /\ kept' = MonoEnd(F, s) /\ i' = i + 1 /\ UNCHANGED <<F, s>>
\* the nodes kept so far rise, in their order; nothing is lost of a curve that rises
Rises(k) == \A a \in 1..(Len(k) - 1) : k[a] < k[a + 1] /\ F[k[a]] < F[k[a + 1]]
Ok == /\ Rises(s.kept)
      /\ i > Len(F) + 1 =>
           /\ Rises(kept)
           /\ kept = Monotone(F)
           /\ (\A a \in 1..(Len(F) - 1) : F[a] < F[a + 1]) => Len(kept) = Len(F)
           \* no node kept is matched or undercut by a later one, nor reached by an earlier one
           /\ \A a \in 1..Len(kept) : \A b \in 1..Len(F) :
                 /\ b > kept[a] => F[b] > F[kept[a]]
                 /\ b < kept[a] => F[b] < F[kept[a]]
           \* and every node that is neither is kept
           /\ \A a \in 1..Len(F) : (\A b \in 1..Len(F) : (b > a => F[b] > F[a]) /\ (b < a => F[b] < F[a])) => \E c \in 1..Len(kept) : kept[c] = a
=============================================================================
