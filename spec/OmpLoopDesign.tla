--------------------------- MODULE OmpLoopDesign ---------------------------
(* A parallel loop: iterations 1..N, each a short program over shared memory *)
(* and one register of its own, executed in any interleaving by any number of *)
(* threads (the finest: one for each iteration, each step on its own).  For  *)
(* every program: where no two iterations clash, by the definition that      *)
(* recorded executions are judged by, every interleaving leaves the memory   *)
(* that executing the iterations one after the other leaves; the order in    *)
(* which a recording executes them is then immaterial, and what is observed  *)
(* of one schedule holds for all of them.                                    *)
EXTENDS Races, FiniteSets, TLC
CONSTANTS N, L, Cells
VARIABLES prog, pc, reg, mem
vars == <<prog, pc, reg, mem>>
\* r: register := cell; w: cell := function of register and iteration; a: cell := cell + iteration, in one step under the lock
Steps == [op : {"r", "w", "a"}, c : Cells]
Programs == UNION {[1..n -> Steps] : n \in 1..L}
Start == [c \in Cells |-> 1]
Effect(i, s, r, m) ==
  CASE s.op = "r" -> <<m[s.c], m>>
    [] s.op = "w" -> <<r, [m EXCEPT ![s.c] = 10 * i + (r % 10)]>>
    [] s.op = "a" -> <<r, [m EXCEPT ![s.c] = @ + 100 * i]>>
\* what would be recorded of a cell
RecsOf(c) == {[t |-> i, w |-> prog[i][k].op # "r", l |-> IF prog[i][k].op = "a" THEN 2 ELSE 0, m |-> <<1>>] :
                <<i, k>> \in {x \in (1..N) \X (1..L) : x[2] <= Len(prog[x[1]]) /\ prog[x[1]][x[2]].c = c}}
RaceFree == \A c \in Cells : \A a, b \in RecsOf(c) : ~Clash(a, b)
Init == /\ prog \in [1..N -> Programs]
        /\ RaceFree
        /\ pc = [i \in 1..N |-> 1] /\ reg = [i \in 1..N |-> 0] /\ mem = Start
Next == \E i \in 1..N :
  /\ pc[i] <= Len(prog[i])
  /\ LET e == Effect(i, prog[i][pc[i]], reg[i], mem) IN reg' = [reg EXCEPT ![i] = e[1]] /\ mem' = e[2]
  /\ pc' = [pc EXCEPT ![i] = @ + 1]
  /\ UNCHANGED prog
\* one iteration after the other
RECURSIVE Iteration(_, _, _, _)
Iteration(i, k, r, m) == IF k > Len(prog[i]) THEN m ELSE LET e == Effect(i, prog[i][k], r, m) IN Iteration(i, k + 1, e[1], e[2])
RECURSIVE InOrder(_, _)
InOrder(i, m) == IF i > N THEN m ELSE InOrder(i + 1, Iteration(i, 1, 0, m))
Done == \A i \in 1..N : pc[i] > Len(prog[i])
Ok == Done => mem = InOrder(1, Start)
=============================================================================
