------------------------------ MODULE StoreGen ------------------------------
(* Every history of a given length of reading, storing, changing, making and *)
(* forgetting the fields of one file.  T lies under the file, N does not,    *)
(* and al stands for N.  The operators of ClientStore keep the store; beside *)
(* it the history alone says what each field must be.  That the two agree is *)
(* checked for every history here, that the code agrees with them when the   *)
(* histories are executed.                                                   *)
EXTENDS ClientStore
CONSTANT Depth
VARIABLES s, h
Vars == {"T", "N"}
Times == {0, 1}
UnderVal(t) == 10 + t
F0(x) == << << <<x>> >> >>
Init == /\ s = [MemNew([lats |-> << <<60>> >>, lons |-> << <<10>> >>, times |-> <<0, 1>>, vars |-> [n \in {"T"} |-> <<F0(UnderVal(0)), F0(UnderVal(1))>>]]) EXCEPT !.al = [n \in {"al"} |-> "N"]]
        /\ h = <<>>
Step(w, s2) == Len(h) < Depth /\ h' = Append(h, w) /\ s' = s2
T2S(t) == IF t = 0 THEN "0" ELSE "1"
K == Len(h) + 1
GetStep == \E n \in Vars \cup {"al"}, t \in Times : Step(<<"get", n, T2S(t)>>, Read(s, Resolve(s, n), t, FALSE))
Skip == \E n \in Vars, t \in Times : Step(<<"skip", n, T2S(t)>>, Read(s, n, t, TRUE))
Poke == \E n \in Vars, t \in Times : LET r == Read(s, n, t, FALSE) IN Step(<<"poke", n, T2S(t)>>, Store(r, n, t, F0(100 * K)))
Add == \E n \in Vars, t \in Times : Step(<<"add", n, T2S(t)>>, Store(s, n, t, F0(100 * K)))
Make == \E n \in Vars : Step(<<"init", n, "0">>, InitVar(s, n))
HasStep == \E n \in Vars : Step(<<"has", n, "0">>, s)
Clear == Step(<<"clear", "T", "0">>, [s EXCEPT !.fs = <<>>])
Next == GetStep \/ Skip \/ Poke \/ Add \/ Make \/ HasStep \/ Clear

\* ---- what the history alone says ------------------------------------------------------
Since == LET c == {i \in 1..Len(h) : h[i][1] = "clear"} IN IF c = {} THEN 1 ELSE MaxIn(c) + 1
Puts(n, t) == {i \in Since..Len(h) : h[i][1] \in {"poke", "add"} /\ h[i][2] = n /\ h[i][3] = T2S(t)}
\* a field asked for without reading, when it was not there, is missing from then on; so are then all times not there
Skips(n) == {i \in Since..Len(h) : h[i][1] = "skip" /\ h[i][2] = n}
Touch(n, t, i) == \E j \in Since..(i - 1) : h[j][2] = n /\ h[j][3] = T2S(t) /\ h[j][1] \in {"get", "poke", "add"}
Blank(n, t) == \E i \in Skips(n) : ~Touch(n, t, i) /\ (h[i][3] = T2S(t) \/ (LET u == IF h[i][3] = "0" THEN 0 ELSE 1 IN ~Touch(n, u, i)))
Want(n, t) == IF Puts(n, t) # {} THEN F0(100 * MaxIn(Puts(n, t))) ELSE IF n = "N" \/ Blank(n, t) THEN F0(MV) ELSE F0(UnderVal(t))
Right == \A n \in Vars, t \in Times : FieldAt(s, n, t, FALSE) = Want(n, t)
HasRight == HasVar(s, "T") /\ HasVar(s, "N") = (\E i \in Since..Len(h) : h[i][2] \in {"N", "al"} /\ h[i][1] \in {"get", "skip", "poke", "add", "init"})
Out == Len(h) = Depth => PrintT("H" \o ToString(h))
=============================================================================
