----------------------------- MODULE ClientBase -----------------------------
(* What the parts of the command-line program have in common: text as a     *)
(* sequence of characters, the missing value -999, and key-value options.    *)
EXTENDS Curves

\* ---- text -------------------------------------------------------------------
RECURSIVE Join(_), SplitAt(_, _, _)
Join(s) == IF Len(s) = 0 THEN "" ELSE s[1] \o Join(Tail(s))
\* the runs of characters of s outside D, from position i on
SplitAt(s, D, i) ==
  LET start == {j \in i..Len(s) : s[j] \notin D} IN
  IF start = {} THEN <<>>
  ELSE LET a == MinIn(start)
           stop == {j \in a..Len(s) : s[j] \in D}
           b == IF stop = {} THEN Len(s) + 1 ELSE MinIn(stop)
       IN <<SubSeq(s, a, b - 1)>> \o SplitAt(s, D, b)
Split(s, D) == SplitAt(s, D, 1)
Words(s) == Split(s, {" "})
Find(s, c) == LET ix == {i \in 1..Len(s) : s[i] = c} IN IF ix = {} THEN 0 ELSE MinIn(ix)
RECURSIVE Fields(_, _)
\* the parts of s between the characters c
Fields(s, c) == LET k == Find(s, c) IN IF k = 0 THEN <<s>> ELSE <<SubSeq(s, 1, k - 1)>> \o Fields(SubSeq(s, k + 1, Len(s)), c)
Digit == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Range1(s) == {s[i] : i \in 1..Len(s)}
\* the value in the map m (a sequence of [k, v]) of a key
KeyIx(m, k) == {i \in 1..Len(m) : m[i].k = k}
Put(m, k, v) == IF Len(k) = 0 \/ Len(v) = 0 THEN m
                ELSE IF KeyIx(m, k) = {} THEN Append(m, [k |-> k, v |-> v])
                ELSE [m EXCEPT ![CHOOSE i \in KeyIx(m, k) : TRUE] = [k |-> k, v |-> v]]
PutWord(m, w) == LET e == Find(w, "=") IN
                 IF e = 0 THEN Put(m, w, <<"1">>) ELSE Put(m, SubSeq(w, 1, e - 1), SubSeq(w, e + 1, Len(w)))
RECURSIVE PutWords(_, _)
PutWords(m, ws) == IF Len(ws) = 0 THEN m ELSE PutWords(PutWord(m, ws[1]), Tail(ws))
Parse(s) == PutWords(<<>>, Words(s))
PairSet(m) == {<<m[i].k, m[i].v>> : i \in 1..Len(m)}
Has(m, k) == KeyIx(m, k) # {}
Get(m, k) == m[CHOOSE i \in KeyIx(m, k) : TRUE].v

\* an integer, or a decimal number, written out plainly
Unsigned(s) == IF Len(s) > 0 /\ s[1] \in {"+", "-"} THEN Tail(s) ELSE s
IsInt(s) == LET u == Unsigned(s) IN Len(u) \in 1..9 /\ Range1(u) \subseteq Digit
IsDec(s) == LET u == Unsigned(s)  k == Find(u, ".")  a == IF k = 0 THEN u ELSE SubSeq(u, 1, k - 1)  b == IF k = 0 THEN <<>> ELSE SubSeq(u, k + 1, Len(u)) IN
            Len(a) \in 1..9 /\ Range1(a) \subseteq Digit /\ Len(b) < 12 /\ Range1(b) \subseteq Digit
Number(s) == RLit(Join(IF s[1] = "+" THEN Tail(s) ELSE s))
TypedOk(o, v, t) ==
  CASE t = "str" -> o = v
    [] t = "int" -> IsInt(v) => REq(o, Number(v))
    [] t = "float" -> IsDec(v) => RNear(o, Number(v), Tiny, Eps)
    [] t = "bool" -> v \in {<<"0">>, <<"1">>} => o = (v = <<"1">>)
    [] OTHER -> FALSE
\* the elements of a list of values; a comma at its end adds none
Elements(v) == LET f == Fields(v, ",") IN IF Len(f[Len(f)]) = 0 THEN SubSeq(f, 1, Len(f) - 1) ELSE f

\* ---- the missing value --------------------------------------------------------
MV == 0 - 999
CValid(x) == IsFin(x) /\ ~REq(x, MV)
CMissing(x) == ~CValid(x)
\* the values with the missing ones as the library writes them
Cv(x) == IF CValid(x) THEN x ELSE RNaN
Cv1(s) == Tab([i \in 1..Len(s) |-> Cv(s[i])])
CSame(x, y) == (CMissing(x) /\ CMissing(y)) \/ (CValid(x) /\ CValid(y) /\ REq(x, y))
CNear(x, y, abs, rel) == (CMissing(x) /\ CMissing(y)) \/ (CValid(x) /\ CValid(y) /\ RNear(x, y, abs, rel))
\* over fields [y][x][e]
Cells(f) == {<<y, x, e>> : y \in 1..Len(f), x \in 1..Len(f[1]), e \in 1..Len(f[1][1])}
SameShape(f, g) == Len(f) = Len(g) /\ \A y \in 1..Len(f) : Len(f[y]) = Len(g[y]) /\ \A x \in 1..Len(f[y]) : Len(f[y][x]) = Len(g[y][x])
SameField(f, g) == SameShape(f, g) /\ \A c \in Cells(f) : CSame(f[c[1]][c[2]][c[3]], g[c[1]][c[2]][c[3]])
\* equal but for the rounding of values with more than 24 binary digits
RoundedField(f, g) == SameShape(f, g) /\ \A c \in Cells(f) : CNear(f[c[1]][c[2]][c[3]], g[c[1]][c[2]][c[3]], 0, RLit("1.2e-7"))
Filled(ny, nx, ne, v) == Tab([y \in 1..ny |-> [x \in 1..nx |-> [e \in 1..ne |-> v]]])
Opt(in, k, d) == IF k \in DOMAIN in THEN in[k] ELSE d
With(m, k, v) == [x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x]]
=============================================================================
