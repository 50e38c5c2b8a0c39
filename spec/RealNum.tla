------------------------------ MODULE RealNum ------------------------------
(* Real numbers for TLC.  A real is a value of its own kind (a double); an  *)
(* integer may stand wherever a real may.  The operators whose body is the  *)
(* constant Java are evaluated by RealNum.class (java/RealNum.java); every  *)
(* other operator of every other module is plain TLA+.                      *)
EXTENDS Integers, Sequences
LOCAL Java == CHOOSE x \in {} : TRUE

RAdd(x, y) == Java     RSub(x, y) == Java     RMul(x, y) == Java     RDiv(x, y) == Java
RNeg(x) == Java        RAbs(x) == Java        RSqrt(x) == Java       RExp(x) == Java
RLog(x) == Java        RPow(x, y) == Java     RSin(x) == Java        RCos(x) == Java
RAsin(x) == Java       RAcos(x) == Java       RAtan2(y, x) == Java   RTanh(x) == Java
RMax2(x, y) == Java    RMin2(x, y) == Java    RFloor(x) == Java      RCeil(x) == Java
RLt(x, y) == Java      RLe(x, y) == Java      REq(x, y) == Java
IsNaN(x) == Java       IsFin(x) == Java
RNum(n, d) == Java     \* the rational n/d
RLit(s) == Java        \* the real written in the string s
RNaN == Java
RNormCdf(x) == Java   \* standard normal distribution function
RGammaP(a, x) == Java \* regularized lower incomplete gamma function
RNormQuantile(p) == Java
RGammaQuantile(p, a) == Java
RStudentCdf(x, n) == Java
RStudentQuantile(p, n) == Java
RF32(x) == Java        \* x rounded to single precision
RSum(s) == Java        RMaxOf(s) == Java      RMinOf(s) == Java
RDot(s, t) == Java     RSort(s) == Java
RNear(x, y, abs, rel) == Java
RClose(x, y) == Java   \* same structure, with numbers equal or next to equal
RInv(A) == Java        \* inverse of a matrix (rows), all NaN where there is none
RSqrtm(A) == Java      \* symmetric square root of a symmetric matrix
ReadTraces(file) == Java
\* s with every element evaluated
Tab(s) == s
\* Euclidean distance of two points
RDist(s, t) == RSqrt(RSum([i \in DOMAIN s |-> RMul(RSub(s[i], t[i]), RSub(s[i], t[i]))]))
Total(e) == e          \* e, or FALSE where TLC cannot give e a value

x (+) y == RAdd(x, y)
x (-) y == RSub(x, y)
x (.) y == RMul(x, y)
x (/) y == RDiv(x, y)
x \prec y == RLt(x, y)
x \preceq y == RLe(x, y)
x \succ y == RLt(y, x)
x \succeq y == RLe(y, x)
=============================================================================
