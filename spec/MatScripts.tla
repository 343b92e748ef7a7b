----------------------------- MODULE MatScripts -----------------------------
(* Which calls the scripted runs of MatMachine make.  A suite is the set of *)
(* operations one property talks about (besides making a matrix).           *)
EXTENDS LinAlg

Pick(seq, seed, k, tt, j) == seq[Rand(seed, k, tt, j, Len(seq)) + 1]

SuiteFrames(S) == CASE S = "A04" -> <<0, 0, 1, -1, -3, -4, -6, 2, 4, 7, 60>>
                    [] OTHER -> <<0, 0, -12, -5, 5, 12, -90, 90>>
SuiteOps(S) ==
  CASE S = "A02" -> <<"set", "set", "tr", "tr", "trs", "trace", "get", "block", "init", "iden", "zero">>
    [] S = "A03" -> <<"mul", "mul", "mul", "mulx", "mulv", "vmul", "init", "iden", "mulv", "vmul">>
    [] S = "A04" -> <<"inv", "inv", "invs", "init">>
    [] S = "A05" -> <<"plus", "minus", "mulel", "div", "scale", "norm", "init", "plus", "minus", "mulel", "div", "dot", "cross">>
    [] OTHER -> <<"init", "set", "tr", "trs", "mul", "plus", "minus", "mulel", "scale", "invs", "trace",
                  "block", "mulv", "vmul", "inv", "div", "norm", "mulx">>

B2I(b) == IF b THEN 1 ELSE 0
Call(op, d, s, p) == [op |-> op, d |-> d, s |-> s, p |-> p]

(* ------------------------------- matrices ------------------------------- *)
Dense(seed, N, k, tt, lo, hi) == [q \in 1..(N * N) |-> RandIn(seed, k, tt, 100 + q, lo, hi)]
Sparse(seed, N, k, tt) == [q \in 1..(N * N) |->
   IF Rand(seed, k, tt, 200 + q, 3) = 0 THEN RandIn(seed, k, tt, 300 + q, -7, 7) ELSE 0]
NonZero(seed, N, k, tt) == [q \in 1..(N * N) |->
   LET v == RandIn(seed, k, tt, 400 + q, -8, 7) IN IF v >= 0 THEN v + 1 ELSE v]
Labels(N) == [q \in 1..(N * N) |-> q]
\* row r replaced by a combination of two others: determinant zero
Singular(seed, N, k, tt) ==
  LET m == Dense(seed, N, k, tt, -4, 4)
      r == Rand(seed, k, tt, 51, N)
      r1 == (r + 1) % N   r2 == (r + 2) % N
      a == RandIn(seed, k, tt, 52, -1, 1)   b == RandIn(seed, k, tt, 53, -1, 1)
      f(i, j) == IF i = r THEN a * At(N, m, r1, j) + b * At(N, m, r2, j) ELSE At(N, m, i, j)
      sg == MBuild(N, f)
  IN IF Rand(seed, k, tt, 54, 2) = 0 THEN sg ELSE MTrans(N, sg)
\* product of unit triangular matrices with a row permutation: determinant 1 or -1
Unimodular(seed, N, k, tt) ==
  LET lo(i, j) == IF i = j THEN 1 ELSE IF i > j THEN RandIn(seed, k, tt, 60 + 5 * i + j, -2, 2) ELSE 0
      up(i, j) == IF i = j THEN (IF Rand(seed, k, tt, 85 + i, 2) = 0 THEN 1 ELSE -1)
                  ELSE IF i < j THEN RandIn(seed, k, tt, 60 + 5 * i + j, -2, 2) ELSE 0
      sh == Rand(seed, k, tt, 99, N)
      pm(i, j) == IF j = (i + sh) % N THEN 1 ELSE 0
  IN MMul(N, MBuild(N, pm), MMul(N, MBuild(N, lo), MBuild(N, up)))
Diagonal(seed, N, k, tt) == LET f(i, j) == IF i = j THEN RandIn(seed, k, tt, 40 + i, 1, 9) ELSE 0 IN MBuild(N, f)
\* determinant 1 or -1 and one long row or column
Shear(seed, N, k, tt) ==
  LET col == Rand(seed, k, tt, 55, 2)   w == Rand(seed, k, tt, 56, N)   mag == Pick(<<30, 200, 1000, 2000>>, seed, k, tt, 57)
      f(i, j) == IF i = j THEN (IF Rand(seed, k, tt, 85 + i, 2) = 0 THEN 1 ELSE -1)
                 ELSE IF (IF col = 0 THEN i ELSE j) = w THEN RandIn(seed, k, tt, 40 + i + j, -mag, mag) ELSE 0 IN
  MBuild(N, f)
\* one row a multiple of another but for one entry: close to singular in form only
Proportional(seed, N, k, tt) ==
  LET m == Dense(seed, N, k, tt, -3, 3)
      r1 == Rand(seed, k, tt, 51, N)   r2 == (r1 + 1 + Rand(seed, k, tt, 52, N - 1)) % N
      c == IF Rand(seed, k, tt, 53, 2) = 0 THEN N - 1 ELSE Rand(seed, k, tt, 57, N)
      a == Pick(<<1, -1, 2, 3>>, seed, k, tt, 54)   x == IF Rand(seed, k, tt, 55, 3) # 0 THEN 0 ELSE RandIn(seed, k, tt, 56, -5, 5)
      f(i, j) == IF i # r2 THEN At(N, m, i, j) ELSE IF j = c THEN x ELSE a * At(N, m, r1, j)
      pr == MBuild(N, f)
  IN IF Rand(seed, k, tt, 58, 2) = 0 THEN pr ELSE MTrans(N, pr)
ZeroPivot(seed, N, k, tt) == LET m == Dense(seed, N, k, tt, -5, 5) IN [m EXCEPT ![1] = 0, ![2] = 0]

RandMatrix(S, seed, N, k, tt) ==
  LET z == Rand(seed, k, tt, 50, 8) IN
  IF S = "A05" THEN (IF z < 5 THEN NonZero(seed, N, k, tt) ELSE IF z = 5 THEN VAdd(VScale(NonZero(seed, N, k, tt), 100), NonZero(seed, N, k, tt + 50)) ELSE Dense(seed, N, k, tt, -30, 30))
  ELSE CASE z = 0 -> Sparse(seed, N, k, tt)
    [] z = 1 -> Singular(seed, N, k, tt)
    [] z = 2 -> Unimodular(seed, N, k, tt)
    [] z = 3 -> (IF S = "A04" THEN (IF Rand(seed, k, tt, 59, 3) = 0 THEN Unimodular(seed, N, k, tt) ELSE Proportional(seed, N, k, tt)) ELSE Labels(N))
    [] z = 4 -> (IF S = "A04" THEN ZeroPivot(seed, N, k, tt) ELSE Diagonal(seed, N, k, tt))
    [] z = 5 -> (IF S = "A04" THEN Singular(seed, N, k, tt) ELSE Dense(seed, N, k, tt, -99, 99))
    [] z = 6 /\ S = "A04" -> Shear(seed, N, k, tt)
    [] OTHER -> Dense(seed, N, k, tt, -9, 9)

InitCall(S, seed, N, k, tt, d) ==
  Call("init", d, <<d, d>>, << Rand(seed, k, tt, 2, 2) >> \o RandMatrix(S, seed, N, k, tt))
FallbackCall(S, seed, N, k, tt) == InitCall(S, seed, N, k, tt, 1 + Rand(seed, k, tt, 3, 2))
\* a third of the vectors have all components alike
RandVec(seed, N, k, tt) == LET same == Rand(seed, k, tt, 20, 3) = 0 IN
  [i \in 1..N |-> RandIn(seed, k, tt, IF same THEN 21 ELSE 20 + i, -9, 9)]

RandCall(S, seed, N, k, tt) ==
  IF tt <= 2 THEN InitCall(S, seed, N, k, tt, tt)
  ELSE LET op == Pick(SuiteOps(S), seed, k, tt, 1)
           d == 1 + Rand(seed, k, tt, 3, 2)
           s1 == 1 + Rand(seed, k, tt, 4, 2)
           s2 == 1 + Rand(seed, k, tt, 5, 2)
       IN CASE op = "init" -> InitCall(S, seed, N, k, tt, d)
            [] op = "set"  -> Call(op, d, <<d, d>>, << Rand(seed, k, tt, 6, N), Rand(seed, k, tt, 7, N), RandIn(seed, k, tt, 8, -50, 50) >>)
            [] op = "get"  -> Call(op, d, <<s1, s1>>, << Rand(seed, k, tt, 6, N), Rand(seed, k, tt, 7, N) >>)
            [] op = "trs"  -> Call(op, s1, <<s1, s1>>, <<>>)
            [] op = "scale" -> Call(op, d, <<s1, s1>>, << RandIn(seed, k, tt, 8, -5, 5), Pick(<<0, 0, 1, -1, 2, 3>>, seed, k, tt, 9) >>)
            [] op \in {"mulv", "vmul"} -> Call(op, d, <<s1, s1>>, RandVec(seed, N, k, tt))
            [] OTHER -> Call(op, d, <<s1, s2>>, <<>>)

(* --------------------------- enumerated scripts ------------------------- *)
Unit(N, q) == [p \in 1..(N * N) |-> IF p = q THEN 1 ELSE 0]
UnitV(N, q) == [p \in 1..N |-> IF p = q THEN 1 ELSE 0]
\* digits of k in base b, as a matrix with entries lo, lo+1, ...
Digits(k, b, len, lo) == [q \in 1..len |-> lo + ((k \div Pow(b, q - 1)) % b)]

\* A02: labelled matrix in both layouts, every read, write, transpose and block
\* A03: all pairs of unit matrices (a product is bilinear), both layouts, and unit vectors
\* A04: every 3x3 matrix over {-1,0,1} (number h-1 in base 3); NFIX = 3.  4x4 over {0,1}: NFIX = 4.
\* A05: a unit entry against labels at every position, all four layout combinations

\* histories about matrices of a special form, whole (e = 0) or with one entry changed
Forms == 20
FormCount(N) == Forms * (N * N + 1)
FormOf(N, z, seed, k) ==
  LET r(p) == LET x == RandIn(seed, k, 1, 500 + p, -6, 5) IN IF x >= 0 THEN x + 1 ELSE x
      c(i, j) == r(i * N + j)
      lo(i, j) == IF i < j THEN i ELSE j   up(i, j) == IF i < j THEN j ELSE i
      sg(i) == IF Rand(seed, k, 1, 600 + i, 2) = 0 THEN 1 ELSE -1
      f(i, j) ==
        CASE z = 0 -> IF i = j THEN 1 ELSE 0
          [] z = 1 -> IF i = j THEN r(i) ELSE 0
          [] z = 2 -> c(lo(i, j), up(i, j))                                     \* symmetric
          [] z = 3 -> IF i = j THEN 0 ELSE IF i < j THEN c(i, j) ELSE -c(j, i)  \* skew
          [] z = 4 -> IF i <= j THEN c(i, j) ELSE 0
          [] z = 5 -> IF i >= j THEN c(i, j) ELSE 0
          [] z = 6 -> IF j = (i + 1) % N THEN 1 ELSE 0
          [] z = 7 -> IF j = (i + 1 + k) % N THEN sg(i) ELSE 0
          [] z = 8 -> IF i = N - 1 THEN (IF j = N - 1 THEN 1 ELSE 0) ELSE c(i, j)   \* affine
          [] z = 9 -> IF j = N - 1 THEN (IF i = N - 1 THEN 1 ELSE 0) ELSE c(i, j)
          [] z = 10 -> IF i = j THEN (IF i < 2 THEN 0 ELSE 1) ELSE IF i + j = 1 THEN (IF i = 0 THEN -1 ELSE 1) ELSE 0   \* quarter turn
          [] z = 11 -> r(j)
          [] z = 12 -> r(i)
          [] z = 13 -> r(1)
          [] z = 14 -> IF i = j THEN r(1) ELSE 0
          [] z = 15 -> IF j = 0 THEN 0 ELSE c(i, j)
          [] z = 16 -> c((i + j) % N, 0)                                        \* circulant
          [] z = 17 -> IF i = j \/ j = N - 1 THEN (IF i = j THEN 1 ELSE r(i)) ELSE 0  \* translation
          [] z = 18 -> IF i # j THEN 0 ELSE IF i = k % N THEN -1 ELSE IF i = (k + 1) % N \/ i = (k + 2) % N THEN 2 ELSE 1   \* the trace of the identity
          [] OTHER -> IF i = j THEN 1 ELSE IF (IF k % 2 = 0 THEN j ELSE i) = N - 1 THEN 160 * r(i + j) ELSE 0   \* long translation
  IN MBuild(N, f)
FormCall(S, N, k, tt, seed) ==
  LET z == k % Forms   e == (k \div Forms) % (N * N + 1)   b == (k \div FormCount(N)) % 2   b2 == Rand(seed, k, 1, 6, 2)
      m0 == FormOf(N, z, seed, k)
      m == IF e = 0 THEN m0 ELSE [m0 EXCEPT ![e] = @ + (IF Rand(seed, k, 1, 5, 2) = 0 THEN 1 ELSE -2)]
      other == NonZero(seed, N, k, 2)
      i == Rand(seed, k, 3, 7, N)   j == Rand(seed, k, 3, 8, N)
      x == Rand(seed, k, 3, 9, IF S = "A03" THEN 2 ELSE 4)
      first == Call("init", 1, <<1, 1>>, <<b>> \o m)
      second == Call("init", 2, <<2, 2>>, <<b2>> \o (IF x = 0 THEN MTrans(N, m) ELSE IF x = 1 /\ S # "A03" THEN m ELSE other)) IN
  IF tt = 1 THEN first ELSE
  CASE S = "A02" ->
        (CASE tt = 2 -> Call("tr", 2, <<1, 1>>, <<>>)
           [] tt = 3 -> Call("trace", 1, <<1, 1>>, <<>>)
           [] tt = 4 -> Call("block", 2, <<2, 2>>, <<>>)
           [] tt = 5 -> Call("get", 1, <<1, 1>>, <<i, j>>)
           [] tt = 6 -> Call("set", 2, <<2, 2>>, <<j, i, At(N, m, i, j)>>)
           [] OTHER -> Call("trs", 2, <<2, 2>>, <<>>))
    [] S = "A03" ->
        (CASE tt = 2 -> second
           [] tt = 3 -> Call("mulv", 1, <<1, 1>>, [q \in 1..N |-> q * q - 3])
           [] tt = 4 -> Call("vmul", 1, <<1, 1>>, [q \in 1..N |-> 5 - q * q])
           [] tt = 5 -> Call(IF b = b2 THEN "mul" ELSE "mulx", 2, <<1, 2>>, <<>>)
           [] tt = 6 -> Call("mul", 1, <<1, 1>>, <<>>)
           [] OTHER -> Call(IF b = b2 THEN "mul" ELSE "mulx", 2, <<2, 1>>, <<>>))
    [] S = "A04" -> Call("inv", 1, <<1, 1>>, <<>>)
    [] OTHER ->
        (CASE tt = 2 -> second
           [] tt = 3 -> Call("minus", 1, <<1, 2>>, <<>>)
           [] tt = 4 -> first
           [] tt = 5 -> Call("plus", 2, <<1, 2>>, <<>>)
           [] tt = 6 -> second
           [] tt = 7 -> Call("div", 1, <<1, 2>>, <<>>)
           [] tt = 8 -> Call("mulel", 2, <<1, 2>>, <<>>)
           [] OTHER -> Call("scale", 1, <<1, 1>>, <<-3>>))
FormLen(S) == CASE S = "A02" -> 7 [] S = "A03" -> 7 [] S = "A04" -> 2 [] OTHER -> 9
EnumLen(S, N, k) == CASE S = "A02" -> 12 [] S = "A03" -> 6 [] S = "A04" -> 2 [] S = "A05" -> 9

EnumCall(S, N, k, tt, seed) ==
  LET q == (k - 1) % (N * N)  r == ((k - 1) \div (N * N)) % (N * N)
      ly == (k - 1) \div (N * N * N * N)         \* layout choice for A03
      i == q \div N   j == q % N
      a05 == ((k - 1) \div (N * N)) % 4
  IN
  CASE S = "A02" ->
      (CASE tt = 1 -> Call("init", 1, <<1, 1>>, << r % 2 >> \o Labels(N))
         [] tt = 2 -> Call("get", 1, <<1, 1>>, <<i, j>>)
         [] tt = 3 -> Call("tr", 2, <<1, 1>>, <<>>)
         [] tt = 4 -> Call("get", 2, <<2, 2>>, <<i, j>>)
         [] tt = 5 -> Call("set", 2, <<2, 2>>, <<i, j, 77>>)
         [] tt = 6 -> Call("trs", 2, <<2, 2>>, <<>>)
         [] tt = 7 -> Call("trace", 2, <<2, 2>>, <<>>)
         [] tt = 8 -> Call("block", 2, <<2, 2>>, <<>>)
         [] tt = 9 -> Call("set", 1, <<1, 1>>, <<j, i, -3>>)
         [] tt = 10 -> Call("block", 1, <<1, 1>>, <<>>)
         [] tt = 11 -> Call("iden", 1, <<1, 1>>, <<>>)
         [] OTHER -> Call("set", 1, <<1, 1>>, <<i, j, 5>>))
    [] S = "A03" ->
      (CASE tt = 1 -> Call("init", 1, <<1, 1>>, << ly % 2 >> \o Unit(N, q + 1))
         [] tt = 2 -> Call("init", 2, <<2, 2>>, << ly % 2 >> \o Unit(N, r + 1))
         [] tt = 3 -> Call("mulv", 1, <<1, 1>>, UnitV(N, (r % N) + 1))
         [] tt = 4 -> Call("vmul", 1, <<1, 1>>, UnitV(N, (r % N) + 1))
         [] tt = 5 -> Call("mul", 1, <<1, 2>>, <<>>)
         [] OTHER -> Call("mul", 2, <<2, 2>>, <<>>))
    [] S = "A04" ->
      (CASE tt = 1 -> Call("init", 1, <<1, 1>>, << (k \div 7) % 2 >> \o
                        (IF N = 3 THEN Digits(k - 1, 3, 9, -1) ELSE Digits(k - 1, 2, 16, 0)))
         [] OTHER -> Call("inv", 1, <<1, 1>>, <<>>))
    [] S = "A05" ->
      (CASE tt = 1 -> Call("init", 1, <<1, 1>>, << a05 % 2 >> \o [p \in 1..(N * N) |-> IF p = q + 1 THEN 30 ELSE p])
         [] tt = 2 -> Call("init", 2, <<2, 2>>, << a05 \div 2 >> \o [p \in 1..(N * N) |-> IF p = q + 1 THEN -7 ELSE p + 20])
         [] tt = 3 -> Call("div", 1, <<1, 2>>, <<>>)
         [] tt = 4 -> Call("norm", 1, <<1, 1>>, <<>>)
         [] tt = 5 -> Call("norm", 1, <<2, 2>>, <<>>)
         [] tt = 6 -> Call("mulel", 1, <<1, 2>>, <<>>)
         [] tt = 7 -> Call("scale", 1, <<1, 1>>, << -2 >>)
         [] tt = 8 -> Call("init", 1, <<1, 1>>, << a05 % 2 >> \o Labels(N))
         [] OTHER -> Call("minus", 1, <<2, 1>>, <<>>))

(* ------------------------- exhaustive small choices --------------------- *)
McCalls(N, tt) ==
  LET lab == Labels(N)  perm == [q \in 1..(N * N) |-> ((q * 2) % (N * N + 1)) - 2]
      uni == LET f(i, j) == IF i = j \/ j = i + 1 THEN 1 ELSE IF i = N - 1 /\ j = 0 THEN -1 ELSE 0 IN MBuild(N, f) IN
  IF tt < 2 THEN { Call("init", tt + 1, <<1, 1>>, <<b>> \o m) : b \in {0, 1}, m \in {lab, perm, uni} }
  ELSE { Call(op, d, <<s1, s2>>, <<>>) : op \in {"mul", "plus", "minus", "mulel"}, d \in {1, 2}, s1 \in {1, 2}, s2 \in {1, 2} }
    \cup { Call("tr", d, <<s1, s1>>, <<>>) : d \in {1, 2}, s1 \in {1, 2} }
    \cup { Call("invs", d, <<s1, s1>>, <<>>) : d \in {1, 2}, s1 \in {1, 2} }
    \cup { Call("set", d, <<d, d>>, <<i, j, 0>>) : d \in {1, 2}, i \in {0, N - 1}, j \in {0, 1} }
    \cup { Call("scale", d, <<s1, s1>>, <<k>>) : d \in {1, 2}, s1 \in {1, 2}, k \in {-1, 2} }
=============================================================================
