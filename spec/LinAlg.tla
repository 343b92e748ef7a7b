------------------------------- MODULE LinAlg -------------------------------
(* Exact linear algebra over the integers: what vectors and matrices mean.  *)
(* A vector is a sequence; an n-by-n matrix is the sequence of its entries  *)
(* listed row by row (the listing order of the library's constructors).     *)
EXTENDS Num, TLC

(* ------------------------------- vectors -------------------------------- *)
VAdd(a, b)   == TLCEval([i \in DOMAIN a |-> a[i] + b[i]])
VSub(a, b)   == TLCEval([i \in DOMAIN a |-> a[i] - b[i]])
VMulE(a, b)  == TLCEval([i \in DOMAIN a |-> a[i] * b[i]])
VScale(a, s) == TLCEval([i \in DOMAIN a |-> a[i] * s])
VNeg(a)      == TLCEval([i \in DOMAIN a |-> -a[i]])
VDot(a, b)   == LET f(i) == a[i] * b[i] IN SumF(f, 1, Len(a))
VNorm2(a)    == VDot(a, a)
VCross(a, b) == << a[2]*b[3] - a[3]*b[2], a[3]*b[1] - a[1]*b[3], a[1]*b[2] - a[2]*b[1] >>
VZero(n)     == [i \in 1..n |-> 0]
VMaxAbs(a)   == SeqMax([i \in DOMAIN a |-> Abs(a[i])])
\* a near relative of v: a copy, the opposite, one sign or one component changed,
\* two components exchanged, all moved on by one, a multiple, ...
KinKinds == 13
KinOf(v, z, i, i2) ==
  LET L == Len(v)
  IN TLCEval(CASE z = 0 -> v
       [] z = 1 -> VNeg(v)
       [] z \in {2, 3} -> [v EXCEPT ![i] = -@]
       [] z = 4 -> [v EXCEPT ![i] = @ + 1]
       [] z = 5 -> [v EXCEPT ![i] = @ - 1]
       [] z = 6 -> [v EXCEPT ![i] = v[i2], ![i2] = v[i]]
       [] z = 7 -> [q \in DOMAIN v |-> v[(q % L) + 1]]
       [] z = 8 -> [q \in DOMAIN v |-> IF q = i THEN v[q] ELSE -v[q]]
       [] z = 9 -> VScale(v, IF i2 % 2 = 0 THEN 2 ELSE -3)
       [] z = 10 -> [v EXCEPT ![i] = 0]
       [] z = 11 -> [v EXCEPT ![i] = 2 * @]
       \* almost parallel
       [] OTHER -> IF VMaxAbs(v) > 12 THEN [v EXCEPT ![i] = 2 * @] ELSE [VScale(v, IF i2 % 2 = 0 THEN 120 ELSE -240) EXCEPT ![i] = @ + 1])
Kin(v, seed, k, tt, j) == KinOf(v, Rand(seed, k, tt, j, KinKinds), 1 + Rand(seed, k, tt, j + 1, Len(v)), 1 + Rand(seed, k, tt, j + 2, Len(v)))

(* ------------------------------- matrices ------------------------------- *)
At(n, m, i, j) == m[i * n + j + 1]                      \* i, j from 0
MRow(n, p) == (p - 1) \div n
MCol(n, p) == (p - 1) % n
MBuild(n, f(_, _)) == TLCEval([p \in 1..(n * n) |-> f(MRow(n, p), MCol(n, p))])
MIden(n) == LET f(i, j) == IF i = j THEN 1 ELSE 0 IN MBuild(n, f)
MZero(n) == [p \in 1..(n * n) |-> 0]
MTrans(n, m) == LET f(i, j) == At(n, m, j, i) IN MBuild(n, f)
MMul(n, a, b) ==
  LET f(i, j) == LET g(l) == At(n, a, i, l) * At(n, b, l, j) IN SumF(g, 0, n - 1)
  IN MBuild(n, f)
MVec(n, a, v) == TLCEval([i \in 1..n |-> LET g(l) == At(n, a, i - 1, l) * v[l + 1] IN SumF(g, 0, n - 1)])
VMat(n, v, a) == TLCEval([j \in 1..n |-> LET g(l) == v[l + 1] * At(n, a, l, j - 1) IN SumF(g, 0, n - 1)])
MTrace(n, m) == LET g(i) == At(n, m, i, i) IN SumF(g, 0, n - 1)
MSet(n, m, i, j, v) == [m EXCEPT ![i * n + j + 1] = v]
\* upper left (n-1)x(n-1) block
MBlock(n, m) == LET f(i, j) == At(n, m, i, j) IN MBuild(n - 1, f)
\* delete row r and column c
MMinor(n, m, r, c) ==
  LET f(i, j) == At(n, m, IF i < r THEN i ELSE i + 1, IF j < c THEN j ELSE j + 1)
  IN MBuild(n - 1, f)
RECURSIVE MDet(_, _)
MDet(n, m) == IF n = 1 THEN m[1]
              ELSE LET g(j) == (IF j % 2 = 0 THEN 1 ELSE -1) * At(n, m, 0, j) * MDet(n - 1, MMinor(n, m, 0, j))
                   IN SumF(g, 0, n - 1)
\* adjugate: m * MAdj(m) = MAdj(m) * m = det(m) * identity
MAdj(n, m) == LET f(i, j) == (IF (i + j) % 2 = 0 THEN 1 ELSE -1) * MDet(n - 1, MMinor(n, m, j, i))
              IN MBuild(n, f)
\* a scale call: the factor is p[1] times the unit of the frame to this power
ScaleDeg(p) == IF Len(p) > 1 THEN p[2] ELSE 0
ScaleOk(p, deg, max) == ScaleDeg(p) = 0 \/ (deg + ScaleDeg(p) >= 0 /\ deg + ScaleDeg(p) <= max)
=============================================================================
