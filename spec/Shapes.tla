------------------------------- MODULE Shapes -------------------------------
(* What the shapes are and when they share a point, over the integers.       *)
(* A shape is [k, p, e, x]: kind, parameters, tolerance in units (-1: default), *)
(* and whether the code is handed exactly these numbers (otherwise up to        *)
(* rounding, and touching exactly may be answered either way).                  *)
(*   point x y z            ray o d               sphere o r                 *)
(*   plane o n              box o s (half edge)   line a b                   *)
(*   prism v0 v1 v2 hn hd: extruded by N * hn/hd, N = (v1-v0) x (v2-v0)       *)
(* `ep` is the tolerance that applies, in units (0: far below the unit).      *)
EXTENDS LinAlg

Inf == 1000000
Kinds == <<"point", "ray", "sphere", "plane", "box", "line", "prism">>
Sh(k, p) == [k |-> k, p |-> p, e |-> -1, x |-> TRUE]
O(s) == <<s.p[1], s.p[2], s.p[3]>>
D(s) == <<s.p[4], s.p[5], s.p[6]>>
C(s) == <<s.p[7], s.p[8], s.p[9]>>
R(s) == s.p[4]

AxisAligned(n) == Cardinality({i \in 1..3 : n[i] # 0}) = 1
Zero3(v) == v = <<0, 0, 0>>
Parallel(u, v) == Zero3(VCross(u, v))

(* -------------------------------- prisms -------------------------------- *)
PrismN(s) == VCross(VSub(D(s), O(s)), VSub(C(s), O(s)))
\* facet: inside iff m * (n . (x - b)) <= q
Facet(n, b, m, q) == [n |-> n, b |-> b, m |-> m, q |-> q]
Facets(s) ==
  LET N == TLCEval(PrismN(s))  v0 == O(s)  v1 == D(s)  v2 == C(s)  E(u, v) == VCross(VSub(v, u), N)
      up == IF s.p[10] < 0 THEN VNeg(N) ELSE N IN          \* a negative height extrudes the other way
  TLCEval(<< Facet(VNeg(up), v0, 1, 0), Facet(up, v0, s.p[11], Abs(s.p[10]) * VNorm2(N)),
     Facet(E(v0, v1), v0, 1, 0), Facet(E(v1, v2), v1, 1, 0), Facet(E(v2, v0), v2, 1, 0) >>)
Slack(f, x) == f.q - f.m * VDot(f.n, VSub(x, f.b))
\* the prism's arithmetic is exact in floating point: normal along an axis
ExactPrism(s) == s.x /\ AxisAligned(PrismN(s))
BoxFacets(s) == LET ax(i, g) == [j \in 1..3 |-> IF j = i THEN g ELSE 0] IN
  << Facet(ax(1, 1), O(s), 1, R(s)), Facet(ax(1, -1), O(s), 1, R(s)), Facet(ax(2, 1), O(s), 1, R(s)),
     Facet(ax(2, -1), O(s), 1, R(s)), Facet(ax(3, 1), O(s), 1, R(s)), Facet(ax(3, -1), O(s), 1, R(s)) >>

(* ------------------- membership of the rational point x/m ---------------- *)
Contains(s, x, m) ==
  CASE s.k = "point" -> x = VScale(O(s), m)
    [] s.k = "ray" -> LET c == VSub(x, VScale(O(s), m)) IN Parallel(c, D(s)) /\ VDot(c, D(s)) >= 0
    [] s.k = "sphere" -> VNorm2(VSub(x, VScale(O(s), m))) <= R(s) * R(s) * m * m
    [] s.k = "plane" -> VDot(D(s), VSub(x, VScale(O(s), m))) = 0
    [] s.k = "box" -> \A i \in 1..3 : Abs(x[i] - s.p[i] * m) <= R(s) * m
    [] s.k = "line" -> LET c == VSub(x, VScale(O(s), m))  d == VSub(D(s), O(s)) IN
                       Parallel(c, d) /\ VDot(c, d) >= 0 /\ VDot(c, d) <= VNorm2(d) * m
                       /\ (Zero3(d) => Zero3(c))
    [] s.k = "prism" -> LET F == TLCEval(Facets(s)) IN \A i \in 1..5 : LET f == F[i] IN f.m * VDot(f.n, VSub(x, VScale(f.b, m))) <= f.q * m
OnSphere(s, x, m) == VNorm2(VSub(x, VScale(O(s), m))) = R(s) * R(s) * m * m

(* --------------------------- bounding boxes ------------------------------
   sides over the denominator m (infinite ones as +-Inf); loose[i]: the plane
   lies across this axis, and the sides only have to contain its offset       *)
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y
Bnd(lo, hi, m) == [lo |-> TLCEval(lo), hi |-> TLCEval(hi), m |-> m, loose |-> <<FALSE, FALSE, FALSE>>]
Bounds(s) ==
  CASE s.k = "point" -> Bnd(s.p, s.p, 1)
    [] s.k = "ray" -> Bnd([i \in 1..3 |-> IF D(s)[i] < 0 THEN -Inf ELSE s.p[i]], [i \in 1..3 |-> IF D(s)[i] > 0 THEN Inf ELSE s.p[i]], 1)
    [] s.k \in {"sphere", "box"} -> Bnd([i \in 1..3 |-> s.p[i] - R(s)], [i \in 1..3 |-> s.p[i] + R(s)], 1)
    [] s.k = "plane" -> LET al == AxisAligned(D(s))  across(i) == al /\ D(s)[i] # 0 IN
         [lo |-> [i \in 1..3 |-> IF across(i) THEN s.p[i] ELSE -Inf], hi |-> [i \in 1..3 |-> IF across(i) THEN s.p[i] ELSE Inf],
          m |-> 1, loose |-> [i \in 1..3 |-> across(i)]]
    [] s.k = "line" -> Bnd([i \in 1..3 |-> MinI(O(s)[i], D(s)[i])], [i \in 1..3 |-> MaxI(O(s)[i], D(s)[i])], 1)
    [] s.k = "prism" -> LET N == PrismN(s)  m == s.p[11]
                            vs(i) == {m * O(s)[i], m * D(s)[i], m * C(s)[i]} \cup {m * O(s)[i] + s.p[10] * N[i], m * D(s)[i] + s.p[10] * N[i], m * C(s)[i] + s.p[10] * N[i]} IN
         Bnd([i \in 1..3 |-> SetMin(vs(i))], [i \in 1..3 |-> SetMax(vs(i))], m)
\* comparison of box sides over different denominators
SideLt(a, ma, b, mb) == IF a = Inf \/ b = -Inf THEN FALSE ELSE IF a = -Inf \/ b = Inf THEN TRUE ELSE a * mb < b * ma
SideEq(a, ma, b, mb) == IF Abs(a) = Inf \/ Abs(b) = Inf THEN FALSE ELSE a * mb = b * ma
Rounded(s) == (s.k = "prism" /\ ~ExactPrism(s)) \/ (s.k \in {"sphere", "box"} /\ ~s.x)
\* "apart", "overlap", or "unsure" (sides touch up to rounding; a plane's side need not be tight)
BoundsMeet(a, b) ==
  LET A == TLCEval(Bounds(a))  B == TLCEval(Bounds(b))
      loose(i) == A.loose[i] \/ B.loose[i]
      apart(i) == SideLt(A.hi[i], A.m, B.lo[i], B.m) \/ SideLt(B.hi[i], B.m, A.lo[i], A.m)
      touch(i) == SideEq(A.hi[i], A.m, B.lo[i], B.m) \/ SideEq(B.hi[i], B.m, A.lo[i], A.m)
  IN IF \E i \in 1..3 : apart(i) /\ ~loose(i) THEN "apart"
     ELSE IF \E i \in 1..3 : apart(i) \/ (touch(i) /\ (Rounded(a) \/ Rounded(b))) THEN "unsure"
     ELSE "overlap"

(* ------------------------ defining data of a shape ----------------------- *)
\* num/den (den under a square root where sq), deg: scales with the unit
Data(s) ==
  LET plain(n) == [i \in 1..n |-> 1]  un == VNorm2(D(s))
      dat(num, den, sq, deg) == [k |-> "data", num |-> num, den |-> den, sq |-> sq, deg |-> deg] IN
  CASE s.k \in {"point", "sphere", "box", "line"} -> dat(s.p, plain(Len(s.p)), [i \in 1..Len(s.p) |-> 0], plain(Len(s.p)))
    [] s.k \in {"ray", "plane"} -> dat(s.p, <<1, 1, 1, un, un, un>>, <<0, 0, 0, 1, 1, 1>>, <<1, 1, 1, 0, 0, 0>>)
    [] s.k = "prism" -> LET N == PrismN(s)  m == s.p[11] IN
         dat(SubSeq(s.p, 1, 9) \o VScale(N, s.p[10]), plain(9) \o <<m, m, m>>, [i \in 1..12 |-> 0], plain(12))

(* ------------------------------ locations --------------------------------
   o + d * (p + g*sqrt(q)) / den, the denominator under a root when rt = 1    *)
Loc(o, d, p, g, q, den, rt) == [o |-> o, d |-> d, p |-> p, g |-> g, q |-> q, den |-> den, rt |-> rt]
At3(x) == Loc(x, <<0, 0, 0>>, 0, 0, 0, 1, 0)
AtFrac(o, d, p, den) == Loc(o, d, p, 0, 0, den, 0)
Ans(v, locs) == [verdict |-> v, locs |-> locs]
Hit(locs) == Ans("hit", locs)
Miss == Ans("miss", <<>>)
Either(locs) == Ans("either", locs)

(* ------------------------ intersection, pair by pair --------------------- *)
PointPoint(a, b, ep) ==
  IF a.p = b.p THEN Hit(<<At3(a.p)>>)
  ELSE IF \E i \in 1..3 : Abs(a.p[i] - b.p[i]) > ep THEN Miss ELSE Either(<<At3(a.p), At3(b.p)>>)
PointBox(x, b) ==
  IF ~Contains(b, x.p, 1) THEN Miss
  ELSE IF b.x \/ \A i \in 1..3 : Abs(x.p[i] - b.p[i]) < R(b) THEN Hit(<<At3(x.p)>>) ELSE Either(<<At3(x.p)>>)
\* ex: the tolerance itself is a binary number
PointPlane(x, pl, ep, ex) ==
  LET k == VDot(D(pl), VSub(x.p, O(pl)))  nn == VNorm2(D(pl))  here == <<At3(x.p)>> IN
  IF k = 0 \/ k * k < ep * ep * nn THEN Hit(here)
  ELSE IF k * k > ep * ep * nn THEN Miss
  ELSE IF AxisAligned(D(pl)) /\ pl.x /\ ex THEN Hit(here) ELSE Either(here)
SpherePoint(s, x) ==
  LET dd == VNorm2(VSub(x.p, O(s)))  rr == R(s) * R(s) IN
  IF dd > rr THEN Miss ELSE IF dd < rr \/ s.x \/ rr = 0 THEN Hit(<<At3(x.p)>>) ELSE Either(<<At3(x.p)>>)
SphereSphere(a, b) ==
  LET c == VSub(O(b), O(a))  r == R(a) + R(b) IN
  IF VNorm2(c) > r * r THEN Miss
  ELSE LET at == <<IF r = 0 THEN At3(O(a)) ELSE AtFrac(O(a), c, R(a), r)>> IN
       IF VNorm2(c) < r * r \/ a.x \/ r = 0 THEN Hit(at) ELSE Either(at)
SpherePlane(s, pl) ==
  LET k == VDot(D(pl), VSub(O(s), O(pl)))  nn == VNorm2(D(pl))  foot == <<AtFrac(O(s), D(pl), -k, nn)>>
      \* squares only where they are needed (they may be large)
      rt == RootDown(nn)
      lhs == IF rt * rt = nn THEN Abs(k) ELSE IF Abs(k) < R(s) THEN 0 ELSE k * k
      rhs == IF rt * rt = nn THEN R(s) * rt ELSE IF Abs(k) < R(s) THEN 1 ELSE R(s) * R(s) * nn IN
  IF lhs > rhs THEN Miss ELSE IF lhs < rhs \/ (AxisAligned(D(pl)) /\ pl.x /\ s.x) THEN Hit(foot) ELSE Either(foot)
RayPlane(r, pl, ep) ==
  LET k == VDot(D(pl), VSub(O(pl), O(r)))  den == VDot(D(pl), D(r))  nn == VNorm2(D(pl)) IN
  IF den = 0 THEN (IF k = 0 THEN Hit(<<At3(O(r))>>) ELSE IF ep = 0 \/ k * k > ep * ep * nn THEN Miss ELSE Either(<<At3(O(r))>>))
  ELSE IF den > 0 \/ k > 0 THEN Miss
  ELSE IF k < 0 \/ (AxisAligned(D(pl)) /\ pl.x) THEN Hit(<<AtFrac(O(r), D(r), -k, -den)>>)
  ELSE Either(<<At3(O(r))>>)
RaySphere(r, s) ==
  LET w == VSub(O(r), O(s))  b == VDot(w, D(r))  dd == VNorm2(D(r))  c == VNorm2(w) - R(s) * R(s)
      disc == b * b - dd * c
      first == Loc(O(r), D(r), -b, -1, disc, dd, 0)  second == Loc(O(r), D(r), -b, 1, disc, dd, 0) IN
  IF c < 0 THEN Hit(<<second>>)
  ELSE IF c = 0 THEN (IF b < 0 THEN Hit(<<At3(O(r)), second>>) ELSE IF s.x THEN Hit(<<At3(O(r))>>) ELSE Either(<<At3(O(r))>>))
  ELSE IF b >= 0 \/ disc < 0 THEN Miss
  ELSE IF disc = 0 THEN Either(<<first>>) ELSE Hit(<<first>>)
RayPoint(r, x, ep) ==
  LET c == VSub(x.p, O(r))  off == VNorm2(VCross(c, D(r)))  al == VDot(c, D(r))  dd == VNorm2(D(r)) IN
  IF off = 0 /\ al >= 0 THEN Hit(<<At3(x.p)>>)
  ELSE IF off > 3 * ep * ep * dd \/ (al < 0 /\ al * al > 4 * ep * ep * dd) THEN Miss
  \* the foot of the point on the ray and the point differ by no more than the tolerance
  ELSE Either(<<At3(x.p), AtFrac(O(r), D(r), al, dd)>>)
\* as the rays are, whatever the tolerance
RayRayExact(a, b) ==
  LET c == VSub(O(b), O(a))  v == TLCEval(VCross(D(a), D(b)))  vv == VNorm2(v)
      tn == VDot(VCross(c, D(b)), v)  sn == VDot(VCross(c, D(a)), v) IN
  IF vv # 0 THEN (IF VDot(v, c) # 0 THEN Miss
                  ELSE IF tn >= 0 /\ sn >= 0 THEN Hit(<<AtFrac(O(a), D(a), tn, vv)>>)
                  \* behind an origin, clearly or by next to nothing
                  ELSE IF tn < -(vv \div 5000) \/ sn < -(vv \div 5000) \/ vv < 5000 THEN Miss ELSE Either(<<AtFrac(O(a), D(a), tn, vv)>>))
  ELSE IF ~Parallel(c, D(a)) THEN Miss
  ELSE IF VDot(D(a), D(b)) > 0 THEN (IF VDot(c, D(a)) >= 0 THEN Hit(<<At3(O(b))>>) ELSE Hit(<<At3(O(a))>>))
  ELSE IF VDot(c, D(a)) >= 0 THEN Hit(<<At3(O(a)), At3(O(b))>>) ELSE Miss
Most(x) == SetMax({Abs(x[i]) : i \in 1..3})
\* farther from each other, or farther behind an origin, than a tolerance of ep units
RaysClear(a, b, ep) ==
  LET c == VSub(O(b), O(a))  v == TLCEval(VCross(D(a), D(b)))  vv == VNorm2(v)
      back(n, d) == n < 0 /\ MinI((-n) \div vv, 10000) * Most(d) > ep IN
  IF vv = 0 THEN Most(VCross(c, D(a))) > 2 * ep * Most(D(a))
  ELSE \/ Abs(VDot(v, c)) > ep * (RootDown(vv) + 1)
       \/ back(VDot(VCross(c, D(b)), v), D(a)) \/ back(VDot(VCross(c, D(a)), v), D(b))
RayRay(a, b, ep) ==
  LET q == RayRayExact(a, b) IN
  IF ep = 0 \/ q.verdict = "hit" THEN q ELSE IF RaysClear(a, b, ep) THEN Miss ELSE Either(<<>>)
PrismPoint(pr, x) ==
  LET F == TLCEval(Facets(pr))  sl == TLCEval([i \in 1..5 |-> Slack(F[i], x.p)]) IN
  IF \E i \in 1..5 : sl[i] < 0 THEN Miss
  ELSE IF ExactPrism(pr) \/ \A i \in 1..5 : sl[i] > 0 THEN Hit(<<At3(x.p)>>) ELSE Either(<<At3(x.p)>>)

\* fractions with positive denominator
\* (compared by their continued fractions: cross products may be large)
RECURSIVE FBelow(_, _, _, _)
FBelow(a, b, c, d) ==
  LET x == a \div b  y == c \div d  ra == a - x * b  rc == c - y * d IN
  IF x # y THEN x < y ELSE IF rc = 0 THEN FALSE ELSE IF ra = 0 THEN TRUE ELSE FBelow(d, rc, b, ra)
FLt(p, q) == FBelow(p[1], p[2], q[1], q[2])
FMax(S) == CHOOSE p \in S : \A q \in S : ~FLt(p, q)
FMin(S) == CHOOSE p \in S : \A q \in S : ~FLt(q, p)
Fr(n, d) == LET g == Gcd(Abs(n), d) IN <<n \div g, d \div g>>
\* clearly below: by more than a thousandth
RECURSIVE Digits10(_, _, _)
Digits10(r, d, k) == IF k = 0 THEN 0 ELSE ((r * 10) \div d) * Pow(10, k - 1) + Digits10((r * 10) % d, d, k - 1)
Fix(p) == LET w == p[1] \div p[2] IN IF Abs(w) > 1000 THEN Sgn(w) * 100000000 ELSE w * 100000 + Digits10(p[1] - w * p[2], p[2], 5)
FWell(p, q) == Fix(q) - Fix(p) > 101
\* part of the segment in the solid: [par: beside a facet it runs along, graze: within one, lo, hi]
Clip(pr, a, b) ==
  LET F == TLCEval(Facets(pr))
      sa == TLCEval([i \in 1..5 |-> Slack(F[i], a)])  sb == TLCEval([i \in 1..5 |-> Slack(F[i], b)]) IN
  [beside |-> \E i \in 1..5 : sa[i] = sb[i] /\ sa[i] < 0,
   \* (in the plane of a facet across an axis nothing is left to rounding)
   graze |-> \E i \in 1..5 : sa[i] = sb[i] /\ sa[i] = 0 /\ ~(ExactPrism(pr) /\ AxisAligned(F[i].n)),
   sa |-> sa, sb |-> sb,
   lo |-> FMax({<<0, 1>>} \cup { Fr(-sa[i], sb[i] - sa[i]) : i \in {j \in 1..5 : sa[j] < sb[j]} }),
   hi |-> FMin({<<1, 1>>} \cup { Fr(sa[i], sa[i] - sb[i]) : i \in {j \in 1..5 : sa[j] > sb[j]} })]
PrismLine(pr, ln) ==
  LET a == O(ln)  b == D(ln)  cl == TLCEval(Clip(pr, a, b))
      In(s) == \A i \in 1..5 : s[i] > 0   On(s) == \A i \in 1..5 : s[i] >= 0
      entry == AtFrac(a, VSub(b, a), cl.lo[1], cl.lo[2])
      ends == <<At3(a), At3(b), entry>> IN
  IF a = b THEN PrismPoint(pr, Sh("point", a))
  ELSE IF In(cl.sa) THEN Hit(<<At3(a)>>)
  ELSE IF ExactPrism(pr) /\ On(cl.sa) THEN Hit(<<At3(a)>>)
  ELSE IF In(cl.sb) THEN (IF On(cl.sa) THEN Hit(ends) ELSE Hit(<<At3(b)>>))
  ELSE IF ExactPrism(pr) /\ On(cl.sb) THEN Hit(<<At3(b)>>)
  ELSE IF cl.beside \/ FWell(cl.hi, cl.lo) THEN Miss
  ELSE IF FWell(cl.lo, cl.hi) /\ ~cl.graze /\ ~On(cl.sa) THEN Hit(IF On(cl.sb) THEN <<At3(b), entry>> ELSE <<entry>>)
  ELSE Either(<<>>)

(* ------------------------------- dispatch -------------------------------- *)
Supported(k1, k2) ==
  {k1, k2} \in { {"point"}, {"point", "ray"}, {"point", "sphere"}, {"point", "plane"}, {"point", "box"}, {"point", "prism"},
                 {"ray"}, {"ray", "sphere"}, {"ray", "plane"}, {"sphere"}, {"sphere", "plane"}, {"line", "prism"} }
\* e(s): tolerance of s in units;  ex: it is a binary number
Query(a, b, e(_), ex(_)) ==
  LET one(k) == IF a.k = k THEN a ELSE b
      is(x, y) == {a.k, b.k} = {x, y} IN
  CASE is("point", "point") -> PointPoint(a, b, MaxI(e(a), e(b)))
    [] is("point", "box") -> PointBox(one("point"), one("box"))
    [] is("point", "plane") -> PointPlane(one("point"), one("plane"), e(one("plane")), ex(one("plane")))
    [] is("point", "sphere") -> SpherePoint(one("sphere"), one("point"))
    [] is("point", "ray") -> RayPoint(one("ray"), one("point"), e(one("ray")))
    [] is("point", "prism") -> PrismPoint(one("prism"), one("point"))
    [] is("sphere", "sphere") -> SphereSphere(a, b)
    [] is("sphere", "plane") -> SpherePlane(one("sphere"), one("plane"))
    [] is("sphere", "ray") -> RaySphere(one("ray"), one("sphere"))
    [] is("ray", "plane") -> RayPlane(one("ray"), one("plane"), e(one("ray")))
    [] is("ray", "ray") -> RayRay(a, b, MaxI(e(a), e(b)))
    [] is("line", "prism") -> PrismLine(one("prism"), one("line"))
    [] OTHER -> CASE BoundsMeet(a, b) = "apart" -> Miss
                  [] BoundsMeet(a, b) = "overlap" -> Ans("panic", <<>>)
                  [] OTHER -> Ans("missorpanic", <<>>)

(* ------------------------------- supports -------------------------------- *)
\* farthest point in direction v: the point itself, or the facets it must be
\* behind together with the largest reach  v . x = mx / m
Support(s, v) ==
  CASE s.k = "point" -> [k |-> "at", locs |-> <<At3(s.p)>>]
    [] s.k \in {"ray", "plane"} \/ Zero3(v) -> [k |-> "none"]
    [] s.k = "sphere" -> [k |-> "at", locs |-> <<Loc(O(s), v, R(s), 0, 0, VNorm2(v), 1)>>]
    [] s.k = "box" -> [k |-> "extreme", fac |-> BoxFacets(s), num |-> <<VDot(v, O(s)) + R(s) * (Abs(v[1]) + Abs(v[2]) + Abs(v[3]))>>, m |-> 1]
    [] s.k = "prism" -> LET N == PrismN(s)  m == s.p[11]  up == s.p[10] * VDot(v, N)
                            base == {m * VDot(v, O(s)), m * VDot(v, D(s)), m * VDot(v, C(s))} IN
         [k |-> "extreme", fac |-> Facets(s), num |-> <<SetMax(base) + MaxI(0, up)>>, m |-> m]

(* ------------------------ overlap of two spheres (GJK) ------------------- *)
\* decided with a margin of half a thousandth; touching along the first search
\* direction is computed exactly
Gjk(a, b) ==
  IF a.k # "sphere" \/ b.k # "sphere" THEN Ans("panic", <<>>)
  ELSE LET c == VSub(O(b), O(a))  dd == VNorm2(c)  r == R(a) + R(b) IN
       IF dd = r * r /\ c[2] = 0 /\ c[3] = 0 /\ a.x THEN Ans("hit", <<>>)
       ELSE IF Abs(dd - r * r) <= (r * r) \div 1000 THEN Ans("either", <<>>)
       ELSE IF dd < r * r THEN Ans("hit", <<>>) ELSE Ans("miss", <<>>)
=============================================================================
