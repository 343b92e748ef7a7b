---------------------------- MODULE SceneMachine ----------------------------
(* A scene: registers hold shapes; calls build shapes, set their tolerance,   *)
(* and ask for intersections, bounds, defining data, support points and the   *)
(* convex overlap of two spheres.  Asking changes nothing (UNCHANGED reg).    *)
(* SUITE selects the family of scenes a script visits.                        *)
EXTENDS Shapes, Json

CONSTANTS MODE, NHIST, DEPTH, SEED, SUITE

VARIABLES h, t, micro, odd, reg, last
vars == <<h, t, micro, odd, reg, last>>

Regs == 1..3
Blank == [k |-> "none", p |-> <<>>, e |-> -1, x |-> TRUE]
Live(r) == reg[r].k # "none"
Call(op, d, s, p) == [op |-> op, d |-> d, s |-> s, p |-> p]
\* g: at which length a direction or normal is handed over (from 4 on: not a binary multiple)
Make(d, sh) == [op |-> "make", d |-> d, s |-> <<d, d>>, p |-> sh.p, kind |-> sh.k,
                g |-> IF MODE \in {"rand", "enum"} /\ sh.k \in {"ray", "plane"} THEN LET z == Rand(SEED, h, t, 94, 18) IN (IF z < 12 THEN z ELSE 0) ELSE 0]

Free == {"B01", "G01", "G03", "G05", "G08", "G10", "G11"}
Micro == {"G02", "G04", "G06"}
Frame == IF MODE \notin {"rand", "enum"} THEN 0
         ELSE IF SUITE = "G01" THEN <<0, 0, 3, -2>>[1 + Rand(SEED, h, 0, 91, 4)]
         ELSE IF SUITE \in Free THEN <<0, 0, 5, -7, 18, -18, 40, -40>>[1 + Rand(SEED, h, 0, 91, 8)]
         ELSE IF SUITE = "G09" THEN <<0, 0, 3, 8, -2, -5, -5, 14>>[1 + Rand(SEED, h, 0, 91, 8)]
         ELSE IF SUITE = "G07" THEN <<0, 0, 3, 8, -2, 14, -11>>[1 + Rand(SEED, h, 0, 91, 7)]
         ELSE <<0, 0, 3, 8, -2, 14>>[1 + Rand(SEED, h, 0, 91, 6)]

\* the default tolerance is a millionth: ten units where the unit is 1e-7 ("micro"),
\* far below one unit in the other frames
\* (where the unit is a 2048th, anything below one unit counts as undecided)
Fine == SUITE = "G07" /\ Frame = -11
EpsOf(s) == IF s.e >= 0 THEN s.e ELSE IF micro THEN 10 ELSE IF Fine THEN 1 ELSE 0
Binary(s) == s.e >= 0 /\ s.x

Callable(c) ==
  CASE c.op = "make" -> TRUE
    [] c.op \in {"vic", "bound", "data", "support"} -> Live(c.s[1])
    [] c.op \in {"query", "agree", "gjk"} -> Live(c.s[1]) /\ Live(c.s[2])
    [] OTHER -> FALSE

Exp(c) ==
  LET a == reg[c.s[1]]  b == reg[c.s[2]] IN
  CASE c.op \in {"make", "vic"} -> [k |-> "ok"]
    [] c.op = "query" -> LET q == Query(a, b, EpsOf, Binary) IN
         IF SUITE = "G09" /\ {a.k, b.k} = {"line", "prism"}
           THEN LET ln == IF a.k = "line" THEN a ELSE b  pr == IF a.k = "line" THEN b ELSE a IN
                [verdict |-> q.verdict, locs |-> q.locs, seg |-> <<O(ln), D(ln)>>, fac |-> Facets(pr)]
           ELSE q
    \* both orders, twice: only that the answers agree, or the refusal
    [] c.op = "agree" -> IF Supported(a.k, b.k) THEN Ans("agree", <<>>) ELSE Query(a, b, EpsOf, Binary)
    [] c.op = "gjk" -> Gjk(a, b)
    [] c.op = "bound" -> LET B == Bounds(a) IN [k |-> "bound", lo |-> B.lo, hi |-> B.hi, m |-> B.m, loose |-> B.loose]
    [] c.op = "data" -> Data(a)
    [] c.op = "support" -> Support(a, <<c.p[1], c.p[2], c.p[3]>>)

Do(c) ==
  /\ Callable(c) /\ t' = t + 1 /\ last' = c /\ UNCHANGED <<h, micro, odd>>
  /\ reg' = CASE c.op = "make" -> [reg EXCEPT ![c.d] = [Sh(c.kind, c.p) EXCEPT !.x = ~odd /\ ~micro /\ c.g < 4]]
              [] c.op = "vic" -> [reg EXCEPT ![c.s[1]].e = Abs(c.p[1])]
              [] OTHER -> reg

(* ------------------------------- scripts -------------------------------- *)
Pick(seq, tt, j) == seq[Rand(SEED, h, tt, j, Len(seq)) + 1]
Ri(tt, j, lo, hi) == RandIn(SEED, h, tt, j, lo, hi)
RV(tt, j, m) == << Ri(tt, j, -m, m), Ri(tt, j + 1, -m, m), Ri(tt, j + 2, -m, m) >>
OrX(v) == IF Zero3(v) THEN <<1, 0, 0>> ELSE v
Thin(tt, j, v) == \* some components put to nothing
  LET z == Rand(SEED, h, tt, j, 12) IN
  IF z \in {0, 1, 2} THEN <<0, v[2], v[3]>> ELSE IF z \in {3, 4} THEN <<v[1], 0, v[3]>> ELSE IF z \in {5, 6} THEN <<v[1], v[2], 0>>
  ELSE IF z = 7 THEN <<v[1], 0, 0>> ELSE IF z = 8 THEN <<0, v[2], 0>> ELSE IF z = 9 THEN <<0, 0, v[3]>> ELSE v
Dir(tt, j, m) == OrX(Thin(tt, j + 3, RV(tt, j, m)))
\* vectors of whole length <<x, y, z, length>>, in all positions and signs
Triples == << <<0,0,1,1>>, <<0,0,1,1>>, <<0,3,4,5>>, <<1,2,2,3>>, <<2,3,6,7>>, <<4,4,7,9>>, <<1,4,8,9>>, <<2,6,9,11>>, <<6,6,7,11>>, <<0,5,12,13>>, <<3,4,12,13>>, <<2,5,14,15>> >>
Whole(tt, j) ==
  LET v == Pick(Triples, tt, j)  z == Rand(SEED, h, tt, j + 1, 3)  g == Rand(SEED, h, tt, j + 2, 8)
      w == IF z = 0 THEN <<v[1], v[2], v[3]>> ELSE IF z = 1 THEN <<v[2], v[3], v[1]>> ELSE <<v[3], v[1], v[2]>>
      sg(i) == IF Mod(g \div Pow(2, i), 2) = 0 THEN 1 ELSE -1 IN
  << <<w[1] * sg(0), w[2] * sg(1), w[3] * sg(2)>>, v[4] >>

\* binary exponent of the unit; pairs judged with an absolute tolerance stay near one
Point(x) == Sh("point", x)
Ray(o, d) == Sh("ray", o \o d)
Sphere(o, r) == Sh("sphere", o \o <<r>>)
Plane(o, n) == Sh("plane", o \o n)
Box(o, s) == Sh("box", o \o <<s>>)
Line(a, b) == Sh("line", a \o b)
Prism(v0, v1, v2, hn, hd) == Sh("prism", v0 \o v1 \o v2 \o <<hn, hd>>)

\* a proper triangle: flat ones are bent
Proper(v0, v1, v2, hn, hd) ==
  IF ~Parallel(VSub(v1, v0), VSub(v2, v0)) THEN Prism(v0, v1, v2, hn, hd)
  ELSE Prism(v0, VAdd(v0, <<2, 0, 0>>), VAdd(v0, <<0, 1, 1>>), hn, hd)
RandPrism(tt, m) ==
  LET o == RV(tt, 60, 3)  z == Rand(SEED, h, tt, 71, 4)
      fl(v) == IF z = 0 THEN <<v[1], v[2], 0>> ELSE IF z = 1 THEN <<0, v[2], v[3]>> ELSE v IN
  Proper(VAdd(o, fl(RV(tt, 62, m))), VAdd(o, fl(RV(tt, 65, m))), VAdd(o, fl(RV(tt, 68, m))),
            IF SUITE \in {"B01", "G10"} /\ Rand(SEED, h, tt, 74, 3) = 0 THEN Ri(tt, 72, -4, -1) ELSE Ri(tt, 72, 1, 4), Pick(<<1, 2, 4, 8>>, tt, 73))
RandShape(k, tt, m) ==
  CASE k = "point" -> Point(RV(tt, 10, m))
    [] k = "ray" -> Ray(RV(tt, 10, m), Dir(tt, 13, Pick(<<6, 6, 40>>, tt, 19)))
    [] k = "sphere" -> Sphere(RV(tt, 10, m), Ri(tt, 13, 1, m))
    [] k = "plane" -> Plane(RV(tt, 10, m), Dir(tt, 13, Pick(<<6, 6, 40>>, tt, 19)))
    [] k = "box" -> Box(RV(tt, 10, m), Ri(tt, 13, 1, m))
    [] k = "line" -> Line(RV(tt, 10, m), IF Rand(SEED, h, tt, 20, 8) = 0 THEN RV(tt, 10, m) ELSE RV(tt, 13, m))
    [] k = "prism" -> RandPrism(tt, 2)

(* ---- the pair of kinds a history is about, and the second shape of a pair
   placed where the answer is delicate                                       *)
PairOf ==
  CASE SUITE = "G02" -> <<<<"point", "point">>, <<"box", "point">>, <<"plane", "point">>, <<"plane", "point">>>>[1 + Mod(h, 4)]
    [] SUITE = "G03" -> <<<<"sphere", "point">>, <<"sphere", "sphere">>, <<"sphere", "plane">>>>[1 + Mod(h, 3)]
    [] SUITE = "G04" -> <<"ray", "plane">>
    [] SUITE = "G05" -> <<"sphere", "ray">>
    [] SUITE = "G06" -> <<"ray", "point">>
    [] SUITE = "G07" -> <<"ray", "ray">>
    [] SUITE = "G08" -> <<"prism", "point">>
    [] SUITE = "G09" -> <<"prism", "line">>
    [] SUITE = "G11" -> <<"sphere", "sphere">>
    [] OTHER -> <<"point", "point">>
\* a long flat slab along an axis, and a segment almost along its large faces
Turned(v, z) == IF z = 0 THEN v ELSE IF z = 1 THEN <<v[3], v[1], v[2]>> ELSE <<v[2], v[3], v[1]>>
SlabTurn(tt) == Rand(SEED, h, tt - Mod(tt - 1, 5), 77, 3)      \* the same for the five calls about one slab
Slab(tt) ==
  LET z == SlabTurn(tt)  L == Pick(<<200, 150, 100>>, tt, 61)  w == Pick(<<20, 8, 16>>, tt, 62)
      o == RV(tt, 63, 9)  x == Pick(<<0, 1, 2>>, tt, 66)
      v1 == VAdd(o, Turned(<<L, 0, 0>>, z))  v2 == VAdd(o, Turned(<<(x * L) \div 2, w, 0>>, z)) IN
  IF Rand(SEED, h, tt, 67, 2) = 0 THEN Prism(o, v1, v2, Ri(tt, 68, 1, 3), L * w) ELSE Prism(o, v2, v1, Ri(tt, 68, 1, 3), L * w)
IsSlab(s) == s.k = "prism" /\ s.p[11] >= 800
Needle(A) == VNorm2(VSub(C(A), D(A))) <= 2
Along(tt, A) ==
  LET o == O(A)  z == SlabTurn(tt)
      up == SeqMax(PrismN(A)) > 0          \* which way it is extruded
      s == IF up THEN 1 ELSE -1
      f1 == VSub(D(A), o)  f2 == VSub(C(A), o)
      long == IF VNorm2(f1) >= VNorm2(f2) THEN f1 ELSE f2   short == IF VNorm2(f1) >= VNorm2(f2) THEN f2 ELSE f1
      on(a, b) == [i \in 1..3 |-> (long[i] * a + short[i] * b) \div 100]
      a2 == Ri(tt, 8, 60, 95)
      lo == VAdd(VAdd(o, on(Ri(tt, 6, -3, 25), Ri(tt, 7, 5, 70))), Turned(<<0, 0, s * Ri(tt, 10, -2, A.p[10])>>, z))
      hi == VAdd(VAdd(o, on(a2, Ri(tt, 9, 2, MaxI(3, 96 - a2)))), Turned(<<0, 0, s * Ri(tt, 11, 0, A.p[10] + 2)>>, z)) IN
  IF Rand(SEED, h, tt, 12, 2) = 0 THEN Line(TLCEval(lo), TLCEval(hi)) ELSE Line(TLCEval(hi), TLCEval(lo))
\* a segment moved into the plane of a facet that lies across an axis
InFace(A, a, b, i) ==
  LET f == TLCEval(Facets(A))[i]  j == CHOOSE x \in 1..3 : f.n[x] # 0 IN
  IF AxisAligned(f.n) /\ f.q % (f.m * Abs(f.n[j])) = 0
    THEN LET w == f.b[j] + Sgn(f.n[j]) * (f.q \div (f.m * Abs(f.n[j]))) IN Line(TLCEval([a EXCEPT ![j] = w]), TLCEval([b EXCEPT ![j] = w]))
    ELSE Line(TLCEval(a), TLCEval(b))
Huge == 13860                       \* a multiple of most lengths of Triples
First(tt) ==
  CASE SUITE = "G08" /\ Rand(SEED, h, tt, 78, 5) = 0 -> \* a tower over a small base
                        LET v0 == RV(tt, 60, 2) IN Proper(v0, VAdd(v0, RV(tt, 63, 2)), VAdd(v0, RV(tt, 66, 2)), Pick(<<100, 400, 9000, 9000>>, tt, 74), 1)
    [] SUITE = "G08" -> LET v0 == VScale(RV(tt, 60, 2), 6)  v1 == VScale(RV(tt, 63, 2), 6)  v2 == VScale(RV(tt, 66, 2), 6)
                            fl(v) == IF Mod(h, 3) = 0 THEN <<v[1], v[2], 0>> ELSE IF Mod(h, 7) = 1 THEN <<0, v[2], v[3]>> ELSE v
                            off == RV(tt, 70, 4)
                            P == Prism(fl(v0), fl(v1), fl(v2), Ri(tt, 74, 1, 6), 36) IN
                        IF Zero3(PrismN(P)) THEN Prism(off, VAdd(off, <<6, 0, 0>>), VAdd(off, <<0, 6, 6>>), Ri(tt, 74, 1, 6), 36)
                        ELSE Prism(VAdd(fl(v0), off), VAdd(fl(v1), off), VAdd(fl(v2), off), Ri(tt, 74, 1, 6), 36)
    [] SUITE = "G09" -> LET z == Rand(SEED, h, tt, 78, 8) IN
                        IF z < 2 THEN Slab(tt)
                        \* a needle: a base narrower than a unit for most of its length
                        ELSE IF z = 3 THEN LET v0 == RV(tt, 60, 3)  g == Rand(SEED, h, tt, 76, 3)
                                               v1 == VAdd(v0, Turned(<<Pick(<<1, -1>>, tt, 77) * Ri(tt, 63, 4, 9), Ri(tt, 64, -4, 4), 0>>, g)) IN
                                           Proper(v0, v1, VAdd(v1, Turned(<<Ri(tt, 65, -1, 1), Ri(tt, 66, -1, 1), 0>>, g)), Ri(tt, 74, 1, 4), Pick(<<1, 2>>, tt, 75))
                        ELSE IF z = 2 THEN LET v0 == RV(tt, 60, 3) IN Proper(v0, VAdd(v0, RV(tt, 63, 2)), VAdd(v0, RV(tt, 66, 2)), Pick(<<20, 40, 90>>, tt, 74), Pick(<<1, 2>>, tt, 75))
                        ELSE RandPrism(tt, 2)
    [] SUITE = "G07" -> Ray(RV(tt, 10, 8), Dir(tt, 13, Pick(<<4, 4, 30>>, tt, 19)))
    [] SUITE = "G05" /\ Rand(SEED, h, tt, 21, 6) = 1 -> Sphere(RV(tt, 10, 9), Pick(<<20, 60, 100, 200>>, tt, 14))
    [] SUITE = "G05" /\ Rand(SEED, h, tt, 21, 4) = 0 -> Sphere(RV(tt, 10, 9), Pick(<<1260, 2310, 3780, 12600, 12600>>, tt, 14))
    [] SUITE = "G11" -> LET m == Pick(<<3, 10, 60, 400>>, tt, 20) IN Sphere(RV(tt, 10, m), IF Rand(SEED, h, tt, 15, 8) = 0 THEN 0 ELSE Ri(tt, 14, 1, m))
    [] SUITE = "G03" -> Sphere(RV(tt, 10, 12), IF Rand(SEED, h, tt, 15, 4) # 0 THEN MaxI(0, Ri(tt, 13, -1, 12))
                                               ELSE IF PairOf[2] = "plane" THEN Pick(<<300, Huge, 650 * Huge>>, tt, 16) ELSE Pick(<<300, 3000, Huge, Huge>>, tt, 16))
    \* a plane almost across an axis
    [] PairOf = <<"plane", "point">> /\ Rand(SEED, h, tt, 21, 3) = 0 ->
         Plane(RV(tt, 10, Pick(<<10, 100>>, tt, 22)), TLCEval(Turned(<<RandIn(SEED, h, tt, 13, -1, 1), RandIn(SEED, h, tt, 14, -1, 1), Pick(<<100, -100, 100, -100, 30, -30>>, tt, 15)>>, Rand(SEED, h, tt, 16, 3))))
    [] OTHER -> RandShape(PairOf[1], tt, 10)
Second(tt) ==
  LET A == reg[1]  o == O(A)  z == Rand(SEED, h, tt, 1, 6)  w == Whole(tt, 2)  j1 == Ri(tt, 5, -1, 1)
      wild == RandShape(PairOf[2], tt, Pick(<<10, 10, 60>>, tt, 29)) IN
  CASE PairOf = <<"point", "point">> ->
         IF z < 2 THEN Point(o) ELSE Point(VAdd(o, Thin(tt, 9, RV(tt, 6, 12))))
    [] PairOf = <<"box", "point">> ->
         LET side(i) == Pick(<<-R(A) - 1, -R(A), -R(A) + 1, 0, R(A) - 1, R(A), R(A) + 1>>, tt, 20 + i) IN
         IF z = 0 THEN wild ELSE Point(VAdd(o, <<side(1), side(2), side(3)>>))
    [] PairOf = <<"plane", "point">> ->
         IF z = 0 THEN wild
         ELSE IF z < 4 THEN \* off the plane by a multiple of its normal
           \* (or far away in the plane, and off it by a unit or two)
           LET far == Frame <= 3 /\ Rand(SEED, h, tt, 11, 3) = 0 IN
           Point(VAdd(o, VAdd(VScale(VCross(D(A), RV(tt, 6, 2)), IF far THEN Pick(<<100, 1000, 20000>>, tt, 12) ELSE 1),
                              IF far /\ Rand(SEED, h, tt, 13, 2) = 0 THEN RV(tt, 14, 1) ELSE VScale(D(A), Ri(tt, 10, -2, 2)))))
         ELSE Point(VAdd(o, RV(tt, 6, 12)))
    [] PairOf = <<"sphere", "point">> ->
         \* the sphere's own reach decides how far out the point is set
         IF R(A) > 1000 /\ z < 5 THEN Point(VAdd(VAdd(o, VScale(w[1], R(A) \div w[2])), VScale(RV(tt, 6, 1), z \div 2)))
         ELSE IF z < 2 THEN Point(VAdd(o, RV(tt, 6, 9)))
         ELSE IF z = 2 THEN Point(VAdd(o, <<R(A) * Ri(tt, 6, -1, 1), R(A) * Ri(tt, 7, -1, 1), R(A) * Ri(tt, 8, -1, 1)>>))
         ELSE Point(VAdd(o, w[1]))
    [] PairOf = <<"sphere", "sphere">> /\ SUITE = "G03" ->
         LET k == Ri(tt, 6, 1, 3) + (IF R(A) > 200 THEN (R(A) \div w[2]) * Ri(tt, 11, 1, 2) ELSE 0)  rr == k * w[2] - R(A) + j1 IN
         IF R(A) = 0 /\ z < 3 THEN Sphere(VAdd(o, RV(tt, 7, IF z = 0 THEN 1 ELSE 0)), MaxI(0, Ri(tt, 10, -4, 4)))
         ELSE IF z = 0 THEN wild
         \* almost the same centre, alike in size or not at all
         ELSE IF z = 1 THEN Sphere(VAdd(o, RV(tt, 7, Pick(<<1, 3>>, tt, 12))), IF Rand(SEED, h, tt, 13, 2) = 0 THEN Ri(tt, 10, 0, 12) ELSE Pick(<<150, 700, 9000>>, tt, 10))
         ELSE IF z = 2 /\ rr < 0 THEN Sphere(o, Ri(tt, 10, 0, 4))
         ELSE Sphere(VAdd(o, VScale(w[1], k)), MaxI(0, rr))
    [] PairOf = <<"sphere", "plane">> ->
         IF z < 2 THEN wild
         ELSE IF z < 4 \/ (R(A) > 200 /\ z = 4) THEN
           Plane(VAdd(o, VAdd(VScale(w[1], IF R(A) > 200 THEN (R(A) \div w[2]) * (IF z = 4 THEN -1 ELSE 1) ELSE 1), VAdd(VCross(w[1], RV(tt, 6, 1)), IF R(A) > 200 THEN RV(tt, 26, 1) ELSE <<0, 0, 0>>))), IF Rand(SEED, h, tt, 9, 2) = 0 THEN w[1] ELSE VNeg(w[1]))
         ELSE LET n == Dir(tt, 6, 5) IN Plane(VAdd(o, RV(tt, 20, 7)), n)
    [] PairOf = <<"ray", "plane">> ->
         LET n == IF z = 4 /\ VNorm2(D(A)) <= 48 THEN \* the ray runs almost along the plane
                    VAdd(VScale(VCross(D(A), Dir(tt, 6, 3)), IF micro THEN 3 ELSE Pick(<<3, 30, 300>>, tt, 19)), RV(tt, 16, 1))
                  ELSE IF z = 5 THEN VCross(D(A), Dir(tt, 6, 3)) ELSE Dir(tt, 6, Pick(<<6, 6, 40>>, tt, 19))
             m == OrX(n)  at == VAdd(o, VScale(D(A), Ri(tt, 12, -2, 3))) IN
         IF z = 0 THEN wild
         ELSE IF z = 4 THEN Plane(IF Rand(SEED, h, tt, 13, 2) = 0 THEN at ELSE VAdd(at, VCross(RV(tt, 14, 1), RV(tt, 20, 3))), m)
         ELSE IF z = 5 /\ Rand(SEED, h, tt, 13, 2) = 0 THEN Plane(VAdd(at, RV(tt, 14, 3)), m)
         ELSE Plane(VAdd(at, VCross(m, RV(tt, 14, 2))), m)
    [] PairOf = <<"sphere", "ray">> ->
         LET s == R(A)  u == OrX(VCross(w[1], RV(tt, 6, 1))) IN
         \* a large sphere met near its surface: just inside or outside, in any direction
         CASE s > 1000 -> Ray(VAdd(VAdd(o, VScale(w[1], s \div w[2])), IF z >= 3 /\ Rand(SEED, h, tt, 23, 2) = 0 THEN VCross(w[1], RV(tt, 20, 1)) ELSE VScale(RV(tt, 20, 2), MinI(1, z))),
                              IF z < 4 THEN Dir(tt, 10, IF s > 10000 THEN 1 ELSE 3) ELSE IF z = 4 THEN u ELSE OrX(VAdd(u, RV(tt, 10, 1))))
           [] s >= 20 /\ z < 5 -> \* from far away along an axis, past the rim or through it
                LET g == Rand(SEED, h, tt, 30, 3)  gs == Pick(<<1, -1>>, tt, 31)
                    rim == s + Ri(tt, 32, -1, 1)  off == Ri(tt, 33, -(s \div 10), s \div 10)  far == gs * Pick(<<400, 5000, 45000>>, tt, 34) IN
                Ray(TLCEval(VAdd(o, Turned(IF z < 3 THEN <<far, Pick(<<1, -1>>, tt, 35) * rim, off>> ELSE <<far, off, Pick(<<1, -1>>, tt, 35) * rim>>, g))), TLCEval(Turned(<<-gs, 0, 0>>, g)))
           [] z = 0 -> wild
           [] z = 1 -> Ray(VAdd(o, RV(tt, 6, MaxI(1, s \div 2))), Dir(tt, 10, 9))                  \* from inside
           [] z = 2 -> LET f == RV(tt, 6, 12) IN Ray(VAdd(o, f), OrX(VAdd(VNeg(f), RV(tt, 10, 4))))   \* roughly towards the centre
           [] z = 3 -> LET f == RV(tt, 6, 12) IN Ray(VAdd(o, f), OrX(VAdd(f, RV(tt, 10, 4))))
           [] OTHER -> LET m == VAdd(o, w[1]) IN   \* past the end of a whole vector: tangents, surface points
                       IF z = 4 THEN Ray(m, Dir(tt, 10, 8)) ELSE Ray(VAdd(m, VScale(u, Ri(tt, 13, -1, 1))), IF Rand(SEED, h, tt, 14, 2) = 0 THEN u ELSE VNeg(u))
    [] PairOf = <<"ray", "point">> ->
         LET at == VAdd(o, VScale(D(A), Ri(tt, 6, -3, 5)))
             i == Ri(tt, 7, 1, 3)  off == [j \in 1..3 |-> IF j = i THEN Ri(tt, 8, -3, 3) ELSE 0] IN
         IF z = 0 THEN wild ELSE IF z < 4 THEN Point(at) ELSE IF z = 4 THEN Point(VAdd(at, off)) ELSE Point(VAdd(at, RV(tt, 9, 16)))
    [] PairOf = <<"ray", "ray">> ->
         LET dd == Dir(tt, 6, Pick(<<4, 4, 30>>, tt, 19))
             \* or almost the direction of the first ray, by a degree or so, or by a fraction of a thousandth
             steep == Frame <= 3 /\ \A j \in 1..3 : Abs(D(A)[j]) <= 2
             fine == steep /\ Rand(SEED, h, tt, 24, 5) = 0
             d == IF fine THEN VAdd(VScale(D(A), Pick(<<12000, -12000, 15000, -15000>>, tt, 22)), OrX(RV(tt, 23, 1)))
                  ELSE IF VNorm2(D(A)) <= 48 /\ Rand(SEED, h, tt, 21, 5) = 0
                  THEN VAdd(VScale(D(A), Pick(<<2, -2, 7, -7, 20, 50>>, tt, 22)), OrX(RV(tt, 23, 1))) ELSE dd
             at == VAdd(o, VScale(D(A), Ri(tt, 11, -2, 4)))
             b == IF fine THEN at ELSE VSub(at, VScale(d, Ri(tt, 12, -2, 4)))
             \* beside it by a unit or two, or by clearly more than the tolerance
             i == Ri(tt, 13, 1, 3)  g == IF A.e > 0 /\ Rand(SEED, h, tt, 26, 3) # 0 THEN Pick(<<-3, 3>>, tt, 14) * (A.e + Ri(tt, 27, 1, 3)) ELSE Pick(<<-2, -1, 1, 2>>, tt, 14)
             off == [j \in 1..3 |-> IF j = i THEN g ELSE 0]
             far == VAdd(o, VScale(D(A), Ri(tt, 28, -20, 60))) IN
         \* almost the same direction, met a little behind (or ahead of) where the first ray starts
         CASE z < 3 /\ VNorm2(D(A)) <= 48 /\ Frame <= 3 /\ Rand(SEED, h, tt, 30, 3) = 0 ->
                LET u == OrX(RV(tt, 31, 1))  e == VSub(VScale(u, Pick(<<900, 1500, 2500>>, tt, 34)), VScale(D(A), Pick(<<1, -1>>, tt, 35))) IN
                Ray(VSub(o, VScale(u, Pick(<<1, 1, 2, 3>>, tt, 36))), OrX(e))
           [] z = 0 -> Ray(VAdd(o, RV(tt, 15, 3)), d)
           [] z \in {1, 2} -> Ray(b, d)
           [] z = 3 -> Ray(VAdd(b, off), d)
           [] z = 4 -> Ray(at, VScale(D(A), Pick(<<1, -1, -1, 2>>, tt, 15)))        \* collinear
           [] OTHER -> Ray(VAdd(IF Rand(SEED, h, tt, 29, 2) = 0 /\ VMaxAbs(D(A)) <= 4 THEN far ELSE at, off), VScale(D(A), Pick(<<1, -1>>, tt, 15)))
    [] PairOf = <<"prism", "point">> ->
         \* barycentric in sixths, heights in 36ths of the normal
         LET a == Ri(tt, 6, -1, 5)  b == Ri(tt, 7, -1, 5)  c == 6 - a - b
             N == PrismN(A)
             on == [i \in 1..3 |-> (a * A.p[i] + b * A.p[3 + i] + c * A.p[6 + i]) \div 6 + (N[i] \div 36) * Ri(tt, 8, -1, A.p[10] + 1)] IN
         IF A.p[11] = 1 THEN LET v == 3 * Ri(tt, 13, 0, 3)
                                     foot == [q \in 1..3 |-> IF v = 9 THEN (A.p[q] + A.p[3 + q] + A.p[6 + q]) \div 3 ELSE A.p[v + q]] IN
              Point(TLCEval(VAdd(VAdd(foot, RV(tt, 9, Pick(<<1, 2>>, tt, 15))), VScale(N, Pick(<<0, 0, 1, A.p[10] \div 2, A.p[10] - 1, A.p[10], A.p[10], A.p[10] + 1>>, tt, 14)))))
         ELSE IF z = 0 THEN Point(VAdd(on, RV(tt, 9, 3))) ELSE IF z = 1 THEN Point(VAdd(VAdd(O(A), RV(tt, 9, 9)), RV(tt, 12, 3))) ELSE Point(TLCEval(on))
    [] PairOf = <<"prism", "line">> ->
         IF IsSlab(A) THEN Along(tt, A) ELSE
         IF A.p[10] >= 20 THEN \* along a tower, or across it
           (LET N == PrismN(A)  q == Rand(SEED, h, tt, 33, 3)
                v == [i \in 1..3 |-> A.p[3 * q + i]]
                up(k) == [i \in 1..3 |-> v[i] + (N[i] * A.p[10] * k) \div (20 * A.p[11])]
                a == VAdd(up(Pick(<<20, 21, 18, 10>>, tt, 34)), RV(tt, 6, 2))  b == VAdd(up(Pick(<<0, -1, 5, 12, 19>>, tt, 35)), RV(tt, 9, 2)) IN
            IF Rand(SEED, h, tt, 36, 2) = 0 THEN Line(TLCEval(a), TLCEval(b)) ELSE Line(TLCEval(b), TLCEval(a))) ELSE
         IF Rand(SEED, h, tt, 37, IF Needle(A) THEN 2 ELSE 5) = 0 THEN \* a short segment about a corner or an edge
           (LET N == PrismN(A)  q == Rand(SEED, h, tt, 33, 3)
                q2 == IF Needle(A) THEN q ELSE Rand(SEED, h, tt, 38, 3)  ww == Ri(tt, 39, 0, 4)
                \* somewhere on an edge of the base, or along a needle
                at(i) == IF Needle(A) THEN (A.p[i] * (4 - ww) + A.p[3 + i] * ww) \div 4
                         ELSE IF ww < 3 THEN A.p[3 * q + i] ELSE (A.p[3 * q + i] + A.p[3 * q2 + i]) \div 2
                p == [i \in 1..3 |-> at(i) + (N[i] * A.p[10] * Ri(tt, 34, 0, 4)) \div (4 * A.p[11])]
                u == RV(tt, 6, 1)  level == Rand(SEED, h, tt, 35, 2) = 0
                \* in a plane parallel to the base where that is across an axis
                flat(x) == IF level /\ AxisAligned(N) THEN [i \in 1..3 |-> IF N[i] # 0 THEN 0 ELSE x[i]] ELSE x IN
            Line(TLCEval(VAdd(p, flat(u))), TLCEval(VAdd(p, flat(IF Rand(SEED, h, tt, 36, 2) = 0 THEN VNeg(u) ELSE RV(tt, 9, 1)))))) ELSE
         LET a == VAdd(o, RV(tt, 6, 5))  b == VAdd(o, RV(tt, 9, 5))
             N == PrismN(A)  mid == [i \in 1..3 |-> (A.p[i] + A.p[3 + i] + A.p[6 + i]) \div 3]
             off == RV(tt, 12, 4)
             thr == VAdd(mid, off)
             \* a long way in: stopping short of the solid, in it, or passing through
             dv == OrX(RV(tt, 21, 9))  K == Ri(tt, 24, 3, 12)
             out == VAdd(mid, VScale(dv, K))  inn == VAdd(VAdd(mid, [q \in 1..3 |-> (dv[q] * Ri(tt, 25, -3, 3)) \div Pick(<<8, 16>>, tt, 27)]), RV(tt, 26, 1)) IN
         CASE z > 2 /\ ExactPrism(A) /\ Rand(SEED, h, tt, 31, 4) = 0 -> InFace(A, VAdd(mid, off), VAdd(VSub(mid, off), RV(tt, 20, 2)), Ri(tt, 32, 1, 5))
           [] z = 0 -> (IF Rand(SEED, h, tt, 29, 4) = 0 THEN Line(a, a) ELSE IF Rand(SEED, h, tt, 29, 4) = 1 THEN Line(TLCEval(inn), TLCEval(out)) ELSE Line(TLCEval(out), TLCEval(inn)))
           [] z = 5 /\ Rand(SEED, h, tt, 28, 2) = 0 -> Line(TLCEval(out), TLCEval(inn))
           [] z \in {1, 2} -> Line(TLCEval(VAdd(mid, off)), TLCEval(VAdd(VSub(mid, off), RV(tt, 20, 2))))     \* near the middle
           [] z = 3 -> Line(VAdd(mid, RV(tt, 15, 1)), thr)
           [] z = 4 -> Line(thr, VAdd(mid, RV(tt, 15, 1)))
           [] OTHER -> Line(a, b)
    [] PairOf = <<"sphere", "sphere">> -> \* G11: around the sum of the radii, inside, far
         LET far == RV(tt, 6, Pick(<<3, 10, 60, 400>>, tt, 20))
             k == Ri(tt, 9, 1, 12)
             rr == k * w[2] - R(A) IN
         CASE R(A) = 0 /\ z < 3 -> Sphere(VAdd(o, RV(tt, 6, IF z = 0 THEN 2 ELSE 0)), MaxI(0, Ri(tt, 10, -3, 3)))
           [] z = 0 -> Sphere(VAdd(o, far), Ri(tt, 10, 1, 400))
           [] z = 1 -> Sphere(VAdd(o, far), Ri(tt, 10, 1, 4))
           [] z = 2 -> Sphere(VAdd(o, VScale(w[1], k)), MaxI(1, (rr * 99) \div 100))
           [] z = 3 -> Sphere(VAdd(o, VScale(w[1], k)), MaxI(1, rr + Ri(tt, 11, -2, 2)))
           [] z = 4 -> Sphere(VAdd(o, Thin(tt, 12, far)), MaxI(1, SeqMax(<<Abs(far[1]), Abs(far[2]), Abs(far[3])>>) - R(A)))
           [] OTHER -> Sphere(VAdd(o, Thin(tt, 12, far)), Ri(tt, 10, 1, 60))
    [] OTHER -> wild

KindAt(tt) == Kinds[1 + Mod(h + (tt \div 3), 7)]
RandCall(tt) ==
  CASE SUITE = "B01" ->
         IF Mod(tt, 3) = 1 THEN Make(1, LET k == KindAt(tt) IN IF k = "prism" THEN RandPrism(tt, Pick(<<2, 9>>, tt, 2))
                                         ELSE IF k \in {"sphere", "box"} /\ Rand(SEED, h, tt, 3, 3) = 0   \* small and far away
                                           THEN LET c == RV(tt, 10, Pick(<<5000, 3000000>>, tt, 4)) IN (IF k = "box" THEN Box(c, Ri(tt, 13, 1, 3)) ELSE Sphere(c, Ri(tt, 13, 1, 3)))
                                         ELSE RandShape(k, tt, IF k \in {"point", "line"} THEN Pick(<<30, 3000000>>, tt, 4) ELSE 30))
         ELSE IF Mod(tt, 3) = 2 THEN Call("bound", 1, <<1, 1>>, <<>>) ELSE Call("data", 1, <<1, 1>>, <<>>)
    [] SUITE = "G10" ->
         LET k == <<"sphere", "box", "prism", "prism", "ray", "plane", "point">>[1 + Mod(h + (tt \div 5), 7)]
             v0 == IF Rand(SEED, h, tt, 30, 9) = 0 THEN <<0, 0, 0>> ELSE Thin(tt, 34, RV(tt, 31, Pick(<<1, 2, 9>>, tt, 40)))
             v == IF k = "point" /\ Zero3(v0) THEN <<1, 2, 3>> ELSE v0
             \* almost square to an edge of the base
             e1 == VSub(D(reg[1]), O(reg[1]))
             sq == VAdd(VScale(VCross(e1, RV(tt, 43, 3)), Pick(<<10, 1000, 40000>>, tt, 46)), RV(tt, 47, 1))
             g == IF Live(1) /\ reg[1].k = "box" THEN Pick(<<0, 1, 30, -40, 60, 101, 103, 105, 200, 201, 202, 203, 204, 205>>, tt, 42)
                  ELSE Pick(<<0, 0, 0, 1, -1, 7, -9, 30, -40, 60, 101, 102, 103, 104, 105>>, tt, 42)
             v1 == IF Live(1) /\ reg[1].k = "prism" /\ Rand(SEED, h, tt, 41, 4) = 1 THEN TLCEval(sq) ELSE IF Live(1) /\ reg[1].k = "prism" /\ Rand(SEED, h, tt, 41, 4) = 0 THEN PrismN(reg[1]) ELSE v IN
         IF Mod(tt, 5) = 1 THEN Make(1, RandShape(k, tt, 10))
         ELSE Call("support", 1, <<1, 1>>, v1 \o <<g>>)
    [] SUITE = "G01" ->
         LET r0 == 1 + Rand(SEED, h, tt, 8, 3)
             \* a ray almost along another one, starting on it or beside it
             along == LET A == reg[r0] IN Ray(VAdd(VAdd(O(A), VScale(D(A), Ri(tt, 40, -1, 3))), VScale(RV(tt, 41, 1), Ri(tt, 44, 0, 1))),
                                              VAdd(VScale(D(A), Pick(<<1, -1, 30, -30, 1000, -1000, 12000, -12000>>, tt, 45)), RV(tt, 46, 1)))
             \* a shape that shares a corner, an end or a centre with another one, or is the same as it
             twin == LET A == reg[r0]  p == IF A.k \in {"line", "prism"} THEN Pick(<<O(A), D(A), D(A)>>, tt, 50) ELSE O(A)
                         q == VAdd(p, RV(tt, 51, 4))  w == Pick(<<"same", "same", "point", "point", "line", "line2", "sphere", "box", "ray">>, tt, 54) IN
                     CASE w = "same" -> Sh(A.k, A.p)
                       [] w = "point" -> Point(p)
                       [] w = "line" -> Line(p, q)
                       [] w = "line2" -> Line(q, p)
                       [] w = "sphere" -> Sphere(p, Ri(tt, 55, 0, 3))
                       [] w = "box" -> Box(p, Ri(tt, 55, 0, 3))
                       [] OTHER -> Ray(p, Dir(tt, 56, 4))
             z == Rand(SEED, h, tt, 9, 12) IN
         LET d == 1 + Rand(SEED, h, tt, 2, 3)  s1 == 1 + Rand(SEED, h, tt, 3, 3)  s2 == 1 + Rand(SEED, h, tt, 4, 3)
             k == Pick(Kinds, tt, 5) IN
         IF tt <= 3 THEN Make(tt, RandShape(Kinds[1 + Mod(h \div Pow(7, tt - 1), 7)], tt, 5))
         ELSE IF z = 0 THEN Call("vic", 1, <<r0, r0>>, <<Ri(tt, 47, 0, 9), 1>>)
         ELSE IF z < 4 /\ Live(r0) /\ reg[r0].k = "ray" /\ (\A j \in 1..3 : Abs(D(reg[r0])[j]) <= 6) /\ ~Zero3(D(along)) THEN Make(d, along)
         ELSE IF z \in {4, 5} /\ Live(r0) THEN Make(IF d = r0 THEN 1 + Mod(d, 3) ELSE d, TLCEval(twin))
         ELSE IF Rand(SEED, h, tt, 6, 4) = 0 THEN Make(d, RandShape(k, tt, Pick(<<2, 5, 10>>, tt, 7)))
         ELSE Call("agree", d, <<s1, s2>>, <<>>)
    [] SUITE = "G11" ->
         (CASE Mod(tt, 4) = 1 -> Make(1, IF Rand(SEED, h, tt, 2, 12) = 0 THEN RandShape(Pick(Kinds, tt, 3), tt, 6) ELSE First(tt))
            [] Mod(tt, 4) = 2 -> Make(2, IF Rand(SEED, h, tt, 21, 12) = 0 \/ reg[1].k # "sphere" THEN RandShape(Pick(Kinds, tt, 22), tt, 6) ELSE Second(tt))
            [] Mod(tt, 4) = 3 -> Call("gjk", 1, <<1, 2>>, <<>>)
            [] OTHER -> Call("gjk", 1, <<2, 1>>, <<>>))
    [] OTHER ->
         (CASE Mod(tt, 5) = 1 -> Make(1, First(tt))
            [] Mod(tt, 5) = 2 -> IF SUITE \in {"G02", "G06", "G07"} /\ ~micro /\ Rand(SEED, h, tt, 3, IF SUITE = "G07" THEN 5 ELSE 2) = 0
                                 THEN Call("vic", 1, <<1, 1>>, <<Pick(<<1, 2, 3, 5, 6, 7, 9, 12, -4, -11>>, tt, 4)>>)
                                 ELSE Make(2, Second(tt))
            [] Mod(tt, 5) = 3 -> Make(2, Second(tt))
            [] Mod(tt, 5) = 4 -> Call("query", 1, <<1, 2>>, <<>>)
            [] OTHER -> Call(IF SUITE = "G07" /\ Rand(SEED, h, tt, 7, 4) = 0 THEN "agree" ELSE "query", 1, <<2, 1>>, <<>>))

(* ---- systematic families: the first shape at step one, then pairs of a new
   second shape and the question asked in both orders                         *)
\* the 26 directions with components in -1..1
Dir26(i) == LET j == IF i >= 13 THEN i + 1 ELSE i IN <<Mod(j, 3) - 1, Mod(j \div 3, 3) - 1, Mod(j \div 9, 3) - 1>>
\* points around the origin: all of -m..m cubed
Cube3(i, m) == LET w == 2 * m + 1 IN <<Mod(i, w) - m, Mod(i \div w, w) - m, Mod(i \div (w * w), w) - m>>
Around == 12                       \* second shapes per history
Index(i) == (h - 1) * Around + i   \* running number of the second shape
EnumFirst ==
  LET k == h - 1 IN
  CASE SUITE = "G02" -> IF Mod(k, 2) = 0 THEN Box(<<1, -2, 3>>, 2) ELSE Plane(<<1, -2, 3>>, Dir26(Mod(k \div 2, 26)))
    [] SUITE = "G03" -> Sphere(<<2, 1, -1>>, Mod(k, 4))
    [] SUITE = "G04" -> Ray(<<1, 2, -3>>, Dir26(Mod(k, 26)))
    [] SUITE = "G05" -> Sphere(<<1, -1, 2>>, 1 + Mod(k, 3))
    [] SUITE \in {"G06", "G07"} -> Ray(<<3, -1, 2>>, Dir26(Mod(k, 26)))
    [] SUITE \in {"G08", "G09"} -> Prism(<<0, 0, 0>>, <<<<4, 0, 0>>, <<0, 3, 0>>, <<2, 2, 0>>, <<0, 0, 4>>, <<1, 2, 2>>, <<4, 1, 0>>>>[1 + Mod(k, 6)],
                                         <<<<0, 2, 0>>, <<2, 0, 1>>, <<0, 0, 3>>, <<-2, 3, 1>>, <<2, 2, -1>>>>[1 + Mod(k \div 6, 5)], 1 + Mod(k, 3), <<4, 8, 2>>[1 + Mod(k, 3)])
    [] SUITE = "G10" -> <<Sphere(<<1, 2, 3>>, 2), Box(<<1, 2, 3>>, 2), Prism(<<0, 0, 0>>, <<3, 0, 0>>, <<0, 2, 0>>, 1, 2),
                          Prism(<<1, 0, 0>>, <<0, 2, 0>>, <<0, 0, 3>>, 2, 7), Ray(<<1, 2, 3>>, <<1, 1, 0>>), Plane(<<1, 2, 3>>, <<0, 1, 0>>), Prism(<<0, 0, 0>>, <<0, 2, 0>>, <<3, 0, 1>>, 1, 2)>>[1 + Mod(k, 7)]
    [] SUITE = "G11" -> Sphere(<<0, 0, 0>>, <<1, 3, 10, 25>>[1 + Mod(k, 4)])
    [] SUITE = "B01" -> Ray(<<1, -2, 3>>, Dir26(Mod(k, 26)))
    [] OTHER -> RandShape(Kinds[1 + Mod(k, 7)], 1, 4)
EnumSecond(i) ==
  LET k == h - 1  A == reg[1]  o == O(A)  x == Index(i) IN
  CASE SUITE = "G02" -> Point(VAdd(o, Cube3(Mod(x * 7, 343), 3)))
    [] SUITE = "G03" -> IF Mod(i, 3) = 0 THEN Point(VAdd(o, Cube3(Mod(x * 11, 343), 3)))
                        ELSE IF Mod(i, 3) = 1 THEN Sphere(VAdd(o, Cube3(Mod(x * 11, 343), 3)), Mod(x, 3))
                        ELSE Plane(VAdd(o, Cube3(Mod(x * 11, 343), 3)), Dir26(Mod(x, 26)))
    [] SUITE = "G04" -> Plane(VAdd(o, Cube3(Mod(x * 5, 125), 2)), Dir26(Mod(x * 3 + k, 26)))
    [] SUITE = "G05" -> Ray(VAdd(o, Cube3(Mod(x * 13, 729), 4)), Dir26(Mod(x * 3 + k, 26)))
    [] SUITE = "G06" -> IF Mod(i, 2) = 0 THEN Point(VAdd(o, VScale(D(A), (i \div 2) - 3))) ELSE Point(VAdd(o, Cube3(Mod(x * 5, 125), 2)))
    [] SUITE = "G07" -> IF Mod(i, 3) # 0 THEN LET d == Dir26(Mod(x * 3 + k, 26)) IN Ray(VSub(VAdd(o, VScale(D(A), Mod(x, 5) - 1)), VScale(d, Mod(x \div 5, 5) - 1)), d)
                        ELSE Ray(VAdd(o, Cube3(Mod(x * 5, 125), 2)), Dir26(Mod(x * 3 + k, 26)))
    [] SUITE = "G08" -> Point(Cube3(Mod(x * 5, 729), 4))
    [] SUITE = "G09" -> Line(Cube3(Mod(x * 5, 729), 4), Cube3(Mod(x * 17 + 3 * k, 729), 4))
    [] SUITE = "G11" -> LET d == Dir26(Mod(x, 26))  m == <<1, 2, 5, 20>>[1 + Mod(k \div 4, 4)] IN Sphere(VScale(d, m), 1 + Mod(x * 7, 40))
    [] SUITE = "B01" -> IF Mod(i, 2) = 0 THEN Plane(<<5, 6, 7>>, Dir26(Mod(x, 26)))
                        ELSE Line(Cube3(Mod(x, 27), 1), Cube3(Mod(x * 4, 27), 1))
    [] OTHER -> RandShape(Kinds[1 + Mod(k \div 7, 7)], 100 + i, 4)
EnumCall(tt) ==
  IF tt = 1 THEN Make(1, EnumFirst)
  ELSE IF SUITE = "G10" THEN LET x == Index(tt) IN Call("support", 1, <<1, 1>>, Cube3(Mod(x * 2, 125), 2) \o <<IF Mod(x, 7) > 4 THEN 98 + Mod(x, 7) ELSE Mod(x, 5) - 2>>)
  ELSE IF SUITE = "B01" /\ tt = 2 THEN Call("bound", 1, <<1, 1>>, <<>>)
  ELSE IF SUITE = "B01" /\ tt = 3 THEN Call("data", 1, <<1, 1>>, <<>>)
  ELSE LET i == (tt - 2) \div 3 IN
       CASE Mod(tt - 2, 3) = 0 -> Make(2, EnumSecond(i))
         [] OTHER -> CASE SUITE = "B01" -> Call(IF Mod(tt - 2, 3) = 1 THEN "bound" ELSE "data", 1, <<IF Live(2) THEN 2 ELSE 1, 1>>, <<>>)
                       [] SUITE = "G01" -> Call("agree", 1, <<1, 2>>, <<>>)
                       [] SUITE = "G11" -> Call("gjk", 1, IF Mod(tt - 2, 3) = 1 THEN <<1, 2>> ELSE <<2, 1>>, <<>>)
                       [] OTHER -> Call("query", 1, IF Mod(tt - 2, 3) = 1 THEN <<1, 2>> ELSE <<2, 1>>, <<>>)
EnumLen == IF SUITE = "G10" THEN 1 + Around ELSE 1 + 3 * Around

(* ------------------------------ behaviours ------------------------------ *)
Init == /\ h \in 1..NHIST /\ t = 0
        /\ micro = (MODE \in {"rand", "enum"} /\ SUITE \in Micro /\ Rand(SEED, h, 0, 92, 4) = 0)
        \* the unit is no power of two
        /\ odd = (MODE \in {"rand", "enum"} /\ Rand(SEED, h, 0, 93, 3) = 0)
        /\ reg = [r \in Regs |-> Blank] /\ last = [op |-> "start"]
LineOf(c) == [h |-> h, t |-> t + 1, op |-> c.op, d |-> c.d, s |-> c.s, p |-> c.p,
              kind |-> (IF c.op = "make" THEN c.kind ELSE ""), g |-> (IF c.op = "make" THEN c.g ELSE 0), micro |-> micro, odd |-> odd, f |-> Frame, exp |-> Exp(c)]
Chosen == LET c == IF MODE = "enum" THEN EnumCall(t + 1) ELSE RandCall(t + 1) IN
          IF Callable(c) THEN c ELSE Make(1, RandShape("sphere", t + 1, 5))
StepScript == /\ t < (IF MODE = "enum" THEN EnumLen ELSE DEPTH)
              /\ \E c \in {TLCEval(Chosen)} : Do(c) /\ PrintT(ToJson(LineOf(c)))

(* exhaustive: every pair of small shapes of the suite, then the question *)
Small(m) == (-m..m) \X (-m..m) \X (-m..m)
Dirs == Small(1) \ {<<0, 0, 0>>}
Small2 == { Small2x \in Small(2) : Small2x[1] >= 0 }
McFirst ==
  CASE SUITE = "G02" -> {Point(<<0, 0, 0>>), Box(<<0, 0, 0>>, 1), Box(<<1, 0, -1>>, 1)} \cup { Plane(<<0, 0, 0>>, d) : d \in Dirs }
    [] SUITE = "G03" -> { Sphere(<<0, 0, 0>>, r) : r \in 0..2 }
    [] SUITE \in {"G04", "G06", "G07"} -> { Ray(<<0, 0, 0>>, d) : d \in Dirs }
    [] SUITE = "G05" -> { Sphere(<<0, 0, 0>>, r) : r \in 1..2 }
    [] SUITE = "G11" -> { Sphere(<<0, 0, 0>>, r) : r \in 1..4 }
    [] SUITE \in {"G08", "G09"} -> { Proper(<<0, 0, 0>>, <<2, 0, 0>>, <<0, 2, 0>>, 1, 4), Proper(<<0, 0, 0>>, <<2, 1, 0>>, <<0, 1, 2>>, 1, 3),
                                     Proper(<<-1, 0, 1>>, <<0, 2, -1>>, <<1, -1, 0>>, 1, 6) }
    [] OTHER -> { Sh("prism", Proper(<<-1, 0, 1>>, <<0, 2, -1>>, <<1, -1, 0>>, 1, 6).p), Box(<<1, 0, -1>>, 1), Box(<<0, 0, 0>>, 2), Sphere(<<0, 0, 1>>, 2),
                  Line(<<-1, 2, 0>>, <<2, 1, 1>>), Point(<<1, 2, -1>>), Prism(<<0, 0, 0>>, <<2, 0, 0>>, <<0, 2, 0>>, 1, 4) }
                \cup { Ray(<<0, 1, 0>>, d) : d \in Dirs } \cup { Plane(<<1, 0, 0>>, d) : d \in Dirs }
McSecond ==
  CASE SUITE = "G02" -> { Point(x) : x \in Small(2) }
    [] SUITE = "G03" -> { Point(x) : x \in Small(2) } \cup { Sphere(x, r) : x \in Small(2), r \in 0..2 } \cup { Plane(x, d) : x \in Small(2), d \in Dirs }
    [] SUITE = "G04" -> { Plane(x, d) : x \in Small(2), d \in Dirs }
    [] SUITE = "G05" -> { Ray(x, d) : x \in Small(2), d \in Dirs }
    [] SUITE = "G06" -> { Point(x) : x \in Small(2) }
    [] SUITE = "G07" -> { Ray(x, d) : x \in Small2, d \in Dirs }
    [] SUITE = "G08" -> { Point(x) : x \in Small(3) }
    [] SUITE = "G09" -> { Line(x, y) : x \in { Small2x \in Small(2) : Small2x[3] # 0 }, y \in {<<0, 1, 1>>, <<1, 0, 0>>, <<-1, -1, 2>>, <<3, 1, -2>>, <<0, 0, 3>>, <<2, 2, 1>>, <<-2, 0, 0>>} }
    [] SUITE = "G01" -> { Point(x) : x \in Small(1) } \cup McFirst
    [] SUITE = "G11" -> { Sphere(x, r) : x \in Small(4), r \in 1..4 }
    [] OTHER -> { Point(x) : x \in Small(1) }
StepMC == \/ /\ t = 0 /\ \E s \in McFirst : Do(Make(1, s))
          \/ /\ t = 1 /\ \E s \in McSecond : Do(Make(2, s))
Next == IF MODE = "mc" THEN StepMC ELSE StepScript
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)
Asked == MODE = "mc" /\ t = 2
Ask12 == Query(reg[1], reg[2], EpsOf, Binary)
Ask21 == Query(reg[2], reg[1], EpsOf, Binary)
Rational(lc) == lc.g = 0 /\ lc.rt = 0
LocPoint(lc) == VAdd(VScale(lc.o, lc.den), VScale(lc.d, lc.p))     \* over lc.den
\* rays see the surface of a sphere, everything else the solid
Holds(s, other, x, m) == IF s.k = "sphere" /\ other.k = "ray" THEN OnSphere(s, x, m) ELSE Contains(s, x, m)
OneSided(a, b) == {a.k, b.k} = {"ray", "plane"} /\
  LET r == IF a.k = "ray" THEN a ELSE b  pl == IF a.k = "ray" THEN b ELSE a IN VDot(D(r), D(pl)) > 0
\* a location lies in both shapes
Witnessed == Asked => LET q == Ask12 IN (q.verdict = "hit") => \A i \in DOMAIN q.locs : LET lc == q.locs[i] IN
  Rational(lc) => Holds(reg[1], reg[2], LocPoint(lc), lc.den) /\ Holds(reg[2], reg[1], LocPoint(lc), lc.den)
\* no lattice point lies in both shapes when the answer is no
Lattice == Small(2)
NoneMissed == (Asked /\ Ask12.verdict = "miss" /\ ~OneSided(reg[1], reg[2])) =>
  \A x \in Lattice : ~(Holds(reg[1], reg[2], x, 1) /\ Holds(reg[2], reg[1], x, 1))
\* half-lattice for the pairs whose meeting points are rarely whole
HalfMissed == (Asked /\ Ask12.verdict = "miss" /\ ~OneSided(reg[1], reg[2])) =>
  \A x \in Small(3) : ~(Holds(reg[1], reg[2], x, 2) /\ Holds(reg[2], reg[1], x, 2))
Symmetric == Asked => Ask12.verdict = Ask21.verdict
\* the bounding boxes used as a filter never hide a meeting
FilterSound == (Asked /\ Ask12.verdict = "hit") => BoundsMeet(reg[1], reg[2]) # "apart"
\* a box holds the shape: checked on the lattice
InBounds(s, x) == LET B == Bounds(s) IN \A i \in 1..3 :
  \/ B.loose[i]
  \/ (B.lo[i] = -Inf \/ B.lo[i] <= x[i] * B.m) /\ (B.hi[i] = Inf \/ x[i] * B.m <= B.hi[i])
BoundsHold == (MODE = "mc" /\ t >= 1) => (\A x \in Lattice : (Contains(reg[1], x, 1) => InBounds(reg[1], x)))
\* support: no lattice point of the shape reaches farther
SupportReach == (MODE = "mc" /\ t = 2 /\ SUITE = "G10" /\ reg[1].k # "line") =>
  LET v == O(reg[2])  q == Support(reg[1], v) IN
  /\ q.k = "extreme" => \A x \in Lattice : Contains(reg[1], x, 1) => VDot(v, x) * q.m <= q.num[1]
  /\ q.k = "at" => \A i \in DOMAIN q.locs : Rational(q.locs[i]) => Contains(reg[1], LocPoint(q.locs[i]), q.locs[i].den)
\* the overlap query and the exact test agree wherever the former is decided
GjkAgrees == (Asked /\ reg[1].k = "sphere" /\ reg[2].k = "sphere" /\ Gjk(reg[1], reg[2]).verdict # "either")
             => Gjk(reg[1], reg[2]).verdict = Ask12.verdict
\* asking changes nothing
Pure == [][last'.op \in {"query", "agree", "gjk", "bound", "data", "support"} => reg' = reg]_vars
=============================================================================
