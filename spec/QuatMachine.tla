----------------------------- MODULE QuatMachine ----------------------------
(* Quaternions with integer components (x, y, z, w).  In the suites about     *)
(* rotation (Q02) and reflection (Q06) a register stands for the unit         *)
(* quaternion register / |register|; results are rational with the squared    *)
(* length as denominator, so they stay exact.                                 *)
(* Running modes as in MatMachine: mc, rand, enum, trace.                     *)
EXTENDS LinAlg, Json

CONSTANTS MODE, NHIST, DEPTH, SEED, SUITE

VARIABLES h, t, reg, last
vars == <<h, t, reg, last>>

Regs == 1..3
Big == 1500

(* ------------------------------ quaternions ----------------------------- *)
QMul(a, b) ==     \* Hamilton's product, i*j = k
  LET ax == a[1] ay == a[2] az == a[3] aw == a[4]
      bx == b[1] by == b[2] bz == b[3] bw == b[4] IN
  << aw*bx + ax*bw + ay*bz - az*by,
     aw*by - ax*bz + ay*bw + az*bx,
     aw*bz + ax*by - ay*bx + az*bw,
     aw*bw - ax*bx - ay*by - az*bz >>
QConj(a) == << -a[1], -a[2], -a[3], a[4] >>
QN(a) == VNorm2(a)
QOne == <<0, 0, 0, 1>>
QPure(v) == <<v[1], v[2], v[3], 0>>
QVec(a) == <<a[1], a[2], a[3]>>
QZero(a) == \A i \in 1..4 : a[i] = 0

\* q v q*: the rotation by q / |q|, times |q|^2
RotNum(q, v) == QVec(QMul(QMul(q, QPure(v)), QConj(q)))
\* the same as a matrix: columns are the images of the axes
RotMat(q) == LET e(i) == RotNum(q, [k \in 1..3 |-> IF k = i + 1 THEN 1 ELSE 0])
                 f(i, j) == e(j)[i + 1]
             IN MBuild(3, f)
\* homogeneous 4x4 entries, row by row
Hom(n, m) == LET f(i, j) == IF i < 3 /\ j < 3 THEN At(3, m, i, j) ELSE IF i = 3 /\ j = 3 THEN n ELSE 0
             IN MBuild(4, f)
\* mirror image in the plane through the origin with normal m, times |m|^2
MirrorNum(m, v) == VSub(VScale(v, VNorm2(m)), VScale(m, 2 * VDot(m, v)))
OrthoNum(m, v)  == VScale(m, VDot(m, v))
InPlaneNum(m, v) == VSub(VScale(v, VNorm2(m)), OrthoNum(m, v))

(* --------------------------------- calls -------------------------------- *)
Call(op, d, s, p) == [op |-> op, d |-> d, s |-> s, p |-> p]
Pick(seq, k, tt, j) == seq[Rand(SEED, k, tt, j, Len(seq)) + 1]
Units == SUITE \in {"Q02", "Q06"}
Frame == IF MODE # "rand" THEN 0
         ELSE IF SUITE = "Q08" THEN Pick(<<0, 0, -18, -7, 9, 18, -250, 250>>, h, 0, 91)
         ELSE IF SUITE \in {"Q01", "Q07"} THEN Pick(<<0, 0, -9, -3, 4, 8, -80, 80>>, h, 0, 91)
         ELSE Pick(<<0, 0, -12, 15, -150, 150>>, h, 0, 91)          \* rotation, reflection: of the vectors
Framed(cond) == MODE \in {"rand", "enum"} => cond
MaxDeg == 3
R1(c) == reg[c.s[1]]
R2(c) == reg[c.s[2]]
Small(v) == VMaxAbs(v) <= Big
QBig == IF Units THEN 30 ELSE Big

\* one component far larger than the others: almost no turn, or almost half a turn
Lopsided(q) == \E i \in 1..4 : Abs(q[i]) <= 2000 /\ \A j \in 1..4 : j # i => Abs(q[j]) <= 12

Callable(c) ==
  CASE c.op \in {"init", "one", "autow", "raw", "inorm", "trans"} -> (Units => c.op # "init" \/ ~QZero(c.p))
    [] c.op \in {"conj", "neg", "len", "len2", "inv", "norm"} -> R1(c).live
    [] c.op = "scale" -> R1(c).live /\ Small(VScale(R1(c).v, c.p[1])) /\ ScaleOk(c.p, R1(c).deg, MaxDeg)
    [] c.op \in {"add", "minus"} -> R1(c).live /\ R2(c).live /\ Framed(R1(c).deg = R2(c).deg) /\ Small(VAdd(R1(c).v, R2(c).v)) /\ Small(VSub(R1(c).v, R2(c).v))
    [] c.op = "mul" -> /\ R1(c).live /\ R2(c).live /\ Framed(Abs(R1(c).deg + R2(c).deg) <= MaxDeg)
                       /\ LET q == QMul(R1(c).v, R2(c).v) IN VMaxAbs(q) <= QBig \/ (SUITE = "Q02" /\ Lopsided(q))
    [] c.op = "dual" -> R1(c).live /\ R2(c).live
    [] c.op \in {"rot", "rotm"} -> R1(c).live
    [] c.op \in {"mirror", "ortho", "inplane"} -> R1(c).live
    [] c.op = "tmat" -> R1(c).live
    [] OTHER -> FALSE
Stores(c) == c.op \in {"init", "one", "conj", "neg", "scale", "add", "minus", "mul", "trans"}

Res(c) ==
  LET new(v, deg) == [v |-> v, deg |-> deg, live |-> TRUE] IN
  CASE c.op = "init" -> new(c.p, 1)
    [] c.op = "one" -> new(QOne, 0)
    [] c.op = "conj" -> new(QConj(R1(c).v), R1(c).deg)
    [] c.op = "neg" -> new(VNeg(R1(c).v), R1(c).deg)
    [] c.op = "scale" -> new(VScale(R1(c).v, c.p[1]), R1(c).deg + ScaleDeg(c.p))
    [] c.op = "add" -> new(VAdd(R1(c).v, R2(c).v), R1(c).deg)
    [] c.op = "minus" -> new(VSub(R1(c).v, R2(c).v), R1(c).deg)
    [] c.op = "mul" -> new(QMul(R1(c).v, R2(c).v), R1(c).deg + R2(c).deg)
    [] c.op = "trans" -> new(QPure(c.p), 1)          \* twice the quaternion

Out(k, num, den, deg, ref) == [k |-> k, num |-> num, den |-> den, deg |-> deg, ref |-> ref]
All(s, x) == [q \in DOMAIN s |-> x]
Over(v, n, deg, ref) == Out("vec", v, All(v, n), deg, ref)
Exp(c) ==
  CASE c.op = "trans" -> Over(QPure(c.p), 2, 1, 0)
    [] Stores(c) /\ Units -> Out("unit", Res(c).v, <<QN(Res(c).v)>>, 0, 1)
    [] Stores(c) -> Over(Res(c).v, 1, Res(c).deg, 0)
    [] c.op = "len2" -> Out("num", <<QN(R1(c).v)>>, <<1>>, 2 * R1(c).deg, 0)
    [] c.op = "len" -> Out("sqrt", <<QN(R1(c).v)>>, <<1>>, R1(c).deg, 0)
    [] c.op = "inv" -> IF QZero(R1(c).v) THEN Out("panic", <<>>, <<>>, 0, 0)
                       ELSE Over(QConj(R1(c).v), QN(R1(c).v), -R1(c).deg, 0)
    [] c.op = "norm" -> IF QZero(R1(c).v) THEN Out("panic", <<>>, <<>>, 0, 0)
                        ELSE Out("unit", R1(c).v, <<QN(R1(c).v)>>, 0, 0)
    [] c.op = "inorm" -> IF QZero(c.p) THEN Out("panic", <<>>, <<>>, 0, 0) ELSE Out("unit", c.p, <<QN(c.p)>>, 0, 0)
    [] c.op = "raw" -> Over(c.p, 1, 1, 0)
    \* p = (x, y, z, d): completes (x, y, z)/d by w = - sqrt(d^2 - x^2 - y^2 - z^2)/d
    [] c.op = "autow" -> Out("autow", <<c.p[1], c.p[2], c.p[3], c.p[4] * c.p[4] - VNorm2(QVec(c.p))>>, <<c.p[4]>>, 0, 0)
    [] c.op = "dual" -> Out("dual", R1(c).v \o R2(c).v, All(R1(c).v \o R2(c).v, 1), 0, 0)
    [] c.op = "rot" -> Over(RotNum(R1(c).v, c.p), QN(R1(c).v), 1, VMaxAbs(c.p))
    [] c.op = "rotm" -> [Over(Hom(QN(R1(c).v), RotMat(R1(c).v)), QN(R1(c).v), 0, 1) EXCEPT !.k = "mat"]
    [] c.op = "mirror" -> Over(MirrorNum(QVec(R1(c).v), c.p), QN(R1(c).v), 1, VMaxAbs(c.p))
    [] c.op = "ortho" -> Over(OrthoNum(QVec(R1(c).v), c.p), QN(R1(c).v), 1, VMaxAbs(c.p))
    [] c.op = "inplane" -> Over(InPlaneNum(QVec(R1(c).v), c.p), QN(R1(c).v), 1, VMaxAbs(c.p))
    \* register = twice the quaternion: the matrix moves by register * 2^f
    [] c.op = "tmat" -> [Over(<<1,0,0,R1(c).v[1], 0,1,0,R1(c).v[2], 0,0,1,R1(c).v[3], 0,0,0,1>>, 1, 1, 0) EXCEPT !.k = "tmat"]

(* ------------------------------- scripts -------------------------------- *)
Flag(c) == c.op \in {"rotm", "tmat"} /\ c.p[1] = 1
Comp(k, tt, i, w) == LET v == RandIn(SEED, k, tt, 20 + i, -w, w) IN IF Rand(SEED, k, tt, 30 + i, 4) = 0 THEN 0 ELSE v
QRand(k, tt) ==
  LET z == Rand(SEED, k, tt, 50, 6)   w == IF Units THEN 3 ELSE IF z = 0 THEN (IF SUITE = "Q01" THEN Pick(<<35, 1200, 1400>>, k, tt, 56) ELSE 35) ELSE IF z \in {3, 4} /\ SUITE = "Q01" THEN 1 ELSE 9
      q == [i \in 1..4 |-> IF SUITE = "Q06" /\ i = 4 THEN 0 ELSE IF z = 1 THEN (IF i = 1 + Rand(SEED, k, tt, 51, IF SUITE = "Q06" THEN 3 ELSE 4) THEN RandIn(SEED, k, tt, 52, 1, w) ELSE 0)
                       ELSE IF z = 2 /\ Units THEN (IF i = (IF SUITE = "Q02" /\ Rand(SEED, k, tt, 53, 2) = 0 THEN 4 ELSE 1 + Rand(SEED, k, tt, 51, IF SUITE = "Q06" THEN 3 ELSE 4))
                                                     THEN Pick(<<50, -50, 200, -200, 2000>>, k, tt, 52) ELSE RandIn(SEED, k, tt, 20 + i, -1, 1)) 
                       \* a scalar part or one component alone, but for a unit or two
                       ELSE IF z = 2 /\ SUITE = "Q01" THEN (IF i = (IF Rand(SEED, k, tt, 53, 2) = 0 THEN 4 ELSE 1 + Rand(SEED, k, tt, 51, 4)) THEN Pick(<<150, -150, 1400, -1400>>, k, tt, 52)
                                                              ELSE IF Rand(SEED, k, tt, 60 + i, 3) = 0 THEN RandIn(SEED, k, tt, 20 + i, -1, 1) ELSE 0)
                       \* along a diagonal
                       ELSE IF z = 5 /\ SUITE = "Q01" /\ i < 4 THEN RandIn(SEED, k, tt, 20, -9, 9)
                       ELSE IF z = 5 /\ SUITE = "Q01" /\ Rand(SEED, k, tt, 53, 2) = 0 THEN 0
                       ELSE IF z = 2 /\ SUITE = "Q08" THEN (IF i = (IF Rand(SEED, k, tt, 53, 2) = 0 THEN 4 ELSE 1 + Rand(SEED, k, tt, 51, 4)) THEN Pick(<<150, -150, 500, 2000>>, k, tt, 52) ELSE RandIn(SEED, k, tt, 20 + i, -2, 2))
                       ELSE Comp(k, tt, i, w)]
  IN IF Units /\ QZero(q) THEN (IF SUITE = "Q06" THEN <<0, 1, 0, 0>> ELSE <<1, 2, -1, 2>>) ELSE q
VRand(k, tt) == [i \in 1..3 |-> Comp(k, tt, 5 + i, IF SUITE = "Q07" /\ Rand(SEED, k, tt, 54, 3) = 0 THEN Pick(<<500, 60000, 400000>>, k, tt, 55) ELSE 20)]
\* triples in the ball of radius d, some on its surface (Pythagorean), some at the centre
Quadruples == << <<1,2,2,3>>, <<2,3,6,7>>, <<1,4,8,9>>, <<2,6,9,11>>, <<3,4,0,5>>, <<0,0,1,1>>, <<6,6,7,11>>, <<0,0,0,4>> >>
BallRand(k, tt) ==
  LET z == Rand(SEED, k, tt, 61, 4)
      v3 == [i \in 1..3 |-> RandIn(SEED, k, tt, 66 + i, -200, 200)]
      q0 == Pick(Quadruples, k, tt, 62)
      s(i) == IF Rand(SEED, k, tt, 62 + i, 2) = 0 THEN 1 ELSE -1
      r == [i \in 1..3 |-> RandIn(SEED, k, tt, 66 + i, -10, 10)]
  IN IF z = 0 THEN <<s(1) * q0[1], s(2) * q0[2], s(3) * q0[3], q0[4]>>
     \* just inside the surface
     ELSE IF z = 3 THEN <<v3[1], v3[2], v3[3], 1 + RootDown(VNorm2(v3)) + Rand(SEED, k, tt, 70, 2)>>
     ELSE IF z = 1 THEN <<s(1) * q0[3], s(2) * q0[1], s(3) * q0[2], q0[4] + Rand(SEED, k, tt, 70, 3)>>
     ELSE <<r[1], r[2], r[3], 18 + Rand(SEED, k, tt, 70, 5)>>
OpsOf == CASE SUITE = "Q01" -> <<"mul", "mul", "mul", "add", "add", "minus", "minus", "scale", "neg", "conj", "len", "len2", "inv", "inv", "dual", "one", "init", "norm0", "inv0">>
           [] SUITE = "Q02" -> <<"rot", "rot", "rotm", "rotm", "mul", "mul", "conj", "init">>
           [] SUITE = "Q06" -> <<"mirror", "ortho", "inplane", "init">>
           [] SUITE = "Q07" -> <<"trans", "tmat", "tmat">>
           [] SUITE = "Q08" -> <<"init", "norm", "norm", "inorm", "raw", "autow", "autow">>
Fresh(k, tt, d) == IF SUITE = "Q07" THEN Call("trans", d, <<d, d>>, VRand(k, tt)) ELSE Call("init", d, <<d, d>>, QRand(k, tt))
RandCall(k, tt) ==
  LET op == Pick(OpsOf, k, tt, 1)
      d == 1 + Rand(SEED, k, tt, 3, 3)
      s1 == 1 + Rand(SEED, k, tt, 4, 3)
      s2 == 1 + Rand(SEED, k, tt, 5, 3)
      one(p) == Call(op, d, <<s1, s1>>, p)
  IN IF tt <= 3 THEN Fresh(k, tt, tt)
     ELSE CASE op \in {"init", "trans"} -> Fresh(k, tt, d)
            [] op = "one" -> one(<<>>)
            [] op \in {"norm0", "inv0"} -> Call("init", d, <<d, d>>, <<0, 0, 0, 0>>)
            [] op \in {"raw", "inorm"} -> Call(op, d, <<d, d>>, IF SUITE = "Q08" /\ op = "inorm" /\ Rand(SEED, k, tt, 9, 9) = 0 THEN <<0, 0, 0, 0>> ELSE QRand(k, tt))
            [] op = "autow" -> Call(op, d, <<d, d>>, BallRand(k, tt))
            [] op = "scale" -> one(<<RandIn(SEED, k, tt, 7, -5, 5), Pick(<<0, 0, 1, -1, 2, 3>>, k, tt, 8)>>)
            [] op \in {"rot", "mirror", "ortho", "inplane"} -> one(VRand(k, tt))
            [] op \in {"rotm", "tmat"} -> one(<<Rand(SEED, k, tt, 8, 2)>> \o VRand(k, tt))
            [] op \in {"mul", "add", "minus", "dual"} -> Call(op, d, <<s1, s2>>, <<>>)
            [] OTHER -> one(<<>>)

\* systematic: all quaternions over {-1,0,1} (in Q01 all ordered pairs of the units and their negatives)
Tern(k) == << Mod(k, 3) - 1, Mod(k \div 3, 3) - 1, Mod(k \div 9, 3) - 1, Mod(k \div 27, 3) - 1 >>
BasisQ(i) == [q \in 1..4 |-> IF q = 1 + Mod(i, 4) THEN (IF i >= 4 THEN -1 ELSE 1) ELSE 0]
Axis3(i) == [q \in 1..3 |-> IF q = i THEN 1 ELSE 0]
EnumLen == 10
\* ... and (Q01) a quaternion with each of its near relatives
KinCall(k, tt) ==
  LET q == [i \in 1..4 |-> LET x == RandIn(SEED, k, 1, 80 + i, -7, 6) IN IF x >= 0 THEN x + 1 ELSE x]
      v == KinOf(q, Mod(k, KinKinds), 1 + Mod(k \div KinKinds, 4), 1 + Mod(k \div (4 * KinKinds), 4)) IN
  CASE tt = 1 -> Call("init", 1, <<1, 1>>, q)
    [] tt = 2 -> Call("init", 2, <<2, 2>>, v)
    [] tt = 3 -> Call("mul", 3, <<1, 2>>, <<>>)
    [] tt = 4 -> Call("mul", 3, <<2, 1>>, <<>>)
    [] tt = 5 -> Call("add", 3, <<1, 2>>, <<>>)
    [] tt = 6 -> Call("minus", 3, <<1, 2>>, <<>>)
    [] tt = 7 -> Call("inv", 3, <<2, 2>>, <<>>)
    [] tt = 8 -> Call("dual", 3, <<1, 2>>, <<>>)
    [] tt = 9 -> Call("conj", 3, <<2, 2>>, <<>>)
    [] OTHER -> Call("len", 3, <<2, 2>>, <<>>)
EnumCall(k, tt) ==
  IF SUITE = "Q01" /\ k > 64 THEN KinCall(k - 65, tt) ELSE
  LET q0 == Tern(k - 1)
      q == IF Units THEN LET q1 == IF SUITE = "Q06" THEN [q0 EXCEPT ![4] = 0] ELSE q0 IN IF QZero(q1) THEN <<2, 1, 0, 0>> ELSE q1 ELSE q0
  IN CASE SUITE = "Q01" ->
            (CASE tt = 1 -> Call("init", 1, <<1, 1>>, BasisQ(Mod(k - 1, 8)))
               [] tt = 2 -> Call("init", 2, <<2, 2>>, BasisQ(Mod((k - 1) \div 8, 8)))
               [] tt = 3 -> Call("mul", 3, <<1, 2>>, <<>>)
               [] tt = 4 -> Call("init", 1, <<1, 1>>, <<k, 3, -5, 7>>)
               [] tt = 5 -> Call("add", 2, <<1, 2>>, <<>>)
               [] tt = 6 -> Call("minus", 2, <<1, 2>>, <<>>)
               [] tt = 7 -> Call("mul", 2, <<1, 3>>, <<>>)
               [] tt = 8 -> Call("inv", 1, <<2, 2>>, <<>>)
               [] tt = 9 -> Call("dual", 1, <<1, 2>>, <<>>)
               [] OTHER -> Call("len", 1, <<2, 2>>, <<>>))
       [] SUITE = "Q02" ->
            (CASE tt = 1 -> Call("init", 1, <<1, 1>>, q)
               [] tt \in 2..4 -> Call("rot", 1, <<1, 1>>, Axis3(tt - 1))
               [] tt = 5 -> Call("rotm", 1, <<1, 1>>, <<1, 2, -3, 5>>)
               [] tt = 6 -> Call("rotm", 1, <<1, 1>>, <<0, 2, -3, 5>>)
               [] tt = 7 -> Call("init", 2, <<2, 2>>, <<1, 2, 0, -1>>)
               [] tt = 8 -> Call("mul", 3, <<2, 1>>, <<>>)
               [] tt = 9 -> Call("rot", 1, <<3, 3>>, <<3, 1, -4>>)
               [] OTHER -> Call("rotm", 1, <<3, 3>>, <<0, 3, 1, -4>>))
       [] SUITE = "Q06" ->
            (CASE tt = 1 -> Call("init", 1, <<1, 1>>, q)
               [] OTHER -> Call(<<"mirror", "ortho", "inplane">>[1 + Mod(tt, 3)], 1, <<1, 1>>, Axis3(1 + Mod((tt - 2) \div 3, 3))))
       [] SUITE = "Q07" ->
            (CASE Mod(tt, 3) = 1 -> Call("trans", 1, <<1, 1>>, QVec(VScale(q0, tt)))
               [] OTHER -> Call("tmat", 1, <<1, 1>>, <<Mod(tt, 3) \div 2, 5, -7, 9>>))
       [] OTHER ->
            (CASE tt = 1 -> Call("init", 1, <<1, 1>>, q0)
               [] tt = 2 -> Call("norm", 1, <<1, 1>>, <<>>)
               [] tt = 3 -> Call("inorm", 1, <<1, 1>>, VScale(q0, 7))
               [] tt = 4 -> Call("raw", 1, <<1, 1>>, <<k, -2, q0[1], 9>>)
               [] OTHER -> Call("autow", 1, <<1, 1>>, <<q0[1], (tt - 5) * q0[2], q0[3], 6 + Mod(k, 3)>>))

(* ------------------------------ behaviours ------------------------------ *)
Blank == [v |-> <<0, 0, 0, 0>>, deg |-> 0, live |-> FALSE]
Init == h \in 1..NHIST /\ t = 0 /\ reg = [r \in Regs |-> Blank] /\ last = [op |-> "start"]
Line(c) == [h |-> h, t |-> t + 1, f |-> Frame, op |-> c.op, d |-> c.d, s |-> c.s, p |-> c.p, exp |-> Exp(c)]
Do(c) == /\ Callable(c) /\ t' = t + 1 /\ last' = c /\ UNCHANGED h
         /\ reg' = IF Stores(c) THEN [reg EXCEPT ![c.d] = TLCEval(Res(c))] ELSE reg
\* some quaternions, and some vectors to be turned, are near relatives of a register's
Related(c) ==
  LET r == 1 + Rand(SEED, h, t + 1, 110, 3)
      q == Kin(reg[r].v, SEED, h, t + 1, 112)
      q3 == Append(Kin(QVec(reg[r].v), SEED, h, t + 1, 112), 0)
      s == Kin(QVec(R1(c).v), SEED, h, t + 1, 112)
  IN IF MODE # "rand" \/ Rand(SEED, h, t + 1, 111, 3) # 0 THEN c
     ELSE IF c.op \in {"init", "raw", "inorm"} /\ reg[r].live /\ SUITE # "Q07"
          THEN LET x == IF SUITE = "Q06" THEN q3 ELSE q IN
               IF VMaxAbs(x) <= (IF Units THEN 3 ELSE 35) /\ ~QZero(x) THEN [c EXCEPT !.p = x] ELSE c
     ELSE IF c.op \in {"rot", "mirror", "ortho", "inplane"}
          THEN LET x == IF VMaxAbs(s) <= 3 THEN VScale(s, 1 + Rand(SEED, h, t + 1, 119, 5)) ELSE s IN
               IF VMaxAbs(x) <= 20 THEN [c EXCEPT !.p = x] ELSE c
     ELSE c
Chosen == LET c == IF MODE = "enum" THEN EnumCall(h, t + 1) ELSE RandCall(h, t + 1)
          IN IF Callable(c) THEN Related(c) ELSE Related(Fresh(h, t + 1, 1 + Rand(SEED, h, t + 1, 3, 3)))
StepScript == /\ t < (IF MODE = "enum" THEN EnumLen ELSE DEPTH)
              /\ \E c \in {TLCEval(Chosen)} : Do(c) /\ PrintT(ToJson(Line(c)))
McQ == { <<a, b, c, d>> : a \in -1..1, b \in -1..1, c \in -1..1, d \in -1..1 }
StepMC == /\ t < DEPTH
          /\ \E c \in (CASE t = 0 -> { Call("init", 1, <<1, 1>>, q) : q \in McQ }
                         [] t = 1 -> { Call("init", 2, <<2, 2>>, q) : q \in McQ }
                         [] t = 2 -> { Call("mul", 3, <<1, 2>>, <<>>) }
                         [] OTHER -> { Call(op, 3, <<s, 1 + (s + 1) \div 3>>, <<>>) : op \in {"mul", "add", "conj"}, s \in 1..3 }) : Do(c)
Next == IF MODE = "mc" THEN StepMC ELSE StepScript
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)
LiveQ == { reg[r].v : r \in { s \in Regs : reg[s].live } }
NormLaw == \A a \in { q \in LiveQ : VMaxAbs(q) <= 20000 } : QMul(a, QConj(a)) = <<0, 0, 0, QN(a)>> /\ QMul(QConj(a), a) = <<0, 0, 0, QN(a)>>
UnitLaw == \A a \in LiveQ : QMul(a, QOne) = a /\ QMul(QOne, a) = a
PairLaws == MODE = "mc" => \A a \in LiveQ, b \in LiveQ :
  /\ QN(QMul(a, b)) = QN(a) * QN(b)
  /\ QConj(QMul(a, b)) = QMul(QConj(b), QConj(a))
\* rotation: orthogonal, orientation preserving, a homomorphism, undone by the conjugate
RotLaws == (MODE = "mc" /\ t = 3) =>
  LET a == reg[1].v  b == reg[2].v IN
  /\ MMul(3, RotMat(a), MTrans(3, RotMat(a))) = VScale(MIden(3), QN(a) * QN(a))
  /\ MDet(3, RotMat(a)) = QN(a) * QN(a) * QN(a)
  /\ RotMat(QMul(a, b)) = MMul(3, RotMat(a), RotMat(b))
  /\ MMul(3, RotMat(QConj(a)), RotMat(a)) = VScale(MIden(3), QN(a) * QN(a))
  /\ LET m == QVec(a)  v == QVec(b) IN     \* reflection
     /\ VAdd(OrthoNum(m, v), InPlaneNum(m, v)) = VScale(v, VNorm2(m))
     /\ VSub(InPlaneNum(m, v), OrthoNum(m, v)) = MirrorNum(m, v)
     /\ VDot(m, InPlaneNum(m, v)) = 0
     /\ MirrorNum(m, MirrorNum(m, v)) = VScale(v, VNorm2(m) * VNorm2(m))
     /\ QVec(QMul(QMul(QPure(m), QPure(v)), QPure(m))) = MirrorNum(m, v)
ProductLaw == last.op = "mul" /\ MODE = "mc" /\ t = 3 => reg[3].v = QMul(reg[1].v, reg[2].v)
=============================================================================
