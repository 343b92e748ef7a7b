----------------------------- MODULE VecMachine -----------------------------
(* Row and column vectors of length 2, 3 and 4 as a state machine: registers *)
(* hold [o, v, deg, live] with orientation o (0 column, 1 row), components v *)
(* and the power deg of the scale frame.  Same running modes as MatMachine.  *)
EXTENDS LinAlg, Json

CONSTANTS MODE, NHIST, DEPTH, SEED, NFIX

VARIABLES h, t, n, reg, last
vars == <<h, t, n, reg, last>>

Regs == 1..3
Big == 3000
MaxDeg == 4
Call(op, d, s, p) == [op |-> op, d |-> d, s |-> s, p |-> p]
Pick(seq, k, tt, j) == seq[Rand(SEED, k, tt, j, Len(seq)) + 1]
Frame == IF MODE = "rand" THEN Pick(<<0, 0, -11, -4, 6, 12, -90, 90>>, h, 0, 91) ELSE 0
Framed(cond) == MODE \in {"rand", "enum"} => cond

R1(c) == reg[c.s[1]]
R2(c) == reg[c.s[2]]
Small(v) == VMaxAbs(v) <= Big
IsZero(v) == \A i \in DOMAIN v : v[i] = 0

Callable(c) ==
  CASE c.op = "init" -> TRUE
    [] c.op = "set" -> reg[c.d].live
    [] c.op = "zero" -> TRUE
    [] c.op \in {"tr", "get", "mag", "size"} -> R1(c).live
    [] c.op = "norm" -> R1(c).live /\ ~IsZero(R1(c).v)
    [] c.op = "scale" -> R1(c).live /\ Small(VScale(R1(c).v, c.p[1])) /\ ScaleOk(c.p, R1(c).deg, MaxDeg)
    [] OTHER -> /\ R1(c).live /\ R2(c).live /\ R1(c).o = R2(c).o
                /\ CASE c.op \in {"plus", "minus"} -> Framed(R1(c).deg = R2(c).deg) /\ Small(VAdd(R1(c).v, R2(c).v)) /\ Small(VSub(R1(c).v, R2(c).v))
                     [] c.op = "mulel" -> Framed(Abs(R1(c).deg + R2(c).deg) <= MaxDeg) /\ Small(VMulE(R1(c).v, R2(c).v))
                     [] c.op = "div" -> \A i \in 1..n : R2(c).v[i] # 0
                     [] c.op = "dot" -> TRUE
                     [] c.op = "cross" -> n = 3 => Framed(Abs(R1(c).deg + R2(c).deg) <= MaxDeg) /\ Small(R1(c).v) /\ Small(R2(c).v) /\ Small(VCross(R1(c).v, R2(c).v))
                     [] OTHER -> FALSE

Stores(c) == c.op \in {"init", "zero", "set", "tr", "plus", "minus", "mulel", "scale"} \/ (c.op = "cross" /\ n = 3)

Res(c) ==
  LET new(o, v, deg) == [o |-> o, v |-> v, deg |-> deg, live |-> TRUE] IN
  CASE c.op = "init"  -> new(c.p[1], SubSeq(c.p, 2, n + 1), 1)
    [] c.op = "zero"  -> new(c.p[1], [q \in 1..n |-> 0], 1)
    [] c.op = "set"   -> [reg[c.d] EXCEPT !.v[c.p[1] + 1] = c.p[2]]
    [] c.op = "tr"    -> new(1 - R1(c).o, R1(c).v, R1(c).deg)
    [] c.op = "plus"  -> new(R1(c).o, VAdd(R1(c).v, R2(c).v), R1(c).deg)
    [] c.op = "minus" -> new(R1(c).o, VSub(R1(c).v, R2(c).v), R1(c).deg)
    [] c.op = "mulel" -> new(R1(c).o, VMulE(R1(c).v, R2(c).v), R1(c).deg + R2(c).deg)
    [] c.op = "cross" -> new(R1(c).o, VCross(R1(c).v, R2(c).v), R1(c).deg + R2(c).deg)
    [] c.op = "scale" -> new(R1(c).o, VScale(R1(c).v, c.p[1]), R1(c).deg + ScaleDeg(c.p))

Out(k, num, den, deg, o) == [k |-> k, num |-> num, den |-> den, deg |-> deg, o |-> o]
Ones(s) == [q \in DOMAIN s |-> 1]
Exp(c) ==
  CASE Stores(c) -> LET r == Res(c) IN Out("vec", r.v, Ones(r.v), r.deg, r.o)
    [] c.op = "get"  -> Out("num", <<R1(c).v[c.p[1] + 1]>>, <<1>>, R1(c).deg, 0)
    [] c.op = "size" -> Out("num", <<n>>, <<1>>, 0, 0)
    [] c.op = "cross" -> Out("none", <<>>, <<>>, 0, 0)
    [] c.op = "dot"  -> Out("num", <<VDot(R1(c).v, R2(c).v)>>, <<1>>, R1(c).deg + R2(c).deg, 0)
    [] c.op = "mag"  -> Out("sqrt", <<VNorm2(R1(c).v)>>, <<1>>, R1(c).deg, 0)
    [] c.op = "norm" -> Out("unit", R1(c).v, <<VNorm2(R1(c).v)>>, 0, R1(c).o)
    [] c.op = "div"  -> Out("vec", R1(c).v, R2(c).v, R1(c).deg - R2(c).deg, R1(c).o)

(* ------------------------------- scripts -------------------------------- *)
RandComps(k, tt) ==
  LET z == Rand(SEED, k, tt, 50, 6)  j == 1 + Rand(SEED, k, tt, 61, n) IN
  [i \in 1..n |-> CASE z = 0 -> IF Rand(SEED, k, tt, 60 + i, 2) = 0 THEN 0 ELSE RandIn(SEED, k, tt, 70 + i, -30, 30)
                    [] z = 1 -> IF i = 1 + Rand(SEED, k, tt, 61, n) THEN RandIn(SEED, k, tt, 71, 1, 40) ELSE 0
                    \* very uneven components
                    [] z = 2 -> IF i = j THEN 1000 * RandIn(SEED, k, tt, 71, 10, 20) ELSE RandIn(SEED, k, tt, 80 + i, -2, 2)
                    \* all of one size
                    [] z = 3 -> (IF Rand(SEED, k, tt, 62 + i, 2) = 0 THEN 1 ELSE -1) * RandIn(SEED, k, tt, 71, 1, 12)
                    [] OTHER -> LET v == RandIn(SEED, k, tt, 80 + i, -12, 11) IN IF v >= 0 THEN v + 1 ELSE v]
InitCall(k, tt, d) == Call("init", d, <<d, d>>, <<Rand(SEED, k, tt, 2, 2)>> \o RandComps(k, tt))
RandCall(k, tt) ==
  IF tt <= 3 THEN Call("init", tt, <<tt, tt>>, <<k % 2>> \o RandComps(k, tt))
  ELSE LET op == Pick(<<"plus", "minus", "mulel", "div", "div", "scale", "dot", "cross", "mag", "norm", "tr", "set", "get", "init", "cross", "dot", "size", "zero">>, k, tt, 1)
           d == 1 + Rand(SEED, k, tt, 3, 3)
           s1 == 1 + Rand(SEED, k, tt, 4, 3)
           s2 == 1 + Rand(SEED, k, tt, 5, 3)
       IN CASE op = "init" -> InitCall(k, tt, d)
            [] op = "zero" -> Call(op, d, <<d, d>>, <<Rand(SEED, k, tt, 6, 2)>>)
            [] op = "set" -> Call(op, d, <<d, d>>, <<Rand(SEED, k, tt, 6, n), RandIn(SEED, k, tt, 7, -50, 50)>>)
            [] op = "get" -> Call(op, d, <<s1, s1>>, <<Rand(SEED, k, tt, 6, n)>>)
            [] op = "scale" -> Call(op, d, <<s1, s1>>, <<RandIn(SEED, k, tt, 7, -6, 6), Pick(<<0, 0, 1, -1, 2, 3>>, k, tt, 8)>>)
            [] op \in {"tr", "mag", "norm", "size"} -> Call(op, d, <<s1, s1>>, <<>>)
            [] OTHER -> Call(op, d, <<s1, s2>>, <<>>)

\* systematic: unit vectors for the bilinear operations, labels elsewhere, both orientations
UnitV(i, w) == [q \in 1..n |-> IF q = i THEN w ELSE 0]
EnumOps == <<"init", "init", "dot", "cross", "init", "init", "plus", "minus", "mulel", "div", "mag", "norm", "tr", "set", "get", "scale", "cross">>
\* ... and a vector with each of its near relatives
KinCall(k, tt) ==
  LET o == Mod(k, 2)
      i == 1 + Mod(k \div 2, n)   i2 == 1 + Mod(k \div (2 * n), n)   z == Mod(k \div (2 * n * n), KinKinds)
      v == [q \in 1..n |-> LET x == RandIn(SEED, k, 1, 80 + q, -9, 8) IN IF x >= 0 THEN x + 1 ELSE x] IN
  CASE tt = 1 -> Call("init", 1, <<1, 1>>, <<o>> \o v)
    [] tt = 2 -> Call("init", 2, <<2, 2>>, <<o>> \o KinOf(v, z, i, i2))
    [] tt = 3 -> Call("cross", 3, <<1, 2>>, <<>>)
    [] tt = 4 -> Call("cross", 3, <<2, 1>>, <<>>)
    [] tt = 5 -> Call("dot", 3, <<1, 2>>, <<>>)
    [] tt = 6 -> Call("plus", 3, <<1, 2>>, <<>>)
    [] tt = 7 -> Call("minus", 3, <<1, 2>>, <<>>)
    [] tt = 8 -> Call("mulel", 3, <<1, 2>>, <<>>)
    [] tt = 9 -> Call(IF z = 10 THEN "minus" ELSE "div", 3, <<2, 1>>, <<>>)
    [] tt = 10 -> Call("norm", 2, <<2, 2>>, <<>>)
    [] OTHER -> Call("mag", 2, <<2, 2>>, <<>>)
EnumCall(k, tt) ==
  IF k > 2 * n * n THEN KinCall(k - 1 - 2 * n * n, tt) ELSE
  LET o == Mod(k - 1, 2)   i == 1 + Mod((k - 1) \div 2, n)   j == 1 + Mod((k - 1) \div (2 * n), n) IN
  CASE tt = 1 -> Call("init", 1, <<1, 1>>, <<o>> \o UnitV(i, 1))
    [] tt = 2 -> Call("init", 2, <<2, 2>>, <<o>> \o UnitV(j, 1))
    [] tt = 3 -> Call("dot", 3, <<1, 2>>, <<>>)
    [] tt = 4 -> Call("cross", 3, <<1, 2>>, <<>>)
    [] tt = 5 -> Call("init", 1, <<1, 1>>, <<o>> \o [q \in 1..n |-> IF q = i THEN -7 ELSE 2 * q + 1])
    [] tt = 6 -> Call("init", 2, <<2, 2>>, <<o>> \o [q \in 1..n |-> IF q = j THEN 40 ELSE 3 * q - 20])
    [] tt = 7 -> Call("plus", 3, <<1, 2>>, <<>>)
    [] tt = 8 -> Call("minus", 3, <<1, 2>>, <<>>)
    [] tt = 9 -> Call("mulel", 3, <<1, 2>>, <<>>)
    [] tt = 10 -> Call("div", 3, <<1, 2>>, <<>>)
    [] tt = 11 -> Call("mag", 1, <<1, 1>>, <<>>)
    [] tt = 12 -> Call("norm", 2, <<2, 2>>, <<>>)
    [] tt = 13 -> Call("tr", 3, <<1, 1>>, <<>>)
    [] tt = 14 -> Call("set", 1, <<1, 1>>, <<j - 1, 99>>)
    [] tt = 15 -> Call("get", 1, <<1, 1>>, <<i - 1>>)
    [] tt = 16 -> Call("scale", 3, <<2, 2>>, << -3 >>)
    [] tt = 17 -> Call("cross", 3, <<1, 2>>, <<>>)
    [] tt = 18 -> Call("zero", 3, <<3, 3>>, <<o>>)
    [] tt = 19 -> Call("plus", 2, <<3, 1>>, <<>>)
    [] OTHER -> Call("size", 2, <<2, 2>>, <<>>)
EnumLen == IF h > 2 * n * n THEN 11 ELSE 20

(* ------------------------------ behaviours ------------------------------ *)
Blank == [o |-> 0, v |-> <<>>, deg |-> 0, live |-> FALSE]
Init == /\ h \in 1..NHIST
        /\ t = 0
        /\ n \in (IF NFIX # 0 THEN {NFIX} ELSE {2 + (h % 3)})
        /\ reg = [r \in Regs |-> Blank]
        /\ last = [op |-> "start"]
Line(c) == [h |-> h, t |-> t + 1, n |-> n, f |-> Frame, op |-> c.op, d |-> c.d, s |-> c.s, p |-> c.p,
            o |-> IF c.op \in {"init", "zero"} THEN c.p[1] ELSE R1(c).o, exp |-> Exp(c)]
Do(c) == /\ Callable(c)
         /\ t' = t + 1
         /\ reg' = IF Stores(c) THEN [reg EXCEPT ![c.d] = TLCEval(Res(c))] ELSE reg
         /\ last' = c
         /\ UNCHANGED <<h, n>>
\* half of the vectors made while others are there are near relatives of one of those
Related(c) ==
  LET r == 1 + Rand(SEED, h, t + 1, 110, 3) IN
  IF MODE = "rand" /\ c.op = "init" /\ reg[r].live /\ Rand(SEED, h, t + 1, 111, 2) = 0
  THEN LET v == Kin(reg[r].v, SEED, h, t + 1, 112) IN
       IF Small(v) THEN [c EXCEPT !.p = <<IF Rand(SEED, h, t + 1, 116, 3) = 0 THEN c.p[1] ELSE reg[r].o>> \o v] ELSE c
  ELSE c
\* ... and the next call then likes to combine the two
Chosen == LET c == IF MODE = "enum" THEN EnumCall(h, t + 1) ELSE RandCall(h, t + 1)
              l1 == IF MODE = "rand" /\ t > 1 /\ last.op = "init" /\ Len(c.s) = 2 /\ c.s[1] # c.s[2] /\ c.op # "init"
                    THEN [c EXCEPT !.s = IF Rand(SEED, h, t + 1, 117, 2) = 0 THEN <<last.d, c.s[2]>> ELSE <<c.s[1], last.d>>] ELSE c
          IN IF Callable(l1) THEN Related(l1) ELSE Related(InitCall(h, t + 1, 1 + Rand(SEED, h, t + 1, 3, 3)))
StepScript == /\ t < (IF MODE = "enum" THEN EnumLen ELSE DEPTH)
              /\ \E c \in {TLCEval(Chosen)} : Do(c) /\ PrintT(ToJson(Line(c)))
\* exhaustive: all pairs of small 3-vectors, then every binary call on them
McVecs == { <<a, b, c>> : a \in -2..2, b \in -2..2, c \in -2..2 }
StepMC == /\ t < DEPTH
          /\ \E c \in (CASE t = 0 -> { Call("init", 1, <<1, 1>>, <<0>> \o v) : v \in McVecs }
                         [] t = 1 -> { Call("init", 2, <<2, 2>>, <<0>> \o v) : v \in McVecs }
                         [] OTHER -> { Call(op, 3, <<1, 2>>, <<>>) : op \in {"cross", "plus", "minus", "mulel"} }) : Do(c)
Next == IF MODE = "mc" THEN StepMC ELSE StepScript
Spec == Init /\ [][Next]_vars

(* ------------------------------- properties ----------------------------- *)
\* after cross: orthogonal to both, right-handed, and of the right length
CrossLaws == (last.op = "cross" /\ n = 3 /\ last.d = 3 /\ last.s = <<1, 2>> /\ MODE = "mc") =>
  LET a == reg[1].v  b == reg[2].v  c == reg[3].v IN
  /\ VDot(a, c) = 0 /\ VDot(b, c) = 0
  /\ VNorm2(c) = VNorm2(a) * VNorm2(b) - VDot(a, b) * VDot(a, b)
  /\ VCross(b, a) = VNeg(c)
  /\ MDet(3, a \o b \o c) = VNorm2(c)
\* addition and subtraction undo each other; orientation and length are kept
Laws == \A r \in Regs : reg[r].live => Len(reg[r].v) = n /\ reg[r].o \in {0, 1}
SumLaws == (last.op \in {"plus", "minus"} /\ MODE = "mc") =>
  VAdd(VSub(reg[1].v, reg[2].v), reg[2].v) = reg[1].v
=============================================================================
