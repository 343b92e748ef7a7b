----------------------------- MODULE TurnMachine ----------------------------
(* Quaternions in polar form.  All quaternions of one history lie on          *)
(*      p * r * (cos a + n sin a)                                             *)
(* for a fixed axis n and base p (p = 1 except in Q05), so a register is the  *)
(* angle a in minutes of arc (full circle 21600) and lr, the logarithm of r   *)
(* to base 2 in units of 1/6000000.  Products add angles, powers multiply them.        *)
(*   Q03  axis-angle form: a rotation by A has a = A/2                        *)
(*   Q04  logarithm and powers                                                *)
(*   Q05  interpolation                                                       *)
EXTENDS LinAlg, Json

CONSTANTS MODE, NHIST, DEPTH, SEED, SUITE

VARIABLES h, t, ax, base, reg, last
vars == <<h, t, ax, base, reg, last>>

Full == 21600
Half == 10800
Quarter == 5400
Doubling == 6000000                                      \* lr of a quaternion of length 2
Regs == 1..3

Call(op, d, s, p) == [op |-> op, d |-> d, s |-> s, p |-> p]
Pick(seq, k, tt, j) == seq[Rand(SEED, k, tt, j, Len(seq)) + 1]
R1(c) == reg[c.s[1]]
R2(c) == reg[c.s[2]]

(* -------------------------------- angles -------------------------------- *)
Norm(a) == a % Full                                     \* 0 .. Full-1
\* difference folded into -Half+1 .. Half
Diff(a, b) == LET d == Norm(b - a) IN IF d > Half THEN d - Full ELSE d
\* the short way from a to b, b and b + Half being the same rotation: -Quarter .. Quarter
Short(a, b) == LET d == Diff(a, b) IN IF d > Quarter THEN d - Half ELSE IF d < -Quarter THEN d + Half ELSE d
Orthogonal(a, b) == Abs(Diff(a, b)) = Quarter
\* the turn that conversion to axis and angle has to give: sign of the axis and
\* the rotation angle 0 .. Full (half turns on either axis, identity: any axis)
TurnOf(a) == LET b == Norm(a) IN IF b <= Half THEN [sg |-> 1, A |-> 2 * b] ELSE [sg |-> -1, A |-> 2 * (Full - b)]
\* polar form with the angle in 0 .. Half: sign of the axis and angle
Polar(a) == LET b == Norm(a) IN IF b <= Half THEN [sg |-> 1, a |-> b] ELSE [sg |-> -1, a |-> Full - b]
Real(a) == Norm(a) \in {0, Half}                        \* no vector part
\* reduced fraction of x by k/m
Frac(x, k, m) ==
  LET g1 == Gcd(Abs(x), m)  a == IF g1 = 0 THEN 1 ELSE g1  y == (x \div a) * k  n == m \div a
      g2 == Gcd(Abs(y), n)  b == IF g2 = 0 THEN 1 ELSE g2 IN <<y \div b, n \div b>>
Divides(m, x) == x % m = 0

(* --------------------------------- calls --------------------------------
   make     p = <<A, rad>>       from axis and angle A (minutes), degrees or radians
   polar    p = <<a, lr>>        the quaternion itself, built by the harness
   nudge    p = <<i>>            the i-th small change of length
   back                          to axis and angle
   ln
   pow      p = <<k, m>>         exponent k/m      (pows: the result is kept)
   powadd   p = <<k1, k2, m>>    product of the powers k1/m and k2/m
   slerp    p = <<k, m>>         between s1 and s2 at parameter k/m   (slerps: kept)
   lerp     p = start, end (8), k, m                                        *)
Stores(c) == c.op \in {"make", "polar", "nudge", "pows", "slerps"}
\* results that stay on the grid and away from the singular angles may be kept
Keeps(c) ==
  CASE c.op = "pows" -> LET P == Polar(R1(c).a) IN
         /\ Divides(c.p[2], P.a * c.p[1]) /\ Divides(c.p[2], R1(c).lr * c.p[1])
         /\ Abs((R1(c).lr * c.p[1]) \div c.p[2]) <= 10 * Doubling
         /\ ~Real((P.a * c.p[1]) \div c.p[2])
         /\ LET q == Polar((P.a * c.p[1]) \div c.p[2]).a IN q >= 300 /\ q <= Half - 300
    [] c.op = "slerps" -> /\ Divides(c.p[2], Short(R1(c).a, R2(c).a) * Clamp(c.p[1], 0, c.p[2]))
                         /\ ~Orthogonal(R1(c).a, R2(c).a)
                         \* the straight-line branch is only nearly of unit length
                         /\ Abs(Short(R1(c).a, R2(c).a)) >= 60
Callable(c) ==
  CASE c.op \in {"make", "lerp"} -> TRUE
    [] c.op = "polar" -> SUITE = "Q04" => ~Real(c.p[1])
    [] c.op \in {"back", "nudge"} -> R1(c).live
    [] c.op \in {"ln", "pow", "powadd"} -> R1(c).live /\ ~Real(R1(c).a)
    [] c.op = "slerp" -> R1(c).live /\ R2(c).live
    [] c.op = "pows" -> R1(c).live /\ ~Real(R1(c).a) /\ Keeps(c)
    [] c.op = "slerps" -> R1(c).live /\ R2(c).live /\ Keeps(c)
    [] OTHER -> FALSE

New(a, lr) == [a |-> Norm(a), lr |-> lr, live |-> TRUE]
Res(c) ==
  CASE c.op = "make" -> New(c.p[1] \div 2, 0)
    [] c.op = "polar" -> New(c.p[1], c.p[2])
    [] c.op = "nudge" -> R1(c)
    \* a power turns about the axis the angle of which is below half a circle
    [] c.op = "pows" -> LET P == Polar(R1(c).a) IN New(P.sg * ((P.a * c.p[1]) \div c.p[2]), (R1(c).lr * c.p[1]) \div c.p[2])
    [] c.op = "slerps" -> New(R1(c).a + (Short(R1(c).a, R2(c).a) * Clamp(c.p[1], 0, c.p[2])) \div c.p[2], 0)

Out(k, a, ad, lr, ld, b) == [k |-> k, n |-> ax, base |-> base, a |-> a, ad |-> ad, lr |-> lr, ld |-> ld, b |-> b]
Exp(c) ==
  CASE c.op \in {"make", "polar", "nudge"} -> Out("quat", <<Res(c).a>>, 1, Res(c).lr, 1, TRUE)
    [] c.op = "back" -> Out("turn", <<TurnOf(R1(c).a).sg * TurnOf(R1(c).a).A>>, 1, 0, 1, TRUE)
    [] c.op = "ln" -> LET P == Polar(R1(c).a) IN Out("ln", <<P.sg * P.a>>, 1, R1(c).lr, 1, TRUE)
    [] c.op \in {"pow", "pows"} -> LET P == Polar(R1(c).a)  f == Frac(P.a, c.p[1], c.p[2])  g == Frac(R1(c).lr, c.p[1], c.p[2]) IN
                       Out("quat", <<P.sg * f[1]>>, f[2], g[1], g[2], TRUE)
    [] c.op = "powadd" -> LET P == Polar(R1(c).a)  f == Frac(P.a, c.p[1] + c.p[2], c.p[3])  g == Frac(R1(c).lr, c.p[1] + c.p[2], c.p[3]) IN
                       Out("quat", <<P.sg * f[1]>>, f[2], g[1], g[2], TRUE)
    [] c.op \in {"slerp", "slerps"} ->
         LET k == Clamp(c.p[1], 0, c.p[2])  m == c.p[2]
             s == Short(R1(c).a, R2(c).a)
             at(x) == R1(c).a * m + x * k
         IN IF Orthogonal(R1(c).a, R2(c).a) THEN Out("arc", <<at(Quarter), at(-Quarter)>>, m, 0, 1, FALSE)
            ELSE Out("arc", <<at(s)>>, m, 0, 1, Abs(s) >= 60)
    [] c.op = "lerp" ->
         LET k == Clamp(c.p[9], 0, c.p[10])  m == c.p[10] IN
         [k |-> "vec", num |-> [i \in 1..4 |-> c.p[i] * (m - k) + c.p[i + 4] * k], den |-> <<m, m, m, m>>, deg |-> 0]

(* ------------------------------- scripts -------------------------------- *)
Axes == << <<1,0,0>>, <<0,1,0>>, <<0,0,1>>, <<0,0,-1>>, <<1,1,1>>, <<1,-2,3>>, <<-4,0,3>>, <<2,5,-1>>, <<-1,-1,0>>, <<7,-3,-6>>, <<30,1,-2>> >>
Bases == << <<0,0,0,1>>, <<1,0,0,0>>, <<1,2,-1,3>>, <<-2,1,4,0>>, <<1,1,1,1>>, <<0,-3,0,-1>>, <<5,-2,2,-4>> >>
AngleFull == <<0, 0, 60, 120, 1800, 3600, 5400, 7200, 10800, 10800, 14400, 16200, 21600, 21600, 25200, 32400, 36000, 43200, 54000, 86400, -60, -3600, -5400, -10800, -21600, -30000, -1800, -7200, -16200, -32400, -43200, -64800, 64800, 2, 6, 21598, 10802, 43198>>
AngleRand(k, tt) == IF Rand(SEED, k, tt, 40, 2) = 0 THEN Pick(AngleFull, k, tt, 41) ELSE IF Rand(SEED, k, tt, 54, 4) = 0 THEN 2 * RandIn(SEED, k, tt, 42, -216000, 216000) ELSE 2 * RandIn(SEED, k, tt, 42, -33000, 33000)
PolarRand(k, tt) ==
  LET z == Rand(SEED, k, tt, 43, 4) IN
  IF SUITE = "Q04" THEN (IF z = 0 THEN Pick(<<1, 10, 60, 5399, 5400, 5401, 10740, 10790, 10799, 10801, 16200, 21599>>, k, tt, 44)
                         ELSE IF z = 1 THEN 60 * RandIn(SEED, k, tt, 45, 1, 179) ELSE 60 * RandIn(SEED, k, tt, 46, 181, 359))
  ELSE (IF z = 0 THEN Pick(<<0, 1, 30, 47, 48, 49, 50, 60, 120, 5399, 5400, 5401, 10799, 10800, 10801, 16199, 16201, 21599>>, k, tt, 44)
        ELSE 60 * RandIn(SEED, k, tt, 45, 0, 359))
Expo(k, tt) == Pick(<< <<1,1>>, <<-1,1>>, <<2,1>>, <<1,2>>, <<0,1>>, <<-2,1>>, <<3,1>>, <<1,3>>, <<-1,2>>, <<5,2>>, <<7,1>>, <<-12,1>>, <<3,4>>, <<1,60>>, <<-5,3>>, <<11,6>>,
                          <<301,300>>, <<599,300>>, <<-301,300>>, <<1,300>>, <<299,300>>, <<2,601>>,
                          <<13,1>>, <<16,1>>, <<20,1>>, <<-17,1>>, <<33,2>> >>, k, tt, 47)
Para(k, tt) == Pick(<< <<0,1>>, <<1,1>>, <<1,2>>, <<1,3>>, <<1,4>>, <<3,4>>, <<1,10>>, <<9,10>>, <<-1,2>>, <<3,2>>, <<-7,1>>, <<5,1>>, <<2,3>>, <<1,60>>, <<1,300>>, <<299,300>>, <<301,300>>, <<-1,300>>, <<151,300>>, <<1,1000>>, <<999,1000>>, <<1,5000>>, <<4999,5000>>, <<39999,40000>>, <<1,40000>> >>, k, tt, 48)
NudgeCount == 8
\* whole doublings, lengths close to one, and lengths near a power of two
LogNear == <<1, -1, 60, -12, 240, -600, 2400, 6000, -12000, 36000, -60000, 120000, 240000, -360000, 600000>>
LogRand(k, tt) ==
  LET z == Rand(SEED, k, tt, 49, 4) IN
  IF z = 0 THEN 0 ELSE IF z = 1 THEN Pick(LogNear, k, tt, 50)
  ELSE IF z = 2 THEN Doubling * RandIn(SEED, k, tt, 53, -3, 3) + Pick(LogNear, k, tt, 50)
  ELSE Doubling * RandIn(SEED, k, tt, 50, -4, 4)
Fresh(k, tt, d) == IF SUITE = "Q03" /\ Rand(SEED, k, tt, 51, 3) # 0 THEN Call("make", d, <<d, d>>, <<AngleRand(k, tt), Rand(SEED, k, tt, 52, 2)>>)
                   ELSE Call("polar", d, <<d, d>>, <<PolarRand(k, tt), IF SUITE = "Q04" THEN LogRand(k, tt) ELSE 0>>)
OpsOf == CASE SUITE = "Q03" -> <<"fresh", "back", "back", "nudge">>
           [] SUITE = "Q04" -> <<"fresh", "ln", "pow", "pows", "pows", "powadd">>
           [] SUITE = "Q05" -> <<"fresh", "slerp", "slerp", "slerps", "slerps", "lerp">>
RandCall(k, tt) ==
  LET op == Pick(OpsOf, k, tt, 1)
      d == 1 + Rand(SEED, k, tt, 3, 3)
      s1 == 1 + Rand(SEED, k, tt, 4, 3)
      s2 == 1 + Rand(SEED, k, tt, 5, 3)
  IN IF tt <= 3 THEN Fresh(k, tt, tt)
     ELSE CASE op = "fresh" -> Fresh(k, tt, d)
            [] op = "nudge" -> Call(op, s1, <<s1, s1>>, <<Rand(SEED, k, tt, 6, NudgeCount)>>)
            [] op \in {"back", "ln"} -> Call(op, d, <<s1, s1>>, <<>>)
            [] op \in {"pow", "pows"} -> LET e == Expo(k, tt)  lr == reg[s1].lr IN
                 \* (the products have to stay in range)
                 Call(op, d, <<s1, s1>>, IF Abs(e[1]) > 12 /\ e[2] < 299 /\ Abs(lr) > 4 * Doubling THEN <<1, 2>> ELSE IF e[2] >= 299 /\ Abs(lr) > 3000000 /\ lr % 300 # 0 THEN <<1, 2>> ELSE IF e[2] >= 299 /\ Abs(lr) > 3000000 /\ op = "pows" THEN <<2, 1>> ELSE e)
            [] op = "powadd" -> Call(op, d, <<s1, s1>>, <<RandIn(SEED, k, tt, 7, -6, 6), RandIn(SEED, k, tt, 8, -6, 6), 1 + Rand(SEED, k, tt, 9, 4)>>)
            [] op \in {"slerp", "slerps"} -> Call(op, d, <<s1, s2>>, Para(k, tt))
            [] op = "lerp" -> Call(op, d, <<s1, s2>>, [i \in 1..8 |-> RandIn(SEED, k, tt, 20 + i, -20, 20)] \o Para(k, tt))

\* systematic: every angle of the list / every whole degree about every axis
EnumLen == IF SUITE = "Q03" THEN 8 ELSE 6
EnumCall(k, tt) ==
  CASE SUITE = "Q03" ->
         (CASE tt = 1 -> Call("make", 1, <<1, 1>>, <<120 * (k - 1), 0>>)            \* 2 degrees apart
            [] tt = 2 -> Call("back", 1, <<1, 1>>, <<>>)
            [] tt = 3 -> Call("make", 2, <<2, 2>>, <<120 * (1 - k) - 60, 1>>)
            [] tt = 4 -> Call("back", 2, <<2, 2>>, <<>>)
            [] tt = 5 -> Call("make", 2, <<2, 2>>, <<120 * (1 - k) - (IF Mod(k, 4) = 2 THEN 60 ELSE 0), 0>>)
            [] tt = 6 -> Call("back", 2, <<2, 2>>, <<>>)
            [] tt = 7 -> Call("nudge", 1, <<1, 1>>, <<Mod(k, NudgeCount)>>)
            [] OTHER -> Call("back", 1, <<1, 1>>, <<>>))
    [] SUITE = "Q04" ->
         (CASE tt = 1 -> Call("polar", 1, <<1, 1>>, <<60 * k + (IF Real(60 * k) THEN 30 ELSE 0), IF Mod(k, 2) = 0 THEN Doubling * (Mod(k \div 2, 5) - 2) ELSE Pick(LogNear, k, 1, 50)>>)
            [] tt = 2 -> Call("ln", 1, <<1, 1>>, <<>>)
            [] tt = 3 -> Call("pows", 2, <<1, 1>>, <<1, 2>>)
            [] tt = 4 -> Call("pow", 3, <<1, 1>>, <<-1, 1>>)
            [] tt = 5 -> Call("pow", 3, <<1, 1>>, <<Mod(k, 9) - 4, 1>>)
            [] OTHER -> Call("ln", 3, <<2, 2>>, <<>>))
    [] OTHER ->
         (CASE tt = 1 -> Call("polar", 1, <<1, 1>>, <<0, 0>>)
            [] tt = 2 -> Call("polar", 2, <<2, 2>>, <<60 * k, 0>>)
            [] tt = 3 -> Call("slerps", 3, <<1, 2>>, <<1, 2>>)
            [] tt = 4 -> Call("slerp", 3, <<2, 1>>, <<1, 4>>)
            [] tt = 5 -> Call("slerp", 3, <<1, 2>>, <<Mod(k, 13) - 1, 11>>)
            [] OTHER -> Call("slerp", 3, <<3, 2>>, <<2, 3>>))

(* ------------------------------ behaviours ------------------------------ *)
Blank == [a |-> 0, lr |-> 0, live |-> FALSE]
Init == /\ h \in 1..NHIST /\ t = 0
        /\ ax = (IF MODE = "mc" THEN <<1, 0, 0>> ELSE Axes[1 + Mod(h, Len(Axes))])
        /\ base = (IF SUITE = "Q05" /\ MODE # "mc" THEN Bases[1 + Mod(h, Len(Bases))] ELSE <<0, 0, 0, 1>>)
        /\ reg = [r \in Regs |-> Blank] /\ last = [op |-> "start"]
Line(c) == [h |-> h, t |-> t + 1, op |-> c.op, d |-> c.d, s |-> c.s, p |-> c.p, exp |-> Exp(c)]
Do(c) == /\ Callable(c) /\ t' = t + 1 /\ last' = c /\ UNCHANGED <<h, ax, base>>
         /\ reg' = IF Stores(c) THEN [reg EXCEPT ![c.d] = TLCEval(Res(c))] ELSE reg
Chosen == LET c == IF MODE = "enum" THEN EnumCall(h, t + 1) ELSE RandCall(h, t + 1)
              c1 == IF c.op = "pows" THEN [c EXCEPT !.op = "pow"] ELSE IF c.op = "slerps" THEN [c EXCEPT !.op = "slerp"] ELSE c
          IN IF Callable(c) THEN c ELSE IF Callable(c1) THEN c1 ELSE LET f == Fresh(h, t + 1, 1 + Rand(SEED, h, t + 1, 3, 3)) IN IF Callable(f) THEN f ELSE Call("polar", 1, <<1, 1>>, <<3600, 0>>)
StepScript == /\ t < (IF MODE = "enum" THEN EnumLen ELSE DEPTH)
              /\ \E c \in {TLCEval(Chosen)} : Do(c) /\ PrintT(ToJson(Line(c)))
\* exhaustive: two quaternions at multiples of 10 degrees, then one call
McAngles == { 600 * i : i \in 0..35 }
StepMC == /\ t < DEPTH
          /\ \E c \in (CASE t = 0 -> { Call("polar", 1, <<1, 1>>, <<a, 0>>) : a \in McAngles }
                         [] t = 1 -> { Call("polar", 2, <<2, 2>>, <<a, Doubling>>) : a \in McAngles }
                         [] OTHER -> IF SUITE = "Q04" THEN { Call("pow", 3, <<2, 2>>, <<k, m>>) : k \in -7..7, m \in 1..4 }
                                     ELSE { Call("slerp", 3, <<1, 2>>, <<k, 4>>) : k \in -1..5 }) : Do(c)
Next == IF MODE = "mc" THEN StepMC ELSE StepScript
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)
\* conversion to axis and angle: an angle between nothing and a full turn, the same rotation
TurnLaws == \A r \in Regs : reg[r].live =>
  LET T == TurnOf(reg[r].a) IN
  /\ T.A >= 0 /\ T.A <= Full
  /\ Norm(T.sg * T.A - 2 * reg[r].a) = 0
  /\ Norm(T.sg * (T.A \div 2)) = reg[r].a
PolarLaws == \A r \in Regs : reg[r].live =>
  LET P == Polar(reg[r].a) IN P.a \in 0..Half /\ Norm(P.sg * P.a) = reg[r].a
\* powers: exponents add, power one is the quaternion, power minus one its inverse
PowLaws == (MODE = "mc" /\ SUITE = "Q04" /\ t = 2) =>
  LET P == Polar(reg[2].a)  pw(k) == Norm(P.sg * P.a * k) IN
  /\ pw(1) = reg[2].a
  /\ pw(-1) = Norm(-reg[2].a)
  /\ \A j \in -4..4, k \in -4..4 : Norm(pw(j) + pw(k)) = pw(j + k)
\* interpolation: ends, the short way, the same arc from either end
SlerpLaws == (MODE = "mc" /\ SUITE = "Q05" /\ t = 2) =>
  LET a == reg[1].a  b == reg[2].a  s == Short(a, b)
      Same(x, y) == Norm(x - y) \in {0, Half} IN
  /\ Abs(s) <= Quarter
  /\ Same(a + s, b)
  /\ (~Orthogonal(a, b)) => Short(b, a) = -s
  /\ \A d \in { Diff(a, b), Diff(a, b + Half) } : Abs(s) <= Abs(d)
=============================================================================
