----------------------------- MODULE CmpMachine -----------------------------
(* Comparison within a tolerance.                                            *)
(* Part one: two containers a, b (vectors or matrices) with a tolerance; the *)
(* calls edit one component, set the tolerance, change a storage order, and  *)
(* after each the comparison must say "every component within tolerance".    *)
(* A component may be NaN (the value Nan), which is within no tolerance.     *)
(* Part two: the proximity test of a shape with its settable tolerance.      *)
EXTENDS Num, TLC, Json
CONSTANTS MODE, NHIST, DEPTH, SEED, BOUND

VARIABLES h, t, kind, a, b, rma, rmb, tol, vic, last
vars == <<h, t, kind, a, b, rma, rmb, tol, vic, last>>

Nan == 1000000
Inf == 2000000              \* only ever compared with finite components
Kinds == <<"v2", "r2", "v3", "r3", "v4", "r4", "m3", "m4">>
Size(k) == CASE k \in {"v2", "r2"} -> 2 [] k \in {"v3", "r3"} -> 3 [] k \in {"v4", "r4"} -> 4 [] k = "m3" -> 9 [] k = "m4" -> 16
IsMat(k) == k \in {"m3", "m4"}
Shapes == <<"point", "ray", "sphere", "plane", "box", "line", "prism">>
Default == -1                \* the tolerance a shape starts with: one millionth, ten units of 1e-7

\* what it means
Within(x, y, e) == x # Nan /\ y # Nan /\ Abs(x - y) <= e
Equal == /\ IsMat(kind) => rma = rmb
         /\ \A i \in DOMAIN a : Within(a[i], b[i], tol)
\* how the code asks it: two one-sided comparisons, each false on NaN
Le(x, y) == x # Nan /\ y # Nan /\ x <= y
Shift(x, e) == IF x = Nan THEN Nan ELSE x + e
CodedEqual(x, y, e) == Le(Shift(y, -e), x) /\ Le(x, Shift(y, e))
CodedSame == /\ IsMat(kind) => rma = rmb
             /\ \A i \in DOMAIN a : CodedEqual(a[i], b[i], tol)
VicOf == IF vic = Default THEN 10 ELSE vic
Near(x, y) == Abs(x - y) <= VicOf
CodedNear(x, y) == x + VicOf >= y /\ x - VicOf <= y

\* the transpose (in the other storage order: the same stored numbers)
Turned(v) == IF ~IsMat(kind) THEN v ELSE LET N == IF kind = "m3" THEN 3 ELSE 4 IN [q \in DOMAIN v |-> v[((q - 1) % N) * N + ((q - 1) \div N) + 1]]

\* far from zero and still a number of either precision
Large == 4194304
Pick(seq, k, tt, j) == seq[Rand(SEED, k, tt, j, Len(seq)) + 1]
Call(op, p) == [op |-> op, p |-> p]
Do(c) ==
  /\ t' = t + 1 /\ last' = c /\ UNCHANGED <<h, kind>>
  /\ CASE c.op = "a"   -> a' = [a EXCEPT ![c.p[1]] = c.p[2]] /\ UNCHANGED <<b, rma, rmb, tol, vic>>
       [] c.op = "b"   -> b' = [b EXCEPT ![c.p[1]] = c.p[2]] /\ UNCHANGED <<a, rma, rmb, tol, vic>>
       [] c.op = "same" -> b' = a /\ UNCHANGED <<a, rma, rmb, tol, vic>>
       [] c.op = "turn" -> b' = TLCEval(Turned(a)) /\ UNCHANGED <<a, rma, rmb, tol, vic>>
       [] c.op = "off" -> b' = TLCEval([i \in DOMAIN a |-> Shift(a[i], IF i = c.p[1] THEN c.p[2] ELSE c.p[3])]) /\ UNCHANGED <<a, rma, rmb, tol, vic>>
       [] c.op = "tol" -> tol' = c.p[1] /\ UNCHANGED <<a, b, rma, rmb, vic>>
       [] c.op = "rm"  -> rma' = (c.p[1] = 1) /\ rmb' = (c.p[2] = 1) /\ UNCHANGED <<a, b, tol, vic>>
       [] c.op = "vset" -> vic' = Abs(c.p[1]) /\ UNCHANGED <<a, b, rma, rmb, tol>>
       [] c.op \in {"vtest", "vnew"} -> UNCHANGED <<a, b, rma, rmb, tol, vic>>

Frame == IF MODE \in {"rand", "enum"} THEN Pick(<<0, -20, -3, 5, 18, -60, 90>>, h, 0, 91) ELSE 0
CompCase == Mod(h, 3) # 0      \* two thirds of the histories compare containers, one third proximity
LineC(c) == [h |-> h, t |-> t + 1, op |-> "eq", kind |-> kind, a |-> a', b |-> b', rma |-> rma', rmb |-> rmb',
             tol |-> tol', f |-> Frame, exp |-> [k |-> "bool", b |-> Equal']]
LineV(c) == [h |-> h, t |-> t + 1, op |-> c.op, shape |-> Shapes[1 + Mod(h \div 3, 7)], p |-> c.p, f |-> Frame,
             exp |-> IF c.op = "vtest" THEN [k |-> "bool", b |-> Near(c.p[1], c.p[2]), def |-> (vic' = Default)]
                     ELSE [k |-> "ok", def |-> (vic' = Default)]]

RandCall ==
  LET tt == t + 1  i == 1 + Rand(SEED, h, tt, 1, Len(a))  z == Rand(SEED, h, tt, 2, 11)  x2 == Rand(SEED, h, tt, 12, 2) IN
  IF CompCase THEN
    CASE tt = 1 -> Call("off", <<i, 0, 0>>)
      [] z \in {0, 1} -> Call("off", <<i, RandIn(SEED, h, tt, 3, -1, 1) + (IF Rand(SEED, h, tt, 4, 2) = 0 THEN tol ELSE -tol), RandIn(SEED, h, tt, 5, -1, 1)>>)
      [] z = 2 -> Call("off", <<i, IF Rand(SEED, h, tt, 4, 2) = 0 THEN tol ELSE -tol, Clamp(tol, 0, 9)>>)
      [] z = 3 -> Call("tol", <<IF Rand(SEED, h, tt, 4, 5) = 0 THEN 500 ELSE RandIn(SEED, h, tt, 3, -1, 12)>>)
      [] z = 4 -> Call("a", <<i, IF Rand(SEED, h, tt, 4, 3) = 0 THEN Nan ELSE RandIn(SEED, h, tt, 3, -40, 40) + (IF Rand(SEED, h, tt, 13, 3) = 0 THEN Large ELSE 0)>>)
      [] z = 5 -> Call("b", <<i, CASE Rand(SEED, h, tt, 4, 4) = 0 -> Nan [] Rand(SEED, h, tt, 4, 4) = 1 -> (IF x2 = 0 THEN Inf ELSE -Inf) [] OTHER -> a[i]>>)
      [] z = 6 -> Call("rm", <<Rand(SEED, h, tt, 3, 2), Rand(SEED, h, tt, 4, 2)>>)
      [] z = 7 -> Call("rm", <<1, 1>>)
      [] z = 8 -> Call("same", <<>>)
      [] z = 9 -> Call("turn", <<>>)
      [] OTHER -> Call("off", <<i, IF Rand(SEED, h, tt, 4, 2) = 0 THEN tol + 1 ELSE -tol - 1, 0>>)
  ELSE
    LET x == RandIn(SEED, h, tt, 3, -30, 30) + Pick(<<0, 0, 0, Large, -500000000, 1000000000>>, h, tt, 13)
        \* with the default tolerance never exactly at the boundary (it is not a binary fraction)
        dv == LET g == VicOf + RandIn(SEED, h, tt, 5, -1, 1) IN IF vic = Default /\ g = 10 THEN 9 ELSE g
        dd == IF Rand(SEED, h, tt, 6, 3) = 0 THEN LET r == RandIn(SEED, h, tt, 8, 0, 25) IN IF vic = Default /\ r = 10 THEN 0 ELSE r ELSE dv
    IN CASE tt = 1 -> Call("vnew", <<>>)
         [] tt <= 8 \/ z < 7 -> Call("vtest", <<x, IF Rand(SEED, h, tt, 7, 2) = 0 THEN x + dd ELSE x - dd>>)
         [] OTHER -> Call("vset", <<IF x2 = 0 THEN RandIn(SEED, h, tt, 9, -1, 1) ELSE RandIn(SEED, h, tt, 9, -20, 20)>>)

\* systematic: every component of every kind, every distance around the tolerance, NaN on either side
EnumCall ==
  LET tt == t + 1  w == (h - 1) \div 8   i == 1 + Mod(w, Len(a)) IN
  CASE tt = 1 -> Call("tol", <<3>>)
    [] tt \in 2..10 -> Call("off", <<i, tt - 6, 0>>)                 \* -4 .. 4
    [] tt = 11 -> Call("rm", <<0, 1>>)
    [] tt = 12 -> Call("same", <<>>)
    [] tt = 13 -> Call("rm", <<1, 0>>)
    [] tt = 14 -> Call("rm", <<0, 0>>)
    [] tt = 15 -> Call("b", <<i, Nan>>)
    [] tt = 16 -> Call("b", <<i, IF Mod(h, 2) = 1 THEN Inf ELSE -Inf>>)
    [] tt = 17 -> Call("a", <<i, Nan>>)
    [] tt = 18 -> Call("b", <<i, IF Mod(h, 2) = 0 THEN Inf ELSE -Inf>>)
    [] tt = 19 -> Call("a", <<i, 7>>)
    [] tt = 20 -> Call("tol", <<-1>>)
    [] tt = 21 -> Call("same", <<>>)
    [] tt = 22 -> Call("tol", <<0>>)
    [] tt = 23 -> Call("off", <<i, 1, 0>>)
    [] tt = 24 -> Call("off", <<i, -1, 0>>)
    [] tt = 25 -> Call("rm", <<1 - Mod(h, 2), Mod(h, 2)>>)
    [] tt = 26 -> Call("tol", <<500>>)
    [] tt = 27 -> Call("turn", <<>>)
    [] tt = 28 -> Call("tol", <<3>>)
    [] OTHER -> Call("tol", <<0>>)

StartA(sz) == [i \in 1..sz |-> (IF MODE = "mc" THEN 0 ELSE RandIn(SEED, h, 0, 10 + i, -40, 40))]
Init == /\ h \in 1..NHIST /\ t = 0
        /\ kind = (IF MODE = "mc" THEN "m2" ELSE Kinds[1 + Mod(h - 1, 8)])
        /\ a = (IF MODE = "mc" THEN <<0, 0>> ELSE StartA(Size(kind))) /\ b = a
        /\ rma = TRUE /\ rmb = TRUE /\ tol = 2 /\ vic = Default /\ last = Call("start", <<>>)
StepScript ==
  IF MODE = "enum"
    THEN t < 29 /\ \E c \in {TLCEval(EnumCall)} : Do(c) /\ PrintT(ToJson(LineC(c)))
    ELSE t < DEPTH /\ \E c \in {TLCEval(RandCall)} : Do(c) /\ PrintT(ToJson(IF CompCase THEN LineC(c) ELSE LineV(c)))
StepMC == \/ \E x \in -BOUND..BOUND \cup {Nan}, i \in 1..2 : Do(Call("a", <<i, x>>)) \/ Do(Call("b", <<i, x>>))
          \/ \E e \in -1..BOUND : Do(Call("tol", <<e>>))
          \/ \E e \in -BOUND..BOUND : Do(Call("vset", <<e>>))
Next == IF MODE = "mc" THEN StepMC ELSE StepScript
Spec == Init /\ [][Next]_vars
NoTime == <<kind, a, b, rma, rmb, tol, vic>>     \* VIEW of the exhaustive run

(* ------------------------------ properties ------------------------------ *)
CodedIsMeant == CodedSame <=> Equal
Symmetric == (\A i \in DOMAIN a : Within(a[i], b[i], tol)) <=> (\A i \in DOMAIN a : Within(b[i], a[i], tol))
NanNeverEqual == (\E i \in DOMAIN a : a[i] = Nan \/ b[i] = Nan) => ~Equal
NegativeNever == tol < 0 => ~Equal
Monotone == Equal => \A i \in DOMAIN a : Within(a[i], b[i], tol + 1)
VicSane == vic = Default \/ vic >= 0
VicCoded == \A x \in -3..3, y \in -3..3 : CodedNear(x, y) <=> Near(x, y)
=============================================================================
