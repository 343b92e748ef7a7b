----------------------------- MODULE BoxMachine -----------------------------
(* Axis-aligned boxes: registers of boxes with integer or infinite sides;     *)
(* boxes are built, united (replacing whatever the target held), compared for *)
(* overlap, and asked for their middle and longest axis.                      *)
EXTENDS LinAlg, Json
CONSTANTS MODE, NHIST, DEPTH, SEED

VARIABLES h, t, reg, last
vars == <<h, t, reg, last>>

Inf == 1000000000
Regs == 1..4
All == [lo |-> <<-Inf, -Inf, -Inf>>, hi |-> <<Inf, Inf, Inf>>]
Bx(lo, hi) == [lo |-> TLCEval(lo), hi |-> TLCEval(hi)]
Call(op, d, s, p) == [op |-> op, d |-> d, s |-> s, p |-> p]

Finite(b) == \A i \in 1..3 : Abs(b.lo[i]) # Inf /\ Abs(b.hi[i]) # Inf
Extent(b, i) == IF b.hi[i] = Inf \/ b.lo[i] = -Inf THEN Inf ELSE b.hi[i] - b.lo[i]
\* the infinities compare like very large integers
Meet(a, b) == \A i \in 1..3 : a.lo[i] <= b.hi[i] /\ a.hi[i] >= b.lo[i]
RECURSIVE Hull(_, _)
Hull(bs, k) ==
  IF k = 1 THEN bs[1]
  ELSE LET r == Hull(bs, k - 1) IN
       Bx([i \in 1..3 |-> MinI(r.lo[i], bs[k].lo[i])], [i \in 1..3 |-> MaxI(r.hi[i], bs[k].hi[i])])
Longest(b) == MaxI(Extent(b, 1), MaxI(Extent(b, 2), Extent(b, 3)))
Has(b, x) == \A i \in 1..3 : b.lo[i] <= x[i] /\ x[i] <= b.hi[i]

(* calls:  box p = lo, hi | all | unite s = list | grow s = list (the target's own
   former content is the first of the list) | read s1 | meet s1 s2 | middle s1 | longest s1 *)
Callable(c) ==
  CASE c.op \in {"box", "all"} -> TRUE
    [] c.op = "unite" -> c.s # <<>> /\ \A i \in DOMAIN c.s : c.s[i] # c.d
    [] c.op = "grow" -> TRUE
    [] c.op = "middle" -> Finite(reg[c.s[1]])
    [] OTHER -> TRUE
Stores(c) == c.op \in {"box", "all", "unite", "grow"}
Res(c) ==
  CASE c.op = "box" -> Bx(SubSeq(c.p, 1, 3), SubSeq(c.p, 4, 6))
    [] c.op = "all" -> All
    [] c.op = "unite" -> Hull([i \in DOMAIN c.s |-> reg[c.s[i]]], Len(c.s))
    [] c.op = "grow" -> Hull([i \in 1..(Len(c.s) + 1) |-> IF i = 1 THEN reg[c.d] ELSE reg[c.s[i - 1]]], Len(c.s) + 1)
Exp(c) ==
  CASE Stores(c) -> [k |-> "box", lo |-> Res(c).lo, hi |-> Res(c).hi]
    [] c.op = "read" -> [k |-> "box", lo |-> reg[c.s[1]].lo, hi |-> reg[c.s[1]].hi]
    [] c.op = "meet" -> [k |-> "bool", b |-> Meet(reg[c.s[1]], reg[c.s[2]])]
    [] c.op = "middle" -> LET b == reg[c.s[1]] IN [k |-> "middle", num |-> [i \in 1..3 |-> b.lo[i] + b.hi[i]]]
    [] c.op = "longest" -> LET b == reg[c.s[1]]  m == Longest(b) IN
         [k |-> "longest", num |-> <<m>>, ax |-> [i \in 1..3 |-> Extent(b, i) = m]]
Do(c) == /\ Callable(c) /\ t' = t + 1 /\ last' = c /\ UNCHANGED h
         /\ reg' = IF Stores(c) THEN [reg EXCEPT ![c.d] = TLCEval(Res(c))] ELSE reg

(* ------------------------------- scripts -------------------------------- *)
Ri(tt, j, lo, hi) == RandIn(SEED, h, tt, j, lo, hi)
Pick(seq, tt, j) == seq[Rand(SEED, h, tt, j, Len(seq)) + 1]
\* a side: mostly whole numbers, sometimes infinite, sometimes of no extent
RandBox(tt) ==
  LET m == Pick(<<3, 3, 10, 200, 5000>>, tt, 10)
      lo == [i \in 1..3 |-> IF Rand(SEED, h, tt, 20 + i, 9) = 0 THEN -Inf ELSE Ri(tt, 11 + i, -m, m)]
      z(i) == Rand(SEED, h, tt, 30 + i, 9)
      hi == [i \in 1..3 |-> IF z(i) = 0 THEN Inf ELSE IF z(i) = 1 /\ lo[i] # -Inf THEN lo[i]
                            ELSE (IF lo[i] = -Inf THEN Ri(tt, 14 + i, -m, m) ELSE lo[i] + Ri(tt, 17 + i, 0, m))] IN
  \* now and then with lengths that differ in the eighth digit only
  IF Rand(SEED, h, tt, 38, 8) = 0
    THEN LET w == Pick(<<33554432, 67108864, 100000000>>, tt, 39) IN [q \in 1..6 |-> IF q <= 3 THEN Ri(tt, 11 + q, -3, 3) ELSE w + Ri(tt, 8 + q, -3, 3)]
    ELSE lo \o hi
\* a box that touches, overlaps or just misses another one side by side
Beside(tt, b) ==
  LET f(i) == LET z == Rand(SEED, h, tt, 40 + i, 7)  g == Ri(tt, 44 + i, 0, 3) IN
        CASE z = 0 /\ b.hi[i] # Inf -> <<b.hi[i], b.hi[i] + g>>
          [] z = 1 /\ b.hi[i] # Inf -> <<b.hi[i] + (IF i = Mod(tt, 3) + 1 THEN 1 ELSE 0), b.hi[i] + 1 + g>>
          [] z = 2 /\ b.lo[i] # -Inf -> <<b.lo[i] - g, b.lo[i]>>
          [] z = 3 /\ b.lo[i] # -Inf -> <<b.lo[i] - g - 1, b.lo[i] - (IF i = Mod(tt, 3) + 1 THEN 1 ELSE 0)>>
          [] z = 4 -> <<-Inf, Inf>>
          [] OTHER -> <<b.lo[i], b.hi[i]>> IN
  [j \in 1..6 |-> IF j <= 3 THEN f(j)[1] ELSE f(j - 3)[2]]
\* the same box with its axes exchanged, mirrored in a coordinate plane, or with one side moved
Moved(tt, b) ==
  LET z == Rand(SEED, h, tt, 60, 4)  i == Ri(tt, 61, 1, 3)  j == Ri(tt, 62, 1, 3)
      sw(k) == IF k = i THEN j ELSE IF k = j THEN i ELSE k
      f(k) == CASE z = 0 -> <<b.lo[sw(k)], b.hi[sw(k)]>>
                [] z = 1 -> IF k = i THEN <<-b.hi[k], -b.lo[k]>> ELSE <<b.lo[k], b.hi[k]>>
                [] z = 2 -> <<b.lo[k], IF k = i /\ b.hi[k] # Inf THEN b.hi[k] + 1 ELSE b.hi[k]>>
                [] OTHER -> <<IF k = i /\ b.lo[k] # -Inf THEN b.lo[k] - 1 ELSE b.lo[k], b.hi[k]>> IN
  [q \in 1..6 |-> IF q <= 3 THEN f(q)[1] ELSE f(q - 3)[2]]
\* a point box (or nearly) inside another one, in or near one of its corners
Speck(tt, b) ==
  LET f(k) == LET z == Rand(SEED, h, tt, 63 + k, 3)  g == Pick(<<0, 1, 1, 2, 7>>, tt, 66 + k)  w == Pick(<<0, 0, 0, 1>>, tt, 73) IN
        IF z # 0 /\ b.hi[k] # Inf THEN <<b.hi[k] - g - w, b.hi[k] - g>>
        ELSE IF b.lo[k] # -Inf THEN <<b.lo[k] + g, b.lo[k] + g + w>>
        ELSE <<g, g + w>> IN
  [q \in 1..6 |-> IF q <= 3 THEN f(q)[1] ELSE f(q - 3)[2]]
ListOf(tt, d) ==
  LET n == Ri(tt, 50, 1, 6) IN [i \in 1..n |-> LET r == Ri(tt, 50 + i, 1, 3) IN IF r >= d THEN r + 1 ELSE r]
RandCall(tt) ==
  LET d == Ri(tt, 2, 1, 4)  s1 == Ri(tt, 3, 1, 4)  s2 == Ri(tt, 4, 1, 4)
      op == Pick(<<"box", "beside", "beside", "all", "unite", "unite", "grow", "meet", "meet", "meet", "meet", "middle", "longest", "longest", "read">>, tt, 1) IN
  IF tt <= 4 THEN Call("box", tt, <<>>, RandBox(tt))
  ELSE CASE op = "box" -> Call("box", d, <<>>, RandBox(tt))
         [] op = "beside" -> Call("box", d, <<>>, LET zz == Rand(SEED, h, tt, 6, 4) IN IF zz = 0 THEN Moved(tt, reg[s1]) ELSE IF zz = 1 THEN Speck(tt, reg[s1]) ELSE Beside(tt, reg[s1]))
         [] op = "all" -> IF Rand(SEED, h, tt, 5, 3) = 0 THEN Call("all", d, <<>>, <<>>) ELSE Call("box", d, <<>>, RandBox(tt))
         [] op = "unite" -> Call("unite", d, ListOf(tt, d), <<>>)
         [] op = "grow" -> Call("grow", d, ListOf(tt, d), <<>>)
         [] OTHER -> Call(op, d, <<s1, s2>>, <<>>)
\* systematic: every relative position of two intervals on every axis, with infinite sides
Ends == << <<-2, -1>>, <<-2, 0>>, <<-1, 1>>, <<0, 0>>, <<0, 2>>, <<1, 2>>, <<2, 3>>, <<-Inf, -1>>, <<-Inf, 0>>, <<1, Inf>>, <<2, Inf>>, <<-Inf, Inf>>, <<-3, 3>>, <<3, 3>> >>
EnumLen == 9
EnumCall(tt) ==
  LET k == h - 1  e(i) == Ends[1 + Mod(i, 14)]
      b1(i) == IF i = 1 + Mod(k, 3) THEN <<0, 1>> ELSE <<-1, i>>
      b2(i) == IF i = 1 + Mod(k, 3) THEN e(k \div 3) ELSE e((k \div 42) * i + 2)
      mk(f(_)) == [j \in 1..6 |-> IF j <= 3 THEN f(j)[1] ELSE f(j - 3)[2]] IN
  CASE tt = 1 -> Call("box", 1, <<>>, mk(b1))
    [] tt = 2 -> Call("box", 2, <<>>, mk(b2))
    [] tt = 3 -> Call("meet", 1, <<1, 2>>, <<>>)
    [] tt = 4 -> Call("meet", 1, <<2, 1>>, <<>>)
    [] tt = 5 -> Call("unite", 3, <<1, 2>>, <<>>)
    [] tt = 6 -> Call("unite", 4, <<2, 1, 2>>, <<>>)
    [] tt = 7 -> Call("longest", 1, <<2, 2>>, <<>>)
    [] tt = 8 -> Call("longest", 1, <<1, 1>>, <<>>)
    [] OTHER -> IF Finite(reg[3]) THEN Call("middle", 1, <<3, 3>>, <<>>) ELSE Call("grow", 4, <<3>>, <<>>)

(* ------------------------------ behaviours ------------------------------ *)
Init == /\ h \in 1..NHIST /\ t = 0 /\ reg = [r \in Regs |-> All] /\ last = [op |-> "start"]
Frame == <<0, 0, -30, 30, 5, -3>>[1 + Rand(SEED, h, 0, 91, 6)]
LineOf(c) == [h |-> h, t |-> t + 1, op |-> c.op, d |-> c.d, s |-> c.s, p |-> c.p, f |-> Frame, exp |-> Exp(c)]
Chosen == LET c == IF MODE = "enum" THEN EnumCall(t + 1) ELSE RandCall(t + 1) IN
          IF Callable(c) THEN c ELSE Call("read", 1, <<c.s[1], 1>>, <<>>)
StepScript == /\ t < (IF MODE = "enum" THEN EnumLen ELSE DEPTH)
              /\ \E c \in {TLCEval(Chosen)} : Do(c) /\ PrintT(ToJson(LineOf(c)))
\* exhaustive: two boxes with sides among -Inf, -1, 0, 1, Inf (third axis flat), one united with the other
Sides == { e \in {-Inf, -1, 0, 1, Inf} \X {-Inf, -1, 0, 1, Inf} : e[1] <= e[2] /\ e[1] # Inf /\ e[2] # -Inf }
StepMC == \/ /\ t \in {0, 1}
             /\ \E x \in Sides, y \in (IF t = 0 THEN Sides ELSE {<<-1, 0>>, <<0, 0>>, <<0, 1>>, <<1, 1>>, <<-Inf, Inf>>, <<-Inf, -1>>, <<1, Inf>>}) :
                  Do(Call("box", t + 1, <<>>, <<x[1], y[1], 0, x[2], y[2], 0>>))
          \/ /\ t = 2 /\ Do(Call("unite", 3, <<1, 2>>, <<>>))
Next == IF MODE = "mc" THEN StepMC ELSE StepScript
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)
Cells == { <<x, y, 0>> : x \in -3..3, y \in -3..3 }
\* boxes are told to meet exactly when they share a point
MeetShares == (MODE = "mc" /\ t = 2) => (Meet(reg[1], reg[2]) <=> \E x \in Cells : Has(reg[1], x) /\ Has(reg[2], x))
MeetSymmetric == Meet(reg[1], reg[2]) = Meet(reg[2], reg[1])
Below(a, b) == \A i \in 1..3 : b.lo[i] <= a.lo[i] /\ a.hi[i] <= b.hi[i]
\* the union holds both, and every box that holds both holds it: each side is one of theirs
UnionLeast == (MODE = "mc" /\ t = 3) =>
  /\ Below(reg[1], reg[3]) /\ Below(reg[2], reg[3])
  /\ \A i \in 1..3 : reg[3].lo[i] \in {reg[1].lo[i], reg[2].lo[i]} /\ reg[3].hi[i] \in {reg[1].hi[i], reg[2].hi[i]}
  /\ reg[3] = Hull(<<reg[2], reg[1]>>, 2) /\ reg[3] = Hull(<<reg[1], reg[2], reg[1]>>, 3)
UnionMonotone == (MODE = "mc" /\ t = 3) => (Meet(reg[1], reg[2]) => Meet(reg[3], reg[2]))
LongestSane == \A r \in Regs : \A i \in 1..3 : Extent(reg[r], i) <= Longest(reg[r])
Ordered == \A r \in Regs, i \in 1..3 : reg[r].lo[i] <= reg[r].hi[i]
=============================================================================
