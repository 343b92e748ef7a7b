----------------------------- MODULE MatMachine -----------------------------
(* The square-matrix part of the library as a state machine.                *)
(*                                                                          *)
(* A register holds a matrix twice: `st` is shaped like the implementation  *)
(* (a flat array plus the storage-order flag, transformed by the same index *)
(* arithmetic as the code) and `lg` is what the matrix means (its entries   *)
(* listed row by row).  `Refines` says the two never come apart.  Each call *)
(* of the API is one action; its parameters are a record c                  *)
(*   [op, d, s, p]  operation, destination register, source registers, ints *)
(* and Exp(c) is the observable outcome the implementation has to show.     *)
(*                                                                          *)
(* Three ways to run it: `mc` chooses calls nondeterministically from small *)
(* sets (exhaustive), `rand` and `enum` run script number h = 1..NHIST      *)
(* (hashed random calls / a systematic enumeration) and print every step    *)
(* with its expected outcome, for replay on the real code.                  *)
EXTENDS LinAlg, Json, MatScripts

CONSTANTS MODE, NHIST, DEPTH, SEED, SUITE, NFIX

VARIABLES h, t, n, st, lg, last
vars == <<h, t, n, st, lg, last>>

Regs == 1..2
Big == 2000          \* bound on entries kept in registers
MaxDeg == 4

(* ------------------------ implementation-shaped ------------------------- *)
SIdx(N, rm, i, j) == IF rm THEN i * N + j ELSE i + j * N
SAt(N, s, i, j) == s.val[SIdx(N, s.rm, i, j) + 1]
SInit(N, L, rm) ==
  [rm |-> rm,
   val |-> IF rm THEN L ELSE [q \in 1..(N * N) |-> L[((q - 1) % N) * N + ((q - 1) \div N) + 1]]]
SSet(N, s, i, j, v) == [s EXCEPT !.val[SIdx(N, s.rm, i, j) + 1] = v]
\* the copying loop: element p of the source goes to slot (p mod N) * N + p div N
STrans(N, s) ==
  [rm |-> s.rm,
   val |-> [q \in 1..(N * N) |->
              s.val[(CHOOSE p \in 0..(N * N - 1) : (p % N) * N + (p \div N) = q - 1) + 1]]]
SRelay(N, s, rm) == IF s.rm = rm THEN s ELSE [rm |-> rm, val |-> STrans(N, s).val]
SEntry(N, f(_, _), a, b) ==
  LET bb == SRelay(N, b, a.rm) IN [rm |-> a.rm, val |-> [q \in 1..(N * N) |-> f(a.val[q], bb.val[q])]]
SMul(N, a, b) ==
  [rm |-> a.rm,
   val |-> [q \in 1..(N * N) |->
      IF a.rm THEN LET y == (q - 1) \div N  x == (q - 1) % N
                       g(l) == a.val[y * N + l + 1] * b.val[x + l * N + 1] IN SumF(g, 0, N - 1)
              ELSE LET x == (q - 1) \div N  y == (q - 1) % N
                       g(l) == a.val[y + l * N + 1] * b.val[x * N + l + 1] IN SumF(g, 0, N - 1)]]
SScale(s, k) == [rm |-> s.rm, val |-> VScale(s.val, k)]
STrace(N, s) == LET g(i) == s.val[i * (N + 1) + 1] IN SumF(g, 0, N - 1)
SBlock(N, s) ==        \* reads by index, written out listed row by row, same flag
  LET f(i, j) == SAt(N, s, i, j) IN SInit(N - 1, MBuild(N - 1, f), s.rm)
SMulVec(N, s, v) == [i \in 1..N |->
  LET g(l) == (IF s.rm THEN s.val[(i - 1) * N + l + 1] ELSE s.val[(i - 1) + l * N + 1]) * v[l + 1]
  IN SumF(g, 0, N - 1)]
SVecMul(N, v, s) == [j \in 1..N |->
  LET g(l) == v[l + 1] * (IF s.rm THEN s.val[(j - 1) + l * N + 1] ELSE s.val[(j - 1) * N + l + 1])
  IN SumF(g, 0, N - 1)]
SInverse(N, s, dt) ==  \* only for dt = 1 or -1: cofactors written through the index formula
  LET adj == MAdj(N, [p \in 1..(N * N) |-> SAt(N, s, MRow(N, p), MCol(N, p))])
  IN SInit(N, VScale(adj, dt), s.rm)
Meaning(N, s) == LET f(i, j) == SAt(N, s, i, j) IN MBuild(N, f)

(* ----------------------------- what calls do ---------------------------- *)
\* lg[r] = [rm, m, deg, live]; deg is the power of the scale frame carried by the entries
L1(c) == lg[c.s[1]]
L2(c) == lg[c.s[2]]
Sz(N) == N * N
ValidReg(c, i) == lg[c.s[i]].live

Small(m) == VMaxAbs(m) <= Big
Det1(c) == MDet(n, L1(c).m)
Frame == IF MODE = "rand" THEN Pick(SuiteFrames(SUITE), SEED, h, 0, 91) ELSE 0
\* a scaled non-zero determinant stays at 2^-13 or more (the library may call smaller ones singular)
NotNegligible(c) == LET e == n * Frame * L1(c).deg + 13 IN
                    IF e >= 0 \/ Det1(c) = 0 THEN TRUE ELSE IF e <= -25 THEN FALSE ELSE Abs(Det1(c)) >= Pow(2, -e)

\* cofactors and determinant stay in range: all entries small, or all outside one row or one column
Tame(m) == \/ VMaxAbs(m) <= 40
           \/ Small(m) /\ \E j \in 0..(n - 1) : (\A q \in 1..Sz(n) : MCol(n, q) # j => Abs(m[q]) <= 8) \/ (\A q \in 1..Sz(n) : MRow(n, q) # j => Abs(m[q]) <= 8)

\* conditions about scale frames matter only where frames are used
Framed(cond) == MODE \in {"rand", "enum", "form"} => cond

(* A call can be made when its registers hold matrices and the exact result  *)
(* stays inside the integer range of the model.                             *)
Callable(c) ==
  CASE c.op \in {"init", "iden", "zero"} -> TRUE
    [] c.op = "set" -> lg[c.d].live
    [] c.op \in {"tr", "trs", "trace", "get", "scale"} -> ValidReg(c, 1) /\
         (c.op = "scale" => Small(VScale(L1(c).m, c.p[1])) /\ ScaleOk(c.p, L1(c).deg, MaxDeg))
    [] c.op = "block" -> ValidReg(c, 1) /\ n = 4
    [] c.op \in {"dot", "cross"} -> ValidReg(c, 1) /\ ValidReg(c, 2)
    [] c.op \in {"mulv", "vmul"} -> ValidReg(c, 1)
    [] c.op \in {"mul"} -> ValidReg(c, 1) /\ ValidReg(c, 2) /\ L1(c).rm = L2(c).rm
         /\ Framed(Abs(L1(c).deg + L2(c).deg) <= MaxDeg) /\ Small(MMul(n, L1(c).m, L2(c).m))
    [] c.op = "mulx" -> ValidReg(c, 1) /\ ValidReg(c, 2) /\ L1(c).rm # L2(c).rm
    [] c.op \in {"plus", "minus"} -> ValidReg(c, 1) /\ ValidReg(c, 2) /\ Framed(L1(c).deg = L2(c).deg)
         /\ Small(VAdd(L1(c).m, L2(c).m)) /\ Small(VSub(L1(c).m, L2(c).m))
    [] c.op = "mulel" -> ValidReg(c, 1) /\ ValidReg(c, 2) /\ Framed(Abs(L1(c).deg + L2(c).deg) <= MaxDeg)
         /\ Small(VMulE(L1(c).m, L2(c).m))
    [] c.op = "div" -> ValidReg(c, 1) /\ ValidReg(c, 2) /\ \A q \in 1..Sz(n) : L2(c).m[q] # 0
    [] c.op = "norm" -> ValidReg(c, 1) /\ L1(c).m[Sz(n)] # 0
    [] c.op = "inv" -> ValidReg(c, 1) /\ Tame(L1(c).m) /\ NotNegligible(c)
    [] c.op = "invs" -> ValidReg(c, 1) /\ Tame(L1(c).m) /\ NotNegligible(c) /\ Abs(Det1(c)) = 1
         /\ Small(MAdj(n, L1(c).m))
    [] OTHER -> FALSE

Stores(c) == c.op \in {"init", "iden", "zero", "set", "tr", "trs", "mul", "plus", "minus", "mulel", "scale", "invs"}

PM(c) == SubSeq(c.p, 2, Sz(n) + 1)     \* the listed entries of an init call
Bool(x) == x # 0

\* new meaning of the destination register
LRes(c) ==
  LET new(rm, m, deg) == [rm |-> rm, m |-> m, deg |-> deg, live |-> TRUE] IN
  CASE c.op = "init"  -> new(Bool(c.p[1]), PM(c), 1)
    [] c.op = "iden"  -> new(TRUE, MIden(n), 0)
    [] c.op = "zero"  -> new(TRUE, MZero(n), 1)
    [] c.op = "set"   -> [lg[c.d] EXCEPT !.m = MSet(n, lg[c.d].m, c.p[1], c.p[2], c.p[3])]
    [] c.op \in {"tr", "trs"} -> [L1(c) EXCEPT !.m = MTrans(n, L1(c).m)]
    [] c.op = "mul"   -> new(L1(c).rm, MMul(n, L1(c).m, L2(c).m), L1(c).deg + L2(c).deg)
    [] c.op = "plus"  -> new(L1(c).rm, VAdd(L1(c).m, L2(c).m), L1(c).deg)
    [] c.op = "minus" -> new(L1(c).rm, VSub(L1(c).m, L2(c).m), L1(c).deg)
    [] c.op = "mulel" -> new(L1(c).rm, VMulE(L1(c).m, L2(c).m), L1(c).deg + L2(c).deg)
    [] c.op = "scale" -> new(L1(c).rm, VScale(L1(c).m, c.p[1]), L1(c).deg + ScaleDeg(c.p))
    [] c.op = "invs"  -> new(L1(c).rm, VScale(MAdj(n, L1(c).m), Det1(c)), -L1(c).deg)

\* the same, computed the way the code stores it
SRes(c) ==
  LET a == st[c.s[1]]  b == st[c.s[2]]
      plus(x, y) == x + y   minus(x, y) == x - y   times(x, y) == x * y IN
  CASE c.op = "init"  -> SInit(n, PM(c), Bool(c.p[1]))
    [] c.op = "iden"  -> [rm |-> TRUE, val |-> MIden(n)]
    [] c.op = "zero"  -> [rm |-> TRUE, val |-> MZero(n)]
    [] c.op = "set"   -> SSet(n, st[c.d], c.p[1], c.p[2], c.p[3])
    [] c.op \in {"tr", "trs"} -> STrans(n, a)
    [] c.op = "mul"   -> SMul(n, a, b)
    [] c.op = "plus"  -> SEntry(n, plus, a, b)
    [] c.op = "minus" -> SEntry(n, minus, a, b)
    [] c.op = "mulel" -> SEntry(n, times, a, b)
    [] c.op = "scale" -> SScale(a, c.p[1])
    [] c.op = "invs"  -> SInverse(n, a, Det1(c))

\* observable outcome: kind, storage order, numerators, denominators, power of the scale frame
Out(k, rm, num, den, deg) == [k |-> k, rm |-> rm, num |-> num, den |-> den, deg |-> deg]
Ones(s) == [q \in DOMAIN s |-> 1]
Exp(c) ==
  CASE Stores(c) -> LET r == LRes(c) IN Out("mat", r.rm, r.m, Ones(r.m), r.deg)
    [] c.op = "get"   -> Out("num", TRUE, <<At(n, L1(c).m, c.p[1], c.p[2])>>, <<1>>, L1(c).deg)
    [] c.op = "trace" -> Out("num", TRUE, <<MTrace(n, L1(c).m)>>, <<1>>, L1(c).deg)
    [] c.op = "block" -> LET b == MBlock(n, L1(c).m) IN Out("mat", L1(c).rm, b, Ones(b), L1(c).deg)
    [] c.op = "mulv"  -> LET v == MVec(n, L1(c).m, c.p) IN Out("vec", TRUE, v, Ones(v), L1(c).deg)
    [] c.op = "vmul"  -> LET v == VMat(n, c.p, L1(c).m) IN Out("vec", TRUE, v, Ones(v), L1(c).deg)
    [] c.op \in {"dot", "cross"} -> Out("none", TRUE, <<>>, <<>>, 0)
    [] c.op = "mulx"  -> Out("panic", TRUE, <<>>, <<>>, 0)
    [] c.op = "div"   -> Out("mat", L1(c).rm, L1(c).m, L2(c).m, L1(c).deg - L2(c).deg)
    [] c.op = "norm"  -> Out("mat", L1(c).rm, L1(c).m, [q \in 1..Sz(n) |-> L1(c).m[Sz(n)]], 0)
    [] c.op = "inv"   -> IF Det1(c) = 0 THEN Out("none", TRUE, <<>>, <<>>, 0)
                         ELSE Out("mat", L1(c).rm, MAdj(n, L1(c).m), [q \in 1..Sz(n) |-> Det1(c)], -L1(c).deg)

(* ------------------------------- behaviours ----------------------------- *)
Blank == [rm |-> TRUE, m |-> <<>>, deg |-> 0, live |-> FALSE]
Init == /\ h \in 1..NHIST
        /\ t = 0
        /\ n \in (IF NFIX # 0 THEN {NFIX} ELSE {3 + (h % 2)})
        /\ st = [r \in Regs |-> [rm |-> TRUE, val |-> <<>>]]
        /\ lg = [r \in Regs |-> Blank]
        /\ last = [op |-> "start"]

Line(c) == [h |-> h, t |-> t + 1, n |-> n, f |-> Frame,
            op |-> c.op, d |-> c.d, s |-> c.s, p |-> c.p, exp |-> Exp(c)]

Do(c) ==
  /\ Callable(c)
  /\ t' = t + 1
  /\ IF Stores(c)
       THEN /\ st' = [st EXCEPT ![c.d] = TLCEval(SRes(c))]
            /\ lg' = [lg EXCEPT ![c.d] = TLCEval(LRes(c))]
       ELSE UNCHANGED <<st, lg>>
  /\ last' = c
  /\ UNCHANGED <<h, n>>

\* some of the matrices made are near relatives of the one in the other register
Related(c) ==
  LET r == 3 - c.d IN
  IF MODE = "rand" /\ c.op = "init" /\ r \in Regs /\ Rand(SEED, h, t + 1, 111, 4) = 0
  THEN IF ~lg[r].live THEN c
       ELSE LET z == Rand(SEED, h, t + 1, 118, 4)
                m0 == IF z = 0 THEN MTrans(n, lg[r].m) ELSE lg[r].m
                m == IF z = 1 THEN m0
                     \* large entries: all but one the same, and that one almost
                     ELSE IF SUITE = "A05" /\ z = 2 /\ VMaxAbs(m0) > 99 THEN [m0 EXCEPT ![1 + Rand(SEED, h, t + 1, 113, Sz(n))] = @ + Pick(<<1, -1, 3>>, SEED, h, t + 1, 114)]
                     ELSE Kin(m0, SEED, h, t + 1, 112)
            IN IF VMaxAbs(m) <= (IF SUITE = "A04" THEN 9 ELSE IF SUITE = "A05" THEN 999 ELSE 99) /\ (SUITE = "A05" => \A i \in DOMAIN m : m[i] # 0) THEN [c EXCEPT !.p = <<c.p[1]>> \o m] ELSE c
  ELSE IF MODE = "rand" /\ c.op \in {"mulv", "vmul"} /\ lg[c.s[1]].live /\ Rand(SEED, h, t + 1, 111, 3) = 0
  THEN LET i == Rand(SEED, h, t + 1, 119, n)
           row == [q \in 1..n |-> IF Rand(SEED, h, t + 1, 120, 2) = 0 THEN At(n, L1(c).m, i, q - 1) ELSE At(n, L1(c).m, q - 1, i)]
           v == Kin(row, SEED, h, t + 1, 112)
       IN IF VMaxAbs(v) <= 30 THEN [c EXCEPT !.p = v] ELSE c
  ELSE c
\* scripted: the call proposed by the script, or re-initialising a register when it cannot be made
Chosen ==
  LET c == IF MODE = "form" THEN FormCall(SUITE, n, h, t + 1, SEED) ELSE IF MODE = "enum" THEN EnumCall(SUITE, n, h, t + 1, SEED) ELSE RandCall(SUITE, SEED, n, h, t + 1)
  IN IF Callable(c) THEN Related(c) ELSE Related(FallbackCall(SUITE, SEED, n, h, t + 1))

StepScript == /\ t < (IF MODE = "form" THEN FormLen(SUITE) ELSE IF MODE = "enum" THEN EnumLen(SUITE, n, h) ELSE DEPTH)
              /\ \E c \in {TLCEval(Chosen)} : Do(c) /\ PrintT(ToJson(Line(c)))

StepMC == /\ t < DEPTH
          /\ \E c \in McCalls(n, t) : Do(c)

Next == IF MODE = "mc" THEN StepMC ELSE StepScript
Spec == Init /\ [][Next]_vars

(* ------------------------------- properties ----------------------------- *)
Refines == \A r \in Regs : lg[r].live => st[r].rm = lg[r].rm /\ Meaning(n, st[r]) = lg[r].m
\* A02: the storage-order-dependent readings agree with the logical ones
ReadsAgree == \A r \in Regs : lg[r].live =>
   /\ STrace(n, st[r]) = MTrace(n, lg[r].m)
   /\ n = 4 => Meaning(3, SBlock(4, st[r])) = MBlock(4, lg[r].m) /\ SBlock(4, st[r]).rm = lg[r].rm
   /\ Meaning(n, STrans(n, STrans(n, st[r]))) = lg[r].m
\* A03: products with vectors in either layout, and products associate with them
ProductsAgree == \A r \in Regs : lg[r].live /\ MODE = "mc" =>
   LET v == [i \in 1..n |-> i] IN
   /\ SMulVec(n, st[r], v) = MVec(n, lg[r].m, v)
   /\ SVecMul(n, v, st[r]) = VMat(n, v, lg[r].m)
\* A04: the adjugate is the inverse times the determinant, on both sides
AdjugateInverts == \A r \in Regs : lg[r].live /\ VMaxAbs(lg[r].m) <= 9 =>
   LET m == lg[r].m  a == MAdj(n, m)  dt == MDet(n, m) IN
   MMul(n, m, a) = VScale(MIden(n), dt) /\ MMul(n, a, m) = VScale(MIden(n), dt)
\* the storage order changes only where a call says so
LayoutKept == [][\A r \in Regs : lg[r].live /\ lg'[r].live /\ lg'[r] # lg[r]
                    => lg'[r].rm = (CASE last'.op \in {"iden", "zero"} -> TRUE
                                      [] last'.op = "init" -> Bool(last'.p[1])
                                      [] last'.op = "set" -> lg[r].rm
                                      [] OTHER -> lg[last'.s[1]].rm)]_vars
=============================================================================
