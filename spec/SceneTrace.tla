------------------------------ MODULE SceneTrace ----------------------------
(* Recorded scenes.  Locations are recorded in hundredths of the unit, and    *)
(* have to be one of the expected places, or lie in both shapes, that closely. *)
EXTENDS SceneMachine, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<h, t, micro, odd, reg, last, l>>
Ev == Trace[l]
CallOf(e) == IF e.op = "make" THEN [op |-> e.op, d |-> e.d, s |-> e.s, p |-> e.p, kind |-> e.kind, g |-> 0]
             ELSE [op |-> e.op, d |-> e.d, s |-> e.s, p |-> e.p]

L1(v) == Abs(v[1]) + Abs(v[2]) + Abs(v[3])
\* x in hundredths lies in the shape, a unit of the last place in each component allowed
Close(s, other, x) ==
  LET c == VSub(x, VScale(O(s), 100)) IN
  CASE s.k = "point" -> \A i \in 1..3 : Abs(c[i]) <= 1
    [] s.k = "ray" -> LET v == VCross(c, D(s)) IN (\A i \in 1..3 : Abs(v[i]) <= 2 * L1(D(s))) /\ VDot(c, D(s)) >= -2 * L1(D(s))
    [] s.k = "sphere" -> /\ VNorm2(c) <= (100 * R(s) + 3) * (100 * R(s) + 3)
                         /\ other.k = "ray" => (R(s) = 0 \/ VNorm2(c) >= (100 * R(s) - 3) * (100 * R(s) - 3))
    [] s.k = "plane" -> Abs(VDot(c, D(s))) <= 2 * L1(D(s))
    [] s.k = "box" -> \A i \in 1..3 : Abs(c[i]) <= 100 * R(s) + 1
    [] s.k = "line" -> LET d == VSub(D(s), O(s))  v == VCross(c, d) IN
                       IF Zero3(d) THEN \A i \in 1..3 : Abs(c[i]) <= 1
                       ELSE (\A i \in 1..3 : Abs(v[i]) <= 2 * L1(d)) /\ VDot(c, d) >= -2 * L1(d) /\ VDot(c, d) <= 100 * VNorm2(d) + 2 * L1(d)
    [] s.k = "prism" -> LET F == TLCEval(Facets(s)) IN
                        \A i \in 1..5 : LET f == F[i] IN f.m * VDot(f.n, VSub(x, VScale(f.b, 100))) <= 100 * f.q + 2 * f.m * L1(f.n)
AtLoc(lc, x) == LET w == LocPoint(lc) IN \A i \in 1..3 : Abs(x[i] * lc.den - 100 * w[i]) <= Abs(lc.den)
Placed(a, b, q, x) ==
  /\ q.verdict = "hit" => Close(a, b, x) /\ Close(b, a, x)
  /\ (q.verdict = "hit" /\ q.locs # <<>>) => \E i \in DOMAIN q.locs : Rational(q.locs[i]) => AtLoc(q.locs[i], x)
SqSign(n, d) == Sgn(n) * n * n
Shows(c, res) ==
  LET a == reg[c.s[1]]  b == reg[c.s[2]]  e == Exp(c) IN
  CASE c.op \in {"make", "vic"} -> res.k = "ok"
    [] c.op = "query" -> CASE e.verdict = "either" -> res.verdict \in {"hit", "miss"}
                           [] e.verdict = "missorpanic" -> res.verdict \in {"panic", "miss"}
                           [] OTHER -> res.verdict = e.verdict /\ (res.verdict = "hit" => Placed(a, b, e, res.loc))
    [] c.op = "agree" -> CASE e.verdict = "agree" -> res.verdict \in {"hit", "miss"}
                           [] e.verdict = "missorpanic" -> res.verdict \in {"panic", "miss"}
                           [] OTHER -> res.verdict = e.verdict
    [] c.op = "gjk" -> IF e.verdict = "either" THEN res.verdict \in {"hit", "miss"} ELSE res.verdict = e.verdict
    [] c.op = "bound" -> \A i \in 1..3 : IF e.loose[i] THEN res.lo[i] <= e.lo[i] /\ res.hi[i] >= e.hi[i]
                                         ELSE res.lo[i] = e.lo[i] /\ res.hi[i] = e.hi[i]
    \* recorded over the denominator, or as signed square times the length squared
    [] c.op = "data" -> /\ Len(res.num) = Len(e.num)
                        /\ \A i \in DOMAIN e.num : res.num[i] = IF e.sq[i] = 1 THEN SqSign(e.num[i], 1) ELSE e.num[i]
    [] c.op = "support" ->
         IF e.k = "none" THEN res.k = "none"
         ELSE /\ res.k = "at"
              /\ CASE a.k = "point" -> res.num = a.p
                   [] a.k = "sphere" -> \A i \in 1..3 : res.num[i] = SqSign(R(a) * c.p[i], 1)
                   [] OTHER -> LET F == TLCEval(e.fac) IN
                        /\ VDot(res.num, <<c.p[1], c.p[2], c.p[3]>>) = e.num[1]
                        /\ \A i \in DOMAIN F : F[i].m * VDot(F[i].n, VSub(res.num, VScale(F[i].b, e.m))) <= F[i].q * e.m

TraceInit == h = 1 /\ t = 0 /\ l = 1 /\ micro = FALSE /\ odd = FALSE /\ reg = [r \in Regs |-> Blank] /\ last = [op |-> "start"]
TraceStart == /\ l <= Len(Trace) /\ Ev.op = "start" /\ h' = h + 1 /\ t' = 0 /\ l' = l + 1
              /\ reg' = [r \in Regs |-> Blank] /\ last' = [op |-> "start"] /\ UNCHANGED <<micro, odd>>
TraceCall == /\ l <= Len(Trace) /\ Ev.op # "start"
             /\ \E c \in {CallOf(Ev)} : Do(c) /\ Shows(c, Ev.res)
             /\ l' = l + 1
TraceNext == TraceStart \/ TraceCall
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
