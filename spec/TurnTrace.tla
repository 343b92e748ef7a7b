------------------------------ MODULE TurnTrace -----------------------------
EXTENDS TurnMachine, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<h, t, ax, base, reg, last, l>>
Ev == Trace[l]
CallOf(e) == [op |-> e.op, d |-> e.d, s |-> e.s, p |-> e.p]
(* Recorded quaternions are given as angle on the circle through the axis of   *)
(* the history (minutes, 0..21599) and log radius; rotations modulo half.      *)
Shows(c, res, exp) ==
  CASE exp.k = "quat" -> /\ res.k = "quat" /\ Divides(exp.ad, exp.a[1]) /\ Divides(exp.ld, exp.lr)
                         /\ res.n = <<Norm(exp.a[1] \div exp.ad), exp.lr \div exp.ld>>
    [] exp.k = "turn" -> /\ res.k = "turn"
                         /\ IF Norm(exp.a[1]) = 0 THEN res.n[1] \in {0, Full, -Full}
                            ELSE res.n[1] = exp.a[1]
    [] exp.k = "ln" -> res.k = "ln" /\ res.n = <<exp.a[1], exp.lr>>
    [] exp.k = "arc" -> /\ res.k = "arc"
                        /\ \E i \in DOMAIN exp.a : Divides(exp.ad, exp.a[i]) /\ res.n[1] = ((exp.a[i] \div exp.ad) % Half)
    [] exp.k = "vec" -> res.k = "vec" /\ res.num = exp.num
TraceInit == h = 1 /\ t = 0 /\ l = 1 /\ ax = <<1, 0, 0>> /\ base = <<0, 0, 0, 1>> /\ reg = [r \in Regs |-> Blank] /\ last = [op |-> "start"]
TraceStart == /\ l <= Len(Trace) /\ Ev.op = "start" /\ h' = h + 1 /\ t' = 0 /\ l' = l + 1
              /\ ax' = Ev.ax /\ base' = Ev.base
              /\ reg' = [r \in Regs |-> Blank] /\ last' = [op |-> "start"]
TraceCall == /\ l <= Len(Trace) /\ Ev.op # "start"
             /\ \E c \in {CallOf(Ev)} : Do(c) /\ Shows(c, Ev.res, Exp(c))
             /\ l' = l + 1
TraceNext == TraceStart \/ TraceCall
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
