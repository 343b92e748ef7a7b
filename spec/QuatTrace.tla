------------------------------ MODULE QuatTrace -----------------------------
EXTENDS QuatMachine, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<h, t, reg, last, l>>
Ev == Trace[l]
CallOf(e) == [op |-> e.op, d |-> e.d, s |-> e.s, p |-> e.p]
SgnSq(v) == [i \in DOMAIN v |-> Sgn(v[i]) * v[i] * v[i]]
(* The recorder multiplies out denominators: vectors rotated or reflected are  *)
(* multiplied by the squared length first, unit results are given as signed    *)
(* squares times the squared length, an inverse times the squared length.      *)
Shows(c, res, exp) ==
  CASE exp.k = "panic" -> res.k = "panic"
    [] exp.k = "unit" -> res.k = "unit" /\ res.num = SgnSq(exp.num)
    [] exp.k = "autow" -> res.k = "autow" /\ res.num = <<exp.num[1], exp.num[2], exp.num[3], -exp.num[4]>>
    [] OTHER -> res.k = exp.k /\ res.num = exp.num
TraceInit == h = 1 /\ t = 0 /\ l = 1 /\ reg = [r \in Regs |-> Blank] /\ last = [op |-> "start"]
TraceStart == /\ l <= Len(Trace) /\ Ev.op = "start" /\ h' = h + 1 /\ t' = 0 /\ l' = l + 1
              /\ reg' = [r \in Regs |-> Blank] /\ last' = [op |-> "start"]
TraceCall == /\ l <= Len(Trace) /\ Ev.op # "start"
             /\ \E c \in {CallOf(Ev)} : Do(c) /\ Shows(c, Ev.res, Exp(c))
             /\ l' = l + 1
TraceNext == TraceStart \/ TraceCall
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
