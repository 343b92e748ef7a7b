------------------------------- MODULE BoxTrace -----------------------------
EXTENDS BoxMachine, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<h, t, reg, last, l>>
Ev == Trace[l]
CallOf(e) == [op |-> e.op, d |-> e.d, s |-> e.s, p |-> e.p]
Shows(c, res, exp) ==
  CASE exp.k = "box" -> res.k = "box" /\ res.lo = exp.lo /\ res.hi = exp.hi
    [] exp.k = "bool" -> res.k = "bool" /\ res.b = exp.b
    [] exp.k = "middle" -> res.k = "middle" /\ res.num = exp.num          \* recorded doubled
    [] exp.k = "longest" -> res.k = "longest" /\ res.num = exp.num /\ exp.ax[res.axis]
TraceInit == h = 1 /\ t = 0 /\ l = 1 /\ reg = [r \in Regs |-> All] /\ last = [op |-> "start"]
TraceStart == /\ l <= Len(Trace) /\ Ev.op = "start" /\ h' = h + 1 /\ t' = 0 /\ l' = l + 1
              /\ reg' = [r \in Regs |-> All] /\ last' = [op |-> "start"]
TraceCall == /\ l <= Len(Trace) /\ Ev.op # "start"
             /\ \E c \in {CallOf(Ev)} : Do(c) /\ Shows(c, Ev.res, Exp(c))
             /\ l' = l + 1
TraceNext == TraceStart \/ TraceCall
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
