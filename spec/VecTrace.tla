------------------------------ MODULE VecTrace ------------------------------
EXTENDS VecMachine, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<h, t, n, reg, last, l>>
Ev == Trace[l]
CallOf(e) == [op |-> e.op, d |-> e.d, s |-> e.s, p |-> e.p]
Shows(res, exp) ==
  IF exp.k = "sqrt"            \* a recorded length comes squared
    THEN res.k = "sqrt" /\ res.num = exp.num
    ELSE /\ res.k = exp.k
         /\ exp.k = "vec" => res.o = exp.o
         /\ exp.k \in {"vec", "num"} => res.num = exp.num
TraceInit == h = 1 /\ t = 0 /\ n = 2 /\ l = 1 /\ reg = [r \in Regs |-> Blank] /\ last = [op |-> "start"]
TraceStart == /\ l <= Len(Trace) /\ Ev.op = "start"
              /\ h' = h + 1 /\ t' = 0 /\ n' = Ev.n /\ l' = l + 1
              /\ reg' = [r \in Regs |-> Blank] /\ last' = [op |-> "start"]
TraceCall == /\ l <= Len(Trace) /\ Ev.op # "start"
             /\ \E c \in {CallOf(Ev)} : Do(c) /\ Shows(Ev.res, Exp(c))
             /\ l' = l + 1
TraceNext == TraceStart \/ TraceCall
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
