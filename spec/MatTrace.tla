------------------------------ MODULE MatTrace ------------------------------
(* Validates a recorded history of the real matrices: every recorded call    *)
(* must be an action of MatMachine and must have shown what Exp says.        *)
EXTENDS MatMachine, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<h, t, n, st, lg, last, l>>

Ev == Trace[l]
CallOf(e) == [op |-> e.op, d |-> e.d, s |-> e.s, p |-> e.p]

Shows(res, exp) ==
  /\ res.k = exp.k
  /\ exp.k = "mat" => res.rm = exp.rm
  /\ exp.k \in {"mat", "vec", "num"} =>
       /\ Len(res.num) = Len(exp.num)
       /\ \A q \in DOMAIN exp.num : res.num[q] = exp.num[q]
\* an inverse that was only observed is recorded in thousandths
ShowsRatio(res, exp) ==
  /\ res.k = exp.k
  /\ exp.k = "mat" =>
       /\ res.rm = exp.rm
       /\ \A q \in DOMAIN exp.num :
            /\ Abs(res.num[q]) <= 2000000000 \div Abs(exp.den[q])
            /\ Abs(res.num[q] * exp.den[q] - 1000 * exp.num[q]) <= Abs(exp.den[q])

TraceInit == /\ h = 1 /\ t = 0 /\ n = 3 /\ l = 1
             /\ st = [r \in Regs |-> [rm |-> TRUE, val |-> <<>>]]
             /\ lg = [r \in Regs |-> Blank]
             /\ last = [op |-> "start"]
TraceStart == /\ l <= Len(Trace) /\ Ev.op = "start"
              /\ h' = h + 1 /\ t' = 0 /\ n' = Ev.n /\ l' = l + 1
              /\ st' = [r \in Regs |-> [rm |-> TRUE, val |-> <<>>]]
              /\ lg' = [r \in Regs |-> Blank]
              /\ last' = [op |-> "start"]
TraceCall == /\ l <= Len(Trace) /\ Ev.op # "start"
             /\ \E c \in {CallOf(Ev)} :
                  /\ Do(c)
                  /\ IF c.op = "inv" THEN ShowsRatio(Ev.res, Exp(c)) ELSE Shows(Ev.res, Exp(c))
             /\ l' = l + 1
TraceNext == TraceStart \/ TraceCall
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
