------------------------------ MODULE CmpTrace ------------------------------
(* A recorded comparison carries its whole input; the state is loaded from   *)
(* it and the recorded answers (both orders) must be Equal; the proximity    *)
(* test runs through the tolerance state of the shape.                       *)
EXTENDS CmpMachine, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<h, t, kind, a, b, rma, rmb, tol, vic, last, l>>
Ev == Trace[l]
TraceInit == /\ h = 1 /\ t = 0 /\ kind = "v2" /\ a = <<0, 0>> /\ b = a /\ rma = TRUE /\ rmb = TRUE
             /\ tol = 0 /\ vic = Default /\ last = Call("start", <<>>) /\ l = 1
TraceStart == /\ l <= Len(Trace) /\ Ev.op = "start" /\ l' = l + 1 /\ h' = h + 1 /\ t' = 0 /\ vic' = Default
              /\ last' = Call("start", <<>>) /\ UNCHANGED <<kind, a, b, rma, rmb, tol>>
TraceEq == /\ l <= Len(Trace) /\ Ev.op = "eq" /\ l' = l + 1
           /\ kind' = Ev.kind /\ a' = Ev.a /\ b' = Ev.b /\ rma' = Ev.rma /\ rmb' = Ev.rmb /\ tol' = Ev.tol
           /\ t' = t + 1 /\ last' = Call("eq", <<>>) /\ UNCHANGED <<h, vic>>
           /\ Ev.res.b = Equal' /\ Ev.res.b2 = Equal'
TraceVic == /\ l <= Len(Trace) /\ Ev.op \in {"vset", "vtest"} /\ l' = l + 1
            /\ Do(Call(Ev.op, Ev.p))
            /\ Ev.op = "vtest" => Ev.res.b = Near(Ev.p[1], Ev.p[2])
TraceNext == TraceStart \/ TraceEq \/ TraceVic
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
