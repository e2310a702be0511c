----------------------------- MODULE LimitTrace -----------------------------
(* Checks recorded traces against LimitSpec. *)
EXTENDS LimitSpec, Json, IOUtils, TLC
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, i
T == Traces[tid]
E == T[i]
TInit == tid \in 1..Len(Traces) /\ i = 1 /\ LInit
Step ==
  CASE E.e = "conf"   -> Conf(E.t, E.qps, E.inflight)
    [] E.e = "send"   -> SendF(E.t, E.f, E.k)
    [] E.e = "start"  -> Start(E.t, E.f)
    [] E.e = "hend"   -> HEnd(E.t, E.f)
    [] E.e = "calm"   -> Calm(E.t)
    [] E.e = "closes" -> Closes(E.t)
    [] E.e = "fin"    -> LEnd
    [] OTHER -> FALSE
TNext == \/ i <= Len(T) /\ Step /\ i' = i + 1 /\ UNCHANGED tid
         \/ i <= Len(T) /\ LHidden(E.t) /\ UNCHANGED <<tid, i>>
Emit == /\ (i' = Len(T) + 1 /\ i # i') => PrintT(<<"@@", tid>>)
        /\ (IOEnv.TRACEPOS = "1" /\ i' # i) => PrintT(<<"@#", tid, i'>>)
=============================================================================
