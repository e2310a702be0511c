------------------------------ MODULE WriteTrace -----------------------------
(* Checks recorded traces of the write path against WriteSpec.  Each step of a
   behaviour consumes one event; a trace the specification does not allow
   shows as a deadlock.                                                       *)
EXTENDS WriteSpec, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, i
tvars == <<tid, i, wvars>>
T == Traces[tid]
E == T[i]
TInit == /\ tid \in 1..Len(Traces) /\ i = 1
         /\ WInit(1..64)
Step ==
  CASE E.e = "sub"   -> WSubmit(E.g, E.t)
    [] E.e = "wire"  -> WWire(E.k, E.t)
    [] E.e = "part"  -> WPart(E.k, E.t)
    [] E.e = "break" -> WBreak
    [] E.e = "close" -> WClose
    [] E.e = "net"   -> WNext
    [] E.e = "ret"   -> WReturn(E.g, E.t, E.r)
    \* every write has returned
    [] E.e = "end"   -> (\A g \in Writers : cur[g] = 0) /\ UNCHANGED wvars
    [] OTHER -> FALSE
TNext == \/ i <= Len(T) /\ Step /\ i' = i + 1 /\ UNCHANGED tid
         \/ i > Len(T) /\ UNCHANGED tvars
=============================================================================
