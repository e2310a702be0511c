---------------------------- MODULE ChannelTrace ----------------------------
(* Checks recorded traces against ChannelSpec. *)
EXTENDS ChannelSpec, Integers, Json, IOUtils, TLC
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, i
T == Traces[tid]
E == T[i]
TInit == tid \in 1..Len(Traces) /\ i = 1 /\ CInit
Step ==
  CASE E.e = "new"    -> New(E.p)
    [] E.e = "send"   -> SendCall(E.p, E.d, E.k, E.cmd, E.last)
    [] E.e = "sret"   -> SendRet(E.p, E.d, E.ok)
    [] E.e = "end"    -> EndCall(E.p, E.d)
    [] E.e = "eret"   -> EndRet(E.p, E.d, E.ok, E.after)
    [] E.e = "recv"   -> RecvCall(E.p, E.d)
    [] E.e = "ctx"    -> RecvCtx(E.p, E.d)
    [] E.e = "got"    -> Got(E.p, E.d, E.k, E.cmd)
    [] E.e = "finished" -> Finished(E.p, E.d)
    [] E.e = "rerr"   -> RecvErr(E.p, E.d, E.why)
    [] E.e = "hret"   -> HandlerRet(E.p)
    [] E.e = "cut"    -> Cut
    [] E.e = "fin"    -> CRest
    [] OTHER -> FALSE
TNext == i <= Len(T) /\ Step /\ i' = i + 1 /\ UNCHANGED tid
Emit == /\ i' = Len(T) + 1 => PrintT(<<"@@", tid>>)
        /\ IOEnv.TRACEPOS = "1" => PrintT(<<"@#", tid, i'>>)
=============================================================================
