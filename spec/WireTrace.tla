------------------------------ MODULE WireTrace ------------------------------
(* Checks recorded traces against WireSpec. *)
EXTENDS WireSpec, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, i
T == Traces[tid]
E == T[i]
TInit == tid \in 1..Len(Traces) /\ i = 1 /\ WInit
Step ==
  CASE E.e = "conf"   -> Conf(E.codec, E.max)
    [] E.e = "start"  -> StartWrite(E.w, E.id, E.cmd, E.fl)
    [] E.e = "sstart" -> StreamStart(E.w, E.cmd)
    [] E.e = "bytes"  -> WriteBytes(E.w, E.p)
    [] E.e = "end"    -> EndCall(E.o, E.w, E.how)
    [] E.e = "rst"    -> ResetCall(E.o, E.id, E.cmd)
    [] E.e = "req"    -> ReqCall(E.o, E.cmd, E.fl, E.p)
    [] E.e = "ret"    -> EndRet(E.o, E.ok)
    [] E.e = "reqret" -> ReqRet(E.o, E.ok, E.id, E.w, E.fl)
    [] E.e = "wire"   -> Wire(E.h, E.p)
    [] E.e = "send"   -> Send(E.h, E.p)
    [] E.e = "recv"   -> Recv(E.id, E.cmd, E.fl, E.p)
    [] E.e = "closes" -> Closes
    [] E.e = "fin"    -> WEnd
    [] OTHER -> FALSE
TNext == \/ i <= Len(T) /\ Step /\ i' = i + 1 /\ UNCHANGED tid
Emit == /\ (i' = Len(T) + 1 /\ i # i') => PrintT(<<"@@", tid>>)
        /\ (IOEnv.TRACEPOS = "1" /\ i' # i) => PrintT(<<"@#", tid, i'>>)
=============================================================================
