--------------------------- MODULE ReconnectTrace ---------------------------
(* Checks recorded traces against ReconnectSpec. *)
EXTENDS ReconnectSpec, Json, IOUtils, TLC
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, i
T == Traces[tid]
E == T[i]
TInit == tid \in 1..Len(Traces) /\ i = 1 /\ RInit(1, FALSE)
Step ==
  CASE E.e = "conf"     -> RConf(E.n, E.again)
    [] E.e = "dial"     -> Dial(E.a)
    [] E.e = "dialfail" -> DialFail
    [] E.e = "dialok"   -> DialOK(E.n)
    [] E.e = "onconn"   -> OnConnect
    [] E.e = "ondisc"   -> OnDisconnect
    [] E.e = "cause"    -> Cause(E.n)
    [] E.e = "netclose" -> NetClose(E.n)
    [] E.e = "closecall" -> CloseCall
    [] E.e = "closeret" -> CloseRet(E.ok)
    [] E.e = "waitret"  -> WaitRet
    [] E.e = "isclosed" -> IsClosed(E.b)
    [] E.e = "call"     -> Call(E.o, E.b, E.w)
    [] E.e = "sent"     -> Sent(E.n, E.o)
    [] E.e = "ret"      -> Ret(E.o, E.ok)
    [] E.e = "rstret"   -> RstRet(E.o, E.ok)
    [] E.e = "answer"   -> Answer(E.n, E.o, E.t, E.last)
    [] E.e = "preset"   -> PeerReset(E.n, E.o)
    [] E.e = "got"      -> Got(E.o, E.t)
    [] E.e = "gotend"   -> GotEnd(E.o)
    [] E.e = "preq"     -> PeerReq(E.n, E.h)
    [] E.e = "hstart"   -> HStart(E.h)
    [] E.e = "hctx"     -> HCtx(E.h)
    [] E.e = "hend"     -> HEnd(E.h)
    [] E.e = "hreset"   -> HReset(E.n, E.h)
    [] E.e = "ppush"    -> PeerPush(E.n, E.p)
    [] E.e = "sub"      -> Sub(E.n, E.p)
    [] E.e = "fin"      -> Rest
    [] OTHER -> FALSE
TNext == \/ i <= Len(T) /\ Step /\ i' = i + 1 /\ UNCHANGED tid
         \/ i <= Len(T) /\ RHidden /\ UNCHANGED <<tid, i>>
Emit == /\ (i' = Len(T) + 1 /\ i # i') => PrintT(<<"@@", tid>>)
        /\ (IOEnv.TRACEPOS = "1" /\ i' # i) => PrintT(<<"@#", tid, i'>>)
=============================================================================
