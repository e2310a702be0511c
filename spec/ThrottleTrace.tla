---------------------------- MODULE ThrottleTrace ----------------------------
(* Checks recorded traces against ThrottleSpec. *)
EXTENDS ThrottleSpec, Json, IOUtils, TLC
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, i
T == Traces[tid]
E == T[i]
TInit == tid \in 1..Len(Traces) /\ i = 1 /\ ThInit(1..8, 0..1)
Step ==
  CASE E.e = "setcall"    -> SetCall(E.o, E.b)
    [] E.e = "clrcall"    -> ClrCall(E.o, E.b)
    [] E.e = "thret"      -> ThRet(E.o)
    [] E.e = "acceptcall" -> AcceptCall(E.b)
    [] E.e = "accepterr"  -> AcceptErr(E.b)
    [] E.e = "offer"      -> Offer(E.c, E.b)
    [] E.e = "accept"     -> Accept(E.c)
    [] E.e = "send"       -> Send(E.c, E.r, E.nb)
    [] E.e = "start"      -> Start(E.c, E.r)
    [] E.e = "hend"       -> HEnd(E.c, E.r)
    [] E.e = "cause"      -> Cause(E.c)
    [] E.e = "closes"     -> Closes(E.c)
    [] E.e = "onclose"    -> OnClose(E.c)
    [] E.e = "gone"       -> Gone(E.c)
    [] E.e = "closecall"  -> CloseCall(E.o, E.c)
    [] E.e = "closeret"   -> CloseRet(E.o)
    [] E.e = "sdcall"     -> SdCall(E.o)
    [] E.e = "sdret"      -> SdRet(E.o)
    [] E.e = "lnclose"    -> sd /\ UNCHANGED tvarsT
    [] E.e = "settled"    -> Settled(E.b)
    [] E.e = "end"        -> EndedT
    [] OTHER -> FALSE
Consume == i <= Len(T) /\ Step /\ i' = i + 1 /\ UNCHANGED tid
TNext == \/ Consume
         \/ i <= Len(T) /\ HiddenT /\ UNCHANGED <<tid, i>>
Emit == /\ (i' = Len(T) + 1 /\ i # i') => PrintT(<<"@@", tid>>)
        /\ (IOEnv.TRACEPOS = "1" /\ i' # i) => PrintT(<<"@#", tid, i'>>)
=============================================================================
