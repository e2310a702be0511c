----------------------------- MODULE ServerTrace -----------------------------
(* Checks recorded traces of a server against ServerSpec, hidden actions being
   found by TLC.  A trace that can be consumed to its end prints its number.  *)
EXTENDS ServerSpec, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.TRACES)
NC == 16
VARIABLES tid, i
tvars == <<tid, i, svars>>
T == Traces[tid]
E == T[i]
TInit == /\ tid \in 1..Len(Traces) /\ i = 1
         /\ SInit(1..NC, 1..4, 0..2)
Step ==
  CASE E.e = "servecall"  -> ServeCall(E.b)
    [] E.e = "acceptcall" -> AcceptCall(E.b)
    [] E.e = "lnclose"    -> LnClose(E.b)
    [] E.e = "serveret"   -> ServeRet(E.b, E.closed)
    [] E.e = "offer"      -> Offer(E.c, E.b)
    [] E.e = "accept"     -> Accept(E.c)
    [] E.e = "onaccept"   -> OnAccept(E.c, E.ok)
    [] E.e = "cause"      -> Cause(E.c)
    [] E.e = "closes"     -> Closes(E.c)
    [] E.e = "kickcb"     -> \E c \in DOMAIN con : KickCB(c, E.t)
    [] E.e = "onclose"    -> OnClose(E.c)
    [] E.e = "start"      -> Start(E.c, E.r)
    [] E.e = "hend"       -> HEnd(E.c, E.r)
    [] E.e = "regcall"    -> RegCall(E.k, E.c)
    [] E.e = "regret"     -> RegRet(E.k)
    [] E.e = "notify"     -> Notify(E.k)
    [] E.e = "closecall"  -> CloseCall(E.o, E.c)
    [] E.e = "closeret"   -> CloseRet(E.o)
    [] E.e = "setidcall"  -> SetIDCall(E.o, E.c, E.x)
    [] E.e = "setidret"   -> SetIDRet(E.o, E.kick, E.ko)
    [] E.e = "lookupcall" -> LookupCall(E.o, E.x)
    [] E.e = "lookupret"  -> LookupRet(E.o, E.c)
    [] E.e = "walkidcall" -> WalkIDCall(E.o, E.ids)
    [] E.e = "walkidvisit"-> WalkIDVisit(E.o, E.c, E.i)
    [] E.e = "walkidret"  -> WalkIDRet(E.o)
    [] E.e = "walkcall"   -> WalkCall(E.o, E.b, E.n)
    [] E.e = "walkvisit"  -> WalkVisit(E.o, E.c)
    [] E.e = "walkret"    -> WalkRet(E.o)
    [] E.e = "wsub"       -> WSub(E.c, E.t)
    [] E.e = "got"        -> Got(E.c, E.t)
    [] E.e = "wret"       -> WRet(E.c, E.t, E.r)
    [] E.e = "oscall"     -> OsCall(E.k)
    [] E.e = "osret"      -> OsRet(E.k)
    [] E.e = "osrun"      -> OsRun(E.k)
    [] E.e = "sdcall"     -> ShutdownCall(E.o)
    [] E.e = "sdret"      -> ShutdownRet(E.o)
    [] E.e = "end"        -> Ended
    [] OTHER -> FALSE
Consume == i <= Len(T) /\ Step /\ i' = i + 1 /\ UNCHANGED tid
TNext == \/ Consume
         \/ i <= Len(T) /\ Hidden /\ UNCHANGED <<tid, i>>
\* progress, for the caller
Emit == /\ (i' = Len(T) + 1 /\ i # i') => PrintT(<<"@@", tid>>)
        /\ (IOEnv.TRACEPOS = "1" /\ i' # i) => PrintT(<<"@#", tid, i'>>)
=============================================================================
