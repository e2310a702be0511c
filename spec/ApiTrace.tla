------------------------------ MODULE ApiTrace -------------------------------
(* Checks recorded traces against ApiSpec. *)
EXTENDS ApiSpec, Json, IOUtils, TLC
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, i
T == Traces[tid]
E == T[i]
TInit == tid \in 1..Len(Traces) /\ i = 1 /\ AInit
Step ==
  CASE E.e = "conf"     -> Conf(E.n)
    [] E.e = "created"  -> Created
    [] E.e = "dial"     -> Dial(E.ep)
    [] E.e = "dialfail" -> DialFail(E.ep)
    [] E.e = "dialok"   -> DialOK(E.ep, E.n)
    [] E.e = "cause"    -> Cause(E.n)
    [] E.e = "netclose" -> NetClose(E.n)
    [] E.e = "call"     -> Call(E.o, E.kind, E.ep)
    [] E.e = "sent"     -> Sent(E.n, E.o)
    [] E.e = "answer"   -> Answer(E.n, E.o, E.t)
    [] E.e = "preset"   -> PeerReset(E.n, E.o)
    [] E.e = "cancel"   -> Cancel(E.o)
    [] E.e = "ret"      -> Ret(E.o, E.ok, E.t)
    [] E.e = "res"      -> Res(E.o, E.ep, E.ok, E.t)
    [] E.e = "retall"   -> RetAll(E.o)
    [] E.e = "closecall" -> CloseCall
    [] E.e = "closeret" -> CloseRet(E.ok)
    [] E.e = "fin"      -> Rest
    [] OTHER -> FALSE
TNext == i <= Len(T) /\ Step /\ i' = i + 1 /\ UNCHANGED tid
Emit == /\ i' = Len(T) + 1 => PrintT(<<"@@", tid>>)
        /\ IOEnv.TRACEPOS = "1" => PrintT(<<"@#", tid, i'>>)
=============================================================================
