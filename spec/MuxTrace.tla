------------------------------ MODULE MuxTrace ------------------------------
(* Checks recorded traces against MuxSpec. *)
EXTENDS MuxSpec, Json, IOUtils, TLC
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, i
T == Traces[tid]
E == T[i]
TInit == tid \in 1..Len(Traces) /\ i = 1 /\ MxInit(0..5)
Step ==
  CASE E.e = "regcall" -> RegCall(E.r, E.cmd, E.nil, E.mws)
    [] E.e = "regret"  -> RegRet(E.r, E.ok)
    [] E.e = "req"     -> Req(E.c, E.q, E.cmd)
    [] E.e = "mw"      -> Mw(E.q, E.r, E.k, E.cmd)
    [] E.e = "handle"  -> Handle(E.q, E.r, E.cmd)
    [] E.e = "close"   -> Shut(E.c)
    [] E.e = "fin"     -> MxRest
    [] OTHER -> FALSE
\* hidden steps, each only where it is the last chance: registrations only add.
\* Of the requests that may have closed a connection any that is not heard of
\* again stands for the others.
Absent(q) == rq[q].st = "sent" /\ Routing(rq[q].cmd) \notin DOMAIN reg
Heard(q) == \E j \in i..Len(T) : T[j].e \in {"mw", "handle"} /\ T[j].q = q
Closer(c, P(_)) == LET S == {q \in DOMAIN rq : rq[q].c = c /\ Absent(q) /\ P(q) /\ ~Heard(q)} IN
                   cl[c] = "open" /\ S # {} /\ Route(CHOOSE q \in S : TRUE)
Late == \/ /\ E.e \in {"regret", "mw", "handle"}
           /\ LET k == Routing(rc[E.r].cmd) IN
              \/ \E r \in DOMAIN rc : Routing(rc[r].cmd) = k /\ (E.e = "regret" \/ r = E.r) /\ Register(r)
              \/ \E c \in DOMAIN cl : Closer(c, LAMBDA q : Routing(rq[q].cmd) = k)
        \/ E.e \in {"mw", "handle"} /\ Routing(rq[E.q].cmd) \in DOMAIN reg /\ Route(E.q)
        \/ E.e = "close" /\ Closer(E.c, LAMBDA q : TRUE)
TNext == \/ i <= Len(T) /\ Step /\ i' = i + 1 /\ UNCHANGED tid
         \/ i <= Len(T) /\ Late /\ UNCHANGED <<tid, i>>
Emit == /\ (i' = Len(T) + 1 /\ i # i') => PrintT(<<"@@", tid>>)
        /\ (IOEnv.TRACEPOS = "1" /\ i' # i) => PrintT(<<"@#", tid, i'>>)
=============================================================================
