------------------------------- MODULE ApiSpec --------------------------------
(* A pool with one connection for each of a number of endpoints.  Network
   connections are numbered; each answer of an endpoint has its own number.    *)
EXTENDS Naturals, Sequences, FiniteSets

VARIABLES
  neps,    \* endpoints 1..neps
  ready,   \* the pool was created
  dialing, \* endpoints that are being dialled
  nets,    \* network connection -> [ep, why: something ends it, closed, used: a request was sent there]
  op,      \* call -> see Call
  closing, \* Close was called
  closed,  \* Close returned
  cok      \* Close succeeded
avars == <<neps, ready, dialing, nets, op, closing, closed, cok>>

APut(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
AInit == neps = 0 /\ ready = FALSE /\ dialing = {} /\ nets = <<>> /\ op = <<>> /\ closing = FALSE /\ closed = FALSE /\ cok = FALSE
Conf(n) == neps' = n /\ UNCHANGED <<ready, dialing, nets, op, closing, closed, cok>>
Created == ready' = TRUE /\ UNCHANGED <<neps, dialing, nets, op, closing, closed, cok>>

Gone(n) == nets[n].why \/ nets[n].closed
NetsOf(e) == {n \in DOMAIN nets : nets[n].ep = e}
Open(o) == op[o].st = "called"
Wants(o, e) == CASE op[o].kind = "one" -> op[o].ep = e [] OTHER -> e \in 1..neps
\* calls that are in progress learn of trouble with endpoint e
Trouble(f, e) == [o \in DOMAIN f |-> IF f[o].st = "called" THEN [f[o] EXCEPT !.hurt = @ \cup {e}] ELSE f[o]]

------------------------------------------------------------------------------
\* an endpoint is dialled only for a call to it, and only if it has no usable connection
DialOn(e) == /\ e \in 1..neps /\ e \notin dialing /\ ~closed
             /\ \A n \in NetsOf(e) : Gone(n)
             /\ ready => \E o \in DOMAIN op : Open(o) /\ Wants(o, e)
Dial(e) == DialOn(e) /\ dialing' = dialing \cup {e} /\ UNCHANGED <<neps, ready, nets, op, closing, closed, cok>>
DialFail(e) == /\ e \in dialing /\ dialing' = dialing \ {e} /\ op' = Trouble(op, e)
               /\ UNCHANGED <<neps, ready, nets, closing, closed, cok>>
DialOK(e, n) == /\ e \in dialing /\ n \notin DOMAIN nets /\ dialing' = dialing \ {e}
                /\ nets' = APut(nets, n, [ep |-> e, why |-> FALSE, closed |-> FALSE, used |-> ~ready, told |-> FALSE])
                /\ UNCHANGED <<neps, ready, op, closing, closed, cok>>
Cause(n) == /\ nets' = [nets EXCEPT ![n].why = TRUE] /\ op' = Trouble(op, nets[n].ep)
            /\ UNCHANGED <<neps, ready, dialing, closing, closed, cok>>
NetCloseOn(n) == ~nets[n].closed /\ (nets[n].why \/ closing)
NetClose(n) == /\ NetCloseOn(n) /\ nets' = [nets EXCEPT ![n].closed = TRUE]
               /\ UNCHANGED <<neps, ready, dialing, op, closing, closed, cok>>

------------------------------------------------------------------------------
\* calls: kind "one" (of endpoint ep), "any", "all"
Call(o, kind, e) ==
  /\ op' = APut(op, o, [kind |-> kind, ep |-> e, st |-> "called", ctx |-> FALSE, late |-> closed,
                        hurt |-> IF closing THEN 1..neps ELSE {},
                        lost |-> {n \in DOMAIN nets : Gone(n) /\ ~nets[n].told},  \* and no call failed since
                        live |-> {n \in DOMAIN nets : ~Gone(n) /\ nets[n].used},
                        sent |-> {}, reset |-> {}, ans |-> <<>>, res |-> {}])
  /\ UNCHANGED <<neps, ready, dialing, nets, closing, closed, cok>>
\* a request goes to a connection of the right endpoint; again only if the connection before is lost, or,
\* if any endpoint will do, if it did not answer
SentOn(n, o) == /\ Wants(o, nets[n].ep) /\ ~nets[n].closed
                /\ \A m \in op[o].sent :
                     \/ Gone(m) /\ m # n
                     \/ Gone(n)   \* a request that was given up there
                     \/ op[o].kind = "any" /\ m \in op[o].reset
                     \/ op[o].kind = "all" /\ nets[m].ep # nets[n].ep
                /\ Open(o) \/ Gone(n) \/ op[o].ctx \/ closing
                /\ ~op[o].late
Sent(n, o) == /\ SentOn(n, o)
              /\ op' = [op EXCEPT ![o].sent = @ \cup {n}, ![o].reset = @ \ {n}] /\ nets' = [nets EXCEPT ![n].used = TRUE]
              /\ UNCHANGED <<neps, ready, dialing, closing, closed, cok>>
Answer(n, o, t) == /\ n \in op[o].sent /\ op' = [op EXCEPT ![o].ans = APut(@, n, t)]
                   /\ UNCHANGED <<neps, ready, dialing, nets, closing, closed, cok>>
PeerReset(n, o) == /\ n \in op[o].sent /\ op' = [op EXCEPT ![o].reset = @ \cup {n}, ![o].hurt = @ \cup {nets[n].ep}]
                   /\ UNCHANGED <<neps, ready, dialing, nets, closing, closed, cok>>
Cancel(o) == op' = [op EXCEPT ![o].ctx = TRUE] /\ UNCHANGED <<neps, ready, dialing, nets, closing, closed, cok>>

\* an answer of endpoint e
GoodFrom(o, e, t) == ~op[o].late /\ \E n \in DOMAIN op[o].ans : nets[n].ep = e /\ op[o].ans[n] = t
\* an error is excused by trouble with the endpoint during the call, or by a loss before it that no call failed for yet
Excuse(o, e) == op[o].ctx \/ closing \/ e \in op[o].hurt \/ e \notin 1..neps \/ \E n \in op[o].lost : nets[n].ep = e
\* if any will do, only if no endpoint had a connection all along
ExcuseAny(o) == (\E e \in 1..neps : Excuse(o, e)) /\ \A n \in op[o].live : Excuse(o, nets[n].ep)
\* that call fails, so its endpoint will be dialled
Told(o, e) == IF op[o].ctx THEN nets
              ELSE [n \in DOMAIN nets |-> IF nets[n].ep = e /\ Gone(n) /\ n \in op[o].lost THEN [nets[n] EXCEPT !.told = TRUE] ELSE nets[n]]
End(o) == op' = [op EXCEPT ![o].st = "ret"]
Ret(o, ok, t) ==
  /\ Open(o) /\ op[o].kind \in {"one", "any"}
  /\ CASE ok /\ op[o].kind = "one" -> GoodFrom(o, op[o].ep, t) /\ UNCHANGED nets
       [] ok /\ op[o].kind = "any" -> (\E e \in 1..neps : GoodFrom(o, e, t)) /\ UNCHANGED nets
       [] ~ok /\ op[o].kind = "one" -> Excuse(o, op[o].ep) /\ nets' = Told(o, op[o].ep)
       [] OTHER -> ExcuseAny(o) /\ UNCHANGED nets
  /\ End(o) /\ UNCHANGED <<neps, ready, dialing, closing, closed, cok>>
\* one of the results of a call to all
Res(o, e, ok, t) ==
  /\ Open(o) /\ op[o].kind = "all" /\ e \in (1..neps) \ op[o].res
  /\ IF ok THEN GoodFrom(o, e, t) /\ UNCHANGED nets ELSE Excuse(o, e) /\ nets' = Told(o, e)
  /\ op' = [op EXCEPT ![o].res = @ \cup {e}] /\ UNCHANGED <<neps, ready, dialing, closing, closed, cok>>
RetAll(o) == Open(o) /\ op[o].kind = "all" /\ op[o].res = 1..neps /\ End(o) /\ UNCHANGED <<neps, ready, dialing, nets, closing, closed, cok>>

------------------------------------------------------------------------------
CloseCall == /\ closing' = TRUE /\ op' = [o \in DOMAIN op |-> IF op[o].st = "called" THEN [op[o] EXCEPT !.hurt = 1..neps] ELSE op[o]]
             /\ UNCHANGED <<neps, ready, dialing, nets, closed, cok>>
\* one Close succeeds, and when it returns nothing is dialled any more
CloseRet(ok) == /\ closing /\ (ok => ~cok /\ dialing = {}) /\ cok' = (cok \/ ok) /\ closed' = (closed \/ ok)
                /\ UNCHANGED <<neps, ready, dialing, nets, op, closing>>
\* everything returned: those answered, those whose connection is lost, those whose context ended
Rest == /\ \A o \in DOMAIN op : op[o].st = "ret"
        /\ \A n \in DOMAIN nets : nets[n].closed <=> (nets[n].why \/ closing)
        /\ dialing = {} /\ (closing => cok) /\ UNCHANGED avars
=============================================================================
