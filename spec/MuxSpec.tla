------------------------------- MODULE MuxSpec ------------------------------
(* A mux shared by several connections.  Commands have a routing part and an
   opaque part; a handler is registered for a routing part, with middleware
   whose answers are given.                                                   *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANT Base   \* cmd = opaque * Base + routing
VARIABLES
  reg,   \* routing command -> registration
  rc,    \* registration -> [cmd, nil, mws: answers of its middleware, st]
  rq,    \* request -> [c: connection, cmd, st, r: registration, k: middleware called]
  cl     \* connection -> "open", "must" (close), "closed"
mxvars == <<reg, rc, rq, cl>>
MPut(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
MxInit(conns) == reg = <<>> /\ rc = <<>> /\ rq = <<>> /\ cl = [c \in conns |-> "open"]
Routing(cmd) == cmd % Base
MaxCommand == Base * 256 - 1

RegCall(r, cmd, nil, mws) == rc' = MPut(rc, r, [cmd |-> cmd, nil |-> nil, mws |-> mws, st |-> "called"]) /\ UNCHANGED <<reg, rq, cl>>
Acceptable(r) == ~rc[r].nil /\ rc[r].cmd <= MaxCommand /\ Routing(rc[r].cmd) \notin DOMAIN reg
Register(r) == /\ rc[r].st = "called"
               /\ IF Acceptable(r) THEN reg' = MPut(reg, Routing(rc[r].cmd), r) /\ rc' = [rc EXCEPT ![r].st = "done"]
                  ELSE reg' = reg /\ rc' = [rc EXCEPT ![r].st = "panics"]
               /\ UNCHANGED <<rq, cl>>
RegRet(r, ok) == rc[r].st = (IF ok THEN "done" ELSE "panics") /\ rc' = [rc EXCEPT ![r].st = "ret"] /\ UNCHANGED <<reg, rq, cl>>

Req(c, q, cmd) == rq' = MPut(rq, q, [c |-> c, cmd |-> cmd, st |-> "sent", r |-> 0, k |-> 0]) /\ UNCHANGED <<reg, rc, cl>>
\* the registration is looked up
Route(q) == /\ rq[q].st = "sent"
            /\ LET k == Routing(rq[q].cmd) IN
               IF k \in DOMAIN reg
               THEN rq' = [rq EXCEPT ![q].st = "routed", ![q].r = reg[k]] /\ UNCHANGED cl
               ELSE rq' = [rq EXCEPT ![q].st = "unknown"] /\ cl' = [cl EXCEPT ![rq[q].c] = IF @ = "open" THEN "must" ELSE @]
            /\ UNCHANGED <<reg, rc>>
\* its middleware is called in order, with the command as it was sent
Mw(q, r, k, cmd) ==
  /\ rq[q].st = "routed" /\ rq[q].r = r /\ rq[q].cmd = cmd /\ k = rq[q].k + 1 /\ k <= Len(rc[r].mws)
  /\ rq' = [rq EXCEPT ![q].k = k, ![q].st = IF rc[r].mws[k] THEN "routed" ELSE "refused"] /\ UNCHANGED <<reg, rc, cl>>
\* and then the handler
Handle(q, r, cmd) ==
  /\ rq[q].st = "routed" /\ rq[q].r = r /\ rq[q].cmd = cmd /\ rq[q].k = Len(rc[r].mws)
  /\ rq' = [rq EXCEPT ![q].st = "handled"] /\ UNCHANGED <<reg, rc, cl>>
Shut(c) == cl[c] = "must" /\ cl' = [cl EXCEPT ![c] = "closed"] /\ UNCHANGED <<reg, rc, rq>>
MxRest == /\ \A c \in DOMAIN cl : cl[c] # "must"
          /\ \A q \in DOMAIN rq : rq[q].st \in {"handled", "refused", "unknown"} \/ cl[rq[q].c] = "closed"
          /\ UNCHANGED mxvars
MxHidden == (\E r \in DOMAIN rc : Register(r)) \/ (\E q \in DOMAIN rq : Route(q))
=============================================================================
