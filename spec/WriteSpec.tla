------------------------------ MODULE WriteSpec ------------------------------
(* What the writers of one connection may rely on (C04, C02): the abstract
   specification of the write path.  Refined by WriteQueue (the algorithms of
   serveconn.go and clientconn.go); the traces of the real code are checked
   against it by WriteTrace.

   A connection may use several network connections one after the other
   (reconnecting clients); net is the current one, 0 before the first.       *)
EXTENDS Naturals, Sequences, FiniteSets

VARIABLES
  cur,      \* writer -> the frame it is writing, 0: none
  wire,     \* network connection -> frames that arrived whole, in order
  part,     \* frames of which a part arrived
  res,      \* frame -> "ok" or "err", once its write returned
  net,      \* current network connection
  broken,   \* the current network connection failed or is being closed
  closed    \* the connection is closed for good

wvars == <<cur, wire, part, res, net, broken, closed>>

Sent(t) == \E k \in DOMAIN wire : \E i \in 1..Len(wire[k]) : wire[k][i] = t
Writers == DOMAIN cur
Submitted(t) == t \in DOMAIN res \/ \E g \in Writers : cur[g] = t

WInit(G) ==
  /\ cur = [g \in G |-> 0] /\ wire = <<<<>>>> /\ part = {} /\ res = <<>>
  /\ net = 1 /\ broken = FALSE /\ closed = FALSE

\* a writer starts to write frame t
WSubmit(g, t) ==
  /\ cur[g] = 0 /\ t > 0 /\ t \notin DOMAIN res
  /\ \A h \in Writers : cur[h] # t
  /\ cur' = [cur EXCEPT ![g] = t]
  /\ UNCHANGED <<wire, part, res, net, broken, closed>>

\* frame t arrives, whole; only once ever
WWire(k, t) ==
  /\ k = net
  /\ Submitted(t) /\ ~Sent(t) /\ t \notin part
  /\ wire' = [wire EXCEPT ![k] = Append(@, t)]
  /\ UNCHANGED <<cur, part, res, net, broken, closed>>

\* a network connection ends in the middle of frame t
WPart(k, t) ==
  /\ k = net /\ broken
  /\ Submitted(t) /\ ~Sent(t) /\ t \notin part
  /\ part' = part \cup {t}
  /\ UNCHANGED <<cur, wire, res, net, broken, closed>>

\* the network connection is going to fail, or to be closed
WBreak ==
  /\ broken' = TRUE
  /\ UNCHANGED <<cur, wire, part, res, net, closed>>
WClose ==
  /\ broken' = TRUE /\ closed' = TRUE
  /\ UNCHANGED <<cur, wire, part, res, net>>

\* the next network connection (being dialled before the close, perhaps)
WNext ==
  /\ broken
  /\ net' = net + 1 /\ wire' = Append(wire, <<>>) /\ broken' = closed
  /\ UNCHANGED <<cur, part, res, closed>>

\* the write returns
WReturn(g, t, r) ==
  /\ cur[g] = t /\ t # 0
  /\ r = "ok" => Sent(t)
  \* an error needs a reason: a network connection that failed while it was being written
  /\ r = "err" => broken \/ net > 1
  /\ cur' = [cur EXCEPT ![g] = 0]
  /\ res' = [x \in DOMAIN res \cup {t} |-> IF x = t THEN r ELSE res[x]]
  /\ UNCHANGED <<wire, part, net, broken, closed>>

------------------------------------------------------------------------------
\* consequences
AtMostOnce == \A k1, k2 \in DOMAIN wire : \A i \in 1..Len(wire[k1]), j \in 1..Len(wire[k2]) :
                 wire[k1][i] = wire[k2][j] => k1 = k2 /\ i = j
OkMeansSent == \A t \in DOMAIN res : res[t] = "ok" => Sent(t)
NotAfterPart == \A t \in part : ~Sent(t)
=============================================================================
