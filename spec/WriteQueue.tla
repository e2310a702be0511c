----------------------------- MODULE WriteQueue ------------------------------
(* The write path as implemented.

   Role = "server" (serveconn.writeFrameBytes): a writer puts its request into
   a bounded queue, then either obtains the write lock and becomes the leader,
   which collects a batch from the queue, writes it and distributes the
   results, or gets its result from another leader.

   Role = "client" (clientconn.writeFrames): a loop goroutine collects batches
   from the queue.  Role = "reconnect": the same, with further network
   connections; requests stay in the queue meanwhile.

   The network takes the bytes of a batch in arbitrary portions and may fail
   in between.                                                                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Role, G, PerWriter, Cap, MaxNets

VARIABLES
  pc,      \* writer -> "idle","put","sel","collect","write","own" (server), "wait" (client)
  n,       \* writer -> frames written so far
  q,       \* the queue
  lock,    \* holder of the write lock or 0
  batch,   \* frames collected
  cnt,     \* how many were taken from the queue for this batch
  result,  \* frame -> "none", "ok", "err"
  pos,     \* how many frames of the batch the network has taken whole
  half,    \* is the next one partly taken?
  st,      \* network connection: "up", "failed" (by the network), "closed" (rwc closed), "ctx" (and its context cancelled)
  loop,    \* client loop: "take", "more", "write", "dead", "dial"
  gone,    \* Close was called
  cur, wire, part, res, net, broken, closed   \* as in WriteSpec

alg == <<pc, n, q, lock, batch, cnt, result, pos, half, st, loop, gone>>
abs == <<cur, wire, part, res, net, broken, closed>>
vars == <<alg, abs>>

A == INSTANCE WriteSpec

Tag(g) == 10 * g + n[g]
Frames == {10 * g + k : g \in G, k \in 1..PerWriter}
Server == Role = "server"

Init ==
  /\ pc = [g \in G |-> "idle"] /\ n = [g \in G |-> 0] /\ q = <<>> /\ lock = 0 /\ batch = <<>> /\ cnt = 0
  /\ result = [t \in Frames |-> "none"] /\ pos = 0 /\ half = FALSE /\ st = "up"
  /\ loop = "take" /\ gone = FALSE
  /\ A!WInit(G)

Ctx == st = "ctx"          \* the (loop) context is done
\* what a write waits for besides its result
WaitCtx == IF Role = "reconnect" THEN gone /\ Ctx ELSE Ctx

Submit(g) ==
  /\ pc[g] = "idle" /\ n[g] < PerWriter
  /\ n' = [n EXCEPT ![g] = @ + 1]
  /\ pc' = [pc EXCEPT ![g] = "put"]
  /\ A!WSubmit(g, Tag(g) + 1)
  /\ UNCHANGED <<q, lock, batch, cnt, result, pos, half, st, loop, gone>>

Put(g) ==
  /\ pc[g] = "put" /\ Len(q) < Cap
  /\ q' = Append(q, Tag(g))
  /\ pc' = [pc EXCEPT ![g] = IF Server THEN "sel" ELSE "wait"]
  /\ UNCHANGED <<n, lock, batch, cnt, result, pos, half, st, loop, gone, abs>>

Ret(g, r) == /\ pc' = [pc EXCEPT ![g] = "idle"] /\ A!WReturn(g, Tag(g), r)

PutCtx(g) ==
  /\ pc[g] = "put" /\ Ctx
  /\ Ret(g, "err")
  /\ UNCHANGED <<n, q, lock, batch, cnt, result, pos, half, st, loop, gone>>

GetResult(g) ==
  /\ pc[g] \in {"sel", "wait", "own"} /\ result[Tag(g)] # "none"
  /\ Ret(g, result[Tag(g)])
  /\ lock' = IF pc[g] = "own" /\ st = "up" /\ lock = g THEN 0 ELSE lock
  /\ UNCHANGED <<n, q, batch, cnt, result, pos, half, st, loop, gone>>
GetCtx(g) ==
  /\ pc[g] \in {"sel", "wait"} /\ WaitCtx
  /\ Ret(g, "err")
  /\ UNCHANGED <<n, q, lock, batch, cnt, result, pos, half, st, loop, gone>>

\* server: leader
Lock(g) ==
  /\ Server /\ pc[g] = "sel" /\ lock = 0
  /\ IF result[Tag(g)] # "none"
     THEN /\ Ret(g, result[Tag(g)]) /\ UNCHANGED <<lock, batch, cnt, pos>>
     ELSE /\ lock' = g /\ pc' = [pc EXCEPT ![g] = "collect"] /\ batch' = <<>> /\ cnt' = 0 /\ pos' = 0
          /\ UNCHANGED abs
  /\ UNCHANGED <<n, q, result, half, st, loop, gone>>

Collect(g) ==
  /\ pc[g] = "collect" /\ q # <<>> /\ cnt < Cap
  /\ batch' = Append(batch, Head(q)) /\ q' = Tail(q) /\ cnt' = cnt + 1
  /\ UNCHANGED <<pc, n, lock, result, pos, half, st, loop, gone, abs>>
CollectEnd(g) ==
  /\ pc[g] = "collect" /\ (q = <<>> \/ cnt = Cap)
  /\ pc' = [pc EXCEPT ![g] = "write"]
  /\ UNCHANGED <<n, q, lock, batch, cnt, result, pos, half, st, loop, gone, abs>>
CollectCtx(g) ==
  /\ pc[g] = "collect" /\ Ctx
  /\ Ret(g, "err")
  /\ UNCHANGED <<n, q, lock, batch, cnt, result, pos, half, st, loop, gone>>

Leader == IF Server THEN {g \in G : pc[g] = "write"} ELSE IF loop = "write" THEN {0} ELSE {}

\* the network takes the rest of a frame, or a part of it
Take ==
  /\ Leader # {} /\ st = "up" /\ pos < Len(batch)
  /\ \/ /\ pos' = pos + 1 /\ half' = FALSE
        /\ A!WWire(net, batch[pos + 1])
     \/ /\ ~half /\ half' = TRUE /\ UNCHANGED <<pos, abs>>
  /\ UNCHANGED <<pc, n, q, lock, batch, cnt, result, st, loop, gone>>

Results(err) == [t \in Frames |->
   IF \E i \in 1..Len(batch) : batch[i] = t
   THEN IF ~err \/ (\E i \in 1..pos : batch[i] = t) THEN "ok" ELSE "err"
   ELSE result[t]]

\* everything taken
Written ==
  /\ Leader # {} /\ pos = Len(batch)
  /\ result' = Results(FALSE)
  /\ IF Server
     THEN LET g == CHOOSE g \in Leader : TRUE IN pc' = [pc EXCEPT ![g] = "own"] /\ UNCHANGED loop
     ELSE loop' = "take" /\ UNCHANGED pc
  /\ batch' = <<>> /\ pos' = 0 /\ cnt' = 0
  /\ UNCHANGED <<n, q, lock, half, st, gone, abs>>

\* the network fails, or was closed meanwhile; the write returns an error, the connection is closed
WriteError ==
  /\ Leader # {} /\ st # "up" /\ pos < Len(batch)
  /\ result' = Results(TRUE)
  /\ IF Server
     THEN LET g == CHOOSE g \in Leader : TRUE IN pc' = [pc EXCEPT ![g] = "own"] /\ st' = "ctx" /\ UNCHANGED loop
     ELSE loop' = "dead" /\ st' = "ctx" /\ UNCHANGED pc
  /\ IF half THEN A!WPart(net, batch[pos + 1]) ELSE UNCHANGED abs
  /\ half' = FALSE
  /\ batch' = <<>> /\ pos' = 0 /\ cnt' = 0
  /\ UNCHANGED <<n, q, lock, gone>>

NetFail == /\ st = "up" /\ st' = "failed" /\ A!WBreak
           /\ UNCHANGED <<pc, n, q, lock, batch, cnt, result, pos, half, loop, gone>>
\* Close(): on the server first the network connection is closed, then the context cancelled
Close == /\ ~gone /\ gone' = TRUE
         /\ st' = (IF Server THEN (IF st = "ctx" THEN st ELSE "closed") ELSE "ctx") /\ A!WClose
         /\ UNCHANGED <<pc, n, q, lock, batch, cnt, result, pos, half, loop>>
Cancel == /\ st \in {"closed", "failed"}   \* (a failed network is noticed by the reader, too)
          /\ st' = "ctx"
          /\ UNCHANGED <<pc, n, q, lock, batch, cnt, result, pos, half, loop, gone, abs>>

\* the client's loop
LTake ==
  /\ ~Server /\ loop = "take" /\ q # <<>>
  /\ batch' = <<Head(q)>> /\ q' = Tail(q) /\ cnt' = 1 /\ pos' = 0
  /\ loop' = IF Cap > 1 THEN "more" ELSE "write"
  /\ UNCHANGED <<pc, n, lock, result, half, st, gone, abs>>
LMore ==
  /\ ~Server /\ loop = "more"
  /\ IF q # <<>> /\ cnt < Cap
     THEN batch' = Append(batch, Head(q)) /\ q' = Tail(q) /\ cnt' = cnt + 1 /\ UNCHANGED loop
     ELSE loop' = "write" /\ UNCHANGED <<batch, q, cnt>>
  /\ UNCHANGED <<pc, n, lock, result, pos, half, st, gone, abs>>
LCtx ==   \* abortRequestsWhenClosed
  /\ ~Server /\ loop \in {"take", "more"} /\ Ctx
  /\ loop' = "dead"
  /\ result' = IF Role = "reconnect" THEN Results(TRUE) ELSE result
  /\ batch' = <<>> /\ cnt' = 0 /\ pos' = 0
  /\ UNCHANGED <<pc, n, q, lock, half, st, gone, abs>>
\* the next network connection
Dial ==
  /\ Role = "reconnect" /\ loop = "dead" /\ ~gone /\ net < MaxNets
  /\ loop' = "dial"
  /\ UNCHANGED <<pc, n, q, lock, batch, cnt, result, pos, half, st, gone, abs>>
Redial ==   \* maybe closed meanwhile
  /\ loop = "dial"
  /\ A!WNext
  /\ loop' = "take" /\ st' = (IF gone THEN "ctx" ELSE "up") /\ half' = FALSE
  /\ UNCHANGED <<pc, n, q, lock, batch, cnt, result, pos, gone>>

\* a client's loop is cancelled while it writes to a network connection not yet closed
ClientTake ==
  /\ ~Server /\ Leader # {} /\ st = "ctx" /\ pos < Len(batch)
  /\ pos' = pos + 1 /\ half' = FALSE
  /\ A!WWire(net, batch[pos + 1])
  /\ UNCHANGED <<pc, n, q, lock, batch, cnt, result, st, loop, gone>>

Lib == \/ \E g \in G : Put(g) \/ PutCtx(g) \/ GetResult(g) \/ GetCtx(g) \/ Lock(g) \/ Collect(g) \/ CollectEnd(g) \/ CollectCtx(g)
       \/ Written \/ WriteError \/ LTake \/ LMore \/ LCtx \/ Dial \/ Redial \/ Cancel
Next == Lib \/ Take \/ ClientTake \/ NetFail \/ Close \/ \E g \in G : Submit(g)
Spec == /\ Init /\ [][Next]_vars
        /\ WF_vars(Take) /\ WF_vars(Written) /\ WF_vars(WriteError)
        /\ WF_vars(LTake) /\ WF_vars(LMore) /\ SF_vars(LCtx) /\ WF_vars(Dial) /\ WF_vars(Redial) /\ WF_vars(Cancel)
        /\ \A g \in G : /\ SF_vars(Put(g)) /\ SF_vars(GetResult(g)) /\ SF_vars(GetCtx(g)) /\ SF_vars(PutCtx(g))
                        /\ WF_vars(CollectEnd(g)) /\ WF_vars(Collect(g)) /\ SF_vars(Lock(g)) /\ WF_vars(CollectCtx(g))

\* C02: every write returns (a reconnecting client waits for its next network connection)
Returns == \A g \in G : (pc[g] # "idle") ~> (pc[g] = "idle" \/ (Role = "reconnect" /\ loop = "dead" /\ ~gone))
\* the leader's own frame is in its batch: it never waits for somebody else while it holds the lock
OwnInBatch == \A g \in G : pc[g] = "own" => result[Tag(g)] # "none"
AtMostOnce == A!AtMostOnce
OkMeansSent == A!OkMeansSent
NotAfterPart == A!NotAfterPart
=============================================================================
