----------------------------- MODULE LimitSpec ------------------------------
(* The limits a server puts on what arrives over one connection: frames per
   second of the clock, and nonblocking requests being handled at a time.

   Frames are of kind N (nonblocking request), S (first of a streamed one),
   B (blocking request), P (push), A (answer to a request of the server) or
   C (anything that belongs to an existing stream, or to none: not counted). *)
EXTENDS Naturals, Sequences, FiniteSets

VARIABLES
  lim,    \* [qps, inflight], 0: no limit
  now,    \* the second of the latest event
  cnt,    \* frames counted in that second
  sent,   \* frames sent by the peer, not read: <<i, kind>>
  rd,     \* requests read, not passed on
  due,    \* requests passed on, their handler did not start yet
  run,    \* requests whose handler started and that still count
  done,   \* those of them whose handler returned
  blk,    \* a blocking request that is not finished, or 0
  over,   \* which limit was exceeded, or ""
  dead    \* the connection was closed
lvars == <<lim, now, cnt, sent, rd, due, run, done, blk, over, dead>>

LInit == /\ lim = [qps |-> 0, inflight |-> 0] /\ now = 0 /\ cnt = 0 /\ sent = <<>> /\ rd = <<>> /\ due = {} /\ run = {} /\ done = {}
         /\ blk = 0 /\ over = "" /\ dead = FALSE
At(t) == t >= now /\ now' = t /\ cnt' = IF t = now THEN cnt ELSE 0

Conf(t, q, m) == At(t) /\ lim' = [qps |-> q, inflight |-> m] /\ UNCHANGED <<sent, rd, due, run, done, blk, over, dead>>
SendF(t, i, k) == At(t) /\ sent' = Append(sent, <<i, k>>) /\ UNCHANGED <<lim, rd, due, run, done, blk, over, dead>>

Counted(k) == k # "C"
\* a frame is read at time t
Count(t) == cnt' = (IF t = now THEN cnt ELSE 0) + IF Counted(Head(sent)[2]) THEN 1 ELSE 0
ReadAt(t) == /\ sent # <<>> /\ blk = 0 /\ over = "" /\ ~dead /\ t >= now /\ now' = t /\ Count(t)
             /\ LET i == Head(sent)[1]  k == Head(sent)[2] IN
                  IF lim.qps > 0 /\ cnt' > lim.qps /\ Counted(k) THEN over' = "qps" /\ UNCHANGED <<sent, rd, blk>>
                  ELSE /\ sent' = Tail(sent)
                       /\ rd' = IF k \in {"N", "S", "B"} THEN Append(rd, <<i, k>>) ELSE rd
                       /\ blk' = IF k = "B" THEN i ELSE 0
                       /\ UNCHANGED over
             /\ UNCHANGED <<lim, due, run, done, dead>>
\* a request is passed on to its handler
Pass ==
  /\ rd # <<>> /\ over # "inflight" /\ \A x \in due \cup run : x[2] # "B"
  /\ LET f == Head(rd) IN
       IF lim.inflight > 0 /\ f[2] # "B" /\ Cardinality(due \cup run) >= lim.inflight
       THEN over = "" /\ over' = "inflight" /\ UNCHANGED due
       ELSE due' = due \cup {f} /\ UNCHANGED over
  /\ rd' = Tail(rd)
  /\ UNCHANGED <<lim, now, cnt, sent, run, done, blk, dead>>
Start(t, i) == /\ At(t) /\ \E f \in due : f[1] = i /\ due' = due \ {f} /\ run' = run \cup {f}
               /\ UNCHANGED <<lim, sent, rd, done, blk, over, dead>>
HEnd(t, i) == /\ At(t) /\ \E f \in run \ done : f[1] = i /\ done' = done \cup {f}
              /\ UNCHANGED <<lim, sent, rd, due, run, blk, over, dead>>
\* it does not count any more
Free == /\ \E f \in done : /\ run' = run \ {f} /\ done' = done \ {f}
                           /\ blk' = IF f[1] = blk THEN 0 ELSE blk
        /\ UNCHANGED <<lim, now, cnt, sent, rd, due, over, dead>>
Closes(t) == /\ At(t) /\ over # "" /\ ~dead /\ dead' = TRUE
             /\ UNCHANGED <<lim, sent, rd, due, run, done, blk, over>>
\* whatever returned does not count any more
Calm(t) == At(t) /\ done = {} /\ UNCHANGED <<lim, sent, rd, due, run, done, blk, over, dead>>
LHidden(t) == (\E s \in now..t : ReadAt(s)) \/ Pass \/ Free
LEnd == /\ IF over # "" THEN dead ELSE ~dead /\ sent = <<>> /\ rd = <<>> /\ due = {}
        /\ UNCHANGED lvars
=============================================================================
