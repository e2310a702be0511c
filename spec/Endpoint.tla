------------------------------ MODULE Endpoint ------------------------------
(* One end point of a qrpc connection: the reader goroutine, the streams, the
   request handlers, the subscriber, the local callers, and a scripted peer.

   Role = "server": serveconn.go (peer requests carry odd ids, own even ids)
   Role = "client": clientconn.go (peer requests carry even ids, own odd ids)

   Frames are abstracted to a kind, an id and a tag that identifies content:
     B  plain request/answer      N  plain, nonblocking
     S  stream, more to come      E  stream, last frame
     R  reset
     P, PS, PE, PR   the same with the push flag

   The environment (env. actions) is everything the peer and the user code do;
   the other actions are the steps of the library's own goroutines.  One action
   corresponds to one critical section / one blocking point of the code.

   hist records the behaviour with everything an observer outside the library
   can see: a list of steps, each a list of environment actions and the set of
   their observable effects.  It is printed by EndpointGen and replayed against
   the real code.                                                             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS
  Role,         \* "server" or "client"
  PeerIds,      \* ids the peer uses for requests and pushes
  PeerKinds,    \* frame kinds the peer sends under PeerIds
  RespKinds,    \* frame kinds the peer sends under the ids of our own requests
  OwnKinds,     \* kinds of requests started locally
  HOps,         \* what handlers may do
  COps,         \* what local callers may do
  SOps,         \* what the consumer of a push may do
  Misc,         \* subset of {"eof","cclose"}
  HasHandler,   \* client role: a handler is configured
  HasSub,       \* a subscriber is configured
  MaxInflight,  \* 0: no limit
  MaxPeer, MaxOwn, MaxOps,   \* bounds
  Burst         \* 99: environment actions at any time (model checking)
                \* 0: one at a time, each when everything is at rest
                \* n: as 0, but the last n at any time (concurrently)

VARIABLES
  inq,     \* frames sent by the peer, not yet read
  rd,      \* the reader goroutine
  so,      \* all stream objects ever created
  act,     \* actors: handlers, push consumers, callers
  cl,      \* "open", "closing", "closed" (the network connection), "freed" (all streams released)
  down,    \* OnClose / OnDisconnect delivered
  npeer, nown, nops, bst,
  wq,      \* writes accepted, in the order in which they go on the wire
  wire,    \* ghost: per stream object, kinds put on the wire by us
  hist     \* behaviour so far with its observations (not part of the VIEW)

core == <<inq, rd, so, act, cl, down, npeer, nown, nops, bst, wq, wire>>
vars == <<inq, rd, so, act, cl, down, npeer, nown, nops, bst, wq, wire, hist>>

Open == cl = "open"
Idle == [st |-> "idle", f |-> <<>>, s |-> 0, h |-> 0]

IsPush(f) == f.k \in {"P", "PS", "PE", "PR"}
IsRst(f)  == f.k \in {"R", "PR"}
IsDone(f) == f.k \notin {"S", "PS"}
IsNB(f)   == f.k \in {"N", "S", "E", "PS", "PE"}

OwnId(n) == IF Role = "server" THEN 2 * n ELSE 2 * n + 1

------------------------------------------------------------------------------
(* streams (stream.go) *)
NewStream(id, push) == [id |-> id, push |-> push, bound |-> FALSE, cs |-> FALSE,
                        cp |-> FALSE, ctx |-> FALSE, full |-> FALSE]

Cur(ss, id, push) ==      \* index of the live stream with this key, or 0
  LET c == {i \in 1..Len(ss) : ss[i].id = id /\ ss[i].push = push /\ ~ss[i].full}
  IN IF c = {} THEN 0 ELSE CHOOSE i \in c : TRUE

AfterDone(s) == [s EXCEPT !.full = TRUE, !.ctx = TRUE]

ClosePeer(s, f) ==
  LET s1 == IF IsPush(f) THEN [s EXCEPT !.cs = TRUE] ELSE s
      s2 == IF IsDone(f) THEN [s1 EXCEPT !.cp = TRUE] ELSE s1
  IN IF s2.cs /\ s2.cp THEN AfterDone(s2) ELSE s2

\* the same in two steps, as seen by a consumer that is woken by the first one
MarkPeer(s, f) == IF IsDone(f) THEN [s EXCEPT !.cp = TRUE] ELSE s
Settle(s, f) == LET s1 == IF IsRst(f) THEN [s EXCEPT !.ctx = TRUE]
                          ELSE IF IsPush(f) THEN [s EXCEPT !.cs = TRUE] ELSE s
                IN IF s1.cs /\ s1.cp THEN AfterDone(s1) ELSE s1

ResetByPeer(s) ==
  LET s1 == [s EXCEPT !.cp = TRUE, !.ctx = TRUE]
  IN IF s1.cs THEN AfterDone(s1) ELSE s1

\* AddOutFrame: <<stream', send the frame?, success reported?>>
AddOut(s, k) ==
  IF k = "R"
  THEN LET s1 == [s EXCEPT !.cs = TRUE]
       IN IF s.cp THEN <<AfterDone(s1), ~s.cs, TRUE>> ELSE <<s1, TRUE, TRUE>>
  ELSE IF s.cs THEN <<s, FALSE, FALSE>>
  ELSE IF k = "S" THEN <<s, TRUE, TRUE>>
  ELSE LET s1 == [s EXCEPT !.cs = TRUE]
       IN <<IF s.cp THEN AfterDone(s1) ELSE s1, TRUE, TRUE>>

------------------------------------------------------------------------------
(* observations *)
Obs(h, os) == [h EXCEPT ![Len(h)].obs = @ \cup os]
Flags == { <<act[a].t, so[act[a].s].ctx, so[act[a].s].full>> :
             a \in {a \in 1..Len(act) : act[a].s # 0 /\ act[a].fr /\ act[a].st # "new"} }
\* the reader waits for the network, having handled all that was sent
Parked == rd.st = "idle" /\ inq = <<>> /\ Open
Step(h, a) ==
  IF bst = 0 \/ Len(h) = 0
  THEN Append(IF Len(h) = 0 THEN h ELSE [h EXCEPT ![Len(h)].fl = Flags, ![Len(h)].pk = Parked],
              [a |-> <<a>>, obs |-> {}, fl |-> {}, pk |-> FALSE])
  ELSE [h EXCEPT ![Len(h)].a = Append(@, a)]

\* actor:  ty  "h" handler, "s" push consumer, "c" caller
\*         st  "new" (handed to the serving goroutine), "run", "recv" (waits for a frame), "ending", "fin" (handler returned), "end",
\*             "own" (request being sent), "wait" (for the answer), "gone"
\*         w   phase of the write in progress: 0 none, 1 submitted, 2 stream found, 3 accepted, 4 sent
\*         ear the answer came before the write of the request returned: 1 reset, t + 1 frame
Actor(ty, s, f, blk) == [ty |-> ty, s |-> s, id |-> f.id, t |-> f.t, blk |-> blk,
                         st |-> "run", fr |-> TRUE, pend |-> FALSE, n |-> 0,
                         rcv |-> <<f.t>>, fin |-> FALSE, ear |-> 0, op |-> "",
                         w |-> 0, wk |-> "", wt |-> 0, wi |-> 0]
RunningHandlers == {a \in 1..Len(act) : act[a].ty = "h" /\ act[a].st # "end"}
NBRunning == {a \in RunningHandlers : ~act[a].blk /\ act[a].st # "fin"}

------------------------------------------------------------------------------
(* closing: first it is decided, then the network connection is closed and the
   callers are woken, then all streams are released *)

CloseDown ==
  /\ cl = "closing"
  /\ cl' = "closed"
  /\ LET w == {a \in 1..Len(act) : act[a].st = "wait"} IN
     /\ act' = [a \in 1..Len(act) |-> IF a \in w THEN [act[a] EXCEPT !.st = "run", !.pend = FALSE] ELSE [act[a] EXCEPT !.pend = FALSE]]
     /\ hist' = Obs(hist, {<<"get", act[a].t, 0>> : a \in w} \cup {<<"down">>})
  /\ UNCHANGED <<inq, rd, so, down, npeer, nown, nops, bst, wq, wire>>

\* the reader notices
ReaderDies ==
  /\ ~Open /\ rd.st \notin {"dead", "post", "settle"}
  /\ rd' = [Idle EXCEPT !.st = "dead", !.s = IF rd.st = "wait" THEN rd.s ELSE 0] /\ inq' = <<>>
  /\ UNCHANGED <<so, act, cl, down, npeer, nown, nops, bst, wq, wire, hist>>

Free ==
  /\ cl = "closed" /\ rd.st = "dead" /\ \A a \in 1..Len(act) : act[a].w = 0
  /\ cl' = "freed"
  /\ so' = [i \in 1..Len(so) |-> IF so[i].full THEN so[i] ELSE [AfterDone(so[i]) EXCEPT !.cp = TRUE]]
  /\ UNCHANGED <<inq, rd, act, down, npeer, nown, nops, bst, wq, wire, hist>>

TearDown ==
  /\ cl \in {"closed", "freed"} /\ ~down
  /\ Role = "server" => RunningHandlers = {} /\ rd.st = "dead"
  /\ down' = TRUE
  /\ hist' = Obs(hist, {<<"onclose">>})
  /\ UNCHANGED <<inq, rd, so, act, cl, npeer, nown, nops, bst, wq, wire>>

------------------------------------------------------------------------------
(* the reader *)

Pending(id) == {a \in 1..Len(act) : act[a].ty = "c" /\ act[a].id = id /\ act[a].pend}

\* dispatch of the first frame f of stream ss[s]
Dispatch(f, s, ss) ==
  LET rest == Tail(inq)
      c    == CHOOSE a \in Pending(f.id) : TRUE
  IN
  IF IsPush(f)
  THEN IF HasSub
       THEN /\ act' = Append(act, Actor("s", s, f, FALSE))
            /\ so' = ss /\ rd' = Idle /\ inq' = rest
            /\ hist' = Obs(hist, {<<"sub", f.t>>})
            /\ UNCHANGED cl
       ELSE /\ so' = [ss EXCEPT ![s].ctx = TRUE] /\ rd' = Idle /\ inq' = rest
            /\ UNCHANGED <<act, cl, hist>>
  ELSE IF Pending(f.id) # {}
  THEN /\ so' = ss /\ rd' = Idle /\ inq' = rest /\ UNCHANGED cl
       /\ act' = [act EXCEPT ![c].pend = FALSE,
                             ![c].st = IF @ = "wait" THEN "run" ELSE @,
                             ![c].ear = IF act[c].st # "own" THEN 0 ELSE IF IsRst(f) THEN 1 ELSE f.t + 1,
                             ![c].s = IF act[c].st \in {"wait", "own"} /\ ~IsRst(f) THEN s ELSE @,
                             ![c].fr = act[c].st = "wait" /\ ~IsRst(f),
                             ![c].rcv = IF act[c].st = "wait" /\ ~IsRst(f) THEN <<f.t>> ELSE @]
       /\ hist' = IF act[c].st = "wait"
                  THEN Obs(hist, {<<"get", act[c].t, IF IsRst(f) THEN 0 ELSE f.t>>})
                  ELSE hist
  ELSE IF cl \in {"closed", "freed"} /\ (Role = "client" \/ f.id % 2 = 0)
  THEN /\ so' = ss /\ rd' = [Idle EXCEPT !.st = "dead"] /\ inq' = <<>> /\ UNCHANGED <<act, cl, hist>>
  ELSE IF IsRst(f)
  THEN /\ so' = ss /\ rd' = Idle /\ inq' = rest /\ UNCHANGED <<act, cl, hist>>
  ELSE IF Role = "server"
  THEN IF IsNB(f) /\ MaxInflight > 0 /\ Cardinality(NBRunning) >= MaxInflight
       THEN /\ cl' = (IF Open THEN "closing" ELSE cl)
            /\ rd' = [Idle EXCEPT !.st = "dead"] /\ inq' = <<>> /\ so' = ss
            /\ UNCHANGED <<act, hist>>
       ELSE /\ act' = Append(act, [Actor("h", s, f, ~IsNB(f)) EXCEPT !.st = "new"])
            /\ so' = ss /\ inq' = rest
            /\ rd' = IF IsNB(f) THEN Idle ELSE [Idle EXCEPT !.st = "gate", !.h = Len(act) + 1]
            /\ UNCHANGED <<cl, hist>>
  ELSE IF ~HasHandler
       THEN /\ so' = [ss EXCEPT ![s].ctx = TRUE] /\ rd' = Idle /\ inq' = rest
            /\ UNCHANGED <<act, cl, hist>>
       ELSE IF f.id % 2 = 1 \/ ~IsNB(f)
       THEN /\ cl' = (IF Open THEN "closing" ELSE cl)
            /\ rd' = [Idle EXCEPT !.st = "dead"] /\ inq' = <<>> /\ so' = ss
            /\ UNCHANGED <<act, hist>>
       ELSE /\ act' = Append(act, Actor("h", s, f, FALSE))
            /\ so' = ss /\ inq' = rest /\ rd' = Idle
            /\ hist' = Obs(hist, {<<"start", f.t>>})
            /\ UNCHANGED cl

\* the handler starts; not necessarily once the connection is closing
Start ==
  \E a \in 1..Len(act) :
    /\ act[a].st = "new"
    /\ \A b \in 1..(a-1) : act[b].st # "new"
    /\ \/ act' = [act EXCEPT ![a].st = "run"] /\ hist' = Obs(hist, {<<"start", act[a].t>>})
       \/ ~Open /\ act' = [act EXCEPT ![a].st = "end", ![a].fr = FALSE] /\ UNCHANGED hist
    /\ UNCHANGED <<inq, rd, so, cl, down, npeer, nown, nops, bst, wq, wire>>

CanRead == rd.st = "idle" /\ inq # <<>>
Read ==
  /\ CanRead
  /\ LET f == Head(inq)
         i == Cur(so, f.id, IsPush(f))
     IN
     IF f.k = "EOF"
     THEN /\ cl' = (IF Open THEN "closing" ELSE cl)
          /\ rd' = [Idle EXCEPT !.st = "dead"] /\ inq' = <<>>
          /\ UNCHANGED <<so, act, hist>>
     ELSE IF IsRst(f)
     THEN IF i = 0
          THEN /\ inq' = Tail(inq) /\ UNCHANGED <<rd, so, act, cl, hist>>
          ELSE IF so[i].bound
          THEN /\ so' = [so EXCEPT ![i] = MarkPeer(@, f)]
               /\ rd' = [Idle EXCEPT !.st = "settle", !.s = i, !.f = f]
               /\ inq' = Tail(inq) /\ UNCHANGED <<act, cl, hist>>
          ELSE Dispatch(f, i, [so EXCEPT ![i] = [ResetByPeer(@) EXCEPT !.bound = TRUE]])
     ELSE LET ss == IF i = 0 THEN Append(so, NewStream(f.id, IsPush(f))) ELSE so
              j  == IF i = 0 THEN Len(ss) ELSE i
          IN IF ~ss[j].bound
             THEN Dispatch(f, j, [ss EXCEPT ![j] = [ClosePeer(@, f) EXCEPT !.bound = TRUE]])
             ELSE IF ss[j].cp
             THEN /\ rd' = [Idle EXCEPT !.st = "wait", !.s = j]
                  /\ inq' = Tail(inq) /\ UNCHANGED <<so, act, cl, hist>>
             ELSE /\ rd' = [Idle EXCEPT !.st = "deliver", !.s = j, !.f = f]
                  /\ inq' = Tail(inq) /\ UNCHANGED <<so, act, cl, hist>>
  /\ wire' = IF Len(so') > Len(wire) THEN Append(wire, <<>>) ELSE wire
  /\ UNCHANGED <<down, npeer, nown, nops, bst, wq>>

Receivers(s) == {a \in 1..Len(act) : act[a].st = "recv" /\ act[a].s = s}

\* the reader hands a frame to a waiting consumer
Deliver ==
  /\ rd.st = "deliver"
  /\ \E a \in Receivers(rd.s) :
       /\ act' = [act EXCEPT ![a].st = "run", ![a].rcv = Append(@, rd.f.t)]
       /\ hist' = Obs(hist, {<<"recv", act[a].t, rd.f.t>>})
  /\ rd' = [rd EXCEPT !.st = "post"]
  /\ UNCHANGED <<inq, so, cl, down, npeer, nown, nops, bst, wq, wire>>

\* nobody is going to consume it
Discard ==
  /\ rd.st = "deliver" /\ (so[rd.s].ctx \/ ~Open)
  /\ rd' = [rd EXCEPT !.st = "post"]
  /\ UNCHANGED <<inq, so, act, cl, down, npeer, nown, nops, bst, wq, wire, hist>>

\* then accounts for it
Post ==
  /\ rd.st = "post"
  /\ so' = [so EXCEPT ![rd.s] = MarkPeer(@, rd.f)]
  /\ rd' = [rd EXCEPT !.st = "settle"]
  /\ UNCHANGED <<inq, act, cl, down, npeer, nown, nops, bst, wq, wire, hist>>

SettleStream ==
  /\ rd.st = "settle"
  /\ so' = [so EXCEPT ![rd.s] = Settle(@, rd.f)]
  /\ rd' = Idle
  /\ UNCHANGED <<inq, act, cl, down, npeer, nown, nops, bst, wq, wire, hist>>

RecvEnd ==
  \E a \in 1..Len(act) :
    /\ act[a].st = "recv" /\ so[act[a].s].cp
    /\ act' = [act EXCEPT ![a].st = "run", ![a].fin = TRUE]
    /\ hist' = Obs(hist, {<<"recv", act[a].t, 0>>})
    /\ UNCHANGED <<inq, rd, so, cl, down, npeer, nown, nops, bst, wq, wire>>

\* a frame for a stream already finished by the peer is dropped once the stream is gone
WaitDone ==
  /\ rd.st = "wait" /\ so[rd.s].full
  /\ rd' = Idle
  /\ UNCHANGED <<inq, so, act, cl, down, npeer, nown, nops, bst, wq, wire, hist>>

------------------------------------------------------------------------------
(* writes: submitted, matched with their stream, accepted and put on the wire, reported *)

\* the write of actor a is over
WEnd(a, res, ac) ==
  IF ac[a].st = "fin"
  THEN [ac EXCEPT ![a].w = 0, ![a].st = "end"]
  ELSE IF ac[a].st = "own"
  THEN [ac EXCEPT ![a].w = 0, ![a].ear = 0,
                  ![a].fr = res = "ok" /\ ac[a].ear > 1,
                  ![a].rcv = IF res = "ok" /\ ac[a].ear > 1 THEN <<ac[a].ear - 1>> ELSE @,
                  ![a].st = IF res # "ok" THEN "gone"
                                        ELSE IF ac[a].wk = "P" THEN "gone"
                                        ELSE IF ac[a].ear > 0 THEN "run"
                                        ELSE IF cl \in {"open", "closing"} THEN "wait" ELSE "run"]
  ELSE [ac EXCEPT ![a].w = 0]
WObs(a, res) ==
  IF act[a].st = "fin" THEN {}
  ELSE IF act[a].st = "own"
  THEN {<<"req", act[a].t, res>>}
       \cup IF res = "ok" /\ act[a].ear > 0 THEN {<<"get", act[a].t, act[a].ear - 1>>}
            ELSE IF res = "ok" /\ act[a].wk # "P" /\ cl \notin {"open", "closing"} THEN {<<"get", act[a].t, 0>>} ELSE {}
  ELSE {<<"res", act[a].t, act[a].wt, res>>}
\* the end of a blocking handler lets the reader go on
Ungate(a) == IF act[a].st = "fin" /\ rd.st = "gate" /\ rd.h = a THEN Idle ELSE rd

W1 ==
  \E a \in 1..Len(act) :
    /\ act[a].w = 1
    /\ LET i == Cur(so, act[a].id, FALSE)
           own == act[a].st = "own"
           miss == act[a].wk # "P" /\ ~own /\ i = 0
           fails == \/ /\ miss /\ cl \in {"open", "closing", "closed", "freed"}
                    \/ cl \in {"closed", "freed"}
       IN \/ /\ (fails \/ cl = "closing")
             /\ act' = WEnd(a, "err", act) /\ hist' = Obs(hist, WObs(a, "err"))
             /\ rd' = Ungate(a)
             /\ UNCHANGED <<so, wq, wire>>
          \/ /\ ~fails
             /\ IF own /\ act[a].wk # "P"
                THEN /\ so' = Append(so, NewStream(act[a].id, FALSE))
                     /\ wire' = Append(wire, <<>>)
                     /\ act' = [act EXCEPT ![a].w = 2, ![a].wi = Len(so) + 1]
                ELSE /\ act' = [act EXCEPT ![a].w = 2, ![a].wi = IF act[a].wk = "P" THEN 0 ELSE i]
                     /\ UNCHANGED <<so, wq, wire>>
             /\ UNCHANGED <<hist, rd>>
    /\ UNCHANGED <<inq, cl, down, npeer, nown, nops, bst, wq>>

\* the stream accepts the frame or not
W2 ==
  \E a \in 1..Len(act) :
    /\ act[a].w = 2
    /\ LET i == act[a].wi
           r == IF i = 0 THEN <<FALSE, TRUE, TRUE>> ELSE AddOut(so[i], act[a].wk)
       IN /\ so' = IF i = 0 THEN so ELSE [so EXCEPT ![i] = r[1]]
          /\ \/ /\ r[2]
                /\ act' = [act EXCEPT ![a].w = 3] /\ wq' = Append(wq, a)
                /\ UNCHANGED <<rd, hist>>
             \/ /\ ~r[2] \/ cl # "open"
                /\ LET res == IF ~r[2] /\ r[3] THEN "ok" ELSE "err" IN
                   /\ act' = WEnd(a, res, act)
                   /\ hist' = Obs(hist, WObs(a, res))
                /\ rd' = Ungate(a)
                /\ UNCHANGED wq
    /\ UNCHANGED <<inq, cl, down, npeer, nown, nops, bst, wire>>

\* it goes on the wire; while the connection closes this may or may not succeed
W3 ==
  /\ wq # <<>>
  /\ wq' = Tail(wq)
  /\ LET a == Head(wq)
         i == act[a].wi
         k == act[a].wk
         o == <<"wire", act[a].id, k, act[a].wt>>
     IN
     \/ /\ cl \in {"open", "closing"}
        /\ wire' = IF i = 0 THEN wire ELSE [wire EXCEPT ![i] = Append(@, k)]
        /\ act' = [act EXCEPT ![a].w = 4, ![a].pend = @ \/ (act[a].st = "own" /\ k # "P")]
        /\ hist' = Obs(hist, {IF o \in hist[Len(hist)].obs THEN Append(o, "again") ELSE o})
        /\ UNCHANGED rd
     \/ /\ cl # "open"
        /\ act' = WEnd(a, "err", act)
        /\ hist' = Obs(hist, WObs(a, "err"))
        /\ rd' = Ungate(a)
        /\ UNCHANGED wire
  /\ UNCHANGED <<inq, so, cl, down, npeer, nown, nops, bst>>

W4 ==
  \E a \in 1..Len(act), res \in {"ok", "err"} :
    /\ act[a].w = 4 /\ (res = "ok" \/ cl # "open")
    /\ act' = WEnd(a, res, act) /\ hist' = Obs(hist, WObs(a, res)) /\ rd' = Ungate(a)
    /\ UNCHANGED <<inq, so, cl, down, npeer, nown, nops, bst, wq, wire>>

\* after a handler has returned, an unfinished answer is reset
Finish ==
  \E a \in 1..Len(act) :
    /\ act[a].st = "ending"
    /\ IF so[act[a].s].cs
       THEN /\ act' = [act EXCEPT ![a].st = "end"]
            /\ rd' = IF rd.st = "gate" /\ rd.h = a THEN Idle ELSE rd
       ELSE /\ act' = [act EXCEPT ![a].st = "fin", ![a].w = 1, ![a].wk = "R", ![a].wt = 0]
            /\ UNCHANGED rd
    /\ UNCHANGED <<inq, so, cl, down, npeer, nown, nops, bst, wq, wire, hist>>

Internal == Read \/ Deliver \/ Discard \/ Post \/ SettleStream \/ RecvEnd \/ WaitDone \/ W1 \/ W2 \/ W3 \/ W4 \/ Start \/ Finish
            \/ CloseDown \/ ReaderDies \/ Free \/ TearDown

Quiescent ==
  /\ ~CanRead
  /\ rd.st \notin {"post", "settle"}
  /\ ~(rd.st = "deliver" /\ (Receivers(rd.s) # {} \/ so[rd.s].ctx))
  /\ ~(rd.st = "wait" /\ so[rd.s].full)
  /\ \A a \in 1..Len(act) : /\ act[a].w = 0 /\ act[a].st \notin {"ending", "new"}
                            /\ ~(act[a].st = "recv" /\ so[act[a].s].cp)
  /\ cl \in {"open", "freed"}
  /\ cl = "freed" => down \/ (Role = "server" /\ RunningHandlers # {})

------------------------------------------------------------------------------
(* environment actions *)

EnvOK ==
  \/ Burst = 99
  \/ Quiescent /\ bst = 0
  \/ Burst < 99 /\ bst > 0 /\ bst < Burst
NextBst == \/ Burst \in {0, 99} /\ bst' = 0
           \/ Burst \notin {0, 99} /\ bst = 0 /\ bst' \in {0, 1}
           \/ Burst \notin {0, 99} /\ bst > 0 /\ bst' = bst + 1
EnvStep(a) == NextBst /\ hist' = Step(hist, a)

\* (generated behaviours only:)
\* no new frame under an id whose stream the peer itself has ended and that is not released yet,
\* unless nothing can release it afterwards (see Unwaits)
RstK(k) == k \in {"R", "PR"}
PushK(k) == k \in {"P", "PS", "PE", "PR"}
EndsIn(i, id, k) == inq[i].id = id /\ (PushK(k) <=> IsPush(inq[i])) /\ IsDone(inq[i])
Legal(id, k) ==
  IF Burst = 99 \/ RstK(k) THEN TRUE
  ELSE /\ \A i \in 1..Len(inq) : ~EndsIn(i, id, k)
       /\ rd.st \in {"deliver", "post", "settle"} /\ so[rd.s].id = id => ~IsDone(rd.f)
       /\ LET i == Cur(so, id, PushK(k))
          IN IF i = 0 THEN TRUE ELSE IF so[i].cp THEN bst' = 0 ELSE TRUE
       /\ IF bst' = 0 THEN TRUE
          ELSE \A i \in 1..Len(so) : so[i].id = id /\ so[i].push = PushK(k) => ~so[i].cp
\* a write that would release the stream the reader waits for: in real time it
\* cannot be told whether the reader already waits
Unwaits(id, k) == Burst < 99 /\ rd.st \in {"wait", "dead"} /\ rd.s # 0 /\ so[rd.s].id = id /\ ~so[rd.s].push /\ k # "S"
\* (an actor that only appears during a burst may never appear if the connection is closing)
Old(a) == IF Burst = 99 \/ bst = 0 \/ act[a].ty = "c" THEN TRUE
          ELSE IF Len(hist) < 2 THEN FALSE
          ELSE \E x \in hist[Len(hist) - 1].fl : x[1] = act[a].t
InBurst(x) == IF bst > 0 /\ Len(hist) > 0
              THEN \E i \in 1..Len(hist[Len(hist)].a) : hist[Len(hist)].a[i][1] = x ELSE FALSE

PeerSend ==
  \E id \in PeerIds, k \in PeerKinds :
    /\ EnvOK /\ Open /\ npeer < MaxPeer
    /\ \A i \in 1..Len(inq) : inq[i].k # "EOF"
    /\ ~InBurst("eof")
    /\ npeer' = npeer + 1
    /\ inq' = Append(inq, [k |-> k, id |-> id, t |-> npeer'])
    /\ EnvStep(<<"peer", k, id, npeer'>>) /\ Legal(id, k)
    /\ UNCHANGED <<rd, so, act, cl, down, nown, nops, wq, wire>>

\* answers: ids of own requests already made
PeerResp ==
  \E n \in 1..nown, k \in RespKinds :
    /\ EnvOK /\ Open /\ npeer < MaxPeer
    /\ ~InBurst("eof")
    /\ \A i \in 1..Len(inq) : inq[i].k # "EOF"
    /\ \A a \in 1..Len(act) : act[a].id = OwnId(n) => act[a].st # "own" \/ act[a].w = 4
    /\ npeer' = npeer + 1
    /\ inq' = Append(inq, [k |-> k, id |-> OwnId(n), t |-> npeer'])
    /\ EnvStep(<<"peer", k, OwnId(n), npeer'>>) /\ Legal(OwnId(n), k)
    /\ UNCHANGED <<rd, so, act, cl, down, nown, nops, wq, wire>>

PeerEof ==
  /\ "eof" \in Misc /\ EnvOK /\ Open
  /\ \A i \in 1..Len(inq) : inq[i].k # "EOF"
  /\ inq' = Append(inq, [k |-> "EOF", id |-> 0, t |-> 0])
  /\ EnvStep(<<"eof">>)
  /\ UNCHANGED <<rd, so, act, cl, down, npeer, nown, nops, wq, wire>>

LocalClose ==
  /\ "cclose" \in Misc /\ EnvOK /\ Open
  /\ EnvStep(<<"cclose">>)
  /\ cl' = "closing"
  /\ UNCHANGED <<inq, rd, so, act, down, npeer, nown, nops, wq, wire>>

OwnReq ==
  \E k \in OwnKinds :
    /\ EnvOK /\ nown < MaxOwn
    /\ ~InBurst("own")   \* (ids are given out in order)
    /\ nown' = nown + 1
    /\ LET t == 50 + nown' IN
       /\ act' = Append(act, [Actor("c", 0, [id |-> OwnId(nown'), t |-> t], FALSE)
                                EXCEPT !.st = "own", !.fr = FALSE, !.rcv = <<>>, !.op = k,
                                       !.w = 1, !.wk = k, !.wt = t])
       /\ EnvStep(<<"own", k, OwnId(nown'), t>>)
    /\ UNCHANGED <<inq, rd, so, cl, down, npeer, nops, wq, wire>>

\* actor a submits a frame of kind k
Submit(a, k, name) ==
  /\ act[a].w = 0 /\ ~Unwaits(act[a].id, k)
  /\ LET t == 100 * act[a].t + act[a].n + 1 IN
     /\ act' = [act EXCEPT ![a].n = @ + 1, ![a].w = 1, ![a].wk = k, ![a].wt = t]
     /\ EnvStep(<<name, act[a].t, k, t>>)
  /\ nops' = nops + 1
  /\ UNCHANGED <<inq, rd, so, cl, down, npeer, nown, wq, wire>>

\* (a push under the id of the request involves no stream)
HandlerWrite ==
  \E a \in 1..Len(act), k \in HOps \cap {"S", "E", "B", "N", "R", "P"} :
    /\ EnvOK /\ nops < MaxOps /\ act[a].ty = "h" /\ Old(a) /\ act[a].st = "run"
    /\ Submit(a, k, "hw")

\* a frame is started but not sent
HandlerAbandon ==
  \E a \in 1..Len(act) :
    /\ "ab" \in HOps
    /\ EnvOK /\ nops < MaxOps /\ act[a].ty = "h" /\ Old(a) /\ act[a].st = "run" /\ act[a].w = 0
    /\ EnvStep(<<"ab", act[a].t>>)
    /\ nops' = nops + 1
    /\ UNCHANGED <<inq, rd, so, act, cl, down, npeer, nown, wq, wire>>

CanAct(a) == act[a].ty = "c" /\ act[a].st \in {"run", "wait", "gone"} /\ act[a].w = 0 /\ act[a].op # "P"
             /\ (act[a].pend \/ act[a].fr \/ act[a].st # "gone")

CallerWrite ==
  \E a \in 1..Len(act), k \in COps \cap {"S", "E", "R"} :
    /\ EnvOK /\ nops < MaxOps /\ CanAct(a) /\ act[a].op \in {"S", "E"}
    /\ Submit(a, k, "cw")

\* Connection.ResetFrame(id)
CallerReset ==
  \E a \in 1..Len(act) :
    /\ "creset" \in COps /\ Role = "client"
    /\ EnvOK /\ nops < MaxOps /\ CanAct(a)
    /\ Submit(a, "R", "creset")

\* the caller's own context ends
GiveUp ==
  \E a \in 1..Len(act) :
    /\ "giveup" \in COps
    /\ EnvOK /\ nops < MaxOps /\ act[a].ty = "c" /\ act[a].st = "wait"
    /\ act' = [act EXCEPT ![a].st = "gone"]
    /\ NextBst /\ hist' = Obs(Step(hist, <<"giveup", act[a].t>>), {<<"get", act[a].t, 1000000>>})
    /\ nops' = nops + 1
    /\ UNCHANGED <<inq, rd, so, cl, down, npeer, nown, wq, wire>>
\* the same, but the answer or the end came first
GiveUpLate ==
  \E a \in 1..Len(act) :
    /\ "giveup" \in COps /\ bst > 0
    /\ EnvOK /\ nops < MaxOps /\ act[a].ty = "c" /\ act[a].st = "run" /\ act[a].op # "P"
    /\ nops' = nops + 1
    /\ EnvStep(<<"giveup", act[a].t>>)
    /\ UNCHANGED <<inq, rd, so, act, cl, down, npeer, nown, wq, wire>>

\* wait for the next frame of the stream
Recv ==
  \E a \in 1..Len(act) :
    /\ "recv" \in (IF act[a].ty = "h" THEN HOps ELSE IF act[a].ty = "s" THEN SOps ELSE COps)
    /\ EnvOK /\ nops < MaxOps /\ Old(a) /\ act[a].st = "run" /\ act[a].fr /\ act[a].w = 0 /\ ~act[a].fin
    /\ act' = [act EXCEPT ![a].st = "recv"]
    /\ EnvStep(<<"recv", act[a].t>>)
    /\ nops' = nops + 1
    /\ UNCHANGED <<inq, rd, so, cl, down, npeer, nown, wq, wire>>

\* the handler is over: normally or by a panic
HandlerEnd ==
  \E a \in 1..Len(act), how \in HOps \cap {"ret", "panic"} :
    /\ EnvOK /\ nops < MaxOps /\ act[a].ty = "h" /\ Old(a) /\ act[a].st = "run" /\ act[a].w = 0
    /\ ~Unwaits(act[a].id, "R")
    /\ so' = [so EXCEPT ![act[a].s].ctx = TRUE]
    /\ act' = [act EXCEPT ![a].st = "ending"]
    /\ EnvStep(<<how, act[a].t>>)
    /\ nops' = nops + 1
    /\ UNCHANGED <<inq, rd, cl, down, npeer, nown, wq, wire>>

\* the handler closes the connection
HandlerClose ==
  \E a \in 1..Len(act) :
    /\ "close" \in HOps
    /\ EnvOK /\ nops < MaxOps /\ act[a].ty = "h" /\ Old(a) /\ act[a].st = "run" /\ act[a].w = 0
    /\ Open
    /\ EnvStep(<<"close", act[a].t>>)
    /\ cl' = "closing"
    /\ nops' = nops + 1
    /\ UNCHANGED <<inq, rd, so, act, down, npeer, nown, wq, wire>>

Env == PeerSend \/ PeerResp \/ PeerEof \/ LocalClose \/ OwnReq \/ HandlerWrite
       \/ HandlerAbandon \/ CallerWrite \/ CallerReset \/ GiveUp \/ GiveUpLate \/ Recv \/ HandlerEnd \/ HandlerClose

Init ==
  /\ inq = <<>> /\ rd = Idle /\ so = <<>> /\ act = <<>> /\ cl = "open" /\ down = FALSE
  /\ npeer = 0 /\ nown = 0 /\ nops = 0 /\ bst = 0 /\ wq = <<>> /\ wire = <<>> /\ hist = <<>>

Next == Env \/ Internal
Spec == Init /\ [][Next]_vars
Fairness == WF_vars(Read) /\ WF_vars(Deliver) /\ WF_vars(Discard) /\ WF_vars(Post) /\ WF_vars(SettleStream) /\ WF_vars(RecvEnd)
            /\ WF_vars(WaitDone) /\ WF_vars(W1) /\ WF_vars(W2) /\ WF_vars(W3) /\ WF_vars(W4) /\ WF_vars(Start) /\ WF_vars(Finish)
            /\ WF_vars(CloseDown) /\ WF_vars(ReaderDies) /\ WF_vars(Free) /\ WF_vars(TearDown)
FairSpec == Spec /\ Fairness

------------------------------------------------------------------------------
(* properties *)

\* C03: while a blocking handler runs, the reader waits for it; so never two
OneBlocking ==
  /\ Open => Cardinality({a \in RunningHandlers : act[a].blk}) <= 1
  /\ \A a \in RunningHandlers : act[a].blk /\ Open => rd.st = "gate" /\ rd.h = a
  /\ rd.st = "gate" /\ Open => rd.h \in RunningHandlers
\* C03: handlers start in order of arrival, each request once
StartOrder == \A a, b \in 1..Len(act) :
                a < b /\ act[a].ty = "h" /\ act[b].ty = "h" => act[a].t < act[b].t
\* C01: a caller only ever gets a frame with its own id, callers have distinct ids
AnswerMatch == \A a, b \in 1..Len(act) : act[a].ty = "c" /\ act[b].ty = "c" /\ a # b => act[a].id # act[b].id
AnswerOnce == \A a \in 1..Len(act) : act[a].ty = "c" /\ act[a].fr => so[act[a].s].id = act[a].id /\ ~so[act[a].s].push
\* C06: what a consumer has received is in order and without repetition
InOrder == \A a \in 1..Len(act) : \A i, j \in 1..Len(act[a].rcv) : i < j => act[a].rcv[i] < act[a].rcv[j]
\* C07: on the wire, nothing follows the final frame of a stream but a reset
Final(k) == k \notin {"S"}
NothingAfterEnd == \A s \in 1..Len(wire) : \A i, j \in 1..Len(wire[s]) :
                     i < j /\ Final(wire[s][i]) => wire[s][j] = "R"
\* C09: fully closed exactly when both sides are finished, or the connection is closed
Released == \A s \in 1..Len(so) :
              \/ (rd.st = "settle" /\ rd.s = s)
              \/ so[s].full <=> ((so[s].cs /\ so[s].cp) \/ cl = "freed")
FullMeansCancelled == \A s \in 1..Len(so) : so[s].full => so[s].ctx
OneLivePerKey == \A i, j \in 1..Len(so) : i # j /\ ~so[i].full /\ ~so[j].full =>
                    <<so[i].id, so[i].push>> # <<so[j].id, so[j].push>>
\* C10: the reader is only ever held up by somebody alive who can go on:
\* an unfinished blocking handler, a live consumer, or a handler yet to answer
HeldUp ==
  Quiescent /\ Open /\ inq # <<>> =>
    \/ rd.st = "gate" /\ act[rd.h].st # "end"
    \/ rd.st = "deliver" /\ \E a \in 1..Len(act) :
                                 \/ act[a].s = rd.s /\ act[a].st = "run"
                                 \/ act[a].ty = "c" /\ act[a].id = so[rd.s].id
    \/ rd.st = "wait"
\* C02: nobody waits on a closed connection
NoWaitWhenClosed == cl \in {"closed", "freed"} => \A a \in 1..Len(act) : act[a].st # "wait"
WaitRegistered == \A a \in 1..Len(act) : act[a].st = "wait" => act[a].pend
\* C15
InflightOK == MaxInflight > 0 /\ Open => Cardinality(NBRunning) <= MaxInflight
\* C02/C12 liveness: a closed connection is torn down when its handlers are over
TornDown == (~Open /\ RunningHandlers = {}) ~> (down \/ RunningHandlers # {})
WriteReturns == \A a \in 1..(MaxPeer + MaxOwn) :
           (a <= Len(act) /\ act[a].w > 0) ~> (a <= Len(act) /\ act[a].w = 0)
\* a receiver on a finished or closed stream is woken
Woken == \A a \in 1..(MaxPeer + MaxOwn) :
           (a <= Len(act) /\ act[a].st = "recv" /\ (so[act[a].s].cp \/ ~Open))
              ~> (a <= Len(act) /\ act[a].st # "recv")

CoreView == core
GenView == <<core, IF Quiescent /\ bst = 0 THEN <<>> ELSE hist>>
=============================================================================
