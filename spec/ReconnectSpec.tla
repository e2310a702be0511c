--------------------------- MODULE ReconnectSpec ----------------------------
(* A client that dials again when its network connection is lost, and one that
   does not.  Network connections are numbered in the order in which they are
   established.

   Operations o put one frame each on the wire: a new request goes to whatever
   network connection there is; a further frame of a stream, the output of a
   handler and a reset belong to one.                                        *)
EXTENDS Naturals, Sequences, FiniteSets

VARIABLES
  mode,     \* [n |-> number of addresses, again |-> dials again]
  phase,    \* "idle", "dial" (decided to), "dialing", "up"
  order,    \* the addresses in the order in which they are dialled
  pos,      \* how many dials there were
  cur,      \* number of the latest network connection
  conn,     \* OnConnect was called for it
  nets,     \* network connection -> [why: something ends it, closed]
  flag,     \* the connection calls itself closed
  closed,   \* Close took effect
  ccall,    \* Close was called
  cok,      \* and is about to return without an error
  waited,   \* Wait returned
  op,       \* operation -> [b: network connection it belongs to or 0, w: its answer is waited for, net: where it was sent or 0, st, hurt, out, n, end]
  hd,       \* request of the peer -> [net, st]
  ps        \* network connection -> pushes of the peer not delivered yet
rvars == <<mode, phase, order, pos, cur, conn, nets, flag, closed, ccall, cok, waited, op, hd, ps>>

RPut(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
RInit(n, again) ==
  /\ mode = [n |-> n, again |-> again] /\ phase = "idle" /\ order = <<>> /\ pos = 0 /\ cur = 0 /\ conn = FALSE
  /\ nets = <<>> /\ flag = FALSE /\ closed = FALSE /\ ccall = FALSE /\ cok = FALSE /\ waited = FALSE /\ op = <<>> /\ hd = <<>> /\ ps = <<>>
RConf(n, again) == mode' = [n |-> n, again |-> again] /\ UNCHANGED <<phase, order, pos, cur, conn, nets, flag, closed, ccall, cok, waited, op, hd, ps>>

Gone(n) == nets[n].why \/ nets[n].closed
\* nothing stands in the way of a frame
Fine == phase = "up" /\ conn /\ ~Gone(cur) /\ ~ccall
\* calls in progress notice
Hurt(f) == [o \in DOMAIN f |-> IF f[o].st = "called" THEN [f[o] EXCEPT !.hurt = TRUE] ELSE f[o]]

------------------------------------------------------------------------------
\* connecting
Decide == /\ phase = "idle" /\ ~closed /\ (mode.again \/ cur = 0) /\ phase' = "dial"
          /\ UNCHANGED <<mode, order, pos, cur, conn, nets, flag, closed, ccall, cok, waited, op, hd, ps>>
\* the addresses take turns
Dial(a) == /\ phase = "dial" /\ phase' = "dialing" /\ pos' = pos + 1
           /\ IF Len(order) < mode.n THEN order' = Append(order, a) /\ \A j \in 1..Len(order) : order[j] # a
              ELSE order' = order /\ a = order[(pos % mode.n) + 1]
           /\ UNCHANGED <<mode, cur, conn, nets, flag, closed, ccall, cok, waited, op, hd, ps>>
DialFail == /\ phase = "dialing" /\ phase' = "idle"
            /\ UNCHANGED <<mode, order, pos, cur, conn, nets, flag, closed, ccall, cok, waited, op, hd, ps>>
DialOK(n) == /\ phase = "dialing" /\ phase' = "up" /\ n = cur + 1 /\ cur' = n /\ conn' = FALSE
             /\ nets' = RPut(nets, n, [why |-> FALSE, closed |-> FALSE]) /\ ps' = RPut(ps, n, <<>>)
             /\ UNCHANGED <<mode, order, pos, flag, closed, ccall, cok, waited, op, hd>>
OnConnect == /\ phase = "up" /\ ~conn /\ conn' = TRUE
             /\ UNCHANGED <<mode, phase, order, pos, cur, nets, flag, closed, ccall, cok, waited, op, hd, ps>>
\* the network fails or the peer goes away
Cause(n) == /\ nets' = [nets EXCEPT ![n].why = TRUE] /\ op' = Hurt(op)
            /\ UNCHANGED <<mode, phase, order, pos, cur, conn, flag, closed, ccall, cok, waited, hd, ps>>
NetClose(n) == /\ n = cur /\ phase = "up" /\ ~nets[n].closed /\ (nets[n].why \/ closed)
               /\ nets' = [nets EXCEPT ![n].closed = TRUE]
               /\ UNCHANGED <<mode, phase, order, pos, cur, conn, flag, closed, ccall, cok, waited, op, hd, ps>>
OnDisconnect == /\ phase = "up" /\ conn /\ nets[cur].closed /\ phase' = "idle"
                /\ UNCHANGED <<mode, order, pos, cur, conn, nets, flag, closed, ccall, cok, waited, op, hd, ps>>
\* without its network connection a connection that does not dial again closes itself
SelfClose == /\ ~mode.again /\ phase = "idle" /\ cur > 0 /\ ~flag /\ flag' = TRUE /\ closed' = TRUE /\ ccall' = TRUE /\ op' = Hurt(op)
             /\ UNCHANGED <<mode, phase, order, pos, cur, conn, nets, cok, waited, hd, ps>>
CloseCall == /\ ccall' = TRUE /\ op' = Hurt(op)
             /\ UNCHANGED <<mode, phase, order, pos, cur, conn, nets, flag, closed, cok, waited, hd, ps>>
Flag == ccall /\ ~flag /\ flag' = TRUE /\ UNCHANGED <<mode, phase, order, pos, cur, conn, nets, closed, ccall, cok, waited, op, hd, ps>>
CloseNow == flag /\ ~closed /\ closed' = TRUE /\ cok' = TRUE /\ UNCHANGED <<mode, phase, order, pos, cur, conn, nets, flag, ccall, waited, op, hd, ps>>
\* only the first one succeeds
CloseRet(ok) == flag /\ (ok => closed /\ cok) /\ cok' = (cok /\ ~ok) /\ UNCHANGED <<mode, phase, order, pos, cur, conn, nets, flag, closed, ccall, waited, op, hd, ps>>
WaitRet == /\ closed /\ phase = "idle" /\ (cur > 0 => nets[cur].closed) /\ \A h \in DOMAIN hd : hd[h].st # "started"
           /\ waited' = TRUE /\ UNCHANGED <<mode, phase, order, pos, cur, conn, nets, flag, closed, ccall, cok, op, hd, ps>>

------------------------------------------------------------------------------
\* operations; b: the network connection the frame belongs to, 0: any; w: somebody waits for an answer
Call(o, b, w) ==
  /\ op' = RPut(op, o, [b |-> b, w |-> w, net |-> 0, st |-> "called", hurt |-> ~Fine \/ (b # 0 /\ b # cur), out |-> <<>>, n |-> 0, end |-> FALSE])
  /\ UNCHANGED <<mode, phase, order, pos, cur, conn, nets, flag, closed, ccall, cok, waited, hd, ps>>
\* a frame is on a network connection
Sent(n, o) ==
  /\ phase = "up" /\ n = cur /\ ~nets[n].closed /\ op[o].net = 0
  /\ op[o].b \in {0, n}
  /\ op[o].st = "called" \/ Gone(n) \/ ccall
  /\ op' = [op EXCEPT ![o].net = n]
  /\ UNCHANGED <<mode, phase, order, pos, cur, conn, nets, flag, closed, ccall, cok, waited, hd, ps>>
\* it was sent if the call says so, and a call fails only when a network connection did, or for a stream that is gone
Ret(o, ok) ==
  /\ op[o].st = "called"
  /\ IF ok THEN op[o].net # 0 ELSE op[o].hurt
  /\ op' = [op EXCEPT ![o].st = IF ok THEN "sent" ELSE "failed"]
  /\ UNCHANGED <<mode, phase, order, pos, cur, conn, nets, flag, closed, ccall, cok, waited, hd, ps>>
\* a reset, of which nothing is sent when the stream is finished or unknown
RstRet(o, ok) ==
  /\ op[o].st = "called"
  /\ op' = [op EXCEPT ![o].st = IF ok THEN "sent" ELSE "failed"]
  /\ UNCHANGED <<mode, phase, order, pos, cur, conn, nets, flag, closed, ccall, cok, waited, hd, ps>>

\* the peer answers a request, with one frame or several
Answer(n, o, t, last) ==
  /\ op[o].net = n /\ ~op[o].end
  /\ op' = [op EXCEPT ![o] = [@ EXCEPT !.out = Append(@, t), !.end = last]]
  /\ UNCHANGED <<mode, phase, order, pos, cur, conn, nets, flag, closed, ccall, cok, waited, hd, ps>>
PeerReset(n, o) == op[o].net = n /\ op' = [op EXCEPT ![o].end = TRUE]
                   /\ UNCHANGED <<mode, phase, order, pos, cur, conn, nets, flag, closed, ccall, cok, waited, hd, ps>>
\* the caller gets the next frame of the answer
Got(o, t) == /\ op[o].n < Len(op[o].out) /\ op[o].out[op[o].n + 1] = t
             /\ op' = [op EXCEPT ![o].n = @ + 1]
             /\ UNCHANGED <<mode, phase, order, pos, cur, conn, nets, flag, closed, ccall, cok, waited, hd, ps>>
\* or sees that there will be none: the network connection is lost, or the peer ended the stream
GotEnd(o) == /\ op[o].st = "sent" /\ op[o].net # 0
             /\ nets[op[o].net].closed \/ Gone(op[o].net) \/ closed \/ (op[o].end /\ op[o].n = Len(op[o].out))
             /\ op' = [op EXCEPT ![o].st = "over"]
             /\ UNCHANGED <<mode, phase, order, pos, cur, conn, nets, flag, closed, ccall, cok, waited, hd, ps>>

\* requests and pushes of the peer
PeerReq(n, h) == hd' = RPut(hd, h, [net |-> n, st |-> "sent"])
                 /\ UNCHANGED <<mode, phase, order, pos, cur, conn, nets, flag, closed, ccall, cok, waited, op, ps>>
HStart(h) == hd[h].st = "sent" /\ ~waited /\ hd' = [hd EXCEPT ![h].st = "started"]
             /\ UNCHANGED <<mode, phase, order, pos, cur, conn, nets, flag, closed, ccall, cok, waited, op, ps>>
HEnd(h) == hd[h].st = "started" /\ hd' = [hd EXCEPT ![h].st = "ended"]
           /\ UNCHANGED <<mode, phase, order, pos, cur, conn, nets, flag, closed, ccall, cok, waited, op, ps>>
\* the context of a request ends with its network connection
HCtx(h) == hd[h].st = "started" /\ (Gone(hd[h].net) \/ closed) /\ UNCHANGED rvars
\* a handler that did not answer: its request is reset, where it came from
HReset(n, h) == /\ n = cur /\ hd[h].net = n /\ hd[h].st = "ended" /\ hd' = [hd EXCEPT ![h].st = "reset"]
                /\ UNCHANGED <<mode, phase, order, pos, cur, conn, nets, flag, closed, ccall, cok, waited, op, ps>>
PeerPush(n, p) == ps' = [ps EXCEPT ![n] = Append(@, p)]
                  /\ UNCHANGED <<mode, phase, order, pos, cur, conn, nets, flag, closed, ccall, cok, waited, op, hd>>
Sub(n, p) == n = cur /\ phase \in {"up", "idle"} /\ ps[n] # <<>> /\ Head(ps[n]) = p /\ ps' = [ps EXCEPT ![n] = Tail(@)]
             /\ UNCHANGED <<mode, phase, order, pos, cur, conn, nets, flag, closed, ccall, cok, waited, op, hd>>
IsClosed(b) == b = flag /\ UNCHANGED rvars

RHidden == Decide \/ SelfClose \/ Flag \/ CloseNow
\* at rest: everything was woken and delivered, and the connection is up, or closed for good
Rest ==
  /\ \A o \in DOMAIN op : op[o].st # "called" /\
       (op[o].st = "sent" /\ op[o].net # 0 /\ Gone(op[o].net) /\ op[o].w => op[o].end /\ op[o].n = Len(op[o].out))   \* callers of lost requests were told
  /\ \A n \in DOMAIN nets : Gone(n) => nets[n].closed
  /\ \A h \in DOMAIN hd : hd[h].st = "started" => ~Gone(hd[h].net) /\ ~closed
  /\ ~cok
  /\ IF closed THEN /\ waited /\ phase = "idle" /\ \A n \in DOMAIN nets : nets[n].closed
     ELSE /\ phase = "up" /\ conn /\ ~Gone(cur) /\ ps[cur] = <<>>
          /\ \A h \in DOMAIN hd : hd[h].net = cur => hd[h].st # "sent"
          /\ \A o \in DOMAIN op : op[o].net = cur /\ op[o].w /\ op[o].st = "sent" => op[o].n = Len(op[o].out)
  /\ UNCHANGED rvars
=============================================================================
