---------------------------- MODULE ThrottleSpec -----------------------------
(* Throttling of bindings (C18).  Every binding has a loop that accepts
   connections, every connection a reader; both look at the throttle before they
   go on, and having passed it take at most one connection or request.
   Visible actions are calls, returns and what the peer and handlers see;
   hidden are the moments at which a call takes effect, at which a loop passes
   the throttle and at which a request is read.
   ThrottleMC checks the guarantees of this specification exhaustively,
   ThrottleTrace recorded traces against it.                                  *)
EXTENDS Naturals, Sequences, FiniteSets

VARIABLES
  th,    \* binding -> throttle set?
  al,    \* binding -> accept loop: "check", "ready", "in"
  more,  \* binding -> connections accepted since the throttle was set
  cn,    \* connection -> [b, st, why, rd, q, in, run, more, blk, over, srvd]
  op,    \* calls in progress: o -> [kind, b/c, done]
  sd     \* shutdown was called

tvarsT == <<th, al, more, cn, op, sd>>

\* st: "none", "offered", "live", "dead"; rd: reader "check", "ready", "busy"
\* q: requests sent, not read; in: read, not started; run: started; blk: the blocking one being handled; more: requests read since the throttle was set
N0 == [b |-> 0, st |-> "none", why |-> FALSE, rd |-> "ready", q |-> <<>>, in |-> {}, run |-> {}, more |-> 0, blk |-> 0, over |-> FALSE, srvd |-> FALSE]

PutT(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
DropT(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

ThInit(C, B) ==
  /\ th = [b \in B |-> FALSE] /\ al = [b \in B |-> "check"] /\ more = [b \in B |-> 0]
  /\ cn = [c \in C |-> N0] /\ op = <<>> /\ sd = FALSE

\* the throttle is set and cleared
SetCall(o, b) == op' = PutT(op, o, [kind |-> "set", b |-> b, done |-> FALSE]) /\ UNCHANGED <<th, al, more, cn, sd>>
ClrCall(o, b) == op' = PutT(op, o, [kind |-> "clr", b |-> b, done |-> FALSE]) /\ UNCHANGED <<th, al, more, cn, sd>>
Effect(o) ==    \* hidden
  /\ op[o].kind \in {"set", "clr"} /\ ~op[o].done
  /\ LET b == op[o].b  on == op[o].kind = "set" IN
     /\ th' = [th EXCEPT ![b] = on]
     /\ more' = [more EXCEPT ![b] = IF on /\ ~th[b] THEN 0 ELSE @]
     /\ cn' = [c \in DOMAIN cn |-> IF cn[c].b = b /\ on /\ ~th[b] THEN [cn[c] EXCEPT !.more = 0] ELSE cn[c]]
  /\ op' = [op EXCEPT ![o].done = TRUE]
  /\ UNCHANGED <<al, sd>>
ThRet(o) == op[o].kind \in {"set", "clr"} /\ op[o].done /\ op' = DropT(op, o) /\ UNCHANGED <<th, al, more, cn, sd>>

\* accepting
PassA(b) ==     \* hidden
  /\ al[b] = "check" /\ (~th[b] \/ sd)
  /\ al' = [al EXCEPT ![b] = "ready"] /\ UNCHANGED <<th, more, cn, op, sd>>
AcceptCall(b) == al[b] = "ready" /\ al' = [al EXCEPT ![b] = "in"] /\ UNCHANGED <<th, more, cn, op, sd>>
AcceptErr(b) == al[b] = "in" /\ al' = [al EXCEPT ![b] = "check"] /\ UNCHANGED <<th, more, cn, op, sd>>
Offer(c, b) ==
  /\ cn[c].st = "none"
  /\ cn' = [cn EXCEPT ![c].st = "offered", ![c].b = b] /\ UNCHANGED <<th, al, more, op, sd>>
Accept(c) ==
  LET b == cn[c].b IN
  /\ cn[c].st = "offered" /\ al[b] = "in"
  /\ al' = [al EXCEPT ![b] = "check"]
  /\ more' = [more EXCEPT ![b] = @ + 1]
  /\ cn' = [cn EXCEPT ![c].st = "live"]
  /\ UNCHANGED <<th, op, sd>>

\* requests
Send(c, r, nb) ==
  /\ cn' = [cn EXCEPT ![c].q = Append(@, [r |-> r, nb |-> nb])] /\ UNCHANGED <<th, al, more, op, sd>>
PassR(c) ==     \* hidden
  /\ cn[c].st = "live" /\ cn[c].rd = "check"
  /\ ~th[cn[c].b] \/ cn[c].why \/ sd     \* what it reads while it is being closed does not matter
  /\ cn' = [cn EXCEPT ![c].rd = "ready"] /\ UNCHANGED <<th, al, more, op, sd>>
Read(c) ==      \* hidden
  /\ cn[c].st = "live" /\ cn[c].rd = "ready" /\ cn[c].q # <<>>
  /\ LET f == Head(cn[c].q) IN
     cn' = [cn EXCEPT ![c].q = Tail(@), ![c].in = @ \cup {f.r}, ![c].more = @ + 1,
                      ![c].rd = IF f.nb THEN "check" ELSE "busy",
                      ![c].blk = IF f.nb THEN 0 ELSE f.r]
  /\ UNCHANGED <<th, al, more, op, sd>>
Start(c, r) ==
  /\ r \in cn[c].in
  /\ cn' = [cn EXCEPT ![c].in = @ \ {r}, ![c].run = @ \cup {r}, ![c].srvd = TRUE]
  /\ UNCHANGED <<th, al, more, op, sd>>
HEnd(c, r) ==
  /\ r \in cn[c].run
  /\ cn' = [cn EXCEPT ![c].run = @ \ {r}, ![c].rd = IF r = cn[c].blk THEN "check" ELSE @, ![c].blk = IF r = @ THEN 0 ELSE @]
  /\ UNCHANGED <<th, al, more, op, sd>>

\* ends
Cause(c) == cn' = [cn EXCEPT ![c].why = TRUE] /\ UNCHANGED <<th, al, more, op, sd>>
Closes(c) == /\ cn[c].st \in {"offered", "live"} /\ (cn[c].why \/ sd)
             /\ cn' = [cn EXCEPT ![c].st = "dead"] /\ UNCHANGED <<th, al, more, op, sd>>
\* OnClose is called, and has been called in time
OnClose(c) == /\ cn[c].st = "dead" /\ ~cn[c].over /\ cn[c].run = {}
              /\ cn' = [cn EXCEPT ![c].over = TRUE] /\ UNCHANGED <<th, al, more, op, sd>>
Gone(c) == cn[c].over /\ UNCHANGED tvarsT
CloseCall(o, c) == /\ op' = PutT(op, o, [kind |-> "close", c |-> c])
                   /\ cn' = [cn EXCEPT ![c].why = TRUE] /\ UNCHANGED <<th, al, more, sd>>
CloseRet(o) == op[o].kind = "close" /\ cn[op[o].c].st = "dead" /\ op' = DropT(op, o) /\ UNCHANGED <<th, al, more, cn, sd>>
SdCall(o) == op' = PutT(op, o, [kind |-> "sd"]) /\ sd' = TRUE /\ UNCHANGED <<th, al, more, cn>>
SdRet(o) == /\ op[o].kind = "sd"
            /\ \A c \in DOMAIN cn : cn[c].srvd => cn[c].st = "dead" /\ cn[c].over
            /\ op' = DropT(op, o) /\ UNCHANGED <<th, al, more, cn, sd>>

\* nothing is left to do for a binding that is not throttled
Settled(b) ==
  /\ ~th[b]
  /\ \A c \in DOMAIN cn : cn[c].b = b /\ cn[c].st # "none" /\ ~cn[c].why =>
        /\ cn[c].st = "live" /\ cn[c].q = <<>> /\ cn[c].in = {}
  /\ UNCHANGED tvarsT
\* after everything
EndedT == op = <<>> /\ (\A c \in DOMAIN cn : cn[c].st # "live") /\ UNCHANGED tvarsT

HiddenT == \/ \E o \in DOMAIN op : Effect(o)
           \/ \E b \in DOMAIN al : PassA(b)
           \/ \E c \in DOMAIN cn : PassR(c) \/ Read(c)

\* C18: having been set, at most one connection and one request of each connection
AtMostOneMore ==
  /\ \A b \in DOMAIN th : th[b] /\ ~sd => more[b] <= 1
  /\ \A c \in DOMAIN cn : th[cn[c].b] /\ ~cn[c].why /\ ~sd => cn[c].more <= 1
=============================================================================
