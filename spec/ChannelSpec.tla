----------------------------- MODULE ChannelSpec ------------------------------
(* Channels.  One has two directions, "i" from the side that opened it, the
   initiator, and "r" from the side that serves it, the responder.  It exists
   for the responder once the initiator has sent a message.  The responder's
   direction ends at the latest when its handler returns.                      *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES
  ch,    \* channel -> [d: direction -> see NewDir, hret: the handler of the responder returned]
  cut    \* the network connection is lost
cvars == <<ch, cut>>
CPut(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
NewDir == [out |-> <<>>,      \* messages: [k, cmd, sure: it was sent without an error]
           n |-> 0,           \* received
           ended |-> FALSE, eok |-> FALSE,   \* the sender ended it; End succeeded
           any |-> FALSE,     \* a message was sent
           busy |-> "no",     \* the sender's call in progress: "send", "late" (after the end), "end", "end2"
           ctx |-> FALSE, recv |-> FALSE]    \* a Receive is in progress, and its context ended
CInit == ch = <<>> /\ cut = FALSE
New(p) == ch' = CPut(ch, p, [d |-> [x \in {"i", "r"} |-> NewDir], hret |-> FALSE]) /\ UNCHANGED cut
D(p, d) == ch[p].d[d]
Upd(p, d, v) == ch' = [ch EXCEPT ![p].d[d] = v] /\ UNCHANGED cut
\* the other side is there
There(p) == ~cut /\ ~ch[p].hret

SendCall(p, d, k, cmd, last) ==
  LET x == D(p, d) IN
  /\ x.busy = "no"
  /\ Upd(p, d, IF x.ended THEN [x EXCEPT !.busy = "late"]
               ELSE [x EXCEPT !.busy = "send", !.out = Append(@, [k |-> k, cmd |-> cmd]), !.ended = last, !.any = TRUE])
SendRet(p, d, ok) ==
  LET x == D(p, d) IN
  /\ x.busy \in {"send", "late"}
  /\ IF x.busy = "late" THEN ~ok ELSE ok \/ ~There(p)
  /\ Upd(p, d, [x EXCEPT !.busy = "no"])
EndCall(p, d) == LET x == D(p, d) IN x.busy = "no" /\ Upd(p, d, [x EXCEPT !.busy = IF x.eok THEN "end2" ELSE "end", !.ended = TRUE])
\* the initiator hears that it ended it before; nothing is to be said about the end after a last message
EndRet(p, d, ok, after) ==
  LET x == D(p, d) IN
  /\ x.busy \in {"end", "end2"}
  /\ x.busy = "end2" /\ d = "i" => ~ok
  /\ ~ok => x.busy = "end2" \/ after \/ ~There(p)
  /\ Upd(p, d, [x EXCEPT !.busy = "no", !.eok = TRUE])

RecvCall(p, d) == ~D(p, d).recv /\ Upd(p, d, [D(p, d) EXCEPT !.recv = TRUE, !.ctx = FALSE])
RecvCtx(p, d) == Upd(p, d, [D(p, d) EXCEPT !.ctx = TRUE])
\* the next message; cmd = -1: the receiver did not ask for it
Got(p, d, k, cmd) ==
  LET x == D(p, d) IN
  /\ x.recv /\ x.n < Len(x.out) /\ x.out[x.n + 1].k = k /\ (cmd # -1 => x.out[x.n + 1].cmd = cmd)
  /\ Upd(p, d, [x EXCEPT !.n = @ + 1, !.recv = FALSE])
AtEnd(p, d) == LET x == D(p, d) IN x.n = Len(x.out) /\ (x.ended \/ (d = "r" /\ ch[p].hret))
Finished(p, d) == /\ D(p, d).recv /\ (cut \/ AtEnd(p, d)) /\ Upd(p, d, [D(p, d) EXCEPT !.recv = FALSE])
\* why: "ctx", "none" (the initiator sent nothing) or something else
RecvErr(p, d, why) ==
  /\ D(p, d).recv
  /\ CASE why = "ctx" -> D(p, d).ctx
       [] why = "none" -> d = "r" /\ (~D(p, "i").any \/ cut)
       [] OTHER -> cut
  /\ Upd(p, d, [D(p, d) EXCEPT !.recv = FALSE])
HandlerRet(p) == /\ ch' = [ch EXCEPT ![p].hret = TRUE] /\ UNCHANGED cut
Cut == cut' = TRUE /\ UNCHANGED ch
\* at rest no call goes on but a Receive for which there is nothing
CRest == /\ \A p \in DOMAIN ch, d \in {"i", "r"} :
               /\ D(p, d).busy = "no"
               /\ D(p, d).recv => ~cut /\ ~D(p, d).ctx /\ D(p, d).n = Len(D(p, d).out) /\ ~AtEnd(p, d)
         /\ UNCHANGED cvars
===============================================================================
