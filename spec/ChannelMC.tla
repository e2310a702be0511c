------------------------------ MODULE ChannelMC -------------------------------
(* One channel whose sides send, end and receive as they like.                 *)
EXTENDS ChannelSpec, TLC
CONSTANTS NMsg, MayCut
VARIABLE log   \* direction -> what was received, "finished" at the end
mvars == <<cvars, log>>
P == 1
Dirs == {"i", "r"}
MInit == /\ ch = (P :> [d |-> [x \in Dirs |-> NewDir], hret |-> FALSE]) /\ cut = FALSE /\ log = [d \in Dirs |-> <<>>]
Sent(d) == Len(D(P, d).out)
Seen == D(P, "i").n > 0     \* the handler runs
MaySend(d) == d = "r" => Seen /\ ~ch[P].hret
MayRecv(d) == d = "i" => ~ch[P].hret /\ D(P, "i").any
Sends(d) == /\ MaySend(d) /\ D(P, d).busy = "no"
            /\ \/ Sent(d) < NMsg /\ \E last \in BOOLEAN : SendCall(P, d, Sent(d) + 1, 0, last)
               \/ D(P, d).ended /\ SendCall(P, d, 99, 0, FALSE)
               \/ EndCall(P, d)
            /\ UNCHANGED log
SendsEnd(d) == /\ \E ok \in BOOLEAN : SendRet(P, d, ok) \/ EndRet(P, d, ok, FALSE)
               /\ UNCHANGED log
Recv(d) == /\ MayRecv(d) /\ (log[d] # <<>> => log[d][Len(log[d])] # 0) /\ RecvCall(P, d) /\ UNCHANGED log
Data(d) == \/ \E k \in 1..NMsg : Got(P, d, k, 0) /\ log' = [log EXCEPT ![d] = Append(@, k)]
           \/ Finished(P, d) /\ log' = [log EXCEPT ![d] = Append(@, 0)]
RecvEnd(d) == \/ Data(d)
              \/ \E w \in {"ctx", "none"} : RecvErr(P, d, w) /\ UNCHANGED log
Ctx(d) == D(P, d).recv /\ ~D(P, d).ctx /\ RecvCtx(P, d) /\ UNCHANGED log
Ret == Seen /\ ~ch[P].hret /\ D(P, "r").busy = "no" /\ ~D(P, "i").recv /\ HandlerRet(P) /\ UNCHANGED log
Lose == MayCut /\ ~cut /\ Cut /\ UNCHANGED log
MNext == (\E d \in Dirs : Sends(d) \/ SendsEnd(d) \/ Recv(d) \/ RecvEnd(d) \/ Ctx(d)) \/ Ret \/ Lose
MSpec == MInit /\ [][MNext]_mvars /\ \A d \in Dirs : WF_mvars(SendsEnd(d)) /\ WF_mvars(Recv(d)) /\ SF_mvars(Data(d))
-------------------------------------------------------------------------------
\* what is received is what was sent, in order, up to the end
InOrder == \A d \in Dirs : \A j \in 1..Len(log[d]) : log[d][j] = j \/ (log[d][j] = 0 /\ j = Len(log[d]))
EndAtEnd == \A d \in Dirs : ~cut /\ log[d] # <<>> /\ log[d][Len(log[d])] = 0 => Len(log[d]) = Sent(d) + 1 /\ (D(P, d).ended \/ ch[P].hret)
NothingLater == [][\A d \in Dirs : D(P, d).ended => Len(D(P, d).out)' = Len(D(P, d).out)]_mvars
\* the end is seen if the other side stays
SeesEnd == \A d \in Dirs : (D(P, d).ended /\ D(P, d).any) ~> (cut \/ (d = "i" /\ ch[P].hret) \/ (log[d] # <<>> /\ log[d][Len(log[d])] = 0))
===============================================================================
