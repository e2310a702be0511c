------------------------------ MODULE LimitMC -------------------------------
(* LimitSpec with a small environment. *)
EXTENDS LimitSpec, TLC
CONSTANTS QPS, Inflight, NFrames, MaxTime, Kinds
VARIABLES n, log
mvars == <<lvars, n, log>>
Init == LInit /\ n = 0 /\ log = <<>>
\* log: the counted frames that were read, with their time

Next ==
  \/ lim.qps = 0 /\ lim.inflight = 0 /\ Conf(0, QPS, Inflight) /\ UNCHANGED <<n, log>>
  \/ /\ <<lim.qps, lim.inflight>> = <<QPS, Inflight>>
     /\ \/ n < NFrames /\ n' = n + 1 /\ UNCHANGED log /\ \E t \in {now, now + 1}, k \in Kinds : t <= MaxTime /\ SendF(t, n + 1, k)
        \/ UNCHANGED n /\ \E t \in {now, now + 1} : t <= MaxTime /\ ReadAt(t)
                          /\ log' = IF Counted(Head(sent)[2]) THEN Append(log, t) ELSE log
        \/ UNCHANGED <<n, log>> /\ (Pass \/ Free \/ Closes(now) \/ \E f \in 1..NFrames : Start(now, f) \/ HEnd(now, f))
Spec == Init /\ [][Next]_mvars /\ WF_mvars(UNCHANGED <<n, log>> /\ Closes(now)) /\ WF_mvars(UNCHANGED <<n, log>> /\ Pass)
        /\ WF_mvars(UNCHANGED <<n, log>> /\ Free) /\ WF_mvars(UNCHANGED <<n, log>> /\ \E f \in 1..NFrames : Start(now, f))
        /\ WF_mvars(UNCHANGED <<n, log>> /\ \E f \in 1..NFrames : HEnd(now, f))
        /\ WF_mvars(UNCHANGED n /\ ReadAt(now) /\ log' = IF Counted(Head(sent)[2]) THEN Append(log, now) ELSE log)
In(s) == Cardinality({j \in 1..Len(log) : log[j] = s})
\* closed for its rate exactly if in some second more than so many frames came
RateOnly == (over = "qps") <=> (QPS > 0 /\ \E s \in 0..MaxTime : In(s) > QPS)
\* and for its requests exactly if one more came than may be handled
InflightOnly == [][(over' = "inflight" /\ over = "") => Inflight > 0 /\ Cardinality(due \cup run) = Inflight]_mvars
Within == Inflight > 0 => Cardinality({f \in due \cup run : f[2] # "B"}) <= Inflight
DeadMeansOver == dead => over # ""
OverCloses == (over # "") ~> dead
AllHandled == \A f \in 1..NFrames : (\E x \in 1..Len(rd) : rd[x][1] = f) ~> (over # "" \/ \A x \in 1..Len(rd) : rd[x][1] # f)
=============================================================================
