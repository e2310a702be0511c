-------------------------------- MODULE MuxMC -------------------------------
(* MuxSpec with a small environment. *)
EXTENDS MuxSpec, TLC
CONSTANTS NReg, NReq, Conns
VARIABLE trail   \* request -> what was called for it
mvars == <<mxvars, trail>>
MInit == MxInit(Conns) /\ trail = [q \in 1..NReq |-> <<>>]
Cmds == {0, 1, Base + 1, Base * 256}
Env == UNCHANGED trail /\
  \/ Cardinality(DOMAIN rc) < NReg /\ \E cmd \in Cmds, n \in BOOLEAN, m \in {<<>>, <<TRUE, FALSE>>, <<TRUE>>} : RegCall(Cardinality(DOMAIN rc) + 1, cmd, n, m)
  \/ Cardinality(DOMAIN rq) < NReq /\ \E c \in Conns, cmd \in Cmds \ {Base * 256} : Req(c, Cardinality(DOMAIN rq) + 1, cmd)
Lib == \/ UNCHANGED trail /\ (MxHidden \/ (\E r \in DOMAIN rc, ok \in BOOLEAN : RegRet(r, ok)) \/ \E c \in Conns : Shut(c))
       \/ \E q \in DOMAIN rq : /\ rq[q].r # 0
                               /\ \/ Handle(q, rq[q].r, rq[q].cmd) /\ trail' = [trail EXCEPT ![q] = Append(@, <<rq[q].r, 0>>)]
                                  \/ \E k \in 1..2 : Mw(q, rq[q].r, k, rq[q].cmd) /\ trail' = [trail EXCEPT ![q] = Append(@, <<rq[q].r, k>>)]
MNext == Env \/ Lib
MSpec == MInit /\ [][MNext]_mvars /\ WF_mvars(Lib)
\* the one handler of the routing command runs, after all of its middleware
Right == \A q \in DOMAIN rq : LET t == trail[q] IN
  /\ \A j \in 1..Len(t) : /\ Routing(rc[t[j][1]].cmd) = Routing(rq[q].cmd) /\ rc[t[j][1]].st \in {"done", "ret"}
                          /\ t[j][2] # 0 => t[j][2] = j
                          /\ j < Len(t) => t[j][2] # 0 /\ rc[t[j][1]].mws[j]
  /\ (t # <<>> /\ t[Len(t)][2] = 0) => Len(t) = Len(rc[t[1][1]].mws) + 1
Unknown == \A q \in DOMAIN rq : rq[q].st = "unknown" => cl[rq[q].c] # "open" /\ trail[q] = <<>>
OneEach == \A r, s \in DOMAIN rc : r # s /\ {rc[r].st, rc[s].st} \subseteq {"done"} => Routing(rc[r].cmd) # Routing(rc[s].cmd)
AllServed == \A q \in 1..NReq : (q \in DOMAIN rq) ~> (q \in DOMAIN rq /\ (rq[q].st \in {"handled", "refused"} \/ cl[rq[q].c] = "closed"))
=============================================================================
