---------------------------- MODULE ReconnectMC -----------------------------
(* ReconnectSpec with a small environment: NAddr addresses, at most MaxNet
   network connections that fail at most MaxCause times, NOps operations,
   MaxFail failing dials, NReq requests of the peer.                         *)
EXTENDS ReconnectSpec, TLC
CONSTANTS NAddr, Again, MaxNet, NOps, MaxFail, NReq, MayClose
VARIABLES nfail, up, down, ans   \* failed dials; OnConnect and OnDisconnect calls; answers
mvars == <<rvars, nfail, up, down, ans>>
MInit == RInit(NAddr, Again) /\ nfail = 0 /\ up = 0 /\ down = 0 /\ ans = 0
Same == UNCHANGED <<nfail, up, down, ans>>
NOp == Cardinality(DOMAIN op)
Env ==
  \/ NOp < NOps /\ Same /\ \E b \in {0, cur}, w \in BOOLEAN : (b # 0 => ~w) /\ Call(NOp + 1, b, w)
  \/ Same /\ \E n \in DOMAIN nets : n < MaxNet /\ ~Gone(n) /\ Cause(n)
  \/ Same /\ MayClose /\ ~ccall /\ CloseCall
  \/ UNCHANGED <<nfail, up, down>> /\ ans < NOps /\ ans' = ans + 1
     /\ \E o \in DOMAIN op, l \in BOOLEAN : op[o].w /\ op[o].net # 0 /\ Answer(op[o].net, o, <<op[o].net, o>>, l)
  \/ Same /\ \E h \in 1..NReq : h \notin DOMAIN hd /\ cur > 0 /\ PeerReq(cur, h)
  \/ UNCHANGED <<up, down, ans>> /\ nfail < MaxFail /\ nfail' = nfail + 1 /\ DialFail
DialSome == Same /\ (\E a \in 1..NAddr : Dial(a))
Ok == Same /\ cur < MaxNet /\ DialOK(cur + 1)
Con == up' = up + 1 /\ UNCHANGED <<nfail, down, ans>> /\ OnConnect
Dis == down' = down + 1 /\ UNCHANGED <<nfail, up, ans>> /\ OnDisconnect
ClosesNet == Same /\ \E n \in DOMAIN nets : NetClose(n)
Hid == Same /\ RHidden
Op == Same /\ \E o \in DOMAIN op : (Sent(cur, o) \/ (\E ok \in BOOLEAN : Ret(o, ok)))
Take == Same /\ \E o \in DOMAIN op : GotEnd(o) \/ (op[o].w /\ \E t \in {<<n, o>> : n \in DOMAIN nets} : Got(o, t))
Serve == Same /\ \E h \in DOMAIN hd : (~Gone(hd[h].net) /\ HStart(h)) \/ HEnd(h)
W == Same /\ ~waited /\ WaitRet
Lib == DialSome \/ Ok \/ Con \/ Dis \/ ClosesNet \/ Hid \/ Op \/ Take \/ Serve \/ W
MNext == Env \/ Lib
MSpec == MInit /\ [][MNext]_mvars /\ WF_mvars(DialSome) /\ WF_mvars(Ok) /\ WF_mvars(Con) /\ WF_mvars(Dis) /\ WF_mvars(ClosesNet)
         /\ WF_mvars(Hid) /\ WF_mvars(Op) /\ WF_mvars(Take) /\ WF_mvars(Serve) /\ WF_mvars(W)
\* one pair of callbacks per network connection
Alternate == up - down = (IF phase = "up" /\ conn THEN 1 ELSE 0) /\ up = (IF phase = "up" /\ ~conn THEN cur - 1 ELSE cur)
NoDialOnceClosed == [][phase = "idle" /\ phase' = "dial" => ~closed]_mvars
\* at most one network connection is open, and none once Wait returned
OneOpen == /\ Cardinality({n \in DOMAIN nets : ~nets[n].closed}) <= 1
           /\ waited => closed /\ \A n \in DOMAIN nets : nets[n].closed
\* what a caller gets was answered on the network connection its request was sent on, which its frame may be sent on
NoCross == \A o \in DOMAIN op : /\ op[o].net # 0 => op[o].b \in {0, op[o].net}
                                /\ \A j \in 1..op[o].n : op[o].out[j][1] = op[o].net
InTurn == [][phase = "dial" /\ phase' = "dialing" /\ pos >= NAddr => order' = order]_mvars
\* every call returns, every caller of a request on a lost network connection is told
Called(o) == o \in DOMAIN op /\ op[o].st = "called"
Lost(o) == o \in DOMAIN op /\ op[o].w /\ op[o].st = "sent" /\ Gone(op[o].net) /\ op[o].n < Len(op[o].out)
Returns == \A o \in 1..NOps : Called(o) ~> ~Called(o)
Told == \A o \in 1..NOps : Lost(o) ~> ~Lost(o)
Recovers == (phase = "idle" /\ mode.again) ~> (closed \/ (phase = "up" /\ conn))
ClosesItself == (phase = "idle" /\ cur > 0 /\ ~mode.again) ~> closed
CloseEnds == closed ~> waited
=============================================================================
