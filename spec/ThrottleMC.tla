----------------------------- MODULE ThrottleMC ------------------------------
(* ThrottleSpec with a small environment: two bindings, NConn connections of the
   first and one of the second, NOps calls that set and clear, NReq requests per
   connection.                                                                *)
EXTENDS ThrottleSpec, TLC
CONSTANTS NConn, NOps, NReq,
  Small   \* connections exist and stay
VARIABLES nops, nreq
mvars == <<tvarsT, nops, nreq>>
Conns == 1..(NConn + 1)
Bind(c) == IF c <= NConn THEN 0 ELSE 1
MInit ==
  /\ IF Small
     THEN /\ th = [b \in {0, 1} |-> FALSE] /\ al = [b \in {0, 1} |-> "in"] /\ more = [b \in {0, 1} |-> 0]
          /\ cn = [c \in Conns |-> [N0 EXCEPT !.b = Bind(c), !.st = "live"]] /\ op = <<>> /\ sd = FALSE
     ELSE ThInit(Conns, {0, 1})
  /\ nops = 0 /\ nreq = [c \in Conns |-> 0]
Env ==
  \/ /\ nops < NOps /\ nops' = nops + 1 /\ UNCHANGED nreq
     /\ \/ SetCall(nops + 1, 0) \/ ClrCall(nops + 1, 0)
  \/ \E c \in Conns : nreq[c] < NReq /\ nreq' = [nreq EXCEPT ![c] = @ + 1] /\ UNCHANGED nops
                      /\ \E nb \in BOOLEAN : Send(c, nreq[c] + 1, nb)
  \/ \E c \in Conns : Offer(c, Bind(c)) /\ UNCHANGED <<nops, nreq>>
  \/ \E c \in Conns : ~Small /\ ~cn[c].why /\ cn[c].st = "live" /\ Cause(c) /\ UNCHANGED <<nops, nreq>>
  \/ ~sd /\ SdCall(1000) /\ UNCHANGED <<nops, nreq>>
Lib == /\ UNCHANGED <<nops, nreq>>
       /\ \/ HiddenT
          \/ \E o \in DOMAIN op : ThRet(o) \/ SdRet(o)
          \/ \E b \in {0, 1} : AcceptCall(b)
          \/ \E c \in Conns : Accept(c) \/ Closes(c) \/ OnClose(c)
          \/ \E c \in Conns, r \in 1..NReq : Start(c, r)
Handlers == /\ UNCHANGED <<nops, nreq>>
            /\ \E c \in Conns, r \in 1..NReq : HEnd(c, r)
MNext == Env \/ Lib \/ Handlers
Env0 == UNCHANGED <<nops, nreq>>
ConnStep(c) == Read(c) \/ PassR(c) \/ Accept(c) \/ Closes(c) \/ OnClose(c) \/ \E r \in 1..NReq : Start(c, r) \/ HEnd(c, r)
Fair == /\ \A c \in Conns : WF_mvars(Env0 /\ ConnStep(c))
        /\ \A b \in {0, 1} : WF_mvars(Env0 /\ (PassA(b) \/ AcceptCall(b)))
        /\ WF_mvars(Env0 /\ \E o \in DOMAIN op : Effect(o) \/ ThRet(o) \/ SdRet(o))
MSpec == MInit /\ [][MNext]_mvars /\ Fair
Closed(c) == cn[c].why \/ sd
\* cleared for good, everything continues; the other binding always does
Continues == \A c \in Conns :
  (cn[c].st # "none" /\ cn[c].q # <<>>) ~> (cn[c].q = <<>> \/ Closed(c) \/ th[cn[c].b])
OtherContinues == \A c \in Conns : Bind(c) = 1 => ((cn[c].st # "none" /\ cn[c].q # <<>>) ~> (cn[c].q = <<>> \/ Closed(c)))
ShutdownReturns == (1000 \in DOMAIN op) ~> (1000 \notin DOMAIN op)
=============================================================================
