------------------------------- MODULE ApiPool --------------------------------
(* How the pool does it: one slot for each endpoint, a set of connections for
   calls that do not care, and a lock around dialling.  Checked against
   ApiSpec: no step does what ApiSpec does not allow.                          *)
EXTENDS ApiSpec, TLC
CONSTANTS NEps, NCalls, Kinds, MaxNet, MaxCause, MaxCancel, MayClose
VARIABLES
  conns, active, mu,       \* slots, the set, who holds the lock
  pclosed, kill, cpc,      \* the pool is closed; connections Close closes; where Close is
  pc, idx, cn, act, todo,  \* of each call: where it is, endpoint, connection, it goes through the set, what is left of it
  dead,                    \* connections that know that they are closed
  nt, bad                  \* answers so far; the step that was not allowed
pvars == <<conns, active, mu, pclosed, kill, cpc, pc, idx, cn, act, todo, dead, nt, bad>>
allvars == <<avars, pvars>>
Calls == 1..NCalls
Must(name, guard, step) == IF guard THEN step /\ UNCHANGED bad ELSE UNCHANGED avars /\ bad' = name

PInit ==
  /\ neps = NEps /\ ready = TRUE /\ dialing = {} /\ op = <<>> /\ closing = FALSE /\ closed = FALSE /\ cok = FALSE
  \* all endpoints but the last were dialled with success
  /\ nets = [n \in 1..(NEps - 1) |-> [ep |-> n, why |-> FALSE, closed |-> FALSE, used |-> TRUE, told |-> FALSE]]
  /\ conns = [e \in 1..NEps |-> IF e < NEps THEN e ELSE 0] /\ active = 1..(NEps - 1) /\ mu = 0
  /\ pclosed = FALSE /\ kill = {} /\ cpc = "idle" /\ dead = {} /\ nt = 0 /\ bad = ""
  /\ pc = [o \in Calls |-> "idle"] /\ idx = [o \in Calls |-> 0] /\ cn = [o \in Calls |-> 0]
  /\ act = [o \in Calls |-> FALSE] /\ todo = [o \in Calls |-> {}]
Go(o, p) == pc' = [pc EXCEPT ![o] = p]

Start(o) == /\ pc[o] = "idle" /\ (o > 1 => pc[o - 1] # "idle") /\ \E k \in Kinds, e \in 1..NEps :
                 Call(o, k, IF k = "one" THEN e ELSE 0) /\ idx' = [idx EXCEPT ![o] = e]
            /\ Go(o, "load") /\ UNCHANGED <<conns, active, mu, pclosed, kill, cpc, cn, act, todo, dead, nt, bad>>
Load(o) == /\ pc[o] = "load" /\ cn' = [cn EXCEPT ![o] = conns[idx[o]]]
           /\ Go(o, IF conns[idx[o]] = 0 THEN "lock" ELSE "req1")
           /\ UNCHANGED <<avars, conns, active, mu, pclosed, kill, cpc, idx, act, todo, dead, nt, bad>>
\* a request, the first attempt or the second; when the network is gone it may get lost
Req(o) == /\ pc[o] \in {"req1", "req2"}
          /\ IF cn[o] \in dead THEN Go(o, IF pc[o] = "req1" THEN "drop1" ELSE "drop2") /\ UNCHANGED <<avars, bad>>
             ELSE /\ Go(o, "wait")
                  /\ \/ ~nets[cn[o]].closed /\ Must("sent", SentOn(cn[o], o), Sent(cn[o], o))
                     \/ Gone(cn[o]) /\ UNCHANGED <<avars, bad>>
          /\ UNCHANGED <<conns, active, mu, pclosed, kill, cpc, idx, cn, act, todo, dead, nt>>
Drop(o) == /\ pc[o] \in {"drop1", "drop2"} /\ mu = 0
           /\ conns' = [conns EXCEPT ![idx[o]] = IF @ = cn[o] THEN 0 ELSE @] /\ active' = active \ {cn[o]}
           /\ Go(o, IF pc[o] = "drop1" THEN "lock" ELSE "err")
           /\ UNCHANGED <<avars, mu, pclosed, kill, cpc, idx, cn, act, todo, dead, nt, bad>>
Lock(o) == /\ pc[o] = "lock" /\ mu = 0
           /\ IF conns[idx[o]] # 0
              THEN Go(o, "req2") /\ cn' = [cn EXCEPT ![o] = conns[idx[o]]] /\ UNCHANGED <<avars, bad, mu>>
              ELSE IF pclosed THEN Go(o, "err") /\ UNCHANGED <<avars, bad, cn, mu>>
              ELSE Go(o, "dialing") /\ mu' = o /\ cn' = cn /\ Must("dial", DialOn(idx[o]), Dial(idx[o]))
           /\ UNCHANGED <<conns, active, pclosed, kill, cpc, idx, act, todo, dead, nt>>
Dialed(o) == /\ pc[o] = "dialing"
             /\ \/ DialFail(idx[o]) /\ mu' = 0 /\ Go(o, "err") /\ cn' = cn
                \/ LET n == Cardinality(DOMAIN nets) + 1 IN
                   n <= MaxNet /\ DialOK(idx[o], n) /\ cn' = [cn EXCEPT ![o] = n] /\ Go(o, "store") /\ mu' = mu
             /\ UNCHANGED <<conns, active, pclosed, kill, cpc, idx, act, todo, dead, nt, bad>>
Store(o) == /\ pc[o] = "store" /\ conns' = [conns EXCEPT ![idx[o]] = cn[o]] /\ active' = active \cup {cn[o]} /\ mu' = 0 /\ Go(o, "req2")
            /\ UNCHANGED <<avars, pclosed, kill, cpc, idx, cn, act, todo, dead, nt, bad>>
Wait(o) == /\ pc[o] = "wait"
           /\ \/ /\ cn[o] \in DOMAIN op[o].ans
                 /\ LET t == op[o].ans[cn[o]] IN
                    Must("answer", IF op[o].kind = "one" THEN GoodFrom(o, op[o].ep, t) ELSE \E e \in 1..NEps : GoodFrom(o, e, t), Ret(o, TRUE, t))
                 /\ Go(o, "done")
              \/ /\ cn[o] \in op[o].reset \/ cn[o] \in dead \/ op[o].ctx
                 /\ Go(o, "err") /\ UNCHANGED <<avars, bad>>
           /\ UNCHANGED <<conns, active, mu, pclosed, kill, cpc, idx, cn, act, todo, dead, nt>>
\* a call that does not care goes through the set
Err(o) == /\ pc[o] = "err"
          /\ IF op[o].kind = "any" /\ ~op[o].ctx /\ ~act[o]
             THEN act' = [act EXCEPT ![o] = TRUE] /\ todo' = [todo EXCEPT ![o] = active] /\ UNCHANGED <<avars, bad, idx, cn, pc>>
             ELSE /\ act' = act
                  /\ IF op[o].kind = "any" /\ ~op[o].ctx /\ todo[o] # {}
                     THEN /\ \E n \in todo[o] :
                               /\ todo' = [todo EXCEPT ![o] = @ \ {n}]
                               /\ IF n \in active THEN Go(o, "req1") /\ idx' = [idx EXCEPT ![o] = nets[n].ep] /\ cn' = [cn EXCEPT ![o] = n]
                                  ELSE UNCHANGED <<pc, idx, cn>>
                          /\ UNCHANGED <<avars, bad>>
                     ELSE /\ Must("error", IF op[o].kind = "one" THEN Excuse(o, op[o].ep) ELSE ExcuseAny(o), Ret(o, FALSE, 0))
                          /\ Go(o, "done") /\ UNCHANGED <<todo, idx, cn>>
          /\ UNCHANGED <<conns, active, mu, pclosed, kill, cpc, dead, nt>>

CloseStart == /\ MayClose /\ cpc = "idle" /\ CloseCall /\ pclosed' = TRUE /\ cpc' = "lock"
              /\ UNCHANGED <<conns, active, mu, kill, pc, idx, cn, act, todo, dead, nt, bad>>
CloseLock == /\ cpc = "lock" /\ mu = 0 /\ kill' = active /\ dead' = dead \cup active /\ cpc' = "ret"
             /\ UNCHANGED <<avars, conns, active, mu, pclosed, pc, idx, cn, act, todo, nt, bad>>
CloseDone == /\ cpc = "ret" /\ Must("close", dialing = {}, CloseRet(TRUE)) /\ cpc' = "done"
             /\ UNCHANGED <<conns, active, mu, pclosed, kill, pc, idx, cn, act, todo, dead, nt>>

\* connections end
CloseNet(n) == /\ n \in DOMAIN nets /\ ~nets[n].closed /\ (nets[n].why \/ n \in kill)
               /\ Must("netclose", NetCloseOn(n), NetClose(n))
               /\ UNCHANGED <<conns, active, mu, pclosed, kill, cpc, pc, idx, cn, act, todo, dead, nt>>
Die(n) == /\ n \in DOMAIN nets /\ nets[n].closed /\ n \notin dead /\ dead' = dead \cup {n}
          /\ UNCHANGED <<avars, conns, active, mu, pclosed, kill, cpc, pc, idx, cn, act, todo, nt, bad>>
\* the endpoints
Ans(o, n) == /\ o \in DOMAIN op /\ n \in op[o].sent \ op[o].reset /\ ~Gone(n) /\ n \notin DOMAIN op[o].ans
             /\ ((nt' = nt + 1 /\ Answer(n, o, nt')) \/ (nt' = nt /\ PeerReset(n, o)))
             /\ UNCHANGED <<conns, active, mu, pclosed, kill, cpc, pc, idx, cn, act, todo, dead, bad>>
Cut(n) == /\ n \in DOMAIN nets /\ ~nets[n].why /\ Cardinality({m \in DOMAIN nets : nets[m].why}) < MaxCause /\ Cause(n) /\ UNCHANGED pvars
Stop(o) == /\ o \in DOMAIN op /\ Open(o) /\ ~op[o].ctx /\ Cardinality({x \in DOMAIN op : op[x].ctx}) < MaxCancel /\ Cancel(o) /\ UNCHANGED pvars

Step(o) == Load(o) \/ Req(o) \/ Drop(o) \/ Lock(o) \/ Dialed(o) \/ Store(o) \/ Wait(o) \/ Err(o)
Closing == CloseLock \/ CloseDone
PNext == (\E o \in Calls : Start(o) \/ Step(o) \/ Stop(o)) \/ CloseStart \/ Closing
         \/ (\E n \in DOMAIN nets : CloseNet(n) \/ Die(n) \/ Cut(n) \/ \E o \in Calls : Ans(o, n))
PSpec == PInit /\ [][PNext]_allvars /\ (\A o \in Calls : WF_allvars(Step(o))) /\ WF_allvars(Closing)
         /\ (\A n \in 1..MaxNet : WF_allvars(CloseNet(n)) /\ WF_allvars(Die(n)) /\ \A o \in Calls : WF_allvars(Ans(o, n)))
------------------------------------------------------------------------------
Allowed == bad = ""
OneUsable == \A m, n \in DOMAIN nets : m # n /\ nets[m].ep = nets[n].ep => Gone(m) \/ Gone(n)
Returns == \A o \in Calls : pc[o] = "load" ~> pc[o] = "done"
CloseEnds == cpc = "lock" ~> (cpc = "done" /\ \A n \in DOMAIN nets : nets[n].closed)
==============================================================================
