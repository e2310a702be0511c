----------------------------- MODULE ServerSpec ------------------------------
(* What users of a server may rely on concerning its connections, their ids,
   callbacks and shutdown (C11, C12, C13, and the walks of C16): an abstract
   specification whose visible actions are the events observable at the API and
   at the network, and whose hidden actions are the moments at which a
   connection leaves the tables or an id is bound.

   ServerTrace checks recorded traces against it; ServerAlg refines it.       *)
EXTENDS Naturals, Sequences, FiniteSets

VARIABLES
  con,      \* connection -> record, see C0
  holder,   \* id -> connection holding it, 0: none (one binding)
  ops,      \* API calls in progress: op -> record
  nf,       \* functions given to NotifyWhenClose: k -> [c, must, ran]
  os,       \* functions given to OnShutdown: k -> [must, ran, early]
  sd,       \* "no", "called", "done": Shutdown
  sdn,      \* number of calls of Shutdown so far
  lns,      \* listener -> "none", "serving", "tracked", "closed"
  kos,      \* order numbers reported: records [x, seq, kick, ko]
  seq,      \* number of bindings of ids so far
  maxko     \* largest order number reported

svars == <<con, holder, ops, nf, os, sd, sdn, lns, kos, seq, maxko>>

C0 == [ acc |-> "none",   \* "offered", "taken" (by Accept), "live", "rej"
        b |-> 0,          \* listener
        why |-> FALSE,    \* there is a reason for it to end
        gone |-> FALSE,   \* not in the tables any more
        dead |-> FALSE,   \* its network connection is closed
        over |-> FALSE,   \* OnClose was called
        due |-> FALSE,    \* OnKickCB is to be called
        knk |-> FALSE,    \* OnKickCB was called
        known |-> FALSE,  \* known to be closed: later functions run at once
        seen |-> FALSE,   \* known to be in the tables
        id |-> 0,
        hs |-> {},        \* handlers running
        wr |-> {},        \* frames being written through writers of walks
        got |-> {} ]      \* and received

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Max(a, b) == IF a > b THEN a ELSE b

SInit(C, X, B) ==
  /\ con = [c \in C |-> C0] /\ holder = [x \in X |-> 0]
  /\ ops = <<>> /\ nf = <<>> /\ os = <<>>
  /\ sd = "no" /\ sdn = 0 /\ lns = [b \in B |-> "none"] /\ kos = {} /\ seq = 0 /\ maxko = 0

Live(c) == con[c].acc = "live"
Reason(c) == con[c].why \/ sd # "no"

\* what the lookups in progress may have seen, after holder changed to h
See(h) == [o \in DOMAIN ops |->
   IF ops[o].kind = "lookup" THEN [ops[o] EXCEPT !.seen = @ \cup {h[ops[o].x]}]
   ELSE IF ops[o].kind = "walkid"
   THEN [ops[o] EXCEPT !.seen = [j \in DOMAIN @ |-> @[j] \cup {h[ops[o].ids[j]]}]]
   ELSE ops[o]]

------------------------------------------------------------------------------
\* listeners and accepting
ServeCall(b) ==
  /\ lns[b] = "none" /\ lns' = [lns EXCEPT ![b] = "serving"]
  /\ UNCHANGED <<con, holder, ops, nf, os, sd, sdn, kos, seq, maxko>>
\* the library calls Accept
AcceptCall(b) ==
  /\ lns[b] \in {"serving", "tracked", "closed"}
  /\ lns' = [lns EXCEPT ![b] = IF @ = "serving" THEN "tracked" ELSE @]
  /\ UNCHANGED <<con, holder, ops, nf, os, sd, sdn, kos, seq, maxko>>
LnClose(b) ==
  /\ sd # "no"
  /\ lns' = [lns EXCEPT ![b] = "closed"]
  /\ UNCHANGED <<con, holder, ops, nf, os, sd, sdn, kos, seq, maxko>>
\* Serve returns ErrServerClosed, never anything else
ServeRet(b, closedErr) ==
  /\ sd # "no" /\ closedErr /\ lns[b] = "closed"
  /\ UNCHANGED svars
Offer(c, b) ==
  /\ con[c].acc = "none"
  /\ con' = [con EXCEPT ![c].acc = "offered", ![c].b = b]
  /\ UNCHANGED <<holder, ops, nf, os, sd, sdn, lns, kos, seq, maxko>>
Accept(c) ==
  /\ con[c].acc = "offered" /\ lns[con[c].b] = "tracked"
  /\ con' = [con EXCEPT ![c].acc = "taken"]
  /\ UNCHANGED <<holder, ops, nf, os, sd, sdn, lns, kos, seq, maxko>>
OnAccept(c, ok) ==
  /\ con[c].acc = "taken" /\ ~con[c].dead /\ sd # "done"
  /\ con' = [con EXCEPT ![c].acc = IF ok THEN "live" ELSE "rej"]
  /\ UNCHANGED <<holder, ops, nf, os, sd, sdn, lns, kos, seq, maxko>>

------------------------------------------------------------------------------
\* the end of a connection
Cause(c) ==   \* the peer goes away, somebody calls Close ...
  /\ con' = [con EXCEPT ![c].why = TRUE]
  /\ UNCHANGED <<holder, ops, nf, os, sd, sdn, lns, kos, seq, maxko>>
Unhold(c) == [x \in DOMAIN holder |-> IF holder[x] = c THEN 0 ELSE holder[x]]
\* hidden
Untrack(c) ==
  /\ Live(c) /\ ~con[c].gone /\ Reason(c)
  /\ con' = [con EXCEPT ![c].gone = TRUE]
  /\ holder' = Unhold(c) /\ ops' = See(Unhold(c))
  /\ UNCHANGED <<nf, os, sd, sdn, lns, kos, seq, maxko>>
\* the network connection is closed
Closes(c) ==
  /\ ~con[c].dead
  /\ \/ Live(c) /\ con[c].gone /\ ~con[c].due
     \/ con[c].acc = "rej"
     \/ con[c].acc = "taken" /\ sd # "no"      \* too late to be served
  /\ con' = [con EXCEPT ![c].dead = TRUE]
  /\ UNCHANGED <<holder, ops, nf, os, sd, sdn, lns, kos, seq, maxko>>
\* OnKickCB is called for some connection being kicked; it writes frame t
KickCB(c, t) ==
  /\ con[c].due /\ ~con[c].knk /\ ~con[c].dead
  /\ con' = [con EXCEPT ![c].due = FALSE, ![c].knk = TRUE, ![c].wr = @ \cup {t}]
  /\ UNCHANGED <<holder, ops, nf, os, sd, sdn, lns, kos, seq, maxko>>
OnClose(c) ==
  /\ con[c].acc \in {"live", "rej"} /\ con[c].dead /\ ~con[c].over /\ con[c].hs = {}
  /\ con' = [con EXCEPT ![c].over = TRUE, ![c].known = TRUE]
  /\ UNCHANGED <<holder, ops, nf, os, sd, sdn, lns, kos, seq, maxko>>
Start(c, r) ==
  /\ Live(c) /\ ~con[c].over /\ sd # "done"
  /\ con' = [con EXCEPT ![c].hs = @ \cup {r}, ![c].seen = TRUE]
  /\ UNCHANGED <<holder, ops, nf, os, sd, sdn, lns, kos, seq, maxko>>
HEnd(c, r) ==
  /\ r \in con[c].hs
  /\ con' = [con EXCEPT ![c].hs = @ \ {r}]
  /\ UNCHANGED <<holder, ops, nf, os, sd, sdn, lns, kos, seq, maxko>>

RegCall(k, c) ==
  /\ k \notin DOMAIN nf
  /\ nf' = Put(nf, k, [c |-> c, must |-> con[c].known, ran |-> FALSE])
  /\ UNCHANGED <<con, holder, ops, os, sd, sdn, lns, kos, seq, maxko>>
RegRet(k) ==
  /\ nf[k].must => nf[k].ran
  /\ UNCHANGED svars
Notify(k) ==
  /\ k \in DOMAIN nf /\ ~nf[k].ran /\ con[nf[k].c].dead
  /\ nf' = [nf EXCEPT ![k].ran = TRUE]
  /\ con' = [con EXCEPT ![nf[k].c].known = TRUE]
  /\ UNCHANGED <<holder, ops, os, sd, sdn, lns, kos, seq, maxko>>

CloseCall(o, c) ==
  /\ ops' = Put(ops, o, [kind |-> "close", c |-> c])
  /\ con' = [con EXCEPT ![c].why = TRUE]
  /\ UNCHANGED <<holder, nf, os, sd, sdn, lns, kos, seq, maxko>>
CloseRet(o) ==
  /\ con[ops[o].c].dead
  /\ con' = [con EXCEPT ![ops[o].c].known = TRUE]
  /\ ops' = Drop(ops, o)
  /\ UNCHANGED <<holder, nf, os, sd, sdn, lns, kos, seq, maxko>>

------------------------------------------------------------------------------
\* ids
SetIDCall(o, c, x) ==
  /\ con[c].id = 0
  /\ con' = [con EXCEPT ![c].id = x, ![c].seen = TRUE]
  /\ ops' = Put(ops, o, [kind |-> "setid", c |-> c, x |-> x, st |-> "run", kick |-> FALSE, vs |-> {}, v |-> 0, seq |-> 0, kmin |-> maxko])
  /\ UNCHANGED <<holder, nf, os, sd, sdn, lns, kos, seq, maxko>>
VictimsDone(o) == \A v \in ops[o].vs : con[v].dead
\* hidden: another connection holds the id and is going to be kicked
Target(o) ==
  LET v == holder[ops[o].x] IN
  /\ ops[o].kind = "setid" /\ ops[o].st = "run" /\ v # 0 /\ v # ops[o].c /\ VictimsDone(o)
  /\ ~con[ops[o].c].gone
  /\ ops' = [ops EXCEPT ![o].st = "kick", ![o].v = v]
  /\ UNCHANGED <<con, holder, nf, os, sd, sdn, lns, kos, seq, maxko>>
\* hidden: it is kicked, unless it went by itself or by another newcomer meanwhile
Kick(o) ==
  LET v == ops[o].v IN
  /\ ops[o].kind = "setid" /\ ops[o].st = "kick"
  /\ con' = IF con[v].gone THEN con ELSE [con EXCEPT ![v].gone = TRUE, ![v].due = TRUE]
  /\ holder' = Unhold(v)
  /\ ops' = [See(Unhold(v)) EXCEPT ![o].st = "run", ![o].kick = TRUE, ![o].vs = @ \cup {v}]
  /\ UNCHANGED <<nf, os, sd, sdn, lns, kos, seq, maxko>>
\* hidden: the id is bound
Bind(o) ==
  LET x == ops[o].x  c == ops[o].c IN
  /\ ops[o].kind = "setid" /\ ops[o].st = "run" /\ holder[x] = 0 /\ ~con[c].gone /\ VictimsDone(o)
  /\ holder' = [holder EXCEPT ![x] = c]
  /\ seq' = seq + 1
  /\ ops' = [See([holder EXCEPT ![x] = c]) EXCEPT ![o].st = "bound", ![o].seq = seq + 1]
  /\ UNCHANGED <<con, nf, os, sd, sdn, lns, kos, maxko>>
\* hidden: closed meanwhile
BindGone(o) ==
  /\ ops[o].kind = "setid" /\ ops[o].st = "run" /\ con[ops[o].c].gone /\ VictimsDone(o)
  /\ ops' = [ops EXCEPT ![o].st = "gone"]
  /\ UNCHANGED <<con, holder, nf, os, sd, sdn, lns, kos, seq, maxko>>
SetIDRet(o, kick, ko) ==
  /\ ops[o].st \in {"bound", "gone"} /\ ops[o].kick = kick
  /\ IF kick THEN ko > ops[o].kmin ELSE ko >= ops[o].kmin
  /\ ops[o].st = "bound" =>
       \A r \in kos : r.x = ops[o].x =>
          /\ r.seq < ops[o].seq => IF kick THEN r.ko < ko ELSE r.ko <= ko
          /\ r.seq > ops[o].seq => IF r.kick THEN ko < r.ko ELSE ko <= r.ko
  /\ kos' = IF ops[o].st = "bound" THEN kos \cup {[x |-> ops[o].x, seq |-> ops[o].seq, kick |-> kick, ko |-> ko]} ELSE kos
  /\ maxko' = Max(maxko, ko)
  /\ ops' = Drop(ops, o)
  /\ UNCHANGED <<con, holder, nf, os, sd, sdn, lns, seq>>

\* GetConnectionInfoByID: some connection that held the id meanwhile
LookupCall(o, x) ==
  /\ ops' = Put(ops, o, [kind |-> "lookup", x |-> x, seen |-> {holder[x]}])
  /\ UNCHANGED <<con, holder, nf, os, sd, sdn, lns, kos, seq, maxko>>
LookupRet(o, c) ==
  /\ c \in ops[o].seen
  /\ ops' = Drop(ops, o)
  /\ UNCHANGED <<con, holder, nf, os, sd, sdn, lns, kos, seq, maxko>>
\* WalkConnByID: one lookup after the other
WalkIDCall(o, ids) ==
  /\ ops' = Put(ops, o, [kind |-> "walkid", ids |-> ids, pos |-> 0, seen |-> [j \in 1..Len(ids) |-> {holder[ids[j]]}]])
  /\ UNCHANGED <<con, holder, nf, os, sd, sdn, lns, kos, seq, maxko>>
WalkIDVisit(o, c, i) ==
  /\ i > ops[o].pos /\ i <= Len(ops[o].ids)
  /\ c \in ops[o].seen[i]
  /\ \A j \in (ops[o].pos + 1)..(i - 1) : 0 \in ops[o].seen[j]
  /\ ops' = [ops EXCEPT ![o].pos = i, ![o].seen = [j \in DOMAIN @ |-> IF j > i THEN {holder[ops[o].ids[j]]} ELSE @[j]]]
  /\ UNCHANGED <<con, holder, nf, os, sd, sdn, lns, kos, seq, maxko>>
WalkIDRet(o) ==
  /\ \A j \in (ops[o].pos + 1)..Len(ops[o].ids) : 0 \in ops[o].seen[j]
  /\ ops' = Drop(ops, o)
  /\ UNCHANGED <<con, holder, nf, os, sd, sdn, lns, kos, seq, maxko>>
\* WalkConn: all that are there all the time, none that is closed before, until stopped after n
WalkCall(o, b, n) ==
  /\ ops' = Put(ops, o, [kind |-> "walk", b |-> b, n |-> n, vis |-> {},
                         must |-> {c \in DOMAIN con : con[c].b = b /\ Live(c) /\ con[c].seen},
                         dead |-> {c \in DOMAIN con : con[c].dead}])
  /\ UNCHANGED <<con, holder, nf, os, sd, sdn, lns, kos, seq, maxko>>
WalkVisit(o, c) ==
  /\ Live(c) /\ con[c].b = ops[o].b /\ c \notin ops[o].dead /\ c \notin ops[o].vis
  /\ ops[o].n > Cardinality(ops[o].vis)
  /\ ops' = [ops EXCEPT ![o].vis = @ \cup {c}]
  /\ UNCHANGED <<con, holder, nf, os, sd, sdn, lns, kos, seq, maxko>>
WalkRet(o) ==
  /\ Cardinality(ops[o].vis) < ops[o].n =>
       \A c \in ops[o].must : Reason(c) \/ con[c].gone \/ c \in ops[o].vis
  /\ ops' = Drop(ops, o)
  /\ UNCHANGED <<con, holder, nf, os, sd, sdn, lns, kos, seq, maxko>>
\* a frame is written through the writer of a connection and arrives there
WSub(c, t) ==
  /\ con' = [con EXCEPT ![c].wr = @ \cup {t}]
  /\ UNCHANGED <<holder, ops, nf, os, sd, sdn, lns, kos, seq, maxko>>
Got(c, t) ==
  /\ t \in con[c].wr \ con[c].got
  /\ con' = [con EXCEPT ![c].got = @ \cup {t}]
  /\ UNCHANGED <<holder, ops, nf, os, sd, sdn, lns, kos, seq, maxko>>
WRet(c, t, r) ==
  /\ r = "ok" => t \in con[c].got
  /\ r = "err" => Reason(c) \/ con[c].gone
  /\ UNCHANGED svars

------------------------------------------------------------------------------
\* shutdown
OsCall(k) ==
  /\ os' = Put(os, k, [must |-> sd = "done", ran |-> FALSE, in |-> FALSE])
  /\ UNCHANGED <<con, holder, ops, nf, sd, sdn, lns, kos, seq, maxko>>
OsRet(k) ==
  /\ os[k].must => os[k].ran
  /\ os' = [os EXCEPT ![k].in = TRUE]
  /\ UNCHANGED <<con, holder, ops, nf, sd, sdn, lns, kos, seq, maxko>>
OsRun(k) ==
  /\ k \in DOMAIN os /\ ~os[k].ran /\ sd # "no"
  /\ os' = [os EXCEPT ![k].ran = TRUE]
  /\ UNCHANGED <<con, holder, ops, nf, sd, sdn, lns, kos, seq, maxko>>
ShutdownCall(o) ==
  /\ ops' = Put(ops, o, [kind |-> "shutdown", first |-> sdn = 0, fs |-> {k \in DOMAIN os : os[k].in}])
  /\ sd' = (IF sd = "no" THEN "called" ELSE sd) /\ sdn' = sdn + 1
  /\ UNCHANGED <<con, holder, nf, os, lns, kos, seq, maxko>>
ShutdownRet(o) ==
  /\ \A c \in DOMAIN con : con[c].acc \in {"live", "rej"} => con[c].dead /\ con[c].over
  /\ \A b \in DOMAIN lns : lns[b] # "tracked"
  /\ ops[o].first /\ sdn = 1 => \A k \in ops[o].fs : os[k].ran
  /\ sd' = "done"
  /\ ops' = Drop(ops, o)
  /\ UNCHANGED <<con, holder, nf, os, sdn, lns, kos, seq, maxko>>

\* after everything: nothing left
Ended ==
  /\ ops = <<>>
  /\ \A c \in DOMAIN con : /\ con[c].acc \in {"live", "rej"} => con[c].dead /\ con[c].over /\ con[c].hs = {}
                           /\ con[c].acc = "taken" => con[c].dead
                           /\ con[c].acc = "live" => con[c].gone
  /\ \A k \in DOMAIN nf : nf[k].ran
  /\ \A k \in DOMAIN os : os[k].ran
  /\ UNCHANGED svars

Hidden == \/ \E c \in DOMAIN con : Untrack(c)
          \/ \E o \in DOMAIN ops : Target(o) \/ Kick(o) \/ Bind(o) \/ BindGone(o)

------------------------------------------------------------------------------
HolderOK == \A x \in DOMAIN holder : holder[x] # 0 => Live(holder[x]) /\ ~con[holder[x]].gone /\ con[holder[x]].id = x
OneIDOne == \A x, y \in DOMAIN holder : holder[x] # 0 /\ holder[x] = holder[y] => x = y
AfterShutdown == sd = "done" => \A c \in DOMAIN con : con[c].acc \in {"live", "rej"} => con[c].dead /\ con[c].hs = {}
OverIsDead == \A c \in DOMAIN con : con[c].over => con[c].dead /\ con[c].hs = {} /\ (Live(c) => con[c].gone)
=============================================================================
