------------------------------ MODULE WireSpec ------------------------------
(* What travels on a connection.

   Sending: frames are put together by writers (started, filled, ended or left
   alone) or given at once with a request, possibly by several goroutines.
   Receiving: frames arrive as bytes, in pieces, and are handed over.          *)
EXTENDS WireCodec, TLC

VARIABLES
  ws,     \* writer -> frame being put together
  pend,   \* operation -> what may appear on the wire for it, and whether it did
  ids,    \* ids given to requests
  inq,    \* <<id, push>> -> frames sent by the peer and not handed over yet
  bad,    \* the peer sent something that ends the connection
  dead,   \* the network connection was closed
  conf    \* [codec, max]

wvars == <<ws, pend, ids, inq, bad, dead, conf>>

NoFrame == [id |-> <<>>, cmd |-> <<>>, fl |-> 0, p |-> <<>>]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
WInit == /\ ws = <<>> /\ pend = <<>> /\ ids = {} /\ inq = <<>> /\ bad = FALSE /\ dead = FALSE
         /\ conf = [codec |-> FALSE, max |-> 0]
Conf(codec, max) == conf' = [codec |-> codec, max |-> max] /\ UNCHANGED <<ws, pend, ids, inq, bad, dead>>

------------------------------------------------------------------------------
\* a frame is started; whatever the writer had is gone (cmd: 4 bytes, the highest is ignored)
StartWrite(w, id, cmd, fl) ==
  /\ ws' = Put(ws, w, [id |-> id, cmd |-> Tail(cmd), fl |-> fl, p |-> <<>>])
  /\ UNCHANGED <<pend, ids, inq, bad, dead, conf>>
\* by the writer of a stream, which knows the rest
StreamStart(w, cmd) ==
  /\ ws' = [ws EXCEPT ![w] = [@ EXCEPT !.cmd = Tail(cmd), !.p = <<>>]]
  /\ UNCHANGED <<pend, ids, inq, bad, dead, conf>>
WriteBytes(w, p) ==
  /\ ws' = [ws EXCEPT ![w] = [@ EXCEPT !.p = Cat(@, p)]]
  /\ UNCHANGED <<pend, ids, inq, bad, dead, conf>>

Op(o, fs, must) == pend' = Put(pend, o, [fs |-> fs, must |-> must, sent |-> FALSE, id |-> <<>>, left |-> FALSE])
\* EndWrite (how = ""), StreamEndWrite (more, last), EndWriteCompressed (comp);
\* the writer of a stream may stop encoding, so what cannot be encoded fails or is sent plain
EndCall(o, w, how) ==
  LET f == ws[w]
      fl == IF how = "last" THEN Set(f.fl, FEnd) ELSE f.fl
      fs == IF how = "comp" THEN {[f EXCEPT !.fl = Set(fl, FCodec)]} \cup (IF f.p = <<>> THEN {[f EXCEPT !.fl = Clr(fl, FCodec)]} ELSE {})
            ELSE IF Unsendable(fl, f.p, conf.codec) /\ how = "" THEN {}
            ELSE Sendable(f.id, f.cmd, fl, f.p, conf.codec)
  IN /\ Op(o, fs, how # "comp" /\ Unsendable(fl, f.p, conf.codec))
     /\ ws' = [ws EXCEPT ![w] = [@ EXCEPT !.p = <<>>]]
     /\ UNCHANGED <<ids, inq, bad, dead, conf>>
ResetCall(o, id, cmd) ==
  /\ Op(o, {[id |-> id, cmd |-> Tail(cmd), fl |-> FRst, p |-> <<>>]}, FALSE)
  /\ UNCHANGED <<ws, ids, inq, bad, dead, conf>>
\* a request; its id is given by the connection
ReqCall(o, cmd, fl, p) ==
  LET fs == IF Unsendable(fl, p, conf.codec) THEN {} ELSE Sendable(<<>>, Tail(cmd), fl, p, conf.codec)
  IN /\ Op(o, fs, fs = {})
     /\ UNCHANGED <<ws, ids, inq, bad, dead, conf>>
\* a write fails if its payload cannot be encoded, and when the connection goes
\* - when it may still come
Fails(r) == bad \/ (r.must /\ ~r.sent)
Returned(o) == IF bad /\ ~pend[o].sent THEN [pend EXCEPT ![o].left = TRUE] ELSE Drop(pend, o)
EndRet(o, ok) ==
  /\ IF ok THEN pend[o].sent ELSE Fails(pend[o])
  /\ pend' = Returned(o)
  /\ UNCHANGED <<ws, ids, inq, bad, dead, conf>>
\* the request was sent under the id that is reported; a stream writer w goes on with it
ReqRet(o, ok, id, w, fl) ==
  /\ IF ok THEN pend[o].sent /\ pend[o].id = id ELSE Fails(pend[o])
  /\ pend' = Returned(o)
  /\ ws' = IF ok /\ w # 0 THEN Put(ws, w, [NoFrame EXCEPT !.id = id, !.fl = fl]) ELSE ws
  /\ UNCHANGED <<ids, inq, bad, dead, conf>>
\* a whole frame is on the wire
Wire(h, p) ==
  \E o \in DOMAIN pend :
    /\ ~pend[o].sent
    /\ \E f \in pend[o].fs :
         /\ LET g == IF f.id = <<>> THEN [f EXCEPT !.id = HdrId(h)] ELSE f IN h = Header(g) /\ p = g.p
         /\ IF f.id = <<>> THEN HdrId(h) \notin ids /\ ids' = ids \cup {HdrId(h)} ELSE ids' = ids
         /\ pend' = [pend EXCEPT ![o].sent = TRUE, ![o].id = HdrId(h)]
    /\ UNCHANGED <<ws, inq, bad, dead, conf>>

------------------------------------------------------------------------------
Key(h) == <<HdrId(h), Has(HdrFl(h), FPush)>>
TooLong(h) == h[1] >= 128 \/ (conf.max > 0 /\ Length(h) > conf.max)
TooShort(h) == h[1] = 0 /\ Length(h) < 12
\* the peer sends a header and what belongs to it
Send(h, p) ==
  /\ IF bad \/ TooLong(h) \/ TooShort(h) \/ BadPayload(HdrFl(h), p, conf.codec)
     THEN bad' = TRUE /\ UNCHANGED inq
     ELSE /\ Size(p) + 12 = Length(h)
          /\ inq' = LET f == [fl |-> Clr(HdrFl(h), FCodec), cmd |-> HdrCmd(h), p |-> Received(HdrFl(h), p)]
                        o == IF Key(h) \in DOMAIN inq THEN inq[Key(h)] ELSE <<>>
                    IN Put(inq, Key(h), Append(o, f))
          /\ UNCHANGED bad
  /\ UNCHANGED <<ws, pend, ids, dead, conf>>
\* a frame is handed over (to a handler, a subscriber, a caller or the consumer of a stream)
Recv(id, cmd, fl, p) ==
  LET k == <<id, Has(fl, FPush)>> IN
  /\ k \in DOMAIN inq /\ inq[k] # <<>>
  /\ Head(inq[k]) = [fl |-> Clr(fl, FCodec), cmd |-> cmd, p |-> p]
  /\ inq' = [inq EXCEPT ![k] = Tail(@)]
  /\ UNCHANGED <<ws, pend, ids, bad, dead, conf>>
\* the connection is closed for nothing else
Closes == bad /\ dead' = TRUE /\ UNCHANGED <<ws, pend, ids, inq, bad, conf>>
\* everything was handed over, or the connection was closed
WEnd == /\ IF bad THEN dead ELSE ~dead /\ \A k \in DOMAIN inq : inq[k] = <<>>
        /\ \A o \in DOMAIN pend : pend[o].left
        /\ UNCHANGED wvars
=============================================================================
