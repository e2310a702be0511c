------------------------------ MODULE WireMC ------------------------------
(* Two frames are written, travel as bytes in arbitrary pieces and are read by
   a reader that sees nothing but bytes: it gets back what was written.        *)
EXTENDS WireCodec, TLC
CONSTANTS NFrames, MaxLen, Codec
VARIABLES written, stream, buf, got
vars == <<written, stream, buf, got>>
Payloads == {Runs(b) : b \in UNION {[1..n -> {0, 7}] : n \in 0..MaxLen}}
Ids == {<<0,0,0,0,0,0,0,1>>, <<255,255,255,255,255,255,255,254>>}
Cmds == {<<0,0,0>>, <<255,1,2>>}
Fls == {0, FStream + FCodec, FPush + FCodec, FCodec, FStream + FEnd}
Init == written = <<>> /\ stream = <<>> /\ buf = <<>> /\ got = <<>>
Write ==
  /\ Len(written) < NFrames
  /\ \E id \in Ids, cmd \in Cmds, fl \in Fls, p \in Payloads :
       /\ ~Unsendable(fl, p, Codec)
       /\ \E f \in Sendable(id, cmd, fl, p, Codec) :
            /\ stream' = stream \o Bytes(Runs(Header(f))) \o Bytes(f.p)
            /\ written' = Append(written, [id |-> id, cmd |-> cmd, fl |-> Clr(fl, FCodec), p |-> p])
  /\ UNCHANGED <<buf, got>>
\* some bytes arrive
Segment == /\ stream # <<>>
           /\ \E n \in {1, 4, 15, Len(stream)} :
                /\ n <= Len(stream) /\ buf' = buf \o SubSeq(stream, 1, n) /\ stream' = SubSeq(stream, n + 1, Len(stream))
           /\ UNCHANGED <<written, got>>
Complete == Len(buf) >= 16 /\ Len(buf) >= 4 + Length(SubSeq(buf, 1, 16))
Parse == /\ Complete
         /\ LET h == SubSeq(buf, 1, 16)
                n == 4 + Length(h)
                p == Runs(SubSeq(buf, 17, n))
            IN /\ ~BadPayload(HdrFl(h), p, Codec)
               /\ got' = Append(got, [id |-> HdrId(h), cmd |-> HdrCmd(h), fl |-> Clr(HdrFl(h), FCodec), p |-> Received(HdrFl(h), p)])
               /\ buf' = SubSeq(buf, n + 1, Len(buf))
         /\ UNCHANGED <<written, stream>>
Next == Write \/ Parse \/ (~Complete /\ Segment)
Same == Len(got) <= Len(written) /\ \A j \in 1..Len(got) : got[j] = written[j]
AllThere == (stream = <<>> /\ ~ENABLED Parse) => buf = <<>> /\ Len(got) = Len(written)
NotLonger == \A p \in Payloads : \A f \in Sendable(<<0,0,0,0,0,0,0,1>>, <<0,0,0>>, FCodec, p, Codec) : Size(f.p) <= Size(p)
RoundTrip == \A p \in Payloads : Dec(Enc(p)) = p
ASSUME RoundTrip /\ NotLonger
=============================================================================
