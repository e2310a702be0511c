------------------------------ MODULE WireCodec ------------------------------
(* Frames as bytes.

   A sequence of bytes is written as its runs: <<b, n>> is n times the byte b;
   neighbouring runs have different bytes.  A frame is

      4 bytes length of what follows, 8 bytes id, 1 byte flags, 3 bytes command,
      payload

   The test codec encodes runs as pairs (n - 1, b) with n <= 256.  It fails to
   encode what starts with byte 238, and to decode an odd number of bytes.     *)
EXTENDS Naturals, Sequences, FiniteSets

RECURSIVE Size(_), CatAll(_), Bytes(_), Pairs(_)
Size(p) == IF p = <<>> THEN 0 ELSE p[1][2] + Size(Tail(p))
\* concatenation
Cat(p, q) ==
  IF p = <<>> THEN q ELSE IF q = <<>> THEN p
  ELSE IF p[Len(p)][1] = q[1][1]
  THEN SubSeq(p, 1, Len(p) - 1) \o <<<<q[1][1], p[Len(p)][2] + q[1][2]>>>> \o Tail(q)
  ELSE p \o q
CatAll(ps) == IF ps = <<>> THEN <<>> ELSE Cat(ps[1], CatAll(Tail(ps)))
\* bytes as runs
Runs(bs) == CatAll([j \in 1..Len(bs) |-> <<<<bs[j], 1>>>>])
\* runs as bytes
Bytes(p) == IF p = <<>> THEN <<>> ELSE [j \in 1..p[1][2] |-> p[1][1]] \o Bytes(Tail(p))

RunCode(r) == LET k == r[2] \div 256  m == r[2] % 256
              IN CatAll([j \in 1..k |-> Runs(<<255, r[1]>>)] \o IF m = 0 THEN <<>> ELSE <<Runs(<<m - 1, r[1]>>)>>)
Enc(p) == CatAll([j \in 1..Len(p) |-> RunCode(p[j])])
EncFails(p) == p # <<>> /\ p[1][1] = 238
Pairs(bs) == IF bs = <<>> THEN <<>> ELSE Cat(<<<<bs[2], bs[1] + 1>>>>, Pairs(SubSeq(bs, 3, Len(bs))))
DecFails(p) == Size(p) % 2 = 1
Dec(p) == Pairs(Bytes(p))

\* flags
FStream == 1
FEnd == 2
FRst == 4
FNB == 8
FPush == 16
FCodec == 32
Has(fl, f) == (fl \div f) % 2 = 1
Set(fl, f) == IF Has(fl, f) THEN fl ELSE fl + f
Clr(fl, f) == IF Has(fl, f) THEN fl - f ELSE fl

\* a frame: id: 8 bytes, cmd: 3 bytes, fl: flags, p: payload as it travels
Header(f) == LET n == Size(f.p) + 12
             IN <<n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>> \o f.id \o <<f.fl>> \o f.cmd
Length(h) == ((h[1] * 256 + h[2]) * 256 + h[3]) * 256 + h[4]   \* for h[1] < 128
HdrId(h) == SubSeq(h, 5, 12)
HdrFl(h) == h[13]
HdrCmd(h) == SubSeq(h, 14, 16)

\* what may be sent for a frame of which p was written with flags fl
Sendable(id, cmd, fl, p, codec) ==
  {[id |-> id, cmd |-> cmd, fl |-> Clr(fl, FCodec), p |-> p]}
  \cup IF Has(fl, FCodec) /\ codec /\ p # <<>> /\ ~EncFails(p) /\ Size(Enc(p)) <= Size(p)
       THEN {[id |-> id, cmd |-> cmd, fl |-> fl, p |-> Enc(p)]} ELSE {}
Unsendable(fl, p, codec) == Has(fl, FCodec) /\ p # <<>> /\ (~codec \/ EncFails(p))
\* what is received for a frame with these contents
BadPayload(fl, p, codec) == Has(fl, FCodec) /\ p # <<>> /\ (~codec \/ DecFails(p))
Received(fl, p) == IF Has(fl, FCodec) /\ p # <<>> THEN Dec(p) ELSE p
=============================================================================
