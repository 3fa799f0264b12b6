------------------------------- MODULE MCWire -------------------------------
(* The wire format against an independent description of it: how packets    *)
(* are written. Whatever is written is read back; a stream means the same    *)
(* however it is cut; strings are UTF-8 iff they encode code points.         *)
EXTENDS Wire, FiniteSets, TLC

CONSTANTS Pieces,    \* what a stream is made of
          MaxLen

VARIABLES
  all,      \* the stream so far
  raw, got, \* as a connection has it: what is left, and the packets
  doomed    \* was the rest ever said to be hopeless?

Init == all = <<>> /\ raw = <<>> /\ got = <<>> /\ doomed = FALSE

(* a long packet, in two parts *)
Begun == <<48, 133, 1>>
Rest  == <<0, 1, 97, -130>>

Ended == got # <<>> /\ got[Len(got)] = Bad

Next ==
  \E x \in Pieces \union (IF raw = <<>> THEN {Begun \o Rest} ELSE IF raw = Begun THEN {Rest} ELSE {}) :
    LET r == Split(raw \o x, <<>>) IN
    /\ (IF HasBlob(x) THEN ~HasBlob(all) ELSE Len(all) + Len(x) <= MaxLen) /\ ~Ended
    /\ all' = all \o x
    /\ raw' = r.rest /\ got' = got \o r.packets
    /\ doomed' = (r.packets = <<>> /\ (doomed \/ Doomed(r.rest)))
Spec == Init /\ [][Next]_<<all, raw, got, doomed>>

(* the same packets as from the whole stream at once *)
Segments == Split(all, <<>>) = [packets |-> got, rest |-> raw]
(* a hopeless beginning stays hopeless, and ends as a malformed packet *)
Hopeless == doomed => Doomed(raw)
HopelessEnds == [][doomed /\ got' # got => Len(got') = Len(got) + 1 /\ got'[Len(got')] = Bad]_<<all, raw, got, doomed>>
(* what is left is not a packet *)
Incomplete == raw # <<>> => Len(raw) < 2 \/ RemLen(raw).ok = "more" \/ Bytes(raw) < 1 + RemLen(raw).bytes + RemLen(raw).len

-----------------------------------------------------------------------------
(* Writing packets *)

RECURSIVE Varint(_)
Varint(n) == IF n < 128 THEN <<n>> ELSE <<128 + (n % 128)>> \o Varint(n \div 128)
W16(n) == <<n \div 256, n % 256>>
WStr(s) == W16(Bytes(s)) \o s
RECURSIVE WAll(_)
WAll(parts) == IF parts = <<>> THEN <<>> ELSE Head(parts) \o WAll(Tail(parts))
Flag(b, v) == IF b THEN v ELSE 0
Framed(h, body) == <<h>> \o Varint(Bytes(body)) \o body
WPid(h, p) == Framed(h, W16(p.pid))

WriteC(p) == \* as a client
  CASE p.t = "CONNECT" -> Framed(16, WStr(MQTT) \o <<4, Flag(p.clean, 2)>> \o W16(p.keep) \o WStr(p.cid))
    [] p.t = "PUBLISH" -> Framed(48 + Flag(p.dup, 8) + 2 * p.qos + Flag(p.retain, 1),
                                 WStr(p.topic) \o (IF p.qos = 0 THEN <<>> ELSE W16(p.pid)) \o p.data)
    [] p.t = "PUBACK"  -> WPid(64, p)
    [] p.t = "PUBREC"  -> WPid(80, p)
    [] p.t = "PUBREL"  -> WPid(98, p)
    [] p.t = "PUBCOMP" -> WPid(112, p)
    [] p.t = "SUBSCRIBE" -> Framed(130, W16(p.pid) \o WAll([i \in 1..Len(p.filters) |-> WStr(p.filters[i][1]) \o <<p.filters[i][2]>>]))
    [] p.t = "UNSUBSCRIBE" -> Framed(162, W16(p.pid) \o WAll([i \in 1..Len(p.filters) |-> WStr(p.filters[i])]))
    [] p.t = "PINGREQ" -> <<192, 0>>
    [] p.t = "DISCONNECT" -> <<224, 0>>
WriteB(p) == \* as the broker
  CASE p.t = "CONNACK" -> <<32, 2, p.present, p.code>>
    [] p.t = "SUBACK" -> Framed(144, W16(p.pid) \o p.codes)
    [] p.t = "UNSUBACK" -> WPid(176, p)
    [] p.t = "PINGRESP" -> <<208, 0>>
    [] OTHER -> WriteC(p)

Pids == {1, 127, 128, 255, 256, 257, 32768, 65535}
Topics_ == {<<97>>, <<47>>, <<97, 47, 98>>, <<195, 169>>, <<-100>>, <<-127>>, <<-65535>>, <<36, 97>>}
Data_ == {<<>>, <<0>>, <<255, 128>>, <<-120>>, <<-121>>, <<-16379>>, <<-16384>>, <<-2097152>>, <<-(2 * Unit + 70)>>}
Fs == {<<97, 47, 35>>, <<43>>, <<97>>, <<>>, <<97, 35>>, <<-200>>}
ClientPackets ==
  {[t |-> "CONNECT", cid |-> i, clean |-> TRUE, keep |-> k] : i \in {<<>>, <<120>>, <<45, 32>>, <<-23>>, <<-65535>>}, k \in {0, 1, 255, 256, 65535}}
  \union {[t |-> "CONNECT", cid |-> <<120>>, clean |-> FALSE, keep |-> 60]}
  \union {[t |-> "PUBLISH", topic |-> n, data |-> d, qos |-> 0, pid |-> 0, dup |-> FALSE, retain |-> r] : n \in Topics_, d \in Data_, r \in BOOLEAN}
  \union {[t |-> "PUBLISH", topic |-> n, data |-> d, qos |-> q, pid |-> i, dup |-> u, retain |-> FALSE] : n \in Topics_, d \in Data_, q \in {1, 2}, i \in Pids, u \in BOOLEAN}
  \union {[t |-> x, pid |-> i] : x \in {"PUBACK", "PUBREC", "PUBREL", "PUBCOMP"}, i \in Pids \union {0}}
  \union {[t |-> "SUBSCRIBE", pid |-> i, filters |-> fs] : i \in Pids, fs \in {<<<<x, q>>>> : x \in Fs, q \in 0..2} \union {<<<<x, 0>>, <<y, 2>>, <<x, 1>>>> : x \in Fs, y \in Fs}}
  \union {[t |-> "UNSUBSCRIBE", pid |-> i, filters |-> fs] : i \in Pids, fs \in {<<x>> : x \in Fs} \union {<<x, y>> : x \in Fs, y \in Fs}}
  \union {[t |-> "PINGREQ"], [t |-> "DISCONNECT"]}
BrokerPackets ==
  {[t |-> "CONNACK", present |-> s, code |-> k] : s \in 0..1, k \in 0..5}
  \union {[t |-> "PUBLISH", topic |-> n, data |-> d, qos |-> q, pid |-> IF q = 0 THEN 0 ELSE i, dup |-> FALSE, retain |-> FALSE] : n \in Topics_, d \in Data_, q \in 0..2, i \in Pids}
  \union {[t |-> x, pid |-> i] : x \in {"PUBACK", "PUBREC", "PUBREL", "PUBCOMP", "UNSUBACK"}, i \in Pids}
  \union {[t |-> "SUBACK", pid |-> i, codes |-> s] : i \in Pids, s \in {<<0>>, <<128>>, <<1, 2, 128, 0>>}}
  \union {[t |-> "PINGRESP"]}

After == <<192, 0>>
ASSUME \A p \in ClientPackets : Split(WriteC(p) \o After, <<>>) = [packets |-> <<p, [t |-> "PINGREQ"]>>, rest |-> <<>>]
ASSUME \A p \in BrokerPackets : Parse(WriteB(p)) = p
ASSUME \A p \in ClientPackets : LET w == WriteC(p) IN \A n \in 1..(Len(w) - 1) : LET s == SubSeq(w, 1, n) IN
         Split(s, <<>>) = [packets |-> <<>>, rest |-> s] /\ ~Doomed(s)

(* any other first byte makes it another packet or none *)
Heads == {w[1] : w \in {WriteC(p) : p \in ClientPackets}} \union {16 * 3 + x : x \in {8 + 1, 8 + 2 + 1, 8 + 4 + 1, 2 + 1, 4 + 1, 8}}
ASSUME \A h \in (0..255) \ Heads : \A s \in {<<>>, <<0, 1>>, <<0, 1, 97>>, <<0, 1, 0, 1, 97, 0>>} : FromClient(h, s) = Bad

-----------------------------------------------------------------------------
(* UTF-8 *)
Enc(x) ==
  IF x < 128 THEN <<x>>
  ELSE IF x < 2048 THEN <<192 + (x \div 64), 128 + (x % 64)>>
  ELSE IF x < 65536 THEN <<224 + (x \div 4096), 128 + ((x \div 64) % 64), 128 + (x % 64)>>
  ELSE <<240 + (x \div 262144), 128 + ((x \div 4096) % 64), 128 + ((x \div 64) % 64), 128 + (x % 64)>>

IsScalar(x) == x \in 1..55295 \/ x \in 57344..1114111
ASSUME \A x \in (1..55295) \union (57344..65600) \union {65536 + 331 * k : k \in 0..3167} \union (1114000..1114111) : Utf8(Enc(x))
(* every byte that can matter *)
Edge == {0, 1, 127, 128, 143, 144, 159, 160, 191, 192, 193, 194, 223, 224, 225, 236, 237, 238, 239, 240, 241, 243, 244, 245, 255}
Dec(s) ==
  CASE Len(s) = 1 -> s[1]
    [] Len(s) = 2 -> (s[1] - 192) * 64 + s[2] - 128
    [] Len(s) = 3 -> (s[1] - 224) * 4096 + (s[2] - 128) * 64 + s[3] - 128
    [] Len(s) = 4 -> (s[1] - 240) * 262144 + (s[2] - 128) * 4096 + (s[3] - 128) * 64 + s[4] - 128
One(s) == LET x == Dec(s) IN IsScalar(x) /\ Enc(x) = s
RECURSIVE IsText(_)
IsText(s) == s = <<>> \/ \E n \in 1..4 : n <= Len(s) /\ One(SubSeq(s, 1, n)) /\ IsText(From(s, n + 1))
ASSUME \A n \in 1..3 : \A s \in [1..n -> Edge] : Utf8(s) <=> IsText(s)
ASSUME \A s \in [1..4 -> Edge \ {1, 143, 193, 194, 223, 236, 238, 239, 241, 243}] : Utf8(s) <=> IsText(s)

-----------------------------------------------------------------------------
(* streams: packets, parts of packets, and rubbish *)
Pieces_ ==
  {<<192>>, <<0>>, <<2>>, <<4>>, <<128>>, <<64>>, <<48>>, <<50>>, <<1>>, <<255>>, <<130>>, <<97>>,
   <<192, 0>>, <<64, 2, 0, 7>>, <<48, 3, 0, 1, 97>>, <<50, 6, 0, 1, 97, 0>>, <<224, 0>>, Begun, <<16, 12>>, <<0, 4, 77, 81>>}
=============================================================================
