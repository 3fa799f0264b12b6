-------------------------------- MODULE Wire --------------------------------
(* The MQTT 3.1.1 wire format: framing of a byte stream into packets, and   *)
(* the decoding and validity of every packet, in both directions.           *)
(*                                                                          *)
(* A byte stream is a sequence of integers. 0..255 are bytes. A negative    *)
(* number -(k * Unit + n) stands for one long run of n ordinary bytes, of   *)
(* which k tells the different ones apart; it keeps packets of megabytes    *)
(* tractable.                                                               *)
EXTENDS Naturals, Integers, Sequences, Topics

Unit == 8388608

Bad == [t |-> "BAD"]

Width(x) == IF x >= 0 THEN 1 ELSE (-x) % Unit

HasBlob(s) == \E i \in 1..Len(s) : s[i] < 0

RECURSIVE WidthFrom(_, _)
WidthFrom(s, i) == IF i > Len(s) THEN 0 ELSE Width(s[i]) + WidthFrom(s, i + 1)
Bytes(s) == IF HasBlob(s) THEN WidthFrom(s, 1) ELSE Len(s)

(* number of elements that make up the first n bytes of s; -1 if there is   *)
(* no such number (too short, or the cut falls into a blob)                 *)
RECURSIVE CutFrom(_, _, _)
CutFrom(s, n, i) ==
  IF n = 0 THEN i - 1
  ELSE IF n < 0 \/ i > Len(s) THEN -1
  ELSE CutFrom(s, n - Width(s[i]), i + 1)
Cut(s, n) == IF HasBlob(s) THEN CutFrom(s, n, 1)
             ELSE IF n <= Len(s) THEN n ELSE -1

From(s, i) == SubSeq(s, i, Len(s))

-----------------------------------------------------------------------------
(* Framing *)

(* The remaining length field: [ok, len, bytes]; ok is "yes", "more" (not   *)
(* complete yet) or "bad" (more than four bytes).                           *)
RemLen(s) ==
  LET b(i) == s[i + 1]
      have == Len(s) - 1
      last == {i \in 1..4 : i <= have /\ b(i) < 128}
  IN IF last = {} THEN [ok |-> IF have >= 5 THEN "bad" ELSE "more", len |-> 0, bytes |-> 0]
     ELSE LET n == CHOOSE i \in last : \A j \in last : i <= j
              v == [i \in 1..4 |-> IF i < n THEN b(i) - 128 ELSE IF i = n THEN b(i) ELSE 0]
          IN [ok |-> "yes", bytes |-> n,
              len |-> v[1] + 128 * v[2] + 16384 * v[3] + 2097152 * v[4]]

-----------------------------------------------------------------------------
(* Fields. A parse result is [ok, v, rest].                                 *)

Fail == [ok |-> FALSE, v |-> <<>>, rest |-> <<>>]

U16(s) == IF Len(s) >= 2 /\ s[1] >= 0 /\ s[2] >= 0
          THEN [ok |-> TRUE, v |-> s[1] * 256 + s[2], rest |-> From(s, 3)]
          ELSE Fail

Binary(s) ==
  LET l == U16(s) IN
  IF ~l.ok THEN Fail
  ELSE LET k == Cut(l.rest, l.v) IN
       IF k = -1 THEN Fail
       ELSE [ok |-> TRUE, v |-> SubSeq(l.rest, 1, k), rest |-> From(l.rest, k + 1)]

Cont(s, i) == i <= Len(s) /\ s[i] \in 128..191

(* well-formed UTF-8 without U+0000 *)
RECURSIVE Utf8From(_, _)
Utf8From(s, i) ==
  IF i > Len(s) THEN TRUE
  ELSE LET b == s[i] IN
    IF b < 0 THEN Utf8From(s, i + 1)
    ELSE IF b = 0 THEN FALSE
    ELSE IF b < 128 THEN Utf8From(s, i + 1)
    ELSE IF b \in 194..223 THEN Cont(s, i + 1) /\ Utf8From(s, i + 2)
    ELSE IF b \in 224..239 THEN
         /\ Cont(s, i + 1) /\ Cont(s, i + 2)
         /\ b = 224 => s[i + 1] >= 160
         /\ b = 237 => s[i + 1] <= 159
         /\ Utf8From(s, i + 3)
    ELSE IF b \in 240..244 THEN
         /\ Cont(s, i + 1) /\ Cont(s, i + 2) /\ Cont(s, i + 3)
         /\ b = 240 => s[i + 1] >= 144
         /\ b = 244 => s[i + 1] <= 143
         /\ Utf8From(s, i + 4)
    ELSE FALSE

Utf8(s) == IF \A i \in 1..Len(s) : s[i] < 128 /\ s[i] # 0 THEN TRUE ELSE Utf8From(s, 1)

Str(s) == LET r == Binary(s) IN IF r.ok /\ Utf8(r.v) THEN r ELSE Fail

-----------------------------------------------------------------------------
(* Packet bodies *)

MQTT == <<77, 81, 84, 84>>

Bit(x, n) == (x \div n) % 2 = 1

ConnectFlagsOk(f) ==
  LET will == Bit(f, 4)  wq == (f \div 8) % 4 IN
  /\ ~Bit(f, 1)
  /\ wq # 3
  /\ ~will => wq = 0 /\ ~Bit(f, 32)
  /\ Bit(f, 64) => Bit(f, 128)

(* the optional fields of a CONNECT payload, in order, nothing after them *)
ConnectTailOk(f, s) ==
  LET wt == IF Bit(f, 4)  THEN Str(s) ELSE [ok |-> TRUE, v |-> <<>>, rest |-> s]
      wm == IF ~wt.ok THEN Fail ELSE IF Bit(f, 4) THEN Binary(wt.rest) ELSE wt
      un == IF ~wm.ok THEN Fail ELSE IF Bit(f, 128) THEN Str(wm.rest) ELSE wm
      pw == IF ~un.ok THEN Fail ELSE IF Bit(f, 64) THEN Binary(un.rest) ELSE un
  IN pw.ok /\ pw.rest = <<>>

Connect(s) ==
  LET n == Str(s) IN
  IF ~n.ok \/ n.v # MQTT \/ n.rest = <<>> THEN Bad
  ELSE IF n.rest[1] # 4 THEN [t |-> "REFUSE", code |-> 1]
  ELSE IF Len(n.rest) < 2 \/ ~ConnectFlagsOk(n.rest[2]) THEN Bad
  ELSE LET f == n.rest[2]
           k == U16(From(n.rest, 3))
           c == IF k.ok THEN Str(k.rest) ELSE Fail
           none == c.ok /\ c.v = <<>> /\ ~Bit(f, 2)
       IN IF ~c.ok THEN Bad
          ELSE IF ~ConnectTailOk(f, c.rest)
               THEN IF none THEN [t |-> "DUBIOUS"] ELSE Bad   \* wrong in two ways
          ELSE IF none THEN [t |-> "REFUSE", code |-> 2]
          ELSE [t |-> "CONNECT", cid |-> c.v, clean |-> Bit(f, 2), keep |-> k.v]

Publish(flags, s) ==
  LET q == (flags \div 2) % 4
      n == Str(s)
      p == IF ~n.ok THEN Fail ELSE IF q > 0 THEN U16(n.rest) ELSE [ok |-> TRUE, v |-> 0, rest |-> n.rest]
  IN IF q = 3 \/ ~p.ok \/ (q > 0 /\ p.v = 0) \/ ~IsTopicName(n.v) THEN Bad
     ELSE [t |-> "PUBLISH", topic |-> n.v, data |-> p.rest, qos |-> q, pid |-> p.v,
           dup |-> Bit(flags, 8), retain |-> Bit(flags, 1)]

RECURSIVE Filters(_, _)
Filters(s, acc) ==          \* <<filter, qos>> pairs; <<>> if malformed
  IF s = <<>> THEN acc
  ELSE LET f == Str(s) IN
       IF ~f.ok \/ f.rest = <<>> THEN <<>>
       ELSE IF f.rest[1] \notin 0..2 THEN <<>>
       ELSE Filters(From(f.rest, 2), Append(acc, <<f.v, f.rest[1]>>))

RECURSIVE Names(_, _)
Names(s, acc) ==
  IF s = <<>> THEN acc
  ELSE LET f == Str(s) IN IF ~f.ok THEN <<>> ELSE Names(f.rest, Append(acc, f.v))

Subscribe(s) ==
  LET p == U16(s)  fs == IF p.ok THEN Filters(p.rest, <<>>) ELSE <<>>
  IN IF ~p.ok \/ p.v = 0 \/ fs = <<>> THEN Bad
     ELSE [t |-> "SUBSCRIBE", pid |-> p.v, filters |-> fs]

Unsubscribe(s) ==
  LET p == U16(s)  fs == IF p.ok THEN Names(p.rest, <<>>) ELSE <<>>
  IN IF ~p.ok \/ p.v = 0 \/ fs = <<>> THEN Bad
     ELSE [t |-> "UNSUBSCRIBE", pid |-> p.v, filters |-> fs]

PidOnly(type, s) == IF Len(s) = 2 /\ U16(s).ok THEN [t |-> type, pid |-> U16(s).v] ELSE Bad
Empty(type, s) == IF s = <<>> THEN [t |-> type] ELSE Bad

FlagsOk(type, flags) ==
  CASE type = 3 -> (flags \div 2) % 4 # 3
    [] type \in {6, 8, 10} -> flags = 2
    [] OTHER -> flags = 0

(* A packet sent by a client: h is the first byte, s what follows the       *)
(* remaining length.                                                        *)
FromClient(h, s) ==
  LET type == h \div 16  flags == h % 16 IN
  IF ~FlagsOk(type, flags) THEN Bad
  ELSE CASE type = 1  -> Connect(s)
         [] type = 3  -> Publish(flags, s)
         [] type = 4  -> PidOnly("PUBACK", s)
         [] type = 5  -> PidOnly("PUBREC", s)
         [] type = 6  -> PidOnly("PUBREL", s)
         [] type = 7  -> PidOnly("PUBCOMP", s)
         [] type = 8  -> Subscribe(s)
         [] type = 10 -> Unsubscribe(s)
         [] type = 12 -> Empty("PINGREQ", s)
         [] type = 14 -> Empty("DISCONNECT", s)
         [] OTHER     -> Bad

(* A packet sent by the broker *)
FromBroker(h, s) ==
  LET type == h \div 16  flags == h % 16 IN
  IF ~FlagsOk(type, flags) THEN Bad
  ELSE CASE type = 2  -> IF Len(s) = 2 THEN [t |-> "CONNACK", present |-> s[1], code |-> s[2]] ELSE Bad
         [] type = 3  -> Publish(flags, s)
         [] type = 4  -> PidOnly("PUBACK", s)
         [] type = 5  -> PidOnly("PUBREC", s)
         [] type = 6  -> PidOnly("PUBREL", s)
         [] type = 7  -> PidOnly("PUBCOMP", s)
         [] type = 9  -> IF Len(s) > 2 THEN [t |-> "SUBACK", pid |-> U16(s).v, codes |-> From(s, 3)] ELSE Bad
         [] type = 11 -> PidOnly("UNSUBACK", s)
         [] type = 13 -> Empty("PINGRESP", s)
         [] OTHER     -> Bad

(* The packets at the start of stream s, and what is left of it. Decoding   *)
(* ends with the first malformed packet.                                    *)
RECURSIVE Split(_, _)
Split(s, acc) ==
  IF Len(s) < 2 THEN [packets |-> acc, rest |-> s]
  ELSE LET r == RemLen(s) IN
    IF r.ok = "more" THEN [packets |-> acc, rest |-> s]
    ELSE IF r.ok = "bad" THEN [packets |-> Append(acc, Bad), rest |-> <<>>]
    ELSE LET body == From(s, r.bytes + 2)
             k    == Cut(body, r.len)
         IN IF k = -1 THEN [packets |-> acc, rest |-> s]
            ELSE LET p == FromClient(s[1], SubSeq(body, 1, k)) IN
                 IF p.t = "BAD" THEN [packets |-> Append(acc, p), rest |-> <<>>]
                 ELSE Split(From(body, k + 1), Append(acc, p))

(* An incomplete packet that can be told to be malformed already: closing   *)
(* the connection need not wait for the rest of it.                         *)
Doomed(s) ==
  /\ s # <<>>
  /\ \/ s[1] \div 16 \in {0, 2, 9, 11, 13, 15}
     \/ ~FlagsOk(s[1] \div 16, s[1] % 16)
     \/ Len(s) >= 5 /\ RemLen(s).ok # "yes"

(* One complete packet from the broker *)
Parse(s) ==
  IF Len(s) < 2 THEN Bad
  ELSE LET r == RemLen(s) IN
    IF r.ok # "yes" THEN Bad
    ELSE LET body == From(s, r.bytes + 2) IN
         IF Bytes(body) # r.len THEN Bad ELSE FromBroker(s[1], body)
=============================================================================
