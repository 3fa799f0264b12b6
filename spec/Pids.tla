-------------------------------- MODULE Pids --------------------------------
(* The packet identifiers of very long series of deliveries to one client:   *)
(* the projection of Broker to Deliver (its packet identifier) and to the    *)
(* acknowledgements that Handle takes. A log is a sequence of numbers: p >= 0 *)
(* is a QoS 1 or 2 delivery with packet identifier p, -p its acknowledgement. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

ASSUME TLCSet(100000, TLCEval(JsonDeserialize(IOEnv.TRACES).logs))
Log == TLCGet(100000)

VARIABLES tid, l, unacked, used

vars == <<tid, l, unacked, used>>

(* unacked[p \div 256] holds p % 256 *)
Held(p) == p % 256 \in unacked[p \div 256]

Init == tid \in 1..Len(Log) /\ l = 1 /\ unacked = [h \in 0..255 |-> {}] /\ used = 0

(* Broker!Deliver with Broker!PidOk; used counts deliveries for the report *)
Deliver(p) ==
  /\ p \in 1..65535 /\ ~Held(p) /\ used' = used + 1
  /\ unacked' = [unacked EXCEPT ![p \div 256] = @ \union {p % 256}]
Ack(p) == unacked' = [unacked EXCEPT ![p \div 256] = @ \ {p % 256}] /\ UNCHANGED used

Next ==
  /\ l <= Len(Log[tid]) /\ l' = l + 1 /\ UNCHANGED tid
  /\ IF Log[tid][l] < 0 THEN Ack(-Log[tid][l]) ELSE Deliver(Log[tid][l])

Spec == Init /\ [][Next]_vars

View == <<tid, l>>   \* a log determines the rest

ASSUME \A i \in 1..Len(Log) : TLCSet(i, 0)
Progress == IF l > Len(Log[tid]) THEN TLCSet(tid, -1) ELSE TLCSet(tid, l)
Report == \A i \in 1..Len(Log) : PrintT(<<"RESULT", i, TLCGet(i)>>)
=============================================================================
