-------------------------------- MODULE Qos2 --------------------------------
(* Very many QoS 2 publications of one connection that are not released yet:  *)
(* the projection of Broker to what Handle does with PUBLISH (QoS 2) and      *)
(* PUBREL, for one publisher and one subscriber that sees everything.         *)
(* A log is a sequence of numbers 8 * v + k:                                  *)
(*   k = 1  the publisher sends PUBLISH; v = 65536 * content + identifier     *)
(*   k = 2  the publisher sends PUBREL for identifier v                       *)
(*   k = 3  the broker sends the publisher PUBREC v;  k = 4  PUBCOMP v        *)
(*   k = 5  the subscriber is sent a publication, v = 65536 * content + id    *)
(*          of the PUBLISH it came from (its payload says so)                 *)
(*   k = 6  nothing is left to do                                             *)
(*   k = 0  nothing is left to do but what the subscriber does not read yet   *)
(*   k = 7  anything else                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

ASSUME TLCSet(100000, TLCEval(JsonDeserialize(IOEnv.TRACES).logs))
Log == TLCGet(100000)

VARIABLES tid, l,
  open,    \* the unreleased identifiers: open[p \div 256] holds p % 256
  due,     \* publications the subscriber still has to get
  owed     \* responses the publisher still has to get

vars == <<tid, l, open, due, owed>>

Init == tid \in 1..Len(Log) /\ l = 1 /\ open = [h \in 0..255 |-> {}] /\ due = <<>> /\ owed = <<>>

Publish(v) ==
  LET p == v % 65536 IN
  /\ owed' = Append(owed, 8 * p + 3)
  /\ IF p % 256 \in open[p \div 256] THEN UNCHANGED <<open, due>>
     ELSE open' = [open EXCEPT ![p \div 256] = @ \union {p % 256}] /\ due' = Append(due, v)

Release(p) ==
  /\ owed' = Append(owed, 8 * p + 4)
  /\ open' = [open EXCEPT ![p \div 256] = @ \ {p % 256}]
  /\ UNCHANGED due

Respond(x) == owed # <<>> /\ Head(owed) = x /\ owed' = Tail(owed) /\ UNCHANGED <<open, due>>
Deliver(v) == due # <<>> /\ Head(due) = v /\ due' = Tail(due) /\ UNCHANGED <<open, owed>>
Stalled == owed = <<>> /\ UNCHANGED <<open, due, owed>>
Quiet == due = <<>> /\ owed = <<>> /\ UNCHANGED <<open, due, owed>>

Next ==
  /\ l <= Len(Log[tid]) /\ l' = l + 1 /\ UNCHANGED tid
  /\ LET x == Log[tid][l] k == x % 8 v == x \div 8 IN
     CASE k = 0 -> Stalled
       [] k = 1 -> Publish(v)
       [] k = 2 -> Release(v)
       [] k \in {3, 4} -> Respond(x)
       [] k = 5 -> Deliver(v)
       [] k = 6 -> Quiet
       [] OTHER -> FALSE

Spec == Init /\ [][Next]_vars

View == <<tid, l>>   \* a log determines the rest

ASSUME \A i \in 1..Len(Log) : TLCSet(i, 0)
Progress == IF l > Len(Log[tid]) THEN TLCSet(tid, -1) ELSE TLCSet(tid, l)
Report == \A i \in 1..Len(Log) : PrintT(<<"RESULT", i, TLCGet(i)>>)
=============================================================================
