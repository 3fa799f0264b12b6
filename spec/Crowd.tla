------------------------------- MODULE Crowd -------------------------------
(* Very many connections at the same time: the projection of Broker to who is *)
(* there, who asked for what and who has to get the publication that is under *)
(* way, for clients that all use the filter "t" and publish nothing but "t".  *)
(* A log is a sequence of numbers 10 * c + k about connection c:              *)
(*   k = 0  it opens and says nothing        k = 1  it opens, sends CONNECT   *)
(*   k = 2  it is sent CONNACK 0             k = 3  it sends SUBSCRIBE        *)
(*   k = 4  it is sent the SUBACK            k = 5  it sends PUBLISH, QoS 0   *)
(*   k = 6  it is sent that publication      k = 7  it leaves or has to go    *)
(*   k = 8  the broker closes it             k = 9  anything else             *)
(* and 10 * 0 + 9: nothing is left to do.                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

ASSUME TLCSet(100000, TLCEval(JsonDeserialize(IOEnv.TRACES).logs))
Log == TLCGet(100000)

(* sets of connections, in parts that are cheap to change *)
Part == 0..127
None == [h \in Part |-> {}]
In(s, c) == c \in s[c % 128]
With(s, c) == [s EXCEPT ![c % 128] = @ \union {c}]
Less(s, c) == [s EXCEPT ![c % 128] = @ \ {c}]

VARIABLES tid, l,
  open,    \* connections that are there
  new,     \* of these, those that have to get their CONNACK
  asked,   \* ... their SUBACK
  subs,    \* those that are subscribed
  due,     \* those that have to get the publication
  gone     \* those that have left but which the broker has not closed yet

vars == <<tid, l, open, new, asked, subs, due, gone>>

Init == tid \in 1..Len(Log) /\ l = 1 /\ open = None /\ new = None /\ asked = None /\ subs = None /\ due = None /\ gone = None

Idle(c)      == ~In(open, c) /\ ~In(gone, c) /\ open' = With(open, c) /\ UNCHANGED <<new, asked, subs, due, gone>>
Connect(c)   == ~In(open, c) /\ ~In(gone, c) /\ open' = With(open, c) /\ new' = With(new, c) /\ UNCHANGED <<asked, subs, due, gone>>
ConnAck(c)   == In(new, c) /\ new' = Less(new, c) /\ UNCHANGED <<open, asked, subs, due, gone>>
Subscribe(c) == In(open, c) /\ asked' = With(asked, c) /\ UNCHANGED <<open, new, subs, due, gone>>
SubAck(c)    == In(asked, c) /\ ~In(new, c) /\ asked' = Less(asked, c) /\ subs' = With(subs, c) /\ UNCHANGED <<open, new, due, gone>>
(* the logs publish only when nothing else is to be done *)
Publish(c)   == In(open, c) /\ new = None /\ asked = None /\ due = None /\ due' = subs /\ UNCHANGED <<open, new, asked, subs, gone>>
Deliver(c)   == In(due, c) /\ due' = Less(due, c) /\ UNCHANGED <<open, new, asked, subs, gone>>
Leave(c)     == /\ In(open, c) /\ open' = Less(open, c) /\ gone' = With(gone, c)
                /\ new' = Less(new, c) /\ asked' = Less(asked, c) /\ subs' = Less(subs, c) /\ due' = Less(due, c)
Close(c)     == In(gone, c) /\ gone' = Less(gone, c) /\ UNCHANGED <<open, new, asked, subs, due>>
Quiet        == new = None /\ asked = None /\ due = None /\ gone = None /\ UNCHANGED <<open, new, asked, subs, due, gone>>

Next ==
  /\ l <= Len(Log[tid]) /\ l' = l + 1 /\ UNCHANGED tid
  /\ LET x == Log[tid][l] k == x % 10 c == x \div 10 IN
     CASE x = 9 -> Quiet
       [] k = 0 -> Idle(c)
       [] k = 1 -> Connect(c)
       [] k = 2 -> ConnAck(c)
       [] k = 3 -> Subscribe(c)
       [] k = 4 -> SubAck(c)
       [] k = 5 -> Publish(c)
       [] k = 6 -> Deliver(c)
       [] k = 7 -> Leave(c)
       [] k = 8 -> Close(c)
       [] OTHER -> FALSE

Spec == Init /\ [][Next]_vars

View == <<tid, l>>   \* a log determines the rest

ASSUME \A i \in 1..Len(Log) : TLCSet(i, 0)
Progress == IF l > Len(Log[tid]) THEN TLCSet(tid, -1) ELSE TLCSet(tid, l)
Report == \A i \in 1..Len(Log) : PrintT(<<"RESULT", i, TLCGet(i)>>)
=============================================================================
