--------------------------------- MODULE MC ---------------------------------
(* Worlds for MCBroker. Each is a handful of clients with a menu of packets. *)
(* Deep worlds are larger ones for the thorough tier.                        *)
EXTENDS MCBroker

CONSTANT Deep    \* how many packets more than in the quick tier

A   == <<97>>                 \* a
AB  == <<97, 47, 98>>         \* a/b
B   == <<98>>
ANY == <<35>>                 \* #
ONE == <<43>>                 \* +
AH  == <<97, 47, 35>>         \* a/#
OB  == <<43, 47, 98>>         \* +/b
BAD1 == <<97, 35>>            \* a#

X == <<120>>  Y == <<121>>  Z == <<122>>

Con(id, k) == [t |-> "CONNECT", cid |-> id, clean |-> TRUE, keep |-> k]
Pub(topic, n, q, pid) == [t |-> "PUBLISH", topic |-> topic, data |-> <<n>>, qos |-> q, pid |-> pid, dup |-> FALSE, retain |-> FALSE]
Sub(pid, fs) == [t |-> "SUBSCRIBE", pid |-> pid, filters |-> fs]
Uns(pid, fs) == [t |-> "UNSUBSCRIBE", pid |-> pid, filters |-> fs]
Rel(pid) == [t |-> "PUBREL", pid |-> pid]
Rec(pid) == [t |-> "PUBREC", pid |-> pid]
Ack(pid) == [t |-> "PUBACK", pid |-> pid]
Comp(pid) == [t |-> "PUBCOMP", pid |-> pid]
Ping == [t |-> "PINGREQ"]
Disc == [t |-> "DISCONNECT"]

None == [c \in Conns |-> {}]
NoTimes == {}
F(v) == [c \in Conns |-> v]
Own == [c \in Conns |-> {Con(<<110 + c>>, 0)}]

(* match: who gets what, subscriptions coming and going meanwhile (C01, C06) *)
Match_Menu == [c \in Conns |-> IF c = 1 THEN {Pub(A, 1, 0, 0), Pub(AB, 2, 1, 7)}
                ELSE {Sub(1, <<<<A, 1>>>>), Sub(2, <<<<AH, 0>>, <<OB, 2>>>>), Uns(3, <<A, OB>>), Sub(4, <<<<A, 0>>>>)}]
Match_Limit == [c \in Conns |-> IF c = 1 THEN 3 ELSE 3 + Deep]
Match_Subs == None

(* overlap: several filters of one client for a topic (C02) *)
Overlap_Menu == [c \in Conns |-> IF c = 1 THEN {Pub(AB, 1, 2, 7), Pub(AB, 2, 1, 8)}
                  ELSE {Sub(1, <<<<AB, 1>>>>), Sub(2, <<<<ANY, 2>>>>), Sub(3, <<<<ANY, 0>>>>), Uns(4, <<ANY>>), Uns(5, <<AB>>)}]
Overlap_Limit == [c \in Conns |-> IF c = 1 THEN 2 ELSE 3 + Deep]
Overlap_Subs == [c \in Conns |-> IF c = 2 THEN {<<OB, 1>>, <<AB, 0>>} ELSE {}]

(* order: two clients publish and both get everything (C04) *)
Order_Menu == [c \in Conns |-> IF c = 1 THEN {Pub(A, 1, 0, 0), Pub(A, 2, 1, 7)} ELSE {Pub(A, 3, 0, 0), Pub(B, 4, 2, 7)}]
Order_Limit == [c \in Conns |-> IF c = 1 THEN 2 ELSE 2 + Deep]
Order_Subs == [c \in Conns |-> IF c = 1 THEN {<<ANY, 1>>} ELSE {<<A, 0>>, <<B, 2>>}]

(* requests: all kinds, one after the other (C07, C06) *)
Requests_Menu == [c \in Conns |-> IF c = 1 THEN
  {Sub(1, <<<<A, 1>>, <<BAD1, 2>>, <<B, 0>>>>), Uns(2, <<A>>), Ping, Pub(A, 1, 1, 3), Pub(B, 2, 2, 4), Rel(4), Rec(5), Ack(6), Comp(7)}
  ELSE {Pub(A, 3, 1, 1)}]
Requests_Limit == [c \in Conns |-> IF c = 1 THEN 3 + Deep ELSE 2]
Requests_Subs == None

(* qos2: repetition and release (C08) *)
Qos2_Menu == [c \in Conns |-> IF c = 1 THEN {Pub(A, 1, 2, 3), Pub(A, 2, 2, 4), Rel(3), Rel(4), Ack(3), Pub(A, 3, 1, 3)} ELSE {}]
Qos2_Limit == [c \in Conns |-> IF c = 1 THEN 4 + Deep ELSE 0]
Qos2_Subs == [c \in Conns |-> IF c = 2 THEN {<<A, 2>>} ELSE {}]

(* pids: acknowledgements by the subscriber (C09) *)
Pids_Menu == [c \in Conns |-> IF c = 1 THEN {Pub(A, 1, 2, 3), Pub(A, 2, 1, 4), Pub(A, 3, 1, 5), Pub(A, 4, 0, 0)} ELSE {Ack(1), Ack(2), Comp(1), Rec(1)}]
Pids_Limit == [c \in Conns |-> IF c = 1 THEN 3 ELSE 2 + Deep]
Pids_Subs == [c \in Conns |-> IF c = 2 THEN {<<A, 2>>} ELSE {}]

(* first: what may come instead of a CONNECT, and a second one (C10, C11, C13) *)
First_First == [c \in Conns |-> IF c = 1 THEN {Con(X, 0)} ELSE
  {Con(Y, 0), Con(<<>>, 0), [t |-> "REFUSE", code |-> 1], [t |-> "REFUSE", code |-> 2], [t |-> "DUBIOUS"], Bad,
   Pub(A, 1, 1, 2), Sub(1, <<<<A, 1>>>>), Uns(1, <<A>>), Ping, Disc, Rec(1)}]
First_Menu == [c \in Conns |-> IF c = 1 THEN {Pub(A, 9, 0, 0), Ping} ELSE
  {Con(X, 0), [t |-> "REFUSE", code |-> 1], Bad, Pub(A, 2, 1, 2), Sub(1, <<<<A, 1>>>>), Ping, Disc}]
First_Limit == [c \in Conns |-> IF c = 1 THEN 2 ELSE 2 + Deep]
First_Subs == [c \in Conns |-> IF c = 1 THEN {<<ANY, 1>>} ELSE {}]

(* takeover: two connections with the same identifier, one after the other or at once (C12, C21) *)
Takeover_First == [c \in Conns |-> IF c = 1 THEN {Con(Z, 0)} ELSE {Con(X, 0)}]
Takeover_Menu == [c \in Conns |-> CASE c = 1 -> {Pub(A, 1, 1, 5), Pub(B, 2, 0, 0)}
   [] c = 2 -> {Sub(1, <<<<B, 1>>>>), Uns(2, <<A>>), Disc, Bad}
   [] OTHER -> {Sub(3, <<<<B, 0>>>>)}]
Takeover_Limit == [c \in Conns |-> IF c = 1 THEN 2 ELSE IF c = 2 THEN 1 + Deep ELSE 2]
Takeover_Subs == [c \in Conns |-> IF c = 2 THEN {<<A, 1>>} ELSE {}]
Takeover_Ends == [c \in Conns |-> IF c = 2 THEN {"rst"} ELSE {}]

(* ends: every way a connection may end, with publications under way (C16, C19, C21) *)
Ends_Menu == [c \in Conns |-> IF c = 1 THEN {Pub(A, 1, 1, 5), Disc, Bad, Sub(3, <<<<B, 1>>>>)} ELSE {Pub(A, 3, 1, 6)}]
Ends_Limit == [c \in Conns |-> IF c = 1 THEN 2 + Deep ELSE 2]
Ends_Subs == F({<<A, 1>>})
Ends_Ends == [c \in Conns |-> IF c = 1 THEN {"eof", "gone", "rst"} ELSE {}]

(* stall: clients that stop reading (C14) *)
Stall_Menu == [c \in Conns |-> IF c = 1 THEN IF Deep > 0 THEN {Pub(A, 1, 1, 5), Sub(1, <<<<B, 1>>>>)} ELSE {Sub(1, <<<<B, 1>>>>)} ELSE {Pub(A, 3, 1, 6)}]
Stall_Limit == F(2)
Stall_Subs == F({<<A, 1>>})
Stall_Ends == [c \in Conns |-> IF c = 1 THEN {"rst"} ELSE {}]

(* time: keep-alive and the time allowed for a CONNECT (C15) *)
Time_First == [c \in Conns |-> IF c = 1 THEN {Con(X, 20)} ELSE IF c = 2 THEN {Con(Y, 0)} ELSE {Con(Z, 30)}]
Time_Menu == [c \in Conns |-> {Ping}]
Time_Limit == [c \in Conns |-> IF c = 1 THEN 2 + Deep ELSE 1]
Time_Times == {19000, 20000, 30300, 45300, 60300}

(* interrupt: at any point (C17) *)
Int_Menu == [c \in Conns |-> {Pub(A, c, 1, 5), Ping, Disc, Bad}]
Int_Limit == [c \in Conns |-> 1 + Deep]
Int_Subs == [c \in Conns |-> IF c = 1 THEN {<<A, 1>>} ELSE {}]
Int_Ends == [c \in Conns |-> IF c = 1 THEN {"rst"} ELSE {}]
=============================================================================
