------------------------------- MODULE MCLoop -------------------------------
(* Worlds for Loop. *)
EXTENDS Loop

A == <<97>>   Bt == <<98>>
X == <<120>>  Y == <<121>>  Z == <<122>>
Con(id) == [t |-> "CONNECT", cid |-> id, clean |-> TRUE, keep |-> 0]
ConK(id, k) == [t |-> "CONNECT", cid |-> id, clean |-> TRUE, keep |-> k]
Pub(topic, n, qos, pid) == [t |-> "PUBLISH", topic |-> topic, data |-> <<n>>, qos |-> qos, pid |-> pid, dup |-> FALSE, retain |-> FALSE]
Sub(pid, fs) == [t |-> "SUBSCRIBE", pid |-> pid, filters |-> fs]
Uns(pid, fs) == [t |-> "UNSUBSCRIBE", pid |-> pid, filters |-> fs]
Disc == [t |-> "DISCONNECT"]
Ping == [t |-> "PINGREQ"]

ByConn(s) == [c \in Conns |-> s[c]]
NoEnds == [c \in Conns |-> {}]
NoKeep == [c \in Conns |-> 0]

(* everybody publishes to everybody, channels of one, clients that stop reading *)
Flood_Name == ByConn(<<X, Y>>)
Flood_Subs == ByConn(<<{<<A, 1>>}, {<<A, 1>>}>>)
Flood_Menu == [c \in Conns |-> {Pub(A, c, 1, 5), Sub(7, <<<<A, 0>>>>)}]
Flood_Limit == ByConn(<<1, 2>>)
Flood_Deep  == [c \in Conns |-> 2]

(* an identifier changes hands *)
Take_Name == ByConn(<<Z, X, X>>)
Take_Subs == ByConn(<<{}, {<<A, 1>>}, {}>>)
Take_Menu == ByConn(<<{Pub(A, 1, 1, 5)}, {Sub(1, <<<<Bt, 1>>>>), Disc}, {Con(X), Sub(3, <<<<A, 0>>>>)}>>)
Take_Limit == ByConn(<<1, 1, 2>>)
Take_Deep  == ByConn(<<2, 1, 2>>)
Take_Ends == ByConn(<<{}, {"rst"}, {}>>)

(* connections end in every way *)
Ends_Name == ByConn(<<X, Y>>)
Ends_Subs == ByConn(<<{<<A, 1>>}, {<<A, 2>>}>>)
Ends_Menu == ByConn(<<{Pub(A, 1, 1, 5), Disc}, {Pub(A, 2, 2, 6), Uns(3, <<A>>)}>>)
Ends_Limit == ByConn(<<2, 1>>)
Ends_Deep  == ByConn(<<2, 2>>)
Ends_Ends == ByConn(<<{"eof", "rst"}, {}>>)

(* the broker is told to end *)
Int_Name == ByConn(<<X, Y>>)
Int_Subs == ByConn(<<{<<A, 1>>}, {}>>)
Int_Menu == ByConn(<<{Pub(A, 1, 1, 5), Ping}, {Con(Y)}>>)
Int_Limit == ByConn(<<2, 1>>)
Int_Deep  == ByConn(<<3, 1>>)

(* requests: first packets, QoS 2 repeated and released *)
Reqs_Name == ByConn(<<X, Y>>)
Reqs_Subs == ByConn(<<{<<A, 2>>}, {}>>)
Reqs_Menu == ByConn(<<{Pub(A, 1, 2, 5), [t |-> "PUBREL", pid |-> 5], [t |-> "PUBACK", pid |-> 1], Ping, Con(X)},
                      {Con(Y), [t |-> "REFUSE", code |-> 1], Pub(A, 2, 1, 5)}>>)
Reqs_Limit == ByConn(<<2, 2>>)
Reqs_Deep  == ByConn(<<3, 3>>)

(* keep-alive, before and after CONNECT, reading and not *)
Time_Name == ByConn(<<X, Y>>)
Time_Subs == ByConn(<<{<<A, 1>>}, {}>>)
Time_Keep == ByConn(<<1, 0>>)
Time_Menu == ByConn(<<{Ping, Pub(A, 1, 1, 5)}, {Con(Y), ConK(Y, 1), Pub(A, 2, 0, 0)}>>)
Time_Limit == ByConn(<<1, 2>>)
Time_Deep  == ByConn(<<2, 2>>)
=============================================================================
