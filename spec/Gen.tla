-------------------------------- MODULE Gen ---------------------------------
(* Behaviours of the specification for replay: TLC's simulation mode walks   *)
(* through the worlds of MC, and each walk's history is printed. What the    *)
(* clients and the network do in it is then done to the real broker, and     *)
(* Trace decides about what that one does in turn.                           *)
EXTENDS MC, Json, Randomization

CONSTANTS Pace,   \* how often the broker goes first: all but one of Pace times
          Length  \* of a walk

CanSend == {c \in Conns : Alive(c) /\ input[c] = "on" /\ Sent_(c) < Limit[c]}

G_Next ==
  IF CanTake
  THEN LET c == CHOOSE c \in Conns : CanHandle(c) IN Handle(c) /\ UNCHANGED H
  ELSE IF RandomElement(1..Pace) > 1 /\ ENABLED BrokerStep THEN BrokerStep
  ELSE IF CanSend # {} /\ RandomElement(1..10) > 1
  THEN LET c == RandomElement(CanSend)
           m == Packets(c)
           some == {p \in RandomSubset(Min(4, Cardinality(m)), m) : ~Again(c, p)}
       IN \/ \E p \in some : Send(c, p)
          \/ some = {} /\ UNCHANGED mvars
  ELSE Network \/ BrokerStep \/ UNCHANGED mvars
G_Spec == M_Init /\ [][G_Next]_mvars

Show == TLCGet("level") >= Length => PrintT("HISTORY " \o ToJson(H))

-----------------------------------------------------------------------------
(* A world with a bit of everything, too large to be searched *)
ABC == <<97, 47, 98, 47, 99>>
DX  == <<36, 120>>
T5  == <<A, AB, B, ABC, DX>>
F9  == <<A, AB, B, ANY, ONE, AH, OB, <<43, 47, 43>>, <<97, 47, 43, 47, 35>>, <<36, 120>>, BAD1, <<47>>>>

All_Menu == [c \in Conns |->
  {Pub(T5[i], 10 * i + 3 * k + q, q, IF q = 0 THEN 0 ELSE 10 + i) : i \in 1..5, q \in 0..2, k \in 0..2}
  \union {Sub(20 + i, <<<<F9[i], i % 3>>>>) : i \in 1..12}
  \union {Sub(80 + i, <<<<F9[i], 1>>, <<F9[1 + (i % 12)], 2>>, <<F9[1 + ((i * 5) % 12)], 0>>>>) : i \in 1..6}
  \union {Uns(100 + i, <<F9[i]>>) : i \in 1..6} \union {Uns(120 + i, <<F9[i], F9[i + 3]>>) : i \in 1..3}
  \union {Rel(10 + i) : i \in 1..5} \union {Rec(1)} \union {Ack(i) : i \in 1..3} \union {Comp(i) : i \in 1..3}
  \union {Ping, Disc, Bad, Con(X, 0)}]
All_First == [c \in Conns |->
  {Con(IF c % 2 = 0 THEN X ELSE <<110 + c>>, IF c % 3 = 0 THEN 20 ELSE 0)}
  \union (IF c = 4 THEN {Con(<<>>, 0), [t |-> "REFUSE", code |-> 2], [t |-> "DUBIOUS"], Pub(A, 1, 1, 2), Sub(1, <<<<A, 1>>>>)} ELSE {})]
All_Limit == F(9)
All_Subs == [c \in Conns |-> IF c = 1 THEN {<<ANY, 1>>} ELSE {<<AB, 2>>}]
All_Ends == F({"eof", "gone", "rst"})
All_Times == {19000, 20000, 30300, 45300, 60300}
=============================================================================
