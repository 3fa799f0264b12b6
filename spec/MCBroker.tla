------------------------------ MODULE MCBroker ------------------------------
(* Broker in a small world: a few clients, each of which sends packets from *)
(* a menu, and a network that ends, stalls and resumes connections. What     *)
(* clients and network do and get is recorded in a history, and the          *)
(* properties of properties.jsonl are stated over that history alone -       *)
(* independently of how Broker achieves them - and checked in every state.   *)
EXTENDS Broker

CONSTANTS
  Menu,      \* Menu[c]: the packets connection c may send
  First,     \* First[c]: the packets it may send first
  Limit,     \* Limit[c]: how many packets in all
  Up,        \* the connections that are there from the start (their first packet is a CONNECT)
  Subs0,     \* Subs0[c]: and what they are subscribed to, set of <<filter, qos>>
  Ends,      \* Ends[c]: how the network may end connection c
  Stalls,    \* connections that may stop reading (and resume)
  Times,     \* points in time
  Interrupts,\* may there be an interrupt
  Hasty,     \* packets are taken as soon as possible
  Only       \* a bound on the length of histories, 0: none

VARIABLE H

mvars == <<vars, H>>

(* ---- histories ---------------------------------------------------------- *)

Note(e, c, p) == H' = Append(H, [e |-> e, c |-> c, p |-> p])
No == [t |-> "-"]

SetToSeq_(S) == CHOOSE s \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i # j => s[i] # s[j]

FirstConnect(c) == CHOOSE p \in First[c] : p.t = "CONNECT"

RECURSIVE Prelude(_)
Prelude(S) ==
  IF S = {} THEN <<>>
  ELSE LET c == CHOOSE x \in S : \A y \in S : x <= y
           n == Cardinality(Subs0[c])
           f == SetToSeq_(Subs0[c])
           h(e, p) == [e |-> e, c |-> c, p |-> p] IN
       <<h("open", No), h("in", FirstConnect(c)), h("out", [t |-> "CONNACK", present |-> 0, code |-> 0])>>
       \o (IF n = 0 THEN <<>> ELSE
           <<h("in", [t |-> "SUBSCRIBE", pid |-> 65000, filters |-> f]),
             h("out", [t |-> "SUBACK", pid |-> 65000, codes |-> [i \in 1..n |-> f[i][2]]])>>)
       \o Prelude(S \ {c})

M_Init ==
  /\ phase = [c \in Conns |-> IF c \in Up THEN "up" ELSE "none"]
  /\ raw = All(<<>>) /\ inb = All(<<>>) /\ input = All("on")
  /\ stalled = All(FALSE) /\ pend = All(<<>>) /\ safe = All(0) /\ owed = All(<<>>)
  /\ ending = All(FALSE) /\ kicked = All(FALSE)
  /\ cid = [c \in Conns |-> IF c \in Up THEN FirstConnect(c).cid ELSE <<>>]
  /\ current = [c \in Conns |-> c \in Up]
  /\ subs = [c \in Conns |-> IF c \in Up THEN {[f |-> x[1], q |-> x[2]] : x \in Subs0[c]} ELSE {}]
  /\ queue = All(<<>>) /\ ids2 = All({}) /\ unacked = All({})
  /\ keep = [c \in Conns |-> IF c \in Up THEN FirstConnect(c).keep ELSE 0]
  /\ heard = All(0) /\ seen = All(0) /\ now = 0 /\ intr = FALSE /\ exited = FALSE
  /\ H = Prelude(Up)

In(c) == SelectSeq(H, LAMBDA x : x.e = "in" /\ x.c = c)
Sent_(c) == Len(In(c)) - (IF c \in Up /\ Subs0[c] # {} THEN 1 ELSE 0)

(* a QoS 2 PUBLISH may be repeated, other publications and requests for      *)
(* subscriptions are all different                                          *)
Again(c, p) == p.t \in {"PUBLISH", "SUBSCRIBE", "UNSUBSCRIBE"} /\ (p.t = "PUBLISH" => p.qos < 2) /\ \E i \in 1..Len(H) : H[i].e = "in" /\ H[i].c = c /\ H[i].p = p

Packets(c) == IF In(c) = <<>> THEN First[c] ELSE Menu[c]
Send(c, p) == ~Again(c, p) /\ Arrive(c, <<p>>, <<>>) /\ Note("in", c, p)

Network ==
  \/ \E c \in Conns : phase[c] = "none" /\ Open(c) /\ Note("open", c, No)
  \/ \E c \in Conns : \E how \in Ends[c] :
       input[c] = "on" /\ EndInput(c, how) /\ Note(how, c, No)
  \/ \E c \in Stalls :
       \/ ~stalled[c] /\ (\A i \in 1..Len(H) : ~(H[i].e = "stall" /\ H[i].c = c))
            /\ Stall(c, TRUE) /\ Note("stall", c, No)
       \/ stalled[c] /\ Stall(c, FALSE) /\ Note("unstall", c, No)
  \* time passes only while the broker has nothing to do
  \/ \E t \in Times : Quiet /\ t > now /\ (\A u \in Times : u > now => t <= u) /\ Tick(t) /\ Note("t", 0, [t |-> "-", at |-> t])
  \/ Interrupts /\ Interrupt /\ Note("int", 0, No)

Client ==
  \/ \E c \in Conns : Sent_(c) < Limit[c] /\ \E p \in Packets(c) : Send(c, p)
  \/ Network

(* the smallest packet identifier that is free; any other one would do *)
FreePid(c) == CHOOSE i \in 1..100 : i \notin unacked[c] /\ \A j \in 1..i - 1 : j \in unacked[c]
Outgoing(c) ==
  LET d == Head(queue[c]) IN
  [t |-> "PUBLISH", topic |-> d.topic, data |-> d.data, qos |-> d.qos, dup |-> FALSE, retain |-> FALSE,
   pid |-> IF d.qos = 0 THEN 0 ELSE FreePid(c)]
Response(c) == IF owed[c][1].t = "REFUSAL" THEN [t |-> "CONNACK", present |-> 0, code |-> 2] ELSE owed[c][1]

(* A stalled client takes nothing.                                          *)
BrokerStep ==
  \/ \E c \in Conns : (Handle(c) \/ Commit(c) \/ Swallow(c)) /\ UNCHANGED H
  \/ \E c \in Conns : owed[c] # <<>> /\ ~stalled[c] /\ Respond(c, Response(c)) /\ Note("out", c, Response(c))
  \/ \E c \in Conns : queue[c] # <<>> /\ ~stalled[c] /\ Deliver(c, Outgoing(c)) /\ Note("out", c, Outgoing(c))
  \/ \E c \in Conns : Close(c) /\ Note("close", c, No)
  \/ Exit /\ Note("exit", 0, No)

(* Taking the next packet at once rules nothing out: it concerns nobody but  *)
(* the connection itself, and leaves it all it could do before.              *)
CanTake == \E c \in Conns : CanHandle(c)
M_Next ==
  IF Hasty /\ CanTake
  THEN LET c == CHOOSE c \in Conns : CanHandle(c) IN Handle(c) /\ UNCHANGED H
  ELSE Client \/ BrokerStep
M_Spec == M_Init /\ [][M_Next]_mvars /\ WF_mvars(BrokerStep)

Short == Only = 0 \/ Len(H) <= Only

-----------------------------------------------------------------------------
(* Vocabulary of the properties. Positions in H are i, j, k, ...            *)

Pos == 1..Len(H)
Is_(i, e, c) == H[i].e = e /\ H[i].c = c
InT(i, c, t) == Is_(i, "in", c) /\ H[i].p.t = t
OutT(i, c, t) == Is_(i, "out", c) /\ H[i].p.t = t
Happened(e, c) == \E i \in Pos : Is_(i, e, c)
Refers(p, f) == \E n \in 1..Len(p.filters) : p.filters[n] = f
Requests(p, f) == \E n \in 1..Len(p.filters) : p.filters[n][1] = f
QosOf(p, f) == LET n == CHOOSE n \in 1..Len(p.filters) :
                          p.filters[n][1] = f /\ \A m \in n + 1..Len(p.filters) : p.filters[m][1] # f
               IN p.filters[n][2]
FiltersOf(c) == {f \in UNION {{H[i].p.filters[n][1] : n \in 1..Len(H[i].p.filters)} :
                              i \in {i \in Pos : InT(i, c, "SUBSCRIBE")}} : IsTopicFilter(f)}

(* c may be subscribed to f at k if the publication arrived at j: it asked   *)
(* for f, and had no confirmation before j that this is over                *)
MaySub(c, f, j, k) ==
  \E s \in 1..k - 1 : InT(s, c, "SUBSCRIBE") /\ Requests(H[s].p, f)
    /\ ~\E v \in s + 1..j - 1 : InT(v, c, "UNSUBSCRIBE") /\ Refers(H[v].p, f)
         /\ \E u \in v + 1..j - 1 : OutT(u, c, "UNSUBACK") /\ H[u].p.pid = H[v].p.pid

Concerns(v, c, f) == \/ InT(v, c, "SUBSCRIBE") /\ Requests(H[v].p, f)
                     \/ InT(v, c, "UNSUBSCRIBE") /\ Refers(H[v].p, f)

(* the grant c has for f for certain from before j till after k: its last    *)
(* request for f before k was answered before j                             *)
SureGrant(c, f, j, k) ==
  {QosOf(H[s].p, f) : s \in {s \in 1..j - 1 :
     /\ InT(s, c, "SUBSCRIBE") /\ Requests(H[s].p, f)
     /\ ~\E v \in s + 1..k - 1 : Concerns(v, c, f)
     /\ \E u \in s + 1..j - 1 : OutT(u, c, "SUBACK") /\ H[u].p.pid = H[s].p.pid}}
Sure(c, topic, j, k) == UNION {SureGrant(c, f, j, k) : f \in {f \in FiltersOf(c) : Matches(f, topic)}}
May(c, topic, j, k) ==
  UNION {{QosOf(H[s].p, f) : s \in {s \in 1..k - 1 : InT(s, c, "SUBSCRIBE") /\ Requests(H[s].p, f)}}
         : f \in {f \in FiltersOf(c) : Matches(f, topic) /\ MaySub(c, f, j, k)}}

IsPub(i) == H[i].e = "in" /\ H[i].p.t = "PUBLISH"
IsDel(i) == H[i].e = "out" /\ H[i].p.t = "PUBLISH"
Connected(c, j) == \E i \in 1..j - 1 : OutT(i, c, "CONNACK") /\ H[i].p.code = 0

(* what ends a session early: from then on packets of c do not count *)
Fatal(p, n) == \* the n-th packet of a connection
  \/ n = 1 /\ p.t # "CONNECT"
  \/ n > 1 /\ p.t \in {"CONNECT", "REFUSE", "DUBIOUS", "BAD", "DISCONNECT"}
Number(j) == Cardinality({i \in 1..j : Is_(i, "in", H[j].c)})
Counts(j) == ~\E i \in 1..j : Is_(i, "in", H[j].c) /\ Fatal(H[i].p, Number(i))

(* a publication of its own rather than the repetition of one *)
IsNew(j) ==
  /\ IsPub(j)
  /\ H[j].p.qos = 2 => ~\E i \in 1..j - 1 :
       /\ InT(i, H[j].c, "PUBLISH") /\ H[i].p.qos = 2 /\ H[i].p.pid = H[j].p.pid
       /\ ~\E k \in i + 1..j - 1 : InT(k, H[j].c, "PUBREL") /\ H[k].p.pid = H[j].p.pid

(* packets c sent that want a response, and the response *)
Answer(p) ==
  CASE p.t = "CONNECT" -> <<[t |-> "CONNACK", present |-> 0, code |-> 0]>>
    [] p.t = "PUBLISH" /\ p.qos = 1 -> <<[t |-> "PUBACK", pid |-> p.pid]>>
    [] p.t = "PUBLISH" /\ p.qos = 2 -> <<[t |-> "PUBREC", pid |-> p.pid]>>
    [] p.t = "PUBREC" -> <<[t |-> "PUBREL", pid |-> p.pid]>>
    [] p.t = "PUBREL" -> <<[t |-> "PUBCOMP", pid |-> p.pid]>>
    [] p.t = "PINGREQ" -> <<[t |-> "PINGRESP"]>>
    [] p.t = "SUBSCRIBE" -> <<[t |-> "SUBACK", pid |-> p.pid,
         codes |-> [i \in 1..Len(p.filters) |-> IF IsTopicFilter(p.filters[i][1]) THEN p.filters[i][2] ELSE 128]]>>
    [] p.t = "UNSUBSCRIBE" -> <<[t |-> "UNSUBACK", pid |-> p.pid]>>
    [] OTHER -> <<>>

RECURSIVE Answers(_, _, _)
Answers(c, i, n) == \* responses to what c sent from position i on, n packets before
  IF i > Len(H) THEN <<>>
  ELSE IF ~Is_(i, "in", c) THEN Answers(c, i + 1, n)
  ELSE IF n = 0 /\ H[i].p.t = "REFUSE" THEN <<[t |-> "CONNACK", present |-> 0, code |-> H[i].p.code]>>
  ELSE IF n = 0 /\ H[i].p.t = "DUBIOUS" THEN <<[t |-> "CONNACK", present |-> 0, code |-> 2]>>
  ELSE IF n > 0 /\ H[i].p.t \in {"CONNECT", "REFUSE", "DUBIOUS"} THEN <<[t |-> "CONNACK", present |-> 0, code |-> 2]>>
  ELSE IF Fatal(H[i].p, n + 1) THEN <<>>
  ELSE Answer(H[i].p) \o Answers(c, i + 1, n + 1)

Responses(c) == LET s == SelectSeq(H, LAMBDA x : x.e = "out" /\ x.c = c /\ x.p.t # "PUBLISH")
                IN [i \in 1..Len(s) |-> s[i].p]
IsPrefix(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s

(* the connection is there, its client takes what it is sent *)
Fine(c) == Happened("open", c) /\ ~Happened("close", c) /\ ~Happened("exit", 0)
           /\ ~stalled[c] /\ (~\E h \in {"eof", "gone", "rst"} : Happened(h, c))
Disturbed(c) == \/ \E h \in {"gone", "rst"} : Happened(h, c)
                \/ Happened("int", 0)
                \/ \E i \in Pos : H[i].e = "t"
                \/ \E i \in Pos : InT(i, c, "CONNECT") /\ Counts(i) /\ H[i].p.cid # <<>> /\
                     \E d \in Conns \ {c} : \E k \in Pos : InT(k, d, "CONNECT") /\ H[k].p.cid = H[i].p.cid

(* the publication at j has certainly been taken by the broker *)
Acknowledged(j) == H[j].p.qos > 0 /\ \E k \in j + 1..Len(H) :
                     /\ H[k].e = "out" /\ H[k].c = H[j].c /\ H[k].p.t \in {"PUBACK", "PUBREC"}
                     /\ H[k].p.pid = H[j].p.pid
Taken(j) == Counts(j) /\ (Acknowledged(j) \/ (Quiet /\ ~Disturbed(H[j].c) /\ ~stalled[H[j].c]))

-----------------------------------------------------------------------------
(* The properties. Where one says something about an event and what went     *)
(* before, it need only be checked for the latest event: the others were     *)
(* the latest in an earlier state.                                          *)
Latest == IF H = <<>> THEN {} ELSE {Len(H)}

(* C01, C06, C12, C21: whoever gets a publication asked for it himself, on   *)
(* this connection, and had no confirmation before that this is over        *)
C01_OnlyMatching ==
  \A i \in Latest : IsDel(i) =>
    \E j \in 1..i - 1 : IsPub(j) /\ H[j].p.topic = H[i].p.topic /\ H[j].p.data = H[i].p.data
                        /\ May(H[i].c, H[j].p.topic, j, i) # {}

(* C01, C06, C16, C19: publications reach all who had their subscription     *)
(* confirmed when they were sent                                            *)
C01_AllMatching ==
  Quiet => \A j \in Pos : IsNew(j) /\ Taken(j) =>
    \A c \in Conns : Fine(c) /\ Sure(c, H[j].p.topic, j, Len(H) + 1) # {} =>
      \E i \in j + 1..Len(H) : IsDel(i) /\ H[i].c = c /\ H[i].p.data = H[j].p.data

(* C02, C08: one copy each *)
C02_OneCopy ==
  \A i \in Latest : IsDel(i) =>
    Cardinality({k \in Pos : IsDel(k) /\ H[k].c = H[i].c /\ H[k].p.data = H[i].p.data})
      <= Cardinality({k \in Pos : IsNew(k) /\ H[k].p.data = H[i].p.data})

(* C02, C09: at the highest QoS granted *)
C02_Qos ==
  \A i \in Latest : IsDel(i) =>
    \E j \in 1..i - 1 : IsPub(j) /\ H[j].p.data = H[i].p.data /\
      LET sure == Sure(H[i].c, H[j].p.topic, j, i)  may == May(H[i].c, H[j].p.topic, j, i) IN
      /\ sure # {} => H[i].p.qos >= Min(H[j].p.qos, Max(sure))
      /\ may # {} /\ H[i].p.qos <= Min(H[j].p.qos, Max(may))

C03_Content ==
  \A i \in Latest : IsDel(i) =>
    /\ ~H[i].p.dup /\ ~H[i].p.retain
    /\ \E j \in 1..i - 1 : IsPub(j) /\ H[j].p.topic = H[i].p.topic /\ H[j].p.data = H[i].p.data

(* C04, for publications whose content is unique *)
Unique(d) == Cardinality({i \in Pos : IsNew(i) /\ H[i].p.data = d}) = 1
Origin(d) == CHOOSE i \in Pos : IsNew(i) /\ H[i].p.data = d
Where(c, d) == {i \in Pos : IsDel(i) /\ H[i].c = c /\ H[i].p.data = d}
(* of two publications of one client nobody gets the second one first *)
C04_Fifo ==
  \A i \in Latest : IsDel(i) /\ Unique(H[i].p.data) =>
    LET k == Origin(H[i].p.data) IN
    \A x \in 1..i - 1 : IsDel(x) /\ H[x].c = H[i].c /\ Unique(H[x].p.data) =>
      LET j == Origin(H[x].p.data) IN H[j].c # H[k].c \/ j <= k
(* and no two clients get two publications in different orders *)
C04_Agree ==
  \A i \in Latest : IsDel(i) /\ Unique(H[i].p.data) =>
    \A x \in 1..i - 1 : IsDel(x) /\ H[x].c = H[i].c /\ H[x].p.data # H[i].p.data /\ Unique(H[x].p.data) =>
      \A b \in Conns \ {H[i].c} : \A v \in Where(b, H[x].p.data) : \A w \in Where(b, H[i].p.data) : v < w

(* C06, C07, C10, C11, C20: responses are those to the requests, in order;   *)
(* if the client stays, all of them                                         *)
C07_Responses ==
  \A i \in Latest : H[i].e = "out" => IsPrefix(Responses(H[i].c), Answers(H[i].c, 1, 0))
C07_AllAnswered ==
  Quiet => \A c \in Conns : Fine(c) => Responses(c) = Answers(c, 1, 0)
(* also those who close their side, but keep reading, and those who are closed for an error *)
C16_AnsweredBeforeEnd ==
  Quiet => \A c \in Conns : ~Disturbed(c) /\ ~stalled[c] /\ Happened("open", c) =>
    LET all == Answers(c, 1, 0) IN
    \/ Responses(c) = all
    \* of the refusal of a second CONNECT
    \/ \E i \in Pos : Is_(i, "in", c) /\ H[i].p.t \in {"CONNECT", "REFUSE", "DUBIOUS"} /\ Fatal(H[i].p, Number(i))
                      /\ Responses(c) = SubSeq(all, 1, Len(all) - 1)

(* a packet identifier is used again only after it has been acknowledged (no *)
(* matter when the broker gets to see that)                                  *)
C09_Pids ==
  \A i \in Latest : IsDel(i) =>
    /\ (H[i].p.qos = 0) = (H[i].p.pid = 0)
    /\ H[i].p.qos > 0 =>
         Cardinality({j \in 1..i - 1 : IsDel(j) /\ H[j].c = H[i].c /\ H[j].p.qos > 0 /\ H[j].p.pid = H[i].p.pid})
           <= Cardinality({k \in 1..i - 1 : Is_(k, "in", H[i].c) /\ H[k].p.t \in {"PUBACK", "PUBCOMP"}
                                           /\ H[k].p.pid = H[i].p.pid})

(* C10: nothing before the CONNECT and its acceptance *)
C10_Connack ==
  \A i \in Latest : H[i].e = "out" =>
    LET c == H[i].c IN
    \/ H[i].p.t = "CONNACK"
    \/ \E k \in 1..i - 1 : OutT(k, c, "CONNACK") /\ H[k].p.code = 0
C10_NoEffect ==
  \A i \in Latest : IsDel(i) => \E j \in 1..i - 1 :
    IsPub(j) /\ H[j].p.data = H[i].p.data /\ Counts(j)

(* C11, C13: connections are closed for a reason of their own *)
RealReason(c, i) ==
  \/ \E k \in 1..i : Is_(k, "in", c) /\ Fatal(H[k].p, Cardinality({m \in 1..k : Is_(m, "in", c)}))
  \/ \E k \in 1..i : H[k].e \in {"eof", "gone", "rst"} /\ H[k].c = c
  \/ \E k \in 1..i : H[k].e = "int"
  \/ \E k, m \in 1..i : \E d \in Conns \ {c} : InT(k, c, "CONNECT") /\ InT(m, d, "CONNECT")
       /\ H[k].p.cid = H[m].p.cid /\ H[k].p.cid # <<>>
Reason(c, i) == RealReason(c, i) \/ \E k \in 1..i : H[k].e = "t"    \* C15 says when
C13_Reason == \A i \in Latest : H[i].e = "close" => Reason(H[i].c, i)
C13_Closed ==
  Quiet => \A c \in Conns : ~stalled[c] /\ (\E k \in Pos : Is_(k, "in", c) /\ Fatal(H[k].p, Number(k))) =>
    Happened("close", c) \/ Happened("exit", 0)

(* C12: at most one connection per identifier, the last one accepted *)
Accepted(c) == {i \in Pos : OutT(i, c, "CONNACK") /\ H[i].p.code = 0}
NameOf(c) == (CHOOSE p \in {H[i].p : i \in {i \in Pos : InT(i, c, "CONNECT")}} : TRUE).cid
C12_Newest ==
  Quiet => \A c, d \in Conns : c # d /\ Fine(c) /\ Fine(d) /\ Accepted(c) # {} /\ Accepted(d) # {} =>
    NameOf(c) # NameOf(d) \/ NameOf(c) = <<>>

(* C15 *)
LastHeard(c, i) == \* time of the last packet before i
  LET T(k) == {H[m].p.at : m \in {m \in 1..k : H[m].e = "t"}} \union {0}
      ks == {k \in 1..i : (H[k].c = c /\ H[k].e \in {"open", "in", "unstall"}) \/ k \in Accepted(c)}
  IN IF ks = {} THEN 0 ELSE Max(T(Max(ks)))
Stalled_(c, k) == \E m \in 1..k : Is_(m, "stall", c) /\ ~\E n \in m + 1..k : Is_(n, "unstall", c)
LastSeen(c, i) == \* and of the last one before i sent while the client took what it was sent
  LET T(k) == {H[m].p.at : m \in {m \in 1..k : H[m].e = "t"}} \union {0}
      ks == {k \in 1..i : Is_(k, "open", c) \/ k \in Accepted(c) \/ (Is_(k, "in", c) /\ ~Stalled_(c, k))}
  IN IF ks = {} THEN 0 ELSE Max(T(Max(ks)))
TimeAt(i) == Max({H[m].p.at : m \in {m \in 1..i : H[m].e = "t"}} \union {0})
C15_NotEarly ==
  \A i \in Latest : H[i].e = "close" /\ ~RealReason(H[i].c, i) =>
    LET c == H[i].c IN
    IF \E k \in Accepted(c) : k < i
    THEN FirstConnect(c).keep > 0 /\ TimeAt(i) - LastSeen(c, i) > FirstConnect(c).keep * 1000
    ELSE TimeAt(i) >= ConnectTime \div 2
C15_InTime ==
  Quiet => \A c \in Conns : Fine(c) =>
    IF Accepted(c) # {}
    THEN FirstConnect(c).keep > 0 => now - LastHeard(c, Len(H)) < FirstConnect(c).keep * 1500 + Slack
    ELSE now - LastHeard(c, Len(H)) < ConnectTime + Slack

(* C16: the end of a connection is noticed *)
C16_Noticed ==
  Quiet => \A c \in Conns : ~stalled[c] /\ (\E h \in {"eof", "gone", "rst"} : Happened(h, c)) =>
    Happened("close", c) \/ Happened("exit", 0)

(* C17 *)
C17_Exit == Happened("int", 0) ~> Happened("exit", 0)
C17_AllClosed == Happened("exit", 0) => \A c \in Conns : Accepted(c) # {} => Happened("close", c)

(* C14: the broker never gets stuck: it comes to rest, and only there *)
C14_NoDeadlock == Quiet \/ ENABLED BrokerStep
C14_Rest == []<>(Quiet)

(* C19 is C01_AllMatching with Acknowledged in Taken                        *)

(* C20 *)
C20_Filters ==
  \A c \in Conns : \A s \in subs[c] : IsTopicFilter(s.f)

(* C21: nothing is kept for a connection that has ended *)
C21_Released ==
  \A c \in Conns : phase[c] = "closed" =>
    /\ subs[c] = {} /\ ~current[c] /\ queue[c] = <<>> /\ ids2[c] = {} /\ unacked[c] = {}
    /\ Quiet /\ ~exited => pend[c] = <<>>

(* C22: who comes and introduces himself properly is welcomed *)
C22_Welcome ==
  Quiet => \A c \in Conns : Fine(c) /\ In(c) # <<>> /\ In(c)[1].p.t = "CONNECT" => Accepted(c) # {}
=============================================================================
