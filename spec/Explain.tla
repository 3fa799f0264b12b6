------------------------------- MODULE Explain -------------------------------
(* Says in which respect a rejected trace deviates from Broker: looks at the *)
(* states in which the search of Trace got stuck and names what the next     *)
(* event is at odds with. It only classifies; Trace decides.                 *)
EXTENDS Trace

Stuck == l = Stop[tid] /\ Handleable = {}

Said(tag) == PrintT(<<"WHY", tid, tag>>)

SameText(p, d) == p.topic = d.topic /\ p.data = d.data

(* publications that are committed next and look like p *)
Next__(p) == {s \in Conns : /\ pend[s] # <<>> /\ Head(pend[s]).t = "PUBLISH"
                           /\ SameText(p, Head(pend[s]))}
Later(c, p) == \/ \E i \in 1..Len(queue[c]) : SameText(p, queue[c][i])
               \/ \E s \in Conns : \E i \in 1..Len(pend[s]) :
                     pend[s][i].t = "PUBLISH" /\ SameText(p, pend[s][i])
Earlier(c, p) == \E i \in 1..sent[c] : SameText(p, Got[tid][c][i].p)

DeliveryTags_(c, p) ==
  IF ~CanWrite(c) THEN {"late"}
  ELSE IF phase[c] # "up" THEN {"early"}
  ELSE IF queue[c] # <<>> /\ SameText(p, Head(queue[c])) THEN
       LET d == Head(queue[c]) IN
       (IF p.dup \/ p.retain THEN {"flags"} ELSE {})
       \union (IF p.qos # d.qos THEN {"qos"} ELSE IF ~PidOk(c, p) THEN {"pid"} ELSE {})
  ELSE IF Next__(p) # {} /\ queue[c] = <<>> THEN
       UNION {LET m == Head(pend[s])  g == IF current[c] THEN Granted(c, m.topic) ELSE {} IN
              IF g = {} THEN {"extra"}
              ELSE (IF p.dup \/ p.retain THEN {"flags"} ELSE {})
                   \union (IF p.qos # Min(m.qos, Max(g)) THEN {"qos"} ELSE {})
              : s \in Next__(p)}
  ELSE IF Later(c, p) THEN {"lost", "order"}
  ELSE IF Earlier(c, p) THEN {"extra", "dup"}
  ELSE IF queue[c] # <<>> \/ \E s \in Conns : pend[s] # <<>> THEN {"extra", "content"}
  ELSE {"extra"}

DeliveryTags(c, p) ==
  LET t == DeliveryTags_(c, p) IN IF t = {} THEN {"lost", "order"} ELSE t

ResponseTags(c, p) ==
  IF p.t = "BAD" THEN {"wire"}
  ELSE IF ~CanWrite(c) THEN {"late"}
  ELSE IF p.t = "CONNACK" THEN {"connack"}
  ELSE IF phase[c] # "up" THEN {"early"}
  ELSE IF owed[c] = <<>> THEN {"extraresp"}
  ELSE IF p.t = "SUBACK" THEN {"suback"}
  ELSE {"resp"}

QuietTags ==
  IF intr THEN {"noexit"}
  ELSE UNION {
    (IF pend[c] # <<>> /\ (~Blocked(c) \/ safe[c] > 0) THEN {"stuck"} ELSE {})
    \union (IF ~Alive(c) THEN {} ELSE
      (IF kicked[c] THEN {"nokick"} ELSE {})
      \union (IF MustExpire(c) THEN {"noexpire"} ELSE {})
      \union (IF input[c] = "rst" THEN {"noeof"} ELSE {})
      \union (IF stalled[c] THEN {} ELSE
        (IF owed[c] # <<>> THEN {IF owed[c][1].t \in {"CONNACK", "REFUSAL"} THEN "noconnack" ELSE "noresp"} ELSE {})
        \union (IF queue[c] # <<>> THEN {"lost"} ELSE {})
        \union (IF ending[c] THEN {"noclose"} ELSE {})
        \union (IF input[c] # "on" /\ ~ending[c] THEN {"noeof"} ELSE {})
        \union (IF inb[c] # <<>> THEN {"stuck"} ELSE {})))
    : c \in Conns}

CloseTags(c) ==
  IF phase[c] # "up" THEN {"badclose", "badrefusal"}
  ELSE IF ending[c] \/ input[c] # "on" THEN {"badclose", "noresp"}
  ELSE IF keep[c] > 0 /\ Silent(c) > 0 THEN {"badclose", "expire"}
  ELSE {"badclose"}

Tags ==
  CASE E.e = "tx" -> IF Sent[tid][l].t = "PUBLISH" THEN DeliveryTags(E.c, Sent[tid][l])
                     ELSE ResponseTags(E.c, Sent[tid][l])
    [] E.e = "q"  -> QuietTags
    [] E.e = "close"  -> CloseTags(E.c)
    [] E.e = "txpart" -> {"partial"}
    [] E.e \in {"probe", "mem"} -> {"leak"}
    [] E.e \in {"exit", "visits"} -> {"badexit"}
    [] E.e = "bind" -> {"bind"}
    [] E.e \in {"panic", "crash", "hang", "spin"} -> {E.e}
    [] OTHER -> {"unclear"}

Explaining ==
  IF Stuck THEN \A t \in Tags : Said(t) ELSE l <= Stop[tid]
=============================================================================
