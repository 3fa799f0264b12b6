------------------------------- MODULE Broker -------------------------------
(* The broker as its clients see it.                                        *)
(*                                                                          *)
(* Every connection has a handler that takes the client's packets one after *)
(* the other (Handle). Requests that touch shared state are put on the      *)
(* connection's pending list and take effect later, one at a time, at their *)
(* commit point (Commit); that is the linearization point of CONNECT,       *)
(* SUBSCRIBE, UNSUBSCRIBE and PUBLISH. Responses and deliveries leave the   *)
(* broker in Respond and Deliver; Close ends a connection. What the clients *)
(* and the network do are the actions Open .. Interrupt. Quiet is not a     *)
(* step of the broker but a statement about it: it may only be silent when  *)
(* nothing is owed to anybody.                                              *)
(*                                                                          *)
(* Deliberate nondeterminism: deliveries may be sent at any time, before or *)
(* after a response that is owed; commands of different connections commit  *)
(* in any order; a connection that is being taken over, interrupted, broken *)
(* or timed out may drop what it has not acknowledged.                      *)
EXTENDS Wire, FiniteSets, TLC

CONSTANTS Conns,       \* connection numbers
          ConnectTime, \* a connection without CONNECT is closed after this (ms)
          Slack        \* tolerance for timers (ms)

VARIABLES
  phase,    \* "none", "open", "joining", "up", "closed"
  raw,      \* received bytes that do not make up a packet yet
  inb,      \* packets received, not yet handled
  input,    \* "on", "eof" (client closed its side), "gone" (and takes nothing more), "rst"
  stalled,  \* the client takes only some bytes or none
  pend,     \* commands handed over, not yet committed
  safe,     \* so many of them must commit whatever happens
  owed,     \* the response that is to be sent next (at most one)
  ending,   \* the connection is to be closed in good order
  kicked,   \* its client identifier has been taken over
  cid,      \* client identifier
  current,  \* the session of cid belongs to this connection
  subs,     \* subscriptions: set of [f, q]
  queue,    \* deliveries not yet sent
  ids2,     \* packet identifiers of QoS 2 publications not yet released
  unacked,  \* packet identifiers of deliveries not yet acknowledged by the client
  keep,     \* keep-alive in seconds
  heard,    \* time of the last packet (or of the opening)
  seen,     \* the same, but of the last packet that was certainly seen at once
  now,      \* time in ms
  intr,     \* interrupted
  exited    \* the broker has ended

vars == <<phase, raw, inb, input, stalled, pend, safe, owed, ending, kicked, cid,
          current, subs, queue, ids2, unacked, keep, heard, seen, now, intr, exited>>

\* groups of variables that actions leave alone together
netV  == <<phase, raw, inb, input, stalled>>
cmdV  == <<pend, safe, owed>>
endV  == <<ending, kicked>>
sessV == <<cid, current, subs>>
delV  == <<queue, ids2, unacked>>
timeV == <<keep, heard, seen, now>>
progV == <<intr, exited>>

(* evaluates a guard as a value, so that TLC does not take the disjunctions  *)
(* in it for alternative steps                                              *)
Is(b) == b = TRUE

All(v) == [c \in Conns |-> v]

Init ==
  /\ phase = All("none") /\ raw = All(<<>>) /\ inb = All(<<>>) /\ input = All("on")
  /\ stalled = All(FALSE) /\ pend = All(<<>>) /\ safe = All(0) /\ owed = All(<<>>)
  /\ ending = All(FALSE) /\ kicked = All(FALSE) /\ cid = All(<<>>) /\ current = All(FALSE)
  /\ subs = All({}) /\ queue = All(<<>>) /\ ids2 = All({}) /\ unacked = All({})
  /\ keep = All(0) /\ heard = All(0) /\ seen = All(0) /\ now = 0 /\ intr = FALSE /\ exited = FALSE

Alive(c) == phase[c] \in {"open", "joining", "up"}

-----------------------------------------------------------------------------
(* The clients and the network *)

(* Connection numbers are used again once nothing is left of the last one.  *)
Open(c) ==
  /\ phase[c] \in {"none", "closed"} /\ pend[c] = <<>>
  /\ phase' = [phase EXCEPT ![c] = IF exited THEN "closed" ELSE "open"]
  /\ heard' = [heard EXCEPT ![c] = now] /\ seen' = [seen EXCEPT ![c] = now]
  /\ input' = [input EXCEPT ![c] = "on"]
  /\ stalled' = [stalled EXCEPT ![c] = FALSE]
  /\ ending' = [ending EXCEPT ![c] = FALSE]
  /\ kicked' = [kicked EXCEPT ![c] = FALSE]
  /\ UNCHANGED <<raw, inb, cmdV, sessV, delV, keep, now, progV>>

(* Complete packets arrive, and the beginning of another one. Packets count *)
(* as heard when they are complete. Those of a client that takes nothing    *)
(* may have to wait, and may not.                                           *)
Arrive(c, packets, rest) ==
  /\ Alive(c) /\ input[c] = "on"
  /\ raw' = [raw EXCEPT ![c] = rest]
  /\ inb' = [inb EXCEPT ![c] = @ \o packets]
  /\ heard' = IF packets # <<>> /\ phase[c] # "open" THEN [heard EXCEPT ![c] = now] ELSE heard
  /\ seen' = IF packets # <<>> /\ phase[c] # "open" /\ ~stalled[c] THEN [seen EXCEPT ![c] = now] ELSE seen
  /\ UNCHANGED <<phase, input, stalled, cmdV, endV, sessV, delV, keep, now, progV>>

Recv(c, bytes) == LET r == Split(raw[c] \o bytes, <<>>) IN Arrive(c, r.packets, r.rest)

EndInput(c, how) ==
  /\ Alive(c)
  /\ input' = [input EXCEPT ![c] = IF @ = "rst" \/ (how = "eof" /\ @ # "on") THEN @ ELSE how]
  /\ UNCHANGED <<phase, raw, inb, stalled, cmdV, endV, sessV, delV, timeV, progV>>

Stall(c, on) ==
  /\ Alive(c)
  /\ stalled' = [stalled EXCEPT ![c] = on]
  \* what it sent while it was not reading counts as heard now
  /\ heard' = IF stalled[c] /\ phase[c] # "open" THEN [heard EXCEPT ![c] = now] ELSE heard
  \* and if it has just sent something, nobody knows whether that has been seen
  /\ seen' = IF on /\ ~stalled[c] /\ inb[c] # <<>> THEN [seen EXCEPT ![c] = 0] ELSE seen
  /\ UNCHANGED <<phase, raw, inb, input, cmdV, endV, sessV, delV, keep, now, progV>>

Tick(t) ==
  /\ t > now
  /\ now' = t
  /\ UNCHANGED <<netV, cmdV, endV, sessV, delV, keep, heard, seen, progV>>

Interrupt ==
  /\ ~intr /\ intr' = TRUE
  /\ UNCHANGED <<netV, cmdV, endV, sessV, delV, timeV, exited>>

-----------------------------------------------------------------------------
(* The handler of a connection takes the next packet *)

Waiting(c) == \* for the commit of a request
  pend[c] # <<>> /\ pend[c][Len(pend[c])].t # "PUBLISH"

CanHandle(c) ==
  /\ phase[c] \in {"open", "up"} /\ ~ending[c] /\ inb[c] # <<>>
  /\ owed[c] = <<>> /\ ~Waiting(c)

Next_(c) == Head(inb[c])
Pop(c) == inb' = [inb EXCEPT ![c] = Tail(@)]
Owe(c, p) == owed' = [owed EXCEPT ![c] = <<p>>]
Command(c, p) == pend' = [pend EXCEPT ![c] = Append(@, p)]

(* nothing but a CONNECT is taken before the CONNECT *)
HandleFirst(c) ==
  LET p == Next_(c) IN
  /\ phase[c] = "open"
  /\ Pop(c)
  /\ CASE p.t = "CONNECT" ->
            /\ phase' = [phase EXCEPT ![c] = "joining"]
            /\ Command(c, p)
            /\ UNCHANGED <<owed, ending>>
       [] p.t = "REFUSE" ->
            /\ Owe(c, [t |-> "CONNACK", present |-> 0, code |-> p.code])
            /\ ending' = [ending EXCEPT ![c] = TRUE]
            /\ UNCHANGED <<phase, pend>>
       [] p.t = "DUBIOUS" -> \* may be refused, or taken for malformed
            /\ Owe(c, [t |-> "REFUSAL"])
            /\ ending' = [ending EXCEPT ![c] = TRUE]
            /\ UNCHANGED <<phase, pend>>
       [] OTHER ->
            /\ ending' = [ending EXCEPT ![c] = TRUE]
            /\ UNCHANGED <<phase, pend, owed>>
  /\ UNCHANGED <<raw, input, stalled, safe, kicked, sessV, delV, timeV, progV>>

Same == UNCHANGED <<ids2, unacked>>

HandleNext(c) ==
  LET p == Next_(c) IN
  /\ phase[c] = "up"
  /\ Pop(c)
  /\ CASE p.t = "PUBLISH" ->
            /\ IF p.qos = 2 /\ p.pid \in ids2[c] THEN UNCHANGED pend ELSE Command(c, p)
            /\ ids2' = IF p.qos = 2 THEN [ids2 EXCEPT ![c] = @ \union {p.pid}] ELSE ids2
            /\ CASE p.qos = 0 -> UNCHANGED owed
                 [] p.qos = 1 -> Owe(c, [t |-> "PUBACK", pid |-> p.pid])
                 [] p.qos = 2 -> Owe(c, [t |-> "PUBREC", pid |-> p.pid])
            /\ UNCHANGED <<ending, unacked>>
       [] p.t = "PUBREL" ->
            /\ ids2' = [ids2 EXCEPT ![c] = @ \ {p.pid}]
            /\ Owe(c, [t |-> "PUBCOMP", pid |-> p.pid])
            /\ UNCHANGED <<pend, ending, unacked>>
       [] p.t = "PUBREC" ->
            /\ Owe(c, [t |-> "PUBREL", pid |-> p.pid])
            /\ UNCHANGED <<pend, ending, ids2, unacked>>
       [] p.t \in {"PUBACK", "PUBCOMP"} ->
            /\ unacked' = [unacked EXCEPT ![c] = @ \ {p.pid}]
            /\ UNCHANGED <<pend, owed, ending, ids2>>
       [] p.t \in {"SUBSCRIBE", "UNSUBSCRIBE"} ->
            /\ Command(c, p)
            /\ UNCHANGED <<owed, ending>> /\ Same
       [] p.t = "PINGREQ" ->
            /\ Owe(c, [t |-> "PINGRESP"])
            /\ UNCHANGED <<pend, ending>> /\ Same
       [] OTHER -> \* DISCONNECT, malformed, a second CONNECT, packets only the broker sends
            /\ ending' = [ending EXCEPT ![c] = TRUE]
            /\ IF p.t \in {"CONNECT", "REFUSE", "DUBIOUS"} THEN Owe(c, [t |-> "REFUSAL"]) ELSE UNCHANGED owed
            /\ UNCHANGED pend /\ Same
  /\ UNCHANGED <<phase, raw, input, stalled, safe, kicked, sessV, queue, timeV, progV>>

Handle(c) == CanHandle(c) /\ (HandleFirst(c) \/ HandleNext(c))

-----------------------------------------------------------------------------
(* Commands take effect *)

Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(a, b) == IF a < b THEN a ELSE b

(* a client without an identifier gets one of its own *)
Identity(c, p) == IF p.cid = <<>> THEN <<1000 + c>> ELSE p.cid

CommitConnect(c, p) ==
  LET id  == Identity(c, p)
      old == {o \in Conns : current[o] /\ cid[o] = id}
  IN
  /\ phase' = [phase EXCEPT ![c] = IF Alive(c) THEN "up" ELSE @]
  /\ cid' = [cid EXCEPT ![c] = id]
  /\ current' = [o \in Conns |-> IF o = c THEN Alive(c) ELSE current[o] /\ o \notin old]
  /\ kicked' = [o \in Conns |-> kicked[o] \/ o \in old]
  /\ subs' = [o \in Conns |-> IF o = c \/ o \in old THEN {} ELSE subs[o]]
  /\ keep' = [keep EXCEPT ![c] = p.keep]
  /\ heard' = [heard EXCEPT ![c] = now] /\ seen' = [seen EXCEPT ![c] = now]
  /\ IF Alive(c) THEN Owe(c, [t |-> "CONNACK", present |-> 0, code |-> 0]) ELSE UNCHANGED owed
  /\ UNCHANGED <<raw, inb, input, stalled, ending, delV, now, progV>>

Grant(fq) == IF IsTopicFilter(fq[1]) THEN fq[2] ELSE 128

RECURSIVE AddFilters(_, _, _)
AddFilters(S, fs, i) ==
  IF i > Len(fs) THEN S
  ELSE AddFilters(IF IsTopicFilter(fs[i][1])
                  THEN {s \in S : s.f # fs[i][1]} \union {[f |-> fs[i][1], q |-> fs[i][2]]}
                  ELSE S, fs, i + 1)

(* a request of a connection whose session belongs to another one by now *)
Outdated(c) == ending' = [ending EXCEPT ![c] = TRUE] /\ UNCHANGED <<subs, owed>>

CommitSubscribe(c, p) ==
  /\ IF current[c]
     THEN /\ subs' = [subs EXCEPT ![c] = AddFilters(@, p.filters, 1)]
          /\ Owe(c, [t |-> "SUBACK", pid |-> p.pid,
                     codes |-> [i \in 1..Len(p.filters) |-> Grant(p.filters[i])]])
          /\ UNCHANGED ending
     ELSE Outdated(c)
  /\ UNCHANGED <<netV, kicked, cid, current, delV, timeV, progV>>

CommitUnsubscribe(c, p) ==
  /\ IF current[c]
     THEN /\ subs' = [subs EXCEPT ![c] = {s \in @ : \A i \in 1..Len(p.filters) : p.filters[i] # s.f}]
          /\ Owe(c, [t |-> "UNSUBACK", pid |-> p.pid])
          /\ UNCHANGED ending
     ELSE Outdated(c)
  /\ UNCHANGED <<netV, kicked, cid, current, delV, timeV, progV>>

Granted(c, topic) == {s.q : s \in {x \in subs[c] : Matches(x.f, topic)}}

CommitPublish(c, p) ==
  LET g == [s \in Conns |-> IF current[s] /\ Alive(s) THEN Granted(s, p.topic) ELSE {}] IN
  /\ queue' = [s \in Conns |->
       IF g[s] = {} THEN queue[s]
       ELSE Append(queue[s], [topic |-> p.topic, data |-> p.data, qos |-> Min(p.qos, Max(g[s]))])]
  /\ UNCHANGED <<netV, owed, endV, sessV, ids2, unacked, timeV, progV>>

Commit(c) ==
  /\ pend[c] # <<>>
  /\ pend' = [pend EXCEPT ![c] = Tail(@)]
  /\ safe' = [safe EXCEPT ![c] = IF @ > 0 THEN @ - 1 ELSE 0]
  /\ LET p == Head(pend[c]) IN
       CASE p.t = "CONNECT"     -> CommitConnect(c, p)
         [] p.t = "SUBSCRIBE"   -> CommitSubscribe(c, p)
         [] p.t = "UNSUBSCRIBE" -> CommitUnsubscribe(c, p)
         [] p.t = "PUBLISH"     -> CommitPublish(c, p)

-----------------------------------------------------------------------------
(* Packets leave the broker *)

CanWrite(c) == Alive(c) /\ input[c] \notin {"gone", "rst"} /\ ~exited

(* may the packet p be the response owed to c? *)
IsOwed(c, p) ==
  /\ owed[c] # <<>>
  /\ \/ p = owed[c][1]
     \/ owed[c][1].t = "REFUSAL" /\ p.t = "CONNACK" /\ p.present = 0 /\ p.code \in 1..5

Respond(c, p) ==
  /\ CanWrite(c) /\ Is(IsOwed(c, p))
  /\ owed' = [owed EXCEPT ![c] = <<>>]
  \* an acknowledged publication is committed come what may
  /\ safe' = IF p.t \in {"PUBACK", "PUBREC"} THEN [safe EXCEPT ![c] = Len(pend[c])] ELSE safe
  /\ UNCHANGED <<netV, pend, endV, sessV, delV, timeV, progV>>

(* the packet a delivery d has to be, up to its packet identifier *)
IsDelivery(p, d) ==
  /\ p.t = "PUBLISH" /\ ~p.dup /\ ~p.retain
  /\ p.topic = d.topic /\ p.data = d.data /\ p.qos = d.qos

PidOk(c, p) == IF p.qos = 0 THEN p.pid = 0 ELSE p.pid # 0 /\ p.pid \notin unacked[c]

Deliver(c, p) ==
  /\ CanWrite(c) /\ phase[c] = "up" /\ queue[c] # <<>>
  /\ IsDelivery(p, Head(queue[c])) /\ Is(PidOk(c, p))
  /\ queue' = [queue EXCEPT ![c] = Tail(@)]
  /\ unacked' = IF p.qos = 0 THEN unacked ELSE [unacked EXCEPT ![c] = @ \union {p.pid}]
  /\ UNCHANGED <<netV, cmdV, endV, sessV, ids2, timeV, progV>>

-----------------------------------------------------------------------------
(* Ends *)

(* With the client gone, packets still written reach nobody, or the write   *)
(* fails and the connection is broken.                                      *)
Swallow(c) ==
  /\ Alive(c) /\ input[c] = "gone"
  /\ Is(owed[c] # <<>> \/ queue[c] # <<>>)
  /\ owed' = [owed EXCEPT ![c] = <<>>]
  /\ queue' = [queue EXCEPT ![c] = <<>>]
  /\ input' \in {input, [input EXCEPT ![c] = "rst"]}
  /\ UNCHANGED <<phase, raw, inb, stalled, pend, safe, endV, sessV, ids2, unacked, timeV, progV>>

(* time limits *)
Silent(c)   == now - heard[c]
MayExpire(c) ==
  \/ phase[c] = "up" /\ keep[c] > 0 /\ now - seen[c] > keep[c] * 1000
  \/ phase[c] \in {"open", "joining"} /\ Silent(c) >= ConnectTime \div 2
MustExpire(c) ==
  \/ phase[c] = "up" /\ keep[c] > 0 /\ Silent(c) >= keep[c] * 1500 + Slack
  \/ phase[c] \in {"open", "joining"} /\ Silent(c) >= ConnectTime + Slack

(* all input has been handled, and there will be no more *)
Drained(c) == /\ input[c] \in {"eof", "gone"} /\ phase[c] \in {"open", "up"} /\ inb[c] = <<>>
              /\ owed[c] = <<>> /\ ~Waiting(c)

Orderly(c) == \/ ending[c] /\ (owed[c] = <<>> \/ owed[c][1].t = "REFUSAL")
              \/ Drained(c)
              \/ inb[c] = <<>> /\ owed[c] = <<>> /\ ~Waiting(c) /\ Doomed(raw[c])

Abrupt(c) == kicked[c] \/ intr \/ input[c] = "rst" \/ MayExpire(c)

Closed(c, keepPending) ==
  /\ phase' = [phase EXCEPT ![c] = "closed"]
  /\ raw' = [raw EXCEPT ![c] = <<>>]
  /\ inb' = [inb EXCEPT ![c] = <<>>]
  /\ pend' = [pend EXCEPT ![c] = SubSeq(@, 1, keepPending)]
  /\ owed' = [owed EXCEPT ![c] = <<>>]
  /\ queue' = [queue EXCEPT ![c] = <<>>]
  /\ subs' = [subs EXCEPT ![c] = {}]
  /\ current' = [current EXCEPT ![c] = FALSE]
  /\ ids2' = [ids2 EXCEPT ![c] = {}]
  /\ unacked' = [unacked EXCEPT ![c] = {}]
  /\ safe' = [safe EXCEPT ![c] = Min(@, keepPending)]
  /\ UNCHANGED <<input, stalled, endV, cid, timeV, progV>>

Close(c) ==
  /\ Alive(c) /\ ~exited
  /\ \/ Is(Orderly(c)) /\ Closed(c, Len(pend[c]))
     \/ Is(Abrupt(c)) /\ \E k \in safe[c]..Len(pend[c]) : Closed(c, k)

(* The broker ends: every connection it has served has been closed. Others  *)
(* may still wait for being accepted.                                       *)
Exit ==
  /\ intr /\ ~exited
  /\ \A c \in Conns : phase[c] # "up"
  /\ exited' = TRUE
  /\ phase' = [c \in Conns |-> IF phase[c] \in {"open", "joining"} THEN "closed" ELSE phase[c]]
  /\ UNCHANGED <<raw, inb, input, stalled, cmdV, endV, sessV, delV, timeV, intr>>

-----------------------------------------------------------------------------
(* What the broker still has to do for connection c *)

(* While the client takes nothing of what it is sent, its own requests may  *)
(* have to wait.                                                            *)
Blocked(c) == Alive(c) /\ stalled[c] /\ (queue[c] # <<>> \/ owed[c] # <<>>)

Owing(c) ==
  \/ pend[c] # <<>> /\ (~Blocked(c) \/ safe[c] > 0)
  \/ /\ Alive(c)
     /\ \/ kicked[c] \/ input[c] = "rst" \/ MustExpire(c)
        \/ /\ ~stalled[c]
           /\ \/ inb[c] # <<>> \/ owed[c] # <<>> \/ queue[c] # <<>>
              \/ ending[c] \/ input[c] # "on"

(* The broker has nothing left to do *)
Quiet == IF intr THEN exited ELSE \A c \in Conns : ~Owing(c)

-----------------------------------------------------------------------------
TypeOK ==
  /\ \A c \in Conns :
       /\ phase[c] \in {"none", "open", "joining", "up", "closed"}
       /\ input[c] \in {"on", "eof", "gone", "rst"}
       /\ Len(owed[c]) <= 1 /\ safe[c] \in 0..Len(pend[c])
       /\ ids2[c] \subseteq 1..65535 /\ unacked[c] \subseteq 1..65535
       /\ \A s \in subs[c] : IsTopicFilter(s.f) /\ s.q \in 0..2
  /\ now >= 0
=============================================================================
