-------------------------------- MODULE Loop --------------------------------
(* The broker as it is built: one task per connection (handler.rs), one that  *)
(* carries out commands (main.rs, core/mod.rs), bounded channels between       *)
(* them, packets written piece by piece, clients that stop reading.           *)
(*                                                                            *)
(* Checked: every behaviour of this is one of Broker (the variables of Broker  *)
(* are defined below in terms of queues and tasks), and whenever no task can   *)
(* do anything, nothing is owed (NoDeadlock). So the guarantees of    *)
(* MCBroker carry over to this design, and the tasks never wait for each       *)
(* other. Bug switches on defects that such a design can have; each of them    *)
(* has to be found, which shows that the statements are not empty.            *)
EXTENDS Wire, FiniteSets, TLC

CONSTANTS Conns, ConnectTime, Slack,
  Cap,       \* capacity of a connection's event channel
  QCap,      \* capacity of the command channel
  Up, Name, Subs0,    \* connections that are there from the start, identifiers, subscriptions
  Menu, Limit,        \* what each may send, and how many packets
  Stalls, Ends,       \* who may stop reading, and how input may end
  Keep0,     \* keep-alive of the connections that are there from the start
  Dt, MaxTime,  \* time passes in such steps, until then
  Interrupts, Bug

VARIABLES
  phase, input, stalled, safe, ending, kicked, cid, ids2, unacked, intr, exited,  \* as in Broker
  inp,      \* packets that have arrived
  got,      \* how many packets each client has sent (bounds the world)
  acc,      \* accepted by the main task
  pc,       \* of a handler: "ready", "send", "reply", "write", "break", "bye", "gone"
  arg,      \* the command it sends
  out,      \* the packet it writes (or will, after sending)
  half,     \* a part of that is written
  then,     \* where it goes after writing
  box,      \* event channel: deliveries, or "kick"
  back,     \* deliveries put off
  reply,    \* answers from the command loop
  q,        \* command channel
  app,      \* the command loop: "idle", "fan" (handing out deliveries), "kick", "stop"
  sess,     \* sessions: set of [id, c]
  tree,     \* subscriptions by connection
  lastpid,
  main,     \* "loop", "exit", "wait"
  cancelled,
  now, keep, heard, seen,  \* as in Broker
  left      \* when the timer of a handler fires, 0: never

netv == <<input, stalled, inp, got, acc>>
hv   == <<pc, arg, out, half, then, back>>
hist == <<safe, ending, kicked, cid, ids2, unacked>>
appv == <<app, sess, tree, lastpid>>
histT == <<keep, heard, seen>>
timv == <<now, histT, left>>
stop == <<intr, exited, main, cancelled>>
endv == <<stop, timv>>
lvars == <<phase, netv, hv, hist, box, reply, q, appv, endv>>

AllC(v) == [c \in Conns |-> v]
Nil == [t |-> "-"]

-----------------------------------------------------------------------------
(* Broker's variables *)
Up_(c) == phase[c] \in {"open", "joining", "up"}
raw == AllC(<<>>)
inb == inp
Mine(c, s) == SelectSeq(s, LAMBDA x : x.c = c /\ x.p.t \notin {"DISC", "EXIT"})
pend == [c \in Conns |->
  LET w == Mine(c, q) IN
  [i \in 1..Len(w) |-> w[i].p] \o (IF Up_(c) /\ pc[c] = "send" THEN <<arg[c]>> ELSE <<>>)]
owed == [c \in Conns |->
  IF ~Up_(c) THEN <<>>
  ELSE IF app.st = "kick" /\ app.c = c THEN <<[t |-> "CONNACK", present |-> 0, code |-> 0]>>
  ELSE IF reply[c] # <<>> /\ reply[c][1].t # "ERR" THEN reply[c]
  ELSE IF pc[c] \in {"send", "write"} /\ out[c] # Nil /\ out[c].t # "PUBLISH" THEN <<out[c]>>
  ELSE <<>>]
current == [c \in Conns |->
  /\ Up_(c)
  /\ IF app.st = "kick" THEN app.c = c \/ (app.old # c /\ \E s \in sess : s.c = c)
     ELSE \E s \in sess : s.c = c]
subs == [c \in Conns |-> IF current[c] /\ ~(app.st = "kick" /\ app.c = c) THEN tree[c] ELSE {}]
Msgs(s) == LET m == SelectSeq(s, LAMBDA x : x.t = "PUBLISH") IN
  [i \in 1..Len(m) |-> [topic |-> m[i].topic, data |-> m[i].data, qos |-> m[i].qos]]
Fan(c) == IF app.st # "fan" THEN <<>> ELSE
  LET m == SelectSeq(app.rest, LAMBDA x : x.to = c) IN [i \in 1..Len(m) |-> m[i].m]
queue == [c \in Conns |->
  IF ~Up_(c) THEN <<>>
  ELSE (IF pc[c] = "write" /\ out[c].t = "PUBLISH" THEN Msgs(<<out[c]>>) ELSE <<>>)
       \o Msgs(back[c]) \o Msgs(box[c]) \o Msgs(Fan(c))]

B == INSTANCE Broker

Packet(d) == [t |-> "PUBLISH", topic |-> d.topic, data |-> d.data, qos |-> d.qos, pid |-> d.pid, dup |-> FALSE, retain |-> FALSE]

Respond_(c) ==
  B!Respond(c, IF owed[c][1].t = "REFUSAL" THEN [t |-> "CONNACK", present |-> 0, code |-> 1] ELSE owed[c][1])

(* which step of Broker a step is, if any; told by what changes *)
Moved(v, w) == {c \in Conns : v[c] # w[c]}
BrokerNext ==
  IF <<got, input, stalled>>' # <<got, input, stalled>> THEN
    \/ \E c \in Moved(got, got') : B!Arrive(c, <<inp'[c][Len(inp'[c])]>>, <<>>)
    \/ \E c \in Moved(input, input') : B!EndInput(c, input'[c])
    \/ \E c \in Moved(stalled, stalled') : B!Stall(c, stalled'[c])
  ELSE IF now' # now THEN B!Tick(now')
  ELSE IF <<intr, exited>>' # <<intr, exited>> THEN B!Interrupt \/ B!Exit
  ELSE IF Len(q') < Len(q) /\ Head(q).p.t \notin {"DISC", "EXIT"} THEN B!Commit(Head(q).c)
  ELSE IF phase' # phase /\ Moved(inp, inp') = {} /\ (\E c \in Conns : phase[c] = "none" /\ phase'[c] # "none")
       THEN \E c \in Moved(phase, phase') : B!Open(c)
  ELSE IF \E c \in Conns : phase[c] # "closed" /\ phase'[c] = "closed" THEN \E c \in Moved(phase, phase') : B!Close(c)
  ELSE IF inp' # inp THEN \E c \in Moved(inp, inp') : B!Handle(c)
  ELSE IF \E c \in Conns : half[c] /\ ~half'[c] THEN
    \E c \in Moved(half, half') : IF out[c].t = "PUBLISH" THEN B!Deliver(c, Packet(out[c])) ELSE Respond_(c)
  ELSE UNCHANGED B!vars

-----------------------------------------------------------------------------
L_Init ==
  /\ phase = [c \in Conns |-> IF c \in Up THEN "up" ELSE "none"]
  /\ input = AllC("on") /\ stalled = AllC(FALSE) /\ safe = AllC(0)
  /\ ending = AllC(FALSE) /\ kicked = AllC(FALSE)
  /\ cid = [c \in Conns |-> IF c \in Up THEN Name[c] ELSE <<>>]
  /\ ids2 = AllC({}) /\ unacked = AllC({}) /\ intr = FALSE /\ exited = FALSE
  /\ inp = AllC(<<>>) /\ got = AllC(0) /\ acc = [c \in Conns |-> c \in Up]
  /\ pc = AllC("ready") /\ arg = AllC(Nil) /\ out = AllC(Nil) /\ half = AllC(FALSE) /\ then = AllC("ready")
  /\ box = AllC(<<>>) /\ back = AllC(<<>>) /\ reply = AllC(<<>>)
  /\ q = <<>> /\ app = [st |-> "idle"]
  /\ sess = {[id |-> Name[c], c |-> c] : c \in Up}
  /\ tree = [c \in Conns |-> IF c \in Up THEN {[f |-> x[1], q |-> x[2]] : x \in Subs0[c]} ELSE {}]
  /\ lastpid = 0 /\ main = "loop" /\ cancelled = FALSE
  /\ now = 0 /\ keep = Keep0 /\ heard = AllC(0) /\ seen = AllC(0)
  /\ left = [c \in Conns |-> IF c \in Up THEN Keep0[c] * 1500 ELSE 0]

(* ---- clients and network ------------------------------------------------ *)
Client(c) ==
  \/ /\ phase[c] = "none" /\ phase' = [phase EXCEPT ![c] = IF exited THEN "closed" ELSE "open"]
     /\ heard' = [heard EXCEPT ![c] = now] /\ seen' = [seen EXCEPT ![c] = now]
     /\ UNCHANGED <<netv, hv, hist, box, reply, q, appv, stop, now, keep, left>>
  \* (a packet at the very moment at which the timer fires is too late)
  \/ /\ Up_(c) /\ input[c] = "on" /\ got[c] < Limit[c] /\ (left[c] = 0 \/ now < left[c])
     /\ got' = [got EXCEPT ![c] = @ + 1]
     /\ heard' = IF phase[c] # "open" THEN [heard EXCEPT ![c] = now] ELSE heard
     /\ seen' = IF phase[c] # "open" /\ ~stalled[c] THEN [seen EXCEPT ![c] = now] ELSE seen
     /\ UNCHANGED <<phase, input, stalled, acc, hv, hist, box, reply, q, appv, stop, now, keep, left>>
     /\ \E p \in Menu[c] : inp' = [inp EXCEPT ![c] = Append(@, p)]
  \/ /\ Up_(c) /\ input[c] = "on" /\ phase' = phase
     /\ UNCHANGED <<stalled, inp, got, acc, hv, hist, box, reply, q, appv, endv>>
     /\ \E how \in Ends[c] : input' = [input EXCEPT ![c] = how]
  \/ /\ Up_(c) /\ c \in Stalls /\ stalled' = [stalled EXCEPT ![c] = ~@]
     /\ heard' = IF stalled[c] /\ phase[c] # "open" THEN [heard EXCEPT ![c] = now] ELSE heard
     /\ seen' = IF ~stalled[c] /\ inp[c] # <<>> THEN [seen EXCEPT ![c] = 0] ELSE seen
     /\ UNCHANGED <<phase, input, inp, got, acc, hv, hist, box, reply, q, appv, stop, now, keep, left>>
Signal ==
  /\ Interrupts /\ ~intr /\ intr' = TRUE
  /\ UNCHANGED <<phase, netv, hv, hist, box, reply, q, appv, exited, main, cancelled, timv>>

(* ---- handlers ------------------------------------------------------------ *)
Listening(c) == Up_(c) /\ acc[c]          \* its event channel is there

Timer(c, ms) == left' = [left EXCEPT ![c] = IF ms = 0 THEN 0 ELSE now + ms]
KeepAlive(c) == IF keep[c] > 0 THEN Timer(c, keep[c] * (IF Bug = "once" THEN 1000 ELSE 1500)) ELSE UNCHANGED left

Goto(c, l) == pc' = [pc EXCEPT ![c] = l]
Leave(c) ==                     \* serve_client returns
  /\ phase' = [phase EXCEPT ![c] = "closed"]
  /\ Goto(c, IF cid[c] # <<>> \/ phase[c] = "joining" THEN "bye" ELSE "gone")
  /\ box' = [box EXCEPT ![c] = <<>>] /\ back' = [back EXCEPT ![c] = <<>>] /\ reply' = [reply EXCEPT ![c] = <<>>]
  /\ out' = [out EXCEPT ![c] = Nil] /\ inp' = [inp EXCEPT ![c] = <<>>]
  /\ ids2' = [ids2 EXCEPT ![c] = {}] /\ unacked' = [unacked EXCEPT ![c] = {}]
  /\ safe' = [safe EXCEPT ![c] = B!Min(@, Len(Mine(c, q)))]
  /\ left' = [left EXCEPT ![c] = 0]
  /\ UNCHANGED <<input, stalled, got, acc, arg, half, then, ending, kicked, cid, q, appv, stop, now, histT>>

Write_(c, p, next) == Goto(c, "write") /\ out' = [out EXCEPT ![c] = p] /\ then' = [then EXCEPT ![c] = next]
Send_(c, p, resp) == Goto(c, "send") /\ arg' = [arg EXCEPT ![c] = p] /\ out' = [out EXCEPT ![c] = resp] /\ then' = [then EXCEPT ![c] = "ready"]

Take(c) ==
  LET p == Head(inp[c]) IN
  /\ pc[c] = "ready" /\ Listening(c) /\ inp[c] # <<>>
  /\ inp' = [inp EXCEPT ![c] = Tail(@)]
  /\ IF phase[c] = "up" /\ Bug # "unheard" THEN KeepAlive(c) ELSE UNCHANGED left
  /\ IF phase[c] = "open" THEN
       /\ IF p.t = "CONNECT" THEN /\ phase' = [phase EXCEPT ![c] = "joining"] /\ Send_(c, p, Nil) /\ UNCHANGED ending
          ELSE /\ ending' = [ending EXCEPT ![c] = TRUE] /\ UNCHANGED phase
               /\ IF p.t = "REFUSE" THEN Write_(c, [t |-> "CONNACK", present |-> 0, code |-> p.code], "break") /\ UNCHANGED arg
                  ELSE Goto(c, "break") /\ UNCHANGED <<arg, out, then>>
       /\ UNCHANGED <<ids2, unacked>>
     ELSE
       /\ UNCHANGED phase
       /\ CASE p.t = "PUBLISH" ->
                 LET resp == CASE p.qos = 0 -> Nil [] p.qos = 1 -> [t |-> "PUBACK", pid |-> p.pid] [] OTHER -> [t |-> "PUBREC", pid |-> p.pid] IN
                 /\ IF p.qos = 2 /\ p.pid \in ids2[c] /\ Bug # "qos2" THEN Write_(c, resp, "ready") /\ UNCHANGED arg
                    ELSE Send_(c, p, resp)
                 /\ ids2' = IF p.qos = 2 THEN [ids2 EXCEPT ![c] = @ \union {p.pid}] ELSE ids2
                 /\ UNCHANGED <<ending, unacked>>
            [] p.t \in {"SUBSCRIBE", "UNSUBSCRIBE"} -> Send_(c, p, Nil) /\ UNCHANGED <<ending, ids2, unacked>>
            [] p.t = "PINGREQ" -> Write_(c, [t |-> "PINGRESP"], "ready") /\ UNCHANGED <<arg, ending, ids2, unacked>>
            [] p.t = "PUBREL" ->
                 /\ Write_(c, [t |-> "PUBCOMP", pid |-> p.pid], "ready")
                 /\ ids2' = [ids2 EXCEPT ![c] = @ \ {p.pid}] /\ UNCHANGED <<arg, ending, unacked>>
            [] p.t \in {"PUBACK", "PUBCOMP"} ->
                 /\ unacked' = [unacked EXCEPT ![c] = @ \ {p.pid}] /\ UNCHANGED <<pc, arg, out, then, ending, ids2>>
            [] p.t \in {"CONNECT", "REFUSE"} -> Write_(c, [t |-> "REFUSAL"], "break") /\ ending' = [ending EXCEPT ![c] = TRUE]
                                  /\ UNCHANGED <<arg, ids2, unacked>>
            [] OTHER -> Goto(c, "break") /\ ending' = [ending EXCEPT ![c] = TRUE] /\ UNCHANGED <<arg, out, then, ids2, unacked>>
  /\ UNCHANGED <<input, stalled, got, acc, half, back, safe, kicked, cid, box, reply, q, appv, stop, now, histT>>

(* the next event, those put off first *)
NextEvent(c) ==
  /\ pc[c] = "ready" /\ Listening(c)
  /\ \/ /\ back[c] # <<>>
        /\ back' = [back EXCEPT ![c] = Tail(@)] /\ Write_(c, Head(back[c]), "ready")
        /\ IF Bug = "fed" THEN KeepAlive(c) ELSE UNCHANGED left
        /\ UNCHANGED <<box, phase, inp, hist, reply, arg, half, input, stalled, got, acc, q, appv, stop, now, histT>>
     \/ /\ back[c] = <<>> /\ box[c] # <<>> /\ Head(box[c]).t = "PUBLISH"
        /\ box' = [box EXCEPT ![c] = Tail(@)] /\ Write_(c, Head(box[c]), "ready")
        /\ IF Bug = "fed" THEN KeepAlive(c) ELSE UNCHANGED left
        /\ UNCHANGED <<back, phase, inp, hist, reply, arg, half, input, stalled, got, acc, q, appv, stop, now, histT>>
     \/ back[c] = <<>> /\ box[c] # <<>> /\ Head(box[c]).t = "kick" /\ Leave(c)

(* taking in events while busy (Mailbox::attend) *)
Attend(c) ==
  /\ pc[c] \in {"send", "reply", "write"} /\ Listening(c) /\ box[c] # <<>> /\ Bug # "noattend"
  /\ IF Head(box[c]).t = "PUBLISH"
     THEN /\ box' = [box EXCEPT ![c] = Tail(@)]
          /\ back' = [back EXCEPT ![c] = IF Bug = "stack" THEN <<Head(box[c])>> \o @ ELSE Append(@, Head(box[c]))]
          /\ UNCHANGED <<phase, netv, pc, arg, out, half, then, hist, reply, q, appv, endv>>
     ELSE Leave(c) 

(* the token is looked at whenever the task waits for something *)
Cancel(c) == cancelled /\ Listening(c) /\ pc[c] # "break" /\ ~(Bug = "nocancel" /\ pc[c] # "ready") /\ Leave(c) 

(* so is the timer, whatever the task waits for *)
Expire(c) ==
  /\ left[c] > 0 /\ now >= left[c] /\ Listening(c) /\ pc[c] # "break"
  /\ ~(Bug = "deaf" /\ pc[c] # "ready") /\ Leave(c)

EndOfInput(c) ==
  /\ Listening(c) /\ pc[c] = "ready"
  /\ \/ input[c] = "rst"
     \/ input[c] = "eof" /\ inp[c] = <<>>
     \/ input[c] = "eof" /\ Bug = "eofdrops"
  /\ Leave(c) 

Break(c) == Listening(c) /\ pc[c] = "break" /\ Leave(c) 

SendCommand(c) ==
  /\ pc[c] = "send" /\ Listening(c)
  /\ IF app.st = "stop" THEN Leave(c) 
     ELSE /\ Len(q) < QCap
          /\ q' = Append(q, [c |-> c, p |-> arg[c]])
          /\ Goto(c, IF arg[c].t \in {"CONNECT", "SUBSCRIBE", "UNSUBSCRIBE"} THEN "reply"
                     ELSE IF out[c] = Nil THEN "ready" ELSE "write")
          /\ UNCHANGED <<phase, netv, arg, out, half, then, back, hist, box, reply, appv, endv>>

Reply(c) ==
  /\ pc[c] = "reply" /\ Listening(c)
  /\ IF reply[c] = <<>> THEN app.st = "stop" /\ Leave(c) 
     ELSE IF reply[c][1].t = "ERR" THEN Leave(c) 
     ELSE /\ Write_(c, reply[c][1], "ready") /\ reply' = [reply EXCEPT ![c] = <<>>]
          /\ IF reply[c][1].t = "CONNACK" /\ Bug # "first" THEN Timer(c, keep[c] * 1500) ELSE UNCHANGED left
          /\ UNCHANGED <<phase, netv, arg, half, back, hist, box, q, appv, stop, now, histT>>

Write(c) ==
  /\ pc[c] = "write" /\ Listening(c)
  /\ \/ input[c] = "rst" /\ Leave(c) 
     \/ /\ input[c] # "rst" /\ ~stalled[c] /\ ~half[c]
        /\ half' = [half EXCEPT ![c] = TRUE]
        /\ UNCHANGED <<phase, netv, pc, arg, out, then, back, hist, box, reply, q, appv, endv>>
     \/ /\ input[c] # "rst" /\ ~stalled[c] /\ half[c]
        /\ half' = [half EXCEPT ![c] = FALSE]
        /\ Goto(c, then[c]) /\ out' = [out EXCEPT ![c] = Nil]
        /\ safe' = IF out[c].t \in {"PUBACK", "PUBREC"} THEN [safe EXCEPT ![c] = Len(pend[c])] ELSE safe
        /\ unacked' = IF out[c].t = "PUBLISH" /\ out[c].qos > 0 THEN [unacked EXCEPT ![c] = @ \union {out[c].pid}] ELSE unacked
        /\ UNCHANGED <<phase, netv, arg, then, back, ending, kicked, cid, ids2, box, reply, q, appv, endv>>

Bye(c) == \* tell the command loop
  /\ pc[c] = "bye"
  /\ IF app.st = "stop" \/ Bug = "nobye" THEN UNCHANGED q ELSE Len(q) < QCap /\ q' = Append(q, [c |-> c, p |-> [t |-> "DISC"]])
  /\ Goto(c, "gone")
  /\ UNCHANGED <<phase, netv, arg, out, half, then, back, hist, box, reply, appv, endv>>

Handler(c) ==
  Take(c) \/ NextEvent(c) \/ Attend(c) \/ Cancel(c) \/ Expire(c) \/ EndOfInput(c) \/ Break(c)
  \/ SendCommand(c) \/ Reply(c) \/ Write(c) \/ Bye(c)

(* ---- the command loop ----------------------------------------------------- *)
Answer(c, r) == IF Up_(c) /\ pc[c] = "reply" THEN reply' = [reply EXCEPT ![c] = <<r>>] ELSE UNCHANGED reply
Owner(c) == \E s \in sess : s.c = c
Commit_(c) == safe' = [safe EXCEPT ![c] = IF @ > 0 THEN @ - 1 ELSE 0]

SetToSeq(S) == CHOOSE s \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i # j => s[i] # s[j]
Granted(c, topic) == {s.q : s \in {x \in tree[c] : Matches(x.f, topic)}}

Command ==
  LET c == Head(q).c  p == Head(q).p IN
  /\ app.st = "idle" /\ q # <<>>
  /\ q' = Tail(q)
  /\ CASE p.t = "CONNECT" ->
            LET old == {s \in sess : s.id = p.cid} IN
            /\ app' = [st |-> "kick", c |-> c, id |-> p.cid, old |-> IF old = {} THEN 0 ELSE (CHOOSE s \in old : TRUE).c]
            /\ phase' = [phase EXCEPT ![c] = IF Up_(c) THEN "up" ELSE @]
            /\ cid' = [cid EXCEPT ![c] = p.cid]
            /\ kicked' = [o \in Conns |-> kicked[o] \/ (\E s \in old : s.c = o /\ Up_(o))]
            /\ Commit_(c)
            /\ UNCHANGED <<ending, ids2, unacked, reply, sess, tree, lastpid>>
       [] p.t = "SUBSCRIBE" ->
            /\ IF Owner(c) \/ Bug = "anysub"
               THEN /\ tree' = [tree EXCEPT ![c] = B!AddFilters(@, p.filters, 1)]
                    /\ Answer(c, [t |-> "SUBACK", pid |-> p.pid, codes |-> [i \in 1..Len(p.filters) |-> B!Grant(p.filters[i])]])
               ELSE Answer(c, [t |-> "ERR"]) /\ UNCHANGED tree
            /\ ending' = [ending EXCEPT ![c] = @ \/ ~current[c]]
            /\ Commit_(c)
            /\ UNCHANGED <<app, phase, cid, kicked, ids2, unacked, sess, lastpid>>
       [] p.t = "UNSUBSCRIBE" ->
            /\ IF Owner(c)
               THEN /\ tree' = [tree EXCEPT ![c] = {s \in @ : \A i \in 1..Len(p.filters) : p.filters[i] # s.f}]
                    /\ Answer(c, [t |-> "UNSUBACK", pid |-> p.pid])
               ELSE Answer(c, [t |-> "ERR"]) /\ UNCHANGED tree
            /\ ending' = [ending EXCEPT ![c] = @ \/ ~current[c]]
            /\ Commit_(c)
            /\ UNCHANGED <<app, phase, cid, kicked, ids2, unacked, sess, lastpid>>
       [] p.t = "PUBLISH" ->
            LET g    == TLCEval([o \in Conns |-> Granted(o, p.topic)])
                to   == TLCEval(SetToSeq({o \in Conns : g[o] # {}}))
                qos  == TLCEval([i \in 1..Len(to) |-> B!Min(p.qos, B!Max(g[to[i]]))])
                used == TLCEval([i \in 1..Len(to) |-> Cardinality({j \in 1..i : qos[j] > 0})]) IN
            /\ app' = IF to = <<>> THEN app ELSE [st |-> "fan", rest |-> [i \in 1..Len(to) |->
                 [to |-> to[i], m |-> [t |-> "PUBLISH", topic |-> p.topic, data |-> p.data, qos |-> qos[i],
                                       pid |-> IF qos[i] = 0 THEN 0 ELSE lastpid + used[i]]]]]
            /\ lastpid' = IF to = <<>> THEN lastpid ELSE lastpid + used[Len(to)]
            /\ Commit_(c)
            /\ UNCHANGED <<phase, cid, kicked, ending, ids2, unacked, reply, sess, tree>>
       [] p.t = "DISC" ->
            /\ LET s == IF Bug = "anydisc" THEN {x \in sess : x.id = cid[c]} ELSE {x \in sess : x.c = c} IN
               /\ sess' = sess \ s
               /\ tree' = [o \in Conns |-> IF \E x \in s : x.c = o THEN {} ELSE tree[o]]
            /\ UNCHANGED <<app, phase, hist, reply, lastpid>>
       [] p.t = "EXIT" ->
            /\ app' = [st |-> "stop"]
            /\ UNCHANGED <<phase, hist, reply, sess, tree, lastpid>>
  /\ IF p.t # "CONNECT" THEN UNCHANGED histT
     ELSE keep' = [keep EXCEPT ![c] = p.keep] /\ heard' = [heard EXCEPT ![c] = now] /\ seen' = [seen EXCEPT ![c] = now]
  /\ UNCHANGED <<netv, hv, box, stop, now, left>>

HandOut ==
  LET h == Head(app.rest)
      rest == IF Len(app.rest) = 1 THEN [st |-> "idle"] ELSE [st |-> "fan", rest |-> Tail(app.rest)] IN
  /\ app.st = "fan"
  /\ \/ ~Listening(h.to) /\ app' = (IF Bug = "failstops" THEN [st |-> "idle"] ELSE rest) /\ UNCHANGED box
     \/ Listening(h.to) /\ Len(box[h.to]) < Cap /\ app' = rest /\ box' = [box EXCEPT ![h.to] = Append(@, h.m)]
     \/ Listening(h.to) /\ Len(box[h.to]) = Cap /\ Bug = "trysend" /\ app' = rest /\ UNCHANGED box
  /\ UNCHANGED <<phase, netv, hv, hist, reply, q, sess, tree, lastpid, endv>>

Register ==
  /\ app.st = "kick"
  /\ LET told == IF app.old = 0 THEN TRUE ELSE ~Listening(app.old)
         room == IF told THEN TRUE ELSE Len(box[app.old]) < Cap IN
     /\ IF room THEN TRUE ELSE Bug = "trykick"
     /\ box' = IF told THEN box ELSE IF ~room THEN box ELSE [box EXCEPT ![app.old] = Append(@, [t |-> "kick"])]
  /\ sess' = {s \in sess : s.id # app.id} \union {[id |-> app.id, c |-> app.c]}
  /\ tree' = [o \in Conns |-> IF o = app.c THEN {} ELSE IF o = app.old THEN (IF Bug = "leftsubs" THEN tree[o] ELSE {}) ELSE tree[o]]
  /\ Answer(app.c, [t |-> "CONNACK", present |-> 0, code |-> 0])
  /\ app' = [st |-> "idle"]
  /\ UNCHANGED <<phase, netv, hv, hist, q, lastpid, endv>>

(* ---- the main task ---------------------------------------------------------- *)
Accept(c) == main = "loop" /\ phase[c] = "open" /\ ~acc[c] /\ acc' = [acc EXCEPT ![c] = TRUE]
             /\ (IF Bug = "patient" THEN UNCHANGED left ELSE Timer(c, ConnectTime))
             /\ UNCHANGED <<phase, input, stalled, inp, got, hv, hist, box, reply, q, appv, stop, now, histT>>
Shutdown ==
  \/ main = "loop" /\ intr /\ main' = "exit"
     /\ UNCHANGED <<phase, netv, hv, hist, box, reply, q, appv, intr, exited, cancelled, timv>>
  \/ /\ main = "exit" /\ Len(q) < QCap /\ q' = Append(q, [c |-> 0, p |-> [t |-> "EXIT"]])
     /\ main' = "wait" /\ cancelled' = TRUE
     /\ UNCHANGED <<phase, netv, hv, hist, box, reply, appv, intr, exited, timv>>
  \/ /\ main = "wait" /\ ~exited /\ app.st = "stop"
     /\ \A c \in Conns : acc[c] => pc[c] = "gone"
     /\ exited' = TRUE /\ phase' = [c \in Conns |-> IF phase[c] = "open" THEN "closed" ELSE phase[c]]
     /\ UNCHANGED <<netv, hv, hist, box, reply, q, appv, intr, main, cancelled, timv>>

BrokerStep == (\E c \in Conns : Handler(c) \/ Accept(c)) \/ Command \/ HandOut \/ Register \/ Shutdown
(* tasks are quick: time passes when none of them can do anything *)
Pass == /\ now < MaxTime /\ ~ENABLED BrokerStep /\ now' = now + Dt
        /\ UNCHANGED <<phase, netv, hv, hist, box, reply, q, appv, stop, histT, left>>
L_Next == (\E c \in Conns : Client(c)) \/ Signal \/ BrokerStep \/ Pass
L_Spec == L_Init /\ [][L_Next]_lvars

-----------------------------------------------------------------------------
(* every step is one of Broker, or none *)
Refines == [][BrokerNext]_lvars

(* the tasks never wait for each other: when none can go on, nothing is owed  *)
NoDeadlock == B!Quiet \/ ENABLED BrokerStep

(* a packet that is begun is finished, unless the connection ends *)
Whole == \A c \in Conns : half[c] => pc[c] \in {"write", "bye", "gone"}

(* what connections leave behind is gone when all is done *)
Released == exited \/ (\A c \in Conns : phase[c] = "closed" =>
              tree[c] = {} /\ ~Owner(c) /\ box[c] = <<>> /\ back[c] = <<>> /\ pc[c] = "gone") \/ ENABLED BrokerStep

(* channels keep their bounds *)
Bounded == Len(q) <= QCap /\ \A c \in Conns : Len(box[c]) <= Cap
=============================================================================
