-------------------------------- MODULE Trace --------------------------------
(* Decides whether recorded executions of the real broker are behaviours of  *)
(* Broker. Recorded: what clients and network did, every packet the broker   *)
(* sent, every close, and the points in time at which the broker was idle.   *)
(* Not recorded, and inferred by TLC: Handle, Commit and Swallow steps.      *)
EXTENDS Broker, Json, IOUtils

CONSTANTS MemSlack,  \* tolerated growth of memory (bytes)
          Budget,    \* seconds for one trace
          Eager      \* take commits early where the order does not matter

(* Values computed once are kept in TLC's registers, which start at Reg      *)
Reg == 100000
ASSUME TLCSet(Reg, TLCEval(JsonDeserialize(IOEnv.TRACES)))
Data == TLCGet(Reg)

ASSUME TLCSet(Reg + 1, TLCEval([i \in 1..Len(Data.traces) |-> Data.traces[i].ev]))
Ev == TLCGet(Reg + 1)
N  == Len(Ev)

Nothing == [t |-> "NONE"]

(* every packet the broker sent, parsed *)
ASSUME TLCSet(Reg + 2, TLCEval([i \in 1..N |-> TLCEval([k \in 1..Len(Ev[i]) |->
           IF Ev[i][k].e = "tx" THEN TLCEval(Parse(Ev[i][k].b)) ELSE Nothing])]))
Sent == TLCGet(Reg + 2)

(* The deliveries each connection number gets in the course of a trace; u:   *)
(* at most one publication has this content.                                *)
Deliveries(i, c) ==
  LET at == SelectSeq([k \in 1..Len(Ev[i]) |-> k],
              LAMBDA k : Ev[i][k].e = "tx" /\ Ev[i][k].c = c /\ Sent[i][k].t = "PUBLISH")
  IN [k \in 1..Len(at) |-> [p |-> Sent[i][at[k]], at |-> at[k], u |-> Ev[i][at[k]].u]]
ASSUME TLCSet(Reg + 3, TLCEval([i \in 1..N |-> TLCEval([c \in Conns |-> TLCEval(Deliveries(i, c))])]))
Got == TLCGet(Reg + 3)

(* how many of them up to the end of the connection opened by event k *)
Upto(i, k) ==
  LET c == Ev[i][k].c
      again == {j \in k + 1..Len(Ev[i]) : Ev[i][j].e = "open" /\ Ev[i][j].c = c}
      end == IF again = {} THEN Len(Ev[i]) ELSE (CHOOSE j \in again : \A m \in again : j <= m) - 1
  IN Len(SelectSeq([j \in 1..end |-> j],
           LAMBDA j : Ev[i][j].e = "tx" /\ Ev[i][j].c = c /\ Sent[i][j].t = "PUBLISH"))
ASSUME TLCSet(Reg + 4, TLCEval([i \in 1..N |-> TLCEval([k \in 1..Len(Ev[i]) |->
           IF Ev[i][k].e = "open" THEN Upto(i, k) ELSE 0])]))
Limit == TLCGet(Reg + 4)

(* the points at which connection c must have got everything, and the ends   *)
(* of its connections                                                       *)
Of(i, c, kinds) == {k \in 1..Len(Ev[i]) : Ev[i][k].e \in kinds /\ Ev[i][k].c = c}
Last(S, k) == LET B == {j \in S : j < k} IN IF B = {} THEN 0 ELSE CHOOSE j \in B : \A m \in B : m <= j
Settled(i, c) ==
  LET on == Of(i, c, {"stall"})  off == Of(i, c, {"unstall", "open"}) IN
  {k \in 1..Len(Ev[i]) : Ev[i][k].e = "q" /\ (on = {} \/ Last(on, k) <= Last(off, k))}
ASSUME TLCSet(Reg + 5, TLCEval([i \in 1..N |-> TLCEval([c \in Conns |-> TLCEval(
           [q |-> Settled(i, c), x |-> Of(i, c, {"close", "gone", "rst"})])])]))

(* can something that c has not got at event k remain unsent? *)
CanMiss(i, c, k) ==
  LET p == TLCGet(Reg + 5)[i][c]
      q == {j \in p.q : j >= k} IN
  \/ q = {}
  \/ LET j == CHOOSE j \in q : \A m \in q : j <= m IN \E e \in p.x : e >= k /\ e <= j

(* can something that c gets with event k be queued for it before event j?  *)
CanWait(i, c, j, k) == \A q \in TLCGet(Reg + 5)[i][c].q : q < j \/ q > k

VARIABLES tid,   \* which trace
          l,     \* next event
          sent,  \* deliveries each connection number got so far
          lim,   \* and will have got at the end of the current connection
          base,  \* live channels at the first probe
          mem    \* memory in use at the first measurement

tvars == <<vars, tid, l, sent, lim, base, mem>>
tr == <<tid, sent, lim, base, mem>>

E == Ev[tid][l]
More == l <= Len(Ev[tid])

T_Init == Init /\ tid \in 1..N /\ l = 1 /\ sent = All(0) /\ lim = All(0) /\ base = -1 /\ mem = -1

-----------------------------------------------------------------------------
(* Look-ahead. It only cuts off steps that no accepted behaviour contains.   *)

(* what connection c will still be sent, and is not queued yet *)
Ahead(c) == sent[c] + Len(queue[c]) + 1 .. lim[c]

(* a publication that appears nowhere else and that c will still be sent *)
Awaited(c, m) == \E k \in Ahead(c) : Got[tid][c][k].u /\ Got[tid][c][k].p.data = m.data

(* how many deliveries are queued; of those that are never seen only         *)
(* whether there are any                                                    *)
Ahead_(c) == IF Len(queue[c]) > lim[c] - sent[c] THEN lim[c] - sent[c] + 1 ELSE Len(queue[c])

(* A commit that queues a delivery other than the one the client is seen to *)
(* get next, or that does not queue one it is seen to get later on.         *)
FitsFuture(c, m) ==
  LET k == sent[c] + Len(queue'[c]) IN
  IF Len(queue'[c]) = Len(queue[c]) THEN ~Awaited(c, m)
  ELSE IF k > lim[c] THEN Ahead_(c) > lim[c] - sent[c] \/ CanMiss(tid, c, l)
  ELSE LET g == Got[tid][c][k] IN
       IsDelivery(g.p, queue'[c][Len(queue'[c])]) /\ CanWait(tid, c, l, g.at)

T_Commit(c) ==
  /\ Commit(c)
  /\ Is(Head(pend[c]).t = "PUBLISH" => \A s \in Conns : FitsFuture(s, Head(pend[c])))

(* A publication whose commit is seen to have to come next for everybody it *)
(* is for, and that nobody else will ever be sent, can be committed at once:*)
(* any other order of the steps up to its commit leads to the same.         *)
Plain(s, m) ==
  IF ~(current[s] /\ Alive(s)) \/ Granted(s, m.topic) = {}
  THEN \A k \in Ahead(s) : Got[tid][s][k].p.data # m.data
  ELSE LET k == sent[s] + Len(queue[s]) + 1 IN
       IF k > lim[s] THEN Len(queue[s]) > lim[s] - sent[s]
       ELSE /\ Got[tid][s][k].u /\ CanWait(tid, s, l, Got[tid][s][k].at)
            /\ IsDelivery(Got[tid][s][k].p, [topic |-> m.topic, data |-> m.data,
                                              qos |-> Min(m.qos, Max(Granted(s, m.topic)))])
Plain_(c) ==
  /\ Eager /\ pend[c] # <<>>
  /\ Head(pend[c]).t = "PUBLISH" /\ \A s \in Conns : Plain(s, Head(pend[c]))

(* Likewise a request that is seen to be answered, or has to be answered,   *)
(* before anybody sends a publication or takes the identifier, when none of  *)
(* these is under way already. (calm: neither is in these bytes)             *)
RECURSIVE Answered(_, _)
Answered(c, j) ==
  IF j > Len(Ev[tid]) THEN FALSE
  ELSE LET e == Ev[tid][j] IN
       IF e.t # now THEN e.e = "q" /\ ~stalled[c] /\ ~intr
       ELSE IF e.e = "q" THEN ~stalled[c] /\ ~intr
       ELSE IF e.e = "tx" THEN
              IF e.c = c /\ Sent[tid][j].t # "PUBLISH" THEN TRUE ELSE Answered(c, j + 1)
       ELSE IF e.e \in {"open", "close", "txpart", "eof", "gone", "rst", "stall", "unstall"}
              THEN e.c # c /\ Answered(c, j + 1)
       ELSE IF e.e = "rx" THEN e.calm /\ Answered(c, j + 1)
       ELSE e.e \in {"probe", "mem"} /\ Answered(c, j + 1)

Clear(c) ==
  LET p == Head(pend[c])
      id == IF p.t = "CONNECT" THEN Identity(c, p) ELSE cid[c] IN
  \A d \in Conns \ {c} :
    /\ \A s \in {inb[d], pend[d]} : \A i \in 1..Len(s) :
         /\ s[i].t # "PUBLISH"
         /\ s[i].t = "CONNECT" => Identity(d, s[i]) # id
    /\ p.t = "CONNECT" => ~(current[d] /\ cid[d] = id)

Request_(c) ==
  /\ Eager /\ pend[c] # <<>> /\ Alive(c)
  /\ Head(pend[c]).t # "PUBLISH" /\ Clear(c) /\ Answered(c, l)

(* a close that drops a publication somebody is seen to get later on *)
DropsAwaited(c) ==
  \E i \in Len(pend'[c]) + 1 .. Len(pend[c]) :
     pend[c][i].t = "PUBLISH" /\ \E s \in Conns \ {c} : Awaited(s, pend[c][i])

(* States are told apart by what can still matter. The contents of queued   *)
(* deliveries do not: they were found to be those that are seen.            *)
View == <<netV, cmdV, endV, sessV, [c \in Conns |-> Ahead_(c)], ids2, unacked, timeV, progV,
          tid, l, sent, lim, base, mem>>

PartAllowed(c) == stalled[c] \/ Abrupt(c) \/ input[c] \in {"gone", "rst"}

(* Clients of which each came (Open, Recv of a CONNECT and a DISCONNECT), was *)
(* let in (Handle, Commit, Respond) and left (Handle, Close), with            *)
(* identifiers of their own: what these steps change is what Open sets anew.  *)
Visit(c) ==
  /\ phase[c] \in {"none", "closed"} /\ pend[c] = <<>> /\ raw[c] = <<>> /\ inb[c] = <<>>
  /\ owed[c] = <<>> /\ subs[c] = {} /\ queue[c] = <<>> /\ ~intr /\ ~exited

OnNet(c, A) == IF Alive(c) THEN A ELSE UNCHANGED vars

Event ==
  /\ More
  /\ now = E.t
  /\ l' = l + 1
  /\ CASE E.e = "open"  -> Open(E.c) /\ lim' = [lim EXCEPT ![E.c] = Limit[tid][l]]
                             /\ UNCHANGED <<tid, sent, base, mem>>
       [] E.e = "rx"    -> OnNet(E.c, Recv(E.c, E.b)) /\ UNCHANGED tr
       [] E.e \in {"eof", "gone", "rst"} -> OnNet(E.c, EndInput(E.c, E.e)) /\ UNCHANGED tr
       [] E.e \in {"stall", "unstall"} -> OnNet(E.c, Stall(E.c, E.e = "stall")) /\ UNCHANGED tr
       [] E.e = "tx" ->
            LET p == Sent[tid][l] IN
            IF p.t = "PUBLISH"
            THEN Deliver(E.c, p) /\ sent' = [sent EXCEPT ![E.c] = @ + 1] /\ UNCHANGED <<tid, lim, base, mem>>
            ELSE Respond(E.c, p) /\ UNCHANGED tr
       [] E.e = "txpart" -> Is(PartAllowed(E.c)) /\ UNCHANGED <<vars, tr>>
       [] E.e = "close" -> Close(E.c) /\ ~DropsAwaited(E.c) /\ UNCHANGED tr
       [] E.e = "q"     -> Is(Quiet) /\ UNCHANGED <<vars, tr>>
       [] E.e = "int"   -> Interrupt /\ UNCHANGED tr
       [] E.e = "exit"  -> Exit /\ UNCHANGED tr
       [] E.e = "probe" ->
            \* no channel outlives the connection that reads from it
            /\ E.orphan = 0
            /\ Is(base = -1 \/ (\E c \in Conns : Alive(c)) \/ E.live = base)
            /\ base' = IF base = -1 /\ \A c \in Conns : ~Alive(c) THEN E.live ELSE base
            /\ UNCHANGED <<vars, tid, sent, lim, mem>>
       [] E.e = "visits" -> Is(Visit(E.c)) /\ UNCHANGED <<vars, tr>>
       [] E.e = "mem" ->
            \* connections that ended leave nothing behind
            /\ Is(mem = -1 \/ E.n <= mem + MemSlack)
            /\ mem' = IF mem = -1 THEN E.n ELSE mem
            /\ UNCHANGED <<vars, tid, sent, lim, base>>
       \* where clients expect it
       [] E.e = "bind"  -> Is(E.port = 1883 /\ E.any) /\ UNCHANGED <<vars, tr>>
       [] E.e = "end"   -> UNCHANGED <<vars, tr>>
       [] OTHER -> FALSE   \* panic, crash, hang, spin, ...

Handleable == {c \in Conns : CanHandle(c)}

Committable == {c \in Conns : Plain_(c) \/ Request_(c)}

(* Handling a packet early never rules anything out, so it comes first. *)
T_Next ==
  IF Handleable # {} THEN
    /\ Handle(CHOOSE c \in Handleable : \A d \in Handleable : c <= d)
    /\ UNCHANGED <<l, tr>>
  ELSE IF Committable # {} THEN
    /\ T_Commit(CHOOSE c \in Committable : \A d \in Committable : c <= d)
    /\ UNCHANGED <<l, tr>>
  ELSE
    \/ Event
    \/ \E c \in Conns : Swallow(c) /\ UNCHANGED <<l, tr>>
    \/ More /\ E.t > now /\ Tick(E.t) /\ UNCHANGED <<l, tr>>
    \/ \E c \in Conns : T_Commit(c) /\ UNCHANGED <<l, tr>>

T_Spec == T_Init /\ [][T_Next]_tvars

-----------------------------------------------------------------------------
(* Acceptance: register tid holds how far trace tid was explained, -1 once  *)
(* it was completely.                                                       *)
ASSUME \A i \in 1..N : TLCSet(i, 0) /\ TLCSet(Reg + 10 + i, -1)

(* The traces are searched one after the other, each for Budget seconds at   *)
(* most; -2: not decided in this time.                                       *)
InTime ==
  LET s == TLCGet(Reg + 10 + tid) IN
  IF l = 1 THEN TRUE
  ELSE IF s = -1 THEN TLCSet(Reg + 10 + tid, TLCGet("duration"))
  ELSE TLCGet("duration") - s <= Budget

Progress ==
  /\ TLCGet(tid) >= 0
  /\ IF l > Len(Ev[tid]) THEN TLCSet(tid, -1)
     ELSE IF ~InTime THEN TLCSet(tid, -2) /\ FALSE
     ELSE IF l > TLCGet(tid) THEN TLCSet(tid, l) ELSE TRUE

(* Only used to explain rejected traces: the event each of them got stuck at *)
Stop == TLCGet(Reg).stop

Report == \A i \in 1..N : PrintT(<<"RESULT", i, TLCGet(i)>>)
=============================================================================
