-------------------------------- MODULE Trie --------------------------------
(* The tree of subscriptions as it is built (topic_heir.rs): a node for each *)
(* level of each filter, subscriptions at the nodes, lookup by descent, and  *)
(* nodes taken away with the last subscription below them. Filters that      *)
(* start with "$share" have their first two levels put aside.                *)
(*                                                                          *)
(* Checked: whatever has been subscribed and unsubscribed, a lookup gives    *)
(* every client with a matching subscription once, at the highest QoS of     *)
(* these (Topics), and no node is left that leads to no subscription.        *)
EXTENDS Topics, FiniteSets, TLC

CONSTANTS Clients, Pool, Names,
  Size,  \* subscriptions at a time
  Bug

VARIABLES
  nodes,  \* paths that exist: sequences of levels
  leaves, \* [at, share, c, q]
  held    \* what each client is subscribed to: [c, f, q]

tvars == <<nodes, leaves, held>>

SHARE == <<36, 115, 104, 97, 114, 101>>
NoShare == <<-1>>

(* tokenise_topic *)
Tokens(s) ==
  LET l == Levels(s) IN
  IF l[1] = SHARE /\ Len(l) >= 2
  THEN [path |-> <<<<>>>> \o SubSeq(l, 3, Len(l)), share |-> l[2]]
  ELSE [path |-> l, share |-> NoShare]

Prefixes(p) == {SubSeq(p, 1, i) : i \in 1..Len(p)}

(* nodes with nothing below them, from the bottom up *)
Prune(N, L) == {p \in N : \E l \in L : p \in Prefixes(l.at)}
(* only those on the way to a filter are looked at *)
PruneAt(N, L, at) == {p \in N : p \in Prefixes(at) => \E l \in L : p \in Prefixes(l.at)}

Subscribe_(c, f, q) ==
  LET t == Tokens(f) IN
  /\ nodes' = nodes \union Prefixes(t.path)
  /\ leaves' = {l \in leaves : ~(l.at = t.path /\ l.share = t.share /\ l.c = c) \/ Bug = "double"}
               \union {[at |-> t.path, share |-> t.share, c |-> c, q |-> q]}
  /\ held' = {h \in held : ~(h.c = c /\ h.f = f)} \union {[c |-> c, f |-> f, q |-> q]}

Unsubscribe_(c, f) ==
  LET t == Tokens(f)
      L == {l \in leaves : ~(l.at = t.path /\ l.share = t.share /\ (l.c = c \/ Bug = "everybodys"))} IN
  /\ leaves' = L
  /\ nodes' = CASE Bug = "nodesleft" -> nodes
                [] Bug = "cutsbelow" -> {p \in nodes : p # t.path \/ \E l \in L : l.at = t.path}
                [] OTHER -> PruneAt(nodes, L, t.path)
  /\ held' = {h \in held : ~(h.c = c /\ h.f = f)}

Remove_(c) ==
  LET L == {l \in leaves : l.c # c} IN
  /\ leaves' = L /\ nodes' = Prune(nodes, L)
  /\ held' = {h \in held : h.c # c}

T_Init == nodes = {} /\ leaves = {} /\ held = {}
T_Next ==
  \E c \in Clients :
       \/ \E f \in Pool, q \in {0, 2} : Cardinality(held) < Size /\ Subscribe_(c, f, q)
       \/ \E f \in Pool : Unsubscribe_(c, f)
       \/ Remove_(c)
T_Spec == T_Init /\ [][T_Next]_tvars

-----------------------------------------------------------------------------
(* SubHier::get *)
At(p, share) == {l \in leaves : l.at = p /\ l.share = share}
HasNode(p) == p \in nodes

RECURSIVE Walk(_, _, _)
Walk(p, rest, share) ==
  (IF rest = <<>> THEN At(p, share)
   ELSE UNION {IF HasNode(Append(p, x)) THEN Walk(Append(p, x), Tail(rest), share) ELSE {} : x \in {Head(rest), <<PLUS>>}})
  \union (IF HasNode(Append(p, <<HASH>>)) /\ (Bug # "parent" \/ rest # <<>>) THEN At(Append(p, <<HASH>>), share) ELSE {})

(* SubscriptionTree::get *)
Found(topic) ==
  LET t == Tokens(topic)
      first == Head(t.path)
      dollar == first # <<>> /\ first[1] = DOLLAR /\ Bug # "dollar"
      from == IF dollar THEN {first} ELSE {first, <<PLUS>>} IN
  UNION {IF HasNode(<<x>>) THEN Walk(<<x>>, Tail(t.path), t.share) ELSE {} : x \in from}
  \union (IF dollar THEN {} ELSE At(<<<<HASH>>>>, t.share))

Top(S) == CHOOSE x \in S : \A y \in S : y <= x
Subscribers(topic) ==
  {<<c, Top({l.q : l \in {x \in Found(topic) : x.c = c}})>> : c \in {l.c : l \in Found(topic)}}

Matching(topic) ==
  LET m == {h \in held : Matches(h.f, topic)} IN
  {<<c, Top({h.q : h \in {x \in m : x.c = c}})>> : c \in {h.c : h \in m}}

Right == \A topic \in Names : Subscribers(topic) = Matching(topic)
Once  == \A l, k \in leaves : l.at = k.at /\ l.share = k.share /\ l.c = k.c => l = k
Clean == nodes = UNION {Prefixes(l.at) : l \in leaves}
=============================================================================
