------------------------------- MODULE Topics -------------------------------
(* Topic names, topic filters and matching (MQTT 3.1.1, section 4.7).       *)
(* A string is a sequence of integers: bytes, or negative numbers that each *)
(* stand for one long run of ordinary characters (see Wire).                *)
EXTENDS Naturals, Integers, Sequences

SLASH == 47
PLUS  == 43
HASH  == 35
DOLLAR == 36

Has(s, x) == \E i \in 1..Len(s) : s[i] = x

(* "a/b//c" |-> <<"a", "b", "", "c">> *)
Levels(s) ==
  LET cuts == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : s[i] = SLASH)
      n    == Len(cuts)
  IN [k \in 1..(n + 1) |-> SubSeq(s, IF k = 1 THEN 1 ELSE cuts[k - 1] + 1,
                                     IF k = n + 1 THEN Len(s) ELSE cuts[k] - 1)]

NoWildcard(s) == ~Has(s, PLUS) /\ ~Has(s, HASH)

IsTopicName(s) == s # <<>> /\ NoWildcard(s)

IsTopicFilter(s) ==
  /\ s # <<>>
  /\ NoWildcard(s) \/ LET l == Levels(s) IN
       \A i \in 1..Len(l) :
         \/ ~Has(l[i], PLUS) /\ ~Has(l[i], HASH)
         \/ l[i] = <<PLUS>>
         \/ l[i] = <<HASH>> /\ i = Len(l)

RECURSIVE LevelsMatch(_, _, _)
LevelsMatch(f, t, i) ==
  IF i > Len(f) THEN i > Len(t)
  ELSE IF f[i] = <<HASH>> THEN TRUE
  ELSE /\ i <= Len(t)
       /\ f[i] = <<PLUS>> \/ f[i] = t[i]
       /\ LevelsMatch(f, t, i + 1)

(* f must be a valid filter, t a valid topic name *)
Matches(f, t) ==
  IF NoWildcard(f) THEN f = t
  ELSE
  /\ ~(t[1] = DOLLAR /\ f[1] \in {PLUS, HASH})
  /\ LevelsMatch(Levels(f), Levels(t), 1)
=============================================================================
