------------------------------ MODULE MCTopics ------------------------------
(* Matching, defined again character by character, for all short strings.    *)
EXTENDS Topics, FiniteSets

CONSTANTS FChars, TChars, FLen, TLen

VARIABLES f, t

Strings(S, n) == UNION {[1..k -> S] : k \in 1..n}

Init == f \in {s \in Strings(FChars, FLen) : IsTopicFilter(s)} /\ t \in {s \in Strings(TChars, TLen) : IsTopicName(s)}
Next == UNCHANGED <<f, t>>
Spec == Init /\ [][Next]_<<f, t>>

(* the rest of f from i accepts the rest of t from j, both at the start of a level or inside of one *)
RECURSIVE Accepts(_, _)
RECURSIVE SkipLevel(_)
SkipLevel(j) == IF j > Len(t) \/ t[j] = SLASH THEN j ELSE SkipLevel(j + 1)
Accepts(i, j) ==
  IF i > Len(f) THEN j > Len(t)
  ELSE IF f[i] = HASH THEN TRUE
  ELSE IF f[i] = PLUS THEN Accepts(i + 1, SkipLevel(j))
  ELSE IF j > Len(t) THEN f[i] = SLASH /\ i + 1 = Len(f) /\ f[i + 1] = HASH   \* "a/#" includes "a"
  ELSE f[i] = t[j] /\ Accepts(i + 1, j + 1)

ByCharacter == Matches(f, t) = (Accepts(1, 1) /\ (t[1] = DOLLAR => f[1] \notin {PLUS, HASH}))

(* a filter is one iff it reads as text "level/level/..." with wildcards alone in their level and '#' at the end *)
Legal(s) ==
  /\ s # <<>>
  /\ \A i \in 1..Len(s) :
       /\ s[i] \in {PLUS, HASH} => (i = 1 \/ s[i - 1] = SLASH) /\ (i = Len(s) \/ s[i + 1] = SLASH)
       /\ s[i] = HASH => i = Len(s)

(* what follows from the definition *)
Laws ==
  /\ NoWildcard(f) => (Matches(f, t) <=> f = t)
  /\ Matches(t, t)
  /\ Matches(<<HASH>>, t) <=> t[1] # DOLLAR
  \* a name does not begin or end where a level does
  /\ (Matches(f, t) /\ f[Len(f)] # HASH) => Len(Levels(f)) = Len(Levels(t))
  \* what a filter matches, it matches below '#' as well
  /\ (Matches(f, t) /\ f[Len(f)] # HASH) => Matches(f \o <<SLASH, HASH>>, t)
  \* a level more on both sides
  /\ f[Len(f)] # HASH => (Matches(f, t) <=> Matches(f \o <<SLASH, PLUS>>, t \o <<SLASH, 120>>))
  /\ Legal(f) /\ Legal(t)

ASSUME \A s \in Strings(FChars, FLen) : IsTopicFilter(s) <=> Legal(s)
ASSUME ~IsTopicFilter(<<>>) /\ ~IsTopicName(<<>>)
=============================================================================
