------------------------------- MODULE MCTrie -------------------------------
EXTENDS Trie

a == 97  b == 98  s == SLASH
Sh(g, rest) == SHARE \o <<s>> \o g \o rest

(* one pool after the other: prefixes of each other, wildcards, the first level, shares *)
Pool1 == {<<a>>, <<a, s, b>>, <<a, s, HASH>>, <<PLUS, s, b>>, <<HASH>>}
Pool2 == {<<a, s, PLUS, s, b>>, <<a, s, PLUS>>, <<a, s, b, s, b>>, <<PLUS, s, PLUS, s, PLUS>>, <<a, s, PLUS, s, HASH>>}
Pool3 == {<<PLUS>>, <<DOLLAR, a>>, <<DOLLAR, a, s, HASH>>, <<s>>, <<PLUS, s, PLUS>>, <<s, PLUS>>}
Pool4 == {Sh(<<a>>, <<s, b>>), Sh(<<a>>, <<s, HASH>>), Sh(<<b>>, <<s, PLUS>>), <<s, b>>, <<PLUS, s, b>>, SHARE \o <<b, s, b>>}

Names_ == {<<a>>, <<b>>, <<a, s, b>>, <<a, s>>, <<s>>, <<s, b>>, <<a, s, b, s, b>>, <<a, s, a, s, b>>, <<a, s, b, s>>,
           <<b, s, b>>, <<DOLLAR, a>>, <<DOLLAR, a, s, b>>, <<DOLLAR>>, <<s, s>>,
           Sh(<<a>>, <<>>), Sh(<<a>>, <<s, b>>), Sh(<<b>>, <<s, b>>), Sh(<<b>>, <<s, b, s, b>>), Sh(<<a>>, <<s>>), SHARE \o <<b, s, b>>}
=============================================================================
