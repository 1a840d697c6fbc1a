----------------------------- MODULE ViewersMC ------------------------------
(* Every description of a small table: its text hides what is hidden, and  *)
(* tells apart all descriptions which differ in what a player may know.    *)
EXTENDS Viewers

N == 2  NH == 1  NC == 1
VARIABLES x, y
vars == <<x, y>>

Some == {z \in [a : 0..N, act : [1..N -> BOOLEAN], allin : {<<FALSE, FALSE>>, <<FALSE, TRUE>>}, board : {<<>>, <<5>>}, but : 1..N,
         over : BOOLEAN, hole : [1..N -> {<<3>>, <<4>>}], pot : {2}, pay : {<<0, 0>>, <<-1, 1>>},
         last : {<<>>, <<1, 2, FALSE>>, <<2, 0, TRUE>>}, com : {<<0, 1>>}, st : {<<7, 8>>}] :
           (z.a = 0) = z.over}

Init == x \in Some /\ y = x
\* other cards in a hand
Swap == \E i \in 1..N : y' = [y EXCEPT !.hole[i] = IF @ = <<3>> THEN <<4>> ELSE <<3>>] /\ x' = x
Next == y = x /\ Swap
Spec == Init /\ [][Next]_vars

Changed == {i \in 1..N : x.hole[i] # y.hole[i]}
Hidden == (TextOf(N, NH, NC, x) = TextOf(N, NH, NC, y))
             = (\A i \in Changed : ~x.act[i] \/ (~x.over /\ i # x.a))
=============================================================================
