------------------------------ MODULE Viewers -------------------------------
(***************************************************************************)
(* What a viewer is handed at each rendering, and what the text viewer     *)
(* makes of any such description (C28).                                    *)
(*                                                                         *)
(* A description x has a (seat to act, 0: none), act, allin, board, but,   *)
(* over, hole, pot, pay, last (<<>> or <<seat, bet, folded>>), com, st.    *)
(***************************************************************************)
EXTENDS Util

FaceDown == -1
NoCard == -2

(* the text table for n seats, nh hole and nc community cards *)
TextOf(n, nh, nc, x) ==
    LET cards(i) == IF ~x.act[i] THEN Rep(NoCard, nh)
                    ELSE IF x.over \/ i = x.a THEN x.hole[i]
                    ELSE Rep(FaceDown, nh)
        mark(i) == IF x.over THEN ""
                   ELSE IF x.allin[i] THEN "A"
                   ELSE IF i = x.a THEN "X" ELSE ""
        winners == {i \in 1..n : x.pay[i] > 0}
    IN [ seats |-> [i \in 1..n |->
                      [num |-> i, st |-> x.st[i], amt |-> IF x.over THEN x.pay[i] ELSE x.com[i],
                       but |-> i = x.but, mark |-> mark(i), cards |-> cards(i)]],
         board |-> [j \in 1..nc |-> IF j <= Len(x.board) THEN x.board[j] ELSE NoCard],
         pot |-> IF x.over THEN 0 ELSE x.pot,
         actor |-> IF x.over THEN 0 ELSE x.a,
         last |-> IF x.over \/ x.last = <<>> THEN <<>>
                  ELSE <<x.last[1],
                         IF x.last[3] THEN "folded" ELSE IF x.last[2] > 0 THEN "bet" ELSE "checked",
                         IF x.last[3] THEN 0 ELSE x.last[2]>>,
         win |-> IF x.over THEN SetToSortSeq({<<i, x.pay[i]>> : i \in winners}, LAMBDA p, q : p[1] < q[1])
                 ELSE <<>> ]
=============================================================================
