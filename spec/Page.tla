-------------------------------- MODULE Page ---------------------------------
(***************************************************************************)
(* What a browser shows (C25).  A page is changed by each state it         *)
(* receives; Shown(x) is what it has to show for state x, whatever it      *)
(* showed before.  A state has, per seat, act, hole, st, com; and the      *)
(* board, pot, seat to act (0: none) and button.                           *)
(* Cards: a number, Back or Blank.  A card is drawn in the colour of its   *)
(* suit; what is not drawn keeps its ink, which nobody sees.               *)
(***************************************************************************)
EXTENDS Util

Back == -1
Blank == -2

Red(card) == (card \div 13) \in {1, 2}
Inks(cards) == [j \in DOMAIN cards |-> cards[j] >= 0 /\ Red(cards[j])]

(* n seats, nh hole and nc community cards *)
Shown(n, nh, nc, x) ==
    [ st |-> x.st, com |-> x.com,
      cards |-> [i \in 1..n |-> IF x.act[i] THEN x.hole[i] ELSE Rep(Back, nh)],
      turn |-> [i \in 1..n |-> i = x.a], but |-> [i \in 1..n |-> i = x.but],
      board |-> [j \in 1..nc |-> IF j <= Len(x.board) THEN x.board[j] ELSE Blank],
      pot |-> x.pot,
      inks |-> [i \in 1..n |-> IF x.act[i] THEN Inks(x.hole[i]) ELSE Rep(FALSE, nh)],
      bink |-> [j \in 1..nc |-> j <= Len(x.board) /\ Red(x.board[j])] ]
(* what can be seen of a page *)
Seen(p) == [p EXCEPT !.inks = [i \in DOMAIN @ |-> [j \in DOMAIN @[i] |-> p.cards[i][j] >= 0 /\ @[i][j]]],
                     !.bink = [j \in DOMAIN @ |-> p.board[j] >= 0 /\ @[j]]]

(* How the page goes from one state to the next: everything is cleared,    *)
(* then what the state says is filled in.                                  *)
Fresh(n, nh, nc) ==
    [ st |-> Rep(0, n), com |-> Rep(0, n), cards |-> Rep(Rep(Back, nh), n),
      turn |-> Rep(FALSE, n), but |-> Rep(FALSE, n), board |-> Rep(Blank, nc), pot |-> 0,
      inks |-> Rep(Rep(FALSE, nh), n), bink |-> Rep(FALSE, nc) ]
Cleared(n, nh, nc, p) == [Fresh(n, nh, nc) EXCEPT !.com = p.com, !.inks = p.inks, !.bink = p.bink]
Filled(n, p, x) ==
    [ p EXCEPT !.st = x.st, !.com = x.com, !.pot = x.pot,
      !.cards = [i \in 1..n |-> IF x.act[i] THEN x.hole[i] ELSE @[i]],
      !.turn = [i \in 1..n |-> @[i] \/ i = x.a], !.but = [i \in 1..n |-> @[i] \/ i = x.but],
      !.board = [j \in DOMAIN @ |-> IF j <= Len(x.board) THEN x.board[j] ELSE @[j]],
      !.inks = [i \in 1..n |-> IF x.act[i] THEN Inks(x.hole[i]) ELSE @[i]],
      !.bink = [j \in DOMAIN @ |-> IF j <= Len(x.board) THEN Red(x.board[j]) ELSE @[j]] ]
Received(n, nh, nc, p, x) == Filled(n, Cleared(n, nh, nc, p), x)
=============================================================================
