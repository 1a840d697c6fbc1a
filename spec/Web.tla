--------------------------------- MODULE Web ---------------------------------
(***************************************************************************)
(* Delivery of rendered tables to browsers, and the page they are shown    *)
(* on (C24).  The rendered states are numbered 1, 2, ...; 0 stands for     *)
(* nothing rendered yet.                                                   *)
(***************************************************************************)
EXTENDS Util

-----------------------------------------------------------------------------
(* What a browser may receive *)

(* the first state a browser gets is not older than what was shown when it *)
(* connected                                                               *)
MayStart(floor, j) == j >= floor
(* afterwards the same again, or the next one: none skipped, none late     *)
MayFollow(i, j) == j \in {i, i + 1}

-----------------------------------------------------------------------------
(* The elements of the page, as <<kind, seat, number>>.  -1: the community *)
(* place, or no number.                                                    *)
(* c.n players, c.nh hole cards, c.nc community cards                      *)
PlayerParts(c) ==
    {<<kind, i, -1>> : kind \in {"player", "player-background", "cards", "chips", "chips-background",
                                 "chips-text", "street-commit", "street-commit-background",
                                 "street-commit-text", "button", "button-background"},
                       i \in 0..c.n - 1}
CardParts(c) ==
    {<<kind, i, j>> : kind \in {"card", "card-background", "card-text"}, i \in 0..c.n - 1, j \in 0..c.nh - 1}
    \cup {<<kind, -1, j>> : kind \in {"card", "card-background", "card-text"}, j \in 0..c.nc}
TableParts == {<<"cards", -1, -1>>, <<"community", -1, -1>>, <<"pot", -1, -1>>,
               <<"pot-background", -1, -1>>, <<"pot-text", -1, -1>>}
Parts(c) == PlayerParts(c) \cup CardParts(c) \cup TableParts

(* parts: those found, in order; other: further identifiers *)
PageOK(c, parts, other) ==
    /\ IsInjective(parts) /\ IsInjective(other)
    /\ ToSet(parts) = Parts(c)

-----------------------------------------------------------------------------
(* Places on the page (x to the right, y down), in tenths of its units:    *)
(* at.seat and at.bet the middles of each player's box and of his chips,   *)
(* at.cards the left upper corners of all cards of the table, at.table the *)
(* middle of the table                                                     *)
Cross(o, p, q) == (p[1] - o[1]) * (q[2] - o[2]) - (p[2] - o[2]) * (q[1] - o[1])
Dist2(p, q) == (p[1] - q[1]) * (p[1] - q[1]) + (p[2] - q[2]) * (p[2] - q[2])
Cyclic(q, i) == q[(i % Len(q)) + 1]

(* clockwise around o, once: each next one lies to the right when seen     *)
(* from o, and the lower half is left for the upper half once              *)
Clockwise(o, q) ==
    /\ Len(q) > 2 => \A i \in DOMAIN q : Cross(o, q[i], Cyclic(q, i)) > 0
    /\ Len(q) > 1 => Cardinality({i \in DOMAIN q : q[i][2] >= o[2] /\ Cyclic(q, i)[2] < o[2]}) = 1

(* boxes <<x, y, width, height>>, up to half a unit *)
Apart(a, b) ==
    \/ a[1] + a[3] <= b[1] + 5 \/ b[1] + b[3] <= a[1] + 5
    \/ a[2] + a[4] <= b[2] + 5 \/ b[2] + b[4] <= a[2] + 5
Within(a, b) ==
    /\ a[1] >= b[1] - 5 /\ a[1] + a[3] <= b[1] + b[3] + 5
    /\ a[2] >= b[2] - 5 /\ a[2] + a[4] <= b[2] + b[4] + 5
(* side by side, from the left to the right *)
InARow(q) == \A i \in 1..Len(q) - 1 : q[i][1] + q[i][3] <= q[i + 1][1] + 5 /\ q[i][2] = q[i + 1][2]

(* a player's cards and chips are in his box; the board is in the middle   *)
(* of the table, away from all players                                     *)
RowsOK(c, at) ==
    /\ Len(at.hand) = c.n /\ Len(at.board) = c.nc + 1
    /\ \A i \in 1..c.n :
         /\ Len(at.hand[i]) = c.nh /\ InARow(at.hand[i])
         /\ \A j \in 1..c.nh : Within(at.hand[i][j], at.box[i]) /\ Apart(at.hand[i][j], at.chips[i])
         /\ Within(at.chips[i], at.box[i])
    /\ InARow(at.board)
    /\ LET all == at.board \o <<at.pot>> IN
       /\ \A j \in 1..Len(at.board) : Apart(at.board[j], at.pot)
       \* (unless there are too many cards for the table)
       /\ c.nh <= 5 /\ c.nc <= 8 => \A k \in 1..Len(all), i \in 1..c.n :
            Apart(all[k], at.box[i]) /\ Apart(all[k], at.betbox[i])
    \* the middle of the board is the middle of the table, up to a card
    /\ LET left == at.board[1][1]
           right == at.board[c.nc + 1][1] + at.board[c.nc + 1][3]
       IN Abs(left + right - 2 * at.table[1]) <= at.board[1][3]
    /\ Abs(2 * at.pot[1] + at.pot[3] - 2 * at.table[1]) <= at.board[1][3]
    /\ at.board[1][2] <= at.table[2] /\ at.pot[2] + at.pot[4] >= at.table[2]

LayoutOK(c, at) ==
    /\ RowsOK(c, at)
    \* his chips are nearer to the middle than he is
    /\ \A i \in DOMAIN at.bet : i \in DOMAIN at.seat => Dist2(at.bet[i], at.table) < Dist2(at.seat[i], at.table)
    /\ Len(at.seat) = c.n /\ Len(at.bet) = c.n
    /\ IsInjective(at.seat) /\ IsInjective(at.bet)
    /\ c.n * c.nh + c.nc <= 52 => IsInjective(at.cards)
    /\ Clockwise(at.table, at.seat) /\ Clockwise(at.table, at.bet)
    \* a player's chips lie in front of him: between his neighbours, and
    \* nearest to him unless the table is crowded
    /\ c.n > 2 => \A i \in 1..c.n :
         /\ Cross(at.table, at.seat[i], Cyclic(at.bet, i)) > 0
         /\ Cross(at.table, at.bet[i], Cyclic(at.seat, i)) > 0
    /\ c.n <= 12 => \A i, j \in 1..c.n :
         i # j => Dist2(at.bet[i], at.seat[i]) < Dist2(at.bet[i], at.seat[j])
=============================================================================
