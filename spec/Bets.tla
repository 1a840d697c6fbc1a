-------------------------------- MODULE Bets ---------------------------------
(***************************************************************************)
(* What any bet comes to (C06), for any offers and bets whatsoever:        *)
(* self-contained and typed, for Apalache.  BetMC shows with TLC that      *)
(* Table resolves bets like this.                                          *)
(***************************************************************************)
EXTENDS Integers

VARIABLES
    \* @type: Int;
    oc,         \* the offers: call,
    \* @type: Int;
    omin,       \* smallest
    \* @type: Int;
    omax,       \* and largest raise
    \* @type: Int;
    stack,      \* chips of the player
    \* @type: Int;
    bet,        \* his bet, in eighths of a chip
    \* @type: Int;
    probe       \* any number of chips

Abs(x) == IF x < 0 THEN -x ELSE x

(* what Chips shows of all offers *)
Offered == /\ 0 <= oc /\ oc <= stack /\ 0 <= omin /\ omin <= omax /\ omax <= stack
           /\ omax > 0 => omin >= oc

Legal(x) == x = 0 \/ x = oc \/ (omin <= x /\ x <= omax)

Whole == LET w == bet \div 8 IN IF bet - 8 * w > 4 THEN w + 1 ELSE w
InRange == IF bet < 8 * omin THEN omin ELSE IF bet > 8 * omax THEN omax ELSE Whole
Off(x) == Abs(8 * x - bet)
Better(x, y) == Off(x) < Off(y) \/ (Off(x) = Off(y) /\ x <= y)
Nearest == IF Better(0, oc) /\ Better(0, InRange) THEN 0
           ELSE IF Better(oc, InRange) THEN oc ELSE InRange
Folds == oc > 0 /\ (bet < 0 \/ Nearest < oc)
Amount == IF Folds THEN 0 ELSE Nearest

Init == /\ oc \in Int /\ omin \in Int /\ omax \in Int /\ stack \in Int /\ bet \in Int /\ probe \in Int
        /\ Offered
Next == UNCHANGED <<oc, omin, omax, stack, bet, probe>>

NearestIsLegal == Legal(Nearest)
NearestIsNearest == Legal(probe) => Better(Nearest, probe)
LegalStays == (Legal(probe) /\ bet = 8 * probe) => Nearest = probe
FoldsOnly == Folds <=> (oc > 0 /\ (bet < 0 \/ Nearest = 0))
(* exactly what Chips lets a player do *)
AllowedOnly == IF Folds THEN oc > 0 /\ Amount = 0
               ELSE Amount >= oc /\ (Amount = oc \/ (omin <= Amount /\ Amount <= omax))
Affordable == 0 <= Amount /\ Amount <= stack
TooMuchIsMost == (bet >= 8 * stack /\ Legal(probe) /\ ~Folds) => Amount >= probe
Right == NearestIsLegal /\ NearestIsNearest /\ LegalStays /\ FoldsOnly /\ AllowedOnly /\ Affordable /\ TooMuchIsMost
=============================================================================
