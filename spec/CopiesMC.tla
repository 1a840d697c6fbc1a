------------------------------ MODULE CopiesMC -------------------------------
(***************************************************************************)
(* All ways of copying a small table, and copies of it, in between the     *)
(* calls made to it and to the copies made so far.  calls[o] is the        *)
(* history of table o: what was called on it, and before it was made on    *)
(* the tables it comes from.                                               *)
(*                                                                         *)
(* Alike: the state of a table is what its own history makes of a fresh    *)
(* table, whatever happens to the others - which is how the conformance    *)
(* run judges each table, by itself, against DealerTrace.                  *)
(***************************************************************************)
EXTENDS Copies, Json

CONSTANTS Moves, MaxTables

C == [n |-> 2, ns |-> 2, blinds |-> <<1, 2>>, antes |-> <<0, 0>>,
      rs |-> <<-2, -2>>, nr |-> <<1, 1>>, nh |-> 1, nc |-> <<0, 1>>,
      start |-> 3, suits |-> 4, ranks |-> 13, k |-> 1, mand |-> 1, low |-> FALSE, ord |-> <<>>]
Deck(last) == IF last THEN <<0, 14, 50>> ELSE <<12, 1, 37>>

(* a call: a reset with one of two decks, or a bet *)
Calls == {<<"reset", 0>>, <<"reset", 1>>} \cup {<<"step", b>> : b \in {-1, 1, 3}}
Do(z, c) == IF c[1] = "reset" THEN ResetTable(C, z, FALSE, TRUE, Deck(c[2] = 1))
            ELSE StepTable(C, z, OfChips(c[2]))
Allowed(z, c) == c[1] = "reset" \/ z.ph = "live"

VARIABLES tabs, calls, path
vars == <<tabs, calls, path>>

Init == tabs = <<FreshTable(C)>> /\ calls = <<<<>>>> /\ path = <<>>

Copy(o) == /\ Len(tabs) < MaxTables
           /\ tabs' = CopyTable(tabs, o)
           /\ calls' = Append(calls, calls[o])
           /\ path' = Append(path, <<"copy", o>>)

Call(o) == /\ path' = Append(path, <<"call", o>>)
           /\ \E c \in Calls :
                /\ Allowed(tabs[o], c)
                /\ tabs' = CallTable(tabs, o, Do(tabs[o], c))
                /\ calls' = [calls EXCEPT ![o] = Append(@, c)]
Next == Len(path) < Moves /\ \E o \in DOMAIN tabs : Copy(o) \/ Call(o)
Spec == Init /\ [][Next]_vars

RECURSIVE Replayed(_, _)
Replayed(z, cs) == IF cs = <<>> THEN z ELSE Replayed(Do(z, Head(cs)), Tail(cs))
Alike == \A o \in DOMAIN tabs : tabs[o] = Replayed(FreshTable(C), calls[o])
OnlyOneMoves == [][\E o \in DOMAIN tabs' : \A p \in DOMAIN tabs \ {o} : tabs'[p] = tabs[p]]_vars
CopyIsAlike == [][Len(tabs') > Len(tabs) => \E o \in DOMAIN tabs : tabs'[Len(tabs')] = tabs[o]]_vars
=============================================================================
