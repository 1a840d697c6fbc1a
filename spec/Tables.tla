------------------------------- MODULE Tables --------------------------------
(***************************************************************************)
(* Several tables, decks and evaluators side by side (C23).  Each object o *)
(* is a state machine of its own; alone[o] is the sequence of results its  *)
(* calls give when nothing else exists.  pos[o] counts the calls made.     *)
(* Independence: whatever the interleaving, the n-th call of o gives       *)
(* alone[o][n].                                                            *)
(***************************************************************************)
EXTENDS Util

FreshAt(objects) == [o \in objects |-> 0]
CanCall(alone, pos, o) == pos[o] < Len(alone[o])
NextResult(alone, pos, o) == alone[o][pos[o] + 1]
Called(pos, o) == [pos EXCEPT ![o] = @ + 1]
AllDone(alone, pos) == \A o \in DOMAIN pos : pos[o] = Len(alone[o])
=============================================================================
