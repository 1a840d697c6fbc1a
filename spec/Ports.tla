-------------------------------- MODULE Ports --------------------------------
(***************************************************************************)
(* Tables in browsers side by side, and other programs, at a few addresses *)
(* (C29).  Addresses 1..A are given by the user; address A + t is the one  *)
(* found for table t when no port is given.                                *)
(*                                                                         *)
(* w.at[a]    0: nobody, -1: another program, t: table t is served there   *)
(* w.v[t]     the state table t was rendered in last (0: none)             *)
(***************************************************************************)
EXTENDS Util

Nobody == 0
Other == -1

Empty(A, T) == [at |-> [a \in 1..(A + T) |-> Nobody], v |-> [t \in 1..T |-> 0]]

Where(w, t) == {a \in DOMAIN w.at : w.at[a] = t}
Up(w, t) == Where(w, t) # {}

(* opening table t at a is possible exactly if nobody is there *)
Opens(w, t, a) == w.at[a] = Nobody
Open(w, t, a) == IF Opens(w, t, a) THEN [at |-> [w.at EXCEPT ![a] = t], v |-> [w.v EXCEPT ![t] = 0]] ELSE w
Close(w, t) == [w EXCEPT !.at = [a \in DOMAIN w.at |-> IF w.at[a] = t THEN Nobody ELSE w.at[a]]]
Show(w, t, x) == [w EXCEPT !.v[t] = x]
Come(w, a) == [w EXCEPT !.at[a] = Other]
Go(w, a) == [w EXCEPT !.at[a] = Nobody]

(* nobody waits for connections anywhere else *)
Taken(w) == {a \in DOMAIN w.at : w.at[a] # Nobody}

(* what a browser finds at each address: the table, and its state *)
Seen(w) == [a \in DOMAIN w.at |-> IF w.at[a] > 0 THEN <<w.at[a], w.v[w.at[a]]>> ELSE <<w.at[a], 0>>]
=============================================================================
