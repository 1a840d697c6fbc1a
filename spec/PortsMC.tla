------------------------------- MODULE PortsMC -------------------------------
(* All histories of Length steps of T tables and another program at A      *)
(* addresses; prints each for the conformance run.                         *)
EXTENDS Ports, Json

CONSTANTS A, T, Length

VARIABLES w, path, before
vars == <<w, path, before>>

Init == w = Empty(A, T) /\ path = <<>> /\ before = w

\* tables are opened for the first time in order: they are all alike
Known == {path[i][2] : i \in {j \in DOMAIN path : path[j][1] = "open"}}
Step(op, v) == /\ Len(path) < Length
               /\ path' = Append(path, op) /\ w' = v /\ before' = w

Next == \/ \E t \in 1..T, a \in 1..A :
             ~Up(w, t) /\ (t = 1 \/ t - 1 \in Known) /\ Step(<<"open", t, a>>, Open(w, t, a))
        \/ \E t \in 1..T : ~Up(w, t) /\ (t = 1 \/ t - 1 \in Known) /\ Step(<<"open", t, A + t>>, Open(w, t, A + t))
        \/ \E t \in Known : Step(<<"close", t, 0>>, Close(w, t))
        \/ \E t \in Known : Up(w, t) /\ Step(<<"show", t, Len(path) + 1>>, Show(w, t, Len(path) + 1))
        \/ \E a \in 1..A : w.at[a] = Nobody /\ Step(<<"come", 0, a>>, Come(w, a))
        \/ \E a \in 1..A : w.at[a] = Other /\ Step(<<"go", 0, a>>, Go(w, a))
Spec == Init /\ [][Next]_vars

(* a table is at one address, and the one it was given *)
OneAddress == \A t \in 1..T : Cardinality(Where(w, t)) <= 1
(* steps of one table change nothing for anybody else *)
Apart == path # <<>> =>
           LET op == path[Len(path)]
           IN /\ \A t \in 1..T : t # op[2] => Where(w, t) = Where(before, t) /\ w.v[t] = before.v[t]
              /\ op[2] > 0 => \A a \in DOMAIN w.at : before.at[a] = Other => w.at[a] = Other
(* a state shown is one the table there was rendered in *)
OwnStates == \A t \in 1..T : w.v[t] # 0 => path[w.v[t]] = <<"show", t, w.v[t]>>
Emit == Len(path) = Length => PrintT("GEN " \o ToJson([ops |-> path]))
=============================================================================
