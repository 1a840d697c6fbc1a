-------------------------------- MODULE WebMC --------------------------------
(***************************************************************************)
(* The server as built: render() writes into a pipe; one task reads it,    *)
(* makes the state the current one and broadcasts it to the browsers       *)
(* connected; a browser which connects joins the room first, and then the  *)
(* current state is broadcast.  Checked: every browser receives what       *)
(* MayStart and MayFollow of Web.tla allow, and in the end has the latest  *)
(* state, whatever the interleaving.                                       *)
(***************************************************************************)
EXTENDS Web

CONSTANTS Clients, Renders, Leaving

VARIABLES made,    \* states rendered
          pipe,    \* written, not yet read
          cur,     \* the current state of the server
          room,    \* browsers connected
          greet,   \* joined, current state not yet broadcast for them
          wire,    \* per browser: sent, not yet received
          got,     \* per browser: received
          floor,   \* per browser: newest state seen anywhere when it connected
          left     \* browsers gone
vars == <<made, pipe, cur, room, greet, wire, got, floor, left>>

Init == /\ made = 0 /\ pipe = <<>> /\ cur = 0 /\ room = {} /\ greet = {} /\ left = {}
        /\ wire = [c \in Clients |-> <<>>] /\ got = [c \in Clients |-> <<>>]
        /\ floor = [c \in Clients |-> 0]

Broadcast(x) == wire' = [c \in Clients |-> IF c \in room THEN Append(wire[c], x) ELSE wire[c]]

Render == /\ made < Renders
          /\ made' = made + 1 /\ pipe' = Append(pipe, made + 1)
          /\ UNCHANGED <<cur, room, greet, wire, got, floor, left>>
Take == /\ pipe # <<>>
        /\ cur' = Head(pipe) /\ pipe' = Tail(pipe) /\ Broadcast(Head(pipe))
        /\ UNCHANGED <<made, room, greet, got, floor, left>>
Seen == {0} \cup UNION {ToSet(got[c]) : c \in Clients}
Join(c) == /\ c \notin room \cup left
           /\ room' = room \cup {c} /\ greet' = greet \cup {c}
           /\ floor' = [floor EXCEPT ![c] = Max(Seen)]
           /\ UNCHANGED <<made, pipe, cur, wire, got, left>>
Greet(c) == /\ c \in greet
            /\ greet' = greet \ {c} /\ Broadcast(cur)
            /\ UNCHANGED <<made, pipe, cur, room, got, floor, left>>
Receive(c) == /\ wire[c] # <<>>
              /\ got' = [got EXCEPT ![c] = Append(@, Head(wire[c]))]
              /\ wire' = [wire EXCEPT ![c] = Tail(@)]
              /\ UNCHANGED <<made, pipe, cur, room, greet, floor, left>>
Leave(c) == /\ Leaving /\ c \in room
            /\ room' = room \ {c} /\ left' = left \cup {c} /\ greet' = greet \ {c}
            /\ UNCHANGED <<made, pipe, cur, wire, got, floor>>

Next == Render \/ Take \/ \E c \in Clients : Join(c) \/ Greet(c) \/ Receive(c) \/ Leave(c)
Fair == WF_vars(Render) /\ WF_vars(Take)
        /\ \A c \in Clients : WF_vars(Greet(c)) /\ WF_vars(Receive(c))
Spec == Init /\ [][Next]_vars /\ Fair

Allowed == \A c \in Clients :
              /\ got[c] # <<>> => MayStart(floor[c], got[c][1])
              /\ \A i \in 1..Len(got[c]) - 1 : MayFollow(got[c][i], got[c][i + 1])
NoFuture == \A c \in Clients : \A x \in ToSet(got[c]) : x <= made
Latest == <>[](\A c \in room : got[c] # <<>> /\ got[c][Len(got[c])] = Renders)
=============================================================================
