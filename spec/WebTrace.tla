------------------------------ MODULE WebTrace -------------------------------
(***************************************************************************)
(* Trace specification of the server for browsers (C24): one server per    *)
(* line of the file TRACE, with the numbers cfg it was made for.           *)
(*   page     parts and other identifiers of the page served, at places    *)
(*   render   p a state handed to render()                                 *)
(*   connect  a browser c is about to connect                              *)
(*   got      c received the state p                                       *)
(*   leave    c is gone                                                    *)
(*   quiet    nothing was rendered and nothing received for long           *)
(*   closed   the viewer was closed; ok: the server is gone                *)
(***************************************************************************)
EXTENDS Web, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

\* log: states rendered; may: per connected browser the states, by number,
\* which it may have received last; new: connected, nothing received, with
\* the state they may not get an older one than; seen: the newest state
\* certainly received by anybody
VARIABLES t, l, log, may, new, seen
vars == <<t, l, log, may, new, seen>>

Init == t \in 1..Len(Traces) /\ l = 1 /\ log = <<>> /\ may = <<>> /\ new = <<>> /\ seen = 0

(* states by number which look like p; before the first one there is none *)
Looks(p) == {j \in 1..Len(log) : log[j] = p} \cup (IF p = [empty |-> TRUE] THEN {0} ELSE {})
Without(f, c) == [x \in DOMAIN f \ {c} |-> f[x]]
With(f, c, v) == [x \in DOMAIN f \cup {c} |-> IF x = c THEN v ELSE f[x]]

Now(c, p) == IF c \in DOMAIN new THEN {j \in Looks(p) : MayStart(new[c], j)}
             ELSE {j \in Looks(p) : \E i \in may[c] : MayFollow(i, j)}

(* the numbers of states which look like the latest one *)
Latest == IF log = <<>> THEN {0} ELSE {j \in DOMAIN log : log[j] = log[Len(log)]}

Good(e) ==
    CASE e.o = "page" -> PageOK(Traces[t].cfg, e.parts, e.other) /\ LayoutOK(Traces[t].cfg, e.at)
      [] e.o = "got" -> Now(e.c, e.p) # {}
      [] e.o = "quiet" -> DOMAIN new = {} /\ \A c \in DOMAIN may : may[c] \cap Latest # {}
      [] e.o = "closed" -> e.ok
      [] OTHER -> TRUE

Report(good) ==
    IF good THEN TRUE
    ELSE PrintT("BAD " \o ToJson([id |-> Traces[t].id, line |-> t, pos |-> l, bad |-> <<"C24">>,
                                  want |-> [made |-> Len(log), may |-> may, new |-> new]]))

Consume ==
    /\ l <= Len(Traces[t].ev)
    /\ LET e == Traces[t].ev[l]
           good == Good(e)
       IN /\ Report(good)
          /\ log' = IF e.o = "render" THEN Append(log, e.p) ELSE log
          /\ seen' = IF e.o = "got" /\ good THEN Max2(seen, Min(Now(e.c, e.p))) ELSE seen
          /\ new' = IF e.o = "connect" THEN With(new, e.c, seen)
                    ELSE IF e.o \in {"got", "leave"} THEN Without(new, e.c)
                    ELSE new
          /\ may' = IF e.o = "got" THEN With(may, e.c, Now(e.c, e.p))
                    ELSE IF e.o = "leave" THEN Without(may, e.c)
                    ELSE may
          \* one disagreement is enough
          /\ l' = IF good THEN l + 1 ELSE Len(Traces[t].ev) + 1
    /\ t' = t
Spec == Init /\ [][Consume]_vars
=============================================================================
