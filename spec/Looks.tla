------------------------------- MODULE Looks --------------------------------
(***************************************************************************)
(* Looking at a table, a deck or an evaluator (C26).  alone is the         *)
(* sequence of results its calls give when nobody looks; pos counts the    *)
(* calls made so far.  A look is a stuttering step: the n-th call gives    *)
(* alone[n] whatever has been looked at before, and what a look shows is a *)
(* function of pos and of the kind of look alone, view[pos, kind].         *)
(***************************************************************************)
EXTENDS Util

NoViews == [x \in {} |-> ""]
CallGives(alone, pos) == alone[pos + 1]
Seen(view, pos, kind) == <<pos, kind>> \in DOMAIN view
ShowsAgain(view, pos, kind, what) == Seen(view, pos, kind) => view[<<pos, kind>>] = what
(* rendered as text a table looks as it does in its text form *)
Same == [str |-> "ascii", ascii |-> "str"]
ShowsAlike(view, pos, kind, what) ==
    kind \in DOMAIN Same => ShowsAgain(view, pos, Same[kind], what)
Remember(view, pos, kind, what) ==
    IF Seen(view, pos, kind) THEN view ELSE view @@ (<<pos, kind>> :> what)

(* rendering in a way which does not exist is refused and is a look, too *)
Refused == "raised InvalidRenderModeError"
LookOK(kind, failed, what) == IF kind = "nonsense" THEN what = Refused ELSE ~failed
=============================================================================
