----------------------------- MODULE DealerTrace -----------------------------
(***************************************************************************)
(* Trace specification: every call recorded from the implementation is     *)
(* compared with the transition Table.tla prescribes for it.               *)
(*                                                                         *)
(* The file named by the environment variable TRACE holds one recorded     *)
(* table per line: its id, configuration, tags and events.  The verdict is *)
(* total: each event is consumed; whatever disagrees is printed together   *)
(* with the properties it violates.  A table whose state has diverged is   *)
(* abandoned at that point, all others go on.                              *)
(***************************************************************************)
EXTENDS Table, Json, IOUtils

P == INSTANCE Page
V == INSTANCE Viewers
O == INSTANCE Odds

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t, l, s, u, stop
vars == <<t, l, s, u, stop>>

Core == {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12"}

(* what has been seen of a hand dealt in unknown order *)
Unseen(c) == [hole |-> Rep(<<>>, c.n), board |-> <<>>]

Init == /\ t \in 1..Len(Traces)
        /\ l = 1
        /\ s = FreshTable(Traces[t].cfg)
        /\ u = Unseen(Traces[t].cfg)
        /\ stop = FALSE

-----------------------------------------------------------------------------
(* Visible parts of a running table against an observation.                *)
SeatsOK(c, ob) == /\ Len(ob.act) = c.n /\ Len(ob.st) = c.n /\ Len(ob.com) = c.n

(* fields that make up the state; a difference here ends the comparison *)
StateDiff(c, z, ob) ==
    UNION {
      Blame(ob.st = z.st, {"C02", "C06"}),
      Blame(SumSeq(ob.st) + ob.pot = SumSeq(z.hs), {"C01"}),
      Blame(\A i \in DOMAIN ob.st : ob.st[i] >= 0, {"C02"}),
      Blame(ob.pot = SumSeq(z.tot), {"C01", "C02"}),
      Blame(ob.act = z.act, {"C06", "C12"}),
      Blame(ob.com = z.com, {"C02", "C06", "C08"}),
      Blame(ob.a = z.a - 1, {"C04", "C08"}),
      Blame(ob.but = z.but - 1, {"C03"}) }

BoardLen(c, z) == SumOver(1..Min2(z.street, c.ns), LAMBDA i : c.nc[i])

CardDiff(c, z, ob) ==
    UNION {
      \* cards found elsewhere in the observation
      Blame("more" \in DOMAIN ob => ToSet(ob.more) \subseteq ToSet(ob.hc) \cup ToSet(ob.cc), {"C14"}),
      Blame(Len(ob.cc) = BoardLen(c, z), {"C08", "C09"}),
      IF z.known
      THEN Blame(ob.cc = z.board, {"C09"}) \cup Blame(ob.hc = z.hole[z.a], {"C09", "C14"})
      ELSE Blame(/\ Len(ob.hc) = c.nh
                 /\ IsInjective(ob.hc) /\ IsInjective(ob.cc)
                 /\ ToSet(ob.hc) \subseteq DeckSet(c) /\ ToSet(ob.cc) \subseteq DeckSet(c)
                 /\ ToSet(ob.hc) \cap ToSet(ob.cc) = {}, {"C09", "C14"}) }

OfferDiff(c, z, ob) ==
    LET o == Offers(c, z)
    IN UNION { Blame(ob.call = o.call, {"C05"}),
               Blame(ob.mn = o.min /\ ob.mx = o.max, {"C05"}),
               \* raising barred or not, and the size of the last full raise
               Blame(((ob.mx = 0) = (o.max = 0)) /\ (ob.mn = o.min), {"C07"}) }

(* cards of a hand dealt in unknown order: consistent with what was seen *)
UnseenDiff(c, z, ob) ==
    IF z.known THEN {}
    ELSE LET others == UNION {ToSet(u.hole[i]) : i \in Seats(c) \ {z.a}}
         IN UNION { Blame(IsPrefix(u.board, ob.cc), {"C09"}),
                    Blame(u.hole[z.a] = <<>> \/ ToSet(u.hole[z.a]) = ToSet(ob.hc), {"C09", "C14"}),
                    Blame(ToSet(ob.hc) \cap others = {}, {"C09", "C14"}),
                    Blame(ToSet(ob.cc) \cap others = {}, {"C09"}) }

SeeMore(c, z, ob) ==
    IF z.known \/ z.ph # "live" THEN u
    ELSE [hole |-> [u.hole EXCEPT ![z.a] = ob.hc], board |-> ob.cc]

-----------------------------------------------------------------------------
(* End of a hand *)

OverDiff(c, pre, z, e) ==
    LET ob == e.ob
        foldout == OnePlayerLeft(z)
        folded == \A i \in Seats(c) : ~z.act[i] => e.p[i] = -z.tot[i]
        key == IF z.known /\ ~foldout THEN Strengths(c, z) ELSE <<>>
        tied == key # <<>> /\ Tied(z.act, z.tot, key)
    IN UNION {
         Blame(SumSeq(e.p) = 0 /\ SumSeq(ob.st) = SumSeq(z.hs) /\ ob.pot = 0, {"C01"}),
         Blame(\A i \in Seats(c) : ob.st[i] = z.hs[i] + e.p[i] /\ e.p[i] >= -z.hs[i], {"C01"}),
         Blame(\A i \in Seats(c) : e.p[i] >= -z.tot[i], {"C01"}),
         Blame(\A i \in Seats(c) : ob.st[i] >= 0, {"C02"}),
         Blame(folded, {"C12", "C10"}),
         IF foldout THEN Blame(e.p = z.pay, {"C12"})
         ELSE IF z.known
              THEN Blame(e.p = z.pay, IF tied THEN {"C10", "C11"} ELSE {"C10"})
              ELSE {},
         Blame(ob.act = z.act, {"C06", "C12"}),
         Blame(ob.but = z.but - 1, {"C03"}),
         Blame(ob.a = -1 /\ (\A i \in Seats(c) : e.d[i]), {"C08"}),
         Blame(ob.call = 0 /\ ob.mn = 0 /\ ob.mx = 0, {"C05", "C08"}),
         IF z.known
         THEN IF foldout
              THEN Blame(IsPrefix(pre.board, ob.cc)
                         /\ IsPrefix(ob.cc, pre.board \o pre.deck), {"C09"})
              ELSE Blame(ob.cc = z.board, {"C09", "C08"})
         ELSE UNION { Blame(IsPrefix(u.board, ob.cc), {"C09"}),
                      Blame(foldout \/ Len(ob.cc) = SumSeq(c.nc), {"C08", "C09"}),
                      Blame(IsInjective(ob.cc) /\ ToSet(ob.cc) \subseteq DeckSet(c)
                            /\ ToSet(ob.cc) \cap UNION {ToSet(u.hole[i]) : i \in Seats(c)} = {},
                            {"C09"}) } }

-----------------------------------------------------------------------------
(* One event: the state afterwards and the properties found violated.      *)

Result(z, bad, st) == [s |-> z, bad |-> bad, stop |-> st]

DoReset(c, e) ==
    LET refuse == ~CanReset(c, s, e.rs)
    IN IF refuse
       THEN Result(s, Blame(e.x = "TooFewActivePlayersError", {"C13"}),
                   e.x # "TooFewActivePlayersError")
       ELSE IF e.x # "" THEN Result(s, Core \cup {"C13"}, TRUE)
       ELSE IF ~SeatsOK(c, e.ob) THEN Result(s, {"C03", "C14"}, TRUE)
       ELSE LET z == ResetTable(c, s, e.rb, e.rs, e.deck)
                ob == e.ob
                sd == StateDiff(c, z, ob)
                more == IF sd = {} THEN {} ELSE {"C03"}
                cd == CardDiff(c, z, ob)
            IN Result(z, sd \cup more \cup cd
                         \cup (IF sd = {} THEN OfferDiff(c, z, ob) ELSE {}),
                      sd # {})

(* amounts which the implementation may have used instead *)
OtherAmounts(o, b) ==
    {0, o.call, o.min, o.max, Max2(0, b \div Eighths), Max2(0, b \div Eighths) + 1} \cup {Max2(0, Nearest(o, b) - 1), Nearest(o, b) + 1}

Explained(c, e, z) ==
    IF z.ph = "over"
    THEN (\A i \in Seats(c) : e.d[i]) /\ e.p = z.pay
    ELSE /\ ~(\A i \in Seats(c) : e.d[i])
         /\ e.ob.st = z.st /\ e.ob.act = z.act /\ e.ob.a = z.a - 1

DoStep(c, e) ==
    IF s.ph = "fresh"
    THEN Result(s, Blame(e.x = "TableResetError", {"C13"}), e.x # "TableResetError")
    ELSE IF e.x # "" THEN Result(s, Core \cup {"C13"}, TRUE)
    ELSE IF ~(SeatsOK(c, e.ob) /\ Len(e.p) = c.n /\ Len(e.d) = c.n)
         THEN Result(s, {"C01", "C02", "C08", "C12", "C13"}, TRUE)
    ELSE IF s.ph = "over"
    THEN LET bad == UNION {
               Blame(e.p = s.pay, {"C13", IF OnePlayerLeft(s) THEN "C12" ELSE "C10"}),
               Blame(\A i \in Seats(c) : e.d[i], {"C13", "C08"}),
               Blame(e.ob.st = s.st, {"C13", "C01"}),
               Blame(e.ob.pot = 0 /\ e.ob.a = -1 /\ e.ob.act = s.act
                     /\ e.ob.but = s.but - 1, {"C13"}),
               Blame(e.ob.call = 0 /\ e.ob.mn = 0 /\ e.ob.mx = 0, {"C13", "C05"}),
               Blame(e.ob.cc = s.board, {"C13", "C09"}) }
         IN Result(s, bad, e.ob.st # s.st)
    ELSE LET o == Offers(c, s)
             r == Resolve(o, e.b)
             z == Act(c, s, o, r.amt, r.fold, <<>>)
             ob == e.ob
             allDone == \A i \in Seats(c) : e.d[i]
             alt == \/ \E x \in OtherAmounts(o, e.b) :
                          x <= s.st[s.a] /\ Explained(c, e, Act(c, s, o, x, FALSE, <<>>))
                    \/ Explained(c, e, Act(c, s, o, 0, TRUE, <<>>))
             why == IF alt THEN {"C06"} ELSE {}
         IN IF z.ph = "over"
            THEN IF ~allDone \/ ob.a # -1
                 THEN Result(z, {"C08"} \cup why
                                \cup Blame(SumSeq(ob.st) + ob.pot = SumSeq(z.hs), {"C01"})
                                \cup (IF OnePlayerLeft(z) THEN {"C12"} ELSE {}), TRUE)
                 ELSE LET bad == OverDiff(c, s, z, e)
                          z1 == [z EXCEPT !.board = ob.cc,
                                          !.pay = IF z.known THEN @ ELSE e.p,
                                          !.st = IF z.known THEN @ ELSE ob.st]
                      IN Result(z1, bad \cup (IF bad # {} /\ e.p # z1.pay THEN why ELSE {}),
                                ob.st # z1.st)
            ELSE IF allDone \/ ob.a = -1
            THEN Result(z, {"C08"} \cup why
                           \cup Blame(SumSeq(ob.st) + ob.pot = SumSeq(z.hs), {"C01"})
                           \cup Blame(SumSeq(e.p) = 0, {"C01"}), TRUE)
            ELSE LET sd == StateDiff(c, z, ob)
                     bad == UNION {
                       sd, CardDiff(c, z, ob), UnseenDiff(c, z, ob),
                       IF sd = {} THEN OfferDiff(c, z, ob) ELSE {},
                       Blame(e.d = DoneFlags(c, z), {"C08"}),
                       Blame(e.p = RunningPay(c, z), {"C12"}) }
                 IN Result(z, bad, sd # {})

(* win probabilities, scaled by 100000 (C20) *)
DoWin(c, e) ==
    IF e.x # "" THEN Result(s, {"C20"}, FALSE)
    ELSE LET left == SumSeq(c.nc) - Len(s.board)
             wins == IF c.k = 1
                     THEN O!OneCardWins(c, c.n, s.hole, s.act, ToSet(s.board), ToSet(s.deck), left)
                     ELSE O!Wins(c, ClassPos(c), c.n, s.hole, s.act, ToSet(s.board), ToSet(s.deck), left)
             all == SumSeq(wins)
         IN Result(s, Blame(/\ Len(e.p) = c.n
                            /\ \A i \in Seats(c) : Abs(e.p[i] - O!Share(wins[i], all)) <= 1, {"C20"}), FALSE)

(* what a viewer has to be told about the table *)
Described(c) ==
    LET over == s.ph = "over"
    IN [a |-> IF over THEN 0 ELSE s.a, act |-> s.act, over |-> over,
        allin |-> [i \in Seats(c) |-> s.act[i] /\ s.st[i] = 0],
        board |-> s.board, but |-> s.but, hole |-> s.hole,
        pot |-> IF over THEN 0 ELSE SumSeq(s.tot),
        pay |-> IF over THEN s.pay ELSE RunningPay(c, s),
        last |-> s.last, com |-> s.com, st |-> s.st]

(* the text table (C22): -1 a face-down card, -2 a blank *)
DoView(c, e) ==
    IF e.x # "" THEN Result(s, {"C22"}, FALSE)
    ELSE LET v == e.v
             over == s.ph = "over"
             w == V!TextOf(c.n, c.nh, SumSeq(c.nc), Described(c))
             Blind(q) == [q EXCEPT !.cards = <<>>]
         IN Result(s, Blame(
              /\ Len(v.seats) = c.n
              /\ \A i \in Seats(c) :
                   LET q == v.seats[i] IN
                   /\ Blind(q) = Blind(w.seats[i])
                   /\ s.known \/ ~s.act[i] \/ (~over /\ i # s.a) => q.cards = w.seats[i].cards
                   /\ Len(q.cards) = c.nh
                   /\ (~s.known /\ s.act[i] /\ (over \/ i = s.a)) => \A j \in DOMAIN q.cards : q.cards[j] >= 0
              /\ s.known => v.board = w.board
              \* nothing but the seats and the board tells a card
              /\ ToSet(v.more) \subseteq ToSet(v.board) \cup UNION {ToSet(v.seats[i].cards) : i \in DOMAIN v.seats}
              /\ v.pot = w.pot /\ v.actor = w.actor /\ v.last = w.last /\ v.win = w.win, {"C22"}), FALSE)

(* what a viewer was handed (C28) *)
DoShown(c, e) ==
    IF e.x # "" THEN Result(s, {"C28"}, FALSE)
    ELSE LET v == e.v
             w == Described(c)
         IN Result(s, Blame(
              /\ v.a = w.a - 1 /\ v.act = w.act /\ v.over = w.over /\ v.but = w.but - 1
              /\ v.pot = w.pot /\ v.pay = w.pay /\ v.st = w.st
              /\ v.last = (IF w.last = <<>> THEN <<>> ELSE <<w.last[1] - 1, w.last[2], w.last[3]>>)
              \* once the hand is over nobody is all-in any more, or still is
              /\ w.over \/ (v.allin = w.allin /\ v.com = w.com)
              /\ Len(v.hole) = c.n
              /\ \A i \in Seats(c) : IF s.known THEN w.act[i] => v.hole[i] = w.hole[i]
                                      ELSE Len(v.hole[i]) = c.nh
              /\ s.known => v.board = w.board
              /\ e.ok, {"C28"}), FALSE)

(* what the text viewer makes of any description (C28) *)
DoText(e) ==
    IF e.x # "" THEN Result(s, {"C28"}, FALSE)
    ELSE LET w == V!TextOf(e.n, e.nh, e.nc, e.d) IN
         Result(s, Blame(e.ok /\ e.v = [x \in DOMAIN w \cup {"more"} |-> IF x = "more" THEN <<>> ELSE w[x]], {"C28"}), FALSE)

(* the table in the browser (C25): e.vs what pages with different pasts    *)
(* show, -1 a face-down card, -2 a blank                                   *)
DoBrowser(c, e) ==
    IF e.x # "" THEN Result(s, {"C25"}, FALSE)
    ELSE LET over == s.ph = "over"
             x == P!Shown(c.n, c.nh, SumSeq(c.nc),
                          [st |-> s.st, com |-> s.com, act |-> s.act, but |-> s.but,
                           hole |-> s.hole, board |-> s.board,
                           a |-> IF over THEN 0 ELSE s.a,
                           pot |-> IF over THEN 0 ELSE SumSeq(s.tot)])
             unknown(q) == Len(q) = c.nh /\ \A j \in DOMAIN q : q[j] >= 0
             ViewOK(v) ==
                 /\ v.st = x.st /\ (over \/ v.com = x.com) /\ v.pot = x.pot
                 /\ v.turn = x.turn /\ v.but = x.but
                 /\ Len(v.cards) = c.n
                 /\ \A i \in Seats(c) : IF s.known \/ ~s.act[i] THEN v.cards[i] = x.cards[i]
                                         ELSE unknown(v.cards[i])
                 /\ s.known => v.board = x.board
                 /\ v.deck = P!Back
                 /\ v.ink = e.vs[1].ink
         IN Result(s, Blame(Len(e.vs) > 0 /\ \A k \in DOMAIN e.vs : ViewOK(e.vs[k]), {"C25"}), FALSE)

Apply(c, e) ==
    CASE e.o = "reset" -> DoReset(c, e)
      [] e.o = "step" -> DoStep(c, e)
      [] e.o = "win" -> DoWin(c, e)
      [] e.o = "view" -> DoView(c, e)
      [] e.o = "browser" -> DoBrowser(c, e)
      [] e.o = "shown" -> DoShown(c, e)
      [] e.o = "text" -> DoText(e)
      \* chips moved by hand between hands (not by the implementation)
      [] e.o = "chips" -> Result([s EXCEPT !.st = e.st], {}, FALSE)
      \* observations handed out so far are what they were
      [] e.o = "frozen" -> Result(s, Blame(e.ok, {"C14"}), FALSE)
      \* some other fact the driver found, named by the property it violates
      [] e.o = "fact" -> Result(s, Blame(e.ok, {e.id}), FALSE)

Report(c, e, r) ==
    IF r.bad = {} THEN TRUE
    ELSE PrintT("BAD " \o ToJson(
        [id |-> Traces[t].id, line |-> t, pos |-> l,
         bad |-> SetToSeq(r.bad \cup ToSet(Traces[t].tags)),
         want |-> [ph |-> r.s.ph, a |-> r.s.a - 1, but |-> r.s.but - 1, st |-> r.s.st,
                   act |-> r.s.act, com |-> r.s.com, tot |-> r.s.tot, pay |-> r.s.pay,
                   board |-> r.s.board,
                   offers |-> IF r.s.ph = "live" THEN Offers(c, r.s) ELSE NoOffers]]))

Consume ==
    /\ ~stop /\ l <= Len(Traces[t].ev)
    /\ LET c == Traces[t].cfg
           e == Traces[t].ev[l]
           r == Apply(c, e)
       IN /\ Report(c, e, r)
          /\ s' = r.s
          /\ u' = IF e.o = "reset" /\ e.x = "" /\ ~r.stop
                  THEN IF r.s.known THEN u
                       ELSE [hole |-> [Rep(<<>>, c.n) EXCEPT ![r.s.a] = e.ob.hc], board |-> e.ob.cc]
                  ELSE IF e.o = "step" /\ e.x = "" /\ ~r.stop THEN SeeMore(c, r.s, e.ob)
                  ELSE u
          /\ stop' = r.stop
    /\ l' = l + 1 /\ t' = t

Spec == Init /\ [][Consume]_vars

(* every event of every table that was not abandoned has been consumed *)
Consumed == PrintT("STATES " \o ToString(TLCGet("stats").distinct))
=============================================================================
