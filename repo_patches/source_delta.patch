From a42e0bf23a7c175e1ea14015d23d5d9f9e9220e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:37 +0000
Subject: [PATCH 01/25] fix: a short stack posts at most what it has as blind
 or ante

---
 clubs/poker/engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index c18e6e3..96b057d 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -592,7 +592,7 @@ class Dealer:
         # roll list to action
         bets = bets[-self.action :] + bets[: -self.action]  # noqa: E203
         bets = [
-            (stack > 0) * active * bet
+            active * min(stack, bet)
             for stack, active, bet in zip(self.stacks, self.active, bets)
         ]
         if street_commits:
-- 
2.43.0


From 0d2e2ef3179eb5f6701e6622491baec1948c3fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:47 +0000
Subject: [PATCH 02/25] fix: play the hand out when the last player with chips
 folds or goes all in before everybody had a turn

---
 clubs/poker/engine.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index 96b057d..0625526 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -524,6 +524,11 @@ class Dealer:
         return win_probs
 
     def _all_agreed(self) -> bool:
+        # nothing left to agree on if all active players are all in
+        if not any(
+            active and stack for active, stack in zip(self.active, self.stacks)
+        ):
+            return True
         # not all agreed if not all players had chance to act
         if not all(self.street_option):
             return False
-- 
2.43.0


From 5994424189e330839d4cab56dd6764a650dca79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:56 +0000
Subject: [PATCH 03/25] fix: payouts of a hand won by folds stay the same after
 the hand

---
 clubs/poker/engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index 0625526..9799d60 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -658,7 +658,7 @@ class Dealer:
         # if only one player left give that player all chips
         if sum(self.active) == 1:
             payouts = [
-                payout + active * (self.pot - pot_commit)
+                payout + active * (sum(self.pot_commits) - pot_commit)
                 for payout, active, pot_commit in zip(
                     payouts, self.active, self.pot_commits
                 )
-- 
2.43.0


From 4e998492d37694571c7ab0ef4e25097dfaa89bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:25 +0000
Subject: [PATCH 04/25] fix: players who matched each other share no side pot
 they have no chips in

---
 clubs/poker/engine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index 9799d60..f1b14ea 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -715,6 +715,8 @@ class Dealer:
             # cut can only be as large as lowest player commit amount
             cut = [min(hand[2], pot_commit) for hand in hands]
             split_pot = sum(cut)
+            # remove player from next split pot
+            hands[hand_idx][1] = worst_hand
             if not split_pot:
                 continue
             split = split_pot // len(eligible)
@@ -726,8 +728,6 @@ class Dealer:
             for idx in range(len(cut)):
                 hands[idx][2] -= cut[idx]
             pot -= split_pot
-            # remove player from next split pot
-            hands[hand_idx][1] = worst_hand
             if pot == 0:
                 break
         # give worst position player remainder chips
-- 
2.43.0


From beb33de6ed0f89352ab1b25030a1c1c70c5ddefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:35 +0000
Subject: [PATCH 05/25] fix: give odd chips of a split pot to the first winner
 after the button

---
 clubs/poker/engine.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index f1b14ea..3236d6d 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -701,7 +701,6 @@ class Dealer:
         # sort hands by hand strength and pot commits
         hands = sorted(hands, key=operator.itemgetter(1, 2))
         pot = self.pot
-        remainder = 0
         payouts = [0] * self.num_players
         worst_hand = self.evaluator.table.max_rank + 1
         # iterate over hand strength and
@@ -723,20 +722,19 @@ class Dealer:
             remain = split_pot % len(eligible)
             for player_idx in eligible:
                 payouts[player_idx] += split
-            remainder += remain
+            # give worst position winner remainder chips
+            # worst winner is first winner after button
+            for idx in range(1, self.num_players + 1):
+                player_idx = (self.button + idx) % self.num_players
+                if player_idx in eligible:
+                    payouts[player_idx] += remain
+                    break
             # remove chips from players and pot
             for idx in range(len(cut)):
                 hands[idx][2] -= cut[idx]
             pot -= split_pot
             if pot == 0:
                 break
-        # give worst position player remainder chips
-        if remainder:
-            # worst player is first player after button involved in pot
-            for player_idx in range(1, self.num_players + 1):
-                if payouts[player_idx + self.button % self.num_players]:
-                    payouts[player_idx] += remainder
-                    break
         return payouts
 
     def _move_action(self) -> "Dealer":
-- 
2.43.0


From b83c5fb6ddbcc3ea7bd284d2098d1effc3fcb6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:45 +0000
Subject: [PATCH 06/25] fix: folded chips above the highest active commit go to
 the last pot's winners

---
 clubs/poker/engine.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index 3236d6d..ee013dd 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -713,6 +713,9 @@ class Dealer:
             ]
             # cut can only be as large as lowest player commit amount
             cut = [min(hand[2], pot_commit) for hand in hands]
+            # folded chips which no active player matched go to the last pot
+            if all(hand[2] <= pot_commit for hand in hands if self.active[hand[0]]):
+                cut = [hand[2] for hand in hands]
             split_pot = sum(cut)
             # remove player from next split pot
             hands[hand_idx][1] = worst_hand
-- 
2.43.0


From 1a7d6e15b35fef34250b13cfb44b96b9e95dc7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:18 +0000
Subject: [PATCH 07/25] fix: a deck tricked with all of its cards keeps the
 given order

---
 clubs/poker/card.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clubs/poker/card.py b/clubs/poker/card.py
index de54134..9559090 100644
--- a/clubs/poker/card.py
+++ b/clubs/poker/card.py
@@ -216,7 +216,7 @@ class Deck:
             self
         """
         self.cards = list(self.full_deck)
-        if self._tricked and self._top_idcs and self._bottom_idcs:
+        if self._tricked and self._top_idcs:
             top_cards = [self.full_deck[idx] for idx in self._top_idcs]
             bottom_cards = [self.full_deck[idx] for idx in self._bottom_idcs]
             random.shuffle(bottom_cards)
-- 
2.43.0


From efeb2add0eb4e5d3eccb4844fd726478f84d7338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:29 +0000
Subject: [PATCH 08/25] fix: accept float("inf") as raise size as documented

---
 clubs/poker/engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index ee013dd..f02b615 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -174,7 +174,7 @@ class Dealer:
         def clean_rs(
             raise_size: Union[int, Literal["pot", "inf"]]
         ) -> Union[float, Literal["pot"]]:
-            if raise_size == "inf":
+            if raise_size == "inf" or raise_size == float("inf"):
                 return float(raise_size)
             if raise_size == "pot":
                 return raise_size
-- 
2.43.0


From 89d991eca8953febad9a57af016f0ead248f7345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:41 +0000
Subject: [PATCH 09/25] fix: accept custom orders which rank an impossible
 class after possible ones

---
 clubs/poker/evaluator.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/clubs/poker/evaluator.py b/clubs/poker/evaluator.py
index 8b4b1e2..22ae97e 100644
--- a/clubs/poker/evaluator.py
+++ b/clubs/poker/evaluator.py
@@ -298,7 +298,7 @@ class LookupTable:
             hand_rank = u_hand[1]
             cumulative_hands += u_hand[0]
             self.hand_dict[hand_rank]["cumulative unsuited"] = cumulative_hands
-            if cumulative_hands > 0:
+            if u_hand[0] > 0:
                 self.hand_dict[hand_rank]["rank"] = rank
                 rank += 1
                 ranked_hands.append(hand_rank)
@@ -315,7 +315,7 @@ class LookupTable:
 
         # if suited hands aren't relevant set the suited
         # lookup table equal to the unsuited table
-        if not self.hand_dict["flush"]["cumulative unsuited"]:
+        if not self.hand_dict["flush"]["unsuited"]:
             suited_lookup = unsuited_lookup
 
         self.suited_lookup = suited_lookup
@@ -523,8 +523,8 @@ class LookupTable:
     ) -> Tuple[Dict[int, int], Dict[int, int]]:
         straight_flushes = []
         if (
-            self.hand_dict["straight flush"]["cumulative unsuited"]
-            or self.hand_dict["straight"]["cumulative unsuited"]
+            self.hand_dict["straight flush"]["unsuited"]
+            or self.hand_dict["straight"]["unsuited"]
         ):
             straight_flushes = self._gen_straight_flush(
                 cards_for_hand, ranks, low_end_straight
@@ -533,15 +533,15 @@ class LookupTable:
         # flushes (including straight flushes)
         flushes = []
         if (
-            self.hand_dict["flush"]["cumulative unsuited"]
-            or self.hand_dict["high card"]["cumulative unsuited"]
+            self.hand_dict["flush"]["unsuited"]
+            or self.hand_dict["high card"]["unsuited"]
         ):
             flushes = self._gen_flush(cards_for_hand, ranks, straight_flushes)
 
         def add_to_dict(
             rank_string: str, rank_bits: List[int], lookup: Dict[int, int],
         ) -> Dict[int, int]:
-            if not self.hand_dict[rank_string]["cumulative unsuited"]:
+            if not self.hand_dict[rank_string]["unsuited"]:
                 return lookup
             num_ranks = len(rank_bits)
             assert num_ranks == self.hand_dict[rank_string]["unsuited"]
@@ -569,7 +569,7 @@ class LookupTable:
         ) -> Dict[int, int]:
             # inverse ranks, A - 2
             backwards_ranks = list(range(13 - 1, 13 - 1 - ranks, -1))
-            if not self.hand_dict[rank_string]["cumulative unsuited"]:
+            if not self.hand_dict[rank_string]["unsuited"]:
                 return unsuited_lookup
             # get cumulative hand rank
             hand_rank = self._get_rank(rank_string)
-- 
2.43.0


From 8fddc110fcf9438b446c19eb7b518cbf2477e1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:03 +0000
Subject: [PATCH 10/25] fix: count hands of decks with few ranks correctly

---
 clubs/poker/evaluator.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/clubs/poker/evaluator.py b/clubs/poker/evaluator.py
index 22ae97e..f06d3f4 100644
--- a/clubs/poker/evaluator.py
+++ b/clubs/poker/evaluator.py
@@ -315,7 +315,7 @@ class LookupTable:
 
         # if suited hands aren't relevant set the suited
         # lookup table equal to the unsuited table
-        if not self.hand_dict["flush"]["unsuited"]:
+        if not suited_lookup:
             suited_lookup = unsuited_lookup
 
         self.suited_lookup = suited_lookup
@@ -349,7 +349,7 @@ class LookupTable:
         if cards_for_hand < 3 or suits < 2:
             return 0, 0
         # number of smallest cards which start straight
-        unsuited = ranks - (cards_for_hand - 1) + low_end_straight
+        unsuited = _num_straights(ranks, cards_for_hand, low_end_straight)
         # multiplied with number of suits
         suited = max(unsuited, unsuited * suits)
         return int(suited), int(unsuited)
@@ -389,7 +389,7 @@ class LookupTable:
         if cards_for_hand < 3 or suits < 2:
             return 0, 0
         # all straight combinations
-        straight_flushes = ranks - (cards_for_hand - 1) + low_end_straight
+        straight_flushes = _num_straights(ranks, cards_for_hand, low_end_straight)
         # choose all cards from ranks minus straight flushes
         unsuited = _ncr(ranks, cards_for_hand) - straight_flushes
         # multiplied by number of suits
@@ -403,7 +403,7 @@ class LookupTable:
         if cards_for_hand < 3:
             return 0, 0
         # number of smallest cards which start straight
-        unsuited = ranks - (cards_for_hand - 1) + low_end_straight
+        unsuited = _num_straights(ranks, cards_for_hand, low_end_straight)
         # straight flush combinations
         straight_flushes = 0
         if suits > 1:
@@ -464,7 +464,7 @@ class LookupTable:
         # number of smallest cards which start straight
         straights = 0
         if cards_for_hand > 2:
-            straights = ranks - (cards_for_hand - 1) + low_end_straight
+            straights = _num_straights(ranks, cards_for_hand, low_end_straight)
         # any combination of rank and subtract straights
         unsuited = _ncr(ranks, cards_for_hand) - straights
         # multiplied with suit choices for all cards
@@ -486,7 +486,7 @@ class LookupTable:
         for _ in range(ranks - (cards_for_hand - 1)):
             straight_flushes.append(int(bin_num_str, 2))
             bin_num_str = bin_num_str[:-1]
-        if low_end_straight:
+        if low_end_straight and ranks > cards_for_hand:
             # add low end straight
             bin_num_str = (
                 "0b1"
@@ -660,7 +660,16 @@ def _lexographic_next_bit(bits: int) -> Iterator[int]:
         yield lex
 
 
+def _num_straights(ranks: int, cards_for_hand: int, low_end_straight: bool) -> int:
+    # with as few ranks as cards the low end straight is the only straight
+    if ranks <= cards_for_hand:
+        return int(ranks == cards_for_hand)
+    return ranks - (cards_for_hand - 1) + low_end_straight
+
+
 def _ncr(n: int, r: int) -> int:
+    if r > n:
+        return 0
     r = min(r, n - r)
     numer = functools.reduce(operator.mul, range(n, n - r, -1), 1)
     denom = functools.reduce(operator.mul, range(1, r + 1), 1)
-- 
2.43.0


From 8ef84b31f61deb429ec0021f6ffa406823f07ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:14 +0000
Subject: [PATCH 11/25] fix: two card hands of one suit are no flushes, count
 them as high cards

---
 clubs/poker/evaluator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clubs/poker/evaluator.py b/clubs/poker/evaluator.py
index f06d3f4..210ffa4 100644
--- a/clubs/poker/evaluator.py
+++ b/clubs/poker/evaluator.py
@@ -469,7 +469,8 @@ class LookupTable:
         unsuited = _ncr(ranks, cards_for_hand) - straights
         # multiplied with suit choices for all cards
         # all same suits not allowed
-        suited = max(unsuited, unsuited * (suits ** cards_for_hand - suits))
+        flushes = suits if cards_for_hand > 2 else 0
+        suited = max(unsuited, unsuited * (suits ** cards_for_hand - flushes))
         if suits < 2:
             suited = unsuited
         return int(suited), int(unsuited)
-- 
2.43.0


From b09c7e8a1ac6660c7572266a751156b5f0e103e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:48 +0000
Subject: [PATCH 12/25] fix: the minimum raise of a street does not depend on
 earlier streets

---
 clubs/poker/engine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index f02b615..a7bedee 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -413,6 +413,7 @@ class Dealer:
             self.street_commits = [0] * self.num_players
             self.street_option = [not active for active in self.active]
             self.street_raises = 0
+            self.largest_raise = self.big_blind
 
         done = self._done()
         payouts = self._payouts()
-- 
2.43.0


From 0eb0c5a433e80f120988fd0d60518bcb36db1da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:59 +0000
Subject: [PATCH 13/25] fix: the history tells folds from checks by what
 happened

---
 clubs/poker/engine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index a7bedee..f406a48 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -373,7 +373,8 @@ class Dealer:
         bet = self._clean_bet(bet, call, min_raise, max_raise)
 
         # only fold if player cannot check
-        if call and ((bet < call) or fold):
+        fold = bool(call and ((bet < call) or fold))
+        if fold:
             self.active[self.action] = False
             bet = 0
 
-- 
2.43.0


From 7d0cd4de5061cf3d4e107339192795abdb0b653d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:11 +0000
Subject: [PATCH 14/25] fix: a refused reset leaves the table as it was

---
 clubs/poker/engine.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index f406a48..ad12b65 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -283,11 +283,12 @@ class Dealer:
             self.active = [True] * self.num_players
             self.stacks = [self.start_stack] * self.num_players
         else:
-            self.active = [stack > 0 for stack in self.stacks]
-            if sum(self.active) <= 1:
+            active = [stack > 0 for stack in self.stacks]
+            if sum(active) <= 1:
                 raise error.TooFewActivePlayersError(
                     "not enough players have chips, set reset_stacks=True"
                 )
+            self.active = active
         if reset_button:
             self.button = 0
         else:
-- 
2.43.0


From 4e66a764ccf462a6feb30db409b06546f009748f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:24 +0000
Subject: [PATCH 15/25] fix: observations do not change when the hand goes on

---
 clubs/poker/engine.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index ad12b65..91468d6 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -639,16 +639,16 @@ class Dealer:
             call, min_raise, max_raise = self._bet_sizes()
         observation: ObservationDict = {
             "action": self.action,
-            "active": self.active,
+            "active": list(self.active),
             "button": self.button,
             "call": call,
-            "community_cards": self.community_cards,
-            "hole_cards": self.hole_cards[self.action],
+            "community_cards": list(self.community_cards),
+            "hole_cards": list(self.hole_cards[self.action]),
             "max_raise": max_raise,
             "min_raise": min_raise,
             "pot": self.pot,
-            "stacks": self.stacks,
-            "street_commits": self.street_commits,
+            "stacks": list(self.stacks),
+            "street_commits": list(self.street_commits),
         }
         return observation
 
-- 
2.43.0


From e60ed4a17811984fda99bb906d26970173e29d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:36 +0000
Subject: [PATCH 16/25] fix: refuse hand orders which are no permutation

---
 clubs/poker/evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clubs/poker/evaluator.py b/clubs/poker/evaluator.py
index 210ffa4..4362fe5 100644
--- a/clubs/poker/evaluator.py
+++ b/clubs/poker/evaluator.py
@@ -213,7 +213,7 @@ class LookupTable:
     ):
 
         if order is not None:
-            if any(string not in order for string in self.ORDER_STRINGS):
+            if sorted(order) != sorted(self.ORDER_STRINGS):
                 raise error.InvalidOrderError(
                     (
                         f"invalid order list {order},"
-- 
2.43.0


From 2ca328320420b5ae8446ca97d16879a2eb155200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:47 +0000
Subject: [PATCH 17/25] fix: a pot limit smaller than the minimum raise does
 not rule out raising

---
 clubs/poker/engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index 91468d6..d41dec7 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -561,7 +561,7 @@ class Dealer:
         else:
             min_raise = max(self.big_blind, self.largest_raise + call)
             if raise_size == "pot":
-                max_raise = self.pot + call * 2
+                max_raise = max(min_raise, self.pot + call * 2)
             elif raise_size == float("inf"):
                 max_raise = self.stacks[self.action]
         # if maximum number of raises in street
-- 
2.43.0


From 34fad7515792199bf2db910478bc648e94e4f9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:58 +0000
Subject: [PATCH 18/25] fix: a call is no raise when there is no big blind

---
 clubs/poker/engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index d41dec7..a46ff8d 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -380,7 +380,7 @@ class Dealer:
             bet = 0
 
         # if bet is full raise record as largest raise
-        if bet and (bet - call) >= self.largest_raise:
+        if bet > call and (bet - call) >= self.largest_raise:
             self.largest_raise = bet - call
             self.street_raises += 1
 
-- 
2.43.0


From 79c15d2f7a726030218f14f9782c9bac46715571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:27 +0000
Subject: [PATCH 19/25] fix: bets between minimum and maximum raise stay as
 they are when there is no big blind

---
 clubs/poker/engine.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index a46ff8d..231686c 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -584,6 +584,9 @@ class Dealer:
         # find closest bet size to actual bet
         # round down for tie, order is fold/check -> call -> raise
         bet = max(0, bet)
+        # any bet within the raise limits is valid
+        if min_raise <= bet <= max_raise:
+            return bet
         idx = argmin([abs(value - bet) for value in [0, call, min_raise, max_raise]])
         # if call closest
         if idx == 1:
-- 
2.43.0


From 1e60408e92b5b1805f0841bd1aebd062a9336c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:04 +0000
Subject: [PATCH 20/25] fix: the text table hides cards while a hand runs with
 all players all in

---
 clubs/poker/engine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index 231686c..b6d5070 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -440,7 +440,8 @@ class Dealer:
         ]
         community_cards = self.community_cards
         button = int(self.button)
-        done = all(self._done())
+        # the hand is not over as soon as blinds put all players all in
+        done = self.action == -1
         hole_cards = self.hole_cards
         pot = int(self.pot)
         payouts = self._payouts()
-- 
2.43.0


From 295caf202ccbee229c02c1a1d9c691aab2b918c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:06 +0000
Subject: [PATCH 21/25] fix: the table is served at the host it was given

---
 clubs/render/graphic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clubs/render/graphic.py b/clubs/render/graphic.py
index 9eda291..7f21f84 100644
--- a/clubs/render/graphic.py
+++ b/clubs/render/graphic.py
@@ -145,7 +145,7 @@ class GraphicViewer(viewer.PokerViewer):
 
         socketio.start_background_task(listener)
 
-        socketio.run(app, port=self.port)
+        socketio.run(app, host=self.host, port=self.port)
 
     def render(self, config: viewer.RenderConfig, sleep: float = 0) -> None:
         """Render the table in browser based on the table configuration
-- 
2.43.0


From 652de5a1b95866783011021e52a3d07b88148866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:39 +0000
Subject: [PATCH 22/25] fix: bets which are no whole number of chips are
 resolved to the nearest amount

---
 clubs/poker/engine.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index b6d5070..ef71a1a 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -367,7 +367,6 @@ class Dealer:
             raise error.TableResetError("call reset() before calling first step()")
 
         fold = bet < 0
-        bet = round(bet)
 
         call, min_raise, max_raise = self._bet_sizes()
         # round bet to nearest sizing
@@ -581,13 +580,14 @@ class Dealer:
         return call, min_raise, max_raise
 
     @staticmethod
-    def _clean_bet(bet: int, call: int, min_raise: int, max_raise: int) -> int:
+    def _clean_bet(bet: float, call: int, min_raise: int, max_raise: int) -> int:
         # find closest bet size to actual bet
         # round down for tie, order is fold/check -> call -> raise
-        bet = max(0, bet)
-        # any bet within the raise limits is valid
+        bet = min(max(0, bet), max(call, max_raise))
+        # any whole bet within the raise limits is valid
         if min_raise <= bet <= max_raise:
-            return bet
+            whole = int(bet)
+            return whole + 1 if bet - whole > 0.5 else whole
         idx = argmin([abs(value - bet) for value in [0, call, min_raise, max_raise]])
         # if call closest
         if idx == 1:
@@ -759,7 +759,7 @@ class Dealer:
         return self
 
 
-def argmin(values: List[int]) -> int:
+def argmin(values: List[float]) -> int:
     minimum = float("inf")
     minimum_idx = 0
     for idx, value in enumerate(values):
-- 
2.43.0


From 3564ae7ddca19ea5e8d442368d306e712e57f331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:42 +0000
Subject: [PATCH 23/25] fix: a render mode other than the first one used is not
 ignored

---
 clubs/poker/engine.py | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index ef71a1a..833d5c8 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -2,7 +2,7 @@
 import itertools
 import operator
 import sys
-from typing import Any, List, Optional, Tuple, Type, Union
+from typing import Any, Dict, List, Optional, Tuple, Type, Union
 
 if sys.version_info >= (3, 8):
     from typing import Literal, TypedDict
@@ -229,6 +229,7 @@ class Dealer:
         # render
         self.viewer: Optional[render.PokerViewer]
         self.viewer = None
+        self.mode_viewers: Dict[str, render.PokerViewer] = {}
         self.ascii_viewer = render.ASCIIViewer(
             num_players, num_hole_cards, sum(num_community_cards)
         )
@@ -474,23 +475,24 @@ class Dealer:
         sleep : float, optional
             time to wait after rendering, by default 0
         """
-        viewer: Optional[Type[render.PokerViewer]] = None
-        render_modes = ["ascii", "human"]
-        if self.viewer is None:
-            if mode == "ascii":
-                viewer = render.ASCIIViewer
-            elif mode == "human":
-                viewer = render.GraphicViewer
-            else:
-                raise error.InvalidRenderModeError(
-                    (f"incorrect render mode {mode}," f"use one of {render_modes}")
-                )
-            self.viewer = viewer(
-                self.num_players,
-                self.num_hole_cards,
-                sum(self.num_community_cards),
-                **kwargs,
+        viewers: Dict[str, Type[render.PokerViewer]] = {
+            "ascii": render.ASCIIViewer,
+            "human": render.GraphicViewer,
+        }
+        if mode not in viewers:
+            raise error.InvalidRenderModeError(
+                f"incorrect render mode {mode}, use one of {list(viewers)}"
             )
+        # every mode has its own viewer, a viewer set by hand is kept
+        if self.viewer is None or self.viewer in self.mode_viewers.values():
+            if mode not in self.mode_viewers:
+                self.mode_viewers[mode] = viewers[mode](
+                    self.num_players,
+                    self.num_hole_cards,
+                    sum(self.num_community_cards),
+                    **kwargs,
+                )
+            self.viewer = self.mode_viewers[mode]
 
         config = self._render_config()
 
-- 
2.43.0


From dc33c543511ec2dbc3aed74fb06c482791b1b9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:03 +0000
Subject: [PATCH 24/25] fix: a browser table uses no port besides the one it is
 served at

---
 clubs/render/graphic.py | 26 +++++++-------------------
 1 file changed, 7 insertions(+), 19 deletions(-)

diff --git a/clubs/render/graphic.py b/clubs/render/graphic.py
index 7f21f84..2ae92b9 100644
--- a/clubs/render/graphic.py
+++ b/clubs/render/graphic.py
@@ -56,26 +56,14 @@ class GraphicViewer(viewer.PokerViewer):
             self.num_players, self.num_hole_cards, self.num_community_cards
         )
 
-        self.process = multiprocessing.Process(target=self._run_flask)
+        self.socket, conn = multiprocessing.Pipe()
+        self.process = multiprocessing.Process(target=self._run_flask, args=(conn,))
         self.process.start()
+        conn.close()
 
-        self._test_socket_conn()
         self._test_flask_conn()
         print(f"clubs table openend at http://{self.host}:{self.port}")
 
-    def _test_socket_conn(self) -> None:
-        start = time.time()
-        while True:
-            try:
-                self.socket = connection.Client((self.host, self.port + 1))
-                break
-            except (ConnectionRefusedError, OSError):
-                time.sleep(0.01)
-                if time.time() - start > 10:
-                    raise error.RenderInitializationError(
-                        "unable to connect to flask process socket"
-                    )
-
     def _test_flask_conn(self) -> None:
         start = time.time()
         response: Optional[http.client.HTTPResponse] = None
@@ -101,7 +89,10 @@ class GraphicViewer(viewer.PokerViewer):
     def __del__(self) -> None:
         self.close()
 
-    def _run_flask(self) -> None:
+    def _run_flask(self, conn: connection.Connection) -> None:
+        # the other end belongs to the process which renders
+        self.socket.close()
+
         from gevent import monkey
 
         monkey.patch_all()
@@ -129,8 +120,6 @@ class GraphicViewer(viewer.PokerViewer):
 
         def listener() -> None:
             nonlocal config
-            socket = connection.Listener((self.host, self.port + 1))
-            conn = socket.accept()
             while True:
                 if conn.poll():
                     message: Dict[str, Any] = conn.recv()
@@ -141,7 +130,6 @@ class GraphicViewer(viewer.PokerViewer):
                         config = message["content"]
                         socketio.emit("config", config, broadcast=True)
                 socketio.sleep(0.0001)
-            socket.close()
 
         socketio.start_background_task(listener)
 
-- 
2.43.0


From 034067e8a3986eb81a9729aab7a38f76f302f776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:39 +0000
Subject: [PATCH 25/25] fix: refuse to open a browser table at a port which is
 taken

---
 clubs/render/graphic.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/clubs/render/graphic.py b/clubs/render/graphic.py
index 2ae92b9..6430815 100644
--- a/clubs/render/graphic.py
+++ b/clubs/render/graphic.py
@@ -44,13 +44,15 @@ class GraphicViewer(viewer.PokerViewer):
             )
 
         self.host = host
-        if port:
-            self.port = port
-        else:
-            tmp_socket = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
-            tmp_socket.bind(("", 0))
+        with socket.socket(socket.AF_INET, socket.SOCK_STREAM) as tmp_socket:
+            tmp_socket.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
+            try:
+                tmp_socket.bind((host, port))
+            except OSError:
+                raise error.RenderInitializationError(
+                    f"unable to serve at {host}:{port}"
+                )
             self.port = tmp_socket.getsockname()[1]
-            tmp_socket.close()
 
         self.svg_poker = _SVGPoker(
             self.num_players, self.num_hole_cards, self.num_community_cards
@@ -87,7 +89,8 @@ class GraphicViewer(viewer.PokerViewer):
             self.process.join()
 
     def __del__(self) -> None:
-        self.close()
+        if hasattr(self, "process"):
+            self.close()
 
     def _run_flask(self, conn: connection.Connection) -> None:
         # the other end belongs to the process which renders
-- 
2.43.0

