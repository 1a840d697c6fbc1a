"""Runs the real Dealer and records every call for DealerTrace.tla.

Only the public interface is used: construction, reset, step, the text form,
win_probabilities, deck.trick, and setting stacks between hands.
"""
import contextlib
import copy
import io
import json
import re
import sys

from common import *

import clubs
from clubs import configs, error

# ------------------------------------------------------------- recording


DOCUMENTED = {"action", "active", "button", "call", "community_cards", "hole_cards", "max_raise", "min_raise",
              "pot", "stacks", "street_commits"}


def cards_in(x, found, depth=6):
    """all cards which can be found in something"""
    if isinstance(x, str):
        found.update(RANKS.index(r) + 13 * PRETTY[s] for r, s in re.findall(r"([2-9TJQKA])([\u2660\u2665\u2666\u2663])", x))
    elif isinstance(x, clubs.Card):
        found.add(card_id(x))
    elif depth and isinstance(x, dict):
        for y in list(x.keys()) + list(x.values()):
            cards_in(y, found, depth - 1)
    elif depth and isinstance(x, (list, tuple, set, frozenset)):
        for y in x:
            cards_in(y, found, depth - 1)
    elif depth and hasattr(x, "__dict__"):
        cards_in(vars(x), found, depth - 1)
    return found


def canon(obs, unit=1):
    ob = documented(obs, unit)
    # whatever else there is may tell of no other cards
    more = cards_in([x for key, x in obs.items() if key not in DOCUMENTED], set()) if len(obs) > len(DOCUMENTED) else ()
    if more:
        ob["more"] = sorted(more)
    return ob


def documented(obs, unit=1):
    return {
        "a": whole(obs["action"]),
        "act": [bool(x) for x in obs["active"]],
        "but": whole(obs["button"]),
        "call": whole(obs["call"], unit),
        "cc": [card_id(x) for x in obs["community_cards"]],
        "hc": [card_id(x) for x in obs["hole_cards"]],
        "mx": whole(obs["max_raise"], unit),
        "mn": whole(obs["min_raise"], unit),
        "pot": whole(obs["pot"], unit),
        "st": [whole(x, unit) for x in obs["stacks"]],
        "com": [whole(x, unit) for x in obs["street_commits"]],
    }


def kwargs_of(cfg, unit=1):
    """Constructor arguments for a configuration of the specification."""
    size = {-1: "pot", -2: "inf"}
    return dict(
        num_players=cfg["n"],
        num_streets=cfg["ns"],
        blinds=[x * unit for x in cfg["blinds"]],
        antes=[x * unit for x in cfg["antes"]],
        raise_sizes=[size.get(x, x * unit) for x in cfg["rs"]],
        num_raises=["inf" if x == UNLIMITED else x for x in cfg["nr"]],
        num_suits=cfg["suits"],
        num_ranks=cfg["ranks"],
        num_hole_cards=cfg["nh"],
        num_community_cards=list(cfg["nc"]),
        num_cards_for_hand=cfg["k"],
        mandatory_num_hole_cards=cfg["mand"],
        start_stack=cfg["start"] * unit,
        low_end_straight=cfg["low"],
        order=[NAMES[i - 1] for i in cfg["ord"]] or None,
    )


def spec_of(kw):
    """The configuration of the specification for shipped constructor arguments."""
    n, ns = kw["num_players"], kw["num_streets"]

    def spread(v, m):
        return list(v) if isinstance(v, list) else [v] * m

    size = {"pot": -1, "inf": -2}
    return dict(
        n=n,
        ns=ns,
        blinds=spread(kw["blinds"], n),
        antes=spread(kw["antes"], n),
        rs=[size.get(x, x) for x in spread(kw["raise_sizes"], ns)],
        nr=[UNLIMITED if x == "inf" else int(x) for x in spread(kw["num_raises"], ns)],
        suits=kw["num_suits"],
        ranks=kw["num_ranks"],
        nh=kw["num_hole_cards"],
        nc=spread(kw["num_community_cards"], ns),
        k=kw["num_cards_for_hand"],
        mand=kw["mandatory_num_hole_cards"],
        start=kw["start_stack"],
        low=bool(kw["low_end_straight"]),
        ord=[NAMES.index(x) + 1 for x in kw["order"] or []],
    )


def described(config, unit=1):
    """what a viewer is told, as the specification has it"""
    last = config["prev_action"]
    return {
        "a": whole(config["action"]),
        "act": [bool(x) for x in config["active"]],
        "allin": [bool(x) for x in config["all_in"]],
        "board": [card_id(x) for x in config["community_cards"]],
        "but": whole(config["button"]),
        "over": bool(config["done"]),
        "hole": [[card_id(x) for x in hand] for hand in config["hole_cards"]],
        "pot": whole(config["pot"], unit),
        "pay": [whole(x, unit) for x in config["payouts"]],
        "last": [] if last is None else [whole(last[0]), whole(last[1], unit), bool(last[2])],
        "com": [whole(x, unit) for x in config["street_commits"]],
        "st": [whole(x, unit) for x in config["stacks"]],
    }


class Noting(clubs.render.PokerViewer):
    """A viewer which takes down what it is handed."""

    def __init__(self, *sizes):
        super().__init__(*sizes)
        self.got = []
        self.unit = 1

    def render(self, config, sleep=0):
        self.got.append((described(config, self.unit), sleep))


def units(v, unit):
    """Amounts of what is shown of a table, in units."""
    if unit == 1:
        return v
    v = dict(v)
    for key in ("st", "com"):
        if key in v:
            v[key] = [whole(x, unit) for x in v[key]]
    v["pot"] = whole(v["pot"], unit)
    if v.get("last"):
        v["last"] = v["last"][:2] + [whole(v["last"][2], unit)]
    if "win" in v:
        v["win"] = [[i, whole(x, unit)] for i, x in v["win"]]
    for seat in v.get("seats", ()):
        seat.update(st=whole(seat["st"], unit), amt=whole(seat["amt"], unit))
    return v


SHARES = 2520  # divided by 1..10


def scaled(cfg, by):
    if by == 1:
        return cfg
    return dict(
        cfg,
        blinds=[x * by for x in cfg["blinds"]],
        antes=[x * by for x in cfg["antes"]],
        rs=[x * by if x > 0 else x for x in cfg["rs"]],
        start=cfg["start"] * by,
    )


class Table:
    """A real table and the record of everything done with it."""

    def __init__(self, tid, cfg, tags=(), kwargs=None, mutate=False, dealer=None, unit=0):
        # unit: so many real chips are one chip of the specification, which counts in
        # multiples of SHARES, so that every share is whole
        self.base = cfg
        self.unit, self.shares = unit or 1, SHARES if unit else 1
        cfg = scaled(cfg, self.shares)
        self.rec = {"id": tid, "cfg": cfg, "tags": list(tags), "ev": []}
        self.cfg = cfg
        self.mutate = mutate
        self.handed = []  # observations handed out, with their first reading
        self.ob = None  # last observation, canonical
        self.done = True
        self.fresh = True
        self.broken = False
        self.known = False
        self.trick = ()  # the order in which the deck has to come
        self.mirror = None  # a copy which is treated the same for the rest of the hand
        self.viewer = None
        self.turns = len(tid)
        self.dealer = dealer or clubs.poker.Dealer(**(kwargs or kwargs_of(cfg, self.unit)))

    def _obs(self, obs):
        ob = canon(obs, self.unit)
        if self.mutate:
            # a caller scribbling over its own observation
            for key in ("stacks", "street_commits"):
                for i in range(len(obs[key])):
                    obs[key][i] += 3 + i
            for i in range(len(obs["active"])):
                obs["active"][i] = not obs["active"][i]
            del obs["hole_cards"][:]
            del obs["community_cards"][:]
        else:
            self.handed.append((obs, ob))
        return ob

    def reset(self, rb=False, rs=False, deck=(), untrick=False, kept=False):
        """kept: the deck was tricked like this before and still is"""
        ev = {"o": "reset", "rb": rb, "rs": rs, "deck": list(deck), "x": ""}
        self.rec["ev"].append(ev)
        try:
            if kept:
                pass
            elif deck:
                self.dealer.deck.trick([clubs.Card(card_name(x)) for x in deck])
            elif untrick:
                self.dealer.deck.untrick()
            with limit(20):
                obs = self.dealer.reset(reset_button=rb, reset_stacks=rs)
            ev["ob"] = self._obs(obs)
        except Exception as err:  # recorded, judged by the specification
            ev["x"] = type(err).__name__
            ev["msg"] = repr(err)[:200]
            if ev["x"] != "TooFewActivePlayersError":
                self.broken = True
            return False
        self.ob = ev["ob"]
        self.done = False
        self.fresh = False
        self.mirror = None
        return True

    def step(self, bet):
        ev = {"o": "step", "b": eighths(bet), "x": ""}
        self.rec["ev"].append(ev)
        try:
            with limit(20):
                obs, pay, done = self.dealer.step(bet * self.unit if self.unit > 1 else bet)
            ev["ob"] = self._obs(obs)
            ev["p"] = [whole(x, self.unit) for x in pay]
            ev["d"] = [bool(x) for x in done]
        except Exception as err:
            ev["x"] = type(err).__name__
            ev["msg"] = repr(err)[:200]
            if ev["x"] != "TableResetError":
                self.broken = True
            return False
        self.ob = ev["ob"]
        self.done = all(ev["d"])
        if self.mirror is not None:
            self.same(bet * self.unit if self.unit > 1 else bet, [ev["ob"], ev["p"], ev["d"]])
        return True

    def copy(self, number):
        """another table, in the same state"""
        other = copy.copy(self)
        other.dealer = copy.deepcopy(self.dealer)
        other.rec = dict(self.rec, id=f"{self.rec['id']}-copy{number}", ev=list(self.rec["ev"]))
        other.handed = []
        other.mirror = None
        self.mirror = copy.deepcopy(self.dealer)
        return other

    def same(self, bet, result):
        """whether the mirror gives the same"""
        try:
            with limit(20):
                obs, pay, done = self.mirror.step(bet)
            ok = result == [canon(obs, self.unit), [whole(x, self.unit) for x in pay], [bool(x) for x in done]]
        except Exception:
            ok = False
        if not ok:
            self.mirror = None
        if not ok or all(done):
            self.fact("C30", ok, "a copy gives the same")
            self.mirror = None

    def chips(self, stacks):
        stacks = [x * self.shares for x in stacks]
        for i, x in enumerate(stacks):
            self.dealer.stacks[i] = x * self.unit
        self.rec["ev"].append({"o": "chips", "st": list(stacks)})

    def win(self):
        ev = {"o": "win", "x": "", "p": []}
        self.rec["ev"].append(ev)
        try:
            ev["p"] = [whole(round(float(x) * 100000)) for x in self.dealer.win_probabilities()]
        except Exception as err:
            ev["x"] = type(err).__name__

    def own(self):
        """a viewer made by the user"""
        ev = {"o": "shown", "x": "", "ok": False}
        self.rec["ev"].append(ev)
        try:
            if self.viewer is None:
                self.viewer = Noting(self.cfg["n"], self.cfg["nh"], sum(self.cfg["nc"]))
                self.viewer.unit = self.unit
                self.dealer.viewer = self.viewer
            self.turns += 1
            sleep = [0, 0.25, 3][self.turns % 3]
            self.dealer.render(mode=["human", "ascii"][self.turns // 3 % 2], sleep=sleep)
            (ev["v"], slept), *more = self.viewer.got
            ev["ok"] = slept == sleep and not more and self.dealer.viewer is self.viewer
            self.viewer.got = []
        except Exception as err:
            ev["x"] = type(err).__name__ + ": " + str(err)[:200]

    def view(self, how="str"):
        import views

        if self.fresh:
            # there is nothing to be seen yet
            return
        if how == "own":
            self.own()
            return
        ev = {"o": "view", "x": ""}
        self.rec["ev"].append(ev)
        try:
            if how == "str":
                text = str(self.dealer)
            else:
                buf = io.StringIO()
                with contextlib.redirect_stdout(buf):
                    self.dealer.render(mode="ascii")
                text = buf.getvalue()
            ev["text"] = text
            ev["v"] = units(views.parse(text), self.unit)
        except Exception as err:
            ev["x"] = type(err).__name__ + ": " + str(err)[:200]

    def bet(self, rng, w):
        if self.shares == 1:
            return random_bet(rng, self.ob, w)
        ob = dict(self.ob, st=[x // self.shares for x in self.ob["st"]])
        for key in ("call", "mn", "mx"):
            ob[key] //= self.shares
        return whole_bet(rng, ob, w) * self.shares

    def frozen(self):
        ok = True
        for obs, ob in self.handed:
            try:
                ok = ok and canon(obs, self.unit) == ob
            except Exception:
                ok = False
        self.rec["ev"].append({"o": "frozen", "ok": ok})

    def fact(self, pid, ok, what):
        self.rec["ev"].append({"o": "fact", "id": pid, "ok": bool(ok), "what": what})


# --------------------------------------------------------- random tables


def pick(rng, weighted):
    total = sum(w for w, _ in weighted)
    x = rng.random() * total
    for w, v in weighted:
        x -= w
        if x < 0:
            return v
    return weighted[-1][1]


def random_cards(rng, cfg, style):
    """Fill in the card part of a configuration; n and ns are given."""
    n, ns = cfg["n"], cfg["ns"]
    cfg["low"] = rng.random() < 0.6
    cfg["ord"] = []
    if style == "rank":  # one card each: every pattern of strengths and ties
        cfg.update(suits=4, ranks=13, nh=1, k=1, mand=1)
        cfg["nc"] = [rng.choice([0, 0, 1, 2]) for _ in range(ns)]
    elif style == "best":  # best single card of hand and board: many ties
        cfg.update(suits=4, ranks=13, nh=rng.choice([1, 1, 2]), k=1, mand=0)
        cfg["nc"] = [rng.choice([0, 0, 0, 1]) for _ in range(ns)]
    elif style == "pair":
        cfg.update(suits=4, ranks=13, nh=rng.choice([1, 2]), k=2, mand=rng.choice([0, 1]))
        cfg["nc"] = [rng.choice([0, 1]) for _ in range(ns)]
        cfg["nc"][0] = max(1, cfg["nc"][0])
    elif style == "low":  # few cards and poor hands (see random_deck)
        cfg.update(suits=rng.choice([3, 4, 4]), ranks=rng.choice([8, 10, 13]), nh=2, k=2, mand=rng.choice([0, 2]))
        cfg["nc"] = [0] * ns
        if not plain_order(cfg["suits"], cfg["ranks"], 2, cfg["low"]) or n * 2 > cfg["suits"] * cfg["ranks"]:
            cfg.update(suits=4, ranks=13)
    elif style == "small":
        for _ in range(200):
            s, r = rng.randint(1, 4), rng.randint(3, 13)
            k = rng.randint(1, 3)
            nh = rng.randint(1, 3)
            mand = rng.randint(0, min(nh, k))
            nc = [rng.choice([0, 0, 1, 2]) for _ in range(ns)]
            if mand == 0 and nh + nc[0] < k or mand and nc[0] < k - mand:
                nc[0] = k
            if n * nh + sum(nc) <= s * r and plain_order(s, r, k, cfg["low"]):
                cfg.update(suits=s, ranks=r, nh=nh, k=k, mand=mand, nc=nc)
                return
        random_cards(rng, cfg, "rank")
    elif style == "tiny":
        # few cards: the completions of the board can be counted
        for _ in range(300):
            s, r = rng.randint(1, 4), rng.randint(2, 13)
            k = rng.randint(1, 5)
            nh = rng.randint(1, 4)
            mand = rng.choice([0, 0, rng.randint(0, min(nh, k))])
            nc = [rng.choice([0, 1, 1, 2, 3]) for _ in range(ns)]
            total = sum(nc)
            left = s * r - n * nh - total
            if left < 0 or left > 14 or (nh + total < k if mand == 0 else total < k - mand):
                continue
            if total > 5 or not plain_order(s, r, k, cfg["low"]):
                continue
            cfg.update(suits=s, ranks=r, nh=nh, k=k, mand=mand, nc=nc)
            return
        random_cards(rng, cfg, "rank")
    elif style == "vast":
        # cheap hands, and more than 20000 completions of the board
        for _ in range(1000):
            s, r = rng.randint(1, 4), rng.randint(4, 13)
            nh = rng.randint(1, 2)
            k = rng.choice([1, 1, 2])
            total = rng.randint(3, 7)
            left = s * r - n * nh
            if left >= total and 20000 < ncr(left, total) < 36000 and plain_order(s, r, k, cfg["low"]):
                nc = [0] * ns
                nc[-1] = total
                cfg.update(suits=s, ranks=r, nh=nh, k=k, mand=rng.choice([0, 0, 1]), nc=nc)
                return
        random_cards(rng, cfg, "tiny")
    elif style == "single":
        # one card decides, and completions of the board by the hundred thousand
        for _ in range(1000):
            s, r = rng.choice([3, 4, 4]), rng.randint(8, 13)
            nh, total = rng.choice([1, 1, 2]), rng.randint(3, 6)
            left = s * r - n * nh
            if left >= total and 125000 < ncr(left, total) < 10 ** 6:
                nc = [0] * ns
                nc[-1] = total
                cfg.update(suits=s, ranks=r, nh=nh, k=1, mand=0, nc=nc)
                return
        random_cards(rng, cfg, "tiny")
    elif style == "holdem":
        cfg.update(suits=4, ranks=13, nh=2, k=5, mand=0, low=True)
        cfg["nc"] = {1: [5], 2: [3, 2], 3: [0, 3, 2]}.get(ns, [0, 3, 1, 1] + [0] * (ns - 4))
    elif style == "short":
        cfg.update(suits=4, ranks=9, nh=2, k=5, mand=0, low=True)
        cfg["ord"] = [1, 2, 4, 3, 5, 6, 7, 8, 9]
        cfg["nc"] = {1: [5], 2: [3, 2], 3: [0, 3, 2]}.get(ns, [0, 3, 1, 1] + [0] * (ns - 4))
    elif style == "omaha":
        cfg.update(suits=4, ranks=13, nh=4, k=5, mand=2, low=True)
        cfg["nc"] = {1: [5], 2: [3, 2], 3: [0, 3, 2]}.get(ns, [0, 3, 1, 1] + [0] * (ns - 4))


def random_config(rng, prof):
    n = pick(rng, prof.get("n") or [(4, 2), (5, 3), (4, 4), (3, 5), (3, 6), (1, 7), (1, 8), (2, 9), (1, 10)])
    ns = pick(rng, prof.get("ns") or [(3, 1), (4, 2), (3, 3), (3, 4)])
    unit = rng.choice([1, 1, 1, 2, 5])
    kind = rng.random()
    if kind < 0.45:
        blinds = [unit, 2 * unit] + [0] * (n - 2)
    elif kind < 0.55:
        blinds = [0] * n
    elif kind < 0.65:
        blinds = [0, unit] + [0] * (n - 2)
    elif kind < 0.75:
        blinds = [unit, 2 * unit] + [4 * unit if i == 0 else 0 for i in range(n - 2)]
    else:
        blinds = [rng.choice([0, 0, 1, 2, 3, 5]) * unit for _ in range(n)]
    kind = rng.random()
    if kind < 0.5:
        antes = [0] * n
    elif kind < 0.7:
        antes = [unit] * n
    elif kind < 0.8:
        antes = [0, unit] + [0] * (n - 2)
    else:
        antes = [rng.choice([0, 0, 1, 2, 3]) * unit for _ in range(n)]
    if prof.get("forced"):
        # anybody may have to put in more than all the others
        blinds = [rng.choice([0, 0, 1, 2, 5]) * unit for _ in range(n)]
        antes = [rng.choice([0, 0, 0, 1, 4, 9]) * unit for _ in range(n)]
    limit = pick(rng, prof.get("limit") or [(4, "inf"), (3, "pot"), (3, "fix"), (2, "mix")])
    if limit == "inf":
        rs = [-2] * ns
    elif limit == "pot":
        rs = [-1] * ns
    elif limit == "fix":
        base = max(1, blinds[1]) if rng.random() < 0.7 else rng.randint(1, 8)
        rs = sorted(base * rng.choice([1, 1, 2, 3]) for _ in range(ns))
        if rng.random() < 0.3:
            rng.shuffle(rs)
    else:
        rs = [rng.choice([-2, -1, rng.randint(1, 9)]) for _ in range(ns)]
    if rng.random() < 0.45:
        nr = [UNLIMITED] * ns
    else:
        nr = [rng.choice(prof.get("caps") or [0, 1, 1, 2, 2, 3, 4, UNLIMITED]) for _ in range(ns)]
    bb = max([1] + blinds + antes)
    start = rng.choice([1, 2, 3, 5, 8, 13, 20, 40, 100]) * rng.choice([1, 1, bb])
    start = prof.get("start") or min(start, 2000)
    cfg = dict(n=n, ns=ns, blinds=blinds, antes=antes, rs=rs, nr=nr, start=start)
    style = pick(
        rng,
        prof.get("style")
        or [(10, "rank"), (4, "best"), (2, "pair"), (3, "small"), (1, "holdem"), (0.5, "short"), (0.5, "omaha")],
    )
    if style == "omaha" and n > 9:
        style = "holdem"
    if style == "short" and n > 10:
        style = "holdem"
    random_cards(rng, cfg, style)
    return cfg


def random_deck(rng, cfg):
    ids = deck_ids(cfg["suits"], cfg["ranks"])
    rng.shuffle(ids)
    n, nh, nb = cfg["n"], cfg["nh"], cfg["nc"][0]
    # often arrange for ties: equal ranks for single-card hands
    if cfg["k"] == 1 and nh == 1 and rng.random() < 0.75:
        levels = rng.sample(range(13 - cfg["ranks"], 13), min(cfg["ranks"], rng.choice([1, 2, 2, 3, 4])))
        if rng.random() < 0.4 and 13 - cfg["ranks"] not in levels:
            levels[0] = 13 - cfg["ranks"]  # the worst hand there is
        pool = {r: [x for x in ids if x % 13 == r] for r in levels}
        board = ids[:nb]
        hands = []
        rest = [x for x in ids]
        for _ in range(n):
            choices = [r for r in levels if pool[r]]
            if choices:
                card = pool[rng.choice(choices)].pop()
            else:
                card = next(x for x in rest if x not in hands)
            hands.append(card)
            rest = [x for x in rest if x not in hands]
        rest = [x for x in ids if x not in hands]
        return rest[:nb] + hands + rest[nb:]
    if cfg["k"] == 2 and nh == 2 and cfg["ranks"] > 2 and rng.random() < 0.6:
        # some of the worst hands there are: the two lowest ranks
        low = [[x for x in ids if x % 13 == 13 - cfg["ranks"] + i] for i in (0, 1)]
        ids = [x for x in ids if x not in low[0] and x not in low[1]]
        hands = []
        for _ in range(n):
            if min(len(x) for x in low) and rng.random() < 0.75:
                hands.append([low[0].pop(), low[1].pop(0)])
            elif len(ids) >= 2 + nb:
                hands.append([ids.pop(), ids.pop()])
            else:
                return random_deck(rng, cfg)
        ids += low[0] + low[1]
        return ids[:nb] + [x for hand in hands for x in hand] + ids[nb:]
    return ids


def fills(cfg, ob):
    """Number of completions of the board."""
    left = cfg["suits"] * cfg["ranks"] - cfg["n"] * cfg["nh"] - len(ob["cc"])
    return ncr(left, sum(cfg["nc"]) - len(ob["cc"]))


STYLES = {
    # weights: fold, check/call, min raise, max raise, all-in, inside, odd
    "mixed": (1.5, 5, 1.5, 0.7, 0.7, 2, 2),
    "caller": (0.4, 9, 0.5, 0.2, 0.3, 0.5, 0.5),
    "raiser": (0.5, 3, 5, 1, 0.4, 3, 1),
    "allin": (1, 4, 0.5, 1, 4, 0.5, 0.5),
    "odd": (0.5, 2, 0.5, 0.3, 0.2, 1, 8),
    "folder": (9, 2, 0.5, 0.2, 0.4, 0.4, 0.6),
    "climber": (0.02, 0.5, 12, 0, 0.01, 0.1, 0.2),
}


def random_bet(rng, ob, w):
    bet = whole_bet(rng, ob, w)
    # not only whole numbers of chips
    kind = rng.random()
    if kind < 0.03:
        return bet + rng.choice([0, 0.5, -0.5, 0.5]) + rng.choice([-1, 1]) * 2.0 ** -rng.randint(4, 36)
    if kind < 0.1:
        return bet + rng.choice([-0.5, 0.5, 0.5, 0.125, 0.375, 0.625, 0.875, -0.125])
    if kind < 0.12:
        return float(bet)
    if kind < 0.13:
        return rng.choice([float("inf"), float("inf"), float("-inf"), 1e300])
    return bet


def whole_bet(rng, ob, w):
    call, mn, mx = ob["call"], ob["mn"], ob["mx"]
    stack = ob["st"][ob["a"]]
    kind = pick(rng, list(zip(w, ["f", "c", "m", "M", "a", "i", "o"])))
    if kind == "f":
        return rng.choice([-1, -1, 0, -5])
    if kind == "c":
        return call
    if kind == "m":
        return mn
    if kind == "M":
        return mx
    if kind == "a":
        return rng.choice([stack, stack, stack + 1, 10 * stack + 3])
    if kind == "i" and mx > mn:
        return rng.randint(mn, mx)
    spots = [0, call, mn, mx, stack, call // 2, (call + 1) // 2, (call + mn) // 2, (call + mn + 1) // 2, 2 * mx]
    return rng.choice(spots) + rng.choice([0, 0, 1, -1, 2, -2])


def stacks_for(rng, cfg, total=None):
    n = cfg["n"]
    bb = max([1] + cfg["blinds"] + cfg["antes"])
    while True:
        kind = rng.random()
        if kind < 0.4:
            st = [rng.randint(0, 3 * bb) for _ in range(n)]
        elif kind < 0.7:
            st = [rng.choice([0, 1, 2, bb, bb + 1, 3 * bb, 10 * bb]) for _ in range(n)]
        else:
            st = [rng.randint(1, 25) for _ in range(n)]
        if sum(x > 0 for x in st) >= 2:
            return st


def play(tab, rng, prof, hands):
    """Several hands at one table, chosen by rng; returns the copies made of it."""
    copies = []
    todo = [playing(tab, rng, prof, hands, copies)]
    lot = random.Random(rng.random()) if prof.get("fork") else None
    started = 0
    while todo:
        gen = todo[0] if len(todo) == 1 else lot.choice(todo)
        if next(gen, "end") == "end":
            todo.remove(gen)
        for copied, left in copies[started:]:
            todo.append(playing(copied, random.Random(lot.random()), prof, left, copies, True))
        started = len(copies)
    return [x for x, _ in copies]


def follow(tab, rng, prof, hands, sched):
    """The same, copied and called as a schedule says; then all to the end."""
    tables = [tab]
    tab.left = hands
    todo = [playing(tab, rng, prof, hands, [])]
    lot = random.Random(rng.random())
    for what, o in sched:
        if what == "copy":
            left = tables[o - 1].left
            tables.append(tables[o - 1].copy(len(tables)))
            todo.append(playing(tables[-1], random.Random(lot.random()), prof, left, [], True))
        else:
            for _ in range(lot.choice([1, 1, 2, 3, 6])):
                next(todo[o - 1], "end")
    while todo:
        gen = lot.choice(todo)
        if next(gen, "end") == "end":
            todo.remove(gen)
    return tables[1:]


def playing(tab, rng, prof, hands, copies, resume=False):
    """one call after the other; a copy resumes the hand of the original"""
    cfg = tab.base
    tab.left = hands
    if not resume and rng.random() < prof.get("early", 0.05):
        tab.step(rng.choice([0, 1, -1]))
    for hand in range(hands):
        if tab.broken:
            break
        known = tab.known
        tab.left = hands - hand
        if prof.get("sched"):
            yield "hand"
        if hand or not resume:
            rs = rng.random() < prof.get("refill", 0.25)
            if not rs and (tab.shares > 1 or rng.random() < prof.get("chips", 0.4)):
                tab.chips(stacks_for(rng, cfg))
            kept = bool(prof.get("keep") and tab.trick and rng.random() < prof["keep"])
            if kept:
                deck = tab.trick
            else:
                deck = random_deck(rng, cfg) if rng.random() < prof.get("known", 0.9) else ()
            tab.trick = deck
            tab.known = known = bool(deck)
            if not tab.reset(rng.random() < prof.get("rb", 0.12), rs, deck, untrick=True, kept=kept):
                if tab.broken:
                    break
                # refused: the finished hand is still there
                if rng.random() < 0.7:
                    tab.step(rng.choice([0, 1, -1, 7]))
                if rng.random() < 0.3:
                    tab.reset(True, False, deck, untrick=True)
                if not tab.reset(False, True, deck, untrick=True):
                    break
        w = STYLES[pick(rng, prof.get("bets") or [(4, "mixed"), (3, "caller"), (2, "raiser"), (2, "allin"), (2, "odd")])]
        view = prof.get("view", 0)
        if rng.random() < view:
            tab.view(rng.choice(prof.get("looks") or ["str", "ascii"]))
        odds = prof.get("win", 0) if known else 0
        if odds and rng.random() < odds and prof.get("least", 0) <= fills(cfg, tab.ob) <= prof.get("fills", 150):
            tab.win()
            if prof.get("least"):
                return
        count = 0
        abandon = rng.random() < prof.get("abandon", 0.04)
        while not tab.done and not tab.broken and count < 300:
            count += 1
            if prof.get("fork") or prof.get("sched"):
                yield "call"
                # whatever has happened to copies in the meantime
                if view and rng.random() < view:
                    tab.view(rng.choice(prof.get("looks") or ["str", "ascii"]))
            if prof.get("fork"):
                if len(copies) < 4 and rng.random() < prof["fork"]:
                    copies.append((tab.copy(len(copies)), hands - hand))
            tab.step(tab.bet(rng, w))
            if rng.random() < view and not tab.broken:
                tab.view(rng.choice(prof.get("looks") or ["str", "ascii"]))
            if odds and not tab.broken and not tab.done and rng.random() < odds:
                if fills(cfg, tab.ob) <= prof.get("fills", 150):
                    tab.win()
            if abandon and rng.random() < 0.2:
                break
        if tab.done and not tab.broken and rng.random() < prof.get("after", 0.35):
            for _ in range(rng.randint(1, 3)):
                tab.step(rng.choice([0, 1, -1, 2, 10, 500]))
            if rng.random() < view:
                tab.view(rng.choice(prof.get("looks") or ["str", "ascii"]))
            if odds and rng.random() < odds and fills(cfg, tab.ob) <= prof.get("fills", 150):
                tab.win()
        if prof.get("fork") and len(copies) < 4 and rng.random() < prof["fork"]:
            copies.append((tab.copy(len(copies)), hands - hand))
    tab.frozen()


def random_tables(out, seed, prof):
    """prof: tables, hands, and the weights used above."""
    scheds = []
    for path in prof.get("schedules", []):
        for line in open(path):
            if line.startswith('"GEN '):
                scheds.append(json.loads(json.loads(line)[4:])["sched"])
    seeded(seed, prof.get("name"), "schedules").shuffle(scheds)
    count = min(prof["tables"], len(scheds)) if scheds else prof["tables"]
    per = prof.get("per_config", 4)
    made = 0
    events = 0
    while made < count:
        rng = seeded(seed, prof.get("name"), made)
        cfg = random_config(rng, prof)
        if prof.get("units"):
            cfg["start"] = min(cfg["start"], 100)
        for _ in range(per):
            mutate = rng.random() < prof.get("mutate", 0.1)
            tags = (["C14"] if mutate else []) + prof.get("tags", [])
            tab = Table(f"{prof.get('name')}-{made}", cfg, tags, mutate=mutate, unit=rng.choice(prof.get("units") or [0]))
            hands = rng.randint(prof.get("at_least", 1), prof.get("hands", 5))
            if scheds:
                copies = follow(tab, rng, dict(prof, sched=True), hands, scheds[made % len(scheds)])
            else:
                copies = play(tab, rng, prof, hands)
            for one in [tab] + copies:
                out.line(one.rec)
                events += len(one.rec["ev"])
            made += 1
    return made, events


def shipped_tables(out, seed, prof):
    made = events = 0
    for name in sorted(x for x in dir(configs) if x.isupper()):
        kw = getattr(configs, name)
        if not isinstance(kw, dict) or "num_players" not in kw:
            continue
        before = json.dumps(kw, sort_keys=True)
        for i in range(prof.get("per_shipped", 2)):
            rng = seeded(seed, name, i)
            tab = Table(f"shipped-{name}-{i}", spec_of(kw), prof.get("tags", []), kwargs=kw)
            copies = play(tab, rng, prof, rng.randint(1, prof.get("hands", 5)))
            tab.fact("C21", json.dumps(kw, sort_keys=True) == before, "configuration unchanged")
            for one in [tab] + copies:
                out.line(one.rec)
                events += len(one.rec["ev"])
            made += 1
    return made, events


def text_tables(out, seed, prof):
    """The text viewer by itself, with descriptions of any table."""
    import time
    import views

    made = 0
    while made < prof["count"]:
        rng = seeded(seed, "texts", made)
        n, nh, nc = rng.randint(2, 10), rng.randint(1, 4), rng.choice([0, 1, 3, 5, 5])
        rec = {"id": f"texts-{made}", "cfg": dict(n=n, nh=nh, nc=[nc], start=1), "tags": [], "ev": []}
        viewer = clubs.render.ASCIIViewer(n, nh, nc)
        for _ in range(12):
            big = rng.choice([9, 90, 2000, 99999])
            ids = rng.sample(range(52), n * nh + nc)
            cards = [clubs.Card(card_name(x)) for x in ids]
            over = rng.random() < 0.3
            acts = [rng.random() < 0.7 for _ in range(n)]
            pays = [rng.choice([0, 0, rng.randint(-big, big)]) for _ in range(n)]
            if over and max(pays) <= 0:
                pays[rng.randrange(n)] = big
            allin = [x and rng.random() < 0.3 for x in acts]
            able = [i for i in range(n) if acts[i] and not allin[i]]
            if not able:
                # somebody has to act, or at least has to win
                able = [rng.randrange(n)]
                acts[able[0]], allin[able[0]] = True, False
            last = rng.choice([0, rng.randint(1, big)])
            config = {
                "action": -1 if over else rng.choice(able),
                "active": acts,
                "all_in": allin,
                "community_cards": cards[n * nh :][: rng.randint(0, nc)],
                "button": rng.randrange(n),
                "done": over,
                "hole_cards": [cards[i * nh : (i + 1) * nh] for i in range(n)],
                "pot": rng.randint(0, 3 * big),
                "payouts": pays,
                "prev_action": rng.choice([None, (rng.randrange(n), 0, True), (rng.randrange(n), last, False), (rng.randrange(n), last, False)]),
                "street_commits": [rng.randint(0, big) for _ in range(n)],
                "stacks": [0 if x else rng.randint(1, big) for x in allin],
            }
            d = described(config)
            d["a"] += 1
            d["but"] += 1
            if d["last"]:
                d["last"][0] += 1
            ev = {"o": "text", "x": "", "ok": False, "n": n, "nh": nh, "nc": nc, "d": copy.deepcopy(d)}
            rec["ev"].append(ev)
            try:
                buf = io.StringIO()
                begin = time.monotonic()
                sleep = rng.choice([0] * 9 + [0.02])
                with contextlib.redirect_stdout(buf):
                    viewer.render(config, sleep)
                slept = time.monotonic() - begin
                ev["v"] = views.parse(buf.getvalue())
                ev["text"] = buf.getvalue()
                now = described(config)
                now["a"] += 1
                now["but"] += 1
                if now["last"]:
                    now["last"][0] += 1
                ev["ok"] = now == d and slept >= 0.9 * sleep
            except Exception as err:
                ev["x"] = type(err).__name__ + ": " + str(err)[:200]
        out.line(rec)
        made += 1
    return made, made * 12


def scripted_tables(out, path):
    """Behaviours generated by TLC (DealerGen): one per line."""
    made = events = 0
    for line in open(path):
        job = json.loads(line)
        tab = Table(f"gen-{made}", job["cfg"])
        for op in job["ops"]:
            if tab.broken:
                break
            if op["o"] == "chips":
                tab.chips(op["st"])
            elif op["o"] == "reset":
                tab.reset(op["rb"], op["rs"], op["deck"])
            else:
                tab.step(op["b"])
        tab.frozen()
        out.line(tab.rec)
        made += 1
        events += len(tab.rec["ev"])
    return made, events


def main():
    job = json.load(open(sys.argv[1]))
    out = Out(job["out"])
    stats = []
    for part in job["parts"]:
        if part["kind"] == "random":
            stats.append(random_tables(out, job["seed"], part))
        elif part["kind"] == "shipped":
            stats.append(shipped_tables(out, job["seed"], part))
        elif part["kind"] == "texts":
            stats.append(text_tables(out, job["seed"], part))
        elif part["kind"] == "script":
            stats.append(scripted_tables(out, part["path"]))
    out.close()
    print(json.dumps({"tables": sum(a for a, _ in stats), "events": sum(b for _, b in stats)}))


if __name__ == "__main__":
    main()
