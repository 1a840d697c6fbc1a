"""Evaluates hands with the real Evaluator and records the ranks for
HandTrace.tla: one line per evaluator, rows sorted by rank."""
import itertools
import json
import re
import sys

from common import *

import clubs
from clubs import poker

CARDS = {x: clubs.Card(card_name(x)) for x in range(52)}
WORDS = {
    "straight flush": 1,
    "four of a kind": 2,
    "full house": 3,
    "flush": 4,
    "straight": 5,
    "three of a kind": 6,
    "two pair": 7,
    "pair": 8,
    "high card": 9,
}
MAXRANK = 10 ** 8


def listing(text):
    """[class id, share in millionths] for what the text form lists"""
    out = []
    for part in text.split(" > "):
        m = re.match(r"^(.*) \(([\d.]+)%\)$", part)
        whole_part, _, frac = m.group(2).partition(".")
        out.append([WORDS.get(m.group(1), 0), int(whole_part + (frac + "0000")[:4])])
    return out


class Subject:
    """One real evaluator and what is recorded of it."""

    def __init__(self, eid, s, r, k, low, order=None, mand=0, tags=()):
        self.s, self.r, self.k, self.low, self.mand = s, r, k, low, mand
        self.ids = deck_ids(s, r)
        self.rows = {}
        self.rec = {
            "id": eid,
            "tags": list(tags),
            "cfg": dict(suits=s, ranks=r, k=k, low=low, ord=list(range(1, 10)), mand=0),
            "custom": order is not None,
            "list": False,
            "listed": [],
            "text": "",
            "complete": False,
            "kinds": 0,
            "refused": [],
            "rows": [],
        }
        self.order = order
        names = [NAMES[i - 1] for i in order] if order else None
        kwargs = {}
        if names is not None:
            kwargs["order"] = names
        # optional arguments are left out where they have their documented defaults
        if not low or (s + r + k) % 3:
            kwargs["low_end_straight"] = low
        args = [mand] if mand or (r + k) % 2 else []
        with limit(60):
            self.ev = poker.Evaluator(s, r, k, *args, **kwargs)
            # the table does not depend on the mandatory hole cards
            self.single = poker.Evaluator(s, r, k, **kwargs) if mand else self.ev
        try:
            self.rec["text"] = str(self.ev)
            self.rec["listed"] = listing(self.rec["text"])
            self.rec["list"] = True
            seen = [x for x, _ in self.rec["listed"] if x]
            rest = [x for x in range(1, 10) if x not in seen]
            self.rec["cfg"]["ord"] = list(order) if order else list(dict.fromkeys(seen)) + rest
        except Exception as err:
            self.refuse("C17", type(err).__name__, "")

    def refuse(self, pid, got, want):
        self.rec["refused"].append([pid, got, want])

    def take(self, hole, board, mand=0, key=None):
        ev = self.ev if mand else self.single
        h = [CARDS[x] for x in hole]
        b = [CARDS[x] for x in board]
        hh, bb = list(h), list(b)
        pid = "C15" if len(h) + len(b) == self.k else "C16"
        try:
            with limit(30):
                rank = whole(ev.evaluate(h, b))
        except Exception as err:
            self.refuse(pid, type(err).__name__, "")
            return None
        if h != hh or b != bb:
            self.refuse("C16", "cards changed by evaluating", "")
        name = 0
        try:
            name = WORDS.get(ev.get_rank_class(rank), 0)
        except Exception:
            pass
        if key is None:
            key = (tuple(hole), tuple(board), mand)
        row = (key, rank, name)
        if row not in self.rows:
            self.rows[row] = {"h": list(hole), "b": list(board), "m": mand, "r": max(-1, rank), "c": name}
        return rank

    # single hands: the ranks they hold and whether they are of one suit
    # are all that may matter
    def hand(self, ids, rng=None):
        ids = list(ids)
        cut = len(ids)
        if rng is not None:
            rng.shuffle(ids)
            cut = rng.randint(0, len(ids))
        flush = self.k >= 3 and self.s >= 2 and len({x // 13 for x in ids}) == 1
        return self.take(ids[:cut], ids[cut:], 0, (tuple(sorted(x % 13 for x in ids)), flush))

    def patterns(self, rng, times=1):
        """a hand of every kind"""
        lo = 13 - self.r
        for ranks in itertools.combinations_with_replacement(range(lo, 13), self.k):
            count = max(ranks.count(x) for x in ranks)
            if count > self.s:
                continue
            for _ in range(times):
                if count == 1:
                    suit = rng.randrange(self.s)
                    if self.s == 1 or self.k >= 3:
                        self.hand([x + 13 * suit for x in ranks], rng)
                    if self.s > 1:
                        while True:
                            suits = [rng.randrange(self.s) for _ in ranks]
                            if self.k < 3 or len(set(suits)) > 1:
                                break
                        self.hand([x + 13 * y for x, y in zip(ranks, suits)], rng)
                else:
                    ids = []
                    for x in sorted(set(ranks)):
                        ids += [x + 13 * y for y in rng.sample(range(self.s), ranks.count(x))]
                    self.hand(ids, rng)
        self.rec["complete"] = True

    def every(self):
        """all hands"""
        n = 0
        for ids in itertools.combinations(self.ids, self.k):
            self.hand(ids)
            n += 1
        self.rec["complete"] = True
        return n

    def choices(self, rng, count):
        """hole and board cards which leave a choice"""
        for _ in range(count):
            m = self.mand
            if m:
                nh = rng.randint(m, min(m + 3, len(self.ids)))
                need = self.k - m
                room = len(self.ids) - nh
                if room < need:
                    continue
                nb = rng.randint(need, min(room, need + 3))
            else:
                total = rng.randint(self.k, min(self.k + 3, len(self.ids)))
                nh = rng.randint(0, total)
                nb = total - nh
            # cards near each other in rank make more hands of value
            if rng.random() < 0.5:
                pool = sorted(self.ids, key=lambda x: (x % 13) + rng.random() * 4)
                at = rng.randrange(max(1, len(pool) - (nh + nb) + 1))
                pool = pool[at : at + nh + nb]
                if rng.random() < 0.4:
                    pool = sorted(self.ids, key=lambda x: (x // 13 * 13) + rng.random() * 20)[: nh + nb]
                rng.shuffle(pool)
                got = pool
            else:
                got = rng.sample(self.ids, nh + nb)
            hole, board = got[:nh], got[nh:]
            key = (tuple(sorted(hole)), tuple(sorted(board)), m)
            self.take(hole, board, m, key)
            rng.shuffle(hole)
            rng.shuffle(board)
            self.take(hole, board, m, key)
            if m == 0 and rng.random() < 0.5:
                # which of them are hole cards does not matter then
                both = hole + board
                rng.shuffle(both)
                cut = rng.randint(0, len(both))
                self.take(both[:cut], both[cut:], 0, key)

    def outside(self):
        """ranks which no hand has"""
        worst = max([r for _, r, _ in self.rows] or [0])
        for rank in (-1, -17, worst + 2, worst + 1000, 10 ** 7):
            try:
                self.ev.get_rank_class(rank)
                got = ""
            except Exception as err:
                got = type(err).__name__
            self.refuse("C17", got, "InvalidHandRankError")

    def line(self, out):
        rows = sorted(self.rows.values(), key=lambda x: x["r"])
        self.rec["rows"] = rows
        # different hands, by kind, for the completeness count
        kinds = {key for key, _, _ in self.rows if len(key) == 2}
        self.rec["kinds"] = len(kinds) if self.rec["complete"] else 0
        out.line(self.rec)
        return len(rows)


def bad_orders(rng, out, count):
    rec = Subject("orders", 1, 1, 1, True).rec
    good = list(NAMES)
    for i in range(count):
        order = list(good)
        rng.shuffle(order)
        kind = i % 6
        if kind == 0:
            order.pop()
        elif kind == 1:
            order[rng.randrange(9)] = order[rng.randrange(8) - 9]
            if len(set(order)) == 9:
                order[0] = order[1]
        elif kind == 2:
            order[rng.randrange(9)] = rng.choice(["xx", "", "SF", "royal"])
        elif kind == 3:
            order.append(rng.choice(good))
        elif kind == 4:
            order = order[: rng.randrange(8)]
        s, r, k = rng.randint(1, 4), rng.randint(5, 13), rng.randint(1, 5)
        try:
            poker.Evaluator(s, r, k, 0, order=order)
            got = ""
        except Exception as err:
            got = type(err).__name__
        want = "InvalidOrderError" if sorted(order) != sorted(good) else ""
        rec["refused"].append(["C17", got, want])
    out.line(rec)


def make(out, eid, s, r, k, low, order, mand, tags, work):
    """one evaluator; a failure to build it is recorded as well"""
    try:
        sub = Subject(eid, s, r, k, low, order, mand, tags)
    except Exception as err:
        sub = Subject.__new__(Subject)
        sub.rows = {}
        sub.rec = {
            "id": eid, "tags": list(tags), "custom": False, "list": False, "listed": [], "text": "",
            "cfg": dict(suits=s, ranks=r, k=k, low=low, ord=list(range(1, 10)), mand=0),
            "complete": False, "kinds": 0, "rows": [],
            "refused": [[p, type(err).__name__ + ": " + str(err)[:100], ""] for p in ("C15", "C16", "C17")],
        }
        out.line(sub.rec)
        return 0
    work(sub)
    if not eid.startswith("s") and s == 3 and k >= 4:
        # the listing of these decks is a known finding, reported where all
        # decks are listed
        sub.rec["list"] = False
    return sub.line(out)


def main():
    job = json.load(open(sys.argv[1]))
    out = Out(job["out"])
    seed = job["seed"]
    stats = {"evaluators": 0, "rows": 0, "hands": 0}

    def one(eid, s, r, k, low, order, mand, work):
        stats["rows"] += make(out, eid, s, r, k, low, order, mand, job.get("tags", []), work)
        stats["evaluators"] += 1

    for part in job["parts"]:
        kind = part["kind"]
        share = part.get("share", 1.0)
        if kind in ("all", "every", "list"):
            for s in range(1, 5):
                for r in range(1, 14):
                    for k in range(1, 6):
                        for low in (True, False):
                            if s * r < k or (s * r) < part.get("from", 0) or s * r > part.get("upto", 52):
                                continue
                            rng = seeded(seed, kind, s, r, k, low)
                            if rng.random() >= share and not part.get("keep") == [s, r, k]:
                                continue

                            def work(sub):
                                if kind == "list":
                                    return
                                if kind == "all":
                                    sub.patterns(rng, part.get("times", 1))
                                else:
                                    stats["hands"] += sub.every()
                                sub.outside()

                            one(f"s{s}r{r}k{k}{'low' if low else 'nolow'}", s, r, k, low, None, 0, work)
        elif kind == "custom":
            for i in range(part["count"]):
                rng = seeded(seed, kind, i)
                while True:
                    s, r, k = rng.randint(1, 4), rng.randint(1, part.get("ranks", 9)), rng.randint(1, 5)
                    if s * r >= k:
                        break
                order = list(range(1, 10))
                rng.shuffle(order)
                low = rng.random() < 0.5

                def work(sub):
                    sub.patterns(rng)
                    sub.outside()

                one(f"custom-{i}", s, r, k, low, order, 0, work)
            bad_orders(seeded(seed, "bad"), out, part["count"])
        elif kind == "choice":
            for i in range(part["count"]):
                rng = seeded(seed, kind, i)
                while True:
                    s, r, k = rng.randint(1, 4), rng.randint(1, 13), rng.randint(1, 5)
                    if rng.random() < 0.3:
                        s, r, k = 4, rng.choice([9, 13]), 5
                    if s * r >= k:
                        break
                mand = rng.choice([0, 0] + list(range(k + 1)))
                order = None
                if rng.random() < 0.2:
                    order = list(range(1, 10))
                    rng.shuffle(order)

                def work(sub):
                    sub.choices(rng, part.get("deals", 60))
                    if s * r <= 20:
                        sub.patterns(rng)
                    else:
                        for _ in range(part.get("singles", 150)):
                            sub.hand(rng.sample(sub.ids, k), rng)

                one(f"choice-{i}", s, r, k, rng.random() < 0.6, order, mand, work)
    out.close()
    print(json.dumps(stats))


if __name__ == "__main__":
    main()
