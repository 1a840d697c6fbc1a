"""Runs real decks and cards and records what they do for DeckTrace.tla."""
import json
import random
import sys

from common import *

import clubs
from clubs import Card, Deck


def text_cards(text):
    """The cards of a deck's text form: card texts anywhere in it."""
    out = []
    i = 0
    while i + 1 < len(text):
        if text[i] in RANKS and text[i + 1] in PRETTY:
            out.append(RANKS.index(text[i]) + 13 * PRETTY[text[i + 1]])
            i += 2
        else:
            i += 1
    return out


class Recorder:
    def __init__(self, tid):
        self.rec = {"id": tid, "tags": [], "ev": []}
        self.deck = None

    def do(self, op, call, **more):
        ev = dict(o=op, x="", **more)
        self.rec["ev"].append(ev)
        try:
            with limit(20):
                ev.update(call() or {})
        except Exception as err:
            ev["x"] = type(err).__name__
            ev["msg"] = repr(err)[:200]
            return False
        return True

    def new(self, s, r):
        def call():
            self.deck = Deck(s, r)

        return self.do("new", call, s=s, r=r)

    def draw(self, n, plain=False):
        def call():
            got = self.deck.draw() if plain else self.deck.draw(n)
            return {"cards": [card_id(x) for x in got], "len": len(self.deck)}

        return self.do("draw", call, n=n)

    def shuffle(self):
        def call():
            self.deck.shuffle()
            return {"len": len(self.deck)}

        return self.do("shuffle", call)

    def trick(self, ids):
        def call():
            cards = [Card(card_name(x)) for x in ids]
            self.deck.trick(cards)
            # the list is the caller's again
            del cards[:]
            return {"len": len(self.deck)}

        return self.do("trick", call, cards=list(ids))

    def untrick(self):
        def call():
            self.deck.untrick()
            return {"len": len(self.deck)}

        return self.do("untrick", call)

    def show(self):
        return self.do("show", lambda: {"cards": text_cards(str(self.deck))})


def histories(out, rng, part):
    """Histories of decks of all sizes."""
    sizes = [(s, r) for s in range(1, 5) for r in range(1, 14)]
    n = 0
    for _ in range(part.get("rounds", 3)):
        for s, r in sizes:
            n += 1
            rec = Recorder(f"deck-s{s}r{r}-{n}")
            ok = rec.new(s, r)
            ids = deck_ids(s, r)
            for _ in range(part.get("ops", 25)):
                if not ok:
                    break
                k = rng.random()
                if k < 0.35:
                    m = rng.choice([1, 1, 2, 3, 5, len(ids), len(ids) + 1, rng.randint(0, len(ids))])
                    ok = rec.draw(m, plain=m == 1 and rng.random() < 0.5)
                elif k < 0.6:
                    ok = rec.shuffle()
                elif k < 0.75:
                    m = rng.choice([0, 1, 2, len(ids), rng.randint(0, len(ids))])
                    top = rng.sample(ids, min(m, len(ids)))
                    ok = rec.trick(top)
                    if ok and rng.random() < 0.7:
                        ok = rec.shuffle()
                elif k < 0.82:
                    ok = rec.untrick()
                else:
                    ok = rec.show()
            out.line(rec.rec)
    # sizes which are no deck
    rec = None
    for s, r in [(0, 5), (5, 5), (2, 0), (2, 14), (0, 0), (5, 14), (-1, 13), (4, -1), (4, 26), (8, 13), (16, 2), (0, 14)]:
        rec = Recorder(f"deck-bad-s{s}r{r}")
        rec.new(s, r)
        out.line(rec.rec)


def orders(out, rng, part):
    """All orders in which a small deck comes up."""
    for s, r, tricks in [
        (1, 1, [[]]), (2, 1, [[], [25]]), (1, 3, [[], [12], [11, 10], [12, 11, 10]]),
        (4, 1, [[], [25], [51, 12]]), (2, 2, [[], [24], [25, 11], [11, 12, 24]]), (1, 4, [[], [9]]),
    ]:
        for top in tricks:
            rec = Recorder(f"orders-s{s}r{r}-{len(top)}")

            def call():
                deck = Deck(s, r)
                if top:
                    deck.trick([Card(card_name(x)) for x in top])
                seen = set()
                for _ in range(part.get("shuffles", 1200)):
                    deck.shuffle()
                    seen.add(tuple(card_id(x) for x in deck.draw(s * r)))
                return {"seen": [list(x) for x in sorted(seen)]}

            rec.do("orders", call, s=s, r=r, trick=top)
            out.line(rec.rec)


def spread(out, rng, part):
    """Which cards come up where in larger decks."""
    for s, r, m in [(4, 13, 0), (4, 13, 5), (4, 9, 0), (3, 2, 0), (2, 13, 3), (1, 13, 0), (4, 13, 51), (4, 13, 49)]:
        top = rng.sample(deck_ids(s, r), m)
        rec = Recorder(f"spread-s{s}r{r}-{m}")

        def call():
            deck = Deck(s, r)
            if top:
                deck.trick([Card(card_name(x)) for x in top])
            seen = [set() for _ in range(s * r)]
            for _ in range(part.get("shuffles", 1200)):
                deck.shuffle()
                for place, x in zip(seen, deck.draw(s * r)):
                    place.add(card_id(x))
            return {"seen": [sorted(x) for x in seen]}

        rec.do("spread", call, s=s, r=r, trick=top)
        out.line(rec.rec)


def shown(card):
    text = str(card)
    return [text[0], PRETTY[text[1]] + 1] if len(text) == 2 else [text, 0]


def cards(out, rng, part):
    # every pair of printable characters
    rec = Recorder("names")
    for a in range(32, 127):
        for b in range(32, 127):
            a_, b_ = chr(a), chr(b)

            def call():
                card = Card(a_ + b_)
                return {"rank": str(card.rank), "suit": PRETTY[card.suit] + 1, "text": shown(card), "int": int(card)}

            known = a_.upper() in RANKS and b_.upper() in SUITS
            rec.do("name", call, a=a_, b=b_)
            if not known and not rec.rec["ev"][-1]["x"]:
                continue
        out.line(rec.rec)
        rec = Recorder(f"names-{a}")
    # every card with integers
    for x in range(52):
        rec = Recorder(f"card-{card_name(x)}")
        masks = [0, 0xFF, 0xF00, 0xF000, 0x1FFF0000, 0x1FFFFFFF, 0x7FFFFFFF] + [rng.randrange(2 ** 31 - 1) for _ in range(20)]
        for m in masks:
            for n in [rng.randint(0, 20), 8, 12, 16, rng.choice([28, 29, 31, 32, 40, 64, 100])]:

                def call():
                    card = Card(card_name(x))
                    before = str(card), int(card)
                    vals = {
                        "int": whole_big(int(card)), "and": whole_big(card & m), "rand": whole_big(m & card),
                        "or": whole_big(card | m), "ror": whole_big(m | card), "shr": whole_big(card >> n),
                        "shl": whole_big((card << n) >> n) % 1024, "high": whole_big((card << n) >> (10 + n)),
                        "low": int((card << n) % 2 ** n != 0),
                    }
                    if (str(card), int(card)) != before:
                        raise AssertionError("the card has changed")
                    return vals

                rec.do("card", call, c=x, m=m, n=n)
        out.line(rec.rec)
    for x in range(52):
        rec = Recorder(f"pair-{card_name(x)}")
        for y in range(52):

            def call():
                c, d = Card(card_name(x)), Card(card_name(y))
                return {"eq": bool(c == d), "ne": bool(c != d), "and": whole_big(c & d), "or": whole_big(c | d)}

            rec.do("pair", call, c=x, d=y)
        out.line(rec.rec)
    # the cards of decks are such cards
    rec = Recorder("deck-cards")
    deck = Deck(4, 13)
    for card in deck.draw(52):
        x = card_id(card)

        def call():
            m = rng.randrange(2 ** 31 - 1)
            return {
                "m": m, "n": 8, "int": int(card), "and": card & m, "rand": m & card, "or": card | m, "ror": m | card,
                "shr": card >> 8, "shl": (card << 8) // 2 ** 8 % 1024, "high": (card << 8) >> 18,
                "low": int((card << 8) % 2 ** 8 != 0),
            }

        rec.do("card", call, c=x)
    out.line(rec.rec)


def whole_big(v):
    number = int(v)
    if number != v or not 0 <= number < 2 ** 31:
        raise TypeError(f"out of range: {v!r}")
    return number


def main():
    job = json.load(open(sys.argv[1]))
    out = Out(job["out"])
    random.seed(job["seed"])
    for number, part in enumerate(job["parts"]):
        rng = seeded(job["seed"], "decks", part["kind"], number)
        {"histories": histories, "orders": orders, "spread": spread, "cards": cards}[part["kind"]](out, rng, part)
    out.close()


if __name__ == "__main__":
    main()
