"""Shared by all drivers (run under the interpreter which has clubs)."""
import contextlib
import json
import math
import os
import random
import signal
import sys

sys.dont_write_bytecode = True

RANKS = "23456789TJQKA"
SUITS = "SHDC"
PRETTY = {"\u2660": 0, "\u2665": 1, "\u2666": 2, "\u2663": 3}
NAMES = ["sf", "fk", "fh", "fl", "st", "tk", "tp", "pa", "hc"]
UNLIMITED = 1000000


def card_name(cid):
    return RANKS[cid % 13] + SUITS[cid // 13]


def card_id(card):
    text = str(card)
    return RANKS.index(text[0]) + 13 * PRETTY[text[1]]


def deck_ids(suits, ranks):
    return [r + 13 * s for s in range(suits) for r in range(13 - ranks, 13)]


def ncr(n, r):
    if r < 0 or r > n:
        return 0
    out = 1
    for i in range(r):
        out = out * (n - i) // (i + 1)
    return out


def class_counts(s, r, k, low):
    """Hands per class, to pick configurations (the oracle is HandRank.tla)."""
    nst = 0
    if k >= 3 and r >= k:
        nst = 1 if r == k else r - k + 1 + int(low)
    fl = k >= 3 and s >= 2
    mono = s if fl else 0
    return {
        "sf": nst * s if fl else 0,
        "fl": (ncr(r, k) - nst) * s if fl else 0,
        "st": nst * (s ** k - mono),
        "hc": (ncr(r, k) - nst) * (s ** k - mono),
        "fk": r * ncr(s, 4) * ncr(r - 1, k - 4) * s ** (k - 4) if k >= 4 else 0,
        "fh": r * ncr(s, 3) * (r - 1) * ncr(s, 2) if k >= 5 else 0,
        "tk": r * ncr(s, 3) * ncr(r - 1, k - 3) * s ** (k - 3) if k >= 3 else 0,
        "tp": ncr(r, 2) * ncr(s, 2) ** 2 * ncr(r - 2, k - 4) * s ** (k - 4)
        if k >= 4
        else 0,
        "pa": r * ncr(s, 2) * ncr(r - 1, k - 2) * s ** (k - 2) if k >= 2 else 0,
    }


def plain_order(s, r, k, low):
    """The default class order is not in question: no two classes equally
    frequent, and not one of the three-suit decks of the known finding."""
    counts = [v for v in class_counts(s, r, k, low).values() if v]
    return len(set(counts)) == len(counts) and not (s == 3 and k >= 4)


def whole(value, unit=1):
    """An integer of JSON, from whatever integral number the code returns;
    in units, of which no fraction is ever due."""
    number = int(value)
    if number != value:
        raise TypeError(f"not a whole number: {value!r}")
    if number % unit:
        return -77777777
    number //= unit
    if abs(number) > 10 ** 8:
        raise TypeError(f"out of range: {value!r}")
    return number


class Out:
    def __init__(self, path):
        self.file = open(path, "w")

    def line(self, obj):
        self.file.write(json.dumps(obj, separators=(",", ":")) + "\n")

    def close(self):
        self.file.close()


def seeded(*parts):
    return random.Random("/".join(str(p) for p in parts))


class Stuck(Exception):
    """A call of the code under test took too long."""


def _stuck(signum, frame):
    raise Stuck("call did not return in time")


@contextlib.contextmanager
def limit(seconds):
    signal.signal(signal.SIGALRM, _stuck)
    signal.alarm(seconds)
    try:
        yield
    finally:
        signal.alarm(0)


# ------------------------------------------------------------------- bets
MOST = 1 << 30


def eighths(bet):
    """A bet in eighths of a chip, as the specification counts; bets beyond
    anything a table holds (infinity, too) are all the same number."""
    if bet * 8 >= MOST:
        return MOST
    if bet * 8 <= -MOST:
        return -MOST
    if bet * 8 == int(bet * 8):
        return int(bet * 8)
    # how near it is to whole numbers of chips is decided by the half chips it lies between
    return 4 * math.floor(bet * 2) + 2


def chips_of(x):
    """the bet of so many eighths"""
    if abs(x) >= MOST:
        return float("inf") if x > 0 else float("-inf")
    return x / 8 if x % 8 else x // 8
