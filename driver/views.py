"""Reads the text form of a table back: what a person sees on the screen."""
import re

from common import PRETTY, RANKS

CARD = r"(?:[2-9TJQKA][\u2660\u2665\u2666\u2663]|\?\?|--)"
NAME = r"[2-9TJQKA][\u2660\u2665\u2666\u2663]"
SEAT = re.compile(r"(\d{1,2})\. (%s(?:,%s)*) (-?[\d,]+)" % (CARD, CARD))
BORDERS = "/\\|"


def amount(text):
    return int(text.replace(",", ""))


def card(text):
    """card number; -1 face down, -2 blank"""
    if text == "??":
        return -1
    if text == "--":
        return -2
    return RANKS.index(text[0]) + 13 * PRETTY[text[1]]


def cards(text):
    return [card(x) for x in text.split(",")] if text else []


def parse(text):
    lines = text.rstrip("\n").split("\n")
    top = next(i for i, x in enumerate(lines) if set(x.strip()) == {"_"})
    body = lines[top + 1 :]
    seats = {}  # place around the table, clockwise from the top left -> seat
    board = None
    pot = None
    used = 0
    row = 0
    i = 0
    while i < len(body):
        line = body[i]
        if "[" in line:
            m = re.search(r"\[(.*?)\]\s*(-?[\d,]+)\s*\|\s*$", line)
            board, pot = cards(m.group(1)), amount(m.group(2))
            i += 1
            continue
        stripped = line.strip()
        if set(stripped) <= set(BORDERS + "_ "):
            # empty row of the table, or a row of seats nobody sits at
            if "_" in stripped:
                i += 1
                used = i
                break
        found = list(SEAT.finditer(line))
        nxt = body[i + 1] if i + 1 < len(body) else ""
        if not found:
            i += 1
            continue
        left_border = len(line) - len(line.lstrip())
        places = {}
        for m in found:
            # the left place starts right behind the border
            side = "L" if m.start() <= left_border + 5 else "R"
            if side in places:
                raise ValueError("two players at one place: " + line)
            places[side] = m
        row = i
        inner_from = len(nxt) - len(nxt.lstrip())
        inner_to = len(nxt.rstrip()) - 1
        if nxt[inner_from] not in BORDERS or nxt[inner_to] not in BORDERS:
            raise ValueError("no border: " + nxt)
        mid = (inner_from + inner_to) / 2
        tokens = {"L": [], "R": []}
        for m in re.finditer(r"\S+", nxt[inner_from + 1 : inner_to]):
            col = inner_from + 1 + m.start()
            tokens["L" if col < mid else "R"].append(m.group(0))
        for side in "LR":
            if side not in places:
                if tokens[side]:
                    raise ValueError("marks without a player: " + nxt)
                continue
            m = places[side]
            marks = [x for x in tokens[side] if x in ("D", "X", "A")]
            numbers = [x for x in tokens[side] if x not in ("D", "X", "A")]
            if len(numbers) != 1 or len(set(marks)) != len(marks):
                raise ValueError("cannot read: " + nxt)
            seats[(side, row)] = {
                "num": int(m.group(1)),
                "st": amount(m.group(3)),
                "amt": amount(numbers[0]),
                "but": "D" in marks,
                "mark": "".join(x for x in marks if x != "D"),
                "cards": cards(m.group(2)),
            }
        i += 2
    foot = [x.strip() for x in body[used:] if x.strip()]
    foot = " / ".join(foot)
    actor = re.search(r"Action on Player (-?\d+)", foot)
    last = re.search(r"Player (-?\d+) (folded|checked|bet)(?: (-?[\d.]+))?", foot)
    won = re.search(r"Players? ([\d, -]*) ?won ([\d, -]*)", foot)
    win = []
    if won:
        who = [int(x) for x in won.group(1).split(",") if x.strip()]
        what = [int(x) for x in won.group(2).split(",") if x.strip()]
        if len(who) != len(what) or (len(who) > 1) != ("respectively" in foot):
            raise ValueError("winners: " + foot)
        win = [list(x) for x in zip(who, what)]
    right = sorted((k for k in seats if k[0] == "R"), key=lambda k: k[1])
    left = sorted((k for k in seats if k[0] == "L"), key=lambda k: k[1])
    # clockwise from the top left place: first row left, right side down,
    # left side up
    around = [k for k in left if k[1] == left[0][1]] + right
    around += [k for k in reversed(left) if k not in around]
    # cards written anywhere else than on the board and at the seats
    more = [card(x) for x in re.findall(NAME, text)]
    for x in (board or []) + [x for q in seats.values() for x in q["cards"]]:
        if x in more:
            more.remove(x)
    return {
        "seats": [seats[k] for k in around],
        "more": more,
        "board": board if board is not None else [],
        "pot": pot if pot is not None else -1,
        "actor": int(actor.group(1)) if actor else 0,
        "last": [int(last.group(1)), last.group(2), int(last.group(3) or 0)] if last else [],
        "win": win,
    }
