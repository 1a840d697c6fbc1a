"""Replays what DealerGen.tla generated: for each state of the small table the
way to it, and every bet with the outcome the specification prescribes.

Each outcome is compared here, value by value; what differs is recorded as a
trace, which DealerTrace.tla then judges.
"""
import json
import sys

from table import *

LIMIT = 60  # differing transitions recorded


def expected(out, deck, cfg):
    """outcome of the specification in the form of the recorded events"""
    _, a, st, act, com, pot, call, mn, mx, pay, done, nboard = out
    over = a < 0
    nh, n = cfg["nh"], cfg["n"]
    ob = {"a": a, "act": [bool(x) for x in act], "st": st, "pot": pot, "call": call, "mn": mn, "mx": mx}
    if not over:
        ob["com"] = com
        nb = cfg["nc"][0]
        ob["hc"] = deck[nb + a * nh : nb + (a + 1) * nh]
    if nboard >= 0:
        nb = cfg["nc"][0]
        later = deck[nb + n * nh :]
        ob["cc"] = deck[:nb] + later[: nboard - nb]
    return ob, pay, [bool(x) for x in done]


def deal(dealer, gen, cfg):
    for i in range(gen["b"]):
        dealer.reset(reset_button=i == 0, reset_stacks=True)
    for i, x in enumerate(gen["st"]):
        dealer.stacks[i] = x
    dealer.deck.trick(gen["_deck"])
    return dealer.reset()


def record(tid, cfg, gen, bets):
    tab = Table(tid, cfg)
    for i in range(gen["b"]):
        tab.reset(rb=i == 0, rs=True)
    tab.chips(gen["st"])
    tab.reset(deck=gen["deck"])
    for bet in bets:
        if tab.broken:
            break
        tab.step(chips_of(bet))
    return tab.rec


def main():
    src, dst, name = sys.argv[1:4]
    cfg = None
    gens = []
    for line in open(src):
        line = line.rstrip("\n")
        if line.startswith('"GEN '):
            gens.append(json.loads(json.loads(line)[4:]))
        elif line.startswith('"CFG '):
            cfg = json.loads(json.loads(line)[4:])
    out = Out(dst)
    stats = {"states": len(gens), "transitions": 0, "differ": 0}
    card_of = {}
    dealer = None
    for number, gen in enumerate(gens):
        deck = gen["deck"]
        for x in deck:
            if x not in card_of:
                card_of[x] = clubs.Card(card_name(x))
        gen["_deck"] = [card_of[x] for x in deck]
        for o in gen["out"]:
            stats["transitions"] += 1
            ok = False
            try:
                with limit(20):
                    if dealer is None:
                        dealer = clubs.poker.Dealer(**kwargs_of(cfg))
                    deal(dealer, gen, cfg)
                    for bet in gen["path"]:
                        dealer.step(chips_of(bet))
                    obs, pay, done = dealer.step(chips_of(o[0]))
                    eob, epay, edone = expected(o, deck, cfg)
                    ob = canon(obs)
                    ok = (
                        all(ob[k] == v for k, v in eob.items())
                        and [whole(x) for x in pay] == epay
                        and [bool(x) for x in done] == edone
                    )
            except Exception:
                dealer = None
            if not ok:
                stats["differ"] += 1
                if stats["differ"] <= LIMIT:
                    out.line(record(f"{name}-{number}", cfg, gen, gen["path"] + [o[0]]))
        if stats["differ"] > 50 * LIMIT:
            break
    # a few behaviours that agreed go through the trace specification as well
    step = max(1, len(gens) // 40)
    for number in range(0, len(gens), step):
        gen = gens[number]
        out.line(record(f"{name}-{number}", cfg, gen, gen["path"] + [gen["out"][0][0]]))
    out.close()
    print(json.dumps(stats))


if __name__ == "__main__":
    main()
