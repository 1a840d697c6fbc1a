"""Builds real tables from all spellings which ConfigGen.tla enumerates and
records what happens for ConfigTrace.tla."""
import copy
import json
import random
import sys

from table import *
from clubs import poker


def value(x):
    if x in ("inf", "pot", "half", "Pot", "INF", "", "bad"):
        return x
    if x == "float inf":
        return float("inf")
    if x == "none":
        return None
    if x == "2.5":
        return 2.5
    return int(x)


def spelled(f):
    vals = [value(x) for x in f["v"]]
    return vals[0] if f["one"] else vals


def arguments(g):
    args = dict(
        num_players=g["n"],
        num_streets=g["ns"],
        blinds=spelled(g["blinds"]),
        antes=spelled(g["antes"]),
        raise_sizes=spelled(g["rs"]),
        num_raises=spelled(g["nr"]),
        num_suits=g["suits"],
        num_ranks=g["ranks"],
        num_hole_cards=g["nh"],
        num_community_cards=spelled(g["nc"]),
        num_cards_for_hand=g["k"],
        mandatory_num_hole_cards=g["mand"],
        start_stack=g["start"],
        low_end_straight=g["low"],
        order=list(g["ord"]) or None,
    )
    if g["nolow"]:
        del args["low_end_straight"]
    if g["noord"]:
        del args["order"]
    return args


def played(seed, cfg, kwargs):
    """A few hands, the same whenever the table does the same."""
    random.seed(seed)
    tab = Table("x", cfg, kwargs=kwargs)
    play(tab, seeded(seed), {"chips": 0.3, "refill": 0.4, "early": 0, "known": 0.8}, 3)
    return tab.rec["ev"] + [str(getattr(tab.dealer, "evaluator", ""))]


def spellings(out, seed, part):
    gens = []
    for line in open(part["path"]):
        if line.startswith('"GEN '):
            gens.append(json.loads(json.loads(line)[4:]))
    rng = seeded(seed, "spellings")
    rng.shuffle(gens)
    gens = gens[: part.get("count", len(gens))]
    ev = []
    stats = {"built": 0, "refused": 0, "played": 0}
    for number, gen in enumerate(gens):
        kwargs = arguments(gen["g"])
        before = repr(sorted(kwargs.items()))
        e = {"o": "build", "g": gen["g"], "x": "", "kept": True}
        try:
            with limit(30):
                clubs.poker.Dealer(**kwargs)
            stats["built"] += 1
        except Exception as err:
            e["x"] = type(err).__name__
            e["msg"] = str(err)[:200]
            stats["refused"] += 1
        e["kept"] = repr(sorted(kwargs.items())) == before
        ev.append(e)
        if gen["play"] and not e["x"]:
            cfg = gen["cfg"][0]
            stats["played"] += 1
            e = {"o": "play", "g": gen["g"], "cfg": cfg, "ok": False, "kept": True}
            try:
                one = played(number, cfg, kwargs)
                e["kept"] = repr(sorted(kwargs.items())) == before
                two = played(number, cfg, kwargs_of(cfg))
                e["ok"] = one == two
                # and a second table from the same arguments
                e["ok"] = e["ok"] and played(number, cfg, kwargs) == two
                if not e["ok"]:
                    e["differ"] = next(([x, y] for x, y in zip(one, two) if x != y), None)
            except Exception as err:
                e["msg"] = repr(err)[:200]
            ev.append(e)
        if len(ev) >= 40:
            out.line({"id": f"spellings-{number}", "ev": ev})
            ev = []
    if ev:
        out.line({"id": "spellings-last", "ev": ev})
    return stats


def games(out, seed, part):
    for name in sorted(x for x in dir(configs) if x.isupper()):
        kw = getattr(configs, name)
        if not isinstance(kw, dict) or "num_players" not in kw:
            continue
        ev = []
        before = copy.deepcopy(kw)
        ev.append({"o": "game", "words": name.split("_"), "cfg": spec_of(kw)})
        rng = seeded(seed, name)
        for i in range(part.get("per_shipped", 4)):
            e = {"o": "fact", "id": "C21", "ok": False, "what": "played to the end"}
            ev.append(e)
            tab = Table(name, spec_of(kw), kwargs=kw)
            for hand in range(part.get("hands", 5)):
                tab.reset(rs=hand == 0 or rng.random() < 0.5)
                if tab.rec["ev"][-1]["x"] == "TooFewActivePlayersError":
                    tab.reset(rs=True)
                w = STYLES[rng.choice(sorted(STYLES))]
                count = 0
                while not tab.done and not tab.broken and count < 1000:
                    tab.step(random_bet(rng, tab.ob, w))
                    count += 1
            e["ok"] = tab.done and not tab.broken
            if not e["ok"]:
                e["last"] = tab.rec["ev"][-1].get("msg", "")
        ev.append({"o": "fact", "id": "C21", "ok": kw == before, "what": "configuration unchanged"})
        out.line({"id": name, "ev": ev})
    # hand sizes of evaluators
    ev = []
    for k in range(-2, 10):
        e = {"o": "hand", "k": k, "x": ""}
        try:
            poker.Evaluator(4, 13, k)
        except Exception as err:
            e["x"] = type(err).__name__
        ev.append(e)
    out.line({"id": "hand sizes", "ev": ev})


def main():
    job = json.load(open(sys.argv[1]))
    out = Out(job["out"])
    stats = {}
    for part in job["parts"]:
        if part["kind"] == "spellings":
            stats = spellings(out, job["seed"], part)
        else:
            games(out, job["seed"], part)
    out.close()
    print(json.dumps(stats))


if __name__ == "__main__":
    main()
