"""Runs tables, decks and evaluators alone and side by side and records both
for TwinTrace.tla (C23)."""
import gc
import json
import os
import random
import subprocess
import sys
import traceback

from table import *
from clubs import poker


def text(ev):
    ev = {k: v for k, v in ev.items() if k != "msg"}
    return json.dumps(ev, sort_keys=True, separators=(",", ":"))


# ------------------------------------------------------------ the objects
# each is a generator making one call at a time and yielding its result


def table_object(what, seed):
    rng = random.Random(seed)
    cfg, kwargs = what["cfg"], what["kwargs"]
    tab = what["it"] = Table("t", cfg, kwargs=kwargs)
    yield "built"
    known = what.get("known", True)
    looks = known is True and what.get("looks", True)
    for hand in range(what["hands"]):
        kind = rng.random()
        if hand and kind < 0.3:
            tab.chips(stacks_for(rng, cfg))
            yield "chips"
        deck = random_deck(rng, cfg) if known else ()
        if known == "partly":
            deck = deck[: rng.randint(0, len(deck))]
        tab.reset(rng.random() < 0.1, kind > 0.8, deck)
        yield text(tab.rec["ev"][-1])
        if tab.broken:
            return
        if tab.rec["ev"][-1]["x"]:
            tab.reset(False, True, deck)
            yield text(tab.rec["ev"][-1])
        w = STYLES[rng.choice(sorted(STYLES))]
        count = 0
        while not tab.done and not tab.broken and count < 60:
            count += 1
            tab.step(random_bet(rng, tab.ob, w))
            yield text(tab.rec["ev"][-1])
            if tab.broken:
                return
            if looks and rng.random() < 0.15:
                tab.view("str")
                yield tab.rec["ev"][-1].get("text", tab.rec["ev"][-1]["x"])
            if looks and not tab.done and rng.random() < 0.1 and fills(cfg, tab.ob) <= 60:
                tab.win()
                yield text(tab.rec["ev"][-1])
            if rng.random() < 0.05:
                break
        if tab.done:
            tab.step(rng.choice([0, 5, -1]))
            yield text(tab.rec["ev"][-1])
        tab.frozen()
        yield text(tab.rec["ev"][-1])


def deck_object(what, seed):
    rng = random.Random(seed)
    s, r = what["s"], what["r"]
    deck = what["it"] = clubs.Deck(s, r)
    yield "built"
    ids = deck_ids(s, r)
    for _ in range(what["ops"]):
        top = rng.sample(ids, rng.randint(1, len(ids)))
        deck.trick([clubs.Card(card_name(x)) for x in top])
        yield str(len(deck))
        deck.shuffle()
        left = len(top)
        yield str(len(deck))
        while left and rng.random() < 0.8:
            n = rng.randint(1, left)
            left -= n
            yield json.dumps([card_id(x) for x in deck.draw(n)])
        if rng.random() < 0.3:
            deck.untrick()
            deck.shuffle()
            yield str(len(deck))
            n = rng.randint(0, len(ids))
            deck.draw(n)
            yield str(len(deck))
            yield json.dumps(sorted(card_id(x) for x in deck.draw(52)) if n == 0 else [])


def evaluator_object(what, seed):
    rng = random.Random(seed)
    names = [NAMES[i - 1] for i in what["order"]] if what["order"] else None
    ev = what["it"] = poker.Evaluator(what["s"], what["r"], what["k"], what["mand"], low_end_straight=what["low"], order=names)
    yield "built" if what.get("quiet") else str(ev)
    ids = deck_ids(what["s"], what["r"])
    k, mand = what["k"], what["mand"]
    for _ in range(what["ops"]):
        got = rng.sample(ids, min(len(ids), k + 2))
        cut = max(mand, min(rng.randint(0, len(got)), len(got) - (k - mand)))
        cards = [clubs.Card(card_name(x)) for x in got]
        rank = ev.evaluate(cards[:cut], cards[cut:])
        yield f"{rank} {ev.get_rank_class(rank)}"
    yield str(ev)


def open_deck_object(what, seed):
    """all the cards of a deck, wherever they come from"""
    rng = random.Random(seed)
    s, r = what["s"], what["r"]
    deck = what["it"] = clubs.Deck(s, r)
    yield "built"
    ids = deck_ids(s, r)
    for _ in range(what["ops"]):
        if rng.random() < 0.6:
            top = rng.sample(ids, rng.randint(0, len(ids)))
            deck.trick([clubs.Card(card_name(x)) for x in top])
        elif rng.random() < 0.5:
            deck.untrick()
        if rng.random() < 0.8:
            deck.shuffle()
        for _ in range(rng.randint(1, 3)):
            yield json.dumps([card_id(x) for x in deck.draw(rng.randint(0, len(ids)))])
        if not what.get("quiet"):
            yield str(deck)


KINDS = {"open": open_deck_object, "table": table_object, "deck": deck_object, "evaluator": evaluator_object}


def start(what, seed):
    return KINDS[what["kind"]](what, seed)


def advance(gen, results):
    """one call; False when there is nothing left to do"""
    try:
        with limit(60):
            results.append(next(gen))
        return True
    except StopIteration:
        return False
    except Exception as err:
        results.append("raised " + type(err).__name__)
        gen.close()
        return False


def alone(what, seed):
    results = []
    gen = start(what, seed)
    while advance(gen, results):
        pass
    return results


def together(whats, seeds, schedule, pace):
    """Interleave the objects; the calls of each in the order of schedule."""
    gens = [start(w, s) for w, s in zip(whats, seeds)]
    open_ = [True] * len(gens)
    log = []

    def move(i, count):
        for _ in range(count):
            if not open_[i]:
                return
            results = []
            open_[i] = advance(gens[i], results)
            for res in results:
                log.append({"o": i + 1, "res": res})
                if res.startswith("raised "):
                    open_[i] = False

    rng = random.Random(pace)
    for o in schedule:
        move((o - 1) % len(gens), rng.choice([1, 1, 2, 3, 6]))
    while any(open_):
        move(rng.randrange(len(gens)), 1)
    return log


def child(work):
    """The result of work() in a process of its own."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            with os.fdopen(w, "w") as f:
                json.dump(work(), f)
        except BaseException:
            traceback.print_exc()
            sys.stderr.flush()
            code = 1
        os._exit(code)
    os.close(w)
    with os.fdopen(r) as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    if status:
        raise RuntimeError("child failed")
    return json.loads(data)


# ---------------------------------------------------------------- groups


SHIPPED = [x for x in sorted(dir(configs)) if x.isupper() and isinstance(getattr(configs, x), dict)
           and "num_players" in getattr(configs, x)]


def some_table(rng, like=None):
    if like and rng.random() < 0.6:
        # the same arguments, the very same objects
        return dict(like, hands=rng.randint(1, 3))
    if rng.random() < 0.35:
        kw = getattr(configs, rng.choice(SHIPPED))
        return dict(kind="table", cfg=spec_of(kw), kwargs=kw, hands=rng.randint(1, 3))
    cfg = random_config(rng, {"style": [[3, "rank"], [2, "best"], [2, "pair"], [3, "small"], [2, "tiny"], [1, "holdem"]]})
    return dict(kind="table", cfg=cfg, kwargs=kwargs_of(cfg), hands=rng.randint(1, 3))


def some_evaluator(rng, like=None):
    if like:
        out = dict(like)
        flip = rng.randrange(4)
        if flip == 0:
            out["low"] = not out["low"]
        elif flip == 1:
            out["order"] = rng.sample(range(1, 10), 9)
        elif flip == 2:
            out["mand"] = rng.randint(0, out["k"])
        return out
    while True:
        s, r, k = rng.randint(1, 4), rng.randint(1, 13), rng.randint(1, 5)
        if s * r >= k:
            break
    order = rng.sample(range(1, 10), 9) if rng.random() < 0.3 else None
    return dict(kind="evaluator", s=s, r=r, k=k, low=rng.random() < 0.5, order=order, mand=rng.choice([0, 0, rng.randint(0, k)]),
                ops=rng.randint(3, 15))


def some_deck(rng, like=None):
    if like:
        return dict(like)
    return dict(kind="deck", s=rng.randint(1, 4), r=rng.randint(1, 13), ops=rng.randint(1, 4))


def group(rng, size):
    out = []
    kind = rng.choice(["table", "table", "mixed", "mixed", "evaluator", "deck"])
    make = {"table": some_table, "evaluator": some_evaluator, "deck": some_deck}
    for i in range(size):
        mine = kind if kind != "mixed" else rng.choice(["table", "table", "evaluator", "deck"])
        like = next((x for x in reversed(out) if x["kind"] == mine), None)
        out.append(make[mine](rng, like if rng.random() < 0.75 else None))
    return out


def interleaved(seed, sched, number):
    rng = seeded(seed, "group", number)
    size = max(sched)
    whats = group(rng, size)
    seeds = [rng.randrange(10 ** 9) for _ in whats]
    one = [child(lambda w=w, s=s: alone(w, s)) for w, s in zip(whats, seeds)]
    log = child(lambda: together(whats, seeds, sched, number))
    return {"id": f"group-{number}", "tags": [], "objects": [w["kind"] for w in whats], "alone": one, "ev": log}


def seeded_run(seed, number):
    """Tables with unknown cards, all randomness from one seed."""
    rng = seeded(seed, "repeat", number)
    whats = []
    for _ in range(rng.randint(1, 3)):
        if rng.random() < 0.3:
            whats.append(dict(some_deck(rng), kind="open"))
        else:
            whats.append(dict(some_table(rng), known=rng.choice([False, False, "partly"])))
    random.seed(number)
    return together(whats, [rng.randrange(10 ** 9) for _ in whats], [1, 2, 3] * 3 if len(whats) == 3 else [1], number)


def repeated(seed, number):
    """The same again: in another process, twice in one process, and with
    another seed for hashes."""

    def flat(log):
        return [f"{e['o']} {e['res']}" for e in log]

    first = flat(child(lambda: seeded_run(seed, number)))

    def twice():
        seeded_run(seed, number)
        gc.collect()
        return seeded_run(seed, number)

    out = [{"id": f"repeat-{number}", "tags": [], "alone": [first], "ev": [{"o": 1, "res": x} for x in flat(child(twice))]}]
    env = dict(os.environ, PYTHONHASHSEED=str(1000 + number))
    got = subprocess.run([sys.executable, os.path.abspath(__file__), "--repeat", str(seed), str(number)],
                         env=env, stdout=subprocess.PIPE, check=True).stdout
    other = flat(json.loads(got))
    out.append({"id": f"repeat-hash-{number}", "tags": [], "alone": [first], "ev": [{"o": 1, "res": x} for x in other]})
    return out


def main():
    if sys.argv[1] == "--repeat":
        print(json.dumps(seeded_run(sys.argv[2], int(sys.argv[3]))))
        return
    job = json.load(open(sys.argv[1]))
    seed = str(job["seed"])
    scheds = []
    for path in job["schedules"]:
        for line in open(path):
            if line.startswith('"GEN '):
                scheds.append(json.loads(json.loads(line)[4:])["sched"])
    seeded(seed, "schedules").shuffle(scheds)
    scheds = scheds[: job["groups"]]
    shards = job.get("shards", 4)
    pids = []
    for shard in range(shards):
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                out = Out(f"{job['out']}.{shard}")
                for number in range(shard, len(scheds), shards):
                    out.line(interleaved(seed, scheds[number], number))
                for number in range(shard, job["repeats"], shards):
                    for rec in repeated(seed, number):
                        out.line(rec)
                out.close()
            except BaseException:
                traceback.print_exc()
                code = 1
            os._exit(code)
        pids.append(pid)
    failed = [os.waitpid(pid, 0)[1] for pid in pids]
    if any(failed):
        sys.exit(1)
    with open(job["out"], "w") as f:
        for shard in range(shards):
            part = f"{job['out']}.{shard}"
            f.write(open(part).read())
            os.unlink(part)
    print(json.dumps({"groups": len(scheds)}))


if __name__ == "__main__":
    main()
