"""Runs tables, decks and evaluators with and without being looked at, all
from the same random seed, and records both for LookTrace.tla (C26)."""
import json
import os
import random
import re
import signal
import sys
import traceback

import twins
import web
from twins import *


def nameless(text):
    """without the address of the object"""
    return re.sub(r"\(\d{4,}\)", "()", re.sub(r"0x[0-9a-fA-F]+", "0x", text))


def printed(dealer, mode):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        out = dealer.render(mode=mode)
    return buf.getvalue().strip("\n") if out is None else repr(out)


class Looker:
    """Looks at the object of a generator of twins.py"""

    def __init__(self, what, rng, lane):
        self.what, self.rng, self.lane = what, rng, lane
        self.where = None

    def table(self, kind):
        tab = self.what["it"]
        dealer = tab.dealer
        if kind == "str":
            return str(dealer).strip("\n")
        if kind == "repr":
            return repr(dealer)
        if kind == "ascii":
            return printed(dealer, "ascii")
        if kind == "nonsense":
            return printed(dealer, self.rng.choice(["text", "ASCII", "", "rgb_array"]))
        if kind == "odds":
            if tab.fresh or tab.ob is None or tab.done or fills(tab.cfg, tab.ob) > 300:
                return "too many"
            return json.dumps([float(x) for x in dealer.win_probabilities()])
        if self.what.get("browser"):
            return self.browse(dealer)
        return f"{len(dealer.deck)} {dealer.deck} {dealer.deck!r} {dealer.evaluator} {dealer.evaluator!r}"

    def browse(self, dealer):
        if self.where is None:
            def build(host, port):
                dealer.render(mode="human", host=host, port=port)

            host, port, _ = web.start(self.rng, self.lane, build)
            self.where = host, port
            self.viewer = dealer.viewer
        else:
            dealer.render(mode="human")
        return "a page" if "<svg" in web.fetch(*self.where, "/") else "something else"

    def deck(self, kind):
        deck = self.what["it"]
        if kind == "str":
            return str(deck)
        if kind == "repr":
            return repr(deck)
        if kind == "odds":
            return str(len(deck))
        return None

    def evaluator(self, kind):
        ev = self.what["it"]
        if kind == "str":
            return str(ev)
        if kind == "repr":
            return repr(ev)
        return None

    def look(self, kind):
        """what is seen and whether it failed"""
        try:
            with limit(60):
                seen = getattr(self, self.what["kind"])(kind)
            return (None if seen is None else nameless(seen)), False
        except error.RenderInitializationError:
            raise
        except Exception as err:
            return "raised " + type(err).__name__, True

    def close(self):
        if self.where and hasattr(self.viewer, "close"):
            self.viewer.close()


def run(what, seed, schedules, lane):
    """[(kind, result, failed)]; schedules: what to do, again and again"""
    log = []
    what = dict(what)
    looker = Looker(what, random.Random(f"{seed}/looker"), lane)
    random.seed(seed)
    gen = start(what, seed)
    more = True
    at = 0
    sched = schedules or ["call"]
    if "call" not in sched:
        sched = sched + ["call"]
    try:
        while more:
            kind = sched[at % len(sched)]
            at += 1
            if kind == "call" or "it" not in what:
                results = []
                more = advance(gen, results)
                log += [("call", x, False) for x in results]
            else:
                seen, failed = looker.look(kind)
                if seen is not None:
                    log.append((kind, seen, failed))
    finally:
        looker.close()
    return log


def some(rng, number):
    kind = number % 8
    if kind == 6:
        return dict(some_deck(rng), quiet=rng.random() < 0.7)
    if kind == 7 or kind == 4 and rng.random() < 0.5:
        out = dict(some_evaluator(rng), quiet=rng.random() < 0.8)
        if rng.random() < 0.5:
            out["order"] = rng.sample(range(1, 10), 9)
        return out
    out = dict(some_table(rng), looks=False, known=rng.random() < 0.4)
    if kind == 5:
        out["browser"] = True
        out["hands"] = 1
    return out


def record(seed, number, schedules, lane):
    rng = seeded(seed, "looks", number)
    what = some(rng, number)
    own = rng.randrange(10 ** 9)
    plain = child(lambda: [x[1] for x in run(what, own, None, lane)])
    ev = []
    for r, sched in enumerate(schedules):
        for k, res, bad in child(lambda s=sched: run(what, own, s, lane)):
            ev.append({"r": r + 1, "k": k, "res": res, "bad": bad})
    return {"id": f"looks-{number}", "kind": what["kind"], "runs": len(schedules), "alone": plain, "ev": ev}


def main():
    job = json.load(open(sys.argv[1]))
    seed = str(job["seed"])
    scheds = []
    for path in job["schedules"]:
        for line in open(path):
            if line.startswith('"GEN '):
                scheds.append(json.loads(json.loads(line)[4:])["sched"])
    # a schedule is repeated for the whole run: those which never look are all the same
    scheds = [s for s in scheds if set(s) != {"call"}]
    seeded(seed, "looking").shuffle(scheds)
    count = job["records"]
    shards = job.get("shards", 6)
    pids = []
    for shard in range(shards):
        pid = os.fork()
        if pid == 0:
            code = 0
            os.setsid()
            try:
                out = Out(f"{job['out']}.{shard}")
                for number in range(shard, count, shards):
                    two = [scheds[(2 * number + i) % len(scheds)] for i in range(2)]
                    out.line(record(seed, number, two, 6 + shard))
                out.close()
            except BaseException:
                traceback.print_exc()
                code = 1
            sys.stderr.flush()
            os._exit(code)
        pids.append(pid)
    failed = []
    for pid in pids:
        failed.append(os.waitpid(pid, 0)[1])
        try:
            os.killpg(pid, signal.SIGKILL)  # servers left behind
        except OSError:
            pass
    if any(failed):
        sys.exit(1)
    with open(job["out"], "w") as f:
        for shard in range(shards):
            part = f"{job['out']}.{shard}"
            f.write(open(part).read())
            os.unlink(part)
    print(json.dumps({"records": count}))


if __name__ == "__main__":
    main()
