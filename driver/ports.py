"""Opens and closes tables in browsers side by side, as TLC says, and records
what is found at each address for PortTrace.tla (C29)."""
import contextlib
import io
import json
import os
import random
import signal
import socket
import struct
import subprocess
import sys
import time
import traceback

import web
from table import *
from clubs import render as clubs_render

LISTEN = """
import socket, sys
s = socket.socket()
s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
s.bind((sys.argv[1], int(sys.argv[2])))
s.listen(50)
print("there", flush=True)
sys.stdin.read()
"""
PATIENCE = 8


def state(n, v):
    """some table of n seats, number v"""
    cards = [clubs.Card(card_name(x)) for x in range(n)]
    return dict(action=v % n, active=[True] * n, all_in=[False] * n, community_cards=[], button=0, done=False,
                hole_cards=[[x] for x in cards], pot=v, payouts=[0] * n, prev_action=None,
                street_commits=[v] * n, stacks=[10 + v] * n)


def listening():
    """addresses at which processes of this session wait for connections"""
    mine = set()
    for name in os.listdir("/proc"):
        if not name.isdigit():
            continue
        try:
            if os.getsid(int(name)) != os.getsid(0):
                continue
            for fd in os.listdir(f"/proc/{name}/fd"):
                with contextlib.suppress(OSError):
                    mine.add(os.readlink(f"/proc/{name}/fd/{fd}"))
        except OSError:
            continue
    out = set()
    for kind in ("tcp", "tcp6"):
        try:
            with open("/proc/net/" + kind) as f:
                rows = [line.split() for line in f.read().splitlines()[1:]]
        except OSError:
            continue
        for row in rows:
            if row[3] == "0A" and f"socket:[{row[9]}]" in mine:
                host, port = row[1].split(":")
                host = socket.inet_ntoa(struct.pack("<I", int(host, 16))) if len(host) == 8 else host
                out.add((host, int(port, 16)))
    return out


def named():
    """Is localhost the name of this address?"""
    try:
        return socket.gethostbyname("localhost") == "127.0.0.1"
    except OSError:
        return False


NAMED = named()


class Town:
    def __init__(self, rng, shard, number, job):
        self.job = job
        self.rng = rng
        self.ev = []
        a, t = job["a"], job["t"]
        self.rec = {"id": f"ports-{number}", "a": a, "t": t, "ev": self.ev, "cfg": {}}
        while True:
            port = web.ports(rng, "127.0.0.1", shard)
            self.at = [("127.0.0.1", port), ("127.0.0.1", port + 1), ("127.0.0.2", port)][:a] + [None] * t
            if all(web.free(*x) for x in self.at if x):
                break
        self.viewers = {}
        self.others = {}
        self.want = [[0, 0] for _ in self.at]

    def do(self, op):
        kind, t, a = op
        ev = {"o": "op", "op": op, "x": ""}
        self.ev.append(ev)
        try:
            with limit(60), contextlib.redirect_stdout(io.StringIO()):
                getattr(self, kind)(t, a)
        except Exception as err:
            ev["x"] = type(err).__name__
            ev["msg"] = repr(err)[:200]
        return not ev["x"] or kind == "open" and self.want[a - 1] != [0, 0]

    def open(self, t, a):
        more = {}
        if a <= self.job["a"]:
            more = dict(host=self.at[a - 1][0], port=self.at[a - 1][1])
            if NAMED and more["host"] == "127.0.0.1" and self.rng.random() < 0.3:
                more["host"] = "localhost"
        viewer = clubs_render.GraphicViewer(t + 1, 1, 0, **more)
        self.viewers[t] = viewer
        if not more:
            self.at[a - 1] = (viewer.host, viewer.port)
        if self.want[a - 1] == [0, 0]:
            self.want[a - 1] = [t, 0]

    def close(self, t, _):
        if t in self.viewers:
            self.viewers[t].close()
        self.want = [[0, 0] if x[0] == t else x for x in self.want]

    def show(self, t, v):
        self.viewers[t].render(state(t + 1, v))
        self.want = [[t, v] if x[0] == t else x for x in self.want]

    def come(self, _, a):
        host, port = self.at[a - 1]
        other = subprocess.Popen([sys.executable, "-S", "-c", LISTEN, host, str(port)], stdin=subprocess.PIPE, stdout=subprocess.PIPE)
        self.others[a] = other
        assert other.stdout.readline() == b"there\n"
        self.want[a - 1] = [-1, 0]

    def go(self, _, a):
        other = self.others.pop(a)
        other.kill()
        other.wait()
        self.want[a - 1] = [0, 0]

    def found(self, a):
        if a in self.others:
            return [-1 if self.others[a].poll() is None else -2, 0]
        if self.at[a - 1] is None:
            return [0, 0]
        host, port = self.at[a - 1]
        if self.want[a - 1] == [0, 0] and web.gone(host, port):
            return [0, 0]
        got = [0]
        browser = web.Browser(host, port, lambda x: got.append(x.get("pot", 0)))
        try:
            page = web.page_event(web.fetch(host, port, "/", timeout=PATIENCE))
            seats = sum(x[0] == "player" for x in page["parts"])
            browser.start()
            begin = time.monotonic()
            while time.monotonic() - begin < PATIENCE:
                if len(got) > 1 and got[-1] == self.want[a - 1][1]:
                    break
                time.sleep(0.005)
            return [seats - 1, got[-1]]
        except Exception:
            return [0, 0]
        finally:
            browser.leave(True)

    def run(self):
        try:
            for op, later in zip(self.job["ops"], self.job["ops"][1:] + [None]):
                more = self.do(op)
                if op[0] == "close" and later and more and self.rng.random() < 0.7:
                    # at once
                    continue
                seen = [self.found(a) for a in range(1, len(self.at) + 1)]
                # 0: an address which nobody has asked for
                waits = sorted({self.at.index(x) + 1 if x in self.at else 0 for x in listening()})
                self.ev.append({"o": "look", "seen": seen, "waits": waits})
                if not more or seen != self.want:
                    break
        finally:
            for viewer in self.viewers.values():
                with contextlib.suppress(Exception):
                    viewer.close()
            for other in self.others.values():
                other.kill()
                other.wait()
        return self.rec


def used_again(ops):
    at = {}
    for one, two in zip(ops, ops[1:]):
        if one[0] == "open":
            at[one[1]] = one[2]
        if one[0] == "close" and two[0] == "open" and at.get(one[1]) == two[2]:
            return True
    return False


def main():
    job = json.load(open(sys.argv[1]))
    seed = str(job["seed"])
    todo = []
    for path in job["schedules"]:
        for line in open(path):
            if line.startswith('"GEN '):
                ops = json.loads(json.loads(line)[4:])["ops"]
                kinds = [x[0] for x in ops]
                # something besides a single table, and at the end more than closing
                if kinds.count("open") > 1 or "open" in kinds and "come" in kinds:
                    todo.append(ops)
    seeded(seed, "ports").shuffle(todo)
    # a third of them with an address used again
    again = [ops for ops in todo if used_again(ops)][: job["count"] // 3]
    todo = again + todo[: job["count"] - len(again)]
    shards = job.get("shards", 6)
    pids = []
    for shard in range(shards):
        pid = os.fork()
        if pid == 0:
            code = 0
            os.setsid()
            try:
                out = Out(f"{job['out']}.{shard}")
                for i in range(shard, len(todo), shards):
                    rng = seeded(seed, "ports", i)
                    out.line(Town(rng, shard, i, dict(ops=todo[i], a=job["a"], t=job["t"])).run())
                out.close()
            except BaseException:
                traceback.print_exc()
                code = 1
            sys.stderr.flush()
            os._exit(code)
        pids.append(pid)
    failed = []
    for pid in pids:
        failed.append(os.waitpid(pid, 0)[1])
        try:
            os.killpg(pid, signal.SIGKILL)  # servers left behind
        except OSError:
            pass
    if any(failed):
        sys.exit(1)
    with open(job["out"], "w") as f:
        for shard in range(shards):
            part = f"{job['out']}.{shard}"
            f.write(open(part).read())
            os.unlink(part)
    print(json.dumps({"records": len(todo)}))


if __name__ == "__main__":
    main()
