"""Runs the real server for browsers and real clients of it on the loopback
network, and records both for WebTrace.tla (C24) and DealerTrace.tla (C25).

Parts of a job: {"kind": "pages", "sizes": [[n, nh, nc], ...]},
{"kind": "delivery", "count": sessions}, {"kind": "games", "count": tables}.
"""
import json
import os
import queue
import re
import signal
import socket
import subprocess
import sys
import threading
import time
import traceback
import urllib.error
import urllib.request

from table import *
from clubs import render as clubs_render

HERE = os.path.dirname(os.path.abspath(__file__))
OPENER = urllib.request.build_opener(urllib.request.ProxyHandler({}))
HOSTS = ["127.0.0.1", "127.0.0.1", "127.0.0.2", "localhost"]


# ------------------------------------------------------------ the server


def free(host, port):
    with socket.socket() as s:
        s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        try:
            s.bind((host, port))
        except OSError:
            return False
    return True


def ports(rng, host, shard):
    """a port which is free and so is the next one"""
    while True:
        port = 12000 + 1500 * shard + 2 * rng.randrange(700)
        if free(host, port) and free(host, port + 1):
            return port


def start(rng, shard, build):
    """a viewer; another try at other ports, should these be taken after all"""
    for attempt in range(3):
        host = rng.choice(HOSTS)
        port = ports(rng, host, shard)
        try:
            return host, port, build(host, port)
        except error.RenderInitializationError:
            if attempt == 2:
                raise


def fetch(host, port, path, data=None, timeout=40):
    req = urllib.request.Request(f"http://{host}:{port}{path}", data=data)
    with OPENER.open(req, timeout=timeout) as response:
        return response.read().decode("utf-8")


def gone(host, port):
    for _ in range(100):
        with socket.socket() as s:
            s.settimeout(1)
            try:
                s.connect((host, port))
            except OSError:
                return True
        time.sleep(0.05)
    return False


# ------------------------------------------------------------ the client


class Browser(threading.Thread):
    """A socket.io client (engine.io 3, polling), handing on each state."""

    def __init__(self, host, port, receive):
        super().__init__(daemon=True)
        self.host, self.port, self.receive = host, port, receive
        self.sid = None
        self.stop = False
        self.problem = None
        self.ready = threading.Event()

    def path(self):
        sid = f"&sid={self.sid}" if self.sid else ""
        return f"/socket.io/?EIO=3&transport=polling&b64=1{sid}"

    def packets(self, text):
        at = 0
        while at < len(text):
            colon = text.index(":", at)
            size = int(text[at:colon])
            yield text[colon + 1 : colon + 1 + size]
            at = colon + 1 + size

    def handle(self, text):
        for packet in self.packets(text):
            if packet.startswith("0"):
                self.sid = json.loads(packet[1:])["sid"]
                self.ready.set()
            elif packet.startswith("42"):
                name, *args = json.loads(packet[2:])
                if name == "config":
                    self.receive(args[0] if len(args) == 1 else {"arguments": args})

    def run(self):
        try:
            last = time.time()
            while not self.stop:
                self.handle(fetch(self.host, self.port, self.path()))
                if time.time() - last > 15:
                    last = time.time()
                    fetch(self.host, self.port, self.path(), b"1:2")
        except Exception as err:
            if not self.stop:
                self.problem = repr(err)
        self.ready.set()

    def leave(self, kindly):
        self.stop = True
        if kindly and self.sid:
            try:
                fetch(self.host, self.port, self.path(), b"1:1", timeout=5)
            except Exception:
                pass


# --------------------------------------------------------------- the page


def svg_of(html):
    from xml.etree import ElementTree as et

    begin = html.index("<svg", html.index("<body"))
    end = html.rindex("</svg>") + len("</svg>")
    return et.fromstring(html[begin:end])


CARD_TEXT = re.compile("([2-9TJQKA])([\u2660\u2665\u2666\u2663])")


def part(name):
    """<<kind, seat, number>> of an identifier, or None"""
    if re.fullmatch(r"\d+", name):
        return ["player", int(name), -1]
    if name in ("community", "pot", "pot-background", "pot-text"):
        return [name, -1, -1]
    m = re.fullmatch(r"(card|card-background|card-text)-(community|\d+)-(\d+)", name)
    if m:
        return [m.group(1), -1 if m.group(2) == "community" else int(m.group(2)), int(m.group(3))]
    m = re.fullmatch(
        r"(cards|player-background|chips|chips-background|chips-text|street-commit|street-commit-background"
        r"|street-commit-text|button|button-background)-(community|\d+)",
        name,
    )
    if m:
        return [m.group(1), -1 if m.group(2) == "community" else int(m.group(2)), -1]
    return None


def page_event(html):
    svg = svg_of(html)
    view = [float(v) for v in svg.get("viewBox").split()]
    places = {}
    names = re.findall(r'\sid="([^"]*)"', html)

    def number(el, key):
        text = el.get(key) or "0"
        return 0.0 if text.endswith("%") else float(text)

    def walk(el, x, y):
        for kid in el:
            kx, ky = x + number(kid, "x"), y + number(kid, "y")
            if kid.get("id"):
                places[kid.get("id")] = (kx, ky, number(kid, "width"), number(kid, "height"))
            walk(kid, kx, ky)

    walk(svg, 0.0, 0.0)
    parts = [p for p in map(part, names) if p]
    other = [x for x in names if part(x) is None]

    def middle(name):
        x, y, w, h = places[name]
        return [round(10 * (x + w / 2)), round(10 * (y + h / 2))]

    def corner(name):
        x, y, _, _ = places[name]
        return [round(10 * x), round(10 * y)]

    def box(name):
        return [round(10 * v) for v in places[name]]

    def row(seat):
        count = sum(1 for p in parts if p[0] == "card" and p[1] == seat)
        return [box(f"card-{'community' if seat < 0 else seat}-{j}") for j in range(count)]

    seats = sorted(p[1] for p in parts if p[0] == "player")
    bets = sorted(p[1] for p in parts if p[0] == "street-commit")
    cards = [x for x in names if (part(x) or [""])[0] == "card"]
    at = {
        "seat": [middle(str(i)) for i in seats],
        "bet": [middle(f"street-commit-{i}") for i in bets],
        "cards": [corner(x) for x in cards],
        "table": [round(10 * view[0] + 5 * view[2]), round(10 * view[1] + 5 * view[3])],
        "box": [box(str(i)) for i in seats],
        "hand": [row(i) for i in seats],
        "chips": [box(f"chips-{i}") for i in seats],
        "betbox": [box(f"street-commit-{i}") for i in bets],
        "board": row(-1),
        "pot": box("pot"),
    }
    return {"o": "page", "parts": parts, "other": other, "at": at}


def page_served(host, port):
    try:
        return page_event(fetch(host, port, "/"))
    except Exception as err:  # judged by the specification: nothing is there
        return {"o": "page", "parts": [], "other": [], "at": {}, "problem": repr(err)}


def text_id(text):
    if not isinstance(text, str) or not CARD_TEXT.fullmatch(text):
        return -9
    return RANKS.index(text[0]) + 13 * PRETTY[text[1]]


def plain(value):
    return json.dumps(value, sort_keys=True)


def received(state):
    if state == {}:
        return {"empty": True}
    if not isinstance(state, dict):
        return {"not a state": plain(state)}
    out = {k: plain(v) for k, v in state.items()}
    for key in ("hole_cards", "community_cards"):
        if not isinstance(state.get(key), list):
            out[key] = [-9]
        elif key == "hole_cards":
            out[key] = [[text_id(x) for x in hand] if isinstance(hand, list) else [-9] for hand in state[key]]
        else:
            out[key] = [text_id(x) for x in state[key]]
    return out


def rendered(state):
    out = {k: plain(v) for k, v in state.items() if not k.endswith("_cards")}
    out["hole_cards"] = [[card_id(x) for x in hand] for hand in state["hole_cards"]]
    out["community_cards"] = [card_id(x) for x in state["community_cards"]]
    return out


# -------------------------------------------------------------- deliveries


def some_state(rng, n, nh, nc, count):
    deck = [clubs.Card(card_name(x)) for x in range(52)]
    rng.shuffle(deck)

    def card():
        return deck[rng.randrange(52)]

    big = rng.choice([10, 200, 10 ** 6, 10 ** 9])
    return {
        "action": rng.randint(-1, n - 1),
        "active": [rng.random() < 0.6 for _ in range(n)],
        "all_in": [rng.random() < 0.3 for _ in range(n)],
        "community_cards": [card() for _ in range(rng.randint(0, nc))],
        "button": rng.randrange(n),
        "done": rng.random() < 0.2,
        "hole_cards": [[card() for _ in range(nh)] for _ in range(n)],
        "pot": count,
        "payouts": [rng.randint(-big, big) for _ in range(n)],
        "prev_action": rng.choice([None, (rng.randrange(n), rng.randint(0, big), rng.random() < 0.5)]),
        "street_commits": [rng.randint(0, big) for _ in range(n)],
        "stacks": [rng.randint(0, big) for _ in range(n)],
    }


def session(rng, number, shard, size, moves):
    n, nh, nc = size
    ev = []
    lock = threading.Lock()
    host, port, viewer = start(
        rng, shard, lambda host, port: clubs_render.GraphicViewer(n, nh, nc, host=host, port=port)
    )
    rec = {"id": f"server-{number}", "tags": [], "cfg": {"n": n, "nh": nh, "nc": nc}, "ev": ev}
    clients = {}
    latest = {}
    names = 0
    state = None
    # as it was when first rendered, whatever the viewer does to it
    wanted = None
    log = 0

    def add(event):
        with lock:
            ev.append(event)

    def connect():
        nonlocal names
        names += 1
        name = names
        add({"o": "connect", "c": name})

        def receive(got):
            p = received(got)
            with lock:
                if not clients[name].stop:
                    ev.append({"o": "got", "c": name, "p": p})
                    latest[name] = p

        clients[name] = Browser(host, port, receive)
        latest[name] = None
        clients[name].start()

    def settle():
        """until everybody has the latest state, or for long nothing happens"""
        want = wanted if state else {"empty": True}
        begin = time.time()
        size = -1
        while time.time() - begin < 12:
            if all(latest[name] == want for name in clients):
                break
            with lock:
                if len(ev) != size:
                    size = len(ev)
                    begin = time.time()
            time.sleep(0.01)
        # anything which comes on top of it
        time.sleep(0.03)
        add({"o": "quiet"})

    try:
        add(page_served(host, port))
        if rng.random() < 0.5:
            connect()
        for _ in range(moves):
            kind = rng.random()
            if kind < 0.5:
                for _ in range(rng.choice([1, 1, 2, 3, 8, 20])):
                    if state is None or rng.random() > 0.1:
                        log += 1
                        fresh = some_state(rng, n, nh, nc, log)
                        if state and rng.random() < 0.4:
                            # most things are as they were
                            kept = [k for k in sorted(fresh) if k != "pot" and rng.random() < 0.75]
                            fresh.update((k, state[k]) for k in kept)
                        state = fresh
                        wanted = rendered(state)
                    elif rng.random() < 0.5:
                        state = dict(state)
                    add({"o": "render", "p": wanted})
                    viewer.render(state, rng.choice([0, 0, 0, 0.003]))
            elif kind < 0.7 and len(clients) < 5:
                connect()
            elif kind < 0.78 and clients:
                name = rng.choice(sorted(clients))
                kindly = rng.random() < 0.6
                clients[name].ready.wait(10)
                with lock:
                    clients[name].stop = True
                    ev.append({"o": "leave", "c": name})
                clients.pop(name).leave(kindly)
                latest.pop(name)
            elif kind < 0.88:
                time.sleep(rng.choice([0.001, 0.005, 0.03]))
            else:
                settle()
        if not clients:
            connect()
        settle()
        add(page_served(host, port))
        for client in clients.values():
            client.stop = True
        with lock:
            pass
        ended = len(ev)
        viewer.close()
        ok = gone(host, port)
        with lock:
            del ev[ended:]
            ev.append({"o": "closed", "ok": ok})
    finally:
        viewer.close()
    return rec


# ------------------------------------------------------------------ games

# parts of the browser's interface a script could well use, and page.js does
# not model
REAL = set(
    "animate getAnimations getBBox getCTM getBoundingClientRect getClientRects offsetWidth offsetHeight offsetTop offsetLeft "
    "clientWidth clientHeight scrollIntoView attachShadow shadowRoot slot content createRange createTreeWalker "
    "createNodeIterator evaluate write writeln open execCommand cookie forms images links styleSheets adoptedStyleSheets "
    "compareDocumentPosition getAttributeNode setAttributeNode createAttribute createEvent createComment ownerSVGElement "
    "href transform x y width height getSelection elementFromPoint volatile compress listeners hasListeners offAny "
    "prependAny onAnyOutgoing io animations fonts implementation checkVisibility computedStyleMap attributeStyleMap".split()
)
GLOBALS = set(
    "fetch XMLHttpRequest WebSocket DOMParser XMLSerializer Image Audio history screen crypto indexedDB caches Worker "
    "Blob File FileReader FormData Headers Request Response AbortController IntersectionObserver ResizeObserver "
    "customElements CSSStyleSheet Notification matchMedia getSelection prompt confirm open btoa atob requestIdleCallback "
    "EventTarget DocumentFragment Document Text SVGSVGElement SVGTextElement SVGRectElement NodeList HTMLCollection "
    "NodeFilter Range Animation trustedTypes scheduler setImmediate EventSource BroadcastChannel MessageChannel".split()
)


class Unmodelled(Exception):
    pass


def pages(folder, html, scripts, runs):
    path = os.path.join(folder, f"page-{os.getpid()}.json")
    with open(path, "w") as f:
        json.dump({"html": html, "scripts": scripts, "runs": runs}, f)
    out = subprocess.run(["node", os.path.join(HERE, "page.js"), path], stdout=subprocess.PIPE, timeout=120, check=True)
    os.unlink(path)
    out = json.loads(out.stdout)
    missing = re.match(r"ReferenceError: (\w+) is not defined", out.get("error", ""))
    if missing and missing.group(1) in GLOBALS:
        raise Unmodelled(f"page.js does not model {missing.group(1)}")
    strange = [x for x in out["unknown"] if x.startswith("selector") or x.split(".")[-1].rstrip("=") in REAL]
    if strange:
        raise Unmodelled(f"page.js does not model {strange}")
    return out


RED = ("red", "#ff0000")
BLACK = ("black", "#000000")
WHITE = ("white", "#ffffff")
SUIT_OF = {"spade": (0, BLACK), "heart": (1, RED), "diamond": (2, RED), "club": (3, BLACK)}


def shown_card(page, i, j):
    text = page[f"card-text-{i}-{j}"][0]
    fill = page[f"card-background-{i}-{j}"][1]
    m = re.fullmatch(r"url\(#card-(\w+)\)", fill)
    if not m or f"card-{m.group(1)}" not in page:
        return -9
    kind = m.group(1)
    if kind in ("back", "blank"):
        return {"back": -1, "blank": -2}[kind] if not text else -9
    if kind not in SUIT_OF:
        return -9
    suit, colours = SUIT_OF[kind]
    rank = "T" if text == "10" else text
    if rank not in RANKS or len(rank) != 1 or page[f"card-text-{i}-{j}"][1] not in colours or text == "T":
        return -9
    return RANKS.index(rank) + 13 * suit


def digits(text):
    return int(text) if re.fullmatch(r"-?\d{1,15}", text) else -999999


def shown(page, cfg):
    """what a page shows; whatever is neither marked nor unmarked is both"""

    def marked(name, on, off):
        fill = page[name][1]
        if fill in on:
            return [True]
        return [False] if fill in off else [True, False]

    seats = range(cfg["n"])
    but = [marked(f"button-background-{i}", ["url(#dealer)"] if "dealer" in page else [], ["transparent", "none"])
           for i in seats]
    turn = [marked(f"player-background-{i}", BLACK, WHITE) for i in seats]
    return {
        "st": [digits(page[f"chips-text-{i}"][0]) for i in seats],
        "com": [digits(page[f"street-commit-text-{i}"][0]) for i in seats],
        "but": sum(but, []),
        "turn": sum(turn, []),
        "cards": [[shown_card(page, i, j) for j in range(cfg["nh"])] for i in seats],
        "board": [shown_card(page, "community", j + 1) for j in range(sum(cfg["nc"]))],
        "deck": shown_card(page, "community", 0),
        "pot": digits(page["pot-text"][0]),
        # how everything written on the page is drawn
        "ink": [[name, *page[name][1:]] for name in sorted(page) if page[name][0]],
    }


class ShownTable(Table):
    """A table which is looked at in a browser"""

    def start(self, rng, shard, number):
        self.rng = rng
        self.states = []
        self.events = []
        self.where = None
        self.shard = shard
        self.inbox = queue.Queue()

    def view(self, how="str"):
        ev = {"o": "browser", "x": "", "vs": []}
        try:
            if self.where is None:
                def build(host, port):
                    self.dealer.render(mode="human", host=host, port=port)

                host, port, _ = start(self.rng, self.shard, build)
                self.where = host, port
                self.browser = Browser(host, port, self.inbox.put)
                self.browser.start()
            else:
                self.dealer.render(mode="human")
        except error.RenderInitializationError:
            raise
        except Exception as err:
            ev["x"] = type(err).__name__ + ": " + str(err)[:200]
        self.rec["ev"].append(ev)
        if not ev["x"]:
            state = self.next_state()
            if state is None:
                ev["x"] = "nothing received"
            else:
                self.states.append(state)
                self.events.append(ev)
        self.broken = self.broken or bool(ev["x"])

    def next_state(self):
        """the state received after a render; when just connected, there may
        be an empty one before it, and the same again after it"""
        first = not self.states
        state = None
        try:
            while not state:
                state = self.inbox.get(timeout=15)
            while True:
                state = self.inbox.get(timeout=0.2 if first else 0.003) or state
        except queue.Empty:
            return state

    def page(self, host, port):
        """the page and its own scripts"""
        for tries in range(4):
            try:
                html = fetch(host, port, "/")
                scripts = {}
                for src in re.findall(r'<script[^>]*\ssrc="(/[^"]*)"', html):
                    scripts[src] = fetch(host, port, src)
                return html, scripts
            except OSError:
                if tries == 3:
                    raise
                time.sleep(1)

    def finish(self, folder):
        """what pages with different pasts show"""
        if self.where is None:
            return
        try:
            host, port = self.where
            try:
                html, scripts = self.page(host, port)
            except OSError as err:
                for ev in self.events:
                    ev["x"] = "page not served: " + repr(err)
                return
            runs = [self.states]
            for k, state in enumerate(self.states):
                past = [self.rng.choice(self.states) for _ in range(self.rng.randint(0, 4))]
                runs.append([{}] * (k % 2) + past + [state])
            if self.states:
                out = pages(folder, html, scripts, runs)
                if "error" in out:
                    for ev in self.events:
                        ev["x"] = "script failed: " + out["error"][:300]
                else:
                    for k, ev in enumerate(self.events):
                        two = [out["views"][0][k], out["views"][k + 1][-1]]
                        try:
                            ev["vs"] = [units(shown(page, self.cfg), self.unit) for page in two]
                        except KeyError as err:
                            ev["x"] = f"no element {err}"
        finally:
            self.browser.stop = True
            self.dealer.viewer.close()


def game(rng, number, shard, prof, folder):
    while True:
        cfg = random_config(rng, prof)
        if cfg["n"] * cfg["nh"] <= 40:
            break
    unit = rng.choice([0, 0, 1, 10 ** 6])
    if unit:
        cfg["start"] = min(cfg["start"], 100)
    tab = ShownTable(f"browser-{number}", cfg, unit=unit)
    tab.start(rng, shard, number)
    try:
        play(tab, rng, dict(prof, view=0.8), prof.get("hands", 4))
    finally:
        tab.finish(folder)
    return tab.rec


# ------------------------------------------------------------------- main


def main():
    job = json.load(open(sys.argv[1]))
    seed = str(job["seed"])
    folder = os.path.dirname(job["out"])
    todo = []
    for what in job["parts"]:
        if what["kind"] == "delivery":
            for i in range(what["count"]):
                todo.append(("delivery", i, what))
        elif what["kind"] == "games":
            for i in range(what["count"]):
                todo.append(("game", i, what))
    shards = job.get("shards", 6)
    base = job.get("lane", 0)
    pids = []
    for shard in range(shards):
        pid = os.fork()
        if pid == 0:
            code = 0
            os.setsid()
            try:
                out = Out(f"{job['out']}.{shard}")
                for kind, i, what in todo[shard::shards]:
                    rng = seeded(seed, kind, i)
                    if kind == "delivery":
                        size = SIZES[i] if i < len(SIZES) else some_size(rng)
                        out.line(session(rng, i, base + shard, size, what.get("moves", 25)))
                    else:
                        out.line(game(rng, i, base + shard, what, folder))
                out.close()
            except BaseException:
                traceback.print_exc()
                code = 1
            sys.stderr.flush()
            os._exit(code)
        pids.append(pid)
    failed = []
    for pid in pids:
        failed.append(os.waitpid(pid, 0)[1])
        try:
            # servers left behind
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
    if any(failed):
        sys.exit(1)
    with open(job["out"], "w") as f:
        for shard in range(shards):
            path = f"{job['out']}.{shard}"
            f.write(open(path).read())
            os.unlink(path)
    print(json.dumps({"done": len(todo)}))


SIZES = [(2, 1, 0), (2, 2, 5), (3, 1, 1), (6, 2, 5), (9, 4, 5), (10, 2, 5), (4, 3, 2), (5, 5, 3), (20, 2, 5), (12, 2, 5),
         (8, 13, 0), (2, 26, 0), (7, 1, 7), (11, 4, 10), (5, 0, 4)]


def some_size(rng):
    return rng.choice([2, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 23]), rng.choice([0, 1, 2, 2, 3, 4, 5, 7]), rng.choice([0, 1, 3, 4, 5, 5, 8])


if __name__ == "__main__":
    main()
