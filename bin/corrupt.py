"""Corrupted copies of recorded traces: each check plants some among the real
ones and expects the trace specification to notice (so that a check which
compares nothing cannot pass)."""
import copy


def length(module, rec):
    if module == "HandTrace":
        return len(rec["rows"]) + 1
    return len(rec["ev"])


def sample(module, rec):
    out = {k: v for k, v in rec.items() if k not in ("ev", "rows", "text", "alone")}
    if module == "HandTrace":
        out["rows"] = rec["rows"][:4]
    else:
        out["ev"] = [{k: v for k, v in e.items() if k != "text"} for e in rec["ev"][:4]]
    return shorten(out)


def shorten(x):
    if isinstance(x, dict):
        return {k: shorten(v) for k, v in x.items()}
    if isinstance(x, list):
        return [shorten(v) for v in x[:40]]
    if isinstance(x, str):
        return x[:300]
    return x


def kinds(module, recs):
    """What the recorded events were."""
    out = {}

    def add(k, n=1):
        out[k] = out.get(k, 0) + n

    if module == "HandTrace":
        add("evaluators", len(recs))
        add("hands", sum(len(r["rows"]) for r in recs))
        return out
    if module == "TwinTrace":
        add("groups", len(recs))
        add("objects", sum(len(r["alone"]) for r in recs))
        return out
    if module == "LookTrace":
        for r in recs:
            add("looked at " + r["kind"])
            for e in r["ev"]:
                add(e["k"])
        return out
    for rec in recs:
        for e in rec["ev"]:
            o = e["o"]
            add(o)
            if e.get("x"):
                add("refused " + o)
            elif module in ("DealerTrace", "EndTrace") and o == "step":
                if all(e["d"]):
                    add("hand over")
                    if sum(e["ob"]["act"]) > 1:
                        add("showdown")
                        if sum(x > 0 for x in e["p"]) > 1:
                            add("several winners")
    return out


def live(e):
    return e["o"] == "step" and not e["x"] and not all(e["d"])


def over(e):
    return e["o"] == "step" and not e["x"] and all(e["d"])


def first_over(rec, i):
    j = i - 1
    while j >= 0 and rec["ev"][j]["o"] not in ("step", "reset"):
        j -= 1
    return over(rec["ev"][i]) and j >= 0 and not over(rec["ev"][j]) and not rec["ev"][j]["x"]


def dealer(prop, rec, i, rng):
    """Corrupt event i of a table's record, if it is of the right kind."""
    e = rec["ev"][i]
    ob = e.get("ob")
    n = rec["cfg"]["n"]
    k = rng.randrange(n)
    if prop == "C01" and first_over(rec, i):
        ob["st"][k] += 1
    elif prop == "C02" and live(e):
        ob["pot"] += 1
    elif prop == "C03" and e["o"] == "reset" and not e["x"]:
        ob["but"] = (ob["but"] + 1) % n
    elif prop == "C04" and live(e) and n > 2:
        ob["a"] = (ob["a"] + 1) % n
    elif prop == "C05" and live(e):
        ob["call"] += 1
    elif prop == "C06" and live(e):
        ob["st"][k] -= 1
        ob["pot"] += 1
    elif prop == "C07" and live(e) and ob["mx"] > 0:
        ob["mx"] = ob["mn"] = 0
    elif prop == "C08" and live(e):
        e["d"][k] = not e["d"][k]
    elif prop == "C09" and live(e) and ob["cc"]:
        ob["cc"][0] = ob["hc"][0]
    elif prop in ("C10", "C11") and first_over(rec, i) and sum(ob["act"]) > 1:
        act = [j for j in range(n) if ob["act"][j]]
        w = max(act, key=lambda j: e["p"][j])
        v = min(act, key=lambda j: (e["p"][j], j == w))
        if v == w:
            v = [j for j in act if j != w][0]
        if prop == "C11":
            most = [j for j in act if e["p"][j] > 0]
            if len(most) < 2:
                return False
            w, v = most[0], most[1]
        for j, x in ((w, -1), (v, 1)):
            e["p"][j] += x
            ob["st"][j] += x
    elif prop == "C12" and first_over(rec, i) and sum(ob["act"]) == 1:
        w = ob["act"].index(True)
        v = (w + 1) % n
        for j, x in ((w, -1), (v, 1)):
            e["p"][j] += x
            ob["st"][j] += x
    elif prop == "C13" and over(e) and i and over(rec["ev"][i - 1]):
        e["p"][k] += 1
    elif prop == "C14" and (e["o"] == "frozen" or live(e)):
        if e["o"] == "frozen":
            e["ok"] = False
        else:
            rest = [x for x in range(52) if x not in ob["hc"] and x not in ob["cc"]]
            ob["hc"][0] = rng.choice(rest)
    elif prop == "C30" and (e["o"] == "fact" and e["id"] == "C30" or live(e)):
        if e["o"] == "fact":
            e["ok"] = False
        else:
            rest = [x for x in range(52) if x not in ob["hc"] and x not in ob["cc"]]
            [lambda: ob["hc"].__setitem__(0, rng.choice(rest)), lambda: ob["st"].__setitem__(k, ob["st"][k] + 1),
             lambda: ob.__setitem__("call", ob["call"] + 1)][rng.randrange(3)]()
    elif prop == "C20" and e["o"] == "win" and len(e["p"]) > 1:
        e["p"][0] += 50
        e["p"][1] -= 50
    elif prop == "C22" and e["o"] == "view" and not e["x"]:
        which = rng.randrange(4)
        if which == 0:
            e["v"]["pot"] += 1
        elif which == 1:
            e["v"]["seats"][k]["st"] += 1
        elif which == 2:
            shown = e["v"]["board"] + [x for q in e["v"]["seats"] for x in q["cards"]]
            e["v"]["more"].append(rng.choice([x for x in range(52) if x not in shown]))
        else:
            cards = e["v"]["seats"][k]["cards"]
            cards[0] = 7 if cards[0] < 0 else -1
    elif prop == "C28" and e["o"] in ("shown", "text") and not e["x"]:
        which = rng.randrange(4)
        if which == 0:
            e["v"]["pot"] += 1
        elif which == 1:
            e["ok"] = False
        elif e["o"] == "text":
            e["v"]["seats"][0]["st"] += 1
        elif which == 2:
            e["v"]["pay"][k] -= 1
        else:
            e["v"]["st"][k] += 1
    elif prop == "C25" and e["o"] == "browser" and not e["x"]:
        v = rng.choice(e["vs"])
        which = rng.randrange(5)
        if which == 0:
            v["pot"] += 1
        elif which == 4:
            e["vs"].append(copy.deepcopy(v))
            e["vs"][-1]["ink"].append("red")
        elif which == 1:
            v["st"][k] += 1
        elif which == 2:
            v["turn"][k] = not v["turn"][k]
        else:
            v["cards"][k][0] = -9
    elif prop in ("C21", "C23") and e["o"] == "fact":
        e["ok"] = False
        e["id"] = prop
    else:
        return False
    return True


def hands(prop, rec, rng):
    rows = rec["rows"]
    if prop == "C17":
        if rows and rng.random() < 0.5:
            row = rng.choice(rows)
            row["c"] = row["c"] % 9 + 1
        elif rec["list"] and rec["listed"]:
            rec["listed"][0][1] += 3
        else:
            return False
        return True
    if prop == "C31":
        # the order stays as it is
        if not rows:
            return False
        i = rng.randrange(len(rows)) if rec["complete"] else 0
        for row in rows[i:]:
            row["r"] += 1 if rec["complete"] else 10 ** 7
        return True
    k = rec["cfg"]["k"]
    single = [i for i in range(len(rows) - 1) if len(rows[i]["h"]) + len(rows[i]["b"]) == k]
    choice = [i for i in range(len(rows) - 1) if i not in set(single)]
    places = single if prop == "C15" else choice
    if not places:
        return False
    i = rng.choice(places)
    if rows[i]["r"] == rows[i + 1]["r"]:
        if i == 0 or rows[i]["r"] - 1 <= rows[i - 1]["r"]:
            rows[i]["r"] -= 1
            del rows[:i]
        else:
            rows[i]["r"] -= 1
    else:
        rows[i]["r"] = rows[i + 1]["r"]
    rec["complete"] = False
    return True


def other(prop, module, rec, i, rng):
    e = rec["ev"][i]
    if module == "DeckTrace":
        if prop == "C18" and e["o"] == "draw" and not e["x"] and e["cards"]:
            e["cards"].append(e["cards"][0])
        elif prop == "C18" and e["o"] == "shuffle" and not e["x"]:
            e["len"] -= 1
        elif prop == "C19" and e["o"] in ("card", "name") and not e["x"]:
            e["int"] += 256
        elif prop == "C19" and e["o"] == "pair" and not e["x"]:
            e["eq"] = not e["eq"]
        else:
            return False
        return True
    if module in ("TwinTrace", "LookTrace"):
        e["res"] += "x"
        return module == "TwinTrace" or e["k"] in ("call", "nonsense")
    if module == "ConfigTrace":
        if e["o"] == "build":
            e["x"] = "KeyError"
        elif e["o"] in ("play", "fact"):
            e["ok"] = False
        else:
            return False
        return True
    if module == "PortTrace":
        if e["o"] == "op":
            e["x"] = "" if e["x"] else "RenderInitializationError"
        elif rng.random() < 0.3:
            e["waits"].insert(0, 0)
        else:
            a = rng.randrange(len(e["seen"]))
            e["seen"][a] = [e["seen"][a][0], e["seen"][a][1] + 1]
        return True
    if module == "WebTrace":
        if e["o"] == "page":
            how = rng.random()
            if how < 0.3:
                e["parts"].append(e["parts"][0])
            elif how < 0.5:
                e["at"]["hand"][0][0][0] += 3 * e["at"]["box"][0][2]
            elif how < 0.7:
                e["at"]["board"][0][0] -= 5 * e["at"]["board"][0][2]
            else:
                e["at"]["seat"][0], e["at"]["seat"][1] = e["at"]["seat"][1], e["at"]["seat"][0]
                e["at"]["bet"][0], e["at"]["bet"][1] = e["at"]["bet"][1], e["at"]["bet"][0]
                return len(e["at"]["seat"]) > 2
        elif e["o"] == "got" and "pot" in e["p"]:
            e["p"]["pot"] = str(int(e["p"]["pot"]) - 1 or 9999)
            earlier = [x["p"] for x in rec["ev"][:i] if x["o"] == "got" and x["c"] == e["c"]]
            return e["p"] not in earlier[-1:]
        elif e["o"] == "closed":
            e["ok"] = False
        else:
            return False
        return True
    return False


def endless(rec, i):
    """the player to act after event i acts again and again"""
    if not live(rec["ev"][i]):
        return False
    again = dict(rec["ev"][i])
    rec["ev"] += [copy.deepcopy(again) for _ in range(rec["cfg"]["ns"] + 1)]
    return True


def make(prop, module, recs, rng, want=3):
    out = []
    if prop == "C11":
        want = 12
    order = list(range(len(recs)))
    rng.shuffle(order)
    for at in order[:3000]:
        if len(out) >= want:
            break
        if module == "HandTrace":
            rec = copy.deepcopy(recs[at])
            try:
                ok = hands(prop, rec, rng)
            except (IndexError, KeyError, TypeError, ValueError):
                ok = False
            if ok:
                rec["id"] = f"corrupted-{rec['id']}"
                out.append(rec)
            continue
        places = list(range(len(recs[at]["ev"])))
        rng.shuffle(places)
        for i in places[:20]:
            rec = dict(recs[at], ev=recs[at]["ev"][: i + 1])
            rec = copy.deepcopy(rec)
            try:
                if module == "EndTrace":
                    ok = endless(rec, i)
                elif module == "DealerTrace":
                    ok = dealer(prop, rec, i, rng)
                else:
                    ok = other(prop, module, rec, i, rng)
            except (IndexError, KeyError, TypeError, ValueError):
                # there is no such thing in this event
                ok = False
            if ok:
                rec["id"] = f"corrupted-{rec['id']}"
                out.append(rec)
                break
    return out
