"""Which stages decide which property, per tier."""
import json

# --------------------------------------------------- known findings


def load_known(path):
    """{(property, trace id): entry}"""
    out = {}
    with open(path) as f:
        lines = f.read().splitlines()
    for line in lines:
        if line.startswith("known: "):
            item = json.loads(line[7:])
            out[(item["property"], item["id"])] = item
    return out


def known_key(prop, rec, what, known):
    """The listed finding which exactly this disagreement is, if any."""
    item = known.get((prop, what.get("id")))
    if not item or rec is None:
        return None
    if set(what.get("bad", [])) != {prop} or what.get("pos") != item["pos"]:
        return None
    if rec.get("text") != item["text"]:
        return None
    return (prop, what.get("id"))


# ----------------------------------------------------------- profiles

GENS = ["a", "b_headsup_pot", "c_fixed_cap", "d_four", "e_three_streets",
        "f_no_big_blind", "g_pot_three", "h_zero_raises", "i_reopen", "j_eighths", "k_quarters_pot"]


def gen(*names):
    return [("gen", f"DealerGen_{x}.cfg") for x in names]


def mc(*cfgs):
    out = []
    for cfg in cfgs:
        out.append(("mc", cfg.split("_")[0], cfg + ".cfg"))
    return out


def rnd(name, tables, hands=4, **more):
    return dict(kind="random", name=name, tables=tables, hands=hands, **more)


RANKED = [[10, "rank"], [4, "best"], [2, "pair"], [2, "small"], [2, "low"]]
CARDS = [[2, "rank"], [4, "best"], [4, "pair"], [6, "small"], [3, "holdem"], [2, "short"], [2, "omaha"]]
MANY = [[2, 2], [5, 3], [6, 4], [5, 5], [4, 6], [2, 7], [2, 8], [1, 9], [1, 10]]

# what the random tables of a property look like: [(label, weights)]
TABLES = {
    "C01": [("mixed", dict()), ("allin", dict(bets=[[3, "allin"], [2, "odd"], [1, "mixed"]], chips=0.8, n=MANY))],
    "C02": [("mixed", dict()), ("short", dict(bets=[[3, "allin"], [2, "odd"], [1, "raiser"]], chips=0.95, refill=0.05, n=MANY))],
    "C03": [("mixed", dict(hands=8, bets=[[4, "allin"], [1, "mixed"]], chips=0.7, refill=0.1, n=MANY, style=RANKED)),
            ("long", dict(hands=12, bets=[[3, "allin"], [2, "caller"]], chips=0.1, refill=0.1, style=RANKED))],
    "C04": [("mixed", dict(n=MANY)), ("streets", dict(n=MANY, ns=[[1, 2], [2, 3], [3, 4]], bets=[[4, "caller"], [2, "mixed"], [1, "raiser"]]))],
    "C05": [("mixed", dict()), ("pot", dict(limit=[[4, "pot"], [2, "mix"], [1, "fix"]], bets=[[3, "raiser"], [2, "mixed"], [1, "odd"]]))],
    "C06": [("odd", dict(bets=[[5, "odd"], [2, "mixed"], [1, "raiser"]])), ("mixed", dict())],
    "C07": [("raiser", dict(bets=[[5, "raiser"], [2, "mixed"], [1, "allin"]], chips=0.6, n=MANY)),
            ("cap", dict(bets=[[5, "raiser"], [1, "odd"]], ns=[[1, 1], [3, 2], [3, 3]]))],
    "C08": [("mixed", dict(n=MANY)), ("allin", dict(bets=[[3, "allin"], [2, "mixed"], [2, "caller"]], chips=0.7))],
    "C09": [("cards", dict(style=CARDS, known=0.5, n=MANY, keep=0.25)), ("mixed", dict(known=0.2))],
    "C10": [("poor", dict(bets=[[4, "allin"], [2, "caller"], [2, "mixed"]], chips=0.8, n=MANY, style=[[1, "low"]])),
            ("allin", dict(bets=[[4, "allin"], [2, "caller"], [1, "odd"]], chips=0.9, refill=0.05, n=MANY, style=RANKED)),
            ("cards", dict(style=CARDS, bets=[[2, "allin"], [2, "caller"]], chips=0.7))],
    "C11": [("ties", dict(bets=[[4, "allin"], [3, "caller"], [1, "odd"]], chips=0.85, refill=0.05, n=MANY,
                          style=[[6, "rank"], [4, "best"], [2, "pair"]])),
            ("mixed", dict(style=RANKED))],
    "C12": [("folds", dict(bets=[[3, "mixed"], [2, "allin"], [1, "odd"]], n=MANY)), ("mixed", dict())],
    "C13": [("after", dict(after=1.0, early=0.6, chips=0.3, refill=0.08, abandon=0.1, bets=[[4, "allin"], [2, "mixed"]])),
            ("mixed", dict(after=0.9, early=0.3))],
    "C14": [("mutate", dict(mutate=1.0, style=CARDS)), ("kept", dict(mutate=0.0, style=CARDS))],
}

# tables which are played for a long time, rounds with many raises, hands of many streets
LONG = dict(part=0.03, at_least=60, hands=90, chips=0.02, refill=0.05, abandon=0.01, per_config=2, style=RANKED)
CLIMB = dict(part=0.25, hands=2, bets=[[1, "climber"]], chips=0, n=[[3, 2], [2, 3], [1, 4]], start=2000, refill=1.0,
             caps=[0, 1, 3, 5, 6, 7, 9, 12], style=RANKED, abandon=0)
DEEP = dict(part=0.3, hands=3, ns=[[1, 5], [1, 6], [1, 7]], bets=[[4, "caller"], [2, "raiser"], [1, "odd"]], chips=0.2)
# the same hand again: the same button and chips, other cards
AGAIN = dict(at_least=5, hands=9, rb=0.75, refill=0.85, chips=0, abandon=0.02)
for _prop in ("C08", "C09", "C10", "C11", "C12", "C14"):
    TABLES[_prop].append(("again", dict(AGAIN, part=0.2, bets=[[4, "caller"], [2, "allin"], [1, "mixed"]], style=RANKED if _prop in ("C10", "C11") else CARDS)))
# hands which nearly everybody leaves at once, whatever was put in before
WALK = dict(part=0.4, hands=6, bets=[[4, "folder"], [1, "mixed"]], n=MANY, forced=1, style=RANKED)
for _prop in ("C01", "C03", "C12"):
    TABLES[_prop].append(("walks", WALK))
for _prop in ("C01", "C03", "C08", "C09", "C11", "C13"):
    TABLES[_prop].append(("marathon", LONG))
for _prop in ("C01", "C02", "C04", "C05", "C06", "C07"):
    TABLES[_prop].append(("climbing", CLIMB))
for _prop in ("C04", "C05", "C07", "C08", "C09", "C12"):
    TABLES[_prop].append(("deep", DEEP))

ENDING = [
    ("mixed", dict(n=MANY, style=RANKED)),
    ("long", dict(n=MANY, style=RANKED, ns=[[1, 2], [2, 3], [3, 4]], bets=[[4, "caller"], [2, "mixed"], [1, "raiser"]], chips=0.2)),
    ("allin", dict(n=MANY, style=RANKED, bets=[[3, "allin"], [1, "odd"], [1, "caller"]], chips=0.95, refill=0.05)),
]


# chips by the million, the quadrillion (beyond the whole numbers of a float) and more
UNITS = [10 ** 6, 2 ** 53 + 1, 10 ** 18 + 9, 10 ** 30 + 7]
HUGE = {
    "C01": {},
    "C02": {},
    "C05": dict(limit=[[4, "pot"], [2, "mix"], [1, "inf"]], bets=[[3, "raiser"], [2, "mixed"]]),
    "C06": dict(bets=[[5, "odd"], [2, "mixed"], [1, "raiser"]]),
    "C10": {},
    "C11": {},
}


def tables(prop, count):
    out = []
    for label, more in TABLES[prop]:
        more = {"hands": 4} | more
        part = int(count * more.pop("part", 1.0))
        out.append(("table", label, [rnd(f"{prop}-{label}", part, **more)]))
    return out


def stages(prop, tier):
    quick = tier == "quick"
    big = 1 if quick else 25
    out = []
    # first, since these take long and few processors
    for proofs in [PROOFS] if quick else [PROOFS, DEEP_PROOFS]:
        if prop in proofs:
            out.append(("proof", *proofs[prop]))
    for models in [REFINED] if quick else [REFINED, DEEP_REFINED]:
        out += mc(*models.get(prop, []))
    if prop in TABLES:
        per = {"C03": 500, "C13": 700, "C07": 700}.get(prop, 800)
        out += tables(prop, per * big)
        out += [("table", "shipped", [dict(kind="shipped", per_shipped=2 if quick else 40, hands=4)])]
        if prop in HUGE:
            out += [("table", "huge", [rnd(f"{prop}-huge", 150 * big, units=UNITS, n=MANY, style=RANKED,
                                           **{"bets": [[3, "allin"], [2, "mixed"], [1, "raiser"]], **HUGE[prop]})])]
        out += gen(*QUICK_GENS[prop] if quick else GENS)
        out += mc(*QUICK_MC[prop])
        if not quick:
            out += mc(*DEEP_MC.get(prop, []))
    elif prop == "C15":
        out += [("hands", "patterns", [dict(kind="all", share=1.0, times=1 if quick else 6)]),
                ("hands", "every", [dict(kind="every", upto=12 if quick else 20)])]
        out += mc("HandMC_9") if quick else mc("HandMC_9", "HandMC_16")
    elif prop == "C16":
        out += mc("BestMC_three", "BestMC_pairs") if quick else mc("BestMC_three", "BestMC_pairs", "BestMC_four")
        out += [("hands", "choices", [dict(kind="choice", count=90 if quick else 2500, deals=70)])]
        out += [("table", "cards", [rnd("C16-cards", 250 * big, style=CARDS, bets=[[3, "caller"], [2, "allin"]])])]
        out += mc("HandMC_9")
    elif prop == "C17":
        out += [("hands", "patterns", [dict(kind="all", share=0.25 if quick else 1.0)]),
                ("hands", "listed", [dict(kind="list")]),
                ("hands", "custom", [dict(kind="custom", count=60 if quick else 1200, ranks=9 if quick else 13)])]
        out += mc("HandMC_9") if quick else mc("HandMC_9", "HandMC_16")
    elif prop == "C31":
        out += [("hands", "patterns", [dict(kind="all", share=0.6 if quick else 1.0)]),
                ("hands", "custom", [dict(kind="custom", count=60 if quick else 1200, ranks=9 if quick else 13)]),
                ("hands", "choices", [dict(kind="choice", count=30 if quick else 1000, deals=70)])]
        out += mc("HandMC_9") if quick else mc("HandMC_9", "HandMC_16")
    elif prop in ("C18", "C19"):
        parts = {"C18": [dict(kind="histories", rounds=6 * big, ops=30), dict(kind="orders"), dict(kind="spread")],
                 "C19": [dict(kind="cards")]}[prop]
        out += [("driver", "decks.py", "DeckTrace", "decks", dict(parts=parts))]
        out += mc({"C18": "DeckMC", "C19": "CardMC"}[prop])
    elif prop == "C20":
        out += mc("OddsMC_pairs", "OddsMC_flush", "OddsMC_single0", "OddsMC_single1") if quick else mc("OddsMC_pairs", "OddsMC_flush", "OddsMC_omaha", "OddsMC_three", "OddsMC_single0", "OddsMC_single1")
        out += [("table", "tiny", [rnd("C20-tiny", 150 * big, 3, win=0.6, fills=150 if quick else 1200,
                                       style=[[6, "tiny"], [1, "rank"], [1, "best"], [1, "small"], [1, "holdem"], [1, "short"], [1, "omaha"]],
                                       n=[[4, 2], [4, 3], [2, 4], [1, 6], [1, 7], [1, 8], [1, 9], [1, 10]], bets=[[4, "caller"], [2, "mixed"]])])]
        out += [("table", "again", [rnd("C20-again", 30 * big, win=0.9, fills=60, **dict(AGAIN, hands=7), known=1.0,
                                        style=[[6, "tiny"], [1, "rank"], [1, "best"], [1, "small"]], n=[[4, 2], [3, 3]], bets=[[4, "caller"], [1, "mixed"]])])]
        out += [("table", f"vast{i}", [rnd(f"C20-vast{i}", 2 if quick else 12, 1, win=1.0, least=20001, fills=36000, style=[[1, "vast"]],
                                           ns=[[1, 2], [1, 3]], n=[[4, 2], [2, 3]], refill=1.0, per_config=1, known=1.0)]) for i in range(2)]
        out += [("table", f"single{i}", [rnd(f"C20-single{i}", 1 if quick else 6, 1, win=1.0, least=100000, fills=10 ** 6, style=[[1, "single"]],
                                             ns=[[1, 2], [1, 3]], n=[[4, 2], [2, 3]], refill=1.0, per_config=1, known=1.0)]) for i in range(3)]
    elif prop == "C21":
        out += [("config", "ConfigGen_2.cfg")]
        # tables of all kinds do what their configurations say
        out += [("table", "played", [rnd("C21-played", 320 * big, 3, per_config=1, tags=["C21"], style=CARDS, n=MANY,
                                         ns=[[3, 1], [2, 2], [2, 3], [1, 4], [1, 6]], bets=[[3, "caller"], [2, "mixed"], [1, "allin"]])])]
    elif prop == "C22":
        out += [("table", "views", [rnd("C22-views", 450 * big, 4, view=0.8, style=CARDS)]),
                ("table", "rich", [rnd("C22-rich", 120 * big, 3, view=0.8, units=[1, 1, 40, 10 ** 6], n=MANY)]),
                ("table", "again", [rnd("C22-again", 50 * big, view=0.9, style=CARDS, bets=[[4, "caller"], [1, "mixed"]], **AGAIN)]),
                ("table", "many", [rnd("C22-many", 250 * big, 4, view=0.8, n=MANY, bets=[[3, "allin"], [2, "mixed"]], chips=0.8)]),
                ("table", "shipped", [dict(kind="shipped", per_shipped=2 * big, hands=3, view=0.7)])]
        out += mc("ViewersMC")
    elif prop == "C23":
        out += [("twins", ["TablesMC_2_6.cfg", "TablesMC_3_3.cfg", "TablesMC_4_2.cfg"],
                 600 if quick else 5124, 40 if quick else 400)]
    elif prop == "C24":
        out += [("driver", "web.py", "WebTrace", "servers", dict(parts=[dict(kind="delivery", count=44 if quick else 700)]))]
        out += mc("WebMC_2", "WebMC_3")
    elif prop == "C25":
        out += [("driver", "web.py", "DealerTrace", "games",
                 dict(parts=[dict(kind="games", name="C25", count=48 if quick else 900, style=CARDS,
                                  n=[[4, 2], [4, 3], [3, 4], [3, 5], [3, 6], [1, 8], [1, 10]])]))]
        out += mc("PageMC")
    elif prop == "C27":
        for label, more in ENDING:
            out.append(("ends", label, [rnd("C27-" + label, (900 if quick else 22000), 4, after=0.0, **more)]))
        out += [("ends", "shipped", [dict(kind="shipped", per_shipped=3 if quick else 60, hands=4)])]
        out += mc("DealerMC_two2", "DealerMC_nolimit3", "DealerMC_pot3")
        if not quick:
            out += mc("DealerMC_fixed3", "DealerMC_side4", "DealerMC_ties3")
    elif prop == "C28":
        own = ["own", "own", "own", "str"]
        out += [("table", "own", [rnd("C28-own", 500 * big, 4, view=0.8, looks=own, style=CARDS)]),
                ("table", "ownmany", [rnd("C28-many", 300 * big, 4, view=0.8, looks=own, n=MANY, bets=[[3, "allin"], [2, "mixed"]], chips=0.8)]),
                ("table", "ownrich", [rnd("C28-rich", 120 * big, 3, view=0.8, looks=own, units=[1, 10 ** 6, 10 ** 18 + 9], n=MANY)]),
                ("table", "ownshipped", [dict(kind="shipped", per_shipped=2 * big, hands=3, view=0.7, looks=own)]),
                ("table", "texts", [dict(kind="texts", count=120 * big)])]
        out += mc("ViewersMC")
    elif prop == "C29":
        out += [("ports", "PortsMC_5.cfg", 42 if quick else 900)]
    elif prop == "C30":
        out += mc("CopiesMC_5") if quick else mc("CopiesMC_5", "CopiesMC_6")
        out += [("copies", "CopiesGen_6.cfg", rnd("C30-scheds", 500 * big, 3, keep=0.4, view=0.15, tags=["C30"])),
                ("table", "copies", [rnd("C30-copies", 300 * big, 4, fork=0.15, keep=0.4, view=0.15, tags=["C30"])]),
                ("table", "cards", [rnd("C30-cards", 120 * big, 4, fork=0.15, tags=["C30"], style=CARDS, known=0.6, keep=0.3)]),
                ("table", "shipped", [dict(kind="shipped", per_shipped=2 * big, hands=3, fork=0.15, tags=["C30"])])]
    elif prop == "C26":
        out += [("looks", "LooksMC_5.cfg", 400 if quick else 8000)]
    return out


QUICK_GENS = {
    "C01": ["a", "d_four", "g_pot_three"],
    "C02": ["a", "d_four", "g_pot_three"],
    "C03": ["a", "b_headsup_pot", "d_four", "g_pot_three"],
    "C04": ["a", "d_four", "f_no_big_blind"],
    "C05": ["b_headsup_pot", "c_fixed_cap", "g_pot_three", "i_reopen"],
    "C06": ["a", "c_fixed_cap", "f_no_big_blind", "i_reopen", "j_eighths", "k_quarters_pot"],
    "C07": ["c_fixed_cap", "e_three_streets", "g_pot_three", "h_zero_raises", "i_reopen"],
    "C08": ["a", "d_four", "e_three_streets", "f_no_big_blind"],
    "C09": ["a", "e_three_streets"],
    "C10": ["a", "d_four", "i_reopen"],
    "C11": ["a", "d_four"],
    "C12": ["a", "d_four", "g_pot_three"],
    "C13": ["a", "b_headsup_pot"],
    "C14": ["a", "e_three_streets"],
}
QUICK_MC = {
    "C01": ["DealerMC_nolimit3", "DealerMC_two2"],
    "C02": ["DealerMC_nolimit3", "DealerMC_pot3"],
    "C03": ["DealerMC_two2", "DealerMC_nolimit3"],
    "C04": ["DealerMC_nolimit3", "DealerMC_fixed3"],
    "C05": ["DealerMC_pot3", "DealerMC_fixed3"],
    "C06": ["BetMC", "DealerMC_nolimit3"],
    "C07": ["DealerMC_fixed3", "DealerMC_pot3"],
    "C08": ["DealerMC_nolimit3", "DealerMC_fixed3"],
    "C09": ["DealerMC_nolimit3", "DeckMC"],
    "C10": ["PotsMC_3", "DealerMC_nolimit3"],
    "C11": ["PotsMC_3", "DealerMC_ties3"],
    "C12": ["DealerMC_nolimit3"],
    "C13": ["DealerMC_two2"],
    "C14": ["DealerMC_two2"],
}
DEEP_MC = {
    "C01": ["DealerMC_side4", "DealerMC_pot3"],
    "C02": ["DealerMC_side4", "DealerMC_fixed3"],
    "C08": ["DealerMC_side4"],
    "C10": ["DealerMC_side4", "PotsMC_4", "PotsMC_4big", "PotsMC_5big"],
    "C11": ["DealerMC_side4", "PotsMC_4", "PotsMC_4big", "PotsMC_5big"],
}

# what Apalache shows for any number of chips: module, seats (0: any), (from, what, steps)
IND = [("Init", "Ind", 0), ("Ind", "Ind", 1)]
FOLLOWS = [("Ind", "Follows", 0)]
RIGHT = [("Init", "Right", 0)]
PROOFS = {
    "C01": ("Chips", [3], IND), "C02": ("Chips", [2], IND), "C05": ("Chips", [3], FOLLOWS), "C06": ("Bets", [0], RIGHT),
    "C07": ("Chips", [2], FOLLOWS), "C08": ("Chips", [3], IND[1:]), "C10": ("Shares", [2], RIGHT), "C11": ("Shares", [2], RIGHT),
    "C27": ("Chips", [3], [("Ind", "Nearer", 1)]),
}
DEEP_PROOFS = {
    "C01": ("Chips", [2, 4, 5], IND), "C02": ("Chips", [3], IND + FOLLOWS), "C05": ("Chips", [2, 4, 5], IND + FOLLOWS),
    "C07": ("Chips", [3, 4, 5], FOLLOWS), "C08": ("Chips", [4], IND), "C10": ("Shares", [3], RIGHT),
    "C11": ("Shares", [3], [("Init", "EqualShares", 0), ("Init", "Ordered", 0)]),
    "C27": ("Chips", [2, 4, 5], IND + [("Ind", "Nearer", 1)]),
}
# the table is what is shown there
REFINED = {
    "C01": ["ChipsMC_nolimit3"], "C02": ["ChipsMC_two2"], "C05": ["ChipsMC_pot3"], "C07": ["ChipsMC_fixed3"], "C08": ["ChipsMC_nolimit3"],
    "C10": ["SharesMC_3"], "C11": ["SharesMC_3"], "C27": ["ChipsMC_nolimit3"],
}
DEEP_REFINED = {"C01": ["ChipsMC_side4"], "C02": ["ChipsMC_pot3"], "C05": ["ChipsMC_fixed3"], "C10": ["SharesMC_4"],
                "C27": ["ChipsMC_fixed3", "ChipsMC_pot3"]}

COMMON = [
    "TLC, Apalache (which shows what holds for any number of chips), the JVM and the JSON reading of the trace specifications are trusted",
    "the recorders in /verif/driver read observations through the public interface only",
    "cards are put in a known order with the deck's own trick operation, whose meaning is checked by C18",
]
ASSUMPTIONS = {
    "C14": ["that a caller cannot reach the table through an observation is tried for the lists and dictionaries it consists of"],
}
