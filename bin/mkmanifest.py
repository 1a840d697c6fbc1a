#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl (development tool)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
 "table": "TLC explores the table specification exhaustively for small tables, every transition of several small instances is replayed into the real Dealer, and random and shipped tables' recorded calls are validated step by step against the same specification. Bounded: small instances are complete, larger tables sampled.",
 "hands": "Ranks reported by the real evaluator are validated against the ranking specification in TLA+; all rank patterns of all 520 deck/hand-size/low-straight configurations (quick C17/C16: a seeded share), the class counts themselves are model checked against enumeration for small decks.",
 "decks": "Recorded histories of real decks and cards are validated against the deck and card specifications; all histories of a small deck are model checked.",
 "config": "Tables built from every spelling of a configuration are validated against the specification of the configuration they mean; refusals are checked against the specified ones.",
 "twins": "Tables are run alone and interleaved (schedules generated by TLC); both records are compared and validated against the table specification.",
 "looks": "Sequences of calls and looks generated by TLC are carried out on real objects; what they give is validated against a model in which looks are stuttering steps, and against the same calls without looks.",
 "ends": "Liveness and the bound on actions are model checked for small tables; recorded random and shipped tables are validated against the same bound, independently of the other rules.",
 "ports": "Histories of tables opened, shown and closed at a few addresses, with other programs in between, are enumerated by TLC and carried out with real servers; what real browsers find at each address after each step is validated against the specification.",
 "web": "A delivery model is checked with TLC; events recorded from the real server and real clients on the loopback network are validated against it.",
}
KIND = {**{f"C{i:02d}": "table" for i in range(1, 15)}, "C15": "hands", "C16": "hands", "C17": "hands", "C18": "decks",
        "C19": "decks", "C20": "table", "C21": "config", "C22": "table", "C23": "twins", "C24": "web", "C25": "web", "C26": "looks", "C27": "ends", "C28": "table", "C29": "ports", "C30": "table", "C31": "hands"}
CLAIMED = [f"C{i:02d}" for i in range(1, 32)]
import sys
if len(sys.argv) > 1: CLAIMED = [x for x in CLAIMED if x not in sys.argv[1:]]
checks = []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    if p not in CLAIMED: continue
    checks.append({"property": p, "quick_cmd": f"bin/check {p}", "thorough_cmd": f"VERIF_TIER=thorough bin/check {p}",
      "technique": "TLA+ specification checked with TLC; generated behaviours replayed into, and recorded traces validated from, the real code",
      "level": "model_checking", "level_note": NOTES[KIND[p]]})
na = [{"property": f"C{i:02d}", "reason": "check under construction"} for i in range(1, 32) if f"C{i:02d}" not in CLAIMED]
json.dump({"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
  "notes": "TLA+ checked with TLC. No hooks in /repo: the public interface exposes the abstract state. See DESIGN.md."},
  open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
