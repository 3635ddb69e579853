"""Obligations, verdicts, evidence."""
import json, os, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
KNOWN = os.path.join(VERIF, "known_findings.json")


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.items = []          # obligations
        self.floors = {}
        self.notes = []
        self.functions = set()
        self.blocks = 0
        self.t0 = time.time()

    def ok(self, rule, key, loc="", msg=""):
        self.items.append(("ok", rule, key, loc, msg))

    def bad(self, rule, key, loc="", msg=""):
        self.items.append(("bad", rule, key, loc, msg))

    def open(self, rule, key, loc="", msg=""):
        """an instance whose shape the rule cannot decide: reported, never an alarm"""
        self.items.append(("open", rule, key, loc, msg))

    def check(self, cond, rule, key, loc="", msg=""):
        self.bad(rule, key, loc, msg) if not cond else self.ok(rule, key, loc)
        return cond

    def floor(self, rule, n):
        """at least n instances of the rule must have been found"""
        self.floors[rule] = max(n, self.floors.get(rule, 0))

    def flow(self, fl):
        self.functions |= fl.analysed
        self.blocks += fl.nblocks

    # ------------------------------------------------------------ end
    def finish(self, tier, seed, extra=None):
        known = []
        if os.path.exists(KNOWN):
            known = [k for k in json.load(open(KNOWN)) if k.get("property") == self.prop and k.get("status") == "known"]
        kkeys = {(k["rule"], k["key"]): k for k in known}
        counts = {}
        for st, rule, *_ in self.items:
            c = counts.setdefault(rule, {"instances": 0, "hold": 0, "violated": 0, "undecided": 0})
            c["instances"] += 1
            c[{"ok": "hold", "bad": "violated", "open": "undecided"}[st]] += 1
        viol, seen_known = [], {}
        dedup = set()
        for st, rule, key, loc, msg in self.items:
            if st != "bad":
                continue
            if (rule, key) in kkeys:
                seen_known[(rule, key)] = (loc, msg)
                continue
            if (rule, key) in dedup:
                continue
            dedup.add((rule, key))
            viol.append((rule, key, loc, msg))
        for rule, n in sorted(self.floors.items()):
            got = counts.get(rule, {}).get("instances", 0)
            if got < n:
                self.open("coverage", "instances:%s" % rule, "", "rule found %d instance(s), %d were there when it was written: it decided less than it used to" % (got, n))
        ev_dir = os.path.join(VERIF, "evidence")
        os.makedirs(ev_dir, exist_ok=True)
        replay = os.path.join("evidence", self.prop + ".replay.txt")
        with open(os.path.join(VERIF, replay), "w") as f:
            for rule, key, loc, msg in viol:
                f.write("VIOLATED %s | %s | %s | %s\n" % (rule, key, loc, msg))
            for (rule, key), (loc, msg) in seen_known.items():
                f.write("KNOWN    %s | %s | %s | %s\n" % (rule, key, loc, msg))
            for st, rule, key, loc, msg in self.items:
                if st != "bad":
                    f.write("%-8s %s | %s | %s | %s\n" % ({"ok": "holds", "open": "UNDECIDED"}[st], rule, key, loc, msg))
        total = len(self.items)
        held = sum(1 for i in self.items if i[0] == "ok")
        cov = {
            "explanation": "Static analysis of /repo's current MIR: each instance is one obligation of a rule at a named construct; "
                           "'hold' were decided from the source, 'undecided' are shapes the rule cannot decide and makes no claim about.",
            "obligations": total,
            "discharged": held,
            "known_findings_seen": len(seen_known),
            "undecided": sum(1 for i in self.items if i[0] == "open"),
            "functions_analysed": len(self.functions),
            "blocks_evaluated": self.blocks,
            "rules": counts,
            "samples": ["%s | %s | %s" % (r, k, l) for _, r, k, l, _ in self.items[:12]],
            "known_listed_not_seen": ["%s | %s" % k for k in kkeys if k not in seen_known],
            "replay": replay,
        }
        if extra:
            cov.update(extra)
        ev = {"property": self.prop, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
              "assumptions": self.notes, "wall_s": round(time.time() - self.t0, 2), "violations": len(viol)}
        with open(os.path.join(ev_dir, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for (rule, key), (loc, msg) in sorted(seen_known.items()):
            print("KNOWN-FINDING: property=%s %s: %s [%s] %s" % (self.prop, rule, key, loc, kkeys[(rule, key)].get("what", msg)))
        for rule, key, loc, msg in viol:
            print("VIOLATION property=%s replay=%s" % (self.prop, replay))
            print("  rule %s: %s\n  at %s\n  %s" % (rule, key, loc or "-", msg))
        for st, rule, key, loc, msg in self.items:
            if st == "open":
                print("UNDECIDED %s: %s [%s] %s" % (rule, key, loc, msg))
        if not viol:
            print("OK property=%s: %d obligations over %d functions, %d hold, %d known, %d undecided" % (
                self.prop, total, len(self.functions), held, len(seen_known), cov["undecided"]))
        return 1 if viol else 0
