"""Runner shared by every check: obligations, evidence, known findings, exit codes.

A check collects *obligations*.  Each obligation is one instance of a rule at one
construct of /repo (function, call site, path); it is either discharged or not.
Undischarged obligations are violations unless known_findings.txt names exactly
that (property, rule, construct).

Exit codes: 0 held, 1 violated, 2 the analysis itself is broken (anchor vanished,
rule matched too few sites, tool failure): never a pass and never a violation.
"""
import hashlib
import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
KNOWN = os.path.join(VERIF, "known_findings.txt")


class AnalysisBroken(Exception):
    pass


class Check:
    def __init__(self, prop, technique, explanation, assumptions=()):
        self.prop = prop
        self.technique = technique
        self.explanation = explanation
        self.assumptions = list(assumptions)
        self.obs = []
        self.short = []          # (rule, construct, ok, where, detail)
        self.analysed = {}     # name -> count/list summary
        self.rules = {}        # rule -> description
        self.t0 = time.time()
        self.tier = os.environ.get("VERIF_TIER", "quick")

    # -- recording -----------------------------------------------------------
    def rule(self, name, text):
        self.rules[name] = text

    def ob(self, rule, construct, ok, where="", detail=""):
        """One obligation.  `construct` identifies the site without line numbers."""
        if rule not in self.rules:
            raise AnalysisBroken("undeclared rule %s" % rule)
        self.obs.append((rule, str(construct), bool(ok), str(where), str(detail)))
        return bool(ok)

    def count(self, name, n=1):
        self.analysed[name] = self.analysed.get(name, 0) + n

    def need(self, rule, least):
        n = sum(1 for o in self.obs if o[0] == rule)
        if n < least:
            self.short.append("rule %s matched %d sites, at least %d were confirmed by hand" % (rule, n, least))

    # -- finishing -----------------------------------------------------------
    def known(self):
        out = set()
        if os.path.exists(KNOWN):
            for line in open(KNOWN):
                line = line.strip()
                if line.startswith("known:"):
                    # known: property=C02 rule=R construct=<...> :: text
                    head, _, text = line[len("known:"):].partition("::")
                    kv = {}
                    rest = head.strip()
                    p, _, rest = rest.partition(" ")
                    r, _, rest = rest.partition(" ")
                    kv["property"] = p.split("=", 1)[1]
                    kv["rule"] = r.split("=", 1)[1]
                    kv["construct"] = rest.strip().split("=", 1)[1].strip()
                    out.add((kv["property"], kv["rule"], kv["construct"], text.strip()))
        return out

    def finish(self):
        bad = [o for o in self.obs if not o[2]]
        known = {(p, r, c): t for p, r, c, t in self.known()}
        new, old = [], []
        seen = set()
        for o in bad:
            if (self.prop, o[0], o[1]) in known:
                if (o[0], o[1]) not in seen:
                    old.append(o)
            else:
                new.append(o)
            seen.add((o[0], o[1]))
        nob, nok = len(self.obs), sum(1 for o in self.obs if o[2])
        if not nob:
            raise AnalysisBroken("no obligations were generated")
        if self.short and not new:
            raise AnalysisBroken("; ".join(self.short))
        per_rule = {}
        for r, c, ok, w, d in self.obs:
            e = per_rule.setdefault(r, {"rule": self.rules[r], "obligations": 0, "discharged": 0})
            e["obligations"] += 1
            e["discharged"] += ok
        samples = []
        taken = {}
        for r, c, ok, w, d in self.obs:
            if taken.get(r, 0) < 6 or not ok:
                taken[r] = taken.get(r, 0) + 1
                samples.append({"rule": r, "construct": c, "where": w, "ok": ok, "detail": d[:400]})
        ev = {
            "property": self.prop,
            "tier": self.tier if self.tier in ("quick", "thorough") else "quick",
            "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": "other",
            "coverage": {
                "explanation": self.explanation,
                "obligations": nob,
                "discharged": nok,
                "known_findings": len(old),
                "rules": per_rule,
                "analysed": self.analysed,
                "samples": samples[:120],
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(new),
        }
        edir = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
        os.makedirs(edir, exist_ok=True)
        replay = os.path.join(edir, "%s.replay.txt" % self.prop)
        with open(os.path.join(edir, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for o in old:
            print("KNOWN-FINDING: property=%s %s %s [%s]" % (
                self.prop, o[0], o[1], known[(self.prop, o[0], o[1])]))
        print("%s: %d obligations, %d discharged, %d known, %d violated (%.1fs)" % (
            self.prop, nob, nok, len(old), len(new), time.time() - self.t0))
        for r, e in sorted(per_rule.items()):
            print("  %-28s %4d/%d" % (r, e["discharged"], e["obligations"]))
        for k, v in sorted(self.analysed.items()):
            print("  analysed %s: %s" % (k, v))
        if new:
            with open(replay, "w") as f:
                for r, c, ok, w, d in new:
                    f.write("rule %s: %s\n  construct: %s\n  at: %s\n  %s\n\n" % (
                        r, self.rules[r], c, w, d))
                f.write("re-run: cd %s && %s\n" % (VERIF, " ".join(sys.argv)))
            for r, c, ok, w, d in new[:40]:
                print("  FAILED %s at %s: %s -- %s" % (r, w, c, d[:600]))
            print("VIOLATION property=%s replay=%s" % (self.prop, replay))
            return 1
        if os.path.exists(replay):
            os.remove(replay)
        return 0


def main(make):
    """make() runs the analysis and returns the finished Check."""
    try:
        chk = make()
        rc = chk.finish()
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN: %s" % e)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN: internal error")
        sys.exit(2)
    sys.stdout.flush()
    sys.exit(rc)


def content_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]
