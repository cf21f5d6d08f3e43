"""Shared frame of all checks: obligations, violations, known findings, evidence."""
import json, os, sys, time, traceback
import build as B

VERIF = B.VERIF


class Check:
    def __init__(s, pid, rule, trusted=None, assumptions=None, level="proof"):
        s.pid = pid
        s.rule = rule
        s.level = level
        s.t0 = time.time()
        s.tier = os.environ.get("VERIF_TIER", "quick")
        if s.tier not in ("quick", "thorough"):
            s.tier = "quick"
        s.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        s.obl = 0
        s.ok = 0
        s.viol = []        # (key, text)
        s.seen = set()
        s.samples = []
        s.counts = {}
        s.floors = []
        s.assumptions = assumptions or []
        s.trusted = ["clang 18 front end and LLVM mem2reg (C source to typed IR with the build's flags)",
                     "tool/irdump.cpp and lib/*.py of this repository (the analyser itself)",
                     "lib/ext.py (hand-written effects of the libsc, MPI and libc functions called)"] + (trusted or [])

    def count(s, name, n=1):
        s.counts[name] = s.counts.get(name, 0) + n

    def floor(s, name, value, minimum):
        """instance counts confirmed by hand: a collapse is an error, not a pass"""
        s.counts[name] = value
        if value < minimum:
            s.floors.append("%s: %d instances, at least %d expected" % (name, value, minimum))

    def obligation(s, good, key, text, sample=False):
        """one decided instance of the rule; key identifies it independent of line numbers"""
        s.obl += 1
        if good:
            s.ok += 1
            if len(s.samples) < 6 and (sample or s.obl % 97 == 1):
                s.samples.append(text if isinstance(text, str) else str(text))
        else:
            s.violation(key, text)
        return good

    def good(s, n=1):
        s.obl += n
        s.ok += n

    def violation(s, key, text):
        if key in s.seen:
            return
        s.seen.add(key)
        s.viol.append((key, text))

    def finish(s):
        kf = []
        p = os.path.join(VERIF, "known_findings.json")
        if os.path.exists(p):
            with open(p) as f:
                kf = [k for k in json.load(f)["findings"] if k.get("property") == s.pid and k.get("status") == "known"]
        known = {k["key"]: k for k in kf}
        new = []
        hit = []
        for key, text in s.viol:
            if key in known:
                hit.append((key, text))
            else:
                new.append((key, text))
        ev = {
            "property": s.pid, "tier": s.tier, "seed": s.seed, "level": s.level,
            "coverage": {
                "obligations": s.obl, "discharged": s.ok,
                "checker_cmd": "python3 checks/%s.py" % s.pid,
                "trusted_base": s.trusted,
                "rule": s.rule, "counts": s.counts, "samples": s.samples,
                "explanation": s.rule,
            },
            "assumptions": s.assumptions,
            "wall_s": round(time.time() - s.t0, 2),
            "violations": len(new),
        }
        if hit:
            ev["coverage"]["known_findings"] = [k for k, _ in hit]
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", s.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k, t in hit:
            print("KNOWN-FINDING: property=%s %s" % (s.pid, k))
        if new:
            rp = os.path.join(VERIF, "evidence", s.pid + ".replay.txt")
            with open(rp, "w") as f:
                f.write("property %s\nrule: %s\nre-run: cd /verif && python3 checks/%s.py\n\n" % (s.pid, s.rule, s.pid))
                for k, t in new:
                    f.write("[%s]\n%s\n\n" % (k, t))
            for k, t in new[:4000 if os.environ.get("ALLV") else 40]:
                print("  %s: %s" % (k, t))
            print("VIOLATION property=%s replay=%s" % (s.pid, rp))
            return 1
        if s.floors:
            print("ANALYSIS BROKEN property=%s: %s" % (s.pid, "; ".join(s.floors)))
            return 2
        print("OK property=%s obligations=%d %s (%.1fs)" % (s.pid, s.obl, s.counts, time.time() - s.t0))
        return 0


def main(fn):
    if os.environ.get("PYTHONHASHSEED") != "0":
        # the same order of sets in every run
        sys.stdout.flush()
        os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED="0"))
    try:
        rc = fn()
    except B.Broken as e:
        print("ANALYSIS BROKEN:", e)
        rc = 3
    except Exception:
        traceback.print_exc()
        rc = 4
    sys.stdout.flush()
    sys.exit(rc)
