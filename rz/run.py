"""check runner:  python3 -m rz.run <property> [quick|thorough]"""
import importlib, json, os, re, sys, time, traceback

from . import dump
from .program import Program

VERIF = dump.VERIF


class Report:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.viol = {}          # key -> message
        self.cov = {}
        self.notes = []
        self.samples = []
        self.assumptions = []
        self.obl = 0            # obligations analysed
        self.rule = ""
        self.fns = set()        # functions analysed

    def violation(self, key, msg):
        key = re.sub(r"\s+", " ", str(key))
        if key not in self.viol:
            self.viol[key] = msg

    def floor(self, what, got, least):
        """fail closed: an analysis that found fewer anchors than were counted by hand is not trusted"""
        self.cov[what] = got
        if got < least:
            self.violation("anchor:" + what, "anchor lost: %s is %s, at least %s were expected" % (what, got, least))

    def obligation(self, text, n=1):
        self.obl += n
        if len(self.samples) < 40:
            self.samples.append(text)


class Ctx:
    def __init__(self, pid, tier, prog):
        self.P = prog
        self.tier = tier
        self.r = Report(pid, tier)
        self.repo = dump.REPO

    @property
    def thorough(self):
        return self.tier == "thorough"


def known(pid):
    out = {}
    f = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"known: property=(\S+) key=\[(.*?)\] (.*)$", l.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


def main(argv):
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    try:
        d, hashes, ds = dump.ensure()
    except dump.DumpError as e:
        print("ERROR: the analysed tree does not compile: %s" % e)
        return 2
    P = Program(d)
    mod = importlib.import_module("rz.checks." + pid.lower())
    ctx = Ctx(pid, tier, P)
    r = ctx.r
    mod.run(ctx)
    kn = known(pid)
    live = {k: v for k, v in r.viol.items() if k not in kn}
    for k, v in sorted(r.viol.items()):
        if k in kn:
            print("KNOWN-FINDING: property=%s %s [%s]" % (pid, kn[k], k))
    rp = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rp, exist_ok=True)
    for i, (k, v) in enumerate(sorted(live.items())):
        f = os.path.join(rp, "%s-%d.txt" % (pid, i))
        with open(f, "w") as fh:
            fh.write("property %s\nkey %s\n%s\n" % (pid, k, v))
        print("VIOLATION property=%s replay=%s" % (pid, f))
        print("  key: %s\n  %s" % (k, v.replace("\n", "\n  ")))
    cov = {"explanation": r.rule, "obligations_analysed": r.obl,
           "functions_in_program": len(P.fns), "crates": sorted(set(P.crates)), "samples": r.samples}
    cov.update(r.cov)
    if r.fns:
        cov["functions_analysed"] = len(r.fns)
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other", "coverage": cov,
          "assumptions": r.assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(live)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    for n in r.notes:
        print("note: " + n)
    print("%s: %d obligations analysed, %d violations, %d known findings (%.1fs, dump %.1fs)"
          % (pid, r.obl, len(live), len(r.viol) - len(live), time.time() - t0, ds))
    print("covered: " + ", ".join("%s=%s" % (k, v) for k, v in r.cov.items()))
    return 1 if live else 0


if __name__ == "__main__":
    if os.environ.get("PYTHONHASHSEED") != "0":
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable, "-m", "rz.run"] + sys.argv[1:])
    try:
        rc = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    os._exit(rc)
