#!/usr/bin/env python3
"""check.py PROPERTY: decides one property of /repo's working tree.

1. extract/ copies the crate under contract from /repo into one Verus file and
   attaches the contracts of contracts/ to the functions, by path.
2. Verus discharges (or doesn't) every obligation of the functions the property
   depends on.
3. harness/ (linked against /repo) replays: a bounded conformance check of the same
   contracts, which turns a violation into a concrete input.

Exits 0 (held, or undecided where the verifier can't follow the changed text and the
bounded check is quiet) or 1 (with a VIOLATION line); nothing else.
"""
import json, os, re, subprocess, sys, time, threading, traceback, hashlib

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("HOP_REPO", "/repo")
TARGET = os.path.join(HERE, "target")
sys.path.insert(0, os.path.join(HERE, "driver"))
from props import PROPS, UNITS, KNOWN_FILE  # noqa: E402
import stamp  # noqa: E402

ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET"):
    ENV.pop(k, None)
START = time.time()
BUDGET = 840.0


def left():
    return max(5.0, BUDGET - (time.time() - START))


def sh(cmd, timeout=None, env=None, cwd=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=min(timeout or left(), left()))
        return p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode("utf-8", "replace"), "timed out"


def build_extractor():
    rc, o, e = sh(["cargo", "build", "--offline", "--target-dir", os.path.join(TARGET, "extract")],
                  cwd=os.path.join(HERE, "extract"))
    return None if rc == 0 else "the extractor doesn't build: " + e[-2000:]


def build_harness():
    """Builds the harness with the hooks on, or else without them."""
    base = ["cargo", "build", "--offline", "--target-dir", os.path.join(TARGET, "harness")]
    cwd = os.path.join(HERE, "harness")
    target = os.path.join(TARGET, "harness")
    now = stamp.before(REPO, target)
    rc, o, e = sh(base + ["--features", "hooks"], cwd=cwd, env=dict(ENV, RUSTFLAGS="--cfg hop_verif"))
    if rc == 0:
        stamp.after(target, now)
        return True, None
    first = e
    rc, o, e = sh(base, cwd=cwd)
    if rc == 0:
        stamp.after(target, now)
        return True, "built without the hooks: " + first[-600:]
    return False, "the harness doesn't build against this tree: " + first[-1500:]


def build_server():
    """The server's binary, and what it needs to get a socket with this toolchain (see harness/netfix.c)."""
    so = os.path.join(TARGET, "netfix.so")
    rc, o, e = sh(["gcc", "-shared", "-fPIC", "-O1", "-o", so, os.path.join(HERE, "harness", "netfix.c")])
    if rc:
        return "netfix.so doesn't build: " + e[-500:]
    target = os.path.join(TARGET, "server")
    now = stamp.before(REPO, target)
    rc, o, e = sh(["cargo", "build", "--offline", "--locked", "--manifest-path", os.path.join(REPO, "server", "Cargo.toml"),
                   "--target-dir", target])
    if rc:
        return "the server doesn't build: " + e[-1500:]
    stamp.after(target, now)
    ENV.update(HOP_SERVER=os.path.join(TARGET, "server", "debug", "hop-server"))
    return None


class Proof:
    """One unit (crate) of the proof of one property."""

    def __init__(self, prop, unit, mods, fns):
        self.prop, self.unit, self.mods, self.want = prop, UNITS[unit], mods, fns
        self.name = unit
        self.dir = os.path.join(TARGET, "proof", prop)
        os.makedirs(self.dir, exist_ok=True)
        self.undecided = []
        self.failed = {}
        self.verified = 0
        self.errors = 0
        self.smt_ms = 0
        self.breakdown = []
        self.functions = []
        self.report = {}
        self.degraded = {}
        self.raw = ""
        self.cmd = ""
        self.probes = (0, 0)
        self.text = ""

    def extract(self, degrade, probe=False):
        out = os.path.join(self.dir, self.name + ("_probe" if probe else "") + ".rs")
        rep = os.path.join(self.dir, self.name + ("_probe" if probe else "") + ".json")
        cmd = [os.path.join(TARGET, "extract", "debug", "extract"), "--root", os.path.join(REPO, self.unit["root"]),
               "--prelude", os.path.join(HERE, "contracts", "prelude.rs"), "--out", out, "--report", rep]
        for name, root in self.unit.get("also", []):
            cmd += ["--also", "%s=%s" % (name, os.path.join(REPO, root))]
        for p in self.unit.get("preludes", []):
            cmd += ["--prelude", os.path.join(HERE, "contracts", p)]
        for c in self.unit["contracts"].split():
            d = os.path.join(HERE, "contracts", c)
            for f in sorted(os.listdir(d)):
                if f.endswith(".vc"):
                    cmd += ["--contracts", os.path.join(d, f)]
        for f in degrade:
            cmd += ["--degrade", f]
        for m in self.unit.get("skip_mods", []):
            cmd += ["--skip-mod", m]
        if probe:
            cmd += ["--probe"]
        rc, o, e = sh(cmd, 60)
        if rc != 0:
            return None, "extraction failed: " + e[-1500:]
        text = open(out).read()
        for pat, rep_ in self.unit.get("post", []):
            text = re.sub(pat, lambda m: rep_ + "\n" * m.group(0).count("\n"), text, flags=re.S)
        open(out, "w").write(text)
        if not probe:
            self.text = text
        return out, json.load(open(rep))

    def owner(self, fns, line):
        best = None
        for f in fns:
            a, b = f["out_lines"]
            if a <= line <= b and (best is None or a >= best["out_lines"][0]):
                best = f
        return best

    def verus(self, out, fns, rlimit=None, threads=6, extra=(), mods=None, more_errors=5):
        cmd = ["verus", out, "--error-format=json", "--output-json", "--time-expanded", "--triggers-mode", "silent",
               "--num-threads", str(threads), "--multiple-errors", str(more_errors)] + list(extra)
        for m in mods or self.mods:
            cmd += ["--verify-root"] if m == "" else ["--verify-module", m]
        if rlimit:
            cmd += ["--rlimit", str(rlimit)]
        env = dict(ENV)
        rc, o, e = sh(cmd, 400, env=env, cwd=self.dir)
        self.cmd = self.cmd or " ".join(cmd)
        front, fails, rlim, raw = False, {}, set(), []
        for l in e.splitlines():
            try:
                d = json.loads(l)
            except ValueError:
                raw.append(l)
                continue
            if d.get("level") != "error" or d["message"].startswith("aborting due to"):
                continue
            raw.append(d.get("rendered") or d["message"])
            msg = d["message"]
            front = front or bool(d.get("code"))  # rustc's: not about a proof obligation
            spans = d["spans"]
            prim = [s for s in spans if s["is_primary"]] or spans
            oth = [s for s in spans if not s["is_primary"]]
            order = oth + prim if "postcondition" in msg else prim + oth
            f = None
            for s in order:
                f = self.owner(fns, s["line_start"])
                if f:
                    break
            where = f["path"] if f else "line %s" % (prim[0]["line_start"] if prim else "?")
            detail = {"obligation": msg, "at": [
                {"line": s["line_start"], "label": s["label"], "text": (s["text"][0]["text"].strip() if s["text"] else "")}
                for s in spans]}
            if "rlimit" in msg or "Resource limit" in msg:
                rlim.add(where)
            else:
                fails.setdefault(where, []).append(detail)
        try:
            j = json.loads(o)
        except ValueError:
            j = {}
        res = j.get("verification-results", {})
        ok_front = not front and bool(res) and not res.get("encountered-vir-error") and "verified" in res
        ok_front = ok_front and res["verified"] + res.get("errors", 0) > 0
        return ok_front, res, fails, rlim, j, "\n".join(raw)

    def in_scope(self, path):
        return any(path == w or path.startswith(w) for w in self.want)

    def concerns(self, detail):
        """Clauses of a contract may be marked with the properties they state: /*C10 C15*/."""
        if "postcondition" not in detail["obligation"]:
            return True
        tags = [m.group(1).split() for a in detail["at"] for m in re.finditer(r"/\*((?:C\d\d ?)+)\*/", a["text"])]
        return not tags or any(self.prop in t for t in tags)

    def run(self):
        degrade = set()
        tries = 0
        while True:
            out, rep = self.extract(degrade)
            if out is None:
                self.undecided.append(rep)
                return
            fns = rep["functions"]
            ok, res, fails, rlim, j, raw = self.verus(out, fns)
            if ok:
                break
            tries += 1
            # The front end doesn't accept some functions: leave their bodies out.
            bad = {w for w in fails if any(f["path"] == w for f in fns)} - degrade
            if not bad or tries > 6:
                self.undecided.append("the verifier's front end rejects the extracted text: " + raw[-1800:])
                self.raw = raw
                return
            degrade |= bad
        self.report = rep
        byname = {f["path"]: f for f in fns}
        # More resources for what ran out of them.
        for s in (None, 1, 2):
            if not rlim or degrade or left() < 400:
                break
            more = [] if s is None else ["--smt-option", "smt.random_seed=%d" % s]
            ok2, res2, fails2, rlim2, j2, raw2 = self.verus(out, fns, rlimit=40, extra=more)
            if ok2 and len(rlim2) <= len(rlim):
                res, fails, rlim, j, raw = res2, fails2, rlim2, j2, raw2
        self.raw = raw
        self.verified, self.errors = res.get("verified", 0), res.get("errors", 0)
        for m in j.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
            self.smt_ms += m.get("time", 0)
            for f in m.get("function-breakdown", []):
                self.breakdown.append((f["function"], f["success"], f.get("time", 0)))
        self.functions = [f for f in fns if self.in_scope(f["path"])]
        lost = {}
        for l in rep["lost_anchors"]:
            lost[l.split(": ")[0]] = l
        for f in self.functions:
            if f["degraded"]:
                self.degraded[f["path"]] = f["degraded"]
        for p in degrade:
            if self.in_scope(p):
                self.degraded[p] = "not accepted by the verifier's front end"
        plain = set()  # what is called and has no contract: `name`, `Type::name`
        for f in fns:
            if not f["has_contract"] and (f["degraded"] or not f["external"]):
                seg = re.sub(r"<.*?>", "", f["path"]).split("::")
                plain |= {seg[-1]} | {"%s::%s" % (t, seg[-1]) for t in seg[:-1]}
        known = self.unit.get("known_plain", set())
        told = {l.strip() for l in open(os.path.join(HERE, "contracts", "known_calls.txt")) if l[0] != "#"}
        for f in fns:
            if f["has_contract"]:
                seg = re.sub(r"<.*?>", "", f["path"]).split("::")
                told |= {seg[-1]} | {"%s::%s" % (t, seg[-1]) for t in seg[:-1]}

        def untold(c):
            last = c.split("::")[-1]
            return not last[:1].isupper() and c not in told
        for p in rlim:
            if self.in_scope(p):
                self.undecided.append("%s: the solver ran out of resources" % p)
        for p, d in fails.items():
            d = [x for x in d if self.concerns(x)]
            if not d:
                continue
            if p.startswith("line "):
                self.undecided.append("%s: a lemma isn't proved: %s" % (p, d[0]["obligation"]))
                continue
            if not self.in_scope(p):
                continue
            f = byname[p]
            helpers = [c for c in f["calls"] if c in plain and c not in known]
            if not f["has_contract"]:
                self.undecided.append("%s: fails without a contract: %s" % (p, d[0]["obligation"]))
            elif f["degraded"]:
                self.undecided.append("%s: %s" % (p, f["degraded"]))
            elif helpers:
                self.undecided.append("%s: calls functions without a contract (%s)" % (p, ", ".join(sorted(set(helpers)))))
            elif any(untold(c) for c in f["calls"]):
                self.undecided.append("%s: calls what the contracts of its callees may say too little about (%s)" % (
                    p, ", ".join(sorted(c for c in f["calls"] if untold(c)))))
            elif p in lost:
                self.undecided.append("%s: %s, and then: %s" % (p, lost[p], d[0]["obligation"]))
            elif p in rlim:
                pass
            else:
                self.failed[p] = d
        for u in rep["unused_contracts"]:
            if self.in_scope(u):
                self.undecided.append("%s: under contract, but not in the tree" % u)
        for p, why in self.degraded.items():
            self.undecided.append("%s: %s" % (p, why))

    def probe(self):
        """Every function under contract must fail an `assert(false)` at its start."""
        if self.degraded:
            return  # undecided anyway
        out, rep = self.extract(set(self.degraded), probe=True)
        if out is None:
            return
        fns = rep["functions"]
        ok, res, fails, rlim, j, raw = self.verus(out, fns, more_errors=0)
        want = [f["path"] for f in fns if f["has_contract"] and not f["external"] and self.in_scope(f["path"])
                and f["path"] not in UNITS[self.name].get("no_body", set())]
        src = open(out).read().split("\n")
        want = [p for p in want if any("/*PROBE*/" in l for l in src[next(f for f in fns if f["path"] == p)["out_lines"][0] - 1:
                                                               next(f for f in fns if f["path"] == p)["out_lines"][1]])]
        if not ok:
            self.undecided.append("vacuity probes rejected: " + raw[-600:])
            return
        vac = [p for p in want if p not in fails and p not in rlim]  # out of resources: not proved contradictory
        self.probes = (len(want), len(want) - len(vac))
        for p in vac:
            self.undecided.append("%s: its precondition is contradictory (vacuous)" % p)

    def trusted(self):
        out = []
        lines = self.text.split("\n")
        pend, owner = None, ""
        for i, l in enumerate(lines):
            if l.lstrip().startswith("//"):
                continue
            m = re.match(r"(?:pub )?(?:unsafe )?(?:impl\b(?:<.*?>)? (.*?)|trait (\w+).*?) ?(?:where.*)?\{", l)
            if m:
                owner = (m.group(1) or m.group(2)).split(" for ")[-1] + "::"
            elif l.startswith("}"):
                owner = ""
            if "assume_specification" in l:
                m = re.search(r"assume_specification.*?\[(.*?)\]", l + lines[i + 1] if i + 1 < len(lines) else l)
                out.append("assumed specification: " + (m.group(1).strip() if m else l.strip()))
            if "external_body" in l or "external_type_specification" in l:
                pend = "trusted body" if "external_body" in l else "external type"
            if pend:
                m = re.search(r"\b(fn|struct|enum)\s+([A-Za-z0-9_]+)", l)
                if m:
                    out.append("%s: %s%s" % (pend, owner if m.group(1) == "fn" else "", m.group(2)))
                    pend = None
            if re.search(r"\badmit\s*\(\s*\)", l) or re.search(r"\bassume\s*\(", l):
                out.append("assumed: " + l.strip()[:120])
            if re.search(r"\baxiom\s+fn\s+(\w+)", l):
                out.append("axiom: " + re.search(r"axiom\s+fn\s+(\w+)", l).group(1))
        return sorted(set(out))


def harness(prop, tier, seed, limit, out, extra=()):
    exe = os.path.join(TARGET, "harness", "debug", "hop-verif-harness")
    if os.path.exists(out):
        os.remove(out)
    env = dict(ENV, LD_PRELOAD=os.path.join(TARGET, "netfix.so")) if prop == "C25" else ENV
    rc, o, e = sh([exe, "--prop", prop, "--seed", str(seed), "--tier", tier, "--limit", str(int(limit)), "--out", out] + list(extra),
                  limit + 90, env)
    if rc == 3 and prop == "C25":
        return None, "the harness has no server: " + e[-500:]
    try:
        j = json.load(open(out))
    except Exception:
        j = None
    if j is None:
        # The process died: run again, with the number of the case written out.
        tr = out + ".case"
        rc, o, e = sh([exe, "--prop", prop, "--seed", str(seed), "--tier", tier, "--limit", str(int(limit)), "--out", out,
                       "--trace", tr] + list(extra), limit + 90, env)
        case = open(tr).read() if os.path.exists(tr) else "?"
        if rc in (124,):
            return None, "the harness didn't finish in time"
        if rc == 101:
            return None, "the harness failed: " + e[-500:]
        if rc not in (0, 1):
            return {"done": 0, "skipped": 0, "distinct": 0, "samples": [], "known": {}, "seconds": 0,
                    "fail": {"case": case, "what": "the process ended with status %d: %s" % (rc, e[-500:]), "input": "see case number"}}, None
        try:
            j = json.load(open(out))
        except Exception:
            return None, "the harness gave no report: " + e[-500:]
    return j, None


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    cfg = PROPS[prop]
    os.makedirs(os.path.join(TARGET, "proof"), exist_ok=True)
    ev_dir = os.path.join(HERE, "evidence")
    os.makedirs(os.path.join(ev_dir, "replays"), exist_ok=True)
    replay = os.path.join(ev_dir, "replays", prop + ".txt")
    notes = []

    hprop = cfg.get("harness", prop)
    hb = {}

    def bounded():
        hb.update(r=build_harness())
        if prop == "C25" and hb["r"][0]:
            why = build_server()
            if why:
                hb["r"] = (False, why)
        if hb["r"][0]:
            limit = 60 if tier == "quick" else 360
            hb["h"] = harness(hprop, tier, seed, limit, os.path.join(TARGET, "proof", prop + "_h.json"))

    t = threading.Thread(target=bounded)
    t.start()
    err = build_extractor()
    proofs = []
    if err:
        notes.append(err)
    else:
        for unit, mods, fns in cfg.get("proof", []):
            p = Proof(prop, unit, mods, fns)
            try:
                p.run()
                p.probe()
            except Exception:
                p.undecided.append("driver: " + traceback.format_exc()[-1500:])
            proofs.append(p)
    t.join()
    built, why = hb.get("r", (False, "build thread failed"))
    if why:
        notes.append(why)

    conf = None
    bounded_fail = None
    if built:
        conf, why = hb.get("h", (None, "the harness thread failed"))
        if why:
            notes.append(why)
        if conf and conf.get("fail"):
            bounded_fail = conf["fail"]
    failed = {p: d for x in proofs for p, d in x.failed.items()}
    undecided = [u for x in proofs for u in x.undecided]
    # An obligation fails, or the proof doesn't apply to changed code: look longer for an input, unless this was the long search.
    if (failed or undecided) and not bounded_fail and built and tier == "quick":
        for s in (seed + 1, seed + 2):
            c2, _ = harness(hprop, "thorough", s, min(90, left() / 3), os.path.join(TARGET, "proof", prop + "_h2.json"))
            if c2 and c2.get("fail"):
                bounded_fail = c2["fail"]
                bounded_fail["seed"] = s
                break

    known = {}
    kf = os.path.join(HERE, KNOWN_FILE)
    for l in open(kf):
        m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", l.strip())
        if m and m.group(1) == prop:
            known[m.group(2)] = m.group(3)

    violation = bool(bounded_fail) or bool(failed)
    # Hits of a known input that isn't listed are violations.
    unlisted = [k for k in (conf or {}).get("known", {}) if k not in known]
    if unlisted:
        violation = True

    level = cfg["level"]
    obligations = sum(p.verified + p.errors for p in proofs)
    discharged = sum(p.verified for p in proofs)
    under = [f for p in proofs for f in p.functions if f["has_contract"]]
    cov = {}
    if proofs:
        cov.update({
            "obligations": obligations,
            "discharged": discharged,
            "checker_cmd": "; ".join(p.cmd for p in proofs),
            "trusted_base": [("%s: " % p.name) + x for p in proofs for x in p.trusted()],
            "back_end": "Verus 0.2026.09.13 with its Z3",
            "functions_under_contract": [f["path"] for f in under if not f["external"]],
            "functions_with_trusted_contract": [f["path"] for f in under if f["external"]],
            "functions_without_contract": [f["path"] for p in proofs for f in p.functions if not f["has_contract"]],
            "contract_clauses": sum(f["clauses"] for f in under),
            "solver_ms": sum(p.smt_ms for p in proofs),
            "vacuity_probes": "%d of %d functions reachable under their precondition" % (
                sum(p.probes[1] for p in proofs), sum(p.probes[0] for p in proofs)),
            "undecided": undecided,
            "failed_obligations": failed,
            "extraction": {"rewrites": {k: v for p in proofs for k, v in p.report.get("rewrites", {}).items()},
                           "dropped": [x for p in proofs for x in p.report.get("dropped", [])]},
        })
    cov["bounded_conformance"] = "none" if conf is None else {
        "label": "bounded, not counted as proved",
        "cases": conf["done"], "distinct": conf["distinct"], "skipped": conf["skipped"], "seconds": conf["seconds"]}
    if conf is not None:
        cov["evaluations"] = conf["done"]
        cov["distinct_nontrivial"] = conf["distinct"]
        cov["rule"] = cfg.get("rule", "cases are generated from the seed by the oracle of the property in harness/src; "
                              "distinct counts different inputs (as written out)")
        cov["samples"] = conf["samples"][:3]
    if notes:
        cov["notes"] = notes
    if level == "other":
        cov["explanation"] = cfg.get("explanation", "")
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": cfg.get("assumptions", []), "wall_s": round(time.time() - START, 2),
          "violations": int(violation)}
    with open(os.path.join(ev_dir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

    for k, n in sorted((conf or {}).get("known", {}).items()):
        if k in known:
            print("KNOWN-FINDING: property=%s %s (%s)" % (prop, known[k], k))
    for u in undecided + notes:
        print("UNDECIDED: " + u.replace("\n", " ")[:300])
    print("%s: %d of %d obligations discharged, %d functions under contract; bounded conformance: %s cases" % (
        prop, discharged, obligations, len(under), conf["done"] if conf else "no"))
    if violation:
        with open(replay, "w") as f:
            f.write("property %s\n" % prop)
            if bounded_fail:
                s = bounded_fail.get("seed", seed)
                f.write("\nviolated by this input, against the code in %s:\n%s\n\n%s\n\n" % (REPO, bounded_fail["what"], bounded_fail["input"]))
                f.write("to replay: %s%s --prop %s --seed %s --case %s\n" % (
                    "HOP_SERVER=%s LD_PRELOAD=%s " % (ENV.get("HOP_SERVER"), os.path.join(TARGET, "netfix.so")) if prop == "C25" else "", os.path.join(TARGET, "harness/debug/hop-verif-harness"), hprop, s, bounded_fail["case"]))
            for k in unlisted:
                f.write("violated by the known input %s, which isn't listed\n" % k)
            for p, d in failed.items():
                f.write("\nfailed obligation in %s:\n%s\n" % (p, json.dumps(d, indent=1)))
            for x in proofs:
                if x.failed:
                    f.write("\nthe verifier's output:\n%s\n" % x.raw[:20000])
        tail = "" if (bounded_fail or unlisted) else " no-failing-input-found"
        for p in failed:
            print("failed obligation: %s: %s" % (p, failed[p][0]["obligation"]))
        if bounded_fail:
            print("input: " + bounded_fail["what"][:600])
        print("VIOLATION property=%s replay=%s%s" % (prop, replay, tail))
        sys.stdout.flush()
        return 1
    return 0


if __name__ == "__main__":
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:
        print("UNDECIDED: " + traceback.format_exc()[-3000:])
        code = 0
    sys.stdout.flush()
    os._exit(code)
