#!/usr/bin/env python3
"""check.py PROPERTY: decide one property on /repo's current tree.

1. extract the functions of /repo, put the contracts in, run the verifier
   (twice: the second time with an assertion in every body that must fail);
2. look for a concrete failing input on the real code (bounded stand-in, and
   the replay of what the verifier rejects).

Exit 0, or exit 1 with a VIOLATION line. See DESIGN.md, "Verdicts".
"""
import json, os, re, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(HERE, ".build")
REPO = "/repo"
T0 = time.time()
SEED = os.environ.get("VERIF_SEED", "1")
SEED = int(SEED) if re.fullmatch(r"\d+", SEED) else 1
TIER = os.environ.get("VERIF_TIER", "quick")
TIER = TIER if TIER in ("quick", "thorough") else "quick"
# seconds
BUDGET = 840 if TIER == "quick" else 3 * 3600
REFUTE_SECS = 12 if TIER == "quick" else 240

SEMANTIC = (
    "postcondition not satisfied", "precondition not satisfied", "assertion failed",
    "invariant not satisfied", "possible arithmetic underflow/overflow", "possible division by zero",
    "decreases not satisfied", "loop ensures not satisfied", "possible bit shift underflow/overflow",
    "loop invariant not satisfied", "unable to prove post-condition of closure", "precondition not met", "bitvector assertion not satisfied",
    "value may fail to meet", "unreachable", "constructed value may fail to meet its declared type invariant",
)
UNDECIDED = ("rlimit", "resource limit", "timed out", "timeout", "Resource limit")


def run(cmd, timeout, env=None, cwd=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=max(5, timeout), env=e, cwd=cwd)
        return p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as x:
        return -9, (x.stdout or b"").decode("utf-8", "replace"), (x.stderr or b"").decode("utf-8", "replace") + "\ntimeout"
    except OSError as x:
        return -1, "", str(x)


def left():
    return BUDGET - (time.time() - T0)


# ---------------------------------------------------------------- verifier

class Verifier:
    """The deductive stage: what the verifier said about each function."""

    def __init__(self, work):
        self.work = work
        self.ok = False          # the verifier ran to its end
        self.notes = []
        self.fns = []
        self.lost = []
        self.dropped = {}
        self.fail = {}           # key -> [messages], semantic
        self.undec = {}          # key -> [messages]
        self.lemma_fail = {}     # prelude function -> [messages]
        self.lemmas = set()
        self.verified = self.errors = 0
        self.vacuous = []
        self.times = {}
        self.trusted = []
        self.rendered = []
        self.cmd = ""
        self.smt_s = 0.0
        self.wall = 0.0

    def go(self):
        t = time.time()
        try:
            self._go()
        except Exception as x:  # the stand-in decides then
            self.notes.append(f"deductive stage failed: {x!r}")
            self.ok = False
        self.wall = time.time() - t

    def _go(self):
        tgt = os.path.join(BUILD, "extract")
        rc, _, err = run(["cargo", "build", "--offline", "-q", "--release"], 600, {"CARGO_TARGET_DIR": tgt, "RUSTFLAGS": ""}, os.path.join(HERE, "extract"))
        if rc != 0:
            self.notes.append("the extractor does not build: " + err[-400:])
            return
        self.ext = os.path.join(tgt, "release", "extract")
        os.makedirs(self.work, exist_ok=True)
        degraded = []
        for rnd in range(14):
            if not self.extract("out.rs", "map.json", degraded, {}):
                return
            diags, js, rc = self.verus("out.rs", ["--output-json", "--time-expanded", "--rlimit", "30"])
            bad, outside = self.read(diags, js)
            if bad:
                # a function that stays in the way goes altogether
                degraded += [x for b in bad for x in ([b] if b not in degraded else ["!" + b]) if x not in degraded]
                self.notes.append(f"not supported by the verifier, left to the stand-in: {', '.join(sorted(bad))}")
                continue
            if outside:
                self.notes.append("the verifier rejects the extracted text: " + outside[0][:400])
                return
            break
        else:
            return
        self.ok = js is not None and bool(js.get("verification-results"))
        self.again()
        self.vacuity(degraded)

    def extract(self, out, mp, degraded, env):
        rc, _, err = run([self.ext, os.path.join(HERE, "verus/config"), os.path.join(self.work, out), os.path.join(self.work, mp)] + degraded, 60, env)
        if rc != 0:
            self.notes.append("the extractor rejects the sources: " + err[-400:])
            return False
        m = json.load(open(os.path.join(self.work, mp)))
        self.fns, self.lost, self.dropped = m["functions"], m["lost"], m["dropped"]
        self.notes += [n for n in m["notes"] if n not in self.notes]
        self.index(out)
        return True

    def index(self, out):
        """Line ranges of functions and lemmas in the text."""
        by_id = {f["id"]: f["key"] for f in self.fns}
        self.ranges = []
        self.lemma_at = []
        open_, trusted = {}, []
        lines = open(os.path.join(self.work, out)).read().split("\n")
        mod, marks = [], False
        for n, l in enumerate(lines, 1):
            s = l.strip()
            m = re.match(r"//@@(fn|end)(\d+)$", s)
            if m:
                marks = True
                i = int(m.group(2))
                if m.group(1) == "fn":
                    open_[i] = n
                else:
                    self.ranges.append((open_.pop(i), n, by_id[i]))
                continue
            m = re.match(r"(?:#\[[^\]]*\]\s*)*(?:pub(?:\([a-z]+\))? )?(?:broadcast )?(?:open |closed |uninterp )?(proof|axiom|spec|exec)? ?fn (\w+)", s)
            if m and not open_:
                self.lemma_at.append((n, m.group(2), m.group(1) or "exec"))
            if re.search(r"external_body|\baxiom fn\b|assume_specification|\badmit\(|\bassume\(|assume_new|external_type_specification|uninterp ", s):
                trusted.append(n)
        self.lines = lines
        self.lemmas = {l[1] for l in self.lemma_at if l[2] == "proof"}
        names = []
        for n in trusted:
            for k in range(n, min(n + 6, len(lines) + 1)):
                m = re.search(r"(?:fn|struct|trait|type|spec \[)\s*(\w[\w:<>]*)", lines[k - 1])
                if m and "#[" not in lines[k - 1].split("fn")[0].split("struct")[0][:2]:
                    names.append(m.group(1))
                    break
        own = {f["key"].split("::")[-1] for f in self.fns if f["state"] in ("unsupported", "no contract", "assumed")}  # listed on their own
        self.trusted = sorted(set(names) - own)

    def verus(self, out, args):
        cmd = ["verus", out, "--error-format=json", "--num-threads", "6"] + args
        self.cmd = "verus " + " ".join(cmd[1:])
        rc, so, se = run(cmd, min(500, left() - 60), None, self.work)
        diags = []
        for l in se.split("\n"):
            if l.startswith("{"):
                try:
                    diags.append(json.loads(l))
                except ValueError:
                    pass
        js = None
        try:
            js = json.loads(so)
        except ValueError:
            pass
        if rc not in (0, 1) and js is None and not any(d.get("level") == "error" for d in diags):
            diags.append({"level": "error", "message": f"the verifier ended with {rc}: {se[-600:]}", "spans": []})
        return diags, js, rc

    def where(self, line):
        for a, b, k in self.ranges:
            if a <= line <= b:
                return k
        return None

    def lemma(self, line):
        best = None
        for n, name, _ in self.lemma_at:
            if n <= line:
                best = name
        return best

    def read(self, diags, js):
        bad, outside = set(), []
        self.fail, self.undec, self.lemma_fail, self.rendered = {}, {}, {}, []
        last_note = []
        for d in diags:
            if d.get("level") != "error":
                continue
            msg = d["message"]
            if msg.startswith("aborting due to"):
                continue
            spans = d.get("spans", [])
            spans += [s for c in d.get("children", []) for s in c.get("spans", [])]
            body = [s for s in spans if not re.search(r"failed (this )?(postcondition|precondition)", s.get("label") or "")]
            keys = [self.where(s["line_start"]) for s in body] + [self.where(s["line_start"]) for s in spans]
            # the innermost range
            keys = [k for k in keys if k]
            text = f"{msg}\n{d.get('rendered', '')}"
            if any(msg.startswith(s) for s in SEMANTIC):
                self.rendered.append(d.get("rendered", msg))
                if keys:
                    self.fail.setdefault(keys[0], []).append(text)
                else:
                    ln = (body or spans or [{"line_start": 0}])[0]["line_start"]
                    self.lemma_fail.setdefault(self.lemma(ln) or "?", []).append(text)
            elif any(u in msg for u in UNDECIDED):
                if keys:
                    self.undec.setdefault(keys[0], []).append(text)
                else:
                    ln = (spans or [{"line_start": 0}])[0]["line_start"]
                    self.undec.setdefault("lemma " + str(self.lemma(ln)), []).append(text)
            elif keys:
                bad.add(keys[0])
                self.notes.append(f"{keys[0]}: {msg[:200]}")
            else:
                outside.append(d.get("rendered") or msg)
        if js:
            r = js.get("verification-results", {})
            self.verified, self.errors = r.get("verified", 0), r.get("errors", 0)
            t = js.get("times-ms", {})
            self.times = {"total_ms": t.get("total"), "cpu_ms": t.get("estimated-cpu-time")}
            try:
                self.smt_s = t["smt"]["total"] / 1000.0
            except (KeyError, TypeError):
                pass
        # a function whose type does not check hides everything else
        if bad:
            self.fail, self.undec, self.lemma_fail = {}, {}, {}
        return bad, outside

    def again(self):
        """What was not proved is tried with other seeds of the solver: a proof
        that is found counts, whichever seed it took."""
        for seed in (7, 42):
            if not (self.fail or self.undec or self.lemma_fail) or not self.ok or left() < 400:
                return
            before = (self.fail, self.undec, self.lemma_fail, self.verified, self.errors, self.times, self.rendered, self.smt_s, self.cmd)
            diags, js, rc = self.verus("out.rs", ["--output-json", "--rlimit", "30", "--smt-option", f"smt.random_seed={seed}"])
            bad, outside = self.read(diags, js)
            now = set(self.fail) | set(self.undec) | {"lemma " + l for l in self.lemma_fail}
            ran = js is not None and bool(js.get("verification-results")) and not bad and not outside
            self.fail, self.undec, self.lemma_fail, self.verified, self.errors, self.times, self.rendered, self.smt_s, self.cmd = before
            if not ran:
                return
            gone = [k for k in list(self.fail) + list(self.undec) + ["lemma " + l for l in self.lemma_fail] if k not in now]
            if gone:
                self.notes.append(f"proved with the solver's seed {seed}: {', '.join(sorted(set(gone)))}")
            self.fail = {k: x for k, x in self.fail.items() if k in now}
            self.undec = {k: x for k, x in self.undec.items() if k in now}
            self.lemma_fail = {k: x for k, x in self.lemma_fail.items() if "lemma " + k in now}

    def vacuity(self, degraded):
        """A body that proves a contradiction has contradictory premises."""
        keep = (self.fns, self.lost, self.dropped, self.fail, self.undec, self.lemma_fail, self.verified, self.errors, self.times, self.rendered, self.trusted, self.smt_s, self.cmd)
        self.cannot_fail = []
        if self.extract("vac.rs", "vac.json", degraded, {"EXTRACT_VACUITY": "1"}):
            diags, js, rc = self.verus("vac.rs", ["--multiple-errors", "0"])
            failed = set()
            for d in diags:
                if d.get("level") == "error":
                    for s in d.get("spans", []):
                        k = self.where(s["line_start"])
                        if k:
                            failed.add(k)
            if diags and js is None:
                pass
            self.vacuous = [f["key"] for f in self.fns if f["state"] == "verified" and f["key"] not in failed]
            self.reachable = len(failed)
        (self.fns, self.lost, self.dropped, self.fail, self.undec, self.lemma_fail, self.verified, self.errors, self.times, self.rendered, self.trusted, self.smt_s, self.cmd) = keep
        self.index("out.rs")


# ---------------------------------------------------------------- stand-in

class Refuter:
    def __init__(self, prop):
        self.prop = prop
        self.bin = None
        self.hook = False
        self.notes = []
        self.res = None
        self.found = []
        self.sampled = []

    def build(self):
        for hook in (True, False):
            tgt = os.path.join(BUILD, "refute" if hook else "refute_plain")
            flags = "--cap-lints warn --cfg tokio_unstable" + (" --cfg haproxy_verif" if hook else "")
            cmd = ["cargo", "build", "--offline", "-q"] + (["--features", "hook"] if hook else [])
            rc, _, err = run(cmd, min(600, left() - 30), {"CARGO_TARGET_DIR": tgt, "RUSTFLAGS": flags}, os.path.join(HERE, "refute"))
            if rc == 0:
                self.bin, self.hook = os.path.join(tgt, "debug", "refute"), hook
                return
            e = [l for l in err.split("\n") if l.startswith("error")][:3]
            self.notes.append(f"stand-in {'with' if hook else 'without'} the hook does not build: {'; '.join(e)}")

    def dict(self):
        ints, strs = set(), set()
        for d, _, fs in os.walk(REPO):
            if "/target" in d or "/.git" in d:
                continue
            for f in fs:
                if f.endswith(".rs"):
                    try:
                        t = open(os.path.join(d, f), encoding="utf-8", errors="replace").read()
                    except OSError:
                        continue
                    for m in re.finditer(r"\b(0x[0-9a-fA-F_]+|0b[01_]+|\d[\d_]*)(?:[iu](?:8|16|32|64|size))?\b", t):
                        try:
                            v = int(m.group(1).replace("_", ""), 0)
                        except ValueError:
                            try:
                                v = int(m.group(1).replace("_", ""))
                            except ValueError:
                                continue
                        if v < 1 << 64:
                            ints.add(v)
                    for m in re.finditer(r'"((?:[^"\\\n]){1,60})"', t):
                        strs.add(m.group(1))
        p = os.path.join(BUILD, "dict")
        os.makedirs(BUILD, exist_ok=True)
        with open(p, "w") as f:
            for v in sorted(ints):
                f.write(f"i {v}\n")
            for s in sorted(strs):
                f.write(f"s {s}\n")
        return p

    def go(self):
        try:
            self._go()
        except Exception as x:
            self.notes.append(f"stand-in failed: {x!r}")

    def _go(self):
        self.build()
        if not self.bin:
            return
        self.env = {"REFUTE_DICT": self.dict(), "REFUTE_THREADS": "6"}
        # its files, if it makes any, stay in a scratch directory
        cwd = os.path.join(BUILD, "scratch")
        os.makedirs(cwd, exist_ok=True)
        cap = 200 if TIER == "quick" else 2400
        rc, so, se = run([self.bin, "run", self.prop, str(SEED), str(REFUTE_SECS), TIER], min(cap, left() - 10), self.env, cwd)
        try:
            self.res = json.loads(so.strip().split("\n")[-1])
        except (ValueError, IndexError):
            self.res = None
            if rc == -9:
                self.notes.append("stand-in: out of time")
            elif rc < 0 or rc > 128 or rc == 101:
                # it ended by a signal: run each phase's cases would not be
                # narrower, so report what it said
                self.notes.append(f"stand-in ended with {rc}: {se[-300:]}")
                self.found = [{"phase": 0, "name": "whole run", "idx": -1, "msg": f"the process was ended (status {rc}): {se[-300:]}"}]
            else:
                self.notes.append(f"stand-in ended with {rc}: {se[-300:]}")
            return
        self.found = self.res.get("found", [])
        self.conform()

    def conform(self):
        """Samples of what the prelude assumes of the libraries. It is about the
        machinery, not about the property: a sample that fails is a note."""
        rc, so, se = run([self.bin, "run", "TRUSTED", str(SEED), "2" if TIER == "quick" else "60", TIER], min(120, left() - 10), self.env, os.path.join(BUILD, "scratch"))
        try:
            j = json.loads(so.strip().split("\n")[-1])
        except (ValueError, IndexError):
            self.notes.append(f"the samples of the assumptions ended with {rc}: {se[-200:]}")
            return
        self.sampled = j.get("phases", [])
        for f in j.get("found", [])[:3]:
            self.notes.append(f"an assumption does not hold: {f['name']}: {f['msg'][:200]}")


# ---------------------------------------------------------------- verdict

def load_known():
    known = []
    p = os.path.join(HERE, "known-findings")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\w+) id=(\S+) (.*)", l.strip())
            if m:
                known.append(m.groups())
    return known


def match(pats, key):
    return any(re.fullmatch(p, key) for p in pats)


def main():
    if sys.argv[1:2] == ["replay"]:
        return replay(sys.argv[2])
    prop = sys.argv[1]
    spec = json.load(open(os.path.join(HERE, "verus/props.json")))[prop]
    rep_dir = os.path.join(HERE, "replays")
    os.makedirs(rep_dir, exist_ok=True)
    os.makedirs(BUILD, exist_ok=True)
    v = Verifier(os.path.join(BUILD, f"verus.{prop}"))
    r = Refuter(prop)
    with ThreadPoolExecutor(2) as ex:
        fs = [ex.submit(v.go), ex.submit(r.go)]
        for f in fs:
            f.result()

    pats = spec.get("functions", [])
    mine = [f for f in v.fns if match(pats, f["key"])]
    # a declaration of a trait has no body to verify; its implementations do
    under = [f for f in mine if f["state"] not in ("no contract", "declared")]
    lemmas = [l for l in spec.get("lemmas", [])]
    states = {}
    undecided = []
    violations = []
    helpers = {f["key"].split("::")[-1] for f in v.fns if not f["contract"] and f["state"] in ("no contract", "unsupported")}
    if "from" in helpers:
        helpers.add("into")
    lost = [k for k in v.lost if match(pats, k)]
    for f in under:
        k = f["key"]
        st = f["state"]
        if not v.ok:
            st = "undecided"
        elif st == "verified":
            if k in v.fail:
                own = []
                # the loops that the annotations are for are gone
                if len(f["loops"]) != len(f["want_loops"]) or any(w and w != g for g, w in zip(f["loops"], f["want_loops"])):
                    own.append("its loops changed")
                hs = {c.split("::")[-1].lstrip(".") for c in f["calls"]} & helpers
                if hs:
                    own.append("it calls functions without a contract: " + ", ".join(sorted(hs)))
                if v.lost:
                    own.append("functions under contract are gone: " + ", ".join(v.lost[:4]))
                if own:
                    st = "undecided"
                    undecided.append(f"{k}: {'; '.join(own)}")
                else:
                    st = "failed"
                    violations.append((k, v.fail[k]))
            elif k in v.undec:
                st = "undecided"
                undecided.append(f"{k}: {v.undec[k][0].splitlines()[0]}")
            elif k in v.vacuous:
                st = "vacuous"
                undecided.append(f"{k}: its premises are contradictory")
            else:
                st = "discharged"
        states[k] = st
        if st in ("unsupported",):
            undecided.append(f"{k}: {f['why']}")
    for l in lemmas:
        if not v.ok or l not in v.lemmas:
            states["lemma " + l] = "undecided"
            undecided.append(f"lemma {l}: not checked")
        elif l in v.lemma_fail:
            # what the extractor derives from the sources is in the text of
            # the lemmas, so this too is about the code
            if v.lost:
                states["lemma " + l] = "undecided"
                undecided.append(f"lemma {l}: failed, but functions under contract are gone")
            else:
                states["lemma " + l] = "failed"
                violations.append(("lemma " + l, v.lemma_fail[l]))
        elif ("lemma " + l) in v.undec:
            states["lemma " + l] = "undecided"
            undecided.append(f"lemma {l}: resource limit")
        else:
            states["lemma " + l] = "discharged"
    for k in lost:
        undecided.append(f"{k}: no longer there")
        states[k] = "lost"

    # verdict
    known_list = [k for k in load_known() if k[0] == prop]
    out = []
    code = 0
    replay_path = os.path.join(rep_dir, f"{prop}.json")
    if os.path.exists(replay_path):
        os.remove(replay_path)
    res = r.res or {}
    known_hit = []
    for kf in res.get("known", []):
        hit = [k for k in known_list if kf["msg"].startswith(f"KNOWN {k[1]}:")]
        if hit:
            known_hit.append(hit[0])
        else:
            r.found.append(kf)
    if r.found:
        f = r.found[0]
        json.dump({"property": prop, "kind": "input", "seed": SEED, "tier": TIER, "phase": f["phase"], "index": f["idx"], "what": f["msg"], "hook": r.hook,
                   "obligations_failed": [k for k, _ in violations], "verifier": [t for _, ts in violations for t in ts][:6],
                   "rerun": f"python3 check.py replay {replay_path}"}, open(replay_path, "w"), indent=1)
        print(f"{prop}: fails on the real code: {f['msg'][:600]}")
        for k, _ in violations[:5]:
            print(f"{prop}: failed obligation of {k}")
        out.append(f"VIOLATION property={prop} replay={replay_path}")
        code = 1
    elif violations:
        json.dump({"property": prop, "kind": "obligation", "obligations_failed": [k for k, _ in violations], "verifier": [t for _, ts in violations for t in ts][:12],
                   "searched": {"evaluations": res.get("evaluations", 0)}, "note": "no failing input was found",
                   "rerun": f"python3 check.py replay {replay_path}"}, open(replay_path, "w"), indent=1)
        for k, ts in violations[:5]:
            print(f"{prop}: failed obligation of {k}: {ts[0].splitlines()[0]}")
        out.append(f"VIOLATION property={prop} replay={replay_path} no-failing-input-found")
        code = 1
    for k in sorted(set(known_hit)):
        print(f"KNOWN-FINDING: property={prop} {k[2]}")

    n_ob = len(states)
    n_dis = sum(1 for s in states.values() if s == "discharged")
    level = spec["level"]
    cov = {
        "functions_under_contract": {k: s for k, s in sorted(states.items())},
        "obligations": n_ob,
        "discharged": n_dis,
        "back_end": "Verus 0.2026.09.13 / Z3",
        "verifier_run": {"verified": v.verified, "errors": v.errors, "times": v.times, "smt_s": v.smt_s, "wall_s": round(v.wall, 1)},
        "checker_cmd": v.cmd or "verus out.rs",
        "trusted_base": [f"{len(v.trusted)} trusted declarations of the prelude: " + ", ".join(v.trusted)]
        + [f"assumed: {f['key']}: {f['why']}" for f in mine if f["state"] == "assumed"]
        + [f"dropped by the extractor: {k} ({n})" for k, n in sorted(v.dropped.items())]
        + spec.get("trusted", []),
        "not_decided_by_the_verifier": undecided,
        "vacuity": {"bodies_with_a_failing_assertion": getattr(v, "reachable", 0), "vacuous": [k for k in v.vacuous if match(pats, k)]},
        "bounded": spec.get("bounded", ""),
        "evaluations": res.get("evaluations", 0),
        "distinct_nontrivial": res.get("distinct_nontrivial", 0),
        "rule": spec.get("rule", "cases are generated from the structure of the property's inputs; a case is non-trivial when it reaches the code the property is about with content of its own, and distinct when the hash of its input is"),
        "samples": (res.get("samples") or ["none"])[:8],
        "stand_in": {"phases": res.get("phases", []), "hook": r.hook, "seed": SEED, "note": "bounded: the listed cases only, never counted as proved"},
        "assumptions_sampled": {"phases": r.sampled, "note": "what the trusted shims of the prelude say of std, bytes, dashmap, http, tokio and parse-display, compared with the real libraries; samples, not proofs"},
        "notes": (v.notes + r.notes)[:30],
    }
    if level == "other":
        cov["explanation"] = spec.get("bounded", "")
    ev = {
        "property": prop, "tier": TIER, "seed": SEED, "level": level, "coverage": cov,
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - T0, 2), "violations": 1 if code else 0,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop}: {n_dis} of {n_ob} obligations discharged; {res.get('evaluations', 0)} cases run; {time.time() - T0:.0f} s")
    for u in undecided[:12]:
        print(f"{prop}: not decided by the verifier: {u}")
    for n in (v.notes + r.notes)[:8]:
        print(f"{prop}: note: {n[:300]}")
    for l in out:
        print(l)
    shutil.rmtree(v.work, ignore_errors=True) if not os.environ.get("KEEP") else None
    return code


def replay(path):
    """Run what a replay file holds again."""
    j = json.load(open(path))
    if j["kind"] == "obligation":
        print("no failing input was found; the verifier said:")
        for t in j["verifier"]:
            print(t)
        return main_for(j["property"])
    r = Refuter(j["property"])
    r.build()
    if not r.bin:
        print("the stand-in does not build:", r.notes)
        return 0
    env = {"REFUTE_DICT": r.dict()}
    if j["index"] < 0:
        rc, so, se = run([r.bin, "run", j["property"], str(j["seed"]), "12", j["tier"]], 300, env)
        print(so[-2000:], se[-2000:])
        return 1 if rc else 0
    rc, so, se = run([r.bin, "case", j["property"], str(j["seed"]), j["tier"], str(j["phase"]), str(j["index"])], 120, env)
    print(so, se)
    return 1 if rc else 0


def main_for(prop):
    sys.argv = [sys.argv[0], prop]
    return main()


if __name__ == "__main__":
    sys.exit(main())
