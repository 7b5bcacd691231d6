"""Common machinery of the checks: cases, batches, violations, evidence."""
import hashlib, json, os, random, sys, time, threading, re
from dataclasses import dataclass, field
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from client import Pool, Server, records, HarnessError, Result

VERIF = B.VERIF
PRELUDE = os.path.join(VERIF, "lib/prelude.ss")


@dataclass
class Case:
    """One datum to evaluate, and what must come out of it.

    want: the exact external representation of the value, or a function
    (kind, text) -> None | reason, where kind is V (value), E (Scheme error),
    R (read error), X (C++ exception), or CRASH / HANG.
    """
    expr: str
    want: object
    tag: str = ""          # stratum, for the evidence
    defs: str = ""         # definitions evaluated first in the same process
    trivial: bool = False


def judge(case, kind, text):
    if callable(case.want):
        return case.want(kind, text)
    if kind == "V" and text == case.want:
        return None
    return "expected %s" % case.want


class Check:
    def __init__(self, pid, rule, assumptions=(), level="exploration"):
        self.pid, self.rule, self.level = pid, rule, level
        self.assumptions = list(assumptions)
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.rng = random.Random("%s/%d" % (pid, self.seed))
        self.t0 = time.time()
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.strata = {}
        self.extra = {}
        self.violations = []
        self.known_hits = []
        self.inconclusive = []
        self.pools = {}
        self.dir = None
        self.lock = threading.Lock()
        self.known = load_known(pid)
        self.replay_dir = os.path.join(VERIF, "evidence", "replay")
        self.max_violations = int(os.environ.get("VERIF_MAXV", "10"))

    @property
    def quick(self):
        return self.tier == "quick"

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def pool(self, variant="opt", **kw):
        key = (variant, tuple(sorted(kw.items())))
        if key not in self.pools:
            d = self.build(variant)
            self.pools[key] = Pool(d, preludes=[PRELUDE], **kw)
        return self.pools[key]

    def scratch(self):
        """A directory of this run, removed at its end."""
        if not self.dir:
            import tempfile
            self.dir = tempfile.mkdtemp(prefix="verif-")
        return self.dir

    def build(self, variant, program="server"):
        try:
            return B.build(variant, [program])
        except B.BuildError as e:
            print("BUILD-ERROR (%s)\n%s" % (variant, e))
            sys.exit(3)

    # -- bookkeeping -------------------------------------------------------
    def count(self, key, tag="", nontrivial=True, sample=None, n=1):
        with self.lock:
            self.evaluations += n
            if nontrivial:
                self.distinct.add(hashlib.blake2b(str(key).encode("utf-8", "surrogatepass"), digest_size=10).digest())
            if tag:
                self.strata[tag] = self.strata.get(tag, 0) + n
            if sample is not None:
                self.note_sample(tag, sample)

    def note_sample(self, tag, sample):
        per = sum(1 for s in self.samples if s["stratum"] == tag)
        if per < 2 and len(self.samples) < 60:
            self.samples.append({"stratum": tag, "case": sample if len(str(sample)) < 1500 else str(sample)[:1500] + "..."})

    def stat(self, key, n=1):
        with self.lock:
            self.extra[key] = self.extra.get(key, 0) + n

    def violation(self, what, got, why, replay):
        """replay: a JSON-serialisable description that `replay` can re-run."""
        with self.lock:
            for k in self.known:
                if k["match"] == what:
                    if k not in self.known_hits:
                        self.known_hits.append(k)
                    return
            if len(self.violations) >= self.max_violations:
                self.violations.append(None)
                return
            os.makedirs(self.replay_dir, exist_ok=True)
            path = os.path.join(self.replay_dir, "%s-%d.json" % (self.pid, len(self.violations)))
            with open(path, "w") as f:
                json.dump(dict(replay, property=self.pid, what=what, got=got, why=why), f, indent=1)
            self.violations.append(path)
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            print("  case: %s\n  got: %s\n  %s" % (what[:1500], str(got)[:1500], str(why)[:1500]))
            sys.stdout.flush()

    @property
    def enough(self):
        return len(self.violations) >= self.max_violations

    # -- running -----------------------------------------------------------
    def run_batch(self, pool, cases, variant, timeout, **kw):
        """Evaluate the cases of one group (same defs) in order; returns [(kind, text)]."""
        out = []
        i = 0
        while i < len(cases):
            part = cases[i:]
            defs = part[0].defs
            text = defs + "\n'%%begin\n" + "\n".join(c.expr for c in part) + "\n"
            r = pool.run(text, mode="each", timeout=timeout, **kw)
            recs = records(r.out)
            at = next((k for k, x in enumerate(recs) if x[2] == "%%begin"), None)
            if at is None:
                return [("PRELUDE", "definitions failed: %s %s %s %s" % (r.kind, r.code, recs[-2:], r.err[-1500:]))] * len(part) if not out else out + [("PRELUDE", r.err[-800:])] * len(part)
            base = recs[at][0]
            got = {}
            for idx, kind, txt in recs[at + 1:]:
                got.setdefault(idx - base - 1, (kind, txt))
            k = 0
            while k < len(part) and k in got:
                out.append(got[k])
                k += 1
            i += k
            if r.kind == "exit" and r.code == 0 and "runtime error" not in r.err and k == len(part):
                break
            if k == len(part):
                # everything answered, but the process did not end well (or a sanitizer spoke)
                if len(part) == 1:
                    out[-1] = ("CRASH", "%s %d %s" % (r.kind, r.code, r.stderr()[-3000:])) if r.kind != "exit" or r.code else ("UB", r.stderr()[-3000:])
                    break
                # find which: run one by one
                singles = []
                for c in part:
                    singles.append(self.run_batch(pool, [c], variant, timeout, **kw)[0])
                out[len(out) - len(part):] = singles
                if all(s == o for s, o in zip(singles, out[-len(part):])) and not any(s[0] in ("CRASH", "UB", "HANG") for s in singles):
                    out[-1] = ("CRASH" if r.code or r.kind != "exit" else "UB", "only in sequence: " + r.stderr()[-3000:])
                break
            # the next one is where it stopped
            if i < len(cases):
                if r.kind == "timeout":
                    if k > 0:
                        continue  # give it a fresh process and the full time
                    r2 = pool.run(text if len(part) == 1 else defs + "\n'%%begin\n" + part[0].expr + "\n", mode="each", timeout=timeout * 3, **kw)
                    if r2.kind == "timeout":
                        out.append(("HANG", "no answer within %gs" % (timeout * 3)))
                        i += 1
                    elif len(part) > 1:
                        out.extend(self.run_batch(pool, part[:1], variant, timeout * 3, **kw))
                        i += 1
                    continue
                if k > 0:
                    continue  # alone at the head of a fresh process, so that the blame is certain
                out.append(("CRASH", "%s %d %s" % (r.kind, r.code, r.stderr()[-3000:])))
                i += 1
        return out

    def run_cases(self, cases, variant="opt", batch=40, timeout=20.0, pool_kw=None, **kw):
        pool = self.pool(variant, **(pool_kw or {}))
        groups, cur = [], []
        for c in cases:
            if cur and (c.defs != cur[0].defs or len(cur) >= batch):
                groups.append(cur)
                cur = []
            cur.append(c)
        if cur:
            groups.append(cur)

        def one(group):
            if self.enough:
                return
            res = self.run_batch(pool, group, variant, timeout, **kw)
            for c, (kind, text) in zip(group, res):
                self.count(c.defs + c.expr, c.tag, not c.trivial, c.expr)
                if kind == "PRELUDE":
                    self.violation(c.expr, text, "the definitions of the case could not be evaluated",
                                   dict(variant=variant, defs=c.defs, exprs=[c.expr], opts=kw))
                    break
                why = judge(c, kind, text)
                if why is not None:
                    self.confirm(pool, group, c, kind, text, why, variant, timeout, kw)

        with ThreadPoolExecutor(pool.n) as ex:
            for _ in ex.map(one, groups):
                pass

    def confirm(self, pool, group, case, kind, text, why, variant, timeout, kw):
        k2, t2 = self.run_batch(pool, [case], variant, timeout, **kw)[0]
        why2 = judge(case, k2, t2)
        if why2 is not None:
            self.violation(case.expr, [k2, t2], why2, dict(variant=variant, defs=case.defs, exprs=[case.expr], opts=kw,
                                                       want=case.want if isinstance(case.want, str) else "(predicate)"))
            return
        # only after its predecessors: replay the whole sequence
        seq = group[:group.index(case) + 1]
        res = self.run_batch(pool, seq, variant, timeout, **kw)
        why3 = judge(case, *res[-1])
        if why3 is not None:
            self.violation(case.expr, list(res[-1]), why3 + " (after the preceding expressions of the replay)",
                           dict(variant=variant, defs=case.defs, exprs=[c.expr for c in seq], opts=kw,
                                want=case.want if isinstance(case.want, str) else "(predicate)"))
        else:
            with self.lock:
                self.inconclusive.append({"case": case.expr[:300], "got": [kind, text[:300]]})

    # -- C++ programs of harness/ --------------------------------------------
    def run_tools(self, variant, name, argss, tag, timeout=300):
        """Run harness/<name>.cpp with each argument list; it prints one JSON
        object of counters, or a line starting with FAIL and exits 1."""
        import subprocess
        from client import SAN_ENV
        d = self.build(variant, name)

        def one(args):
            cmd = [os.path.join(d, name)] + [str(a) for a in args]
            env = dict(os.environ, LC_ALL="C.UTF-8", **SAN_ENV)
            try:
                p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=timeout)
                rc, out, err = p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")
            except subprocess.TimeoutExpired as e:
                rc, out, err = "timeout", (e.stdout or b"").decode("utf-8", "replace"), ""
            bad = rc != 0 or "runtime error" in err or not out.startswith("{")
            with self.lock:
                self.strata[tag] = self.strata.get(tag, 0) + 1
            if bad:
                self.violation("%s %s" % (name, " ".join(map(str, args))), (out[-3000:] or "") + err[-3000:],
                               "exit status %s" % rc, dict(variant=variant, tool=name, args=[str(a) for a in args]))
                return {}
            c = json.loads(out)
            with self.lock:
                self.note_sample(tag, {"args": args, "counters": c})
            return c

        total = {}
        with ThreadPoolExecutor(8) as ex:
            for c in ex.map(one, argss):
                for k, v in c.items():
                    total[k] = total.get(k, 0) + v
        return total

    # -- known findings ------------------------------------------------------
    def run_known(self, variant="opt", timeout=20.0):
        for k in self.known:
            if "program" not in k:
                continue
            pool = self.pool(variant)
            c = Case(k["program"], k["correct"], tag="known-finding", defs=k.get("defs", ""))
            kind, text = self.run_batch(pool, [c], variant, k.get("timeout", timeout), **k.get("opts", {}))[0]
            self.count(c.expr, "known-finding", True, c.expr)
            if judge(c, kind, text) is not None and k not in self.known_hits:
                self.known_hits.append(k)

    # -- the end --------------------------------------------------------------
    def finish(self, min_evaluations=1):
        for p in self.pools.values():
            p.close()
        if self.dir:
            import shutil
            shutil.rmtree(self.dir, ignore_errors=True)
        for k in self.known_hits:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        cov = dict(evaluations=self.evaluations, distinct_nontrivial=len(self.distinct), rule=self.rule,
                   samples=self.samples, strata=self.strata, inconclusive=len(self.inconclusive),
                   inconclusive_samples=self.inconclusive[:5])
        cov.update(self.extra)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", self.pid + ".json")
        tmp = path + ".tmp"
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=True)
        os.replace(tmp, path)
        print("%s %s: %d evaluations, %d distinct, %d violations, %d inconclusive, %.1fs" % (
            self.pid, self.tier, self.evaluations, len(self.distinct), len(self.violations), len(self.inconclusive), time.time() - self.t0))
        sys.stdout.flush()
        if self.violations:
            os._exit(1)
        if self.evaluations < min_evaluations or len(self.inconclusive) * 4 > self.evaluations:
            print("ERROR: too little was observed to conclude")
            os._exit(4)
        os._exit(0)


def load_known(pid):
    path = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [dict(k, match=k.get("match", k.get("program"))) for k in data.get("findings", []) if k["property"] == pid]


def scm_string(s):
    out = ['"']
    for ch in s:
        o = ord(ch)
        if ch in '"\\':
            out.append("\\" + ch)
        elif 32 <= o < 127:
            out.append(ch)
        else:
            out.append("\\x%X;" % o)
    return "".join(out) + '"'
