"""Check framework: obligations, violations, known findings, evidence."""
import json, os, pickle, shutil, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "analysis"))
import mirload, absint
from absint import AnalysisError, Interp

FINDINGS = os.path.join(VERIF, "known-findings.txt")


def known(prop):
    """keys of the recorded findings of a property -> description"""
    out = {}
    if not os.path.exists(FINDINGS):
        return out
    for line in open(FINDINGS):
        line = line.strip()
        if line.startswith("finding: "):
            head, _, desc = line[len("finding: "):].partition(" :: ")
            d = dict(x.split("=", 1) for x in head.split(" ", 1))
            if d["property"] == prop:
                out[d["key"]] = desc
    return out


class Check:
    def __init__(self, prop, rule, assumptions=()):
        self.prop = prop
        self.rule = rule
        self.assumptions = list(assumptions)
        self.t0 = time.time()
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.obs = {}           # obligation class -> [total, failed]
        self.viol = {}          # key -> (message, where)
        self.samples = []
        self.notes = {}
        self.fns = set()
        self.interps = []
        self.unmodelled_extra = {}

    def lib(self):
        if not hasattr(self, "_lib"):
            self._lib, self._bin = mirload.load()
        return self._lib

    def bin(self):
        self.lib()
        return self._bin

    def interp(self, policy=None, **kw):
        I = Interp(self.lib(), policy, **kw)
        self.interps.append(I)
        return I

    def ob(self, cls, key, ok, msg="", where=None, sample=None):
        """One obligation of class cls; a failed one is a violation identified by cls/key."""
        o = self.obs.setdefault(cls, [0, 0])
        o[0] += 1
        if not ok:
            o[1] += 1
            k = (cls + "/" + str(key)).replace(" ", "")
            if k not in self.viol:
                self.viol[k] = (msg, where)
        elif sample is not None and sum(1 for s in self.samples if s.startswith(cls)) < 4:
            self.samples.append(cls + ": " + sample)
        return ok

    def floor(self, cls, n):
        got = self.obs.get(cls, [0, 0])[0]
        if got < n:
            self.viol.setdefault(f"floor/{cls}", (f"only {got} obligations of class '{cls}' could be formed, at least {n} expected: "
                                                  "the construct the rule is about was not found", None))

    def guard(self, cls, key, f, *a, **k):
        """Run one analysis step; a shape the analysis cannot follow is reported (fail closed)."""
        try:
            return f(*a, **k)
        except Exception as e:
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.ob(cls, f"{key}/not-analysable", False, f"{key}: the code does not have a shape in which the property can be established: "
                    f"{type(e).__name__}: {e} [{os.path.basename(tb.filename)}:{tb.name}]")
            return None

    def parallel(self, f, items, workers=None):
        """f(item) for every item, spread over forked processes whose obligations are merged"""
        items = list(items)
        self.lib()
        n = max(1, min(workers or min(8, os.cpu_count() or 1), len(items)))
        tmp = tempfile.mkdtemp()
        pids = []
        sys.stdout.flush()
        sys.stderr.flush()
        for w in range(n):
            pid = os.fork()
            if pid:
                pids.append(pid)
                continue
            rc = 1
            try:
                self.obs, self.viol, self.samples = {}, {}, []
                for x in items[w::n]:
                    f(x)
                fns = set(self.fns)
                unm = {}
                for I in self.interps:
                    fns |= I.visited_fns
                    unm.update(I.unmodelled)
                with open(os.path.join(tmp, str(w)), "wb") as o:
                    pickle.dump((self.obs, self.viol, self.samples, fns, {k: str(v) for k, v in unm.items()}), o)
                rc = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(rc)
        for w, pid in enumerate(pids):
            _, status = os.waitpid(pid, 0)
            fn = os.path.join(tmp, str(w))
            if status != 0 or not os.path.exists(fn):
                self.viol.setdefault(f"worker/{w}", ("a part of the analysis ended without a result", None))
                continue
            with open(fn, "rb") as i:
                obs, viol, samples, fns, unm = pickle.load(i)
            for k, (a, b) in obs.items():
                o = self.obs.setdefault(k, [0, 0])
                o[0] += a
                o[1] += b
            for k, v in viol.items():
                self.viol.setdefault(k, v)
            for s_ in samples:
                if sum(1 for s in self.samples if s.split(":")[0] == s_.split(":")[0]) < 4:
                    self.samples.append(s_)
            self.fns |= fns
            self.unmodelled_extra.update(unm)
        shutil.rmtree(tmp, ignore_errors=True)

    def where(self, fnname):
        f = self.lib().fns.get(fnname)
        if f is None:
            return None
        return f"{f.file}:{f.line} {fnname}"

    def finish(self):
        kn = known(self.prop)
        evd = os.path.join(VERIF, "evidence")
        os.makedirs(evd, exist_ok=True)
        newv = {k: v for k, v in self.viol.items() if k not in kn}
        fns = set(self.fns)
        unm = dict(self.unmodelled_extra)
        for I in self.interps:
            fns |= I.visited_fns
            unm.update(I.unmodelled)
        total = sum(o[0] for o in self.obs.values())
        failed = sum(o[1] for o in self.obs.values())
        cov = {
            "explanation": self.rule,
            "obligations": total,
            "discharged": total - failed,
            "obligations_by_class": {k: v[0] for k, v in sorted(self.obs.items())},
            "failed_by_class": {k: v[1] for k, v in sorted(self.obs.items()) if v[1]},
            "functions_analysed": len(fns),
            "functions": sorted(f for f in fns if "{closure" not in f)[:400],
            "samples": self.samples[:40],
            "known_findings_seen": sorted(k for k in self.viol if k in kn),
            "known_findings_absent": sorted(k for k in kn if k not in self.viol),
        }
        if unm:
            cov["callees_treated_as_unknown"] = sorted(unm)
        cov.update(self.notes)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "other", "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(newv)}
        with open(os.path.join(evd, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for k in sorted(self.viol):
            if k in kn:
                print(f"KNOWN-FINDING: property={self.prop} {k}: {kn[k]}")
        rc = 0
        if newv:
            rp = os.path.join(evd, f"{self.prop}.violation.json")
            with open(rp, "w") as f:
                json.dump({"property": self.prop, "violations": [{"key": k, "message": m, "where": w} for k, (m, w) in sorted(newv.items())]},
                          f, indent=1, default=str)
            for k, (m, w) in sorted(newv.items())[:60]:
                print(f"{self.prop}: {k}: {m}" + (f" [{w}]" if w else ""))
            print(f"VIOLATION property={self.prop} replay={rp}")
            rc = 1
        else:
            print(f"{self.prop}: {total - failed}/{total} obligations hold, {len(fns)} functions analysed, {ev['wall_s']} s")
        return rc
