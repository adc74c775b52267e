"""Check driver: obligations + concrete oracle -> verdict, evidence."""
import os, sys, json, time, subprocess, tempfile, shutil, traceback, hashlib
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PYCOLD_REPO", "/repo")
VENV = "/opt/pycold-venv/bin/python"

class Check:
    def __init__(self, pid, tier=None):
        self.pid = pid
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"): self.tier = "quick"
        try: self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError: self.seed = 1
        self.t0 = time.time()
        self.repo = REPO
        self.res = []           # discharged / failed obligations
        self.trivial = 0
        self.functions = []     # functions under contract
        self.trouble = []       # extraction / tool trouble
        self.assumptions = []
        self.trusted = ["z3 %s, cvc5 1.1.2" % self._z3v(), "the verification-condition generator in /verif/vc"]
        self.bounded = []       # parts decided by bounded checks only
        self.oracle_stats = {}
        self.violation = None
        self.replay_hits = []
        self.hashes = {}
        self.scratch = tempfile.mkdtemp(prefix="vp_%s_" % pid)
        self.known = load_known(pid)
        self.known_seen = []
        self.covers = 0
    def _z3v(self):
        import z3
        return z3.get_version_string()
    def log(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)
    # ---- deductive part
    def guard(self, what, f):
        """run one contract proof; extraction/tool trouble never becomes a verdict"""
        from . import pysym
        t = time.time()
        try:
            f()
        except (pysym.Unsupported, Exception, RecursionError) as e:
            import traceback as tb
            self.trouble.append("%s: %s: %s" % (what, type(e).__name__, str(e)[:300]))
            self.log("extraction trouble in", what, "-", type(e).__name__, str(e)[:300])
            if os.environ.get("VC_DEBUG"): tb.print_exc()
        finally:
            if os.environ.get("VC_TIME"): self.log(what, "%.1fs" % (time.time() - t))
    def explore(self, ex, body, fn, ms=20000):
        """explore all paths of a Python function, discharge its obligations"""
        obls = ex.run(body)
        self.trivial += ex.trivial
        if ex.nret == 0:
            raise RuntimeError("vacuous: no path of %s terminates under its precondition" % fn)
        self.covers += ex.nret
        import z3
        for pc in ex.final[-3:]:
            sv = z3.Solver(); sv.set("timeout", 1500); sv.add(*pc)
            if sv.check() != z3.unsat: break
        else: raise RuntimeError("vacuous: the assumptions of %s contradict each other" % fn)
        self.discharge(obls, fn, ms)
    def discharge(self, obls, fn, ms=20000):
        from . import solve
        solve.DEADLINE[0] = self.t0 + (520 if self.tier == "quick" else 760)
        r = solve.discharge(obls, ms)
        self.res += r
        self.functions.append(fn)
        bad = [x for x in r if x["result"] != "unsat"]
        self.log("%-60s %3d obligations, %d discharged" % (fn, len(r), len(r) - len(bad)))
        for x in bad[:10]: self.log("   NOT DISCHARGED:", x["name"], x["result"], str(x["info"])[:140])
        return bad
    def defer(self, obls, fn, ms=20000):
        """collect obligations of several functions, to be discharged together by flush()"""
        self.__dict__.setdefault("pending", []).append((obls, fn, ms))
    def flush(self):
        from . import solve
        P = self.__dict__.pop("pending", [])
        if not P: return
        solve.DEADLINE[0] = self.t0 + (520 if self.tier == "quick" else 760)
        r = solve.discharge([o for obls, _, _ in P for o in obls], max(ms for _, _, ms in P))
        i = 0
        for obls, fn, ms in P:
            x = r[i:i + len(obls)]; i += len(obls); self.res += x; self.functions.append(fn)
            bad = [y for y in x if y["result"] != "unsat"]
            self.log("%-60s %3d obligations, %d discharged%s" % (fn, len(x), len(x) - len(bad), " (slowest %.1fs)" % max([y["time"] for y in x] + [0]) if os.environ.get("VC_TIME") else ""))
            for y in bad[:10]: self.log("   NOT DISCHARGED:", y["name"], y["result"], str(y["info"])[:140])
    def track(self, key, h): self.hashes[key] = h
    # ---- concrete part
    def oracle(self, script, timeout=300, args=(), env=None):
        """run a concrete oracle (real code); it prints one JSON object per line"""
        e = dict(os.environ); e.update({"PYTHONDONTWRITEBYTECODE": "1", "PYTHONNOUSERSITE": "1", "PYCOLD_REPO": self.repo,
             "VERIF_SCRATCH": self.scratch, "VERIF_SEED": str(self.seed), "VERIF_TIER": self.tier, "PYTHONHASHSEED": "0", "HOME": self.scratch,
             "OMP_NUM_THREADS": "2", "OPENBLAS_NUM_THREADS": "2"})
        if env: e.update(env)
        t = time.time()
        out = ""
        try:
            p = subprocess.run([VENV, os.path.join(VERIF, "oracle", script)] + list(args), cwd=self.scratch, env=e,
                               capture_output=True, text=True, timeout=timeout)
            out = p.stdout; err = p.stderr; rc = p.returncode
        except subprocess.TimeoutExpired as ex:
            out = ex.stdout.decode() if isinstance(ex.stdout, bytes) else (ex.stdout or ""); err = "timeout"; rc = -1
        viols = []; stats = {}
        for line in out.splitlines():
            if not line.startswith("{"): continue
            try: j = json.loads(line)
            except ValueError: continue
            if "violation" in j: viols.append(j["violation"])
            if "known" in j: self.known_hit(j["known"])
            if "stats" in j:
                for k, v in j["stats"].items():
                    if isinstance(v, (int, float)) and k in stats: stats[k] += v
                    elif isinstance(v, list) and k in stats: stats[k] += v
                    else: stats[k] = v
        if rc != 0 and not viols:
            self.trouble.append("oracle %s: exit %s %s" % (script, rc, err[-400:]))
            self.log("oracle trouble", script, rc, err[-1500:])
        for k, v in stats.items():
            if isinstance(v, (int, float)): self.oracle_stats[k] = self.oracle_stats.get(k, 0) + v
            elif isinstance(v, list): self.oracle_stats.setdefault(k, []).extend(v[:5])
            else: self.oracle_stats[k] = v
        self.log("oracle %s %s: %s violations=%d (%.1fs)" % (script, " ".join(map(str, args)), {k: v for k, v in stats.items() if not isinstance(v, list)}, len(viols), time.time() - t))
        for v in viols:
            kid = v.get("known_id")
            if kid and kid in self.known: self.known_hit(kid); continue
            if self.violation is None: self.violation = v
        return viols
    def known_hit(self, kid):
        if kid not in self.known_seen: self.known_seen.append(kid)
    # ---- verdict
    def finish(self):
        try: self.flush()
        except Exception as e: self.trouble.append("discharge: %s" % e)
        shutil.rmtree(self.scratch, ignore_errors=True)
        base = load_json(os.path.join(VERIF, "baseline.json"), {}).get(self.pid, {})
        failed = [x for x in self.res if x["result"] != "unsat"]
        sat = [x for x in failed if x["result"] == "sat"]
        unk = [x for x in failed if x["result"] != "sat"]
        changed = [k for k, h in self.hashes.items() if base.get("hashes", {}).get(k) not in (None, h)]
        disch = len(self.res) - len(failed)
        level = "proof" if (self.res and not failed and not self.trouble) else "other"
        viol = 0; line = None
        rp = os.path.join(VERIF, "evidence", "replay_%s.json" % self.pid)
        os.makedirs(os.path.dirname(rp), exist_ok=True)
        if self.violation is not None:
            viol = 1
            json.dump({"property": self.pid, "kind": "failing input on the real code", "violation": self.violation,
                       "failed_obligations": [{k: x[k] for k in ("name", "result", "backend", "info")} for x in failed[:20]]}, open(rp, "w"), indent=1, default=str)
            self.log("VIOLATED:", json.dumps(self.violation, default=str)[:1500])
            line = "VIOLATION property=%s replay=%s" % (self.pid, rp)
        elif (sat or unk) and (changed or not base):
            # an obligation that is discharged on the unchanged tree is refuted or no longer provable
            viol = 1
            json.dump({"property": self.pid, "kind": "failed obligation, no failing input found",
                       "changed_functions": changed,
                       "failed_obligations": [{k: x[k] for k in ("name", "result", "backend", "info", "meta")} for x in failed[:30]]}, open(rp, "w"), indent=1, default=str)
            line = "VIOLATION property=%s replay=%s no-failing-input-found" % (self.pid, rp)
        elif failed:
            self.trouble.append("undischarged on unchanged source (solver limit): " + "; ".join(x["name"] for x in failed[:5]))
        cov = {"obligations": len(self.res) + self.trivial, "discharged": disch + self.trivial, "discharged_by_simplifier": self.trivial,
               "checker_cmd": "python3-vt /verif/check.py %s %s" % (self.pid, self.tier),
               "trusted_base": self.trusted, "functions_under_contract": self.functions,
               "reachability_covers": self.covers,
               "solver_time_s": round(sum(x["time"] for x in self.res), 2),
               "by_backend": {b: sum(1 for x in self.res if x["backend"] == b and x["result"] == "unsat") for b in sorted({x["backend"] for x in self.res})},
               "bounded_standins": self.bounded, "tool_trouble": self.trouble,
               "explanation": "obligations generated from /repo's current source and discharged by SMT; oracle = the same contract evaluated on the real code"}
        for k, v in self.oracle_stats.items():
            cov["oracle_" + k if k not in ("evaluations", "distinct_nontrivial", "rule", "samples") else k] = v
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": viol}
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w"), indent=1, default=str)
        if os.environ.get("VC_BASELINE"):
            b = load_json(os.path.join(VERIF, "baseline.json"), {})
            b[self.pid] = {"hashes": self.hashes, "obligations": len(self.res), "discharged": disch}
            json.dump(b, open(os.path.join(VERIF, "baseline.json"), "w"), indent=1, sort_keys=True)
        for k in self.known_seen:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, self.known.get(k, k)))
        if line: print(line, flush=True); return 1
        self.log("OK: %d/%d obligations discharged, %d more by the simplifier, %s concrete evaluations%s" % (disch, len(self.res), self.trivial, self.oracle_stats.get("evaluations", 0), "; trouble: %s" % self.trouble if self.trouble else ""))
        return 0

def load_json(p, d):
    try: return json.load(open(p))
    except Exception: return d

def load_known(pid):
    """known_findings.txt: 'known: property=<id> id=<kid> <text>' lines"""
    r = {}
    try:
        for l in open(os.path.join(VERIF, "known_findings.txt")):
            if l.startswith("known: property=%s " % pid):
                rest = l.split(" ", 2)[2].strip()
                if rest.startswith("id="):
                    kid, txt = rest.split(" ", 1); r[kid[3:]] = txt
    except OSError: pass
    return r
