"""Framework shared by all checks: builds, obligations, replay files, evidence."""
import fcntl, hashlib, json, os, random, re, subprocess, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
WORK = os.path.join(VERIF, "work")
HOOK_CFG = "tket_verif"

DISCHARGED, FAILED, UNDECIDED = "discharged", "failed", "undecided"


def repo_hash():
    """Content hash of the sources the harnesses are built from."""
    h = hashlib.sha256()
    for top in ("tket", "tket-qsystem", "Cargo.toml", "Cargo.lock", "qis-compiler"):
        p = os.path.join(REPO, top)
        files = []
        if os.path.isfile(p):
            files = [p]
        else:
            for d, ds, fs in os.walk(p):
                ds[:] = sorted(x for x in ds if x not in ("target", "node_modules", "__pycache__"))
                files += [os.path.join(d, f) for f in sorted(fs) if f.endswith((".rs", ".toml", ".pest", ".lock", ".json"))]
        for f in files:
            h.update(f.encode())
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


class BuildError(Exception):
    pass


class Ctx:
    def __init__(self, pid, level="proof"):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.obls = []  # proof obligations: (name, status, backend, seconds, detail)
        self.bounded = {}  # stand-in name -> dict(evaluations, distinct, rule, samples)
        self.viol = []  # (name, detail, replay path, suffix)
        self.known_hit = []
        self.notes = []
        self.trusted = []
        self.functions = []
        self.assumptions = []
        self.solver_s = 0.0
        self.rng = random.Random(self.seed)
        self.checker = set()
        os.makedirs(WORK, exist_ok=True)
        os.makedirs(os.path.join(WORK, "replay"), exist_ok=True)
        self.known = load_known(pid)
        self.hooks = True
        self.canaries = 0

    # ------------------------------------------------------------ obligations
    def ob(self, name, status, backend, secs=0.0, detail="", replay=None, witness=True):
        self.obls.append(dict(name=name, status=status, backend=backend, seconds=round(secs, 4), detail=detail[:400]))
        self.solver_s += secs
        self.checker.add(backend)
        if status == FAILED:
            self.violation(name, detail, replay, witness)

    def violation(self, name, detail, replay=None, witness=True):
        for k in self.known:
            if k["match"] in name and k.get("detail", "") in detail:
                self.known_hit.append((k, name, detail))
                return
        path = os.path.join(WORK, "replay", f"{self.pid}-{_slug(name)}.json")
        with open(path, "w") as f:
            json.dump(dict(property=self.pid, obligation=name, detail=detail, tree=repo_hash(), replay=replay), f, indent=1, default=str)
        self.viol.append((name, detail, path, witness))

    def prove(self, name, backend, fn):
        """fn() -> None (discharged) or (detail, replay, witness) (failed); raises interp.Unsupported -> undecided."""
        import interp

        t = time.time()
        try:
            r = fn()
        except interp.Unsupported as e:
            self.ob(name, UNDECIDED, backend, time.time() - t, f"unsupported: {e}")
            return None
        if r is None:
            self.ob(name, DISCHARGED, backend, time.time() - t)
            return True
        detail, replay, wit = r
        self.ob(name, FAILED, backend, time.time() - t, detail, replay, wit)
        return False

    def par(self, fns):
        """Evaluates independent closures on all cores (forked): list of (kind, value, seconds)."""
        return _par(fns)

    def prove_all(self, items, backend):
        """Many independent obligations [(name, fn)], fn as in prove, evaluated on all cores."""
        import interp

        for (name, _), (kind, v, secs) in zip(items, _par([f for _, f in items])):
            if kind == "unsupported":
                self.ob(name, UNDECIDED, backend, secs, f"unsupported: {v}")
            elif kind == "error":
                raise RuntimeError(f"{name}: {v}")
            elif v is None:
                self.ob(name, DISCHARGED, backend, secs)
            else:
                self.ob(name, FAILED, backend, secs, *v)

    def bounded_all(self, b, items):
        """Bounded evaluations [(case, fn, nontrivial)] on all cores."""
        for (name, _, nt), (kind, v, secs) in zip(items, _par([f for _, f, _ in items])):
            b["evaluations"] += 1
            if kind == "unsupported":
                b["undecided"] += 1
            elif kind == "error":
                raise RuntimeError(f"{name}: {v}")
            else:
                b["distinct_nontrivial"] += bool(nt)
                if v:
                    self.violation(name, *v)

    def canary(self, name, rejected):
        """A deliberately wrong obligation must be rejected: guards against vacuity."""
        self.canaries += 1
        if not rejected:
            raise RuntimeError(f"vacuity guard: the wrong obligation {name} was accepted")

    def run_bounded(self, name, rule):
        d = self.bounded.setdefault(name, dict(evaluations=0, distinct_nontrivial=0, rule=rule, samples=[], undecided=0))
        return d

    # ------------------------------------------------------------ build & run
    def native(self, suite, *args, timeout=600, cwd=None):
        exe, self.hooks = build_native()
        cmd = [exe, suite] + [str(a) for a in args]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=cwd)
        out = []
        for l in p.stdout.decode("utf-8", "replace").splitlines():
            if l.startswith("{"):
                try:
                    out.append(json.loads(l))
                except ValueError:
                    raise RuntimeError(f"bad line from {suite}: {l[:200]}")
        if p.returncode != 0:
            # a crash of the code under test (abort, stack overflow): the last case did not finish
            out.append({"case": f"{suite}:process", "panic": f"harness ended with {p.returncode}: {p.stderr.decode('utf-8','replace')[-400:]}"})
        return out

    def sampled(self, harnesses, n):
        """Contracts too hard for the verifier: run natively on sampled inputs only (bounded)."""
        exe, _ = build_native("kani", "replay")
        p = subprocess.run([exe, "fuzz", str(self.seed), str(n)] + list(harnesses), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        for l in p.stdout.decode().splitlines():
            d = json.loads(l)
            b = self.run_bounded(d["harness"], harnesses[d["harness"]] + "; sampled inputs; non-trivial: the precondition is met")
            b["evaluations"] += n
            b["distinct_nontrivial"] += d["met"]
            if d["failed"]:
                self.violation(d["harness"], f"{d['message']} for the values {d['values']}", dict(cmd=["kani", "run", d["harness"]] + [",".join(map(str, v)) for v in d["values"]]))

    def kani(self, harnesses, timeout=600, fuzz=3000, label="Kani (CBMC) on the real crate", features="", crate="kani", exe="replay"):
        """harnesses: dict harness -> contract text. Every harness is one obligation, decided by Kani
        over the full domain of its inputs; a failure is replayed natively for the failing input."""
        t = time.time()
        try:
            exe, _ = build_native(crate, exe, features)
        except BuildError as e:
            self.notes.append("the contract harness does not build against this tree")
            for h, c in harnesses.items():
                self.ob(f"{h}: {c}", UNDECIDED, label, 0, "the contract harness does not build: " + str(e)[-300:])
            return False
        failed = {}
        p = subprocess.run([exe, "fuzz", str(self.seed), str(fuzz)] + list(harnesses), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        b = self.run_bounded("sampled contracts", f"each harness also runs natively on {fuzz} sampled inputs, biased to small and boundary values; non-trivial: the precondition is met")
        for l in p.stdout.decode().splitlines():
            d = json.loads(l)
            b["evaluations"] += fuzz
            b["distinct_nontrivial"] += d["met"]
            if d["failed"]:
                failed[d["harness"]] = d
        left = [h for h in harnesses if h not in failed]
        res = run_kani(left, timeout, features, crate) if left else {}
        secs = (time.time() - t) / max(1, len(harnesses))
        for h, c in harnesses.items():
            st, detail = res.get(h, (UNDECIDED, "no result"))
            if h in failed:
                d = failed[h]
                self.ob(f"{h}: {c}", FAILED, label, secs, f"{d['message']} for the values {d['values']}", dict(cmd=[crate, "run", h] + [",".join(map(str, v)) for v in d["values"]]))
            elif st == FAILED:
                vals = kani_witness(h, timeout, features, crate)
                rep = None
                if vals is not None:
                    r = subprocess.run([exe, "run", h] + [",".join(map(str, v)) for v in vals], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
                    if r.returncode not in (0, 3):
                        rep = dict(cmd=[crate, "run", h] + [",".join(map(str, v)) for v in vals], output=r.stderr.decode()[-500:])
                self.ob(f"{h}: {c}", FAILED, label, secs, detail, rep or dict(verifier=detail), rep is not None)
            else:
                self.ob(f"{h}: {c}", st, label, secs, detail)
        return True

    # ------------------------------------------------------------ report
    def finish(self, statement_bounded=False):
        wall = time.time() - self.t0
        n = len(self.obls)
        d = sum(o["status"] == DISCHARGED for o in self.obls)
        u = [o for o in self.obls if o["status"] == UNDECIDED]
        cov = dict(
            obligations=n,
            discharged=d,
            undecided=[dict(name=o["name"], why=o["detail"]) for o in u],
            failed=sum(o["status"] == FAILED for o in self.obls),
            checker_cmd=f"VERIF_SEED={self.seed} VERIF_TIER={self.tier} ./check {self.pid}",
            back_ends=sorted(self.checker),
            trusted_base=self.trusted,
            functions_under_contract=self.functions,
            solver_seconds=round(self.solver_s, 3),
            vacuity_canaries_rejected=self.canaries,
            hooks_enabled=self.hooks,
            obligation_samples=[o for o in self.obls[:6]],
            bounded_stand_ins={k: {**v, "samples": v["samples"][:4]} for k, v in self.bounded.items()},
            notes=self.notes,
        )
        ev = dict(
            property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
            assumptions=self.assumptions, wall_s=round(wall, 2), violations=len(self.viol),
        )
        if self.level == "other":
            cov["explanation"] = "; ".join(self.notes) or "see DESIGN.md"
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        seen = set()
        for k, name, detail in self.known_hit:
            if k["match"] not in seen:
                seen.add(k["match"])
                print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        nb = sum(v["evaluations"] for v in self.bounded.values())
        print(f"{self.pid}: {d}/{n} obligations discharged, {len(u)} undecided, {nb} bounded evaluations, {len(self.viol)} violations, {wall:.1f}s")
        for o in u[:5]:
            print(f"  undecided: {o['name']}: {o['detail'][:160]}")
        if self.viol:
            for name, detail, path, wit in self.viol[:60]:
                print(f"  failed obligation {name}: {detail[:300]}")
            # one line per violation with a concrete input first
            v = sorted(self.viol, key=lambda x: not x[3])[0]
            print(f"VIOLATION property={self.pid} replay={v[2]}" + ("" if v[3] else " no-failing-input-found"))
            return 1
        return 0


_PAR = []


def _par_one(i):
    import interp, traceback

    t = time.time()
    try:
        return ("ok", _PAR[i](), time.time() - t)
    except interp.Unsupported as e:
        return ("unsupported", str(e), time.time() - t)
    except Exception:
        return ("error", traceback.format_exc()[-1500:], time.time() - t)


def _par(fns):
    import multiprocessing as mp

    global _PAR
    _PAR = list(fns)
    if len(_PAR) < 16:
        r = [_par_one(i) for i in range(len(_PAR))]
    else:
        with mp.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as p:
            r = p.map(_par_one, range(len(_PAR)), chunksize=max(1, min(32, len(_PAR) // 32)))
    _PAR = []
    return r


def _slug(s):
    return "".join(c if c.isalnum() or c in "-_." else "_" for c in s)[:90]


def load_known(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("{"):
                x = json.loads(l)
                if x.get("property") == pid and x.get("match"):
                    out.append(x)
    return out


def env(extra=None):
    e = dict(os.environ)
    e.update(
        RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="",
        LANG="C.UTF-8", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_INCREMENTAL="1",
        LLVM_SYS_140_PREFIX="/usr/lib/llvm-14", HOME=e.get("HOME", "/root"),
    )
    e["PATH"] = f"/usr/local/cargo/bin:{e['HOME']}/.cargo/bin:/usr/local/bin:/usr/bin:/bin:" + e.get("PATH", "")
    for k in ("RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    e.update(extra or {})
    return e


_built = {}


def stale_guard(tdir, cratedir, e, pkgs=("tket", "tket-qsystem")):
    """cargo trusts modification times; force a rebuild whenever the content changed."""
    stamp = os.path.join(tdir, "repo.hash")
    h = repo_hash()
    old = open(stamp).read() if os.path.exists(stamp) else None
    if old is not None and old != h:
        for p in pkgs:
            subprocess.run(["cargo", "clean", "--offline", "-p", p], cwd=cratedir, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    return stamp, h


def build_native(crate="harness", exe="vh", features=""):
    """Build the native harness against /repo's working tree. Returns (path, hooks?)."""
    if (crate, features) in _built:
        return _built[crate, features]
    tdir = os.path.join(VERIF, "target", "native" if crate == "harness" else crate)
    os.makedirs(tdir, exist_ok=True)
    cdir = os.path.join(VERIF, crate)
    with open(os.path.join(tdir, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        errs = []
        for hooks in (True, False):
            fl = f"--cfg {HOOK_CFG} -Awarnings" if hooks else "-Awarnings"
            e = env(dict(CARGO_TARGET_DIR=tdir, RUSTFLAGS=fl))
            stamp, h = stale_guard(tdir, cdir, e)
            p = subprocess.run(["cargo", "build", "--offline", "--quiet"] + (["--features", features] if features else []), cwd=cdir, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode == 0:
                with open(stamp, "w") as f:
                    f.write(h)
                _built[crate, features] = (os.path.join(tdir, "debug", exe), hooks)
                return _built[crate, features]
            errs.append(p.stdout.decode("utf-8", "replace")[-3000:])
    raise BuildError("cannot build the harness:\n" + "\n----\n".join(errs))


def _kani_env(crate="kani"):
    tdir = os.path.join(VERIF, "target", crate + "-cbmc")
    os.makedirs(tdir, exist_ok=True)
    return tdir, env(dict(CARGO_TARGET_DIR=tdir, RUSTFLAGS=f"--cfg {HOOK_CFG} -Awarnings"))


def run_kani(hs, timeout=600, features="", crate="kani"):
    """{harness: (status, detail)}"""
    tdir, e = _kani_env(crate)
    cdir = os.path.join(VERIF, crate)
    out = {}
    with open(os.path.join(tdir, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        stamp, h = stale_guard(tdir, cdir, e)
        cmd = ["cargo", "kani", "-Z", "stubbing", "-Z", "unstable-options", "--harness-timeout", f"{timeout}s", "--output-format", "terse", "-j", "8"]
        if features:
            cmd += ["--features", features]
        for x in hs:
            cmd += ["--harness", f"proofs::{x}"]
        cmd += ["--exact"]
        p = subprocess.run(cmd, cwd=cdir, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        with open(stamp, "w") as f:
            f.write(h)
    text = p.stdout.decode("utf-8", "replace")
    order = {}
    # with -j, a result block is preceded by "Thread N: " and belongs to the harness thread N took last
    last = {}
    pend = None
    for l in text.splitlines():
        m = re.match(r"(?:Thread (\d+): )?Checking harness proofs::(\w+)\.\.\.", l)
        if m:
            last[m.group(1)] = m.group(2)
            pend = m.group(1) if m.group(1) is None else pend
            continue
        m = re.match(r"Thread (\d+):\s*$", l)
        if m:
            pend = m.group(1)
            continue
        h = last.get(pend)
        if h is None:
            continue
        d = order.setdefault(h, [])
        d.append(l)
    for h in hs:
        b = "\n".join(order.get(h, []))
        if "VERIFICATION:- SUCCESSFUL" in b:
            if re.search(r"\*\* 0 of \d+ cover properties satisfied", b):
                raise RuntimeError(f"vacuity guard: the precondition of {h} cannot be met")
            m = re.search(r"\*\* 0 of (\d+) failed", b)
            out[h] = (DISCHARGED, f"{m.group(1) if m else '?'} checks")
        elif "VERIFICATION:- FAILED" in b:
            fails = re.findall(r"Failed Checks: (.*)", b)
            real = [x for x in fails if "unwinding assertion" not in x and "unsupported" not in x.lower() and "is not currently supported" not in x]
            if real:
                out[h] = (FAILED, "; ".join(real)[:300])
            else:
                out[h] = (UNDECIDED, "; ".join(fails)[:300] or b[-300:])
        else:
            out[h] = (UNDECIDED, (b or text)[-300:])
    return out


def kani_witness(h, timeout=300, features="", crate="kani"):
    tdir, e = _kani_env(crate)
    p = subprocess.run(["cargo", "kani", "-Z", "stubbing", "-Z", "concrete-playback", "--concrete-playback=print", "-Z", "unstable-options", "--harness-timeout", f"{timeout}s", "--harness", h] + (["--features", features] if features else []),
                       cwd=os.path.join(VERIF, crate), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    t = p.stdout.decode("utf-8", "replace")
    m = re.search(r"concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", t, re.S)
    if not m:
        return None
    return [[int(x) for x in v.split(",") if x.strip()] for v in re.findall(r"vec!\[([0-9, ]*)\]", m.group(1))]


def main(pid, run):
    ctx = Ctx(pid)
    try:
        run(ctx)
        rc = ctx.finish()
    except Exception:
        traceback.print_exc()
        if ctx.viol:
            return ctx.finish()
        print(f"{pid}: the check could not give an answer")
        return 2
    return rc
