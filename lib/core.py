"""Building the harness, running TLC, collecting results."""
import fcntl, json, os, re, resource, shutil, signal, subprocess, sys, time, traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESS = os.path.join(ROOT, "harness")
SPEC = os.path.join(ROOT, "spec")
EVID = os.path.join(ROOT, "evidence")
FINDINGS = os.path.join(ROOT, "known-findings.txt")


class ToolError(Exception):
    pass


def env_clean():
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS", "JAVA_TOOL_OPTIONS"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    return e


def build(profile, dest):
    """Builds the harness against /repo's working tree and copies the binary to dest."""
    os.makedirs(os.path.join(HARNESS, "target"), exist_ok=True)
    with open(os.path.join(HARNESS, "target", ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        rel = ["--release"] if profile == "release" else []
        # File times say nothing in a copied tree: the library is always compiled again.
        subprocess.run(["cargo", "clean", "--offline", "-p", "protofish"] + rel, cwd=HARNESS, env=env_clean(),
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        r = subprocess.run(["cargo", "build", "--offline"] + rel, cwd=HARNESS, env=env_clean(), capture_output=True, text=True)
        if r.returncode != 0:
            raise ToolError("harness does not build:\n" + r.stderr[-3000:])
        shutil.copy2(os.path.join(HARNESS, "target", "release" if rel else "debug", "pf"), dest)


def setup():
    os.makedirs(os.path.join(ROOT, "work"), exist_ok=True)
    try:
        for p in ("debug", "release"):
            build(p, os.path.join(ROOT, "work", "pf-setup"))
        os.remove(os.path.join(ROOT, "work", "pf-setup"))
        for f in sorted(os.listdir(SPEC)):
            if f.endswith(".tla"):
                r = subprocess.run(["tla-sany", f], cwd=SPEC, capture_output=True, text=True)
                if r.returncode != 0 or "rror" in r.stdout.replace("errors: 0", ""):
                    if re.search(r"\*\*\* Errors|Parse Error|Could not", r.stdout):
                        print(r.stdout[-2000:])
                        return 2
    except ToolError as e:
        print(e)
        return 2
    print("setup done")
    return 0


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.work = os.path.join(ROOT, "work", "%s-%d" % (prop, os.getpid()))
        self.states = self.transitions = self.traces = 0
        self.exhaustive = False
        self.samples, self.parts, self.assumptions = [], [], []
        self.actions = {}
        self.violations = []
        self.findings = []
        self.bins = {}
        self.nfiles = 0

    # -- harness ---------------------------------------------------------
    def bin(self, profile="debug"):
        if profile not in self.bins:
            dest = os.path.join(self.work, "pf-" + profile)
            t = time.time()
            build(profile, dest)
            self.note("build", profile=profile, seconds=round(time.time() - t, 1))
            self.bins[profile] = dest
        return self.bins[profile]

    def path(self, name):
        return os.path.join(self.work, name)

    def pf(self, cmd, profile="debug", timeout=800, crash_is_violation=True, **kw):
        """Runs a harness command; False when the process did not survive the code under test."""
        st = self.path("status-%s.json" % profile)
        args = [self.bin(profile), cmd, "--status", st]
        for k, v in kw.items():
            args += ["--" + k.rstrip("_"), str(v)]

        def limits():
            resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        try:
            r = subprocess.run(args, capture_output=True, text=True, timeout=timeout, preexec_fn=limits, errors="replace")
        except subprocess.TimeoutExpired:
            raise ToolError("harness %s took longer than %d s" % (cmd, timeout))
        if r.returncode == 0:
            return True
        if r.returncode == 97 or r.returncode < 0:
            how = "does not terminate" if r.returncode == 97 else "dies with signal %d" % -r.returncode
            item = open(st).read() if os.path.exists(st) else ""
            if crash_is_violation and item:
                self.violation("the process %s" % how, {"item": item, "stderr": r.stderr[-600:], "profile": profile})
                return False
        raise ToolError("harness %s failed with %d:\n%s" % (" ".join(args[1:]), r.returncode, r.stderr[-3000:]))

    # -- TLC -------------------------------------------------------------
    def tlc(self, module, cfg, env=None, workers=8, timeout=800, extra=(), heap="10g", lines=None):
        """Runs TLC on a copy of the specification; returns the printed lines by their first word."""
        d = self.path("tlc")
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(SPEC, d)
        with open(os.path.join(d, "run.cfg"), "w") as f:
            f.write(cfg)
        e = env_clean()
        e["JAVA_TOOL_OPTIONS"] = "-Xmx%s -Xss64m" % heap
        if env:
            e.update(env)
        args = ["tlc", "-workers", str(workers), "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE",
                "-config", "run.cfg"] + list(extra) + [module + ".tla"]
        t = time.time()
        out = {}
        text = []
        with open(os.path.join(d, "out.log"), "w") as log:
            try:
                r = subprocess.run(args, cwd=d, env=e, stdout=log, stderr=subprocess.STDOUT, timeout=timeout)
            except subprocess.TimeoutExpired:
                raise ToolError("TLC on %s took longer than %d s" % (module, timeout))
        for line in open(os.path.join(d, "out.log"), errors="replace"):
            if line.startswith('"') and " " in line:
                try:
                    s = json.loads(line)
                except ValueError:
                    raise ToolError("unreadable TLC line: " + line[:300])
                k, _, v = s.partition(" ")
                if lines and k in lines:
                    lines[k](v)
                else:
                    out.setdefault(k, []).append(json.loads(v))
            else:
                text.append(line)
        text = "".join(text)
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", text)
        gen, dist = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
        ok = r.returncode == 0 and ("No error has been found" in text or "-simulate" in args)
        if not ok:
            i = text.find("Error:")
            raise ToolError("TLC on %s failed (exit %d):\n%s" % (module, r.returncode, text[i:i + 3000] if i >= 0 else text[-3000:]))
        if gen == 0:
            m = re.findall(r"The number of states generated: ([\d,]+)", text)
            gen = dist = int(m[-1].replace(",", "")) if m else 0
        self.states += dist
        self.transitions += gen
        self.note("tlc", module=module, states=dist, generated=gen, seconds=round(time.time() - t, 1),
                  constants=" ".join(cfg.split()))
        shutil.rmtree(d, ignore_errors=True)
        return out

    def validate(self, trace, module="WireTrace", what="execution", n_expected=None, describe=None, timeout=800):
        """Lets TLC explain a recorded trace; every record it cannot explain is a violation."""
        recs = sum(1 for _ in open(trace))
        if recs == 0:
            raise ToolError("empty trace " + trace)
        out = self.tlc(module, "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", env={"TRACE": trace}, timeout=timeout)
        chunks = out.get("CHUNK", [])
        if not chunks or len(chunks) != chunks[0]["of"] or sum(c["n"] for c in chunks) != recs:
            raise ToolError("trace %s was not explained completely (%d chunks)" % (trace, len(chunks)))
        cov = {}
        for c in chunks:
            for k, v in c["cov"].items():
                if v:
                    cov[k] = cov.get(k, 0) + v
        for k, v in cov.items():
            self.actions[k] = self.actions.get(k, 0) + v
        self.traces += recs - cov.get("skipped", 0)
        rejects = {r["id"]: r["want"] for r in out.get("REJECT", [])}
        if rejects:
            sch = [json.loads(x) for x in open(trace + ".sch")] if os.path.exists(trace + ".sch") else None
            for line in open(trace):
                if not rejects:
                    break
                rec = json.loads(line)
                if rec["id"] in rejects:
                    want = rejects.pop(rec["id"])
                    obj = {"record": rec, "specification_allows": want}
                    if sch and "s" in rec:
                        obj["schema"] = sch[rec["s"] - 1]
                    self.violation("the specification does not allow this %s" % what, obj)
        else:
            with open(trace) as f:
                for _ in range(3):
                    line = f.readline()
                    if line:
                        self.sample(json.loads(line))
        return cov

    # -- results ---------------------------------------------------------
    def note(self, kind, **kw):
        self.parts.append(dict(kind=kind, **kw))

    def sample(self, obj):
        if len(self.samples) < 6:
            s = json.dumps(obj)
            self.samples.append(obj if len(s) < 4000 else s[:4000] + "...")

    def violation(self, what, obj):
        self.nfiles += 1
        if len(self.violations) < 20:
            d = os.path.join(EVID, "replay")
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, "%s-%s-%d-%d.json" % (self.prop, self.tier, self.seed, self.nfiles))
            with open(p, "w") as f:
                json.dump({"property": self.prop, "what": what, "case": obj}, f, indent=1)
            self.violations.append((what, os.path.relpath(p, ROOT)))

    def finding(self, text):
        self.findings.append(text)

    def listed(self, key):
        """Is a finding listed in known-findings.txt?  Lines: finding: property=<id> key=<key> <text>"""
        try:
            for line in open(FINDINGS):
                if line.startswith("finding: property=%s key=%s " % (self.prop, key)):
                    return line.split(" ", 3)[3].strip()
        except FileNotFoundError:
            pass
        return None

    def evidence(self, t0):
        os.makedirs(EVID, exist_ok=True)
        cov = {
            "states": self.states, "transitions": self.transitions,
            "traces_validated_against_impl": self.traces, "samples": self.samples or ["none"],
            "spec_actions_observed": self.actions, "parts": self.parts,
        }
        if self.exhaustive:
            cov["exhaustive"] = True
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - t0, 1), "violations": self.nfiles}
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)


def main(prop, tier, seed, checks, expected=None):
    t0 = time.time()
    c = Check(prop, tier, seed)
    shutil.rmtree(c.work, ignore_errors=True)
    os.makedirs(c.work)
    rc = 0
    try:
        try:
            checks[prop](c)
            unseen = [a for a in (expected or {}).get(prop, "").split() if not c.actions.get(a)]
            if unseen and not c.violations:
                raise ToolError("nothing recorded of: " + " ".join(unseen))
        except ToolError as e:
            # Nothing already found is lost to a later failure of the machinery.
            if not c.violations:
                print("CHECK ERROR %s: %s" % (prop, e))
                rc = 2
            else:
                c.note("error", text=str(e)[:500])
        except Exception:
            traceback.print_exc(file=sys.stdout)
            rc = 2
        for f in c.findings:
            print("KNOWN-FINDING: property=%s %s" % (prop, f))
        for what, p in c.violations[:10]:
            print("VIOLATION property=%s replay=%s (%s)" % (prop, p, what))
        if c.violations:
            rc = 1
        c.evidence(t0)
    finally:
        shutil.rmtree(c.work, ignore_errors=True)
    print("%s %s: states=%d transitions=%d traces=%d violations=%d %.0fs exit=%d" % (
        prop, tier, c.states, c.transitions, c.traces, c.nfiles, time.time() - t0, rc))
    return rc
