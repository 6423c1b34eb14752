#!/usr/bin/env python3
"""Decides one property: bin/check.py C21 [quick|thorough]

A check is a list of stages (bin/plan.py):
  model   TLC explores a design model exhaustively and checks its invariants and refinements
  cover   TLC prints operation scripts while it explores a model; they are executed on the
          real code, and TLC compares the recorded traces with the specification
  random  scenarios made by the harness are executed on the real code, and TLC compares the
          recorded traces with the specification
Exit 0: everything conforms; 1: VIOLATION; 2: the machinery itself failed.
"""
import concurrent.futures as cf
import fcntl
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import threading
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
BUILD = os.path.join(ROOT, "build")
TARGET = os.path.join(BUILD, "target")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = min(8, os.cpu_count() or 8)
REPO = os.environ.get("VERIF_REPO", "/repo")

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


class ToolError(Exception):
    pass


def env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["HOME"] = "/root"
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTC_WRAPPER"] = ""
    e.pop("CARGO_TARGET_DIR", None)
    return e


def build(cli=False, private=False):
    """The harness for the public interface is built with the crate as it is; only the one for
    the private collections and maths needs the crate's hook."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        e = env()
        e["RUSTFLAGS"] = "-Awarnings" + (" --cfg adhoc_verif" if private else "")
        target = TARGET + ("-private" if private else "")
        e["CARGO_TARGET_DIR"] = target
        cmd = ["cargo", "build", "--offline", "-q"] + (["--features", "private"] if private else [])
        r = subprocess.run(cmd, cwd=os.path.join(ROOT, "harness"),
                           env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise ToolError("the harness doesn't build:\n" + r.stdout[-4000:])
        if cli:
            e = env()
            e["RUSTFLAGS"] = "-Awarnings"
            e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "cli")
            r = subprocess.run(["cargo", "build", "--offline", "-q", "--locked", "--bin", "adhoc_audio"],
                               cwd=REPO, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                raise ToolError("the command line tool doesn't build:\n" + r.stdout[-4000:])
    return os.path.join(target, "debug", "vh")


# ------------------------------------------------------------------ processes
running = set()
running_lock = threading.Lock()


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def spawn(cmd, timeout, env=None, cwd=None, limit=False, out=None):
    p = subprocess.Popen(cmd, env=env, cwd=cwd, stdout=out or subprocess.PIPE, stderr=subprocess.STDOUT,
                         text=True, errors="replace", preexec_fn=limits if limit else None)
    with running_lock:
        running.add(p)
    try:
        o, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        raise ToolError("timeout: " + " ".join(cmd)[:300])
    finally:
        with running_lock:
            running.discard(p)
    return p.returncode, o or ""


def kill_all():
    with running_lock:
        for p in running:
            try:
                p.kill()
            except OSError:
                pass


# ------------------------------------------------------------------------ TLC
class Tlc:
    def __init__(self, out, code):
        self.out, self.code = out, code
        m = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", out)
        self.transitions = int(m[-1][0].replace(",", "")) if m else 0
        self.states = int(m[-1][1].replace(",", "")) if m else 0
        self.finished = "Model checking completed. No error has been found." in out
        self.deadlock = "Error: Deadlock reached." in out
        m = re.search(r"Error: (Invariant \S+ is violated|Action property .* is violated|"
                      r"Temporal properties were violated)", out)
        self.property = m.group(1) if m else None

    def error_text(self):
        i = self.out.find("Error:")
        if "Parsing or semantic analysis failed" in self.out:
            i = self.out.find("***Parse Error***")
            i = i if i >= 0 else self.out.find("*** Errors:")
        return self.out[i if i >= 0 else -3000:][:3000]

    def coverage(self):
        """distinct:generated per action, from the coverage statistics"""
        c = {}
        for m in re.finditer(r"^<(\w+) line .*?>: (\d+):(\d+)", self.out, re.M):
            a, b = c.get(m.group(1), (0, 0))
            c[m.group(1)] = (max(a, int(m.group(2))), max(b, int(m.group(3))))
        return c


def tlc(module, cfg, work, workers=1, heap="3g", timeout=1000, extra=(), environ=None, deadlock=True,
        simulate=None, light=False):
    meta = os.path.join(work, "meta-%s-%d" % (os.path.basename(cfg), threading.get_ident()))
    shutil.rmtree(meta, ignore_errors=True)
    cmd = ["java", "-Djava.io.tmpdir=" + work, "-Xss64m", "-Xmx" + heap] + (["-XX:TieredStopAtLevel=1"] if light else [])
    cmd += ["-XX:+UseSerialGC"] if workers == 1 else ["-XX:+UseParallelGC"]
    cmd += ["-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers), "-metadir", meta]
    if not deadlock:
        cmd += ["-deadlock"]
    if simulate:
        cmd += ["-simulate", "num=%d" % simulate[0], "-depth", str(simulate[1]), "-seed", str(simulate[2])]
    cmd += list(extra) + ["-config", os.path.join(SPEC, cfg), os.path.join(SPEC, module + ".tla")]
    e = env()
    e.update(environ or {})
    try:
        code, out = spawn(cmd, timeout, env=e, cwd=work)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return Tlc(out, code)


# ------------------------------------------------------------------- scenarios
def record(vh, work, name, mode, arg, first, count, seed, scripts=None, environ=None, append=False):
    """runs the harness on scenarios first..first+count; a scenario that it doesn't survive
    becomes a trace that ends with a crash"""
    out = os.path.join(work, name + ".ndjson")
    part = os.path.join(work, name + ".partial")
    if not append:
        open(out, "w").close()
    i, crashes = first, 0
    e = env()
    # for the profiles that run the command line tool
    e["VH_CLI"] = os.path.join(BUILD, "cli", "debug", "adhoc_audio")
    e["VH_SCRATCH"] = os.path.join(work, "scratch")
    e.update(environ or {})
    while i < first + count:
        if mode == "gen":
            cmd = [vh, "gen", arg, str(seed), str(i), str(first + count - i), out, part]
        else:
            cmd = [vh, "run", arg, scripts, str(i), out, part]
        code, text = spawn(cmd, 600, env=e, cwd=work, limit=True)
        if code == 0:
            break
        if code > 0 and code != 88:
            raise ToolError("the harness failed (%d): %s\n%s" % (code, " ".join(cmd), text[-2000:]))
        at = open(part).read()
        m = re.match(r"(\d+) (.*)", at, re.S)
        if not m:
            raise ToolError("the harness died (%d) outside of the code under test: %s" % (code, text[-2000:]))
        i = int(m.group(1))
        # an incomplete line is dropped
        lines = open(out).read()
        lines = lines[:lines.rfind("\n") + 1]
        how = "no return" if code == 88 else "signal %d" % -code
        lines += json.dumps({"id": i, "kind": "crash", "cfg": [0] * 12, "how": how,
                             "ev": [{"op": m.group(2).strip(), "st": "crash"}]}) + "\n"
        open(out, "w").write(lines)
        i += 1
        crashes += 1
        if crashes >= 3:
            break
    return out


class Rejected(Exception):
    def __init__(self, info):
        self.info = info


def last_int(out, var):
    m = re.findall(r"^(?:/\\ )?%s = (\d+)" % var, out, re.M)
    return int(m[-1]) if m else None


def check_traces(trace_spec, path, work, heap="3g", timeout=850, light=True):
    """TLC decides whether every trace in the file is a behaviour of the specification"""
    name = os.path.basename(path)
    wd = os.path.join(work, "tlc-" + name)
    os.makedirs(wd, exist_ok=True)
    r = tlc(trace_spec, trace_spec + ".cfg", wd, heap=heap, timeout=timeout, environ={"TRACE": path},
            light=light)
    if r.finished:
        return r
    # a value for which the specification has no meaning is no step of it either
    undefined = ("The error occurred when TLC was evaluating" in r.out or "TLC threw an unexpected exception" in r.out
                 or "Attempted to " in r.out) and "StackOverflow" not in r.out and "OutOfMemory" not in r.out \
        and "The behavior up to this point is" in r.out
    if r.deadlock or r.property or undefined:
        sc, l = last_int(r.out, "sc"), last_int(r.out, "l")
        if sc is None:
            raise ToolError("can't read TLC's output:\n" + r.out[-3000:])
        with open(path) as f:
            for k, line in enumerate(f):
                if k == sc - 1:
                    break
        scen = json.loads(line)
        states = r.out[r.out.rfind("State "):]
        raise Rejected({"spec": trace_spec, "why": r.property or "the event is no step of the specification",
                        "event_index": l, "event": scen["ev"][l - 1] if l <= len(scen["ev"]) else None,
                        "scenario": scen, "state_before": states[:4000]})
    raise ToolError("TLC failed on %s:\n%s" % (trace_spec, r.error_text()))


OPS = re.compile(rb'"op":"(\w+)"')


def count_events(path, into):
    n = 0
    with open(path, "rb") as f:
        for line in f:
            n += 1
            for m in OPS.findall(line):
                into[m.decode()] = into.get(m.decode(), 0) + 1
    return n


# ---------------------------------------------------------------------- stages
class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.work = os.path.join(BUILD, "run", "%s-%d" % (prop, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = self.transitions = self.traces = 0
        self.events = {}
        self.stages = []
        self.samples = []
        self.pool = cf.ThreadPoolExecutor(CORES)

    def quick(self, q, t):
        return q if self.tier == "quick" else t

    def note(self, **kw):
        self.stages.append(kw)

    def sample(self, path):
        with open(path) as f:
            line = f.readline()
        if line and len(self.samples) < 6:
            self.samples.append({"trace_file": os.path.basename(path), "first_scenario": line[:500]})

    # -- a design model, explored exhaustively (or simulated)
    def model(self, module, cfg=None, quick=True, workers=CORES, heap="8g", simulate=None, deadlock=False,
              timeout=850, cover=True):
        if self.tier == "quick" and not quick:
            return
        cfg = cfg or module + ".cfg"
        t0 = time.time()
        sim = (simulate[0], simulate[1], self.seed) if simulate else None
        r = tlc(module, cfg, self.work, workers=workers, heap=heap, timeout=timeout, deadlock=deadlock,
                extra=["-coverage", "1"] if cover and not sim else [], simulate=sim)
        if not (r.finished or (sim and r.code == 0)):
            raise ToolError("the model %s (%s) fails on its own, whatever the code does:\n%s"
                            % (module, cfg, r.error_text()))
        self.states += r.states
        self.transitions += r.transitions
        dead = sorted(a for a, (d, g) in r.coverage().items() if g == 0)
        self.note(stage="model", module=module, cfg=cfg, states=r.states, transitions=r.transitions,
                  exhaustive=not sim, actions={a: g for a, (d, g) in r.coverage().items()},
                  actions_never_taken=dead, wall_s=round(time.time() - t0, 1))

    # -- files of traces, in parallel
    def conform(self, jobs, trace_spec, what, heap="3g", t0=None, light=True):
        """jobs: functions that return the path of a trace file"""
        t0 = t0 or time.time()

        def one(job):
            path = job()
            return path, check_traces(trace_spec, path, self.work, heap=heap, light=light)

        futures = [self.pool.submit(one, j) for j in jobs]
        n = st = tr = 0
        ev = {}
        failure = None
        for f in cf.as_completed(futures):
            try:
                path, r = f.result()
            except (Rejected, ToolError) as x:
                if failure is None or isinstance(failure, ToolError):
                    failure = x
                if isinstance(x, Rejected):
                    for g in futures:
                        g.cancel()
                    kill_all()
                    break
                continue
            n += count_events(path, ev)
            st += r.states
            tr += r.transitions
            if n:
                self.sample(path)
            os.unlink(path)
        if failure:
            raise failure
        self.states += st
        self.transitions += tr
        self.traces += n
        for k, v in ev.items():
            self.events[k] = self.events.get(k, 0) + v
        self.note(stage=what, trace_spec=trace_spec, traces=n, states=st, events=ev,
                  wall_s=round(time.time() - t0, 1))

    # -- scenarios made by the harness
    def random(self, profiles, trace_spec, quick=None, thorough=None, chunk=None, heap="3g", environ=None,
               light=True):
        """profiles: a name with counts, or a list of (name, quick, thorough)"""
        if isinstance(profiles, str):
            profiles = [(profiles, quick, thorough)]
        profiles = [(p, q if self.tier == "quick" else t) for p, q, t in profiles]
        profiles = [(p, n) for p, n in profiles if n]
        t0 = time.time()
        total = sum(n for _, n in profiles)
        n = max(CORES, (total + (chunk or 1000) - 1) // (chunk or 1000))
        # every file gets its share of every profile
        shares = [[] for _ in range(n)]
        for p, count in profiles:
            for k in range(n):
                first, last = k * count // n, (k + 1) * count // n
                if last > first:
                    shares[k].append((p, first, last - first))

        def job(k):
            def f():
                out = None
                for p, first, m in shares[k]:
                    out = record(self.vh, self.work, "random-%d" % k, "gen", p, first, m, self.seed,
                                 environ=environ, append=out is not None)
                return out
            return f

        self.conform([job(k) for k in range(n) if shares[k]], trace_spec,
                     "random:" + ",".join(p for p, _ in profiles), heap=heap, t0=t0, light=light)

    # -- scripts printed by TLC
    def cover(self, module, cfg, kind, trace_spec, quick=True, limit=None, simulate=None, heap="4g", prefix="",
              chunk=None):
        if self.tier == "quick" and not quick:
            return
        t0 = time.time()
        sim = (simulate[0], simulate[1], self.seed) if simulate else None
        r = tlc(module, cfg, self.work, workers=1, heap=heap, timeout=850, deadlock=False, simulate=sim)
        if not (r.finished or (sim and r.code == 0)):
            raise ToolError("the generator %s (%s) fails:\n%s" % (module, cfg, r.error_text()))
        scripts = sorted(set(m for m in re.findall(r'^"S\|(.*)"$', r.out, re.M)))
        if not scripts:
            raise ToolError("no scripts from %s (%s)" % (module, cfg))
        total = len(scripts)
        if limit and total > limit:
            # a fixed stride, shifted by the seed
            step = total / limit
            scripts = [scripts[(int(i * step) + self.seed) % total] for i in range(limit)]
        # parallel chunks
        n = min(CORES, max(1, len(scripts) // 50))
        if chunk:
            n = max(n, (len(scripts) + chunk - 1) // chunk)
        jobs = []
        for k in range(n):
            part = scripts[k::n]
            f = os.path.join(self.work, "%s-%s-%d.scripts" % (module, re.sub(r"\W", "_", kind), k))
            with open(f, "w") as o:
                o.write("\n".join(prefix + s for s in part) + "\n")
            name = "%s-%s-%d" % (os.path.basename(cfg), re.sub(r"\W", "_", kind), k)
            jobs.append(lambda f=f, n=len(part), name=name: record(
                self.vh, self.work, name, "run", kind, 0, n, self.seed, scripts=f))
        self.states += r.states
        self.transitions += r.transitions
        self.conform(jobs, trace_spec, "cover:" + cfg, heap=heap, t0=t0)
        self.stages[-1].update(generator=module, cfg=cfg, generator_states=r.states,
                               scripts=total, scripts_run=len(scripts), exhaustive=not sim and len(scripts) == total)


def known_findings(prop):
    """entries 'finding: property=<id> match=<regex> <text>' suppress a rejection whose scenario
    matches; entries 'fixed: ..' suppress nothing"""
    found = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                found.append(m.group(2))
    return found


def main():
    import plan
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    stages, opts = plan.PLAN[prop]
    t0 = time.time()
    run = Run(prop, tier, seed)
    code = 0
    violations = 0
    try:
        run.vh = build(cli=opts.get("cli", False), private=opts.get("private", False))
        for line in known_findings(prop):
            print("KNOWN-FINDING: property=%s %s" % (prop, line))
        stages(run)
    except Rejected as x:
        violations = 1
        code = 1
        d = os.path.join(BUILD, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s-%d.json" % (prop, tier, seed))
        with open(path, "w") as f:
            json.dump(x.info, f, indent=1)
        ev = json.dumps(x.info["event"])
        print("%s: %s, event %s of scenario %s: %s" % (
            x.info["spec"], x.info["why"], x.info["event_index"], x.info["scenario"].get("id"), ev[:600]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    except ToolError as x:
        code = 2
        print("ERROR: %s" % x)
    finally:
        kill_all()
        run.pool.shutdown(wait=True)
        shutil.rmtree(run.work, ignore_errors=True)
    wall = round(time.time() - t0, 1)
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": run.states,
            "transitions": run.transitions,
            "traces_validated_against_impl": run.traces,
            "events_validated": sum(run.events.values()),
            "events_by_action": run.events,
            "stages": run.stages,
            "samples": run.samples,
        },
        "assumptions": opts.get("assumptions", []),
        "wall_s": wall,
        "violations": violations,
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: exit %d, %d model and trace states, %d traces, %.1f s"
          % (prop, tier, code, run.states, run.traces, wall))
    sys.exit(code)


if __name__ == "__main__":
    main()
