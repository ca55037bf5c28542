"""Orchestration shared by every check: TLC runs, drivers, verdicts, evidence.

A check consists of
  design tasks  - TLC model-checks a specification module (no code involved);
  trace tasks   - [TLC generates behaviours ->] a driver executes the real
                  code in /repo and records a trace -> TLC validates the trace
                  against the specification, naming every failing clause.
Exit codes: 0 held, 1 violation, 2 the machinery itself failed.
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
DRIVERS = os.path.join(VERIF, "vf", "drivers")
TLA_JAR = "/opt/veriftools/tla/tla2tools.jar"
CM_JAR = "/opt/veriftools/tla/CommunityModules-deps.jar"
PY = "/opt/venv/bin/python"
KNOWN = os.path.join(VERIF, "known_findings.txt")


class MachineryError(Exception):
  pass


def repo_env(extra=None):
  """Environment in which the code under test runs (a fresh process each)."""
  env = dict(os.environ)
  env.update(
      PYTHONDONTWRITEBYTECODE="1",
      PYTHONHASHSEED="0",
      PYTHONPATH=DRIVERS,
      JAX_PLATFORMS="cpu",
      CI="true",
      XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
      OMP_NUM_THREADS="1",
      OPENBLAS_NUM_THREADS="1",
      MKL_NUM_THREADS="1",
      TF_CPP_MIN_LOG_LEVEL="3",
      VERIF_REPO=REPO,
  )
  if extra:
    env.update(extra)
  return env


class Design:
  """Exhaustive (or simulated) TLC check of a specification module."""

  def __init__(self, module, cfg=None, thorough_cfg=None, simulate=None, tier=None):
    self.module = module
    self.cfg = cfg or module + ".cfg"
    self.thorough_cfg = thorough_cfg
    self.simulate = simulate  # (num, depth) or None
    self.tier = tier  # None: every tier


class Trace:
  """Driver + trace specification."""

  def __init__(self, driver, spec, shards=1, gen=None, env=None, args=(),
               thorough_shards=None, tier=None, timeout=600):
    self.driver = driver
    self.spec = spec
    self.shards = shards
    self.thorough_shards = thorough_shards or shards
    self.gen = gen  # Gen or None
    self.env = env or {}
    self.args = list(args)
    self.tier = tier
    self.timeout = timeout


class Gen:
  """Behaviours generated by TLC (-simulate), replayed by a driver."""

  def __init__(self, module, cfg=None, num=20, depth=20, thorough_num=None,
               exhaustive=False, thorough_depth=None):
    self.module = module
    self.cfg = cfg or module + ".cfg"
    self.num = num
    self.depth = depth
    self.thorough_num = thorough_num or num
    self.thorough_depth = thorough_depth or depth
    self.exhaustive = exhaustive


class Check:

  def __init__(self, prop, tier, seed):
    self.prop, self.tier, self.seed = prop, tier, seed
    self.t0 = time.time()
    self.scratch = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    self.lock = threading.Lock()
    self.states = 0
    self.transitions = 0
    self.traces = 0
    self.events = 0
    self.kinds = {}
    self.samples = []
    self.violations = []
    self.known_hits = []
    self.notes = []
    self.design_runs = []
    self.tlc_gate = threading.Semaphore(8)

  # ---------------------------------------------------------------- TLC
  def compile_overrides(self):
    self.cls = os.path.join(self.scratch, "cls")
    os.makedirs(self.cls)
    srcs = [os.path.join(SPEC, f) for f in sorted(os.listdir(SPEC)) if f.endswith(".java")]
    r = subprocess.run(["javac", "-nowarn", "-d", self.cls, "-cp", TLA_JAR] + srcs,
                       capture_output=True, text=True, timeout=200)
    if r.returncode:
      raise MachineryError("javac failed: " + r.stderr[-2000:])

  def tlc(self, module, cfg, env=None, workers=1, extra=(), timeout=800, heap="2g"):
    md = tempfile.mkdtemp(prefix="md-", dir=self.scratch)
    cmd = ["java", "-Xss64m", f"-Xmx{heap}", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2",
           "-XX:CICompilerCount=2", f"-Djava.io.tmpdir={md}",
           "-cp", f"{self.cls}:{TLA_JAR}:{CM_JAR}", "tlc2.TLC", "-metadir", md,
           "-noGenerateSpecTE", "-nowarning", "-workers", str(workers),
           "-fp", "1", "-seed", str(self.seed),
           "-config", cfg] + list(extra) + [module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    with self.tlc_gate:
      try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True,
                           errors="replace", timeout=timeout)
      except subprocess.TimeoutExpired as ex:
        raise MachineryError(f"TLC timed out on {module}/{cfg} after {timeout}s") from ex
    shutil.rmtree(md, ignore_errors=True)
    return r.returncode, r.stdout + r.stderr

  @staticmethod
  def counts(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    if m:
      return int(m[-1][0]), int(m[-1][1])
    m = re.findall(r"(\d+) states checked", out.replace(",", ""))
    return (int(m[-1]), int(m[-1])) if m else (0, 0)

  # ------------------------------------------------------------- design
  def run_design(self, d):
    cfg = d.thorough_cfg if (self.tier == "thorough" and d.thorough_cfg) else d.cfg
    extra = []
    if d.simulate:
      extra = ["-simulate", f"num={d.simulate[0]}", "-depth", str(d.simulate[1])]
    rc, out = self.tlc(d.module, cfg, workers=4 if not d.simulate else 1, extra=extra)
    if rc != 0:
      raise MachineryError(f"design model {d.module}/{cfg} rejected (rc={rc}):\n" + out[-3000:])
    gen, dist = self.counts(out)
    with self.lock:
      self.states += dist
      self.transitions += gen
      self.design_runs.append(dict(module=d.module, cfg=cfg, generated=gen, distinct=dist))

  # ---------------------------------------------------------- behaviours
  def generate(self, g):
    num = g.thorough_num if self.tier == "thorough" else g.num
    depth = g.thorough_depth if self.tier == "thorough" else g.depth
    extra = [] if g.exhaustive else ["-simulate", f"num={num}", "-depth", str(depth)]
    rc, out = self.tlc(g.module, g.cfg, extra=extra)
    plans = []
    for m in re.finditer(r'^"GEN\|(.*)"$', out, re.M):
      plans.append(m.group(1).replace('\\"', '"').replace("\\\\", "\\"))
    if rc != 0 or not plans:
      raise MachineryError(f"generator {g.module} failed (rc={rc}, {len(plans)} plans):\n" + out[-3000:])
    gen, dist = self.counts(out)
    seen, uniq = set(), []
    for p in plans:
      if p not in seen:
        seen.add(p)
        uniq.append(p)
    if not g.exhaustive:
      uniq = uniq[:num]
    fn = os.path.join(self.scratch, f"plan-{g.module}-{threading.get_ident()}.ndjson")
    with open(fn, "w") as f:
      f.write("\n".join(uniq) + "\n")
    with self.lock:
      self.states += dist
      self.transitions += gen
      self.design_runs.append(dict(module=g.module, generated=gen, distinct=dist, behaviours=len(uniq)))
    return fn

  # -------------------------------------------------------------- traces
  def run_trace(self, t, shard, nshards, plan):
    out = os.path.join(self.scratch, f"trace-{t.driver}-{'_'.join(t.args)}-{shard}.ndjson")
    cmd = [PY, os.path.join(DRIVERS, t.driver + ".py"), "--out", out, "--tier", self.tier,
           "--seed", str(self.seed), "--shard", str(shard), "--nshards", str(nshards)]
    if plan:
      cmd += ["--plan", plan]
    cmd += t.args
    t1 = time.time()
    timed_out = False
    try:
      r = subprocess.run(cmd, cwd=self.scratch, env=repo_env(t.env), capture_output=True,
                         text=True, errors="replace",
                         timeout=t.timeout if self.tier == "quick" else 4 * t.timeout)
    except subprocess.TimeoutExpired:
      timed_out = True
    if not timed_out and r.returncode != 0:
      # the driver guards every call into the code under test; reaching this
      # point means that the machinery (not the code) failed ... unless the
      # process was killed by the code under test.
      if r.returncode < 0:
        self.add_violation(t, {"e": "driver"}, 0, f"process died with signal {-r.returncode}")
        return
      raise MachineryError(f"driver {t.driver} failed rc={r.returncode}:\n{r.stderr[-3000:]}")
    lines = []
    if os.path.exists(out):
      lines = [l for l in open(out).read().split("\n") if l]
    if timed_out:
      if lines:
        try:
          json.loads(lines[-1])
        except ValueError:
          lines.pop()
        with open(out, "w") as f:
          f.write("\n".join(lines) + "\n")
      self.notes.append(f"driver {t.driver} shard {shard} hit its time limit after {len(lines)} events")
    if not lines:
      if timed_out:
        raise MachineryError(f"driver {t.driver} produced nothing within its time limit")
      return
    t2 = time.time()
    self.validate(t, out, lines)
    t3 = time.time()
    self.notes.append(f"{t.driver}{t.args}[{shard}]: {len(lines)} events, drive {t2-t1:.1f}s, validate {t3-t2:.1f}s")

  def validate(self, t, fn, lines):
    rc, out = self.tlc(t.spec, t.spec + ".cfg", env={"TRACE_FILE": fn}, heap="3g")
    bad = re.findall(r'^"BAD\|(\d+)\|(.*)"$', out, re.M)
    if len(bad) != out.count("BAD|"):
      raise MachineryError("unparsable verdict lines:\n" + out[-3000:])
    depth = re.findall(r"depth of the complete state graph search is (\d+)", out)
    consumed = int(depth[-1]) - 1 if depth else -1
    evs = None
    if rc != 0 or consumed != len(lines):
      m = re.findall(r'^<<"AT", (\d+)>>$', out, re.M)
      if "java.lang.OutOfMemoryError" in out or "Parse Error" in out or "Semantic error" in out \
          or "*** Errors" in out or "Could not find" in out or "Parsing or semantic" in out:
        raise MachineryError(f"TLC failed on {t.spec}:\n" + out[-3000:])
      # The specification cannot interpret the recorded event (wrong arity,
      # value outside every domain): the trace is rejected at that event.
      at = 0
      mm = re.findall(r"^/?\\? ?l = (\d+)", out, re.M)
      mm = mm or re.findall(r"\bl = (\d+)", out)
      if mm:
        at = int(mm[-1])
      msg = [x for x in out.split("\n") if x.startswith("Error:")]
      evs = [json.loads(x) for x in lines]
      ev = evs[at - 1] if 1 <= at <= len(evs) else {"e": "?"}
      self.add_violation(t, ev, at, "trace rejected by the specification: " + " ".join(msg)[:400], out=out)
    for l, clause in bad:
      evs = evs or [json.loads(x) for x in lines]
      self.add_violation(t, evs[int(l) - 1], int(l), clause)
    gen, dist = self.counts(out)
    with self.lock:
      self.states += dist
      self.transitions += gen
      self.traces += 1
      self.events += len(lines)
      for x in lines:
        m = re.match(r'\{"e": ?"([^"]*)"', x)
        k = m.group(1) if m else "?"
        self.kinds[k] = self.kinds.get(k, 0) + 1
      if len(self.samples) < 4:
        for x in (lines[0], lines[len(lines) // 2]):
          self.samples.append(x if len(x) < 600 else x[:600] + "...")

  def add_violation(self, t, ev, line, clause, out=None):
    with self.lock:
      for k in known_findings(self.prop):
        if k["case"] == ev.get("case") and (k["clause"] in ("*", clause)):
          self.known_hits.append(k["text"])
          return
      self.violations.append(dict(spec=t.spec, driver=t.driver, args=t.args, line=line,
                                  clause=clause, event=ev,
                                  tlc=(out or "")[-1500:]))

  # ----------------------------------------------------------------- all
  def run(self, designs, traces, level, assumptions):
    try:
      return self._run(designs, traces, level, assumptions)
    finally:
      shutil.rmtree(self.scratch, ignore_errors=True)

  def _run(self, designs, traces, level, assumptions):
    self.compile_overrides()
    errors = []
    with cf.ThreadPoolExecutor(max_workers=int(os.environ.get("VERIF_JOBS", "8"))) as ex:
      futs = []

      def trace_group(t):
        plan = self.generate(t.gen) if t.gen else None
        n = t.thorough_shards if self.tier == "thorough" else t.shards
        return [(t, i, n, plan) for i in range(n)]

      pend = {}
      for t in traces:
        if t.tier and t.tier != self.tier:
          continue
        if t.gen:
          pend[ex.submit(trace_group, t)] = "gen"
        else:
          for a in trace_group(t):
            pend[ex.submit(self.run_trace, *a)] = "trace"
      for d in designs:
        if d.tier and d.tier != self.tier:
          continue
        pend[ex.submit(self.run_design, d)] = "design"
      while pend:
        done, _ = cf.wait(list(pend), return_when=cf.FIRST_COMPLETED)
        for f in done:
          kind = pend.pop(f)
          try:
            r = f.result()
          except Exception as e:  # pylint: disable=broad-except
            errors.append(e)
            continue
          if kind == "gen":
            for a in r:
              pend[ex.submit(self.run_trace, *a)] = "trace"
    replay = None
    if self.violations:
      rd = os.path.join(VERIF, "evidence", "replay")
      os.makedirs(rd, exist_ok=True)
      replay = os.path.join(rd, f"{self.prop}.json")
      with open(replay, "w") as f:
        json.dump(dict(property=self.prop, seed=self.seed, tier=self.tier,
                       violations=self.violations[:50]), f, indent=1)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level,
              coverage=dict(states=self.states, transitions=self.transitions,
                            traces_validated_against_impl=self.traces,
                            implementation_events=self.events,
                            events_by_kind=self.kinds,
                            design_models=self.design_runs,
                            samples=self.samples[:6]),
              assumptions=assumptions, wall_s=round(time.time() - self.t0, 2),
              violations=len(self.violations), notes=self.notes,
              known_findings=sorted(set(self.known_hits)))
    with open(os.path.join(VERIF, "evidence", f"{self.prop}.json"), "w") as f:
      json.dump(ev, f, indent=1)
    for k in sorted(set(self.known_hits)):
      print(f"KNOWN-FINDING: property={self.prop} {k}")
    if self.violations:
      shown = {}
      for v in self.violations:
        k = (v["spec"], v["event"].get("e"), v["clause"])
        if k not in shown:
          shown[k] = 0
          print(f"  clause {v['clause']!r} fails: {v['driver']} event {v['event'].get('e')} line {v['line']}")
        shown[k] += 1
        if len(shown) > 12:
          break
      print(f"VIOLATION property={self.prop} replay={replay}")
      return 1
    if errors:
      for e in errors:
        print("MACHINERY ERROR:", e, file=sys.stderr)
      return 2
    print(f"OK property={self.prop} tier={self.tier} states={self.states} "
          f"traces={self.traces} events={self.events} wall={ev['wall_s']}s")
    if os.environ.get("VERIF_VERBOSE"):
      print("\n".join(self.notes))
      print(self.kinds, self.design_runs)
    return 0


def known_findings(prop):
  """known: property=P27 case=<id> clause=<name or *> <what fails>"""
  res = []
  if not os.path.exists(KNOWN):
    return res
  for l in open(KNOWN):
    m = re.match(r"known: property=(\S+) case=(\S+) clause=(\S+) (.*)", l.strip())
    if m and m.group(1) == prop:
      res.append(dict(case=m.group(2), clause=m.group(3), text=f"case={m.group(2)} {m.group(4)}"))
  return res


def main(props):
  import argparse
  ap = argparse.ArgumentParser()
  ap.add_argument("prop")
  ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
  a = ap.parse_args()
  seed = int(os.environ.get("VERIF_SEED", "1") or "1")
  p = props[a.prop]
  try:
    return Check(a.prop, a.tier, seed).run(p["designs"], p["traces"], p.get("level", "model_checking"),
                                           p.get("assumptions", []))
  except MachineryError as e:
    print("MACHINERY ERROR:", e, file=sys.stderr)
    return 2
