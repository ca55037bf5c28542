"""Trace recording helpers used by every driver (runs next to the real code)."""
import argparse
import json
import os
import random
import sys
import traceback

REPO = os.environ.get("VERIF_REPO", "/repo")


def setup_repo():
  """Make the working tree of /repo the code under test."""
  sys.path.insert(0, REPO)
  import jaxite  # pylint: disable=g-import-not-at-top
  if REPO not in jaxite.__path__:
    jaxite.__path__.append(REPO)  # jaxite.jaxite_ec lives at the top level
  assert os.path.abspath(list(jaxite.__path__)[0]).startswith(os.path.abspath(REPO)), list(jaxite.__path__)


def s32(x):
  """uint32 -> signed representative (TLC integers are 32-bit)."""
  x = int(x) & 0xFFFFFFFF
  return x - (1 << 32) if x >= (1 << 31) else x


def v32(a):
  import numpy as np  # pylint: disable=g-import-not-at-top
  a = np.asarray(a)
  return a.astype(np.int64).astype(np.uint32).view(np.int32).tolist()


def z(x):
  return str(int(x))


def zl(a):
  if isinstance(a, (list, tuple)):
    return [zl(x) for x in a]
  if hasattr(a, "tolist"):
    return zl(a.tolist())
  return str(int(a))


TPU_ON = [True]


def emulate_tpu():
  """Run the code paths selected on TPU v5: the first device reports that kind
  and Pallas kernels run in the Pallas interpreter.  To be called before the
  code under test is imported."""
  import jax  # pylint: disable=g-import-not-at-top
  from jax.experimental import pallas as pl  # pylint: disable=g-import-not-at-top
  real_devices, real_call = jax.devices, pl.pallas_call

  class Dev:

    def __init__(self, d):
      self.d = d

    device_kind = "TPU v5 lite"
    platform = "tpu"

    def __getattr__(self, n):
      return getattr(self.d, n)

  def call(*a, **k):
    k.pop("compiler_params", None)
    k["interpret"] = True
    return real_call(*a, **k)

  jax.devices = lambda *a, **k: [Dev(d) if TPU_ON[0] else d for d in real_devices(*a, **k)]
  pl.pallas_call = call


class Rec:

  def __init__(self):
    ap = argparse.ArgumentParser()
    ap.add_argument("--out", required=True)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--shard", type=int, default=0)
    ap.add_argument("--nshards", type=int, default=1)
    ap.add_argument("--plan")
    ap.add_argument("--mode", default="")
    self.a = ap.parse_args()
    self.tier, self.seed = self.a.tier, self.a.seed
    self.shard, self.nshards, self.mode = self.a.shard, self.a.nshards, self.a.mode
    self.thorough = self.tier == "thorough"
    self.rng = random.Random(f"{self.seed}/{self.shard}/{self.mode}/{os.path.basename(sys.argv[0])}")
    self.f = open(self.a.out, "w")
    self.n = 0

  def plans(self):
    return [json.loads(l) for l in open(self.a.plan) if l.strip()]

  def mine(self, seq):
    """This shard's part of a list of work items."""
    return [x for i, x in enumerate(seq) if i % self.nshards == self.shard]

  def emit(self, e, **kw):
    d = {"e": e}
    d.update(kw)
    self.f.write(json.dumps(d) + "\n")
    self.f.flush()
    self.n += 1

  def call(self, fn, *a, **kw):
    """Run code under test: (ok, value, error text)."""
    try:
      return True, fn(*a, **kw), ""
    except Exception as ex:  # pylint: disable=broad-except
      return False, None, f"{type(ex).__name__}: {str(ex)[:200]}"

  def guard(self, e, body, **kw):
    """Run a block that calls the code under test and emits events itself; an
    exception it lets escape is recorded as a failed call."""
    try:
      body()
    except Exception as ex:  # pylint: disable=broad-except
      err = f"{type(ex).__name__}: {str(ex)[:200]}"
      err = "".join(c if c.isalnum() or c in " .,:;()[]<>=+-*/_" else " " for c in err)
      self.emit("raise", at=e, err=err, tb=traceback.format_exc()[-600:], **kw)

  def close(self):
    self.emit("end")
    self.f.close()
