"""Replays TLC-generated histories of questions to the LUT cache."""
import rec
R = rec.Rec()
rec.setup_repo()
import numpy as np
from jaxite.jaxite_bool import bool_params, lut
from jaxite.jaxite_cggi import decomposition, parameters

rng = R.rng
# rlwe dimension, polynomial degree (at least two coefficients per block)
SIZES = [(1, 16), (2, 64), (1, 8), (3, 16), (1, 512), (2, 32)]


def params(rk, n):
  return bool_params.Parameters(
      parameters.SchemeParameters(lwe_dimension=4, plaintext_modulus=2**32, rlwe_dimension=rk, polynomial_modulus_degree=n),
      decomposition.DecompositionParameters(4, 5), decomposition.DecompositionParameters(4, 6))


def fn(k, t):
  def f(*bits):
    assert len(bits) == k
    return bool(t >> sum(int(b) << (k - 1 - j) for j, b in enumerate(bits)) & 1)
  return f


def table(u, **kw):
  R.emit("lut", arity=int(u.num_inputs), tt=int(u.truth_table), list=[int(x) for x in u.as_cleartext_list], **kw)


def poly(c, rk, n, **kw):
  R.emit("poly", rk=rk, n=n, out=rec.v32(c.message), **kw)


def history(ops, sizes):
  ps = [params(*s) for s in sizes]
  caches = [lut.LutCache(p.scheme_params) for p in ps]
  own = []
  for o in ops:
    c = o["c"] - 1
    rk, n = sizes[c]
    front = rng.choice([ps[c], caches[c]])
    if o["op"] == "name":
      if rng.randrange(2):
        table(front.lut_by_name(o["g"]), g=o["g"], exact=1)
      if rng.randrange(3):
        poly(front.lut_poly_by_name(o["g"]), rk, n, g=o["g"])
    elif o["op"] == "callable":
      k, t = o["k"], o["t"]
      u = lut.from_callable(k, fn(k, t))
      table(u, k=k, t=t, exact=1)
      own.append((u, k, t))
      poly(u.as_rlwe_test_polynomial(ps[c].scheme_params), rk, n, k=k, t=t)
    else:
      k, t = o["k"], o["t"]
      if rng.randrange(2):
        table(front.lut(k, t), k=k, t=t, exact=1)
      if rng.randrange(3):
        poly(front.lut_poly(k, t), rk, n, k=k, t=t)
      if not rng.randrange(4):
        u = lut.LookUpTable(k, t)
        table(u, k=k, t=t, exact=1)
        own.append((u, k, t))
  for u, k, t in own:
    table(u, k=k, t=t, exact=1)
    poly(u.as_rlwe_test_polynomial(ps[0].scheme_params), *sizes[0], k=k, t=t)


def main():
  for i, p in enumerate(R.mine(R.plans())):
    a = rng.randrange(len(SIZES))
    R.guard("history", lambda: history(p["ops"], [SIZES[a], SIZES[rng.randrange(len(SIZES))]]))
  def rest():
    for g in R.mine(sorted(lut.FUNC_NAME_TO_LUT2)):
      table(lut.FUNC_NAME_TO_LUT2[g], g=g, exact=1)
    for k in range(5):
      for _ in range(4 if not R.thorough else 40):
        t = rng.randrange(2**2**k)
        table(lut.from_callable(k, fn(k, t)), k=k, t=t, exact=1)
    p = params(1, 16)
    for what, f in [("unknown gate name", lambda: p.lut_by_name("nope")), ("unknown gate name", lambda: p.lut_poly_by_name("AND")),
                    ("table larger than the message space", lambda: p.lut_poly(4, rng.randrange(2**16)))]:
      ok, _, _ = R.call(f)
      R.emit("reject", what=what, ok=ok)
  R.guard("tables", rest)


R.guard("lut", main)
R.close()
