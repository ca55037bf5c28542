"""Histories of RnsPolynomial objects (p15)."""
import copy

import rec
from rec import z, zl

R = rec.Rec()
rec.setup_repo()
import jax  # noqa: E402
jax.config.update("jax_enable_x64", True)
import jax.numpy as jnp  # noqa: E402
import numpy as np  # noqa: E402
from jaxite.jaxite_ckks import rns  # noqa: E402

rng = R.rng


def is_prime(n):
  if n < 2 or n % 2 == 0:
    return n == 2
  d, s = n - 1, 0
  while d % 2 == 0:
    d, s = d // 2, s + 1
  for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
    if a % n == 0:
      continue
    x = pow(a, d, n)
    if x in (1, n - 1):
      continue
    for _ in range(s - 1):
      x = x * x % n
      if x == n - 1:
        break
    else:
      return False
  return True


def some_primes(n2, count, lo, hi, avoid=()):
  res = []
  while len(res) < count:
    q = rng.randrange(1 << lo, 1 << hi)
    q -= (q - 1) % n2
    while not is_prime(q):
      q += n2
    if q not in res and q not in avoid:
      res.append(q)
  return res


def coef(q):
  return rng.choice([0, 1, q - 1, q // 2, rng.randrange(q), rng.randrange(q)])


def special(n):
  """neutral and absorbing elements, units, monomials"""
  k = rng.randrange(n)
  return rng.choice([[0] * n, [0] * n, [1] + [0] * (n - 1), [-1] + [0] * (n - 1),
                     [0] * k + [1] + [0] * (n - 1 - k), [rng.choice([1, 2, -1])] * n])


class World:

  def __init__(self, n, qs):
    self.n, self.qs = n, qs
    self.par = rns.RnsParams(n, list(qs))
    x = rns.gen_rns_polynomial(n, [0, 1] + [0] * (n - 2), list(qs))
    x.to_ntt_form(self.par.ntt_params)
    self.roots = zl(x.coeffs)

  def eval(self, val):
    return [[sum(c * pow(int(r), k, q) for k, c in enumerate(v)) % q for r in rs]
            for v, q, rs in zip(val, self.qs, self.roots)]


def snap(slots):
  return {s: dict(ntt=bool(o.is_ntt), n=int(o.degree), qs=zl(list(o.moduli)), c=zl(o.coeffs)) for s, o in slots.items()}


def run(plan):
  n = rng.choice([2, 4, 4, 8, 8, 16])
  L = rng.randrange(1, 4)
  lo, hi = rng.choice([(5, 12), (20, 31), (28, 31), (50, 60)])
  lo = max(lo, (2 * n).bit_length() + 1)
  hi = max(hi, lo + 4)
  qs = some_primes(2 * n, L, lo, hi)
  kind = rng.randrange(4)
  if kind == 0:
    w2 = World(2 * n, some_primes(4 * n, L, lo + 1, hi + 1))
  elif kind == 1:
    w2 = World(n, qs[:-1] + some_primes(2 * n, 1, lo, hi, qs))
  elif kind == 2 and L > 1:
    w2 = World(n, qs[:-1])
  else:
    w2 = World(n, some_primes(2 * n, 1, lo, hi, qs) + qs)
  worlds = {1: World(n, qs), 2: w2}
  R.emit("newprog")
  for w in (1, 2):
    R.emit("world", n=worlds[w].n, qs=zl(worlds[w].qs), roots=worlds[w].roots)
  slots, wof = {}, {}

  def emit(op, ok, **kw):
    R.emit("rns", op=op, ok=ok, snap=snap(slots), **kw)

  def new(d, w):
    W = worlds[w]
    big = rng.random() < 0.3
    co = [rng.choice([-1, 1]) * rng.randrange(1 << 130) if big else rng.choice([coef(W.qs[0]), -coef(W.qs[0]), 0])
          for _ in range(W.n)]
    if rng.random() < 0.35:
      co = special(W.n)
    slots[d] = rns.gen_rns_polynomial(W.n, co, list(W.qs))
    wof[id(slots[d])] = w
    emit("new", True, d=str(d), w=w, co=zl(co))

  slots.clear()
  keep = []  # keeps objects alive so that id() stays unique
  # every slot starts as a fresh object of the first world, as in the machine
  for d in ("1", "2", "3", "4"):
    new(d, 2 if d == "4" else 1)
    keep.append(slots[d])
  for o in plan["ops"]:
    op, d = o["op"], str(o["d"])
    a, b = str(o.get("a")), str(o.get("b"))
    if op == "new":
      new(d, o["w"])
    elif op == "arr":
      W = worlds[o["w"]]
      val = [[coef(q) for _ in range(W.n)] for q in W.qs]
      if rng.random() < 0.35:
        co = special(W.n)
        val = [[c % q for c in co] for q in W.qs]
      elif rng.random() < 0.2:  # zero in one limb only
        val[rng.randrange(len(val))] = [0] * W.n
      data = W.eval(val) if o["form"] == "n" else val
      slots[d] = rns.gen_rns_polynomial_from_jnp_array(W.n, np.array(data, dtype=np.uint64), list(W.qs), is_ntt=o["form"] == "n")
      wof[id(slots[d])] = o["w"]
      emit("arr", True, d=d, w=o["w"], form=o["form"], val=zl(val))
    elif op == "ntt":
      slots[d].to_ntt_form(worlds[wof[id(slots[d])]].par.ntt_params)
      emit("ntt", True, d=d)
    elif op == "coef":
      slots[d].to_coeffs_form(worlds[wof[id(slots[d])]].par.ntt_params)
      emit("coef", True, d=d)
    elif op == "alias":
      slots[d] = slots[a]
      emit("alias", True, d=d, a=a)
    elif op in ("copy", "rt", "neg"):
      src, w = slots[a], wof[id(slots[a])]
      if op == "copy":
        slots[d] = copy.deepcopy(src)
      elif op == "neg":
        slots[d] = -src
      else:
        slots[d] = rns.gen_rns_polynomial_from_jnp_array(src.degree, src.to_jnp_array(), list(src.moduli), is_ntt=src.is_ntt)
      wof[id(slots[d])] = w
      emit(op, True, d=d, a=a)
    else:
      x, y = slots[a], slots[b]
      f = {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y}[op]
      ok, r, _ = R.call(f)
      if ok:
        slots[d] = r
        wof[id(r)] = wof[id(x)]
      emit(op, ok, d=d, a=a, b=b)
    keep.append(slots[d])


for plan in R.mine(R.plans()):
  R.guard("rns history", lambda: run(plan))
if R.shard == 0:
  def bad():
    for n, q in ((3, 13), (0, 17), (8, 17 * 2 + 1), (16, 17), (6, 97)):
      ok, _, _ = R.call(rns.Ntt, n, q)
      R.emit("reject", what=f"transform of length {n} modulo {q}", ok=ok)
  R.guard("rns parameters", bad)
R.close()
