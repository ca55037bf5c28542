"""Driver for the reference classes in jaxite_ec/algorithm."""
from rec import Rec, setup_repo, z, zl

setup_repo()
from jaxite.jaxite_ec.algorithm import big_integer  # noqa: E402
from jaxite.jaxite_ec.algorithm import config_file  # noqa: E402
from jaxite.jaxite_ec.algorithm import elliptic_curve as ec  # noqa: E402
from jaxite.jaxite_ec.algorithm import finite_field as ff  # noqa: E402
from jaxite.jaxite_ec.algorithm import lazy_reduction  # noqa: E402
from jaxite.jaxite_ec.algorithm import rns_mod_reduce  # noqa: E402

R = Rec()
rng = R.rng
Big = big_integer.GMPBigInteger
P377 = config_file.config_BLS12_377["prime"]


def is_prime(n):
  if n < 2:
    return False
  for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
    if n % p == 0:
      return n == p
  d, s = n - 1, 0
  while d % 2 == 0:
    d, s = d // 2, s + 1
  for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
    x = pow(a, d, n)
    if x in (1, n - 1):
      continue
    for _ in range(s - 1):
      x = x * x % n
      if x == n - 1:
        break
    else:
      return False
  return True


def next_prime(n):
  while not is_prime(n):
    n += 1
  return n


def prev_prime(n):
  while not is_prime(n):
    n -= 1
  return n


# ------------------------------------------------------------ big integers
def big_value():
  k = rng.choice([0, 1, 2, 8, 31, 32, 52, 53, 54, 63, 64, 65, 127, 128, 376, 377, 400])
  return max(0, rng.choice([2**k, 2**k - 1, 2**k + 1, rng.randrange(2**k + 1), rng.randrange(2**k + 1)]))


def bigs():
  ops = ["add", "sub", "mul", "div", "mod", "pow", "powmod", "shl", "shr", "and", "lt", "le", "gt", "ge", "eq", "ne",
         "id", "ceil_log2"]
  for t in range(len(ops) * (12 if not R.thorough else 150)):
    op = ops[t % len(ops)]
    a, b, n, p = big_value(), big_value(), rng.randrange(0, 9), max(2, big_value())
    if op in ("lt", "le", "gt", "ge", "eq", "ne") and rng.randrange(2):
      b = a + rng.choice([-1, 0, 1])
    if op in ("add", "sub", "div", "mod", "lt", "id") and rng.randrange(3) == 0:
      a = -a
    if op in ("div", "mod"):
      b = max(1, b)
    if op in ("shl", "shr"):
      n = rng.choice([0, 1, 31, 32, 64, 377])
    if op == "ceil_log2":
      a = max(1, a)
    other = Big(b) if rng.randrange(2) else b      # plain integers mix freely

    def run():
      A = Big(a)
      m = Big(p) if rng.randrange(2) else p
      cnt = Big(n) if rng.randrange(2) else n
      v = {"add": lambda: A + other, "sub": lambda: A - other, "mul": lambda: A * other, "div": lambda: A / other,
           "mod": lambda: A % other, "pow": lambda: A ** cnt, "powmod": lambda: pow(A, Big(b) if rng.randrange(2) else b, m),
           "shl": lambda: A << cnt, "shr": lambda: A >> cnt, "and": lambda: A & other,
           "lt": lambda: int(A < other), "le": lambda: int(A <= other), "gt": lambda: int(A > other),
           "ge": lambda: int(A >= other), "eq": lambda: int(A == other), "ne": lambda: int(A != other),
           "id": lambda: int(str(Big(A))), "ceil_log2": lambda: A.ceil_log2()}[op]()
      R.emit("big", op=op, a=z(a), b=z(b), n=n, p=z(p), out=z(int(v)))
      if int(A) != a:
        R.emit("big", op="id", a=z(a), b="0", n=0, p="2", out=z(int(A)))
    R.guard(f"big integer {op}", run)
  for bad in (1.5, "7", None):
    ok, _, _ = R.call(Big, bad)
    R.emit("reject", what="big integer from a non-integer", ok=ok)
  ok, _, _ = R.call(lambda: Big(3) / 0)
  R.emit("reject", what="division of a big integer by zero", ok=ok)
  ok, _, _ = R.call(lambda: Big(0).ceil_log2())
  R.emit("reject", what="logarithm of zero", ok=ok)


# ------------------------------------------------------------ field sessions
CLS = {"plain": ff.FiniteFieldElement, "barrett": ff.FiniteFieldElementBarrett, "mont": ff.FiniteFieldElementMontgomery}


def field_value(p):
  return rng.choice([0, 1, p - 1, p - 2, p // 2, p // 2 + 1, 2 % p, rng.randrange(p), rng.randrange(p), rng.randrange(p)]) % p


def session(ops, p, k):
  """k: explicit word size (None: the class chooses)."""
  reg, rep = {}, {}
  R.emit("fbegin")

  def std(x, r):
    x = x.copy()
    if r == "mont":
      x.change_montgomery_form()
    return x.get_value()

  for o in ops:
    op, d, a, b = o["op"], o["d"], o.get("a", o["d"]), o.get("b", o["d"])
    ev = {}
    if op == "new":
      v, r = field_value(p), o["rep"]
      pp = Big(p) if rng.randrange(2) else p
      if r == "plain":
        x = CLS[r](v, pp)
      else:
        x = CLS[r](v, pp, k) if k is not None else CLS[r](v, pp)
      ev = dict(v=z(v))
    elif op in ("add", "sub", "mul", "div"):
      r = rep[a]
      A, B = reg[a], reg[b]
      x = A + B if op == "add" else A - B if op == "sub" else A * B if op == "mul" else A / B
    elif op == "pow":
      r = rep[a]
      e = rng.choice([0, 1, 2, 3, rng.randrange(40), p - 1, p - 2])
      x = reg[a] ** e
      ev = dict(n=z(e))
    elif op == "copy":
      r = rep[a]
      x = reg[a].copy()
    else:  # switch, in place
      r = "std" if rep[a] == "mont" else "mont"
      x = reg[a].change_montgomery_form()
    reg[d], rep[d] = x, r
    R.emit("fstep", op=op, p=z(p), d=d, a=a, b=b, rep=r, raw=z(x.get_value()), out=z(std(x, r)), **ev)
  R.emit("fend", p=z(p), outs=[z(std(reg[i], rep[i])) if i in reg else "none" for i in range(1, 5)])


def fields():
  plans = R.mine(R.plans())
  ps = [3, 5, 7, 13, 17, 31, 127, 257, 65537, 2**31 - 1, prev_prime(2**32), next_prime(2**32), next_prime(2**52),
        next_prime(2**64), prev_prime(2**64), P377, P377, prev_prime(2**377)]
  for i, plan in enumerate(plans):
    p = ps[(i * R.nshards + R.shard) % len(ps)]
    k = rng.choice([None, None, p.bit_length(), p.bit_length() + rng.randrange(1, 8), 384 if p < 2**384 else None])
    R.guard("field session", lambda: session(plan["ops"], p, k))
  for kind, C in CLS.items():
    for bad in (-1, 13, 14):
      ok, _, _ = R.call(C, bad, 13)
      R.emit("reject", what=f"value outside the field ({kind})", ok=ok)
    for op in ("add", "sub", "mul", "truediv"):
      ok, _, _ = R.call(lambda: getattr(C(1, 13), f"__{op}__")(C(1, 17)))
      R.emit("reject", what=f"mixing two fields ({kind})", ok=ok)


# ------------------------------------------------------------ curves
SYS = {"aff": ec.ECCSWeierstrassAffine, "proj": ec.ECCSWeierstrassProjective, "xyzz": ec.ECCSWeierstrassXYZZ}


def toy_points(p, a, b):
  return [(x, y) for x in range(p) for y in range(p) if (y * y - x**3 - a * x - b) % p == 0]


def coords(sysn, u, k, p):
  x, y = u
  if sysn == "aff":
    return [x, y]
  if sysn == "proj":
    return [x * k % p, y * k % p, k]
  return [x * k * k % p, y * k**3 % p, k * k % p, k**3 % p]


def wmake(cs, c):
  return cs.generate_point(zero=True) if c is None else cs.generate_point(list(c))


def wpt(u):
  return dict(z=True, c=[]) if u.is_zero() else dict(z=False, c=[z(x.get_value()) for x in u.coordinates])


def wadd(cs, sysn, p, a, P, Q):
  pa, pb = wpt(P), wpt(Q)
  out = P + Q
  R.emit("wadd", sys=sysn, p=z(p), ca=z(a), a=pa, b=pb, out=wpt(out))
  return out


def wshift(cs, sysn, p, a, P, n):
  pa = wpt(P)
  out = P << n
  R.emit("wshift", sys=sysn, p=z(p), ca=z(a), a=pa, n=n, out=wpt(out))
  return out


def waff(cs, sysn, p, P):
  pa = wpt(P)
  R.emit("waff", sys=sysn, p=z(p), a=pa, out=wpt(P.convert_to_affine()))


def order_even(p, a, b):
  return any((x**3 + a * x + b) % p == 0 for x in range(p))


def toy_curves():
  todo = []
  for p in (5, 7):
    for a in range(p):
      for b in range(p):
        if (4 * a**3 + 27 * b * b) % p:
          todo += [(sysn, p, a, b, True) for sysn in SYS]
  for p in (11, 13, 19, 31, 61):
    for _ in range(2 if not R.thorough else 12):
      a, b = rng.choice([0, rng.randrange(p)]), rng.randrange(p)
      if (4 * a**3 + 27 * b * b) % p:
        todo += [(sysn, p, a, b, False) for sysn in SYS]
  for sysn, p, a, b, full in R.mine(todo):
    if sysn == "proj" and order_even(p, a, b):
      continue  # the projective formulas are complete only without 2-torsion
    cs = SYS[sysn](dict(prime=p, order=1, a=a, b=b, generator=[0, 0]))
    pts = toy_points(p, a, b)
    ks = [1] if sysn == "aff" else list(range(1, p))
    reps = [None] + [coords(sysn, u, k, p) for u in pts for k in ks]
    pairs = [(u, v) for u in reps for v in reps]
    lim = (250 if full else 120) if not R.thorough else 4000
    if len(pairs) > lim:
      pairs = rng.sample(pairs, lim)
      # equal, inverse and neutral points in unrelated representations
      for _ in range(lim // 4):
        u = rng.choice(pts) if pts else None
        if u is None:
          continue
        v = rng.choice([u, (u[0], -u[1] % p)])
        pairs.append((coords(sysn, u, rng.choice(ks), p), coords(sysn, v, rng.choice([1, rng.choice(ks)]), p)))

    def body():
      for u, v in pairs:
        wadd(cs, sysn, p, a, wmake(cs, u), wmake(cs, v))
      for u in rng.sample(reps, min(len(reps), 25)):
        wshift(cs, sysn, p, a, wmake(cs, u), rng.choice([0, 1, 1, 2, 3]))
        waff(cs, sysn, p, wmake(cs, u))
      if sysn == "xyzz":
        af = SYS["aff"](dict(prime=p, order=1, a=a, b=b, generator=[0, 0]))
        for u in [None] + rng.sample(pts, min(len(pts), 5)):
          x = wmake(af, u)
          R.emit("wfrom", sys=sysn, p=z(p), a=wpt(x), out=wpt(cs.convert_from_affine(x)))
      # a walk: results feed later additions
      pool = [wmake(cs, rng.choice(reps)) for _ in range(4)]
      for _ in range(12):
        i, j = rng.randrange(4), rng.randrange(4)
        pool[rng.randrange(4)] = wadd(cs, sysn, p, a, pool[i], pool[j]) if rng.randrange(4) else wshift(cs, sysn, p, a, pool[i], 1)
    R.guard(f"reference {sysn} curve", body)


def big_curve():
  cfg = config_file.config_BLS12_377
  p = cfg["prime"]
  for sysn in R.mine(["aff", "proj", "xyzz"] * 2):
    cs = SYS[sysn](cfg)

    def body():
      g = cs.generate_point(coords(sysn, tuple(cfg["generator"]), rng.choice([1, rng.randrange(1, p)]), p))
      pool = [g, g << 1, (g << 2) + g, cs.generate_point(zero=True)]
      for _ in range(16 if not R.thorough else 100):
        P, Q = rng.choice(pool), rng.choice(pool)
        kind = rng.randrange(5)
        if kind == 0:
          out = wshift(cs, sysn, p, 0, P, rng.choice([0, 1, 2, 5]))
        elif kind == 1 and not P.is_zero():
          c = [x.get_value() for x in P.coordinates]
          c[1] = -c[1] % p
          out = wadd(cs, sysn, p, 0, P, cs.generate_point(c))
        else:
          out = wadd(cs, sysn, p, 0, P, Q)
        pool[rng.randrange(4)] = out
        waff(cs, sysn, p, out)
        if pool.count(None) or all(x.is_zero() for x in pool):
          pool[0] = g
    R.guard(f"reference {sysn} BLS12-377", body)


def sqrt_mod(v, p):
  return next((x for x in range(p) if x * x % p == v % p), None)


def toy_edwards(p):
  """a twisted Edwards configuration over F_p (a = -1, d no square)"""
  inv = lambda x: pow(x, -1, p)
  for _ in range(2000):
    A, B = rng.randrange(p), rng.randrange(1, p)
    if (A * A - 4) % p == 0:
      continue
    ao, do = (A + 2) * inv(B) % p, (A - 2) * inv(B) % p
    t = sqrt_mod(-ao, p)
    if not t:
      continue
    d = -do * inv(ao) % p
    if sqrt_mod(d, p) is not None or sqrt_mod(-1, p) is None:
      continue
    alpha = A * inv(3 * B) % p
    wa = (3 - A * A) * inv(3 * B * B) % p
    wb = (2 * A**3 - 9 * A) * inv(27 * B**3) % p
    return dict(prime=p, order=1, a=-1, b=wb, d=d, alpha=alpha, s=B, MA=A, MB=B, t=t, generator=[0, 0]), wa, wb
  return None


def tc(u):
  return [z(x.get_value()) for x in u.coordinates]


def edwards_case(cfg, wa, pts, reps, lim):
  p, d = cfg["prime"], cfg["d"]
  T = ec.ECCSTwistedEdwardsExtended(cfg)
  par = dict(p=z(p), d=z(d), s=z(cfg["s"]), t=z(cfg["t"]), alpha=z(cfg["alpha"] % p))

  def good(u):  # off the exceptional points of the birational map
    xm, ym = cfg["s"] * (u[0] - cfg["alpha"]) % p, cfg["s"] * u[1] % p
    return xm and ym and (xm + 1) % p
  pts = [u for u in pts if good(u)]
  made = {}
  for u in pts:
    tp = T.generate_point(list(u))
    back = T.convert_to_affine(tp)
    R.emit("twist", u=zl(list(u)), out=tc(tp), back=[z(back[i].get_value()) for i in range(2)], **par)
    ints = T.twist_int_coordinates(list(u))
    R.emit("twist", u=zl(list(u)), out=zl(ints), back=[z(back[i].get_value()) for i in range(2)], **par)
    for zz in (1, rng.randrange(1, p), p - 1):
      ff = [T.ff_zero.copy(c * zz % p) for c in u] + [T.ff_zero.copy(zz)]
      out = T.twist_projective(ff)
      R.emit("twistp", u=zl(list(u)), out=[z(c.get_value()) for c in out], **par)
    made[u] = tp
  zero = T.generate_point([0, 1, 1, 0], twist=False)
  zeros = [zero, T.generate_point(None, zero=True, twist=False), T.generate_point(zero=True)]
  pool = list(made.values()) + zeros

  def scale(tp):
    k = rng.choice(reps)
    return T.generate_point([int(x.get_value()) * k % p for x in tp.coordinates], twist=False)
  for _ in range(lim):
    P, Q = scale(rng.choice(pool)), scale(rng.choice(pool))
    if rng.randrange(4) == 0:
      Q = P
    elif rng.randrange(4) == 0:
      c = [x.get_value() for x in P.coordinates]
      Q = scale(T.generate_point([-c[0] % p, c[1], c[2], -c[3] % p], twist=False))
    pa, pb = tc(P), tc(Q)
    out = P + Q
    R.emit("tadd", a=pa, b=pb, out=tc(out), **par)
    if rng.randrange(3) == 0:
      n = rng.choice([1, 2, 3])
      R.emit("tshift", a=tc(P), n=n, out=tc(P << n), **par)
    if rng.randrange(4) == 0 and len(pts) > 1:
      u, v = rng.choice(pts), rng.choice(pts)
      s = T.convert_to_affine(made[u] + made[v])
      y = (made[u] + made[v]).coordinates
      # conversion back is defined off the exceptional points
      zinv = pow(y[2].get_value(), -1, p)
      yt, xt = y[1].get_value() * zinv % p, y[0].get_value() * zinv % p
      if yt != 1 and xt != 0:
        R.emit("twalk", p=z(p), ca=z(wa), a=zl(list(u)), b=zl(list(v)), out=[z(s[i].get_value()) for i in range(2)])


def edwards():
  todo = [13, 17, 29, 37, 41, 13, 53, 17, "bls"] if not R.thorough else [13, 17, 29, 37, 41, 53, 61, 73, 89, 97] * 3 + ["bls"] * 2
  for p in R.mine(todo):
    def body():
      if p == "bls":
        cfg = config_file.config_BLS12_377_t
        w = ec.ECCSWeierstrassAffine(config_file.config_BLS12_377)
        g = w.generate_point(config_file.config_BLS12_377["generator"])
        pts, q = [], g
        for _ in range(6):
          pts.append(tuple(int(x.get_value()) for x in q.coordinates))
          q = q + g
        edwards_case(cfg, 0, pts, [1, 2, rng.randrange(1, P377), P377 - 1], 16)
        return
      r = toy_edwards(p)
      if r:
        cfg, wa, wb = r
        edwards_case(cfg, wa, toy_points(p, wa, wb), list(range(1, p)), 60 if not R.thorough else 400)
    R.guard("reference twisted Edwards", body)


# ------------------------------------------------------------ lazy reduction, residues
def lazy():
  for t in range(12 if not R.thorough else 100):
    bits = rng.choice([8, 9, 15, 16, 17, 64, 253, 377, 381, 384])
    p = rng.choice([2**bits - 1, 2**(bits - 1) + 1, rng.randrange(2**(bits - 1) + 1, 2**bits), P377])
    lim = p << 16

    def v():
      return rng.choice([0, 1, p, p - 1, lim - 1, lim - 1, rng.randrange(lim), rng.randrange(lim)])
    a, b = [v() for _ in range(6)], [v() for _ in range(6)]

    def body():
      c = lazy_reduction.lazy_reduction_via_matrix(a, b, p)
      R.emit("lazy", p=z(p), a=zl(a), b=zl(b), out=zl([int(x) for x in c]))
    R.guard("lazy reduction", body)


def residues():
  for _ in range(6 if not R.thorough else 30):
    prec = rng.choice([12, 14, 16])
    # small precisions do not offer enough coprime moduli for 380 bits
    top = 1 << rng.choice([1, 20, 64, 100, 380] if prec == 16 else [1, 20, 64, 100])

    def body():
      ms, offs = rns_mod_reduce.find_moduli(top, prec)
      Q = 1
      for m in ms:
        Q *= m
      fac = rns_mod_reduce.rns_icrt_factors_compute(Q, ms)
      xs = [0, 1, Q - 1, rng.randrange(Q), rng.randrange(Q)]
      res = [rns_mod_reduce.to_rns(x, ms) for x in xs]
      back = rns_mod_reduce.rns_reconstruct(res, Q, fac)
      R.emit("residues", top=z(top), prec=prec, ms=zl(ms), offs=zl(offs), xs=zl(xs), res=zl(res), back=zl([int(x) for x in back]))
    R.guard("reference residues", body)


def products():
  """Products reduced without leaving residues, for primes of several sizes."""
  import jax.numpy as jnp  # pylint: disable=g-import-not-at-top
  import numpy as np  # pylint: disable=g-import-not-at-top
  big = 0x01AE3A4617C510EAC63B05C06CA1493B1A22D9F300F5138F1EF3622FBA094800170B5D44300000008508C00000000001
  for q in [big, (1 << 255) - 19, (1 << 127) - 1, 65537][: 4 if R.thorough else 3]:
    def body(q=q):
      num = (q.bit_length() + 15) // 16 + 1
      lim = q * 256 * 2 * num
      ms, offs = rns_mod_reduce.find_moduli(lim * lim * 8, 16)
      Q = 1
      for m in ms:
        Q *= m
      fac = rns_mod_reduce.rns_icrt_factors_compute(Q, ms)
      mat, cor = rns_mod_reduce.rns_coefficients_precompute(fac, ms, 2, 16, Q, q)

      def v():
        return rng.choice([0, 1, q - 1, q, q + 1, lim - 1, rng.randrange(q), rng.randrange(lim)])
      for _ in range(3 if not R.thorough else 20):
        a, b = [v() for _ in range(6)], [v() for _ in range(6)]
        res = lambda x: jnp.array([rns_mod_reduce.to_rns(e, ms) for e in x], jnp.uint32)
        out = rns_mod_reduce.rns_mod_reduce(res(a), res(b), jnp.array(ms, dtype=jnp.uint32), jnp.array(offs, dtype=jnp.uint16),
                                            jnp.array(mat, dtype=jnp.uint8), jnp.array(cor, dtype=jnp.uint16), fac, Q)
        R.emit("rnsprod", p=z(q), Q=z(Q), a=zl(a), b=zl(b), out=zl([int(x) for x in out]))
      # the folding step on its own: any 32-bit word for moduli above 2^15
      xs = [0, 1, 65535, 65536, 2**32 - 1, 2**32 - 65536, 2**31] + [rng.randrange(2**32) for _ in range(20)]
      hi = [(m, t) for m, t in zip(ms, offs) if m > 2**15][:12]
      out = rns_mod_reduce.hardware_friendly_mod_reduce(jnp.array([[x] * len(hi) for x in xs], dtype=jnp.uint32),
                                                        jnp.array([t for _, t in hi], dtype=jnp.uint16))
      R.emit("fold", ms=zl([m for m, _ in hi]), xs=zl(xs), out=zl(np.asarray(out).astype(int).tolist()))
    R.guard("reference residue products", body)


if __name__ == "__main__":
  lazy()
  products()
  residues()
  bigs()
  fields()
  toy_curves()
  big_curve()
  edwards()
  R.close()
