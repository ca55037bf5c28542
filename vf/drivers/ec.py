"""Drives jaxite_ec: conversions, field arithmetic, RNS chains, points, MSM."""
import functools

import rec

rec.setup_repo()
import jax  # pylint: disable=g-import-not-at-top
import jax.numpy as jnp
import numpy as np
from jaxite.jaxite_ec import elliptic_curve as jec
from jaxite.jaxite_ec import finite_field as ff
from jaxite.jaxite_ec import util

R = rec.Rec()
P = 258664426012969094010652733694893533536393512754914660539884262666720468348340822774968888139573360124440321458177
ORDER = 8444461749428370424248824938781546531375899335154063827935233455917409239041
G = (81937999373150964239938255573465948239988671502647976594219695644855304257327692006745978603320413799295628339695,
     241266749859715473739788878240585681733927191168601896383759122102112907357779751001206799952863815012735208165030)
PS = P << 16
z, zl = rec.z, rec.zl


# ------------------------------------------------------- the driver's own data
def arr(xs, n):
  """integers -> (len, n) uint16 chunks (not the code under test)."""
  return np.array([[(x >> (16 * i)) & 0xFFFF for i in range(n)] for x in xs], dtype=np.uint16)


def val(row, base=16):
  return sum(int(c) << (base * i) for i, c in enumerate(np.asarray(row)))


def vals(a):
  return [val(r) for r in np.asarray(a)]


def wadd(p, q):
  if p is None:
    return q
  if q is None:
    return p
  if p[0] == q[0]:
    if (p[1] + q[1]) % P == 0:
      return None
    s = 3 * p[0] * p[0] * pow(2 * p[1], -1, P) % P
  else:
    s = (q[1] - p[1]) * pow(q[0] - p[0], -1, P) % P
  x = (s * s - p[0] - q[0]) % P
  return x, (s * (p[0] - x) - p[1]) % P


def kg(k):
  k %= ORDER
  r, b = None, G
  while k:
    if k & 1:
      r = wadd(r, b)
    b = wadd(b, b)
    k >>= 1
  return r


TS = 10189023633222963290707194929886294091415157242906428298294512798502806398782149227503530278436336312243746741931
TT = 23560188534917577818843641916571445935985386319233886518929971599490231428764380923487987729215299304184915158756


def twist(p):
  if p is None:
    return 0, 1
  xm, ym = TS * (p[0] + 1) % P, TS * p[1] % P
  return TT * xm * pow(ym, -1, P) % P, (xm - 1) * pow(xm + 1, -1, P) % P


def edge(lim, nch, extra=24):
  """Boundary-heavy integers below lim."""
  s = {0, 1, 2, lim - 1, lim - 2, lim // 2, lim // 3}
  for m in (P, PS, 2 * P, P >> 1):
    for d in (-2, -1, 0, 1, 2):
      s.add(m + d)
  for i in range(nch):
    b = 1 << (16 * i)
    s |= {b, b - 1, b + 1, 0xFFFF * b, (b << 8) - 1, 0xFF00 * b, 0x8000 * b, lim - b, lim - b - 1}
  full = (1 << (16 * nch)) - 1
  alt = int("FFFF0000" * nch, 16) & full
  s |= {full, alt, full ^ alt, int("FF00" * nch, 16), int("00FF" * nch, 16), int("8000" * nch, 16), int("7FFF" * nch, 16),
        int("FFFE" * nch, 16), int("0001" * nch, 16)}
  for _ in range(extra):
    s.add(R.rng.randrange(lim))
    s.add(R.rng.getrandbits(R.rng.randrange(1, 16 * nch)))
    # long runs of ones and zeros: carry chains
    x = 0
    for _ in range(nch):
      x = (x << 16) | R.rng.choice([0, 0xFFFF, 0xFFFF, 1, 0x8000, R.rng.getrandbits(16)])
    s.add(x)
  return sorted(x for x in s if 0 <= x < lim)


def pick(seq, k):
  seq = list(seq)
  return [R.rng.choice(seq) for _ in range(k)]


# ------------------------------------------------------------------------ P23
def moduli():
  return [int(m) for m in util.MODULI]


def env():
  R.emit("env", m=zl(moduli()))


def p23():
  env()
  jobs = []

  def conv(fn, xs, base, n, fwd, back):
    def body():
      a = fwd(xs, base, n)
      cs = [[int(c) for c in np.asarray(r)] for r in a]
      R.emit("conv", fn=fn, x=zl(xs), base=base, n=n, cs=zl(cs), back=zl([int(b) for b in back(a, base)]))
    R.guard(fn, body)

  DT = {8: jnp.uint8, 16: jnp.uint16, 32: jnp.uint32}
  for base in (8, 16, 32):
    for n in (1, 2, 12, 24, 25, 48):
      if base * n > 1200:
        continue
      xs = edge(1 << (base * n), max(1, base * n // 16), 12 if not R.thorough else 80)
      jobs.append(lambda base=base, n=n, xs=xs: conv(
          "int_to_array", xs, base, n,
          lambda xs, b, n: [util.int_to_array(x, b, DT[b], n) for x in xs],
          lambda a, b: [util.array_to_int(r, b) for r in a]))
      jobs.append(lambda base=base, n=n, xs=xs: conv(
          "int_to_precomputed_array", xs, base, n,
          lambda xs, b, n: [util.int_to_precomputed_array(x, b, np.dtype(f"uint{b}"), n) for x in xs],
          lambda a, b: [util.array_to_int(r, b) for r in a]))
  for n in (1, 24, 25, 48):
    for cnt in (1, 2, 7, 40):
      xs = pick(edge(1 << (16 * n), n, 8), cnt)
      jobs.append(lambda n=n, xs=xs: conv(
          "int_list_to_array", xs, 16, n, lambda xs, b, n: util.int_list_to_array(xs, b, n),
          lambda a, b: util.array_to_int_list(a, b)))
  # the reference helpers of jaxite_ec/algorithm
  def ref(base, n):
    from jaxite.jaxite_ec.algorithm import util as autil  # pylint: disable=g-import-not-at-top
    xs = edge(1 << (base * n), max(1, base * n // 16), 6)
    conv("algorithm int_list_to_array", xs, base, n, lambda xs, b, n: autil.int_list_to_array(xs, b, n),
         lambda a, b: [autil.array_to_int(r, b) for r in a])
  for base, n in ((8, 48), (16, 24), (16, 25), (32, 12), (64, 6)):
    jobs.append(lambda base=base, n=n: R.guard("algorithm.util", lambda: ref(base, n)))

  M = 1
  for m in moduli():
    M *= m

  def res(cnt, kind):
    xs = {"field": pick(edge(P, 24), cnt), "wide": pick(edge(M, 47), cnt)}[kind]
    xs += [(M // m) * k for m in moduli()[:: max(1, 50 // cnt)] for k in (1,)][:4] if kind == "wide" else []
    a = util.int_list_to_array_rns(xs)
    R.emit("res", fn="int_list_to_array_rns", x=zl(xs), cs=zl(np.asarray(a).astype(np.int64)),
           back=zl([int(v) for v in util.array_rns_to_int_list(a)]))
    x = xs[0]
    r = util.int_to_array_rns(x)
    R.emit("res", fn="int_to_array_rns", x=[z(x)], cs=[zl([int(v) for v in r])], back=[z(util.array_rns_to_int(r))])
    r = util.to_rns(x, util.MODULI)
    pre = util.rns_precompute(util.MODULI)
    R.emit("res", fn="to_rns", x=[z(x)], cs=[zl([int(v) for v in r])],
           back=[z(util.rns_reconstruct(r, util.MODULI, pre))])
    # residues that are only reduced to 16 bits
    lz = [[int(v) + m if (int(v) + m < 65536 and R.rng.random() < .7) else int(v) for v, m in zip(row, moduli())]
          for row in np.asarray(a)]
    R.emit("recon", m=zl(moduli()), rs=zl(lz), out=zl([int(util.array_rns_to_int(row)) for row in lz]))
  for cnt in (1, 3, 16):
    for kind in ("field", "wide"):
      jobs.append(lambda cnt=cnt, kind=kind: R.guard("rns conversion", lambda: res(cnt, kind)))

  def packs(cnt, ncoord, n):
    pts = [[R.rng.choice(edge(1 << (16 * n), n, 3)) for _ in range(ncoord)] for _ in range(cnt)]
    a = util.int_point_batch_to_jax_point_pack(pts, chunk_num=n)
    R.emit("pack", fn="point pack", rns=False, x=zl(pts), cs=zl(np.asarray(a).astype(np.int64)),
           back=zl([[int(c) for c in p] for p in util.jax_point_pack_to_int_point_batch(a)]))
    s = util.int_point_to_jax_point_pack(pts[0], chunk_num=n)
    R.emit("pack", fn="single point pack", rns=False, x=zl([pts[0]]), cs=zl([[list(map(int, r))] for r in np.asarray(s)]),
           back=[zl([int(c) for c in util.jax_point_pack_to_int_point(s)])])
    pts = [[R.rng.choice(edge(M, 47, 3)) for _ in range(ncoord)] for _ in range(cnt)]
    a = util.int_point_batch_to_jax_rns_point_pack(pts)
    R.emit("pack", fn="RNS point pack", rns=True, x=zl(pts), cs=zl(np.asarray(a).astype(np.int64)),
           back=zl([[int(c) for c in p] for p in util.jax_rns_point_pack_to_int_point_batch(a)]))
    s = util.int_point_to_jax_rns_point_pack(pts[0])
    R.emit("pack", fn="single RNS point pack", rns=True, x=zl([pts[0]]), cs=zl([[list(map(int, r))] for r in np.asarray(s)]),
           back=[zl([int(c) for c in util.jax_rns_point_pack_to_int_point(s)])])
  for cnt, ncoord, n in ((1, 4, 24), (2, 4, 25), (5, 3, 24), (3, 2, 25)):
    jobs.append(lambda cnt=cnt, ncoord=ncoord, n=n: R.guard("packs", lambda: packs(cnt, ncoord, n)))

  def consts():
    ch = lambda t: val(t)
    R.emit("const", p=z(util.MODULUS_377_INT), mu=z(util.MU_377_INT), ps=z(util.MODULUS_377_S16_INT), d=z(util.TWIST_D_INT))
    R.emit("const", p=z(ch(util.MODULUS_377_INT_CHUNK)), mu=z(ch(util.MU_377_INT_CHUNK)),
           ps=z(ch(util.MODULUS_377_S16_INT_CHUNK)), d=z(ch(util.TWIST_D_INT_CHUNK)))
    R.emit("res", fn="TWIST_D_RNS", x=[z(util.TWIST_D_INT)], cs=[zl([int(v) for v in util.TWIST_D_RNS])],
           back=[z(util.array_rns_to_int(util.TWIST_D_RNS))])
    R.emit("moduli", m=zl(moduli()), t=zl([int(t) for t in util.RNS_MODULI_T]), bound=z(P * P * (512 * 50) ** 2 * 8))
    R.emit("lazymat", p=z(P), k=48, rows=zl([[int(v) for v in r] for r in util.MODULUS_377_LAZY_MAT]))
  jobs.append(lambda: R.guard("constants", consts))

  def gens():
    for p, n in ((P, 48), (2**383 - 31, 48), (2**255 - 19, 32), (65537, 4), (P >> 7 | 1, 47)):
      R.emit("lazymat", p=z(p), k=n, rows=zl([[int(v) for v in r] for r in util.construct_lazy_matrix(p, 8, n)]))
    for bits, prec in ((300, 16), (700, 16), (760, 16), (60, 16), (16, 16), (15, 16)):
      ms, ts = util.find_moduli(1 << bits, prec)
      R.emit("moduli", m=zl([int(m) for m in ms]), t=zl([int(t) for t in ts]), bound=z(1 << bits))
    for ms in (moduli(), [7, 11, 13], [65536, 65535, 65533], [2, 3, 5, 7, 11]):
      M1 = util.total_modulus(ms)
      R.emit("icrt", m=zl(ms), f=zl([int(f) for f in util.rns_icrt_factors_compute(M1, ms)]))
      R.emit("icrt", m=zl(ms), f=zl([int(f) for f in util.rns_precompute(ms)]))
      xs = [R.rng.randrange(M1) for _ in range(5)] + [0, M1 - 1]
      R.emit("recon", m=zl(ms), rs=zl([[int(v) for v in util.to_rns(x, ms)] for x in xs]),
             out=zl([int(util.rns_reconstruct(util.to_rns(x, ms), ms, util.rns_precompute(ms))) for x in xs]))
  jobs.append(lambda: R.guard("precomputation", gens))
  for j in R.mine(jobs):
    j()


# ------------------------------------------------------------------------ P24
def norm16(a):
  return bool(np.asarray(a).dtype == np.uint16)


def ffev(op, n, a, b, c, norm=True, **kw):
  R.emit("ff", op=op, n=n, a=zl(a), b=zl(b), c=zl(c), norm=norm, **kw)


def pairs(xs, ys, k):
  """boundary pairs first (all-diagonal), then random ones; padded to k."""
  out = [(x, x) for x in xs if x in set(ys)] + [(x, ys[0]) for x in xs] + [(xs[-1], y) for y in ys]
  R.rng.shuffle(out)
  while len(out) < k:
    out.append((R.rng.choice(xs), R.rng.choice(ys)))
  return out[:k]


def p24():
  B = 192 if not R.thorough else 512
  reps = 2 if not R.thorough else 24
  jobs = []

  def batched(fn, *arrs):
    return vals(fn(*arrs))

  def add_sub(n):
    cap = 1 << (16 * n)
    pr = [(a, b) for a, b in pairs(edge(cap, n), edge(cap, n), 3 * B) if a + b < cap][:B]
    pr += [(a, cap - 1 - a) for a in pick(edge(cap, n), 32)]          # fills every chunk exactly
    a, b = [x for x, _ in pr], [y for _, y in pr]
    c = ff.add_2u16(jnp.array(arr(a, n)), jnp.array(arr(b, n)))
    ffev("add2", n, a, b, vals(c), norm16(c))
    tr = [t for t in ((x, y, R.rng.choice(edge(cap, n, 4))) for x, y in pr) if sum(t) < cap][:B]
    tr += [(x, x, x) for x in edge(cap // 3, n, 4)][:64]
    a, b, d = ([t[i] for t in tr] for i in range(3))
    c = ff.add_3u16(*(jnp.array(arr(v, n)) for v in (a, b, d)))
    ffev("add3", n, a, b, vals(c), norm16(c), d=zl(d))
    top = 0xFFFF << (16 * (n - 1))      # subtraction needs headroom in the top chunk
    pr = [(max(x, y), min(x, y)) for x, y in pairs(edge(top, n), edge(top, n), B)]
    a, b = [x for x, _ in pr], [y for _, y in pr]
    c = ff.sub_2u16(jnp.array(arr(a, n)), jnp.array(arr(b, n)), chunk_num_u16=n)
    ffev("sub", n, a, b, vals(c), norm16(c))
    pr = pairs(edge(cap, n), edge(cap, n), B)
    pr += [(x, x ^ (1 << R.rng.randrange(16 * n))) for x, _ in pr[:64]]
    a, b = [x for x, _ in pr], [y for _, y in pr]
    if n <= 25:
      c = ff.compare_u16(jnp.array(arr(a, n)), jnp.array(arr(b, n)), chunk_num_u16=n)
      ffev("cmp", n, a, b, [int(v) for v in np.asarray(c)])
    # one-dimensional operands
    for x, y in pr[:6]:
      hi, lo = max(x, y), min(x, y)
      if hi < top:
        c = ff.sub_2u16(jnp.array(arr([hi], n)[0]), jnp.array(arr([lo], n)[0]), chunk_num_u16=n)
        ffev("sub", n, [hi], [lo], [val(c)], norm16(c))
      if x + y < cap:
        c = ff.add_2u16(jnp.array(arr([x], n)[0]), jnp.array(arr([y], n)[0]))
        ffev("add2", n, [x], [y], [val(c)], norm16(c))
      if n <= 25:
        c = ff.compare_u16(jnp.array(arr([x], n)[0]), jnp.array(arr([y], n)[0]), chunk_num_u16=n)
        ffev("cmp", n, [x], [y], [int(c)])

  def cond(n, m, chunk):
    cap = 1 << (16 * n)
    near = [m + d for d in (-3, -2, -1, 0, 1, 2, 3)] + [2 * m - 1, 2 * m, 3 * m - 1]
    near += [m + (1 << (16 * i)) * s for i in range(n) for s in (1, -1)]
    a = pick([x for x in edge(cap, n) + near if x < cap], B - len(near)) + [x for x in near if 0 <= x < cap]
    c = ff.cond_sub_mod_u16(jnp.array(arr(a, n)), modulus_377_int_chunk=chunk, chunk_num_u16=n)
    ffev("condsubmod", n, a, a, vals(c), norm16(c), m=z(m))
    pr = [(x, y) for x, y in pairs(edge(m, n), edge(m, n), B)]
    pr += [(x, x + d) for x in pick(edge(m - 3, n), 32) for d in (0, 1, 2)]
    pr += [(m, 0), (m, m), (0, m), (m - 1, m)]
    a, b = [x for x, _ in pr], [y for _, y in pr]
    c = ff.cond_sub_2u16(jnp.array(arr(a, n)), jnp.array(arr(b, n)), modulus_377_int_chunk=chunk, chunk_num_u16=n)
    ffev("condsub2", n, a, b, vals(c), norm16(c), m=z(m))

  def mul(n):
    cap = 1 << (16 * n)
    pr = pairs(edge(cap, n), edge(cap, n), B) + [(cap - 1, cap - 1)]
    a, b = [x for x, _ in pr], [y for _, y in pr]
    c = ff.mul_2u16(jnp.array(arr(a, n)), jnp.array(arr(b, n)), chunk_num_u16=n)
    ffev("mul", n, a, b, vals(c), norm16(c))
    c = ff.mul_2u16(jnp.array(arr(a, n)), jnp.array(arr(b, n)), chunk_num_u16=n, output_dtype=jnp.uint8)
    ffev("mul", n, a, b, [val(r, 8) for r in np.asarray(c)], bool(np.asarray(c).dtype == np.uint8))
    c = ff.mul_2u16(jnp.array(arr(a, n)), jnp.array(arr([b[0]], n)[0]), chunk_num_u16=n, vmap_axes=(0, None))
    ffev("mul", n, a, [b[0]] * len(a), vals(c), norm16(c))

  def mulshift():
    a = pick(edge(P * P, 48), B) + [P * P - 1, (P - 1) ** 2, 0, 1, (1 << 760) - 1 if (1 << 760) < P * P else 1]
    mu = (1 << 760) // P
    c = ff.mul_shift_2u16x2x1(jnp.array(arr(a, 48)), jnp.array(arr([mu], 24)[0]))
    ffev("mulshift", 48, a, [mu] * len(a), vals(c), norm16(c))

  def barrett():
    near = [P - 1 - d for d in range(6)] + list(range(6))
    e = edge(P, 24)
    pr = pairs(e, e, B) + [(x, y) for x in near for y in near]
    # products that are just below / above a multiple of p
    for _ in range(48):
      x = R.rng.choice(e) or 1
      pr.append((x, pow(x, -1, P) * R.rng.choice([1, 2, P - 1, P - 2]) % P))
    a, b = [x for x, _ in pr], [y for _, y in pr]
    c = ff.mod_mul_barrett_2u16(jnp.array(arr(a, 24)), jnp.array(arr(b, 24)))
    ffev("barrett", 24, a, b, vals(c), norm16(c))
    xs = pick(edge(P * P, 48), B)
    for _ in range(64):
      k = R.rng.randrange(P)
      xs += [k * P + d for d in (0, 1, 2)] + [k * P + P - 1]
    xs += [(P - 1) * P + d for d in (0, 1, P - 2, P - 1)] + [P * P - 1, P, P - 1, 2 * P - 1, 2 * P, 0]
    # quotient estimate as wrong as it can get: x large, x mod p small
    xs += [P * P - k * P for k in range(1, 20)] + [P * P - k * P + 1 for k in range(1, 20)]
    xs = [x for x in xs if x < P * P]
    c = ff.barrett_reduction_u16x2(jnp.array(arr(xs, 48)))
    ffev("barrettred", 48, xs, xs, vals(c), norm16(c))

  def lazy():
    cap = 1 << 400
    e = edge(PS, 25) + [PS - 1, PS]
    pr = pairs(e, e, B) + [(x, y) for x in pick(edge(cap, 25), 48) for y in pick(edge(cap, 25), 2)]
    pr += [(cap - 1, cap - 1), (PS - 1, PS - 1), (cap - 1, 1), (0, cap - 1), (PS, PS), (P, P), (P, PS)]
    a, b = [x for x, _ in pr], [y for _, y in pr]
    c = ff.mod_mul_lazy_2u16(jnp.array(arr(a, 25)), jnp.array(arr(b, 25)))
    ffev("lazy", 25, a, b, vals(c), norm16(c))

  def carry():
    for n in (4, 24, 25):
      for _ in range(6):
        x = R.rng.choice(edge(1 << (16 * n), n))
        ch = [int(v) for v in arr([x], n)[0]]
        # move multiples of 2^16 down: redundant 32-bit chunks of the same value
        for i in range(n - 1, 0, -1):
          if ch[i]:
            k = R.rng.randrange(0, min(ch[i], 0x7FFF) + 1)
            ch[i] -= k
            ch[i - 1] += k << 16
        c = ff.carry_add(jnp.array(ch, dtype=jnp.uint32), iter_num=n)
        ffev("carry", n, [x], [x], [val(c)], bool((np.asarray(c) < 65536).all()))

  for r in range(reps):
    for n in (2, 8, 24, 25, 48):
      jobs.append((f"add/sub {n}", lambda n=n: add_sub(n)))
    jobs.append(("cond 24", lambda: cond(24, P, util.MODULUS_377_INT_CHUNK)))
    jobs.append(("cond 25", lambda: cond(25, PS, util.MODULUS_377_S16_INT_CHUNK)))
    other = tuple(int(v) for v in arr([(1 << 380) - 65], 24)[0])
    jobs.append(("cond other", lambda other=other: cond(24, (1 << 380) - 65, other)))
    for n in (24, 25, 12):
      jobs.append((f"mul {n}", lambda n=n: mul(n)))
    jobs.append(("mulshift", mulshift))
    jobs.append(("barrett", barrett))
    jobs.append(("barrett", barrett))
    jobs.append(("lazy", lazy))
    jobs.append(("lazy", lazy))
    if r == 0:
      jobs.append(("carry", carry))
  for name, j in R.mine(jobs):
    R.guard(name, j)


# ------------------------------------------------------------------------ P25
def crt(words):
  ms = moduli()
  M = 1
  for m in ms:
    M *= m
  return sum(int(w) * (M // m) * pow(M // m, -1, m) for w, m in zip(words, ms)) % M


def fresh_vals(pat, lanes, q):
  ms = moduli()
  rnd = lambda: R.rng.randrange(q)
  out = []
  for _ in range(lanes):
    if pat == 1:
      v = R.rng.choice([0, 0, 1])
    elif pat == 2:
      v = R.rng.choice([1, q - 1, q - 2, (q - 1) // 2, (q + 1) // 2, 2])
    elif pat == 3:                       # zero words in some limbs
      v = 1
      for m in R.rng.sample(ms, R.rng.randrange(1, 20)):
        if v * m < q:
          v *= m
      v *= R.rng.randrange(1, max(2, q // v))
    elif pat == 4:                       # words m - 1 or 1 in some limbs
      v = 1
      for m in R.rng.sample(ms, 20):
        if v * m < q:
          v *= m
      v = v * R.rng.randrange(1, max(2, q // v)) + R.rng.choice([1, -1])
    elif pat == 5:                       # small: lazily reducible words
      v = R.rng.choice([0, 1, 2, 3, R.rng.randrange(256), R.rng.randrange(65536)])
    elif pat == 6:
      v = 1 << R.rng.randrange(q.bit_length() - 1)
    elif pat == 7:                       # as large as a reduced product may be
      v = R.rng.choice([512 * len(ms) * q - 1, q, 2 * q, q * R.rng.randrange(512 * len(ms)), R.rng.randrange(512 * len(ms) * q)])
    else:
      v = rnd()
    out.append(min(max(v, 0), 512 * len(ms) * q - 1))
  if lanes > 2:
    out[R.rng.randrange(lanes)] = rnd()
  return out


def words(v, lazy):
  ms = moduli()
  w = [v % m for m in ms]
  return [x + m if lazy and x + m < 65536 and R.rng.random() < .8 else x for x, m in zip(w, ms)]


def p25():
  env()
  neg = {"n": ff.negate_rns_for_var_add, "z": ff.negate_rns_for_var_add_zero_check, "": lambda a: a}

  def chain(plan):
    R.emit("newprog")
    lanes = R.rng.choice([1, 2, 6, 6, 6])
    regs = {}
    for o in plan["ops"]:
      if o == "done":
        continue
      if o["op"] == "fresh":
        v = fresh_vals(o["p"], lanes, P)
        w = [words(x, o["p"] in (3, 4, 5)) for x in v]
        regs[o["r"]] = jnp.array(w, dtype=jnp.uint16)
        b = str(512 * len(moduli())) if o["p"] == 7 else "1"
        R.emit("rfresh", r=o["r"], q=z(P), b=b, v=zl(v), rs=zl(w))
        continue
      if o["op"] == "mul":
        src = [dict(r=o["a"], neg=""), dict(r=o["b"], neg="")]
        out = ff.mod_mul_rns_2u16(regs[o["a"]], regs[o["b"]])
      else:
        src = o["src"]
        ts = [neg[t["neg"]](regs[t["r"]]) for t in src]
        if len(ts) == 2 and R.rng.random() < .5:
          out = ff.add_rns_2u16(*ts)
        elif len(ts) == 3 and R.rng.random() < .5:
          out = ff.add_rns_3u16(*ts)
        else:
          out = ff.add_sub_rns_var(*ts)
      regs[o["r"]] = out
      R.emit("rop", op=o["op"], r=o["r"], q=z(P), src=src, rs=zl(np.asarray(out).astype(np.int64)))

  for plan in R.mine(R.plans()):
    R.guard("chain", lambda plan=plan: chain(plan))

  jobs = []

  def unreduced():
    n = len(moduli())
    ws = [[65535] * n, [0] * n, [m - 1 for m in moduli()], [min(65535, m) for m in moduli()], [65535 if i % 2 else 0 for i in range(n)]]
    ws += [[R.rng.choice([65535, 0, R.rng.randrange(65536)]) for _ in range(n)] for _ in range(24)]
    pr = [(R.rng.choice(ws), R.rng.choice(ws)) for _ in range(24)] + [(w, w) for w in ws[:6]]
    a, b = [x for x, _ in pr], [y for _, y in pr]
    c = ff.mul_unreduced_rns_2u16(jnp.array(a, dtype=jnp.uint16), jnp.array(b, dtype=jnp.uint16))
    R.emit("rmulu", a=zl([crt(x) for x in a]), b=zl([crt(x) for x in b]), rs=zl(np.asarray(c).astype(np.int64)))

  def extremes():
    """Products and accumulations at the edge of the range of the reduction."""
    n = len(moduli())
    M = 1
    for m in moduli():
      M *= m
    unit = 512 * n * P
    R.emit("newprog")
    for r, top in ((1, 16 * unit), (2, 16 * unit), (3, unit), (4, P)):
      v = [top - 1, top - R.rng.randrange(1, P), R.rng.randrange(top), (top // P) * P - 1, 0, 1, R.rng.randrange(top), 3 * (top // 4)]
      w = [words(x, R.rng.random() < .5) for x in v]
      R.emit("rfresh", r=r, q=z(P), b=str(top // P), v=zl(v), rs=zl(w))
      for s, wa in [(r, w)]:
        c = ff.mod_mul_rns_2u16(jnp.array(w, dtype=jnp.uint16), jnp.array(wa, dtype=jnp.uint16))
        R.emit("rop", op="mul", r=9, q=z(P), src=[dict(r=r, neg=""), dict(r=s, neg="")], rs=zl(np.asarray(c).astype(np.int64)))

  def other(q):
    R.emit("newprog")
    mat = util.construct_rns_matrix(q)
    for r in (1, 2):
      v = fresh_vals(R.rng.randrange(8), 8, q)
      w = [words(x, False) for x in v]
      R.emit("rfresh", r=r, q=z(q), b=str(512 * len(moduli())), v=zl(v), rs=zl(w))
      if r == 1:
        w1 = w
    x = jnp.array(w1, dtype=jnp.uint16)
    y = jnp.array(w, dtype=jnp.uint16)
    for k in range(4):
      c = ff.mod_mul_rns_2u16(x, y, rns_mat=mat)
      R.emit("rop", op="mul", r=3 + k, q=z(q), src=[dict(r=1 if k == 0 else 2 + k, neg=""), dict(r=2, neg="")],
             rs=zl(np.asarray(c).astype(np.int64)))
      x = c

  def consts():
    for c in (0, 1, 2, 3, 16383):
      w = np.asarray(ff.rns_constant(c))
      R.emit("res", fn="rns_constant", x=[z(c)], cs=[zl([int(v) for v in w])], back=[z(c)])

  reps = 1 if not R.thorough else 12
  for _ in range(reps):
    jobs += [("unreduced", unreduced), ("extremes", extremes), ("extremes", extremes), ("constants", consts)]
    for q in (ORDER, 2**255 - 19, 2**31 - 1, 3, (1 << 376) + 57):
      jobs.append(("other prime", lambda q=q: other(q)))
  for name, j in R.mine(jobs):
    R.guard(name, j)


# ------------------------------------------------------------------------ P26
def py_systems():
  from jaxite.jaxite_ec.algorithm import config_file as cf  # pylint: disable=g-import-not-at-top
  from jaxite.jaxite_ec.algorithm import elliptic_curve as aec  # pylint: disable=g-import-not-at-top
  return {
      "py_xyzz": aec.ECCSWeierstrassXYZZ(cf.config_BLS12_377),
      "py_proj": aec.ECCSWeierstrassProjective(cf.config_BLS12_377),
      "py_aff": aec.ECCSWeierstrassAffine(cf.config_BLS12_377),
      "py_tw": aec.ECCSTwistedEdwardsExtended(cf.config_BLS12_377_t),
  }


def rep(sys, pt, scale=None):
  """A representative of an affine point (None: neutral, twisted only)."""
  l = R.rng.choice([1, 1, 2, P - 1, R.rng.randrange(1, P), R.rng.randrange(1, P)]) if scale is None else scale
  if sys == "xyzz":
    return [pt[0] * l * l % P, pt[1] * pow(l, 3, P) % P, l * l % P, pow(l, 3, P)]
  if sys == "proj":
    return [pt[0] * l % P, pt[1] * l % P, l]
  if sys == "aff":
    return [pt[0], pt[1]]
  x, y = twist(pt)
  return [x * l % P, y * l % P, l, x * y * l % P]


class Jx:
  """A JAX implementation: packs are (coordinate, lane, word) arrays."""

  def __init__(self, name, sys, kind, add, dbl, neg=None, batch_first=False):
    self.name, self.sys, self.kind, self.bf = name, sys, kind, batch_first
    self.fn = {"add": add, "dbl": dbl, "neg": neg}
    self.bound = {"barrett": P, "lazy": PS + 1, "rns": 16 * 512 * len(moduli()) * P}[kind]

  def noise(self, c):
    """Another admissible integer for the same field element."""
    if self.kind == "barrett":
      return c
    top = 65535 if self.kind == "lazy" else 512 * len(moduli()) - 1
    return c + P * R.rng.choice([0, 0, 1, top, R.rng.randrange(top + 1)])

  def pack(self, pts):
    """pts: per lane the integer coordinates."""
    if self.kind == "rns":
      a = [[words(c, False) for c in pt] for pt in pts]
      a = jnp.array(np.array(a, dtype=np.uint16).transpose(1, 0, 2))
    else:
      n = 24 if self.kind == "barrett" else 25
      a = jnp.array(np.stack([arr([pt[k] for pt in pts], n) for k in range(len(pts[0]))]))
    return a

  def unpack(self, a):
    a = np.asarray(a)
    dec = crt if self.kind == "rns" else val
    return [[int(dec(a[k][j])) for k in range(a.shape[0])] for j in range(a.shape[1])]

  def run(self, op, *xs):
    f = self.fn[op]
    if self.bf:
      # lane-first operands; the result is transposed back as requested
      out = f(*(jnp.transpose(x, (1, 0, 2)) for x in xs), transpose=(1, 0, 2))
      return jnp.transpose(out, (1, 0, 2))
    return f(*xs)


class Py:
  """A pure-Python reference: lists of point objects."""

  def __init__(self, name, sys, cs):
    self.name, self.sys, self.cs, self.bound = name, sys, cs, P
    self.fn = {"add": True, "dbl": True, "neg": None}

  def noise(self, c):
    return c

  def pack(self, pts):
    if self.sys == "tw":
      return [self.cs.generate_point(list(p), twist=False) for p in pts]
    return [self.cs.generate_point(list(p)) for p in pts]

  def unpack(self, ps):
    return [[int(c.get_value()) for c in p[: (2 if self.sys == "aff" else 4)]] for p in ps]

  def run(self, op, *xs):
    if op == "add":
      return [a + b for a, b in zip(*xs)]
    return [a << 1 for a in xs[0]]


def imps(which):
  J = {
      "barrett": lambda: Jx("barrett xyzz", "xyzz", "barrett", jec.padd_barrett_xyzz_pack, jec.pdul_barrett_xyzz_pack),
      "barrett_bf": lambda: Jx("barrett xyzz batch first", "xyzz", "barrett", jec.padd_barrett_xyzz_pack_batch_first,
                               jec.pdul_barrett_xyzz_pack_batch_first, batch_first=True),
      "lazy": lambda: Jx("lazy xyzz", "xyzz", "lazy", jec.padd_lazy_xyzz_pack, jec.pdul_lazy_xyzz_pack),
      "rns": lambda: Jx("rns xyzz", "xyzz", "rns", jec.padd_rns_xyzz_pack, jec.pdul_rns_xyzz_pack),
      "lazy_tw": lambda: Jx("lazy twisted", "tw", "lazy", jec.padd_lazy_twisted_pack, jec.pdul_lazy_twisted_pack,
                            jec.pneg_lazy_twisted_pack),
      "rns_tw": lambda: Jx("rns twisted", "tw", "rns", jec.padd_rns_twisted_pack, jec.pdul_rns_twisted_pack),
  }
  if which in J:
    return J[which]()
  return Py(which, {"py_xyzz": "xyzz", "py_proj": "proj", "py_aff": "aff", "py_tw": "tw"}[which], py_systems()[which])


def walk(plan, which):
  imp = imps(which)
  R.emit("newprog")
  lanes = (5 if isinstance(imp, Jx) else 2)
  base = [R.rng.choice([1, R.rng.randrange(2, 1000), R.rng.getrandbits(40) | 1, ORDER - R.rng.randrange(1, 99)]) for _ in range(lanes)]
  regs, ks = {}, {}
  for o in plan["ops"]:
    if o == "done":
      continue
    if o["op"] == "load":
      ds = [o["k"] * b for b in base]
      cs = [[imp.noise(c) for c in rep(imp.sys, kg(d))] for d in ds]
      regs[o["r"]] = imp.pack(cs)
      ks[o["r"]] = o["k"]
      R.emit("pload", r=o["r"], sys=imp.sys, k=zl(ds), c=zl(cs))
      continue
    if imp.fn[o["op"]] is None:
      if o["op"] == "neg":     # no negation here: load the negative instead
        ds = [-ks[o["a"]] * b for b in base]
        cs = [[imp.noise(c) for c in rep(imp.sys, kg(d))] for d in ds]
        regs[o["r"]] = imp.pack(cs)
        ks[o["r"]] = -ks[o["a"]]
        R.emit("pload", r=o["r"], sys=imp.sys, k=zl(ds), c=zl(cs))
      continue
    args = [regs[o["a"]]] + ([regs[o["b"]]] if o["op"] == "add" else [])
    out = imp.run(o["op"], *args)
    ks[o["r"]] = {"add": lambda: ks[o["a"]] + ks[o["b"]], "dbl": lambda: 2 * ks[o["a"]], "neg": lambda: -ks[o["a"]]}[o["op"]]()
    regs[o["r"]] = out
    R.emit("pop", op=o["op"], imp=imp.name, sys=imp.sys, r=o["r"], a=o["a"], b=o.get("b", 0), n=1,
           c=zl(imp.unpack(out)), bound=z(imp.bound))


def p26x():
  names = ["barrett", "lazy", "rns", "barrett_bf", "py_xyzz", "py_proj", "py_aff"]
  # one implementation per shard round: each is compiled once
  mine = R.mine(names) or names
  for i, plan in enumerate(R.plans()):
    R.guard("point walk", lambda plan=plan, w=mine[i % len(mine)]: walk(plan, w))


def p26t():
  names = ["lazy_tw", "rns_tw", "py_tw"]
  mine = R.mine(names) or names
  for i, plan in enumerate(R.plans()):
    R.guard("point walk", lambda plan=plan, w=mine[i % len(mine)]: walk(plan, w))
  if R.shard == 0:
    R.guard("twist", twists)
  if R.shard == 1:
    R.guard("references", refs)


def twists():
  cs = py_systems()["py_tw"]
  pts = [kg(k) for k in (1, 2, 3, 1234567, ORDER - 1, R.rng.randrange(ORDER), R.rng.randrange(ORDER))]
  t = [[int(c) for c in cs.twist_int_coordinates(list(p))] for p in pts]
  back = []
  for p in pts:
    q = cs.generate_point(list(p)).convert_to_affine()
    back.append([int(c.get_value()) for c in q[:2]])
  R.emit("twist", w=zl(pts), t=zl(t), back=zl(back))


def refs():
  from jaxite.jaxite_ec.algorithm import finite_field as aff  # pylint: disable=g-import-not-at-top
  from jaxite.jaxite_ec.algorithm import lazy_reduction as lr  # pylint: disable=g-import-not-at-top
  e = edge(P, 24, 10)
  near = [0, 1, 2, P - 1, P - 2, (P - 1) // 2, (P + 1) // 2]
  for cls in ("FiniteFieldElement", "FiniteFieldElementBarrett", "FiniteFieldElementMontgomery"):
    C = getattr(aff, cls)
    mont = cls.endswith("Montgomery")

    def out(v):
      return int(v.copy().change_montgomery_form().get_value()) if mont else int(v.get_value())
    pr = [(x, y) for x in near for y in near] + [(x, P - x) for x in pick(e, 10) if x] + [(R.rng.choice(e), R.rng.choice(e)) for _ in range(40)]
    for x, y in pr:
      a, b = C(x, P), C(y, P)
      R.emit("ref", cls=cls, op="add", a=z(x), b=z(y), c=z(out(a + b)))
      R.emit("ref", cls=cls, op="sub", a=z(x), b=z(y), c=z(out(a - b)))
      R.emit("ref", cls=cls, op="mul", a=z(x), b=z(y), c=z(out(a * b)))
      if y:
        R.emit("ref", cls=cls, op="div", a=z(x), b=z(y), c=z(out(a / b)))
      if not mont:
        R.emit("ref", cls=cls, op="copy", a=z(x), b=z(y), c=z(int(a.copy(y).get_value())))
      else:
        R.emit("ref", cls=cls, op="copy", a=z(x), b=z(y), c=z(out(a.copy(y, transform=True))))
  for x in near[1:]:
    for k in (0, 1, 2, 5, P - 2):
      R.emit("ref", cls="FiniteFieldElement", op="pow", a=z(x), b=z(k), c=z(int((aff.FiniteFieldElement(x, P) ** k).get_value())))
  lim = PS
  for q in (P, 2**383 - 31, (1 << 382) + 7):
    xs = [(R.rng.choice(edge(lim, 25, 4)), R.rng.choice(edge(lim, 25, 4))) for _ in range(24)] + [(lim - 1, lim - 1), (0, lim - 1), (P, P)]
    cs = lr.lazy_reduction_via_matrix([x for x, _ in xs], [y for _, y in xs], q)
    R.emit("lazyref", p=z(q), a=zl([x for x, _ in xs]), b=zl([y for _, y in xs]), c=zl([int(c) for c in cs]))


# ------------------------------------------------------------------------ P27
class Msm:
  """One multi-scalar multiplication configuration (compiled once)."""

  def __init__(self, variant, rns, slice_length, par, n, scan=True, dense=False):
    from jaxite.jaxite_ec import pippenger as pl  # pylint: disable=g-import-not-at-top
    from jaxite.jaxite_ec import pippenger_rns as pr  # pylint: disable=g-import-not-at-top
    m = pr if rns else pl
    self.variant, self.rns, self.s, self.par, self.n, self.m = variant, rns, slice_length, par, n, m
    self.sys = "xyzz" if variant == "xyzz" else "tw"
    self.signed = variant == "signed"
    self.name = f"{'rns' if rns else 'lazy'} {variant}{'' if scan else ' non-scan'} slice {slice_length} par {par} n {n}"
    st = lambda f, **kw: (jax.jit(functools.partial(f, **kw)) if scan else functools.partial(f, **kw))
    w = 2**slice_length
    if variant == "xyzz":
      acc = m.bucket_accumulation_index_scan_algorithm if scan else m.bucket_accumulation_index_algorithm
      red = m.bucket_reduction_scan_algorithm if scan else m.bucket_reduction_algorithm
      mer = m.window_merge_scan_algorithm if scan else m.window_merge_algorithm
      if dense:  # selection masks over all buckets instead of indices
        fn = m.bucket_accumulation_scan_algorithm if scan else m.bucket_accumulation_algorithm
        self.name += " dense"

        def acc(b, p, si, z, msm_length):
          c, wd, bd, prec = b.shape
          sel = jax.nn.one_hot(si, bd, dtype=jnp.uint8).reshape(msm_length, wd * bd)
          return fn(b.reshape(c, wd * bd, prec), p, sel, z.reshape(msm_length, wd * bd), msm_length).reshape(b.shape)
      self.acc, self.red = st(acc, msm_length=n), st(red, bucket_num_in_window=w)
      self.mer, self.bws = st(mer, slice_length=slice_length), None
    else:
      acc = (m.bucket_accumulation_signed_index_scan_parallel_algorithm_twisted if self.signed
             else m.bucket_accumulation_index_scan_parallel_algorithm_twisted)
      self.acc = st(acc, msm_length=n // par)
      self.red = st(m.bucket_reduction_scan_algorithm_twisted, bucket_num_in_window=w // 2 if self.signed else w - 1)
      self.bws = st(m.batch_window_summation_algorithm_twisted, point_parallel=par)
      self.mer = st(m.window_merge_scan_algorithm_twisted, slice_length=slice_length)

  def dec(self, col):
    return [int((crt if self.rns else val)(c)) for c in col]

  def run(self, scalars, pts, case):
    m, s = self.m, self.s
    if self.variant == "xyzz":
      o = m.MSMPippenger(s)
      o.initialize(list(scalars), [[int(c) for c in p] for p in pts])
    else:
      o = (m.MSMPippengerTwistedSigned if self.signed else m.MSMPippengerTwisted)(s, self.par)
      tp = [[x, y, 1, x * y % P] for x, y in (twist(p) for p in pts)]
      o.initialize(list(scalars), tp)
    wn = -(-254 // s)
    head = dict(imp=self.name, sys=self.sys, signed=self.signed, slice=s, par=self.par, scalars=zl(scalars), pts=zl(pts), case=case)
    bk = np.asarray(o.bucket_accumulation(self.acc))
    out = []
    off = 0 if self.variant == "xyzz" else 1
    # non-empty buckets and a sample of the empty ones; bucket 0 of the XYZZ variant is never read
    for g in range(self.par):
      for w in range(wn):
        ds = set(R.rng.sample(range(1, bk.shape[2] + off), 1))
        for i in range(g, len(scalars), self.par):
          ds |= set(self.digits(scalars[i])[w: w + 1])
        for d in ds - {0}:
          out.append(dict(g=g, w=w, d=d, c=zl(self.dec(bk[:, g * wn + w, d - off]))))
    R.emit("buckets", b=out, **head)
    ws = o.bucket_reduction(self.red)
    if self.bws is not None:
      ws = o.batch_window_summation(self.bws)
    ws = np.asarray(ws)
    R.emit("windows", win=[dict(w=w, c=zl(self.dec(ws[:, w]))) for w in range(ws.shape[1])], nwin=wn, **head)
    res = np.asarray(o.window_merge(self.mer))
    R.emit("result", c=zl(self.dec(res)), **head)

  def digits(self, k):
    """Bucket numbers per window (only to choose which buckets to record)."""
    s, out, carry = self.s, [], 0
    for _ in range(-(-254 // s)):
      d = (k & ((1 << s) - 1)) + (carry if self.signed else 0)
      k >>= s
      carry = 0
      if self.signed and d >= 1 << (s - 1):
        d, carry = (1 << s) - d, 1
      out.append(d)
    return out


def scalar(shape, s, prev):
  wn = -(-254 // s)
  r = R.rng
  full = lambda f: sum(f(w) << (w * s) for w in range(wn))
  k = {
      "zero": lambda: 0,
      "one": lambda: 1,
      "small": lambda: r.randrange(1 << s),
      "window": lambda: r.randrange(1, 1 << s) << (s * r.randrange(wn)),
      "max": lambda: ORDER - 1 - r.randrange(3),
      "ones": lambda: (1 << r.randrange(1, 252)) - 1,
      "half": lambda: full(lambda w: 1 << (s - 1)),
      "belowhalf": lambda: full(lambda w: (1 << (s - 1)) - 1),
      "carry": lambda: full(lambda w: r.choice([(1 << s) - 1, (1 << s) - 1, 1 << (s - 1), 0])),
      "sparse": lambda: full(lambda w: r.choice([0, 0, 0, r.randrange(1 << s)])),
      "same": lambda: prev if prev is not None else r.randrange(ORDER),
      "rand": lambda: r.randrange(ORDER),
      "mid": lambda: r.getrandbits(r.randrange(1, 250)),
  }[shape]()
  return k % ORDER


def p27():
  cfgs = [("xyzz", False, 4, 1, 4), ("xyzz", True, 4, 1, 4), ("tw", False, 4, 2, 4), ("signed", False, 4, 2, 4),
          ("tw", True, 4, 4, 4), ("signed", False, 5, 1, 3), ("xyzz", False, 7, 1, 3), ("xyzz", True, 3, 1, 2)]
  if R.thorough:
    cfgs += [("signed", False, 2, 4, 8), ("signed", False, 8, 2, 4), ("tw", False, 7, 1, 3), ("tw", True, 5, 2, 6), ("tw", False, 1, 2, 2),
             ("xyzz", False, 2, 1, 6), ("xyzz", True, 8, 1, 4), ("tw", True, 2, 1, 2), ("xyzz", False, 1, 1, 2), ("signed", False, 3, 3, 6)]
  plans = R.plans()
  for ci, c in enumerate(cfgs):
    if ci % R.nshards != R.shard:
      continue
    def body(c=c, ci=ci):
      m = Msm(*c)
      if ci == 0:
        # the XYZZ addition is incomplete: a repeated point meets itself in a bucket
        b = kg(77)
        m.run([5, 5, 9, 3], [b, b, kg(5), kg(9)], "repeated-point")
      for plan in plans:
        n = c[4]
        sc, pts, logs = [], [], []
        for i in range(n):
          sh, pk = plan["s"][i % len(plan["s"])], plan["p"][i % len(plan["p"])]
          sc.append(scalar(sh, c[2], sc[-1] if sc else None))
          k = R.rng.randrange(1, ORDER)
          if c[0] != "xyzz" and logs:
            k = {"new": k, "dup": logs[-1], "opp": ORDER - logs[-1], "dbl": 2 * logs[-1] % ORDER, "gen": 1}[pk]
          elif pk == "gen" and not logs:
            k = 1
          logs.append(k)
          pts.append(kg(k))
        m.run(sc, pts, "")
    R.guard("msm " + str(c), body)
  # the unrolled algorithms, uncompiled
  extra = [("xyzz", False, 6, 1, 2, False, False), ("xyzz", True, 6, 1, 2, False, False), ("xyzz", False, 2, 1, 2, True, True),
           ("xyzz", True, 2, 1, 2, True, True)]
  if R.thorough:
    extra += [("xyzz", False, 5, 1, 2, False, True), ("xyzz", True, 5, 1, 2, False, True)]
  for j, c in enumerate(extra):
    if (len(cfgs) + j) % R.nshards != R.shard:
      continue
    def body2(c=c):
      m = Msm(*c)
      for plan in plans[: (3 if c[5] else 2) * (1 if not R.thorough else 6)]:
        sc = []
        for sh in plan["s"][:2]:
          sc.append(scalar(sh, c[2], None))
        m.run(sc, [kg(R.rng.randrange(1, ORDER)) for _ in range(2)], "")
    R.guard("msm unrolled " + str(c), body2)


{"p23": p23, "p24": p24, "p25": p25, "p26x": p26x, "p26t": p26t, "p27": p27}[R.mode]()
R.close()
