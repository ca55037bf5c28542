"""Driver for jaxite_ckks: runs the real kernels and records what they did."""
import fractions
import hashlib
import math

from rec import Rec, setup_repo, z, zl

setup_repo()
import jax  # noqa: E402
import jax.numpy as jnp  # noqa: E402
import numpy as np  # noqa: E402
from jaxite.jaxite_ckks import add as ckks_add  # noqa: E402
from jaxite.jaxite_ckks import barrett  # noqa: E402
from jaxite.jaxite_ckks import basis_conversion  # noqa: E402
from jaxite.jaxite_ckks import bat_utils  # noqa: E402
from jaxite.jaxite_ckks import blind_rotate  # noqa: E402
from jaxite.jaxite_ckks import blind_rotate_utils  # noqa: E402
from jaxite.jaxite_ckks import conjugate  # noqa: E402
from jaxite.jaxite_ckks import encode  # noqa: E402
from jaxite.jaxite_ckks import encrypt  # noqa: E402
from jaxite.jaxite_ckks import key_gen  # noqa: E402
from jaxite.jaxite_ckks import key_switching  # noqa: E402
from jaxite.jaxite_ckks import math as ckks_math  # noqa: E402
from jaxite.jaxite_ckks import mul  # noqa: E402
from jaxite.jaxite_ckks import ntt  # noqa: E402
from jaxite.jaxite_ckks import ntt_cpu  # noqa: E402
from jaxite.jaxite_ckks import random as ckks_random  # noqa: E402
from jaxite.jaxite_ckks import rescale  # noqa: E402
from jaxite.jaxite_ckks import rns_utils  # noqa: E402
from jaxite.jaxite_ckks import types  # noqa: E402

R = Rec()
rng = R.rng
E_NOISE = 40  # 12.5 sigma for the sigma of 3.19 used everywhere


# ------------------------------------------------------------ primes
def is_prime(n):
  if n < 2:
    return False
  for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
    if n % p == 0:
      return n == p
  d, s = n - 1, 0
  while d % 2 == 0:
    d, s = d // 2, s + 1
  for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
    x = pow(a, d, n)
    if x in (1, n - 1):
      continue
    for _ in range(s - 1):
      x = x * x % n
      if x == n - 1:
        break
    else:
      return False
  return True


def primes(n2, bits_list, avoid=()):
  """Distinct primes = 1 mod n2, one just below/above 2^bits for each entry
  (positive: largest below 2^bits; negative: smallest above 2^|bits|)."""
  res = []
  for b in bits_list:
    up = b < 0
    q = (1 << abs(b)) + 1
    if not up:
      q -= n2
    while not (q % n2 == 1 and is_prime(q) and q not in res and q not in avoid and q < 2**31):
      q += n2 if up else -n2
      if q % n2 != 1:
        q -= (q - 1) % n2
    res.append(q)
  return res


SPECIAL = [536903681, 1946388001, 1685332897, 1962377377, 2147473409]


def rand_primes(n2, count, lo=20, hi=31):
  res = []
  while len(res) < count:
    q = rng.randrange(1 << lo, 1 << hi)
    q = q - q % n2 + 1
    while not is_prime(q):
      q += n2
    if q < 2**31 and q not in res:
      res.append(q)
  return res


_PSI = {}


def psi(n, q):
  if (n, q) not in _PSI:
    _PSI[(n, q)] = int(ckks_math.root_of_unity(2 * n, q))
  return _PSI[(n, q)]


def psis(n, qs):
  return [psi(n, q) for q in qs]


# ------------------------------------------------------------ formats
def i32(a):
  """numpy/jax integer array -> nested ints, out-of-range values made negative."""
  a = np.asarray(a)
  a = np.where(a.astype(np.float64) >= 2.0**31, -1, a.astype(np.int64))
  return a.tolist()


def limbs(a):
  """(degree, M) -> [M][degree]."""
  return i32(np.swapaxes(np.asarray(a), -1, -2))


def ctl(ct):
  return limbs(ct.data)


def mods(x):
  return i32(np.asarray(x))


def interp0(evals, q, w):
  """Independent inverse transform of one limb (bit-reversed layout)."""
  n = len(evals)
  lg = n.bit_length() - 1
  wi = pow(w, -1, q)
  ninv = pow(n, -1, q)
  rev = [int(format(i, f"0{lg}b")[::-1], 2) if lg else 0 for i in range(n)]
  return [ninv * sum(int(evals[i]) * pow(wi, k * (2 * rev[i] + 1), q) for i in range(n)) % q for k in range(n)]


def small_key(sk):
  q = int(sk.moduli[0])
  n = sk.data.shape[0]
  c = interp0([int(x) for x in sk.data[:, 0]], q, psi(n, q))
  return [x - q if x > q // 2 else x for x in c]


EDGE = ("zero", "max", "mixed", "rand")


def rand_res(n, qs, style=None):
  style = style or rng.choice(EDGE)
  def one(q):
    if style == "zero":
      return 0
    if style == "max":
      return q - 1
    if style == "mixed":
      return rng.choice([0, 1, q - 1, q - 2, q // 2, q // 2 + 1, rng.randrange(q)])
    return rng.randrange(q)
  return np.array([[one(q) for q in qs] for _ in range(n)], dtype=np.uint64)


def poly_of_values(vals, qs):
  """integer coefficients -> transform form (degree, M) computed by the CPU reference."""
  co = np.array([[v % q for q in qs] for v in vals], dtype=np.uint64)
  return ntt_cpu.ntt_negacyclic_poly(co, qs)


def mk_ct(data, qs):
  return types.Ciphertext(jnp.array(np.asarray(data), dtype=jnp.uint32), jnp.array(qs, dtype=jnp.uint32))


def mk_pt(data, qs):
  return types.Plaintext(jnp.array(np.asarray(data), dtype=jnp.uint32), jnp.array(qs, dtype=jnp.uint32))


def rand_ct(n, qs, k=2):
  return mk_ct(np.stack([rand_res(n, qs) for _ in range(k)]), qs)


def edge_value_ct(n, qs, k=2):
  """ciphertext whose coefficients sit at rounding boundaries of the last modulus."""
  Q = math.prod(qs)
  ql = qs[-1]
  def v():
    base = rng.choice([0, Q - 1, Q // 2, Q // 2 + 1, rng.randrange(Q)])
    m = rng.choice([0, 1, ql - 1, ql // 2, ql // 2 + 1, (ql + 1) // 2, rng.randrange(ql)])
    return (base - base % ql + m) % Q
  return mk_ct(np.stack([poly_of_values([v() for _ in range(n)], qs) for _ in range(k)]), qs)


SHAPES = {2: [(2, 1), (1, 2)], 4: [(2, 2), (4, 1)], 8: [(4, 2), (2, 4), (8, 1), (1, 8)],
          16: [(4, 4), (8, 2), (2, 8), (16, 1), (1, 16)], 32: [(8, 4), (4, 8), (16, 2)],
          64: [(8, 8), (16, 4), (2, 32)], 128: [(16, 8), (8, 16)], 256: [(16, 16)], 512: [(32, 16)],
          1024: [(32, 32)]}


def again(first, shapes, dnum, top, p, n, q):
  """Parameters of the second set-up in one program: same moduli, another
  layout, another partitioning and (sometimes) other auxiliary moduli, so that
  nothing remembered from the first set-up may be used for the second."""
  r, c = rng.choice([sh for sh in shapes if sh != first] or shapes)
  dnum = rng.choice([d for d in range(1, top + 1) if d != dnum] or [dnum])
  if rng.random() < 0.5:
    p = [x for x in rand_primes(2 * n, len(p) + len(q) + len(p), 22, 31) if x not in q and x not in p][:len(p)]
  return r, c, dnum, p


def source(noise, seed=None):
  if noise == "zero":
    return ckks_random.ZeroNoiseRandomSource(), 0
  if noise == "secure":
    return None, E_NOISE
  return ckks_random.TestRandomSource(rng.randrange(1 << 30) if seed is None else seed), E_NOISE


# ------------------------------------------------------------ P12
VB = 44


def dy(x):
  """float -> numeral scaled by 2^VB (floor)."""
  return z(math.floor(fractions.Fraction(float(x)) * (1 << VB)))


def cplx(c):
  return [dy(c.real), dy(c.imag)]


def rand_slot(mag, bits=20):
  def comp():
    k = rng.random()
    if k < 0.15:
      return 0.0
    if k < 0.3:
      return float(rng.choice([-mag, mag]))
    m = mag * (1 << bits)
    return rng.randint(-m, m) / (1 << bits)
  return complex(comp(), comp())


def do_encode(n, qs, sc, v):
  w = psis(n, qs)
  en = encode.Encode(n, qs, sc)
  pt = en.encode(list(v))
  zsc = z(fractions.Fraction(sc).numerator // fractions.Fraction(sc).denominator)
  R.emit("encode", n=n, qs=qs, w=w, sc=zsc, vb=VB, v=[cplx(complex(c)) for c in v], pt=limbs(pt.data), mo=mods(pt.moduli))
  num = rng.randrange(1, n // 2 + 1)
  for m in (n // 2, num):
    d = encode.Decode(sc, m).decode(pt, is_slot_form=True)
    R.emit("roundtrip", n=n, sc=zsc, vb=VB, v=[cplx(complex(c)) for c in v][:m], out=[cplx(c) for c in d])
  # coefficient-form decode of the same plaintext, and of arbitrary polynomials
  return pt


def do_decode(n, qs, sc, mag):
  Q = math.prod(qs)
  a = [rng.choice([0, mag, -mag, rng.randint(-mag, mag)]) for _ in range(n)]
  a = [max(-(Q // 2), min(Q // 2, x)) for x in a]
  co = np.array([[x % q for q in qs] for x in a], dtype=np.uint64)
  num = rng.choice([n // 2, rng.randrange(1, n // 2 + 1)])
  slot_form = rng.random() < 0.5
  data = ntt_cpu.ntt_negacyclic_poly(co, qs) if slot_form else co
  d = encode.Decode(sc, num).decode(mk_pt(data, qs), is_slot_form=slot_form)
  R.emit("decode", qs=qs, sc=z(int(sc)), vb=VB, num=num, a=zl(a), out=[cplx(c) for c in d], slot_form=slot_form)


def p12():
  todo = []
  for n in (2, 4, 8, 16, 32) + ((64, 256) if R.thorough else (64,)):
    for rep in range((14 if R.thorough else 4) if n <= 32 else 1):
      todo.append((n, rep))
  for n, rep in R.mine(todo):
    for t in range(5):
      def body():
        nq = rng.randrange(1, 6)
        qs = rand_primes(2 * n, nq, 24 if nq < 4 else 29, 31)
        sc = float(rng.choice([1 << 20, 1 << 18, 3 << 15, 1000003, (1 << 30) - 1] + ([1 << 40, 1 << 50] if nq >= 3 else [])
                              + ([1 << 62, 1 << 63, 1 << 70, 1 << 90] if nq >= 4 else [])))
        Q = math.prod(qs)
        mag = 1
        while mag < 64 and 4 * mag * 2 * sc * n < Q and rng.random() < 0.6:
          mag *= 2
        if 4 * mag * sc * n > Q:
          sc = float(1 << max(1, Q.bit_length() - 6 - n.bit_length()))
        nh = n // 2
        ln = rng.choice([nh, nh, rng.randrange(0, nh + 1), 1, nh - 1 if nh > 1 else nh])
        style = rng.randrange(5)
        if style == 0:   # unit vectors: every slot position is visited
          v = [0j] * ln
          if ln:
            v[rng.randrange(ln)] = rng.choice([1, -1, 1j, -1j, complex(1, 1)]) * mag
        elif style == 1:
          v = [complex(mag, 0)] * ln
        else:
          v = [rand_slot(mag) for _ in range(ln)]
        do_encode(n, qs, sc, v)
        do_decode(n, qs, sc, int(min(mag * sc, Q // 2)))
        do_decode(n, qs, sc, Q // 2)
      R.guard("encode/decode", body)
  if R.shard == 0:
    # additivity and products are consequences of the embedding: check them on
    # sums / products computed by the real transform
    for _ in range(6):
      def body2():
        n = rng.choice([4, 8, 16])
        qs = rand_primes(2 * n, 3, 28, 31)
        sc = float(1 << 20)
        u = [rand_slot(4) for _ in range(n // 2)]
        v = [rand_slot(4) for _ in range(n // 2)]
        en = encode.Encode(n, qs, sc)
        pu, pv = en.encode(u), en.encode(v)
        q = np.array(qs, dtype=np.uint64)
        a, b = np.asarray(pu.data).astype(np.uint64), np.asarray(pv.data).astype(np.uint64)
        prod = mk_pt(a * b % q, qs)
        d = encode.Decode(sc * sc, n // 2).decode(prod, is_slot_form=True)
        R.emit("roundtrip", n=64 * n, sc=z(int(sc)), vb=VB, v=[cplx(x * y) for x, y in zip(u, v)], out=[cplx(c) for c in d])
        s = mk_pt((a + b) % q, qs)
        d = encode.Decode(sc, n // 2).decode(s, is_slot_form=True)
        R.emit("roundtrip", n=2 * n, sc=z(int(sc)), vb=VB, v=[cplx(x + y) for x, y in zip(u, v)], out=[cplx(c) for c in d])
        cj = mk_pt(np.asarray(jnp.flip(pu.data, axis=0)), qs)
        d = encode.Decode(sc, n // 2).decode(cj, is_slot_form=True)
        R.emit("roundtrip", n=2 * n, sc=z(int(sc)), vb=VB, v=[cplx(x.conjugate()) for x in u], out=[cplx(c) for c in d])
      R.guard("embedding", body2)


# ------------------------------------------------------------ P13
def ev_keygen(n, qs, noise, hw=None, seed=None):
  rs, e = source(noise, seed)
  pk, sk = key_gen.keygen(n, qs, rs, hw)
  s = small_key(sk)
  R.emit("keygen", n=n, qs=qs, w=psis(n, qs), s=s, sk=limbs(sk.data), pk=limbs(pk.data),
         hw=-1 if hw is None else hw, E=e)
  return pk, sk, s, rs, e


def do_decrypt(ct, sk, s, n):
  qs = [int(x) for x in ct.moduli]
  out = encrypt.Decrypt(sk).decrypt(ct)
  R.emit("decrypt", qs=qs, w=psis(n, qs), s=s, ct=ctl(ct), out=limbs(out.data), mo=mods(out.moduli))


def p13():
  reps = 40 if R.thorough else 10
  for n in R.mine([2, 4, 8, 16, 32, 8, 16, 4]):
    for _ in range(reps):
      def body():
        L = rng.randrange(1, 5)
        qs = rand_primes(2 * n, L, rng.choice([13, 20, 28]), 31)
        noise = rng.choice(["test", "zero", "secure"])
        pk, sk, s, rs, e = ev_keygen(n, qs, noise, rng.choice([None, 0, 1, n // 2, n]))
        for ln in range(1, L + 1):
          pre = qs[:ln]
          pt = mk_pt(rand_res(n, pre), pre)
          ct = encrypt.Encrypt(pk).encrypt(pt, rs)
          R.emit("enc", qs=pre, w=psis(n, pre), s=s, E=e, pt=limbs(pt.data), ct=ctl(ct), mo=mods(ct.moduli))
          do_decrypt(ct, sk, s, n)
          do_decrypt(rand_ct(n, pre), sk, s, n)
        # moduli that are not a prefix are rejected
        other = rand_primes(2 * n, 1, 28, 31)[0]
        bads = [[other]]
        if L > 1:
          bads += [qs[1:], qs[::-1], qs[:-1] + [other]]
        bads += [qs + [other]]
        for bad in bads:
          if bad == qs[:len(bad)]:
            continue
          ok, _, _ = R.call(encrypt.Encrypt(pk).encrypt, mk_pt(rand_res(n, bad), bad), rs)
          R.emit("reject", what="encrypt with moduli that are not a prefix", ok=ok, qs=bad)
          ok, _, _ = R.call(encrypt.Decrypt(sk).decrypt, rand_ct(n, bad))
          R.emit("reject", what="decrypt with moduli that are not a prefix", ok=ok, qs=bad)
        # extension to more moduli keeps the key
        ext = [q for q in rand_primes(2 * n, 3, 20, 31) if q not in qs]
        sk2 = key_gen.extend_secret_key(sk, qs + ext)
        R.emit("extend", qs=qs + ext, w=psis(n, qs + ext), s=s, sk=limbs(sk2.data))
        if L > 1:
          ok, _, _ = R.call(key_gen.extend_secret_key, sk, qs[::-1] + ext)
          R.emit("reject", what="extension to moduli that do not start with the key moduli", ok=ok)
      R.guard("encrypt", body)
  if R.shard == 0:
    for _ in range(60 if R.thorough else 20):
      def adds():
        M = rng.randrange(1, 6)
        ms = [rng.choice([2**31 - 1, 2**30, 2**31 - 2, 2, 3, 97, 536903681, rng.randrange(2, 2**31)]) for _ in range(M)]
        shape = rng.choice([(M,), (3, M), (2, 3, M)])
        cnt = int(np.prod(shape)) // M
        pick = lambda m: rng.choice([0, m - 1, m // 2, (m + 1) // 2, rng.randrange(m), 1 % m])
        a = np.array([[pick(m) for m in ms] for _ in range(cnt)], dtype=np.uint32).reshape(shape)
        b = np.array([[pick(m) for m in ms] for _ in range(cnt)], dtype=np.uint32).reshape(shape)
        mm = zl(np.broadcast_to(np.array(ms, dtype=np.uint64), shape).ravel())
        o = ckks_add.AddModularSubtract(ms).add(jnp.array(a), jnp.array(b))
        R.emit("add", kind="subtract", a=zl(a.ravel()), b=zl(b.ravel()), m=mm, out=zl(np.asarray(o).ravel()))
        o = ckks_add.AddSimple().add(jnp.array(a), jnp.array(b))
        R.emit("add", kind="simple", a=zl(a.ravel()), b=zl(b.ravel()), m=mm, out=zl(np.asarray(o).ravel()))
        kb = ckks_add.AddModularBarrett(barrett.precompute_barrett_constants(ms))
        if all(m > 2 for m in ms):
          o = kb.add(jnp.array(a), jnp.array(b))
          R.emit("add", kind="barrett", a=zl(a.ravel()), b=zl(b.ravel()), m=mm, out=zl(np.asarray(o).ravel()))
        # unreduced operands whose sum stays below m^2
        a64 = np.array([[rng.randrange(m * m // 2) for m in ms] for _ in range(cnt)], dtype=np.uint64).reshape(shape)
        b64 = np.array([[m * m - 1 - m * m // 2 for m in ms] for _ in range(cnt)], dtype=np.uint64).reshape(shape)
        o = kb.add(jnp.array(a64), jnp.array(b64))
        R.emit("add", kind="barrett", a=zl(a64.ravel()), b=zl(b64.ravel()), m=mm, out=zl(np.asarray(o).ravel()))
      R.guard("add", adds)


# ------------------------------------------------------------ P14
def emit_ntt(kind, d, x, out, qs, n, r, c):
  for m, q in enumerate(qs):
    R.emit("ntt", kind=kind, dir=d, q=q, w=psi(n, q), x=i32(x[:, m]), out=i32(out[:, m]), r=r, c=c)


def p14():
  todo = []
  for n, shapes in SHAPES.items():
    if n > (1024 if R.thorough else 256):
      continue
    for (r, c) in shapes:
      todo.append((n, r, c))
  for n, r, c in R.mine(todo):
    def body():
      lo = max(1020 * max(r, c) + 1, 2 * n)
      lb = lo.bit_length()
      qs = primes(2 * n, [31, 31, -min(lb, 28), -29, -30]) + [q for q in SPECIAL if (q - 1) % (2 * n) == 0]
      qs += [q for q in rand_primes(2 * n, 3, lb, 31) if q not in qs]
      if R.thorough:
        qs += [q for q in rand_primes(2 * n, 12, lb, 31) if q not in qs]
      qs = list(dict.fromkeys(qs))
      k = ntt.NTTBarrett()
      k.precompute_constants(qs, r, c)
      for t in range(3 if n > 64 else 6):
        x = rand_res(n, qs, EDGE[t % 4])
        B = rng.choice([(), (1,), (2,)])
        xs = [x] + [rand_res(n, qs) for _ in range((B[0] if B else 1) - 1)]
        arr = np.stack(xs).astype(np.uint32).reshape(B + (r, c, len(qs)))
        f = np.asarray(k.ntt(jnp.array(arr))).reshape(-1, n, len(qs))
        g = np.asarray(k.intt(jnp.array(arr))).reshape(-1, n, len(qs))
        for j, xx in enumerate(xs):
          emit_ntt("kernel", "fwd", xx, f[j], qs, n, r, c)
          emit_ntt("kernel", "inv", xx, g[j], qs, n, r, c)
        if n <= 64 or t == 0:
          emit_ntt("cpu", "fwd", x, ntt_cpu.ntt_negacyclic_poly(x, qs), qs, n, r, c)
          emit_ntt("cpu", "inv", x, ntt_cpu.intt_negacyclic_poly(x, qs), qs, n, r, c)
          m = rng.randrange(len(qs))
          q = qs[m]
          nat = ntt_cpu.ntt_negacyclic_bit_reverse(x[:, m], q, psi(n, q))
          R.emit("nttnat", q=q, w=psi(n, q), x=i32(x[:, m]), out=i32(nat.astype(np.int64)))
          back = ntt_cpu.intt_negacyclic_bit_reverse(nat, q, psi(n, q))
          R.emit("nttnat", q=q, w=psi(n, q), x=i32(np.asarray(back).astype(np.int64)), out=i32(nat.astype(np.int64)))
      # sliced constants, by slice and by index array
      for sel in (slice(0, 2), slice(1, len(qs)), slice(len(qs) - 1, len(qs)),
                  np.array(rng.sample(range(len(qs)), 2)), np.array([len(qs) - 1, 0])):
        sub = [qs[i] for i in (range(*sel.indices(len(qs))) if isinstance(sel, slice) else sel)]
        kk = ntt.NTTBarrett()
        kk.constants = k.constants.slice_moduli(sel)
        x = rand_res(n, sub)
        arr = jnp.array(x.astype(np.uint32).reshape(r, c, len(sub)))
        emit_ntt("sliced", "fwd", x, np.asarray(kk.ntt(arr)).reshape(n, -1), sub, n, r, c)
        emit_ntt("sliced", "inv", x, np.asarray(kk.intt(arr)).reshape(n, -1), sub, n, r, c)
      for q in qs:
        R.emit("root", m=2 * n, q=q, out=int(ckks_math.root_of_unity(2 * n, q)))
        R.emit("root", m=n, q=q, out=int(ckks_math.root_of_unity(n, q))) if n >= 2 else None
      R.emit("brev", n=n, out=[int(t) for t in ckks_math.get_bit_reverse_perm(n)])
      ok, _, _ = R.call(ckks_math.root_of_unity, 2 * n, primes(4 * n, [20])[0] + 2)
      R.emit("reject", what="root order that does not divide q-1", ok=ok)
    R.guard("ntt", body)


  # one program transforming under the same moduli in every layout and degree,
  # with fresh kernels and with one kernel that is set up again and again
  for n in R.mine([16, 64, 8, 32]):
    def hist():
      qs = rand_primes(2 * n, 2, 28, 31)
      one = ntt.NTTBarrett()
      for r, c in SHAPES[n] + SHAPES[n // 2] + SHAPES[n][:2]:
        m = r * c
        kk = ntt.NTTBarrett()
        kk.precompute_constants(qs, r, c)
        one.precompute_constants(qs[:1] if c > r else qs, r, c)
        for k, sub in ((kk, qs), (one, qs[:1] if c > r else qs)):
          x = rand_res(m, sub)
          arr = jnp.array(x.astype(np.uint32).reshape(r, c, len(sub)))
          emit_ntt("kernel", "fwd", x, np.asarray(k.ntt(arr)).reshape(m, -1), sub, m, r, c)
          emit_ntt("kernel", "inv", x, np.asarray(k.intt(arr)).reshape(m, -1), sub, m, r, c)
        x = rand_res(m, qs)
        emit_ntt("cpu", "fwd", x, ntt_cpu.ntt_negacyclic_poly(x, qs), qs, m, r, c)
        emit_ntt("cpu", "inv", x, ntt_cpu.intt_negacyclic_poly(x, qs), qs, m, r, c)
    R.guard("ntt history", hist)


# ------------------------------------------------------------ P16
def p16():
  ms = [2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 97, 255, 256, 257, 65535, 65536, 65537, 2**29 + 1, 2**30 - 1, 2**30, 2**30 + 1,
        2**31 - 1, 2**31 - 2, 2147418113] + SPECIAL
  ms += [rng.randrange(1 << (b - 1), 1 << b) for b in range(2, 32) for _ in range(4 if R.thorough else 1)]
  ms += primes(64, [31, 31, 30, 30, 29, 28, 24, 20])
  ms += WEAK
  for m in R.mine([int(x) for x in ms if x >= 2]):
    def body():
      k = barrett.precompute_barrett_constants(m)
      if m <= 40:
        zs = list(range(m * m))
      else:
        zs = [0, 1, m - 1, m, m + 1, 2 * m - 1, 2 * m, m * m - 1, m * m - 2, (m - 1) * (m - 1), m * (m - 1), m * (m - 1) - 1,
              (1 << 32) - 1, 1 << 32, (1 << 32) + 1]
        for _ in range(60 if R.thorough else 24):
          t = rng.randrange(m)
          zs += [t * m, t * m + m - 1, max(0, t * m - 1), rng.randrange(m) * rng.randrange(m), (m - 1 - t % 64) * m + m - 1]
        zs = [x for x in zs if x < m * m]
      o = barrett.modular_reduction(jnp.array(zs, dtype=jnp.uint64).reshape(-1, 1), k)
      R.emit("barrett", m=z(m), z=zl(zs), out=zl(np.asarray(o).ravel()))
    R.guard("barrett", body)
  if R.shard == 0:
    def vec():
      mv = [int(x) for x in rng.sample(ms, 8)]
      k = barrett.precompute_barrett_constants(mv)
      zz = np.array([[m * m - 1 for m in mv], [rng.randrange(m * m) for m in mv]], dtype=np.uint64)
      o = np.asarray(barrett.modular_reduction(jnp.array(zz), k))
      for j, m in enumerate(mv):
        R.emit("barrett", m=z(m), z=zl(zz[:, j]), out=zl(o[:, j]))
      ks = k.slice(slice(2, 5))
      o = np.asarray(barrett.modular_reduction(jnp.array(zz[:, 2:5]), ks))
      for j, m in enumerate(mv[2:5]):
        R.emit("barrett", m=z(m), z=zl(zz[:, 2 + j]), out=zl(o[:, j]))
    R.guard("barrett", vec)
  shared = basis_conversion.BasisConversionBarrett()
  for it in R.mine(range(96 if R.thorough else 24)):
    def bc():
      n2 = 16
      L = rng.randrange(2, 8)
      style = rng.randrange(3)
      chain = rand_primes(n2, L, [14, 20, 28][style], 31) if style else [rng.choice(SPECIAL)] + rand_primes(n2, L - 1, 28, 31)
      chain = list(dict.fromkeys(chain))
      L = len(chain)
      pairs = []
      for _ in range(3):
        k = rng.randrange(1, L)
        idx = rng.sample(range(L), L)
        fr, to = idx[:k], idx[k:]
        if rng.random() < 0.3:
          to = to + fr[:1]
        pairs.append((fr, to))
      K = shared if rng.random() < 0.5 else basis_conversion.BasisConversionBarrett()
      K.precompute_constants(chain, pairs)
      for ci, (fr, to) in enumerate(pairs):
        fq, tq = [chain[i] for i in fr], [chain[i] for i in to]
        if min(tq) <= 1020 * len(fq):
          continue
        sh = rng.choice([(5,), (2, 3)])
        x = np.stack([rand_res(1, fq, rng.choice(EDGE))[0] for _ in range(int(np.prod(sh)))])
        xin = jnp.array(x.reshape(sh + (len(fq),)), dtype=rng.choice([jnp.uint32, jnp.uint64]))
        o = np.asarray(K.basis_change(xin, control_index=ci)).reshape(-1, len(tq))
        R.emit("bconv", qs=fq, pt=tq, x=i32(x), out=i32(o), ci=ci)
        if ci == 0:
          o = np.asarray(K.basis_change(xin)).reshape(-1, len(tq))
          R.emit("bconv", qs=fq, pt=tq, x=i32(x), out=i32(o), ci=-1)
        R.emit("qhat", qs=fq, pp=tq, inv=zl(rns_utils.compute_q_hat_inv_mod_q(fq)), hat=zl(rns_utils.compute_q_hat_mod_p(fq, tq)))
      k = rng.randrange(1, L + 1)
      rs = [[rng.choice([0, q - 1, rng.randrange(q)]) for _ in range(4)] for q in chain[:k]]
      R.emit("crt", qs=chain[:k], rs=zl(rs), out=zl(rns_utils.reconstruct_crt(rs, chain[:k])))
      # lifting a ciphertext
      n, r, c = rng.choice([(8, 4, 2), (8, 2, 4), (4, 2, 2)])
      qs = rand_primes(2 * n, 4, 20, 31)
      nq = rng.randrange(1, 4)
      q, p = qs[:nq], qs[nq:]
      K2 = basis_conversion.BasisConversionBarrett()
      K2.precompute_constants(qs, [(list(range(nq)), list(range(nq, 4)))])
      kq, kp = ntt.NTTBarrett(), ntt.NTTBarrett()
      kq.precompute_constants(q, r, c)
      kp.precompute_constants(p, r, c)
      ct = rand_ct(n, q)
      o = blind_rotate_utils.lift_ciphertext(ct, K2, 0, jnp.array(p, dtype=jnp.uint32), kq, kp, r, c)
      R.emit("lift", qs=q, pp=p, w=psis(n, q), wp=psis(n, p), ct=ctl(ct), out=ctl(o))
    R.guard("basis conversion", bc)


# moduli for which 2^s mod m is just below m: the Barrett constant is at its
# least forgiving
WEAK = [1824726041, 1937524009, 1574487853, 1302252409, 1000636849, 583550761, 950794993, 1112339099]


# ------------------------------------------------------------ P17
def do_rescale(ct, qs, num, n, r, c, kern=None):
  k = kern
  if k is None:
    k = rescale.Rescale()
    k.precompute_constants(qs, num, r, c)
  before = ctl(ct)
  k.rescale(ct)
  R.emit("rescale", qs=qs, w=psis(n, qs), num=num, ct=before, out=ctl(ct), mo=mods(ct.moduli))
  return k


def bits_chain(n2, kind):
  """chains of prime sizes in every order"""
  return primes(n2, kind)


CHAINS = [[28, 28], [24, 31], [31, 24], [28, 31], [20, 31, 30], [31, 20, 31], [30, 30, 30, 30], [31, 31, 20, 20],
          [20, 24, 28, 31], [31, 28, 24, 20], [-30, 31, -30], [16, 31, 16, 31], [29, 29, 29, 29, 29]]


def p17():
  todo = [(k, n) for k in CHAINS for n in (4, 8)] + [([30, 30, 31], 64), ([31, 24, 31], 32), ([24, 31], 2)]
  if R.thorough:
    todo += [(None, n) for n in (2, 4, 8, 16, 32, 64) for _ in range(20)]
  else:
    todo += [(None, n) for n in (4, 8, 16) for _ in range(2)]
  for kind, n in R.mine(todo):
    def body():
      r, c = rng.choice(SHAPES[n])
      if kind is None:
        qs = rand_primes(2 * n, rng.randrange(2, 6), 16, 31)
      else:
        qs = bits_chain(2 * n, kind)
      qs = [q for q in qs if q > 1020 * max(r, c)]
      if len(qs) < 2:
        return
      kern = None
      for num in range(1, len(qs)):
        # the same moduli in another layout; sometimes the kernel is set up again
        lay = [sh for sh in SHAPES[n] if min(qs) > 1020 * max(sh)]
        r, c = rng.choice(lay)
        if kern is not None and rng.random() < 0.5:
          kern.precompute_constants(qs, num, r, c)
        else:
          kern = None
        for t in range(2 if not R.thorough else 4):
          k = rng.choice([1, 2, 3])
          ct = edge_value_ct(n, qs, 2) if t % 2 == 0 else rand_ct(n, qs, 2)
          if k != 2 and t == 1:
            ct = rand_ct(n, qs, k)
          kern = do_rescale(ct, qs, num, n, r, c, kern)
      # repeated single rescales
      ct = edge_value_ct(n, qs)
      cur = list(qs)
      while len(cur) > 1:
        do_rescale(ct, cur, 1, n, r, c)
        cur = cur[:-1]
      ok, _, _ = R.call(rescale.Rescale().rescale, rand_ct(n, qs))
      R.emit("reject", what="rescale before constants are precomputed", ok=ok)
    R.guard("rescale", body)


# ------------------------------------------------------------ P18
def part_pairs(nq, np_, dnum):
  alpha = -(-nq // dnum)
  pairs = []
  for i in range(0, nq, alpha):
    fr = list(range(i, min(i + alpha, nq)))
    pairs.append((fr, [j for j in range(nq + np_) if j not in fr]))
  return pairs


class Ks:
  """Everything needed to switch keys at one level."""

  def __init__(self, n, r, c, q, p, dnum, offset=0):
    self.n, self.q, self.p, self.dnum = n, q, p, dnum
    self.sw = key_switching.KeySwitcher()
    self.sw.precompute_constants(list(q), list(p), dnum, r, c)
    self.bc = basis_conversion.BasisConversionBarrett()
    pairs = part_pairs(len(q), len(p), dnum)
    # the conversions this key switch needs may start anywhere in the kernel's list
    extra = [(list(range(len(q), len(q) + len(p))), list(range(len(q))))] * offset
    self.bc.precompute_constants(q + p, extra + pairs)
    self.off = offset
    self.mk = mul.MulPlaintextCiphertextBarrett(barrett.precompute_barrett_constants(q + p))
    self.pj = jnp.array(p, dtype=jnp.uint32)


def ev_ksk(key, src, s, q, p, dnum, n, e):
  R.emit("ksk", qs=q, pp=p, w=psis(n, q + p), dnum=dnum, a=limbs(key.a), b=limbs(key.b), mo=mods(key.moduli),
         src=limbs(src), s=s, E=e)


PARTS = [(1, 1, 1), (2, 3, 1), (3, 3, 1), (5, 3, 2), (2, 4, 2), (2, 1, 1), (2, 1, 2), (3, 1, 2), (3, 2, 3), (4, 1, 3), (4, 2, 2), (5, 2, 3), (5, 1, 4), (2, 1, 3), (4, 1, 4), (6, 2, 4)]


def p18():
  todo = [(pp, n) for pp in PARTS for n in (4, 8)] + [((3, 2, 2), 16), ((3, 1, 2), 2)]
  if R.thorough:
    todo = [(pp, n) for pp in PARTS for n in (2, 4, 8, 16, 32)]
  for (nq, np_, dn), n in R.mine(todo):
    def body():
      r, c = rng.choice(SHAPES[n])
      ch = rand_primes(2 * n, nq + np_, 22, 31)
      q, p = ch[:nq], ch[nq:]
      dnum = dn
      for noise in ("zero", "test"):
        if noise == "test":
          r, c, dnum, p = again((r, c), SHAPES[n], dnum, nq + 1, p, n, q)
        rs, e = source(noise)
        _, sk1 = key_gen.keygen(n, q, rs, rng.choice([None, 1, n]))
        _, sk2 = key_gen.keygen(n, q, rs, rng.choice([None, n // 2, n]))
        s2 = small_key(sk2)
        style = rng.randrange(3)
        if style == 0:
          src = sk1.data
          key = key_gen.gen_key_switching_key(sk1, sk2, q, p, dnum, rs)
        elif style == 1:
          src = (sk2.data * sk2.data) % np.array(q, dtype=np.uint64)
          key = key_gen.gen_evaluation_key(sk2, q, p, dnum, rs)
        else:
          src = sk1.data
          key = key_gen.gen_key_switching_key(sk1, sk2, q, p, dnum, rs, key_gen.extend_secret_key(sk2, q + p))
        ev_ksk(key, src, s2, q, p, dnum, n, e)
        k = Ks(n, r, c, q, p, dnum, rng.randrange(2))
        for _ in range(2 if not R.thorough else 5):
          ct = rand_ct(n, q)
          before = ctl(ct)
          o = k.sw.key_switch(ct, key, k.pj, k.bc, k.mk, k.off)
          R.emit("ks", qs=q, pp=p, w=psis(n, q + p), dnum=dnum, src=limbs(src), s=s2, E=e,
                 ct=before, out=ctl(o), mo=mods(o.moduli))
    R.guard("key switch", body)


# ------------------------------------------------------------ P19
def ev_ptmul(kern, kind, ct, pt, qs):
  o = kern.mul(ct, pt)
  if kind == "simple":
    f = lambda a: zl(np.swapaxes(np.asarray(a), -1, -2))
    R.emit("ptmul", kind=kind, qs=qs, ct=f(ct.data), pt=f(pt.data), out=f(o.data), mo=mods(o.moduli))
  else:
    R.emit("ptmul", kind=kind, qs=qs, ct=ctl(ct), pt=limbs(pt.data), out=ctl(o), mo=mods(o.moduli))
  return o


def ev_tensor(m, a, b, qs):
  o = m.tensor_multiply(a, b)
  R.emit("tensor", qs=qs, a=ctl(a), b=ctl(b), out=ctl(o), mo=mods(o.moduli))
  return o


def ev_relin(m, t, key, n, q, p, dnum, s, e):
  o = m.relinearize(t, key)
  R.emit("relin", qs=q, pp=p, w=psis(n, q), dnum=dnum, s=s, E=e, ct=ctl(t), out=ctl(o), mo=mods(o.moduli))
  return o


def p19():
  todo = [(pp, n, cd) for pp in [(1, 1, 1), (2, 1, 1), (2, 2, 2), (3, 1, 2), (3, 2, 3), (4, 1, 3), (5, 2, 3), (3, 3, 1), (5, 3, 2)]
          for n in ((4, 8) if not R.thorough else (2, 4, 8, 16, 32)) for cd in (1, 2)]
  for (nq, np_, dn), n, cd in R.mine(todo):
    def body():
      dnum = dn
      r, c = rng.choice(SHAPES[n])
      ch = rand_primes(2 * n, nq + cd + np_, 22, 31)
      full, p = ch[:nq + cd], ch[nq + cd:]
      q = full[:nq]
      m = mul.Mul()
      m.precompute_constants(full, p, dnum, r, c, cd)
      for noise in ("zero", "test"):
        if noise == "test":
          r, c, dnum, p = again((r, c), SHAPES[n], dnum, nq + 1, p, n, full)
          m = rng.choice([m, mul.Mul()])
          m.precompute_constants(full, p, dnum, r, c, cd)
        rs, e = source(noise)
        pk, sk = key_gen.keygen(n, q, rs, rng.choice([None, 1, n]))
        s = small_key(sk)
        key = key_gen.gen_evaluation_key(sk, q, p, dnum, rs)
        for t in range(2):
          if t == 0:
            a, b = rand_ct(n, q), rand_ct(n, q)
          else:
            a = encrypt.Encrypt(pk).encrypt(mk_pt(poly_of_values([rng.randint(-50, 50) for _ in range(n)], q), q), rs)
            b = a
          o = ev_tensor(m, a, b, q)
          ev_relin(m, o, key, n, q, p, dnum, s, e)
          ev_relin(m, rand_ct(n, q, 3), key, n, q, p, dnum, s, e)
      kb = mul.MulPlaintextCiphertextBarrett(barrett.precompute_barrett_constants(q))
      for k in (1, 2, 3):
        ev_ptmul(kb, "barrett", rand_ct(n, q, k), mk_pt(rand_res(n, q), q), q)
      ev_ptmul(kb, "barrett", mk_ct(np.stack([rand_res(n, q, "max")] * 2), q), mk_pt(rand_res(n, q, "max"), q), q)
      ks = mul.MulPlaintextCiphertextSimple()
      ct = types.Ciphertext(jnp.array(np.stack([rand_res(n, q), rand_res(n, q)]), dtype=jnp.uint64), jnp.array(q, dtype=jnp.uint32))
      pt = types.Plaintext(jnp.array(rand_res(n, q), dtype=jnp.uint64), jnp.array(q, dtype=jnp.uint32))
      ev_ptmul(ks, "simple", ct, pt, q)
      bad = q[:-1] + rand_primes(2 * n, 1, 20, 31)
      for kk in (ks, kb):
        ok, _, _ = R.call(kk.mul, rand_ct(n, q), mk_pt(rand_res(n, bad), bad))
        R.emit("reject", what="plaintext and ciphertext moduli differ", ok=ok)
      big = mul.Mul()
      ok, _, _ = R.call(big.precompute_constants, [2**31 + 11] + full, p, dnum, r, c, cd)
      R.emit("reject", what="modulus of 2^31 or more", ok=ok)
      ok, _, _ = R.call(mul.Mul().relinearize, rand_ct(n, q, 3), key)
      R.emit("reject", what="relinearise before constants are precomputed", ok=ok)
    R.guard("multiply", body)


# ------------------------------------------------------------ P20
def do_conj(n, r, c, q, p, dnum, sk, s, key, e, cts, off=0):
  k = Ks(n, r, c, q, p, dnum, off)
  cj = conjugate.Conjugation()
  cj.precompute_constants(list(q), list(p), dnum, r, c)
  rk = rescale.Rescale()
  rk.precompute_constants(q + p, len(p), r, c)
  outs = []
  for ct in cts:
    before = ctl(ct)
    o = cj.conjugate(ct, key, k.pj, k.bc, k.mk, rk, k.off)
    R.emit("conj", qs=q, pp=p, w=psis(n, q), dnum=dnum, s=s, E=e, ct=before, out=ctl(o), mo=mods(o.moduli))
    outs.append(o)
  return outs


def p20():
  todo = [(pp, n) for pp in PARTS for n in ((4, 8) if not R.thorough else (2, 4, 8, 16, 32))]
  for (nq, np_, dn), n in R.mine(todo):
    def body():
      r, c = rng.choice(SHAPES[n])
      ch = rand_primes(2 * n, nq + np_, 22, 31)
      q, p = ch[:nq], ch[nq:]
      dnum = dn
      for noise in ("zero", "test"):
        if noise == "test":
          r, c, dnum, p = again((r, c), SHAPES[n], dnum, nq + 1, p, n, q)
        rs, e = source(noise)
        pk, sk = key_gen.keygen(n, q, rs, rng.choice([None, 1, n]))
        s = small_key(sk)
        key = key_gen.gen_conjugate_key(sk, q, p, dnum, rs)
        w = psis(n, q)
        sconj = [s[0]] + [-s[n - k] for k in range(1, n)]
        src = np.array([[sum((sc % qm) * pow(w[m], (2 * rv + 1) * k, qm) for k, sc in enumerate(sconj)) % qm
                         for m, qm in enumerate(q)] for rv in ckks_math.get_bit_reverse_perm(n)], dtype=np.uint64)
        ev_ksk(key, src, s, q, p, dnum, n, e)
        pt = mk_pt(poly_of_values([rng.randint(-1000, 1000) for _ in range(n)], q), q)
        cts = [encrypt.Encrypt(pk).encrypt(pt, rs), rand_ct(n, q)]
        outs = do_conj(n, r, c, q, p, dnum, sk, s, key, e, cts, rng.randrange(2))
        do_conj(n, r, c, q, p, dnum, sk, s, key, e, outs[:1])  # conjugating twice
        do_decrypt(outs[0], sk, s, n)
    R.guard("conjugate", body)


# ------------------------------------------------------------ P21
def ev_hmuxkey(h, beta, j, s, q, p, n, e):
  R.emit("hmuxkey", qs=q, pp=p, w=psis(n, q + p), s=s, E=e, beta=beta, j=j, key0=ctl(h.key0), key1=ctl(h.key1))


def p21():
  todo = [(n, nq, np_) for n in ((4, 8, 16) if not R.thorough else (2, 4, 8, 16, 32)) for nq in (1, 2, 3) for np_ in (nq, nq + 1)]
  for n, nq, np_ in R.mine(todo):
    def body():
      r, c = rng.choice(SHAPES[n])
      ch = rand_primes(2 * n, nq + np_, 26, 31)
      q, p = ch[:nq], ch[nq:]
      pj = jnp.array(p, dtype=jnp.uint32)
      B = blind_rotate.BlindRotation()
      B.precompute_constants(list(q), list(p), 1, r, c, num_rescales=np_)
      for g in ([2 * n - 1, 1, 5] + [rng.randrange(1, 2 * n, 2) for _ in range(3)]):
        x = np.stack([rand_res(n, q), rand_res(n, q)])
        o = blind_rotate_utils.apply_automorphism_ntt(jnp.array(x), g)
        R.emit("aut", qs=q, w=psis(n, q), g=g, x=limbs(x), out=limbs(o))
      for noise in ("zero", "test"):
        if noise == "test":
          r, c = rng.choice([sh for sh in SHAPES[n] if sh != (r, c)])
          if rng.random() < 0.5:
            p = [x for x in rand_primes(2 * n, 2 * np_ + nq, 26, 31) if x not in q and x not in p][:np_]
            pj = jnp.array(p, dtype=jnp.uint32)
          B = rng.choice([B, blind_rotate.BlindRotation()])
          B.precompute_constants(list(q), list(p), 1, r, c, num_rescales=np_)
        rs, e = source(noise)
        pk, sk = key_gen.keygen(n, q, rs, rng.choice([None, 1, n]))
        s = small_key(sk)
        pt = mk_pt(poly_of_values([rng.randint(-1000, 1000) for _ in range(n)], q), q)
        ct = encrypt.Encrypt(pk).encrypt(pt, rs)
        for _ in range(2):
          beta, j = rng.randrange(2), rng.choice([0, 1, rng.randrange(n), n // 2])
          h = key_gen.gen_hmuxrot_key(sk, beta, j, list(q), list(p), rs)
          ev_hmuxkey(h, beta, j, s, q, p, n, e)
          for cc in (ct, rand_ct(n, q)):
            before = ctl(cc)
            o = B.hmuxrot(cc, h, j, pj)
            R.emit("hmux", qs=q, pp=p, w=psis(n, q), s=s, E=e, beta=beta, j=j, ct=before, out=ctl(o), mo=mods(o.moduli))
        for _ in range(2):
          bits = [rng.randrange(2) for _ in range(rng.randrange(0, 4))]
          stride = rng.choice([1, 1, 2, 3])
          mk = key_gen.gen_mux_rotation_key(sk, bits, list(q), list(p), stride, rs)
          for kk, (h0, h1) in enumerate(mk.keys):
            ev_hmuxkey(h0, bits[kk], (2**kk) * stride, s, q, p, n, e)
            ev_hmuxkey(h1, 1 - bits[kk], 0, s, q, p, n, e)
          before = ctl(ct)
          o = B.brot_mux(ct, mk, pj, stride=stride)
          R.emit("mux", qs=q, pp=p, w=psis(n, q), s=s, E=e, bits=bits, stride=stride, ct=before, out=ctl(o), mo=mods(o.moduli))
    R.guard("blind rotation", body)
  for n, nq in R.mine([(4, 2), (8, 2), (8, 3), (4, 3), (16, 2)]):
    def cm():
      r, c = rng.choice(SHAPES[n])
      q = rand_primes(2 * n, nq, 26, 31)
      rs, e = source("secure")
      pk, sk = key_gen.keygen(n, q, rs)
      s = small_key(sk)
      sc = float(1 << 20)
      cnt = min(n // 2, rng.randrange(2, 5))
      keys = key_gen.gen_cm_keys(list(range(cnt)), pk, sc)
      R.emit("cmkeys", qs=q, w=psis(n, q), s=s, E=e, sc=z(int(sc)), keys=[[ctl(keys[i, j]) for j in range(cnt)] for i in range(cnt)])
      num = rng.randrange(1, nq)
      # the column method runs over the chain itself: the kernel is set up with
      # the dropped moduli as auxiliary limbs
      B = blind_rotate.BlindRotation()
      B.precompute_constants(list(q[:nq - num]), list(q[nq - num:]), 1, r, c, num_rescales=num)
      for j in range(cnt):
        pts = [mk_pt(rand_res(n, q), q) for _ in range(cnt)]
        o = B.brot_cm(list(keys[j]), pts)
        R.emit("cm", qs=q, w=psis(n, q), s=s, num=num, cts=[ctl(x) for x in keys[j]], pts=[limbs(x.data) for x in pts],
               out=ctl(o), mo=mods(o.moduli))
      ok, _, _ = R.call(B.brot_cm, list(keys[0]), pts[:-1])
      R.emit("reject", what="column key and plaintext lists differ in length", ok=ok)
    R.guard("column method", cm)


# ------------------------------------------------------------ P22
def _dig(*arrs):
  """Digest of everything a kernel was given (to show it was left alone)."""
  h = hashlib.sha256()
  for a in arrs:
    a = np.asarray(a)
    h.update(repr((a.shape, str(a.dtype))).encode())
    h.update(np.ascontiguousarray(a).tobytes())
  return h.hexdigest()


class KWorld:
  """Fixed moduli, keys and arguments; kernels of every kind at three levels."""
  JIT = ("ntt", "intt", "bconv", "rescale", "tensor", "relin", "addb", "adds")

  def __init__(self, n, r, c):
    self.n, self.r, self.c = n, r, c
    ch = rand_primes(2 * n, 8, 26, 31)
    self.q, self.p = ch[:4], ch[4:]
    self.src = ckks_random.TestRandomSource(rng.randrange(1 << 30))
    self.pk, self.sk = key_gen.keygen(n, self.q, self.src, n // 2)
    _, self.sk2 = key_gen.keygen(n, self.q, self.src, n)
    self.args, self.keys, self.jitted = {}, {}, {}

  def lv(self, lvl):
    return {1: (self.q[:2], 1, 1), 2: (self.q[:3], 2, 2), 3: (self.q[:4], 2, 1)}[lvl]

  def fresh(self, kind, lvl):
    if kind in ("ntt", "intt"):
      o = ntt.NTTBarrett()
    elif kind == "bconv":
      o = basis_conversion.BasisConversionBarrett()
    elif kind == "rescale":
      o = rescale.Rescale()
    elif kind in ("tensor", "relin"):
      o = mul.Mul()
    elif kind == "ksw":
      o = key_switching.KeySwitcher()
    elif kind == "conj":
      o = conjugate.Conjugation()
    elif kind in ("brot", "mux"):
      o = blind_rotate.BlindRotation()
    else:
      o = None
    return self.pre(kind, o, lvl)

  def pre(self, kind, o, lvl, sliced=False):
    """Sets o up for a level (returns the object to use from now on)."""
    q, dnum, num = self.lv(lvl)
    r, c, p = self.r, self.c, self.p[:2]
    if kind in ("ntt", "intt"):
      if sliced:
        o.precompute_constants(list(self.q), r, c)
        o.constants = o.constants.slice_moduli(slice(0, len(q)))
      else:
        o.precompute_constants(list(q), r, c)
    elif kind == "bconv":
      o.precompute_constants(list(q + p), part_pairs(len(q), 2, dnum) + [([len(q), len(q) + 1], list(range(len(q))))])
    elif kind == "rescale":
      o.precompute_constants(list(q), num, r, c)
    elif kind in ("tensor", "relin"):
      o.precompute_constants(list(q) + [self.p[3]], list(p), dnum, r, c, 1)
    elif kind in ("ksw", "conj"):
      o.precompute_constants(list(q), list(p), dnum, r, c)
    elif kind in ("brot", "mux"):
      o.precompute_constants(list(q), list(self.p), 1, r, c, num_rescales=len(self.p))
    elif kind == "addb":
      o = ckks_add.AddModularBarrett(barrett.precompute_barrett_constants(q))
    elif kind == "adds":
      o = ckks_add.AddModularSubtract(q)
    elif kind == "ptmul":
      o = mul.MulPlaintextCiphertextBarrett(barrett.precompute_barrett_constants(q))
    elif kind == "dec":
      o = encrypt.Decrypt(self.sk)
    elif kind == "enc":
      o = encrypt.Encrypt(self.pk)
    return o

  def key(self, what, lvl):
    if (what, lvl) not in self.keys:
      q, dnum, _ = self.lv(lvl)
      p = self.p[:2]
      mods_ = np.array(q, dtype=np.uint64)
      cut = lambda sk: types.SecretKey(sk.data[:, :len(q)], sk.moduli[:len(q)])
      if what == "evk":
        k = key_gen.gen_evaluation_key(cut(self.sk), list(q), list(p), dnum, self.src)
        k = mul.EvaluationKeys(jnp.array(k.a), jnp.array(k.b), jnp.array(k.moduli))
      elif what == "ksk":
        k = key_gen.gen_key_switching_key(cut(self.sk2), cut(self.sk), list(q), list(p), dnum, self.src)
      elif what == "cjk":
        k = key_gen.gen_conjugate_key(cut(self.sk), list(q), list(p), dnum, self.src)
      elif what == "hmr":
        k = key_gen.gen_hmuxrot_key(cut(self.sk), 1, 1, list(q), list(self.p), self.src)
      elif what == "mux":
        k = key_gen.gen_mux_rotation_key(cut(self.sk), [1, 0], list(q), list(self.p), 1, self.src)
      self.keys[(what, lvl)] = k
    return self.keys[(what, lvl)]

  def arg(self, kind, lvl, a):
    if (kind, lvl, a) not in self.args:
      q, dnum, _ = self.lv(lvl)
      n = self.n
      if kind in ("ntt", "intt"):
        v = jnp.array(rand_res(n, q).astype(np.uint32).reshape(self.r, self.c, len(q)))
      elif kind == "bconv":
        ci = a % (len(part_pairs(len(q), 2, dnum)) + 1)
        fr = (part_pairs(len(q), 2, dnum) + [([len(q), len(q) + 1], None)])[ci][0]
        v = (ci, jnp.array(rand_res(n, [(q + self.p[:2])[i] for i in fr]).astype(np.uint32)))
      elif kind in ("tensor", "addb", "adds"):
        v = (rand_ct(n, q), rand_ct(n, q))
      elif kind == "relin":
        v = rand_ct(n, q, 3)
      elif kind == "ptmul":
        v = (rand_ct(n, q), mk_pt(rand_res(n, q), q))
      elif kind == "enc":
        v = mk_pt(rand_res(n, q), q)
      else:
        v = rand_ct(n, q)
      self.args[(kind, lvl, a)] = v
    return self.args[(kind, lvl, a)]

  def inputs(self, kind, lvl, a):
    """Every array the application of this kind is given."""
    v = self.arg(kind, lvl, a)
    if kind == "bconv":
      v = v[1]
    extra = ()
    if kind == "relin":
      extra = self.key("evk", lvl)
      extra = (extra.a, extra.b, extra.moduli)
    elif kind in ("ksw", "conj"):
      extra = self.key("ksk" if kind == "ksw" else "cjk", lvl)
      extra = (extra.a, extra.b, extra.moduli)
    elif kind in ("brot", "mux"):
      extra = jax.tree_util.tree_leaves(self.key("hmr" if kind == "brot" else "mux", lvl))
    elif kind == "dec":
      extra = (self.sk.data, self.sk.moduli)
    elif kind == "enc":
      extra = (self.pk.data, self.pk.moduli)
    return jax.tree_util.tree_leaves(v) + list(extra)

  def call(self, kind, o, lvl, a, route):
    v = self.arg(kind, lvl, a)
    q, dnum, num = self.lv(lvl)
    P2 = jnp.array(self.p[:2], dtype=jnp.uint32)
    if kind == "ntt":
      f, args = (lambda k, x: k.ntt(x)), (v,)
    elif kind == "intt":
      f, args = (lambda k, x: k.intt(x)), (v,)
    elif kind == "bconv":
      ci = v[0]
      f, args = (lambda k, x: k.basis_change(x, control_index=ci)), (v[1],)
    elif kind == "rescale":
      def f(k, ct):
        k.rescale(ct)
        return ct
      args = (types.Ciphertext(v.data, v.moduli),)  # works in place: gets its own object
    elif kind == "tensor":
      f, args = (lambda k, x, y: k.tensor_multiply(x, y)), v
    elif kind == "relin":
      f, args = (lambda k, x, e: k.relinearize(x, e)), (v, self.key("evk", lvl))
    elif kind == "ksw":
      ks = Ks(self.n, self.r, self.c, q, self.p[:2], dnum)
      f, args = (lambda k, x, e: k.key_switch(x, e, P2, ks.bc, ks.mk, 0)), (v, self.key("ksk", lvl))
    elif kind == "conj":
      ks = Ks(self.n, self.r, self.c, q, self.p[:2], dnum)
      rk = rescale.Rescale()
      rk.precompute_constants(q + self.p[:2], 2, self.r, self.c)
      f, args = (lambda k, x, e: k.conjugate(x, e, P2, ks.bc, ks.mk, rk, 0)), (v, self.key("cjk", lvl))
    elif kind == "brot":
      PA = jnp.array(self.p, dtype=jnp.uint32)
      f, args = (lambda k, x, e: k.hmuxrot(x, e, 1, PA)), (v, self.key("hmr", lvl))
    elif kind == "mux":
      PA = jnp.array(self.p, dtype=jnp.uint32)
      f, args = (lambda k, x, e: k.brot_mux(x, e, PA)), (v, self.key("mux", lvl))
    elif kind in ("addb", "adds"):
      f, args = (lambda k, x, y: k.add(x, y)), (v[0].data, v[1].data)
    elif kind == "ptmul":
      f, args = (lambda k, x, y: k.mul(x, y)), v
    elif kind == "dec":
      f, args = (lambda k, x: k.decrypt(x)), (v,)
    elif kind == "enc":
      f, args = (lambda k, x: k.encrypt(x, ckks_random.TestRandomSource(5))), (v,)
    if route == "jit" and kind in self.JIT:
      key = (kind, v[0] if kind == "bconv" else 0)
      if key not in self.jitted:
        self.jitted[key] = jax.jit(f)
      out = self.jitted[key](o, *args)
    elif route == "closure" and kind in self.JIT:
      out = jax.jit(lambda *xs: f(o, *xs))(*args)
    else:
      out = f(o, *args)
    if hasattr(out, "moduli"):
      return [zl(np.asarray(out.data)), zl(np.asarray(out.moduli))]
    return [zl(np.asarray(out))]


def p22():
  for wi in range(6 if R.thorough else 1):
    n, (r, c) = rng.choice([(4, (2, 2)), (8, (4, 2)), (8, (2, 4))])
    W = KWorld(n, r, c)
    R.emit("forget")
    seen = set()
    for plan in [p for i, p in enumerate(R.mine(R.plans())) if i % (6 if R.thorough else 1) == wi]:
      slots, lvls = {}, {}

      def get(s, kind):
        if s not in slots:
          slots[s], lvls[s] = W.fresh(kind, 1), 1
        return slots[s]

      def body():
        for o in plan["ops"]:
          kind, s = o["k"], o["s"]
          get(s, kind)
          if o["op"] == "pre":
            slots[s] = W.pre(kind, slots[s], o["lvl"], sliced=rng.random() < 0.3)
            lvls[s] = o["lvl"]
          elif o["op"] == "tree":
            leaves, td = jax.tree_util.tree_flatten(slots[s])
            slots[o["d"]], lvls[o["d"]] = jax.tree_util.tree_unflatten(td, leaves), lvls[s]
          else:
            lvl, a = lvls[s], o["a"]
            key = f"{kind}/{lvl}/{a}"
            if key not in seen:
              seen.add(key)
              before = _dig(*W.inputs(kind, lvl, a))
              out = W.call(kind, W.fresh(kind, lvl), lvl, a, "eager")
              R.emit("apply", key=key, how="fresh kernel", out=out, before=before, after=_dig(*W.inputs(kind, lvl, a)))
            before = _dig(*W.inputs(kind, lvl, a))
            out = W.call(kind, slots[s], lvl, a, o["r"])
            R.emit("apply", key=key, how=o["r"], out=out, before=before, after=_dig(*W.inputs(kind, lvl, a)))
      R.guard("kernel history", body)


# ------------------------------------------------------------ P28
class Machine:
  """The kernels and keys a CKKS program needs, per level."""

  def __init__(self, n, nl, dnum, noise):
    self.n, self.dnum = n, dnum
    self.r, self.c = rng.choice(SHAPES[n])
    ch = rand_primes(2 * n, nl + 1, 23, 29)
    self.q, self.extra = ch[:nl], ch[nl]
    self.p = rand_primes(2 * n, nl, 29, 31)
    while set(self.p) & set(ch):
      self.p = rand_primes(2 * n, nl, 29, 31)
    self.rs, self.e = source(noise)
    self.pk, self.sk = key_gen.keygen(n, self.q, self.rs, rng.choice([None, 1, n]))
    self.s = small_key(self.sk)
    self.pj = jnp.array(self.p, dtype=jnp.uint32)
    self.lv = {}

  def at(self, v):
    if v in self.lv:
      return self.lv[v]
    q = self.q[:v]
    o = type("Lvl", (), {})()
    o.sk = types.SecretKey(self.sk.data[:, :v], self.sk.moduli[:v])
    o.mul = mul.Mul()
    o.mul.precompute_constants(q + [self.q[v] if v < len(self.q) else self.extra], self.p, self.dnum, self.r, self.c, 1)
    o.evk = key_gen.gen_evaluation_key(o.sk, q, self.p, self.dnum, self.rs)
    o.cjk = key_gen.gen_conjugate_key(o.sk, q, self.p, self.dnum, self.rs)
    o.ks = Ks(self.n, self.r, self.c, q, self.p, self.dnum)
    o.cj = conjugate.Conjugation()
    o.cj.precompute_constants(list(q), list(self.p), self.dnum, self.r, self.c)
    o.down = rescale.Rescale()
    o.down.precompute_constants(q + self.p, len(self.p), self.r, self.c)
    o.br = blind_rotate.BlindRotation()
    o.br.precompute_constants(list(q), list(self.p), 1, self.r, self.c, num_rescales=len(self.p))
    if v > 1:
      o.rescale = rescale.Rescale()
      o.rescale.precompute_constants(q, 1, self.r, self.c)
    o.adds = [ckks_add.AddModularSubtract(q), ckks_add.AddModularBarrett(barrett.precompute_barrett_constants(q))]
    o.pm = mul.MulPlaintextCiphertextBarrett(barrett.precompute_barrett_constants(q))
    self.lv[v] = o
    return o

  def plain(self, v, mag):
    """an encoded plaintext at level v: slots, or bare coefficients"""
    q = self.q[:v]
    if rng.randrange(2):
      return mk_pt(poly_of_values([rng.randint(-mag, mag) for _ in range(self.n)], q), q)
    vals = [complex(rng.uniform(-1, 1), rng.uniform(-1, 1)) for _ in range(self.n // 2)]
    return encode.Encode(self.n, q, float(mag)).encode(vals)


def run_prog(m, ops):
  n = m.n
  reg = {}
  R.emit("pbegin", qs=m.q, pp=m.p, w=psis(n, m.q), s=m.s, E=m.e, dnum=m.dnum, nregs=4)
  lvl = lambda ct: len(ct.moduli)
  for o in ops:
    op, d = o["op"], o["d"]
    a = o.get("a", d)
    b = o.get("b", a)
    ev = {}
    if op == "enc":
      pt = m.plain(o["lvl"], rng.choice([1, 50, 2**12, 2**20]))
      out = encrypt.Encrypt(m.pk).encrypt(pt, m.rs)
      ev = dict(lvl=o["lvl"], pt=limbs(pt.data))
    elif op == "rescale":
      out = reg[a]
      m.at(lvl(out)).rescale.rescale(out)
    else:
      x, y = reg[a], reg[b]
      k = m.at(lvl(x))
      if op == "add":
        out = types.Ciphertext(rng.choice(k.adds).add(x.data, y.data), x.moduli)
      elif op == "pmul":
        pt = m.plain(lvl(x), rng.choice([1, 3, 2**10]))
        out = k.pm.mul(x, pt)
        ev = dict(pt=limbs(pt.data))
      elif op == "tensor":
        out = k.mul.tensor_multiply(x, y)
      elif op == "relin":
        out = k.mul.relinearize(x, k.evk)
      elif op == "conj":
        out = k.cj.conjugate(x, k.cjk, m.pj, k.ks.bc, k.ks.mk, k.down, k.ks.off)
      elif op == "mux":
        j = rng.choice([0, 1, rng.randrange(n), n // 2])
        h = key_gen.gen_hmuxrot_key(k.sk, o["beta"], j, m.q[:lvl(x)], list(m.p), m.rs)
        out = k.br.hmuxrot(x, h, j, m.pj)
        ev = dict(j=j, beta=o["beta"])
    R.emit("pstep", op=op, d=d, a=a, b=b, out=ctl(out), mo=mods(out.moduli), **ev)
    reg[d] = out
  for d, ct in reg.items():
    R.emit("pdump", d=d, out=ctl(ct), mo=mods(ct.moduli))
    if ct.data.shape[0] == 2:
      o = encrypt.Decrypt(m.sk).decrypt(ct)
      R.emit("pdec", d=d, out=limbs(o.data), mo=mods(o.moduli))


def p28():
  n_mach = 2 if not R.thorough else 6
  plans = R.mine(R.plans())
  confs = [(4, 1), (8, 2), (8, 3), (16, 2), (4, 3), (2, 1), (16, 1), (8, 1)]
  for t in range(n_mach):
    n, dnum = confs[(R.shard + t * 3) % len(confs)]
    mine = plans[t::n_mach]
    if not mine:
      continue
    m = Machine(n, 3, dnum, "zero" if (R.shard + t) % 3 == 0 else "test")
    for plan in mine:
      R.guard("program", lambda: run_prog(m, plan["ops"]))


# ------------------------------------------------------------ P33
class Tap(ckks_random.TestRandomSource):
  """Writes down every draw."""
  depth = 0

  def _log(self, k, fn, *a, **kw):
    self.depth += 1
    v = fn(*a, **kw)
    self.depth -= 1
    if self.depth == 0:
      qs = [int(q) for q in (kw["moduli"] if "moduli" in kw else a[2] if k == "sparse" else a[1])]
      self.count = getattr(self, "count", 0) + 1
      R.emit("draw", id=self.count, k=k, qs=qs, v=limbs(v))
    return v

  def gen_gaussian_poly(self, *a, **kw):
    return self._log("gaussian", super().gen_gaussian_poly, *a, **kw)

  def gen_ternary_poly(self, *a, **kw):
    return self._log("ternary", super().gen_ternary_poly, *a, **kw)

  def gen_uniform_poly(self, *a, **kw):
    return self._log("uniform", super().gen_uniform_poly, *a, **kw)

  def gen_sparse_binary(self, *a, **kw):
    return self._log("sparse", super().gen_sparse_binary, *a, **kw)


def p33():
  for plan in R.mine(R.plans()):
    def body(plan=plan):
      n = rng.choice([8, 16])
      q = rand_primes(2 * n, rng.randrange(2, 5), 20, 28)
      p = rand_primes(2 * n, rng.randrange(1, 3), 29, 30)
      p = [x for x in p if x not in q] or primes(2 * n, [31])
      w, wa = psis(n, q), psis(n, q + p)
      src = Tap(rng.randrange(1 << 30))
      R.emit("open")
      pk, sk = key_gen.keygen(n, q, src)
      s = small_key(sk)
      R.emit("tpk", qs=q, w=w, s=s, pk=limbs(pk.data))
      common = dict(qs=q, pp=p, w=wa)
      for o in plan["ops"]:
        op = o["op"]
        if op == "keygen":
          hw = [None, 1, n // 2][o["hw"]]
          pk, sk = key_gen.keygen(n, q, src, hw)
          s = small_key(sk)
          R.emit("tpk", qs=q, w=w, s=s, pk=limbs(pk.data))
        elif op == "enc":
          pre = q[: max(1, len(q) + 1 - o["lev"])]
          pt = mk_pt(rand_res(n, pre), pre)
          ct = encrypt.Encrypt(pk).encrypt(pt, src)
          R.emit("tenc", qs=pre, w=psis(n, pre), s=s, pk=[x[: len(pre)] for x in limbs(pk.data)], pt=limbs(pt.data), ct=ctl(ct))
        elif op == "hmux":
          h = key_gen.gen_hmuxrot_key(sk, o["beta"], o["j"], q, p, src)
          R.emit("thm", s=s, beta=o["beta"], j=o["j"], key0=ctl(h.key0), key1=ctl(h.key1), **common)
        elif op == "mux":
          mk = key_gen.gen_mux_rotation_key(sk, o["bits"], q, p, random_source=src)
          for i, (x, y) in enumerate(mk.keys):
            R.emit("thm", s=s, beta=o["bits"][i], j=2**i, key0=ctl(x.key0), key1=ctl(x.key1), **common)
            R.emit("thm", s=s, beta=1 - o["bits"][i], j=0, key0=ctl(y.key0), key1=ctl(y.key1), **common)
        else:
          d = o["dnum"]
          if op == "ksk":
            other = types.SecretKey(rand_res(n, q).astype(np.uint64), np.array(q, dtype=np.uint64))
            key, sv = key_gen.gen_key_switching_key(other, sk, q, p, d, src), limbs(other.data)
          elif op == "relin":
            key = key_gen.gen_evaluation_key(sk, q, p, d, src)
            sv = limbs((np.asarray(sk.data).astype(np.uint64)**2) % np.array(q, dtype=np.uint64))
          else:
            key = key_gen.gen_conjugate_key(sk, q, p, d, src)
            sc = [s[0]] + [-x for x in reversed(s[1:])]  # s(X^-1)
            sv = limbs(poly_of_values(sc, q))
          R.emit("tksk", s=s, dnum=d, a=limbs(key.a), b=limbs(key.b), src=sv, **common)
    R.guard("tape", body)
  if R.shard:
    return

  def sources():
    n, q = 2048, primes(64, [31, 30, 20])
    for mk in (ckks_random.TestRandomSource, lambda seed: ckks_random.SecureRandomSource()):
      a = mk(3)
      g, t, u = a.gen_gaussian_poly(n, q), a.gen_ternary_poly(n, q), a.gen_uniform_poly(n, q)
      cen = lambda x: [int(v) - q[0] if v > q[0] // 2 else int(v) for v in x[:, 0]]
      hw = [(int(k), int(np.count_nonzero(a.gen_sparse_binary(n, k, q)[:, 0]))) for k in (0, 1, 64, n)]
      seeded = isinstance(a, ckks_random.TestRandomSource)
      d = lambda sd: ckks_random.TestRandomSource(sd).gen_uniform_poly(16, q).tobytes()
      # counts of values in the upper half, the upper quarter-pairs (second bit) and odd values
      half = lambda m: [int((u[:, m] > q[m] // 2).sum()), int(((u[:, m] * 4 // q[m]) % 2).sum()), int((u[:, m] % 2).sum())]
      R.emit("source", g=cen(g), t=cen(t), u=[half(m) for m in range(3)], hw=hw, same=not seeded or d(3) == d(3), differ=d(3) != d(4))
  R.guard("sources", sources)

  def unseeded():
    n = 64
    q, p = primes(2 * n, [28, 27]), primes(2 * n, [29])
    errs, masks, keys, cts = [], [], [], []
    for _ in range(4):
      pk, sk = key_gen.keygen(n, q)
      s = small_key(sk)
      keys.append(tuple(s))
      masks.append(np.asarray(pk.data[1]).tobytes())
      st = np.asarray(sk.data).astype(np.uint64)
      e = (np.asarray(pk.data[0]).astype(np.uint64) + np.asarray(pk.data[1]).astype(np.uint64) * st) % np.array(q, dtype=np.uint64)
      c = interp0([int(x) for x in e[:, 0]], q[0], psi(n, q[0]))
      errs += [x - q[0] if x > q[0] // 2 else x for x in c]
      pt = mk_pt(rand_res(n, q), q)
      for _ in range(3):
        ct = np.asarray(encrypt.Encrypt(pk).encrypt(pt).data)
        cts += [ct[0].tobytes(), ct[1].tobytes()]
      for x in (key_gen.gen_evaluation_key(sk, q, p, 2), key_gen.gen_conjugate_key(sk, q, p, 2)):
        masks += [np.asarray(a).tobytes() for a in x.a]
      h = key_gen.gen_hmuxrot_key(sk, 1, 1, q, p)
      masks += [np.asarray(h.key0.data[1]).tobytes(), np.asarray(h.key1.data[1]).tobytes()]
      cts += [np.asarray(y.data[1]).tobytes() for row in key_gen.gen_cm_keys([1, 0, 2], pk, 2.0**20) for y in row]
    for what, x in (("secret keys", keys), ("masks", masks), ("ciphertexts", cts)):
      R.emit("distinct", what=what, total=len(x), distinct=len(set(x)))
    R.emit("distinct", what="public key errors", total=0, distinct=0, err=errs)
  R.guard("unseeded", unseeded)


MODES = dict(p12=p12, p13=p13, p14=p14, p16=p16, p17=p17, p18=p18, p19=p19, p20=p20, p21=p21, p22=p22, p28=p28, p33=p33)
if __name__ == "__main__":
  MODES[R.mode]()
  R.close()
