"""Drives jaxite.jaxite_cggi and records every call (see spec/CggiTrace.tla)."""
import os
import rec
if "p07x" in os.sys.argv:
  os.environ["JAX_ENABLE_X64"] = "1"
R = rec.Rec()
if R.mode.endswith("tpu"):
  rec.emulate_tpu()
rec.setup_repo()
import jax  # pylint: disable=g-import-not-at-top
import jax.numpy as jnp
import numpy as np
from jaxite.jaxite_cggi import bootstrap, decomposition, encoding, key_switch, lwe
from jaxite.jaxite_cggi import matrix_utils, parameters, polymul_kernel, random_source
from jaxite.jaxite_cggi import rgsw, rlwe, test_polynomial

rng = R.rng
s32, v32, z, zl = rec.s32, rec.v32, rec.z, rec.zl
EDGE = [0, 1, 2, 0x7F, 0x80, 0xFF, 0x7FFF, 0x8000, 0xFFFF, 0x10000, 0x7FFFFFFF, 0x80000000,
        0x80000001, 0xFFFFFFFE, 0xFFFFFFFF, 0xAAAAAAAA, 0x55555555, 0x88888888, 0x77777777,
        0xF8F8F8F8, 0x7F800000, 0x00FF00FF, 0xFFFF0000]


def word():
  """A 32-bit word, edge-biased."""
  c = rng.random()
  if c < 0.25:
    return rng.choice(EDGE)
  if c < 0.4:
    return (rng.choice([1, -1]) * (1 << rng.randrange(32)) + rng.choice([-1, 0, 1])) % 2**32
  if c < 0.5:  # digits at the carry boundary
    w = rng.choice([1, 2, 4, 8])
    v = 0
    for _ in range(32 // w):
      v = (v << w) | rng.choice([0, (1 << w) - 1, 1 << (w - 1), (1 << (w - 1)) - 1 if w > 1 else 0])
    return v
  return rng.getrandbits(32)


def words(*shape):
  return np.array([word() for _ in range(int(np.prod(shape)))], dtype=np.uint64).astype(np.uint32).reshape(shape)


def U(a):
  return jnp.asarray(np.asarray(a, dtype=np.uint32))


class Src(random_source.RandomSource):
  """Edge-biased masks, noise of exactly known magnitude, everything recorded."""

  def __init__(self, amp=0, edge=True):
    self.amp, self.edge = amp, edge
    self.u, self.g = [], []

  def uniform(self, shape=(1,), dtype=jnp.uint32):
    n = int(np.prod(shape)) if len(shape) else 1
    a = words(*shape) if (self.edge and n < 4096) else np.random.default_rng(
        rng.getrandbits(32)).integers(0, 2**32, size=shape, dtype=np.uint64).astype(np.uint32)
    self.u.append(a)
    return jnp.asarray(a, dtype=dtype)

  def rounded_normal(self, shape=(1,), dtype=jnp.uint32):
    n = int(np.prod(shape)) if len(shape) else 1
    a = np.array([rng.choice([-self.amp, self.amp, rng.randint(-self.amp, self.amp)]) for _ in range(n)],
                 dtype=np.int64).reshape(shape)
    self.g.append(a)
    return jnp.asarray(a.astype(np.uint32), dtype=dtype)

  def sk_uniform(self, shape=(1,), dtype=jnp.uint32):
    n = int(np.prod(shape)) if len(shape) else 1
    c = rng.random()
    if c < 0.12:
      a = np.zeros(n)
    elif c < 0.24:
      a = np.ones(n)
    else:
      a = np.array([rng.getrandbits(1) for _ in range(n)])
    return jnp.asarray(a.reshape(shape).astype(np.uint32), dtype=dtype)


def pdict(p):
  return dict(tot=p.total_bit_length, msg=p.message_bit_length, pad=p.padding_bit_length)


def N(q, t=None):
  return t or q


# ---------------------------------------------------------------- P04
def p04():
  shapes = [(32, 3, 1), (32, 3, 0), (32, 1, 0), (32, 1, 1), (32, 6, 1), (26, 14, 2), (32, 16, 2),
            (32, 8, 8), (32, 31, 0), (32, 30, 1), (32, 20, 11), (16, 4, 2), (8, 3, 1), (10, 4, 1),
            (5, 2, 1), (4, 3, 1), (2, 1, 1), (32, 2, 4), (31, 5, 1), (20, 7, 3), (12, 1, 9)]
  for _ in range(N(10, 120)):
    t = rng.choice([32, 32, 32, rng.randint(2, 32)])
    m = rng.randint(1, min(t, 31))
    shapes.append((t, m, rng.randint(0, min(t, 31) - m)))
  for (t, m, p) in R.mine(shapes):
    def one():
      ep = encoding.EncodingParameters(total_bit_length=t, message_bit_length=m, padding_bit_length=p)
      pd = pdict(ep)
      top = (1 << m) - 1
      err = t - m - p
      ms = sorted({0, 1, 2, top, top - 1, top // 2, top // 2 + 1, *(rng.randint(0, top) for _ in range(4))})
      ms = [x for x in ms if 0 <= x <= top and x < 2**31]
      for x in ms:
        ok, out, _ = R.call(encoding.encode, x, ep)
        R.emit("encode", p=pd, m=x, ok=ok, out=s32(out) if ok else 0)
      ok, out, _ = R.call(encoding.encode, U(ms), ep)
      if ok and np.asarray(out).shape == (len(ms),):
        for x, y in zip(ms, np.asarray(out)):
          R.emit("encode", p=pd, m=x, ok=True, out=s32(y))
      else:
        R.emit("encode", p=pd, m=ms[0], ok=False, out=0)
      if m <= 30:
        for x in (top + 1, top + 2, 2 * top + 2 if m < 30 else top + 3):
          ok, out, _ = R.call(encoding.encode, x, ep)
          R.emit("encode", p=pd, m=x, ok=ok, out=s32(out) if ok else 0)
        # one bad entry in an array must be enough
        ok, out, _ = R.call(encoding.encode, U([0, top + 1, 0]), ep)
        R.emit("encode", p=pd, m=top + 1, ok=ok, out=0)
        ok, out, _ = R.call(encoding.encode, -1, ep)
        R.emit("encode", p=pd, m=-1, ok=ok, out=0)
      half = (1 << err) // 2 if err else 0
      es = {0, 1, -1, half - 1, 1 - half, half // 2, -half // 2, rng.randint(-half, half)}
      es = [e for e in es if abs(e) < max(half, 1)]
      for x in ms:
        for e in rng.sample(es, min(len(es), N(4, 8))):
          v = ((x << err) + e) % 2**32
          pt = jnp.uint32(v)
          dec = encoding.decode(encoding.remove_noise(pt, ep), ep)
          R.emit("round", p=pd, m=x, err=e, x=s32(v), dec=z(dec), noise=int(encoding.extract_noise(pt, ep)))
      lim = 2**t
      xs = {0, 1, lim - 1, lim // 2, (lim // 2 - 1) % lim, half % lim, (half - 1) % lim, (half + 1) % lim, (lim - half) % lim,
            (lim - half - 1) % lim, *(word() % lim for _ in range(N(6, 20)))}
      for x in sorted(xs):
        pt = jnp.uint32(x)
        R.emit("decode", p=pd, x=s32(x), rm=s32(encoding.remove_noise(pt, ep)), dec=z(encoding.decode(pt, ep)),
               decpad=z(encoding.decode_without_removing_padding(pt, ep)), noise=int(encoding.extract_noise(pt, ep)))
      arr = sorted(xs)
      rm = np.asarray(encoding.remove_noise(U(arr), ep))
      for x, r in zip(arr, rm):
        pt = jnp.uint32(x)
        R.emit("decode", p=pd, x=s32(x), rm=s32(r), dec=z(encoding.decode(pt, ep)),
               decpad=z(encoding.decode_without_removing_padding(pt, ep)), noise=int(encoding.extract_noise(pt, ep)))
    R.guard("encoding", one)
  for (t, m, p) in [(0, 1, 0), (8, 0, 0), (8, 1, -1), (8, 5, 4), (32, 31, 2), (32, 33, 0), (4, 4, 1)]:
    ok, _, _ = R.call(encoding.EncodingParameters, t, m, p)
    R.emit("reject", what="encoding parameters", ok=ok)


# ---------------------------------------------------------------- P05
def p05():
  combos = [(lb, L) for lb in (1, 2, 4, 8, 16) for L in range(1, 32 // lb + 1)]
  for (lb, L) in R.mine(combos):
    def one():
      xs = EDGE + [word() for _ in range(N(60, 300))]
      B = 1 << lb
      # values with the digit pattern all-ones followed by a carry
      for i in range(0, 32 // lb):
        for low in (B // 2, B - 1, 0):
          v = 0
          for j in range(32 // lb):
            d = B - 1 if j == i else (low if j == i - 1 else rng.choice([0, B // 2 - 1 if B > 1 else 0]))
            v |= (d % B) << (j * lb)
          xs.append(v % 2**32)
      xs = [x % 2**32 for x in xs]
      out = decomposition.signed_decomposition_polynomial(U(xs), lb, L, 32)
      R.emit("sdec", x=v32(xs), lb=lb, L=L, digits=v32(out))
      xs2 = xs[:6] + xs[-10:]
      outs = [v32(decomposition.signed_decomposition(jnp.uint32(x), lb, L)) for x in xs2]
      R.emit("sdec", x=v32(xs2), lb=lb, L=L, digits=outs)
      k, n = rng.choice([(1, 4), (2, 8), (3, 2), (2, 5)])
      ct = words(k + 1, n)
      dp = decomposition.DecompositionParameters(log_base=lb, level_count=L)
      R.emit("decrlwe", ct=v32(ct), lb=lb, L=L, out=v32(decomposition.decompose_rlwe_ciphertext(U(ct), dp)))
      ds, outs, xs3 = [], [], xs[:8] + rng.sample(xs, 12)
      for x in xs3:
        d = decomposition.decompose(jnp.uint32(x), lb, L, 32)
        ds.append(np.asarray(d).astype(np.int64).tolist())
        outs.append(s32(decomposition.recompose(d, lb, 32)))
      R.emit("udec", x=v32(xs3), lb=lb, L=L, tot=32, digits=ds, out=outs)
      for x in (1, 0, word(), word()):
        R.emit("summands", x=s32(x), lb=lb, L=L, out=v32(decomposition.recomposition_summands(jnp.uint32(x), lb, L)))
    R.guard("decomposition", one)
  # one program using several parameter sets of the same shape, in alternation: a
  # compiled kernel must never answer for another decomposition
  for L, order in R.mine([(1, (4, 8, 4, 16, 2, 8)), (2, (8, 4, 16, 8, 1, 4)), (4, (4, 8, 2, 4, 1, 8)), (8, (4, 2, 4, 1, 2)), (3, (8, 2, 4, 8))]):
    def hist():
      ct = words(2, 4)
      for lb in order:
        dp = decomposition.DecompositionParameters(log_base=lb, level_count=L)
        R.emit("decrlwe", ct=v32(ct), lb=lb, L=L, out=v32(decomposition.decompose_rlwe_ciphertext(U(ct), dp)))
        xs = words(6)
        R.emit("sdec", x=v32(xs), lb=lb, L=L, digits=v32(decomposition.signed_decomposition_polynomial(U(xs), lb, L, 32)))
    R.guard("decomposition history", hist)
  # other widths of the unsigned decomposition
  for tot, lb, L in R.mine([(12, 4, 3), (12, 4, 2), (16, 4, 3), (16, 2, 5), (8, 2, 4), (20, 5, 3), (30, 3, 7), (32, 5, 6), (32, 10, 3)]):
    def two():
      ds, outs, xs = [], [], [word() % 2**tot for _ in range(24)] + [0, 2**tot - 1]
      for x in xs:
        d = decomposition.decompose(jnp.uint32(x), lb, L, tot)
        ds.append(np.asarray(d).astype(np.int64).tolist())
        outs.append(s32(decomposition.recompose(d, lb, tot)))
      R.emit("udec", x=v32(xs), lb=lb, L=L, tot=tot, digits=ds, out=outs)
    R.guard("decompose", two)
  for lb, L in R.mine([(4, 3), (2, 4), (4, 2), (1, 6), (3, 4), (8, 1), (2, 8), (8, 2)]):
    def three():
      n = rng.randint(1, 3)
      tot = lb * L
      dp = decomposition.DecompositionParameters(log_base=lb, level_count=L)
      mat = np.asarray(decomposition.gadget_matrix(dp, n, total_bit_length=tot), dtype=np.float64) * 2.0**tot
      assert np.all(mat == np.rint(mat))
      for _ in range(6):
        v = [rng.choice([0, 1, 2**tot // 2 - 1, rng.randrange(2**tot // 2)]) for _ in range(n)]
        vec = jnp.array(np.array(v, dtype=np.float64) / 2.0**tot, dtype=jnp.float32)
        dg = decomposition.inverse_gadget(vec, dp, total_bit_length=tot)
        R.emit("gadget", n=n, lb=lb, L=L, v=v, mat=mat.astype(np.int64).tolist(), digits=np.asarray(dg).astype(np.int64).tolist())
    R.guard("gadget", three)
  ok, _, _ = R.call(decomposition.gadget_matrix, decomposition.DecompositionParameters(log_base=5, level_count=7), 2, 32)
  R.emit("reject", what="gadget base to the levels exceeding the modulus", ok=ok)


# ---------------------------------------------------------------- P06
def scheme(n, k, deg, lq=32):
  return parameters.SchemeParameters(lwe_dimension=n, plaintext_modulus=2**lq, rlwe_dimension=k,
                                     polynomial_modulus_degree=deg)


def rlwe_ct(msg, lq=32):
  return rlwe.RlweCiphertext(log_coefficient_modulus=lq, modulus_degree=int(np.asarray(msg).shape[-1]), message=U(msg))


def p06():
  for n in R.mine([1, 2, 3, 4, 5, 7, 8, 16, 33] + [64, 100]):
    def one():
      for lq in (32, 32, 16, 26):
        prg = Src(amp=rng.choice([0, 1, 5, 100]))
        sp = scheme(n, 1, 4, lq)
        sk = lwe.gen_key(sp, prg)
        R.emit("key", n=n, s=v32(sk.key_data))
        ep = encoding.EncodingParameters(total_bit_length=lq, message_bit_length=3, padding_bit_length=1)
        cts = []
        for m in (0, 7, rng.randrange(8), rng.randrange(8)):
          pt = int(encoding.encode(m, ep))
          prg.g.clear()
          ct = lwe.encrypt(jnp.uint32(pt), sk, prg)
          err = int(np.asarray(prg.g[-1]).ravel()[0])
          raw = lwe.decrypt_without_denoising(ct, sk)
          R.emit("lweenc", s=v32(sk.key_data), m=s32(pt), err=err, ct=v32(np.asarray(ct).ravel()), lq=lq, raw=s32(np.asarray(raw).ravel()[0]),
                 dec=s32(np.asarray(lwe.decrypt(ct, sk, ep)).ravel()[0]), p=pdict(ep))
          cts.append((np.asarray(ct).ravel(), s32(int(pt) + err)))
        if lq == 32:
          (c1, p1), (c2, p2) = rng.sample(cts, 2)
          k = rng.choice([2, 3, 5])
          comb = U(c1) * k + U(c2) - U(cts[0][0])
          want = s32(p1 * k + p2 - cts[0][1])
          R.emit("lwelin", s=v32(sk.key_data), ct=v32(comb), want=want, raw=s32(lwe.decrypt_without_denoising(comb, sk)))
          for m in (word(), 0):
            emb = lwe.noiseless_embedding(jnp.uint32(m), n)
            R.emit("embed", s=v32(sk.key_data), m=s32(m), ct=v32(emb))
    R.guard("lwe", one)
  for (k, deg) in R.mine([(1, 4), (2, 4), (1, 8), (3, 2), (2, 16), (1, 32)] + [(3, 16), (1, 64)]):
    def two():
      for lq in (32, 32, 20):
        prg = Src(amp=rng.choice([0, 1, 9]))
        sp = scheme(2, k, deg, lq)
        sk = rlwe.gen_key(sp, prg)
        R.emit("key", n=k * deg, s=v32(np.asarray(sk.data).reshape(-1)))
        ep = encoding.EncodingParameters(total_bit_length=lq, message_bit_length=4, padding_bit_length=1)
        m = np.array([rng.randrange(16) for _ in range(deg)], dtype=np.uint32)
        pt = encoding.encode(U(m), ep)
        prg.g.clear()
        rp = rlwe.RlwePlaintext(log_coefficient_modulus=lq, modulus_degree=deg, message=pt)
        ct = rlwe.encrypt(rp, sk, prg)
        dec = rlwe.decrypt(ct, sk, ep)
        err = np.asarray(prg.g[-1])
        R.emit("rlweenc", s=v32(sk.data), m=v32(pt), err=v32(np.broadcast_to(err, (deg,))), ct=v32(ct.message), lq=lq, dec=v32(dec.message), p=pdict(ep))
        if lq == 32:
          out = bootstrap.sample_extract(ct)
          flat = rlwe.flatten_key(sk)
          R.emit("extract", s=v32(sk.data), ct=v32(ct.message), out=v32(out), flat=v32(flat.key_data))
          c = rlwe_ct(words(k + 1, deg))
          R.emit("extract", s=v32(sk.data), ct=v32(c.message), out=v32(bootstrap.sample_extract(c)), flat=v32(flat.key_data))
          tr = test_polynomial.trivial_encryption(rp, sp)
          R.emit("trivial", s=v32(sk.data), ct=v32(tr.message), m=v32(pt))
        for lb, L in ((4, 8), (8, 2), (4, 3)) if lq == 32 else ((4, 5), (5, 2)):
          if lq != 32:
            continue
          amp = rng.choice([0, 3])
          prg = Src(amp=amp)
          rk = rgsw.key_from_rlwe(sk)
          if not any(int(sk.data[i, 0]) for i in range(k)):
            rk = rgsw.RgswSecretKey(key=rlwe.RlweSecretKey(sk.log_coefficient_modulus, deg, k, sk.data.at[k - 1, 0].set(1)))
          for m1 in (0, 1):
            dp = decomposition.DecompositionParameters(log_base=lb, level_count=L)
            g = rgsw.encrypt(rgsw.RgswPlaintext(modulus_degree=deg, message=jnp.uint32(m1)), rk, dp, prg)
            d = rgsw.decrypt(g, dp, rk)
            R.emit("rgswenc", s=v32(rk.key.data), m=m1, lb=lb, L=L, E=z(amp), G=v32(g.message), dec=int(d.message))
    R.guard("rlwe", two)


# ---------------------------------------------------------------- P07
def p07():
  degs = [1, 2, 3, 4, 5, 8, 12, 16, 32, 64] + [128, 256]
  for n in R.mine(degs):
    def one():
      for _ in range(N(3, 12)):
        a, b = words(n), words(n)
        R.emit("pmul", a=v32(a), b=v32(b), out=v32(matrix_utils.poly_mul(U(a), U(b))))
        R.emit("pmul", a=v32(a), b=v32(b), out=v32(matrix_utils.toeplitz_poly_mul(U(a), U(b))))
      full = np.full(n, 0xFFFFFFFF, dtype=np.uint32)
      R.emit("pmul", a=v32(full), b=v32(full), out=v32(matrix_utils.poly_mul(U(full), U(full))))
      c = rng.choice([1, 2, 3])
      a, b = words(c, n), words(c, n)
      R.emit("pmullist", const=False, a=v32(a), b=v32(b), out=v32(matrix_utils.poly_mul_list(U(a), U(b))))
      R.emit("pmullist", const=True, a=v32(a), b=v32(b), out=v32(matrix_utils.poly_mul_const_list(U(a[0]), U(b))))
      R.emit("pdot", a=v32(a), b=v32(b), out=v32(matrix_utils.poly_dot_product(U(a), U(b))))
      m3 = words(2, c, n)
      R.emit("pmulmat", a=v32(a[0]), b=v32(m3), out=v32(matrix_utils.poly_mul_const_matrix(U(a[0]), U(m3))))
      rows, cols = rng.choice([(1, 1), (3, 2), (4, 3)])
      vec, mat = words(rows, n), words(rows, cols, n)
      R.emit("vmpm", vec=v32(vec), mat=v32(mat), out=v32(polymul_kernel.negacyclic_vector_matrix_polymul(U(vec), U(mat), 4)))
      small = U(np.array([rng.randint(-8, 7) for _ in range(rows * n)]).reshape(rows, n).astype(np.uint32))
      R.emit("vmpm", vec=v32(small), mat=v32(mat), out=v32(polymul_kernel.negacyclic_vector_matrix_polymul(small, U(mat), 4)))
      t = words(n)
      if n <= 32:
        R.emit("toep", x=v32(t), out=v32(matrix_utils.toeplitz(U(t))))
      ks = sorted({0, 1, n - 1, n, n + 1, 2 * n - 1, 2 * n, 2 * n + 1, 3 * n, 4 * n, rng.randrange(2 * n), rng.randrange(8 * n)})
      for k in ks + [-k for k in ks if k]:
        a = words(2, n)
        out = np.stack([np.asarray(matrix_utils.monomial_mul(U(a[i]), jnp.int32(k), 32)) for i in range(2)])
        R.emit("mono", a=v32(a), k=k, lq=32, out=v32(out))
      for k in rng.sample(ks, 4):
        a = words(2, n)
        R.emit("mono", a=v32(a), k=k, lq=32, out=v32(matrix_utils.monomial_mul_list(U(a), jnp.uint32(k), 32)))
        # negated unsigned exponents (the form used by blind rotation)
        if n & (n - 1) == 0:
          R.emit("mono", a=v32(a), k=-k, lq=32, out=v32(matrix_utils.monomial_mul_list(U(a), -jnp.uint32(k), 32)))
        for lq in (8, 20):
          al = a % np.uint32(2**lq)
          out = np.stack([np.asarray(matrix_utils.monomial_mul(U(al[i]), jnp.int32(k), lq)) for i in range(2)])
          R.emit("mono", a=v32(al), k=k, lq=lq, out=v32(out))
        R.emit("xpow", n=n, k=k, out=v32(matrix_utils.x_power_n_minus_1(jnp.uint32(k), n)))
      for k in ks:
        R.emit("xpow", n=n, k=k, out=v32(matrix_utils.x_power_n_minus_1(jnp.uint32(k), n)))
        m3 = words(2, 2, n)
        R.emit("scale", k=k, lq=32, mat=v32(m3), out=v32(matrix_utils.scale_by_x_power_n_minus_1(jnp.uint32(k), U(m3), 32)))
      k = rng.randrange(2 * n)
      m3 = words(2, 1, n) % np.uint32(2**12)
      R.emit("scale", k=k, lq=12, mat=v32(m3), out=v32(matrix_utils.scale_by_x_power_n_minus_1(jnp.uint32(k), U(m3), 12)))
      R.emit("scale", k=-k, lq=32, mat=v32(m3), out=v32(matrix_utils.scale_by_x_power_n_minus_1(jnp.int32(-k), U(m3), 32)))
      for cols in (1, 3):
        lhs, rhs = words(n), words(n, cols)
        R.emit("matvec", lhs=v32(lhs), rhs=v32(rhs), out=v32(matrix_utils.i32_as_u8_matmul(U(lhs), U(rhs))))
    R.guard("polynomial kernels", one)
    # byte-split (BAT) form of the same product
    def bat():
      rows, cols = 2, 2
      vec, mat = words(rows, n), words(rows, cols, n)
      mb = np.zeros((rows, cols, n, 4, 4), dtype=np.uint8)
      by = mat[..., None].view(np.uint8).reshape(rows, cols, n, 4)
      for c in range(4):
        mb[..., c:, c] = by[..., : 4 - c]
      R.emit("vmpm", vec=v32(vec), mat=v32(mat), out=v32(polymul_kernel.negacyclic_vector_matrix_polymul_bat(U(vec), jnp.asarray(mb))))
    if n > 4:
      R.guard("bat", bat)
  def div():
    for d in [1, 2, 3, 4, 5, 7, 256, 2**16, 2**21, 2**22, 2**23, 2**28, 2**31, 2**32 - 1, 1000003]:
      xs = sorted({x % 2**32 for x in EDGE + [word() for _ in range(20)] + [d - 1, d, d + 1, d // 2, d // 2 - 1, d // 2 + 1, 2**32 - d, 2**32 - d // 2, 2**32 - d // 2 - 1]})
      out = matrix_utils.integer_div(U(xs), jnp.uint32(d))
      R.emit("idiv", d=z(d), x=zl(xs), out=zl(np.asarray(out).astype(object)))
  if R.shard == 0:
    R.guard("integer_div", div)


def p07x():
  """The 64-bit entry points (x64 mode)."""
  def mm():
    for _ in range(N(3, 10)):
      m, n, k = rng.randint(1, 3), rng.randint(1, 3), rng.randint(1, 3)
      hi = 2**28 - 1
      a, b = words(m, n), words(n, k)
      am, bm = a % np.uint32(hi), b % np.uint32(hi)
      out = matrix_utils.hpmatmul_conv_adapt_outer_product(U(am), U(bm))
      R.emit("zmat", q=z(2**64), a=zl(am), b=zl(bm), out=zl(np.asarray(out).astype(object)))
      out = matrix_utils.hpmatmul_conv_adapt_conv(U(am), U(bm))
      R.emit("zmat", q=z(2**64), a=zl(am), b=zl(bm), out=zl(np.asarray(out).astype(object)))
      for q in (4294967291, 2147483647, 4294967291 - 264):
        aq, bq = a % np.uint32(q), b % np.uint32(q)
        comp = matrix_utils.hpmatmul_offline_compile_bat(U(aq), q)
        out = matrix_utils.hpmatmul_bat_adapt(comp, U(bq))
        R.emit("zmat", q=z(q), a=zl(aq), b=zl(bq), out=zl(np.asarray(out).astype(object)))
        out = matrix_utils.hpmatmul_golden(aq, bq, q)
        R.emit("zmat", q=z(q), a=zl(aq), b=zl(bq), out=zl(out))
    for w in (8, 16):
      xs = [x for x in EDGE if x] + [rng.getrandbits(60) + 1 for _ in range(8)]
      R.emit("chunks", w=w, x=zl(xs), out=[np.asarray(matrix_utils.chunk_decomposition(x, w)).astype(np.int64).tolist() for x in xs])
  R.guard("64-bit kernels", mm)


# ---------------------------------------------------------------- P08
def lkey(bits, lq=32):
  return lwe.LweSecretKey(log_modulus=lq, lwe_dimension=len(bits), key_data=U(bits))


def bits(n):
  c = rng.random()
  if c < 0.15:
    return [1] * n
  if c < 0.25:
    return [0] * n
  return [rng.getrandbits(1) for _ in range(n)]


def p08():
  combos = [(4, 8), (4, 5), (4, 6), (8, 4), (8, 3), (2, 16), (2, 7), (1, 32), (16, 2), (16, 1), (4, 1), (8, 1), (1, 5)]
  dims = [(1, 1), (2, 3), (4, 4), (8, 2), (3, 7), (16, 5), (32, 4), (12, 12)]
  work = [(c, d) for i, c in enumerate(combos) for d in dims]
  for (lb, L), (ni, no) in R.mine(work):
    def one():
      for amp in (0, rng.choice([1, 4, 50])):
        prg = Src(amp=amp)
        si, so = bits(ni), bits(no)
        dp = decomposition.DecompositionParameters(log_base=lb, level_count=L)
        ksk = key_switch.gen_key(dp, prg, lkey(si), lkey(so))
        R.emit("ksk", sin=si, sout=so, lb=lb, L=L, E=z(amp), rows=v32(ksk.key_data))
        for _ in range(N(4, 12)):
          ct = words(ni + 1)
          out = key_switch.switch_key(ksk, U(ct))
          R.emit("switch", sin=si, sout=so, lb=lb, L=L, E=z(amp), ct=v32(ct), out=v32(out))
    R.guard("key_switch", one)
  def ms():
    for lin, lout in [(32, 1), (32, 2), (32, 4), (32, 9), (32, 10), (32, 11), (32, 16), (32, 20), (32, 31), (16, 5), (26, 10), (10, 9)]:
      st = 1 << (lin - lout)
      for _ in range(N(2, 8)):
        n = rng.randint(1, 40)
        ct = words(n) % np.uint32(2**lin - 1)
        extra = []
        for _ in range(12):
          base = rng.randrange(2**lout) * st
          extra += [(base + d) % 2**lin for d in (st // 2, st // 2 - 1, st // 2 + 1, st - 1)]
        ct = np.concatenate([ct, np.array(extra + [2**lin - 1, 2**lin - st // 2, 2**lin - st // 2 - 1], dtype=np.uint64).astype(np.uint32)])
        out = lwe.switch_modulus(U(ct), lin, lout)
        R.emit("modsw", lin=lin, lout=lout, ct=v32(ct), out=v32(out))
  if R.shard == 0:
    R.guard("switch_modulus", ms)


# ---------------------------------------------------------------- P09
def rkey(k, n, lq=32):
  data = np.array([bits(n) for _ in range(k)], dtype=np.uint32)
  return rlwe.RlweSecretKey(log_coefficient_modulus=lq, modulus_degree=n, rlwe_dimension=k, data=U(data))


def bat_form(msg):
  """u8 (...,4,4) byte form of a u32 array, as the BAT kernels expect."""
  a = np.asarray(msg)
  by = np.ascontiguousarray(a)[..., None].view(np.uint8).reshape(*a.shape, 4)
  mb = np.zeros((*a.shape, 4, 4), dtype=np.uint8)
  for c in range(4):
    mb[..., c:, c] = by[..., : 4 - c]
  return jnp.asarray(mb)


def p09():
  combos = [(1, 4, 4, 8), (1, 8, 8, 4), (2, 4, 4, 6), (1, 2, 2, 16), (3, 4, 8, 2), (2, 8, 4, 8), (1, 16, 4, 5), (1, 8, 16, 2)]
  for (k, n, lb, L) in R.mine(combos):
    def one():
      dp = decomposition.DecompositionParameters(log_base=lb, level_count=L)
      for amp in (0, 2):
        sk = rkey(k, n)
        for m in (0, 1):
          g = rgsw.encrypt(rgsw.RgswPlaintext(modulus_degree=n, message=jnp.uint32(m)), rgsw.key_from_rlwe(sk), dp, Src(amp=amp))
          for _ in range(N(2, 6)):
            c0, c1 = rlwe_ct(words(k + 1, n)), rlwe_ct(words(k + 1, n))
            out = bootstrap.external_product(g, c0, dp)
            R.emit("extprod", s=v32(sk.data), m=m, lb=lb, L=L, E=z(amp), ct=v32(c0.message), out=v32(out.message))
            out = bootstrap.cmux(g, c0, c1, dp)
            R.emit("cmux", s=v32(sk.data), m=m, lb=lb, L=L, E=z(amp), c0=v32(c0.message), c1=v32(c1.message), out=v32(out.message))
            gb = rgsw.RgswCiphertext(message=bat_form(g.message), log_coefficient_modulus=32, modulus_degree=n)
            if n > 4:
              out = bootstrap.cmux(gb, c0, c1, dp, True)
              R.emit("cmux", s=v32(sk.data), m=m, lb=lb, L=L, E=z(amp), c0=v32(c0.message), c1=v32(c1.message), out=v32(out.message))
    R.guard("external product", one)
  for (k, n, L, order) in R.mine([(1, 4, 4, (8, 4, 8, 2)), (1, 8, 2, (16, 8, 16)), (2, 4, 8, (4, 2, 4)), (1, 4, 2, (4, 8, 16))]):
    def hist():
      sk, amp = rkey(k, n), 0
      for lb in order:
        dp = decomposition.DecompositionParameters(log_base=lb, level_count=L)
        for m in (1, 0):
          g = rgsw.encrypt(rgsw.RgswPlaintext(modulus_degree=n, message=jnp.uint32(m)), rgsw.key_from_rlwe(sk), dp, Src(amp=amp))
          c0, c1 = rlwe_ct(words(k + 1, n)), rlwe_ct(words(k + 1, n))
          R.emit("extprod", s=v32(sk.data), m=m, lb=lb, L=L, E=z(amp), ct=v32(c0.message), out=v32(bootstrap.external_product(g, c0, dp).message))
          R.emit("cmux", s=v32(sk.data), m=m, lb=lb, L=L, E=z(amp), c0=v32(c0.message), c1=v32(c1.message), out=v32(bootstrap.cmux(g, c0, c1, dp).message))
        for bmmp in (True, False):
          key = bits(2)
          bsk = bootstrap.gen_bootstrapping_key(lkey(key), rgsw.key_from_rlwe(sk), dp, Src(amp=amp), use_bmmp=bmmp)
          ct = rlwe_ct(words(k + 1, n))
          idx = [rng.randrange(2 * n) for _ in range(3)]
          R.emit("blind", key=key, s=v32(sk.data), bmmp=bmmp, lb=lb, L=L, E=z(amp), ct=v32(ct.message), idx=idx,
                 out=v32(bootstrap.blind_rotate(ct, U(idx), bsk, dp).message))
    R.guard("external product history", hist)
  brs = [(2, 1, 4, 4, 8, True, False), (4, 1, 8, 4, 8, True, False), (4, 2, 8, 8, 4, True, False), (6, 1, 8, 4, 8, True, False),
         (2, 1, 8, 4, 8, False, False), (4, 1, 8, 4, 8, False, True), (6, 2, 8, 4, 8, False, False), (14, 1, 8, 8, 4, True, False),
         (16, 1, 8, 8, 4, True, False), (22, 1, 8, 16, 2, False, True), (16, 1, 4, 8, 3, False, False), (28, 1, 8, 8, 4, True, False),
         (8, 2, 16, 4, 8, True, False), (40, 1, 4, 16, 2, False, False), (42, 1, 4, 16, 2, True, False), (20, 1, 16, 8, 4, False, False)]
  for (d, k, n, lb, L, bmmp, bat) in R.mine(brs):
    def two():
      for amp in (0, 1):
        dp = decomposition.DecompositionParameters(log_base=lb, level_count=L)
        sk = rkey(k, n)
        key = bits(d)
        bsk = bootstrap.gen_bootstrapping_key(lkey(key), rgsw.key_from_rlwe(sk), dp, Src(amp=amp), use_bmmp=bmmp, use_bat=bat)
        rows = bsk.encrypted_lwe_sk_bits
        if bat and not bmmp:
          rows = jax.lax.bitcast_convert_type(rows[..., :, 0], jnp.uint32)
        R.emit("bsk", key=key, s=v32(sk.data), bmmp=bmmp, lb=lb, L=L, E=z(amp), rows=v32(rows))
        for _ in range(N(3, 12)):
          ct = rlwe_ct(words(k + 1, n))
          idx = [rng.choice([0, 1, n - 1, n, 2 * n - 1, rng.randrange(2 * n)]) for _ in range(d + 1)]
          out = bootstrap.blind_rotate(ct, U(idx), bsk, dp)
          R.emit("blind", key=key, s=v32(sk.data), bmmp=bmmp, lb=lb, L=L, E=z(amp), ct=v32(ct.message), idx=idx, out=v32(out.message))
    R.guard("blind rotate", two)
  ok, _, _ = R.call(lambda: bootstrap.cmux(
      rgsw.RgswCiphertext(message=U(words(4, 2, 4)), log_coefficient_modulus=32, modulus_degree=4),
      rlwe_ct(words(2, 4)), rlwe_ct(words(2, 8)), decomposition.DecompositionParameters(log_base=4, level_count=2)))
  R.emit("reject", what="cmux of mismatched degrees", ok=ok)


# the kernels chosen on TPU, in the Pallas interpreter
def p07tpu():
  def bytemat(mat):
    mb = np.zeros(mat.shape + (4, 4), dtype=np.uint8)
    by = np.ascontiguousarray(mat[..., None]).view(np.uint8).reshape(mat.shape + (4,))
    for c in range(4):
      mb[..., c:, c] = by[..., : 4 - c]
    return mb

  work = [(n, rows, cols, lb) for n, rows, cols, lb in [
      (128, 1, 1, 4), (128, 18, 3, 4), (128, 2, 4, 7), (256, 3, 2, 6), (384, 2, 3, 1), (512, 2, 2, 7), (128, 19, 2, 2),
      (128, 24, 2, 5), (256, 5, 1, 3), (128, 6, 3, 6), (64, 3, 2, 4), (96, 2, 2, 4), (128, 3, 2, 8)]]
  for (n, rows, cols, lb) in R.mine(work):
    def one():
      for t in range(3):
        mat = words(rows, cols, n)
        if t == 0:
          vec = np.full((rows, n), 2**lb - 1, dtype=np.uint32)
          mat = np.full((rows, cols, n), 0xFFFFFFFF, dtype=np.uint32)
        elif t == 1:
          vec = np.array([rng.choice([0, 1, 2**lb - 1, rng.randrange(2**lb)]) for _ in range(rows * n)]).reshape(rows, n).astype(np.uint32)
        else:
          vec = np.array([rng.randrange(2**lb) for _ in range(rows * n)]).reshape(rows, n).astype(np.uint32)
        R.emit("vmpm", vec=v32(vec), mat=v32(mat), out=v32(polymul_kernel.negacyclic_vector_matrix_polymul(U(vec), U(mat), lb)))
        R.emit("vmpm", vec=v32(vec), mat=v32(mat),
               out=v32(polymul_kernel.negacyclic_vector_matrix_polymul_bat(U(vec), jnp.asarray(bytemat(mat)))))
      a, b = words(n), words(n)
      R.emit("pmul", a=v32(a), b=v32(b), out=v32(matrix_utils.poly_mul(U(a), U(b))))
      if n % 128 == 0 and n <= 256:
        R.emit("ntoep", x=v32(a), out=v32(matrix_utils.toeplitz_kernelized(jnp.asarray(a.astype(np.int32)))))
      m, k, c = 8 * rng.randrange(1, 3), rng.choice([1, 7, 64, 200]), rng.choice([1, 5, 128])
      lhs, rhs = words(m, k), words(k, c)
      R.emit("matmat", lhs=v32(lhs), rhs=v32(rhs), out=v32(polymul_kernel.i32_matmul(jnp.asarray(lhs.astype(np.int32)), jnp.asarray(rhs.astype(np.int32)))))
    R.guard("TPU kernels", one)


# ---------------------------------------------------------------- P03
def p03(only=None):
  # (lwe dim, k, N, bsk lb, L, ksk lb, L, msg bits, bmmp, noise amplitude)
  cfgs = [(2, 1, 32, 4, 8, 4, 8, 2, True, 0), (4, 1, 64, 4, 8, 4, 8, 3, True, 1), (4, 1, 64, 4, 8, 4, 8, 3, False, 1),
          (4, 2, 32, 4, 6, 4, 5, 1, True, 1), (6, 1, 64, 8, 4, 8, 3, 2, True, 0), (6, 1, 64, 8, 4, 8, 4, 2, False, 0),
          (8, 1, 128, 4, 8, 4, 8, 3, True, 1), (8, 2, 64, 4, 6, 4, 5, 2, False, 1), (4, 1, 32, 8, 4, 8, 4, 2, "bat", 1)]
  cfgs += [(4, 1, 512, 4, 8, 4, 8, 3, True, 1), (16, 1, 256, 4, 8, 4, 8, 3, True, 1), (10, 1, 128, 4, 7, 4, 8, 2, False, 1),
           (12, 3, 32, 8, 3, 8, 3, 1, True, 0), (2, 1, 16, 2, 16, 2, 16, 1, True, 1), (6, 1, 64, 1, 32, 1, 32, 2, True, 0),
           (8, 1, 64, 16, 2, 16, 2, 2, False, 0), (8, 1, 64, 8, 4, 8, 4, 3, "bat", 1), (30, 1, 256, 8, 4, 8, 4, 2, True, 0)]
  # one program alternating between parameter sets whose keys have the same shapes
  hist = [[(2, 1, 32, 4, 4, 4, 4, 1, True, 0), (2, 1, 32, 8, 4, 4, 4, 1, True, 0), (2, 1, 32, 8, 4, 8, 4, 1, True, 0),
           (2, 1, 32, 4, 4, 4, 4, 2, True, 0), (2, 1, 32, 4, 4, 8, 4, 1, False, 0), (2, 1, 32, 8, 4, 8, 4, 1, False, 0)]]
  groups = [[c] for c in only] if only else hist + [[c] for c in cfgs]
  for (d, k, n, lb, L, klb, kL, mb, bmmp, amp) in [c for g in R.mine(groups) for c in g]:
    bat, bmmp = bmmp == "bat", bmmp is True
    def one():
      sp = scheme(d, k, n)
      ep = encoding.EncodingParameters(total_bit_length=32, message_bit_length=mb, padding_bit_length=1)
      bdp = decomposition.DecompositionParameters(log_base=lb, level_count=L)
      kdp = decomposition.DecompositionParameters(log_base=klb, level_count=kL)
      for _ in range(N(1, 2)):
        sk = rkey(k, n)
        key = bits(d)
        lsk = lkey(key)
        rec.TPU_ON[0] = False  # key generation maps kernels over empty batches, which the interpreter rejects
        bsk = bootstrap.gen_bootstrapping_key(lsk, rgsw.key_from_rlwe(sk), bdp, Src(amp=amp), use_bmmp=bmmp, use_bat=bat)
        rec.TPU_ON[0] = True
        ksk = key_switch.gen_key(kdp, Src(amp=amp), rlwe.flatten_key(sk), lsk)
        step = 2**(32 - mb - 1)
        w = n // 2**mb
        # noise the modulus-switching error cannot push out of the block
        room = (w // 2 - 1) * (2**32 // (2 * n)) - (d + 1) * (2**32 // (2 * n)) // 2
        for t in range(N(8, 30)):
          lut = [rng.randrange(2**mb) for _ in range(2**mb)]
          m = t % 2**mb
          R.emit("testpoly", lut=lut, p=pdict(ep), n=n,
                 out=v32(test_polynomial.gen_test_polynomial(U(lut), ep, sp).message)) if t < 4 else None
          tp = test_polynomial.gen_and_encrypt(U(lut), ep, sp)
          a = words(d)
          adm = t % 4 != 3
          e = rng.choice([0, room, -room, rng.randint(-room, room)]) if (adm and room > 0) else (0 if room > 0 else 0)
          if not adm:
            e = rng.randint(-step, step)
          body = (sum(int(x) * b for x, b in zip(a, key)) + m * step + e) % 2**32
          ct = U(np.append(a, np.uint32(body)))
          st = {}
          out = bootstrap.bootstrap(ct, tp, bsk, ksk, kdp, bdp, sp, callback=lambda name, v: st.__setitem__(name, v))
          jit = bootstrap.jit_bootstrap(ct, tp.message, bsk.encrypted_lwe_sk_bits, ksk.key_data, kdp, bdp, sp, bsk.use_bmmp, bsk.use_bat)
          R.emit("boot", key=key, s=v32(sk.data), p=pdict(ep), lut=lut, m=m, ct=v32(ct), tp=v32(tp.message), bmmp=bmmp,
                 lb=lb, L=L, klb=klb, kL=kL, E=z(amp), kE=z(amp), logn=int(np.log2(n)), adm=bool(adm and room > 0),
                 switched=v32(st["approx_ciphertext"]), rotated=v32(st["rotated"]), extracted=v32(st["extracted"]), out=v32(out), jit=v32(jit))
        idp = test_polynomial.identity_test_polynomial(ep, sp)
        R.emit("testpoly", lut=list(range(2**mb)), p=pdict(ep), n=n, out=v32(idp.message))
    R.guard("bootstrap", one)
  def polys():
    for mb in (1, 2, 3, 4):
      lut = [rng.randrange(2**mb) for _ in range(2**mb)]
      for pb in (1, 2, 3, 1):
        n = 2**mb * rng.choice([2, 4, 8])
        ep = encoding.EncodingParameters(total_bit_length=32, message_bit_length=mb, padding_bit_length=pb)
        sp = scheme(2, rng.choice([1, 2]), n)
        R.emit("testpoly", lut=lut, p=pdict(ep), n=n, out=v32(test_polynomial.gen_test_polynomial(U(lut), ep, sp).message))
        idp = test_polynomial.identity_test_polynomial(ep, sp)
        R.emit("testpoly", lut=list(range(2**mb)), p=pdict(ep), n=n, out=v32(idp.message))
  R.guard("test polynomial", polys)
  sp = scheme(2, 1, 4)
  ep = encoding.EncodingParameters(total_bit_length=32, message_bit_length=3, padding_bit_length=1)
  ok, _, _ = R.call(test_polynomial.gen_test_polynomial, U([0] * 8), ep, sp)
  R.emit("reject", what="table longer than the degree", ok=ok)
  ok, _, _ = R.call(test_polynomial.gen_test_polynomial, U([0] * 7), ep, scheme(2, 1, 64))
  R.emit("reject", what="table shorter than the message space", ok=ok)


# bootstrapping with the kernels chosen on TPU
def p03tpu():
  p03([(4, 1, 128, 4, 8, 4, 8, 3, True, 1), (4, 2, 128, 4, 6, 4, 5, 2, False, 1), (2, 1, 128, 2, 16, 4, 8, 3, "bat", 1),
       (4, 2, 128, 4, 8, 4, 8, 3, "bat", 1)])


# the thorough tier repeats the whole campaign with fresh randomness
for _ in range(8 if R.thorough else 1):
  globals()[R.mode]()
R.close()
