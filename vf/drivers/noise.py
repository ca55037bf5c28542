"""Parameter presets: recorded parameters, fresh ciphertexts, keys and gate noise."""
import math
import rec
R = rec.Rec()
rec.setup_repo()
import numpy as np
from jaxite.jaxite_bool import bool_params, jaxite_bool as jb
from jaxite.jaxite_cggi import bootstrap, decomposition, key_switch, lwe, parameters, random_source, rgsw, rlwe

PRESETS = {
    "128": (bool_params.get_params_for_128_bit_security, bool_params.get_lwe_rng_for_128_bit_security,
            bool_params.get_rlwe_rng_for_128_bit_security),
    "test": (bool_params.get_params_for_test, bool_params.get_rng_for_test, bool_params.get_rng_for_test),
}


def signed(x):
  return ((np.asarray(x).astype(np.int64) + 2**31) % 2**32 - 2**31).astype(int)


def draws(rng, n=2000):
  return signed(rng.rounded_normal(shape=(n,))).tolist()


def fields(p):
  sp, bs, ks = p.scheme_params, p.bs_decomp_params, p.ks_decomp_params
  return dict(n=sp.lwe_dimension, k=sp.rlwe_dimension, N=sp.polynomial_modulus_degree, lb=bs.log_base,
              L=bs.level_count, klb=ks.log_base, kL=ks.level_count)


def lg(s):
  return "%.1f" % (math.log2(sum(x * x for x in s) / len(s)) / 2)


def phase(ct, key):
  ct = np.asarray(ct).astype(np.int64)
  return int((ct[-1] - (ct[:-1] * key).sum()) % 2**32)


def bits(key):
  return np.asarray(key).astype(np.int64).reshape(-1)


def presets():
  for name, (mk, lr, rr) in PRESETS.items():
    p = mk()
    f = fields(p)
    gl, gr = draws(lr(11)), draws(rr(12))
    case = "%s.n%d.k%d.N%d.bs%dx%d.ks%dx%d.lwe%s.rlwe%s" % (name, f["n"], f["k"], f["N"], f["lb"], f["L"], f["klb"],
                                                          f["kL"], lg(gl), lg(gr))
    for kind in ("fresh2", "fresh3", "gate2", "gate3", "same3"):
      R.emit("budget", **f, gl=gl, gr=gr, kind=kind, case=case + "." + kind)
    if name == "128":
      R.emit("line", **f, gl=gl, gr=gr)


def fresh():
  """Client keys and fresh encryptions with the published parameters."""
  for name, (mk, lr, rr) in PRESETS.items():
    for seed in range(1, 3 if not R.thorough else 9):
      p = mk()
      a, b = lr(100 * R.seed + seed), rr(100 * R.seed + seed + 50)
      c = jb.ClientKeySet(p, lwe_rng=a, rlwe_rng=b)
      f = fields(p)
      for key, want in ((bits(c.lwe_sk.key_data), f["n"]), (bits(c.rlwe_sk.data), f["k"] * f["N"])):
        R.emit("key", ones=int(key.sum()), len=len(key), want=want, binary=bool(((key == 0) | (key == 1)).all()))
      key = bits(c.lwe_sk.key_data)
      cts = [np.asarray(jb.encrypt(i % 3 == 0, c, a)).astype(np.int64) for i in range(300)]
      noise = [signed(phase(t, key) - (2**28 if i % 3 == 0 else 0)).item() for i, t in enumerate(cts)]
      masks = np.stack(cts)[:, :-1]
      R.emit("fresh", noise=noise, g=draws(lr(7)), bits=[int(((masks >> j) & 1).sum()) for j in range(32)],
             total=int(masks.size), distinct=len({m.tobytes() for m in masks}))


def negmul(a, s):
  """a * s modulo X^N + 1 and 2^32 for a 0/1 polynomial s."""
  n, out = len(a), np.zeros(len(a), np.int64)
  for j in range(n):
    if s[j]:
      out += np.concatenate([-a[n - j:], a[:n - j]]) if j else a
  return out % 2**32


def samples(what, rows, sk, g):
  """Rows (a_1..a_k, b) that encrypt zero under the polynomials sk."""
  rows = np.asarray(rows).astype(np.int64)
  rows = rows.reshape((-1,) + rows.shape[-2:])
  noise = [signed(r[-1] - sum(negmul(a, t) for a, t in zip(r[:-1], sk))).tolist() for r in rows]
  m = rows[:, :-1]
  R.emit("rows", what=what, noise=noise, g=g, bits=[int(((m >> j) & 1).sum()) for j in range(32)], total=int(m.size),
         distinct=len({x.tobytes() for x in m}))


def encryptions():
  """Every kind of encryption, of zero, under independent random sources."""
  std = 1000
  for t in range(2 if not R.thorough else 8):
    src = random_source.PseudorandomSource(seed=1000 * R.seed + t, normal_std=std)
    g = draws(random_source.PseudorandomSource(seed=5, normal_std=std))
    k, n, d = (1, 64, 6) if t % 2 == 0 else (2, 32, 4)
    sp = parameters.SchemeParameters(lwe_dimension=d, plaintext_modulus=2**32, rlwe_dimension=k, polynomial_modulus_degree=n)
    sk = rlwe.gen_key(sp, src)
    pol = np.asarray(sk.data).astype(np.int64)
    zero = rlwe.RlwePlaintext(log_coefficient_modulus=32, modulus_degree=n, message=np.zeros(n, np.uint32))
    samples("rlwe", [np.asarray(rlwe.encrypt(zero, sk, src).message) for _ in range(20)], pol, g)
    dp = decomposition.DecompositionParameters(log_base=4, level_count=5)
    rk = rgsw.key_from_rlwe(sk)
    pt = rgsw.RgswPlaintext(modulus_degree=n, message=np.uint32(0))
    samples("rgsw", [np.asarray(rgsw.encrypt(pt, rk, dp, src).message) for _ in range(3)], pol, g)
    lk = lwe.LweSecretKey(log_modulus=32, lwe_dimension=d, key_data=np.zeros(d, np.uint32))
    for bmmp in (True, False):
      bsk = bootstrap.gen_bootstrapping_key(lk, rk, dp, src, use_bmmp=bmmp)
      samples("bootstrapping key", np.asarray(bsk.encrypted_lwe_sk_bits), pol, g)
    out = lwe.gen_key(parameters.SchemeParameters(lwe_dimension=24, plaintext_modulus=2**32, rlwe_dimension=k,
                                                  polynomial_modulus_degree=n), src)
    ik = lwe.LweSecretKey(log_modulus=32, lwe_dimension=n, key_data=np.zeros(n, np.uint32))
    ksk = np.asarray(key_switch.gen_key(dp, src, ik, out).key_data).astype(np.int64)
    key = bits(out.key_data)
    m = ksk[..., :-1]
    R.emit("rows", what="key switching key", noise=signed(ksk[..., -1] - (m * key).sum(-1)).tolist(), g=g,
           bits=[int(((m >> j) & 1).sum()) for j in range(32)], total=int(m.size),
           distinct=len({x.tobytes() for x in m.reshape(-1, m.shape[-1])}))


def gates(cfgs):
  """Noise of gate results; the LWE dimension is cut down to keep keys small."""
  for name, dim, sl, sr in cfgs:
    mk, lr, rr = PRESETS[name]
    q = mk()
    sp = q.scheme_params
    p = bool_params.Parameters(
        parameters.SchemeParameters(lwe_dimension=dim, plaintext_modulus=2**32, rlwe_dimension=sp.rlwe_dimension,
                                    polynomial_modulus_degree=sp.polynomial_modulus_degree),
        q.ks_decomp_params, q.bs_decomp_params)
    src = lambda preset, on, seed: preset(seed) if on else random_source.PseudorandomSource(seed=seed, normal_std=0)
    a, b = src(lr, sl, 300 + R.seed), src(rr, sr, 400 + R.seed)
    c = jb.ClientKeySet(p, lwe_rng=a, rlwe_rng=b)
    s = jb.ServerKeySet(c, p, lwe_rng=a, rlwe_rng=b)
    key = bits(c.lwe_sk.key_data)
    var = lambda preset, on: str(int(np.mean(np.square(np.array(draws(preset(9)), float))))) if on else "0"
    noise, old = [], []
    for i in range(48 if not R.thorough else 200 if dim < 100 else 24):
      u, v = R.rng.randrange(2), R.rng.randrange(2)
      if i % 2 and len(old) > 1:  # results of gates as inputs, at any depth
        (x, u), (y, v) = R.rng.sample(old[-8:], 2)
      else:
        x, y = jb.encrypt(bool(u), c, a), jb.encrypt(bool(v), c, a)
      r = jb.xor_(x, y, s, p)
      old.append((r, u ^ v))
      noise.append(signed(phase(r, key) - (u ^ v) * 2**28).item())
    R.emit("gate", p=dict(fields(p), vl=var(lr, sl), vr=var(rr, sr)), noise=noise)


if R.mode == "fresh":
  R.guard("presets", presets)
  R.guard("fresh", fresh)
  R.guard("encryptions", encryptions)
else:
  cf = [("128", 8, 0, 0), ("128", 8, 1, 0), ("128", 8, 0, 1), ("128", 8, 1, 1), ("test", 4, 1, 0), ("test", 4, 0, 1)]
  if R.thorough:
    cf = [("128", 800, 1, 1)] + cf + [("128", 32, 1, 1), ("128", 32, 0, 1), ("128", 64, 0, 1), ("test", 4, 1, 1), ("test", 16, 0, 1)]
  R.guard("gates", lambda: gates(R.mine(cf)))
R.close()
