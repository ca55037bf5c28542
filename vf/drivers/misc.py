"""Random sources (p10) and type converters (p11)."""
import rec
R = rec.Rec()
rec.setup_repo()
import numpy as np

FN = {"u": "uniform", "n": "rounded_normal", "s": "sk_uniform"}


def ints(a, signed_n=False):
  return [str(x) for x in np.asarray(a).astype(object).reshape(-1).tolist()]


def p10():
  import jax.numpy as jnp
  from jaxite.jaxite_cggi import random_source as rs
  rng = R.rng
  bounds = [(0, 2**32 - 1), (0, 1), (5, 9), (0, 2**31), (2**31, 2**32 - 1), (0, 255), (7, 7)]
  kinds = [("pseudo", b) for b in bounds] + [("system", (0, 2**32 - 1)), ("system", (3, 12))]

  def mk(cls, b, std, seed):
    if cls == "pseudo":
      return rs.PseudorandomSource(uniform_bounds=b, normal_std=std, seed=seed)
    return rs.SystemRandomSource(uniform_bounds=b, normal_std=std)

  for pi, plan in enumerate(R.mine(R.plans())):
    cls, b = kinds[(pi + R.shard) % len(kinds)]
    dt = rng.choice([jnp.uint32, jnp.uint32, jnp.int32]) if b[1] < 2**31 else jnp.uint32
    std = rng.choice([1, 3, 2**14])
    seeds = {1: rng.randrange(2**40), 2: rng.randrange(1000)}

    def body():
      R.emit("newprog")
      src = {s: mk(cls, b, std, seeds[s]) for s in (1, 2)}
      flat = {1: "", 2: ""}
      for c in plan["calls"]:
        out = getattr(src[c["src"]], FN[c["kind"]])(tuple(c["shape"]), dt)
        lo, hi = (0, 1) if c["kind"] == "s" else b
        R.emit("call", src=c["src"], kind=c["kind"], shape=c["shape"], dtype=str(np.dtype(dt)),
               oshape=list(out.shape), odtype=str(out.dtype), vals=ints(out), lo=str(lo), hi=str(hi))
        flat[c["src"]] += c["kind"] * int(np.prod(c["shape"], dtype=int))
      if cls == "pseudo":
        # the same draws regrouped: runs of equal kinds are cut at random
        for s in (1, 2):
          fresh = mk(cls, b, std, seeds[s])
          got, i = [], 0
          while i < len(flat[s]):
            j = i
            while j < len(flat[s]) and flat[s][j] == flat[s][i]:
              j += 1
            n = rng.randint(1, j - i)
            sh = (n,) if rng.random() < .7 else (1, n)
            got += [[flat[s][i], v] for v in ints(getattr(fresh, FN[flat[s][i]])(sh, dt))]
            i += n
          R.emit("flat", src=s, flat=got)
    R.guard("program", body)
  if R.shard:
    return

  def once():
    a, o = rs.PseudorandomSource(seed=4), rs.PseudorandomSource(seed=5)
    R.emit("norestart", first=ints(a.uniform((8,))), second=ints(a.uniform((8,))), other=ints(o.uniform((8,))))
    for cls in ("pseudo", "system"):
      for b in [(0, 1), (0, 7), (250, 262), (2**32 - 3, 2**32 - 1), (9, 9)]:
        w = b[1] - b[0]
        R.emit("cover", lo=str(b[0]), hi=str(b[1]), width=w, vals=ints(mk(cls, b, 1, 11).uniform((60 * (w + 1),))))
      R.emit("cover", lo="0", hi="1", width=1, vals=ints(mk(cls, (5, 9), 1, 3).sk_uniform((80,))))
      for b in [(0, 2**32 - 1), (2**31, 2**32 - 1), (1000, 2**20)]:
        R.emit("spread", lo=str(b[0]), hi=str(b[1]), vals=ints(mk(cls, b, 1, 17).uniform((400,))))
      for std in (0, 1, 40, 2**14, 2**20):
        v = mk(cls, (0, 3), std, 23).rounded_normal((2500,), jnp.int32)
        R.emit("normal", std=str(std), coarse=std == 1, vals=ints(v))
    for C in (rs.NormalOnlyRng, rs.ConstantUniformRng):
      R.emit("normal", std="9", coarse=False, vals=ints(C(normal_std=9, seed=3).rounded_normal((2500,), jnp.int32)))
      R.emit("cover", lo="0", hi="1", width=1, vals=ints(C(seed=2).sk_uniform((80,))))
      x, y = C(normal_std=2**14, seed=8), C(normal_std=2**14, seed=9)
      R.emit("norestart", first=ints(x.rounded_normal((9,))), second=ints(x.rounded_normal((3, 3))),
             other=ints(y.rounded_normal((9,))))
    for sh in ((), (0,), (3,), (2, 5)):
      for dt in (jnp.uint32, jnp.int32, jnp.uint8):
        def const(cls, out, c):
          R.emit("const", cls=cls, shape=list(sh), dtype=str(np.dtype(dt)), oshape=list(out.shape),
                 odtype=str(out.dtype), vals=ints(out), const=str(c))
        zr = rs.ZeroRng()
        for f in FN.values():
          const("ZeroRng." + f, getattr(zr, f)(sh, dt), 0)
        const("NormalOnlyRng.uniform", rs.NormalOnlyRng().uniform(sh, dt), 0)
        for c in (0, 1, 77):
          const("ConstantUniformRng.uniform", rs.ConstantUniformRng(const_uniform=c).uniform(sh, dt), c)
        const("CycleRng.rounded_normal", rs.CycleRng(const_normal_noise=5).rounded_normal(sh, dt), 5)
    # negative noise is represented modulo 2^32
    const_neg = rs.CycleRng(const_normal_noise=-3).rounded_normal((4,))
    R.emit("const", cls="CycleRng.rounded_normal", shape=[4], dtype="uint32", oshape=list(const_neg.shape),
           odtype=str(const_neg.dtype), vals=ints(const_neg), const=str(2**32 - 3))
    for grouping in ([1] * 40 + [700] * 9, [3, 0, 2000, 17, 4000], [6300]):
      c = rs.CycleRng(const_normal_noise=2)
      flat, noise = [], []
      for i, n in enumerate(grouping):
        f = c.uniform if i % 3 else c.sk_uniform
        flat += np.asarray(f((n,))).astype(int).tolist()
        if i % 2:
          noise += ints(c.rounded_normal((2,)))
      R.emit("cycle", flat=flat, noise=noise, const="2")
    for C in (rs.PseudorandomSource, rs.SystemRandomSource, rs.CycleRng):
      for f in FN.values():
        for sh in ((-1,), (2, -3), (-2, -3)):
          try:
            getattr(C(), f)(sh)
            ok, err = True, ""
          except Exception as ex:  # pylint: disable=broad-except
            ok, err = False, type(ex).__name__
          R.emit("reject", what=f"{C.__name__}.{f} shape {list(sh)}", ok=ok, err=err)
  R.guard("sources", once)


def p11():
  from jaxite.jaxite_bool import type_converters as tc
  rng = R.rng
  bi = lambda bs: [int(b) for b in bs]

  def reject(what, fn, *a):
    try:
      fn(*a)
      ok, err = True, ""
    except Exception as ex:  # pylint: disable=broad-except
      ok, err = False, type(ex).__name__
    R.emit("reject", what=what, ok=ok, err=err)

  def uint(x, w):
    def f():
      b = tc.uint_to_bit_slice(x, w)
      R.emit("uint", x=str(x), w=w, bits=bi(b), back=str(int(tc.bit_slice_to_uint(b, w))))
    R.guard("uint", f)

  def by(bs):
    def f():
      b = tc.u8_list_to_bit_slice(list(bs))
      R.emit("bytes", bytes=list(bs), bits=bi(b), back=list(tc.bit_slice_to_bytes(b)))
    R.guard("bytes", f)

  def st(t, n, pad=None):
    def f():
      a = [t] + ([n] if n is not None else []) + ([pad] if pad is not None else [])
      b = tc.str_to_cleartext(*a)
      R.emit("str", text=list(t.encode("ascii")), slen=n or 0, padb=(pad or b" ")[0], bits=bi(b),
             back=list(tc.cleartext_to_str(b).encode("ascii")))
    R.guard("str", f)

  if R.shard == 0:
    for x in range(256):
      def f():
        b = tc.u8_to_bit_slice(x)
        R.emit("uint", x=str(x), w=8, bits=bi(b), back=str(int(tc.bit_slice_to_u8(b))))
      R.guard("u8", f)
      by([x])
      by([x ^ 0xA5, x, 255 - x])
      def g():
        bits = [bool((x >> j) & 1) for j in range(8)]
        R.emit("bits", bits=bi(bits), bytes=list(tc.bit_slice_to_bytes(bits)))
        bits += [True] * (x % 8)
        R.emit("bits", bits=bi(bits), bytes=list(tc.bit_slice_to_bytes(bits)))
      R.guard("bits", g)
    for w in (0, 1, 2, 7, 8, 9, 16, 31, 32, 33, 64, 65):
      for x in {0, 1, 2**w - 1, 2**w // 2, 2**w // 3}:
        if x < 2**w:
          uint(x, w)
    for x in (-1, 256, 1000, -256):
      reject(f"u8_to_bit_slice {x}", tc.u8_to_bit_slice, x)
      reject(f"u8_list_to_bit_slice [1, {x}]", tc.u8_list_to_bit_slice, [1, x])
    for n in (0, 1, 7, 9, 16):
      reject(f"bit_slice_to_u8 of {n} bits", tc.bit_slice_to_u8, [True] * n)
      reject(f"bit_slice_to_uint of {n} bits as 8", tc.bit_slice_to_uint, [True] * n, 8)
    reject("u8_list_to_bit_slice []", tc.u8_list_to_bit_slice, [])
    reject("bit_slice_to_bytes []", tc.bit_slice_to_bytes, [])
    for c in range(1, 128):
      st(chr(c), None)
      st("x" + chr(c) + chr(128 - c), 3 + c % 7)
    for t, n in (("", 4), ("a", 1), ("ab", 2), ("hello", 12), ("hello", 5), ("~" * 40, 64)):
      st(t, n)
      st(t, n, b"\0")
      st(t, n, b"\x7f")
  for _ in range(40 if not R.thorough else 2000):
    w = rng.randint(1, 80)
    uint(rng.getrandbits(w), w)
    by([rng.choice([0, 1, 127, 128, 254, 255, rng.randrange(256)]) for _ in range(rng.randint(1, 20))])
    n = rng.randint(1, 30)
    bits = [rng.random() < .5 for _ in range(n)]
    R.guard("bits", lambda: R.emit("bits", bits=bi(bits), bytes=list(tc.bit_slice_to_bytes(bits))))
    t = "".join(chr(rng.randrange(1, 128)) for _ in range(rng.randint(1, 12)))
    st(t, rng.choice([None, len(t), len(t) + rng.randint(0, 9)]), rng.choice([None, b"\0", b"_"]) if False else None)


{"p10": p10, "p11": p11}[R.mode]()
R.close()
