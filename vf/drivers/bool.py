"""Replays TLC-generated Boolean programs into jaxite_bool."""
import rec
R = rec.Rec()
rec.setup_repo()
import numpy as np
from jaxite.jaxite_bool import bool_params, jaxite_bool as jb
from jaxite.jaxite_cggi import decomposition, parameters, random_source

EB = 12  # |normal(0, 1)| never reaches this in any feasible number of draws
PROFILES = [  # lwe_dim, rlwe_dim, N, bootstrap (log_base, levels), key switch
    (2, 1, 64, (4, 8), (4, 8)),
    None,  # bool_params.get_params_for_test()
    (6, 2, 128, (4, 6), (4, 5)),
    (4, 1, 128, (8, 4), (2, 12)),
    (4, 1, 1024, (4, 7), (4, 7)),
]


class Session:

  def __init__(self, s, prof, seed, callback=False):
    self.s = s
    if PROFILES[prof] is None:
      self.params = bool_params.get_params_for_test()
    else:
      n, k, N, bs, ks = PROFILES[prof]
      self.params = bool_params.Parameters(
          parameters.SchemeParameters(lwe_dimension=n, plaintext_modulus=2**32, rlwe_dimension=k,
                                      polynomial_modulus_degree=N),
          decomposition.DecompositionParameters(*ks), decomposition.DecompositionParameters(*bs))
    self.lr = bool_params.get_rng_for_test(seed)
    self.rr = bool_params.get_rng_for_test(seed + 10**6)
    self.cks = jb.ClientKeySet(self.params, lwe_rng=self.lr, rlwe_rng=self.rr)
    self.seen = []
    cb = (lambda *a, **k: self.seen.append(a[0])) if callback else None
    self.sks = jb.ServerKeySet(self.cks, self.params, lwe_rng=self.lr, rlwe_rng=self.rr,
                               bootstrap_callback=cb)
    self.regs = []

  def open(self):
    sp, bs, ks = self.params.scheme_params, self.params.bs_decomp_params, self.params.ks_decomp_params
    R.emit("session", s=self.s, key=np.asarray(self.cks.lwe_sk.key_data).astype(int).tolist(),
           dim=sp.lwe_dimension, k=sp.rlwe_dimension, n=sp.polynomial_modulus_degree,
           lb=bs.log_base, L=bs.level_count, klb=ks.log_base, kL=ks.level_count, E=EB)
    self.regs = []

  def run(self, o):
    p, k = self.params, self.sks
    a = [self.regs[i - 1] for i in o.get("a", [])]
    op = o["op"]
    if op == "constant":
      return [jb.constant(bool(o["v"]), p)]
    if op == "encrypt":
      return [jb.encrypt(bool(o["v"]), self.cks, self.lr)]
    if op == "not":
      return [jb.not_(a[0], p)]
    if op == "cmux":
      return [jb.cmux_(*a, k, p)]
    if op in ("lut1", "lut2", "lut3"):
      return [getattr(jb, op)(*a, o["tt"], k, p)]
    if op in ("pmap2", "pmap3"):
      fn = jb.pmap_lut2 if op == "pmap2" else jb.pmap_lut3
      return list(fn([tuple(self.regs[i - 1] for i in r["a"]) + (r["tt"],) for r in o["reqs"]], k, p))
    return [getattr(jb, op + "_")(*a, k, p)]

  def dec(self, ct):
    try:
      return int(jb.decrypt(ct, self.cks))
    except AssertionError:
      return -1

  def step(self, o):
    ok, out, err, res = True, [], "", []
    try:
      res = self.run(o)
      out = [dict(ct=rec.v32(c), dec=self.dec(c)) for c in res]
    except Exception as ex:  # pylint: disable=broad-except
      ok, err, out = False, type(ex).__name__, []
    o = dict(o)
    R.emit("op", s=self.s, o=o, ok=ok, err=err, out=out)
    self.regs += res
    return ok or (o["op"] == "lut1" and not 0 <= o["tt"] <= 3)

  def final(self):
    R.emit("final", s=self.s, decs=[self.dec(c) for c in self.regs])


def main():
  plans = R.mine(R.plans())
  mode = R.mode
  if mode == "all":
    ses = Session(1, 0, 100 * R.seed + R.shard, callback=R.shard % 2 == 1)
    for p in plans:
      ses.open()
      for o in p["ops"]:
        if not ses.step(o):
          break
  elif mode == "circuits":
    # two sessions with different parameters interleave in one process; keys
    # and parameter objects are reused over several programs
    per = 4
    for i, p in enumerate(plans):
      if i % per == 0:
        j = i // per + R.shard
        sessions = [Session(1, j % len(PROFILES), 1000 * R.seed + 10 * j + 1),
                    Session(2, (j + 1 + j // len(PROFILES)) % len(PROFILES), 1000 * R.seed + 10 * j + 2, callback=True)]
      for s in sessions:
        s.open()
      good = True
      for o in p["ops"]:
        good = sessions[o["s"] - 1].step(o)
        if not good:
          break
      if good:
        for s in sessions:
          s.final()
  elif mode == "pmap":
    for i, p in enumerate(plans):
      if i % 6 == 0:
        ses = Session(1, [0, 3, 0, 2][(i // 6) % 4], 77 * R.seed + 13 * i + R.shard)
      ses.open()
      good = True
      for o in p["ops"]:
        good = ses.step(o)
        if not good:
          break
      if good:
        ses.final()


R.guard("bool", main)
R.close()
