"""Replays TLC-generated calls of batch_vmap."""
import rec
R = rec.Rec()
rec.setup_repo()
import jax
import jax.numpy as jnp
import numpy as np
from jaxite.jaxite_cggi import jax_helpers

rng = R.rng
FN = dict(sum=lambda a: jnp.sum(a), lin2=lambda a, b: 3 * a - b, three=lambda a, b, c: a - 2 * b + 5 * c,
          tree=lambda t, c: (7 * t["x"] - t["y"], t["y"] * c))


def arr(p, ax):
  sh = list(p["sh"])
  if ax != 99:
    k = ax if ax >= 0 else ax + len(sh) + 1
    sh.insert(k, p["n"])
  return np.array([rng.randint(-99, 99) for _ in range(int(np.prod(sh)))], dtype=np.int32).reshape(sh)


def one(p):
  kind, n, b, ax, oa = p["kind"], p["n"], p["b"], p["ax"], p["oa"]
  leaves = [arr(p, a) for a in ax]
  axes = [None if a == 99 else a for a in ax]
  if kind == "tree":
    args = (dict(x=jnp.array(leaves[0]), y=jnp.array(leaves[1])), jnp.array(leaves[2]))
    if axes[0] is None:
      in_axes = (None, axes[2])
    elif axes[0] == axes[1] and p["form"] <= 2:
      in_axes = (axes[0], axes[2])
    else:
      in_axes = (dict(x=axes[0], y=axes[1]), axes[2])
    out_axes = oa[0] if oa[0] == oa[1] and p["form"] <= 2 else tuple(oa)
  else:
    args = tuple(jnp.array(x) for x in leaves)
    in_axes = axes[0] if len(set(axes)) == 1 and axes[0] is not None and p["form"] <= 3 else (list(axes) if p["form"] == 2 else tuple(axes))
    out_axes = oa[0]
  f = jax_helpers.batch_vmap(FN[kind], in_axes, out_axes, batch_size=b)
  if p["form"] == 4:
    f = jax.jit(f)
  out = f(*args)
  outs = out if kind == "tree" else (out,)
  pk = lambda x: dict(sh=[int(i) for i in x.shape], d=[int(v) for v in np.asarray(x).ravel()])
  R.emit("batch", kind=kind, n=n, b=b, sh=p["sh"], ax=ax, oa=oa, args=[pk(x) for x in leaves], outs=[pk(x) for x in outs])


for p in R.mine(R.plans()):
  R.guard("batch_vmap", lambda: one(p))
R.close()
