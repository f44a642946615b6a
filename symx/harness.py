"""Registry of harnesses."""
REG = {}     # property id -> list[Harness]
META = {}    # property id -> dict (assumptions, bounds text ...)


class Harness:
  def __init__(self, prop, name, fn, shards, must, strings, truediv, extra, setup, budget, allow_exc, model_patch, fmt, known):
    self.known = known
    self.prop, self.name, self.fn = prop, name, fn
    self._shards, self.must, self.strings, self.truediv, self.extra = shards, must, strings, truediv, extra
    self.setup, self.budget, self.allow_exc, self.model_patch, self.fmt = setup, budget, allow_exc, model_patch, fmt
  def shards(self, tier):
    s = self._shards
    if callable(s): s = s(tier)
    if isinstance(s, dict): s = s[tier]
    return [dict(x, _tier=tier) for x in (s or [{}])]


def harness(prop, name, shards=None, must=(), strings=False, truediv="real", extra=None, setup=None, budget=None, allow_exc=(), model_patch=False, fmt="placeholder", known=False):
  def deco(fn):
    REG.setdefault(prop, []).append(Harness(prop, name, fn, shards, tuple(must), strings, truediv, extra, setup, budget, allow_exc, model_patch, fmt, known))
    return fn
  return deco


def meta(prop, **kw): META.setdefault(prop, {}).update(kw)
