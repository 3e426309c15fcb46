"""Scenario description shared by the symbolic and the concrete world (no solver import here)."""


class S:
    """One scenario: fn(w, **params) is run symbolically over all values of the inputs it asks the world for.

    tier: 'quick' scenarios run in both tiers, 'thorough' only in the thorough tier.  tparams/topts override the
    parameters and engine options in the thorough tier (deeper bounds)."""

    def __init__(self, name, fn, params=None, opts=None, tier="quick", tparams=None, topts=None, bounds="", group=None):
        self.name, self.fn = name, fn
        self.params, self.opts = params or {}, opts or {}
        self.tier, self.tparams, self.topts = tier, tparams or {}, topts or {}
        self.bounds = bounds

    def p(self, tier):
        d = dict(self.params)
        if tier == "thorough":
            d.update(self.tparams)
        return d

    def o(self, tier):
        d = dict(self.opts)
        if tier == "thorough":
            d.update(self.topts)
        return d


class Skip(Exception):
    """an assumption of the scenario does not hold for these concrete inputs"""


class CheckFailed(Exception):
    pass
