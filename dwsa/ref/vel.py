"""Largest wave speed of a model."""


def regular(v):
    return v.abs().max().item()


def elastic(lamb, mu, buoyancy):
    vs = (mu * buoyancy).sqrt()
    vp = ((lamb + 2 * mu) * buoyancy).sqrt()
    return max(vp.abs().max().item(), vs.abs().max().item())
