"""Reference PML profiles, interpreted by the analyser and compared with the
tensors the propagators build.  Convolutional PML with a quadratic profile."""
import math

import torch


def depth(x, n, pad0, pad1, width0, width1):
    """Fraction of the way through the layer of each coordinate."""
    d = torch.zeros_like(x)
    if width0 > 0:
        d = torch.maximum(d, (pad0 + width0 - x) / width0)
    if width1 > 0:
        d = torch.maximum(d, (x - (n - 1 - pad1 - width1)) / width1)
    return torch.clamp(d, min=0, max=1)


def profile(offset, n, pad0, pad1, width0, width1, thickest, dt, vel, freq, dtype, device):
    x = torch.arange(offset, offset + n, device=device, dtype=dtype)
    d = depth(x, n, pad0, pad1, width0, width1)
    sigma = 3 * vel * -math.log(0.001) / (2 * thickest) * d * d
    alpha = math.pi * freq * (1 - d)
    a = torch.exp(-(sigma + alpha) * abs(dt))
    b = sigma / (sigma + alpha) * (a - 1)
    return torch.where(d == 0, torch.zeros_like(a), a), b
