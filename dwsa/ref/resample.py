"""Reference Fourier resampling in time."""
import math

import torch


def low_pass(s, frac):
    """Remove the highest frequency, or taper the given fraction to zero."""
    n = s.shape[-1]
    if frac > 0:
        m = int(frac * n)
        k = torch.arange(n, device=s.device)
        w = torch.where(k < n - m, torch.ones_like(k, dtype=torch.float64),
                        (torch.cos((k - (n - m) + 1) * (math.pi / m)) + 1) / 2)
        return s * w
    if n > 1:
        k = torch.arange(n, device=s.device)
        return torch.where(k < n - 1, s, torch.zeros_like(s))
    return s


def upsample(x, ratio, freq_taper_frac=0.0, time_pad_frac=0.0, time_taper=False):
    if ratio == 1:
        return x
    n = x.shape[-1]
    extra = 0
    if time_pad_frac > 0:
        extra = int(time_pad_frac * n)
    if extra > 0:
        x = torch.nn.functional.pad(x, (0, extra))
    else:
        extra = 0
    s = torch.fft.rfft(x, norm="ortho") * math.sqrt(ratio)
    s = low_pass(s, freq_taper_frac)
    out = (n + extra) * ratio
    s = torch.nn.functional.pad(s, (0, out // 2 + 1 - s.shape[-1]))
    y = torch.fft.irfft(s, n=out, norm="ortho")
    y = y[..., :n * ratio]
    if time_taper:
        y = y * torch.hann_window(n * ratio, periodic=False, device=y.device)
    return y


def downsample(x, ratio, freq_taper_frac=0.0, time_pad_frac=0.0, time_taper=False):
    if ratio == 1:
        return x
    if time_taper:
        x = x * torch.hann_window(x.shape[-1], periodic=False, device=x.device)
    n = x.shape[-1] // ratio
    extra = 0
    if time_pad_frac > 0:
        extra = int(time_pad_frac * n)
    if extra > 0:
        x = torch.nn.functional.pad(x, (0, extra * ratio))
    else:
        extra = 0
    m = n + extra
    s = torch.fft.rfft(x, norm="ortho")[..., :m // 2 + 1]
    s = low_pass(s, freq_taper_frac)
    y = torch.fft.irfft(s, n=m, norm="ortho") / math.sqrt(ratio)
    return y[..., :n]
