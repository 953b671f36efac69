"""Upsampling of spectra to a requested grid and mixing of two galaxy populations."""
import numpy as np
from scipy.interpolate import interp1d


def upsample(z_out, k_out, z, k, p, outside):
    """linear in redshift, then linear in log wavenumber"""
    t = interp1d(z, p, kind='linear', fill_value=outside, bounds_error=False, axis=1)(z_out)
    return interp1d(np.log10(k), t, kind='linear', fill_value='extrapolate', bounds_error=False, axis=2)(np.log10(k_out))


def fraction(z_out, fz, f):
    return interp1d(fz, f, kind='linear', fill_value='extrapolate', bounds_error=False, axis=0)(z_out)


def all_first(z_out):
    return np.ones_like(z_out)


def second(f):
    return 1.0 - f


def mix_pair(f, p, q):
    """both tracers belong to the population"""
    return f[:, None] ** 2 * p + (1.0 - f[:, None]) ** 2 * q


def mix_single(f, p, q):
    """one tracer belongs to the population, the other is matter"""
    return f[:, None] * p + (1.0 - f[:, None]) * q


def zero(p):
    return np.zeros_like(p)
