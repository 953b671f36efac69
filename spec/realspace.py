"""Projected correlation functions from power spectra by the FFTLog transform, and their correction to a data cosmology."""
import numpy as np
from fftlog import fht, fhti
from scipy.integrate import simpson
from scipy.interpolate import interp1d


def grid(kmin, kmax, n):
    return np.logspace(np.log10(kmin), np.log10(kmax), n)


def step(kmin, kmax, n):
    return np.log(kmax / kmin) / (n - 1)


def kernel(mu, kmin, kmax, n):
    return fhti(n, mu, step(kmin, kmax, n), q=0.0, kropt=1)


def separations(mu, kmin, kmax, n):
    """log-spaced with the step of the wavenumbers; the product of the central values of both grids is kr"""
    kr, xsave = kernel(mu, kmin, kmax, n)
    j = np.arange(1, n + 1)
    return kr / np.sqrt(kmin * kmax) * np.exp((j - (n + 1) / 2) * step(kmin, kmax, n))


def resample(k_in, p, k):
    """power law between and beyond the tabulated wavenumbers; for mixed signs linear in log k"""
    if np.all(p > 0):
        return np.exp(interp1d(np.log(k_in), np.log(p), 'linear', bounds_error=False, fill_value='extrapolate')(np.log(k)))
    if np.all(p < 0):
        return -np.exp(interp1d(np.log(k_in), np.log(-p), 'linear', bounds_error=False, fill_value='extrapolate')(np.log(k)))
    return interp1d(np.log(k_in), p, 'linear', bounds_error=False, fill_value='extrapolate')(np.log(k))


def inside(mu, kmin, kmax, n, rmin, rmax):
    r = separations(mu, kmin, kmax, n)
    return (r > rmin) & (r < rmax)


def rp(mu, kmin, kmax, n, rmin, rmax):
    return separations(mu, kmin, kmax, n)[inside(mu, kmin, kmax, n, rmin, rmax)]


def transform(mu, kmin, kmax, n, rmin, rmax, k_in, p):
    k = grid(kmin, kmax, n)
    kr, xsave = kernel(mu, kmin, kmax, n)
    xi = fht(k * resample(k_in, p, k), xsave, tdir=-1) / (2 * np.pi * separations(mu, kmin, kmax, n))
    return xi[inside(mu, kmin, kmax, n, rmin, rmax)]


def projected(mu, kmin, kmax, n, rmin, rmax, z, k_in, p, z_n, n_z, scale):
    """integral over the redshift distribution, which is zero outside its table"""
    xi = np.zeros((len(z), len(rp(mu, kmin, kmax, n, rmin, rmax))))
    for j in range(len(z)):
        xi[j] = transform(mu, kmin, kmax, n, rmin, rmax, k_in, p[j])
    w = interp1d(z_n, n_z, kind='linear', fill_value=0.0, bounds_error=False)(z)
    return scale * simpson(w[:, np.newaxis] * xi, z, axis=0)


def times(a, b):
    return a * b


def per(a, b):
    return a / b


def axis_ratio(run, data, z):
    return run.comoving_distance(z) * run.h / (data.comoving_distance(z) * data.h)


def wp_ratio(run, data, z):
    return data.efunc(z) * data.h / (run.efunc(z) * run.h)


def inverse_sigma_crit(c, z, zs):
    return c.angular_diameter_distance(z) * c.angular_diameter_distance_z1z2(z, zs) / c.angular_diameter_distance(zs)


def ds_ratio(run, data, z):
    """ratio of critical surface densities for sources at redshift 0.6"""
    return inverse_sigma_crit(run, z, 0.6) * run.h / (inverse_sigma_crit(data, z, 0.6) * data.h)
