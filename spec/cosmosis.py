"""What the CosmoSIS module hands to the halo model, from the contents of the data block and the module options."""
import numpy as np
from scipy.interpolate import interp1d


def z_grid(zmin, zmax, nz):
    return np.linspace(zmin, zmax, nz)


def k_grid(k, nk):
    return np.logspace(np.log10(k[0]), np.log10(k[-1]), nk)


def dlog10m(mmin, mmax, n):
    return (mmax - mmin) / n


def resample(p, z_in, k_in, z, k):
    """linear in redshift, then linear in log wavenumber and log power"""
    t = interp1d(z_in, p, axis=0)(z)
    return np.exp(interp1d(np.log(k_in), np.log(t), axis=1, kind='linear', fill_value='extrapolate')(np.log(k)))


def ten(x):
    return 10.0**x


def logk():
    return np.log(1e-8), np.log(1e8), 0.05


def vec(*a):
    return np.array(list(a))


def low(a):
    return np.array([a.min()])


def high(a):
    return np.array([a.max()])


def masses(mmin, mmax, d):
    return 10.0 ** np.arange(mmin, mmax, d)


def omega_lambda(om):
    return 1.0 - om


def rho_crit(rho, om):
    return rho / om


def ones(z):
    return np.ones_like(z)


def flat(a):
    return np.asarray([a]).flatten()


def rows(a, b):
    return a[b]


def first(a):
    return a[0]


def grid_axis(a, b):
    return a[b, 0, :]
