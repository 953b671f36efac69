"""Non-linear halo bias measured from the Dark Emulator (Mead & Verde 2021, Mahony et al. 2022)."""
import numpy as np
from scipy.interpolate import RegularGridInterpolator, interp1d
from dark_emulator import darkemu

RANGE = [[0.0211375, 0.0233625], [0.10782, 0.13178], [0.54752, 0.82128], [2.4752, 3.7128], [0.916275, 1.012725], [-1.2, -0.8]]
RHO_CRIT = 2.77536627e11


def clamp(p):
    """every parameter moved to the nearest edge of the emulator's range"""
    return np.array([[np.minimum(np.maximum(p[i], RANGE[i][0]), RANGE[i][1]) for i in range(6)]])


def emulator(ob, oc, ol, h, ns, w, sigma8, a_s):
    e = darkemu.base_class()
    if a_s is None:
        e.set_cosmology(clamp([ob * h**2, oc * h**2, ol - 0.00064, np.log(2.1e-9 * 1e10), ns, w]))
        a_s = 2.1e-9 * (sigma8 / e.get_sigma8()) ** 2
    e.set_cosmology(clamp([ob * h**2, oc * h**2, ol - 0.00064, np.log(a_s * 1e10), ns, w]))
    return e


def smallest_halo(e):
    """mass of 200 particles and the matching wavenumber"""
    vol = 1000.0**3 * 200.0 / 2048.0**3
    return RHO_CRIT * e.cosmo.get_Omega0() * vol, 2.0 * np.pi / (3.0 * vol / (4.0 * np.pi)) ** (1.0 / 3.0)


def virial_radius(e, mass):
    return (3.0 * mass / (4.0 * np.pi * 200.0 * RHO_CRIT * e.cosmo.get_Omega0())) ** (1.0 / 3.0)


def low_cut(k, kt):
    return 1.0 / (1.0 + np.exp(-10.0 * np.log10(k / kt)))


def high_cut(k, kt):
    return 1.0 / (1.0 + np.exp(10.0 * np.log10(k / kt)))


def low_cut2(k, kt):
    return 1.0 / (1.0 + np.exp(-10.0 * (np.log10(k) - np.log10(kt))))


def high_cut2(k, kt):
    return 1.0 / (1.0 + np.exp(10.0 * (np.log10(k) - np.log10(kt))))


def maxima(y):
    return (np.diff(np.sign(np.diff(y))) < 0).nonzero()[0] + 1


def lin_bias(e, m, z):
    klin = np.array([0.05])
    return np.sqrt(e.get_phh_mass(klin, m, m, z) / e.get_pklin_from_z(klin, z))


def on_grid(f, mass, k):
    """interpolator evaluated at (m1, m2, k), stored as (k, m1, m2)"""
    x, y = np.log10(mass), np.log10(k)
    return np.array([[[f((x[i], x[j], y[q])) for j in range(mass.size)] for i in range(mass.size)] for q in range(k.size)])


def tabulate(e, z, m, k, kmax):
    """smoothed upper envelope of P_hh/(b1 b2 P_lin) - 1 of every pair, made to vanish at 0.05 and cut at both ends"""
    klin = np.array([0.05])
    b = [lin_bias(e, m[i], z)[0] for i in range(m.size)]
    cut = low_cut2(k, klin) * high_cut2(k, 3.0 * kmax)
    out = np.zeros((m.size, m.size, k.size))
    for i in range(m.size):
        for j in range(m.size):
            p = e.get_phh_mass(k, m[i], m[j], z)
            p = p - np.mean(p[(k > 100.0) & (k < 200.0)])
            ratio = np.abs(p / (b[i] * b[j] * e.get_pklin_from_z(k, z)) - 1.0 + 1.0)
            top = maxima(ratio)
            env = interp1d(k[top], ratio[top], kind='quadratic', bounds_error=False, fill_value='extrapolate')
            out[i, j, :] = ((env(k) - 1.0) - (env(klin)[0] - 1.0)) * cut
    return out


def interpolator(e, z):
    small, kmax = smallest_halo(e)
    m = np.logspace(np.log10(small), 14.0, 5)
    k = np.logspace(-3.0, np.log10(200), 1000)
    t = tabulate(e, z, m, k, kmax)
    return RegularGridInterpolator((np.log10(m), np.log10(m), np.log10(k)), t, method='nearest', bounds_error=False, fill_value=None)


def table(e, z, mass, k, z_dep):
    if z_dep:
        return np.array([on_grid(interpolator(e, z[i]), mass, k) for i in range(z.size)])
    return on_grid(interpolator(e, 0.01), mass, k)[None]
