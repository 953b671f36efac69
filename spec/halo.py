"""Reference formulas of the halo-model spectra.

Written from the published halo model (Cooray & Sheth 2002; Asgari, Mead &
Heymans 2023; Mead et al. 2020, 2021; Fortuna et al. 2021), not from the code.
These functions are never executed: the analyser reads them exactly as it reads
the repository and compares value numbers.  Axes: b bins, z redshift, k
wavenumber, m halo mass.
"""
import numpy as np
from scipy.integrate import simpson
from scipy.ndimage import gaussian_filter1d


# ------------------------------------------------------------------ damping
def one_halo_damping(k, kt):
    if kt is None:
        return np.ones_like(k)
    x4 = (k / kt) ** 4
    return 1.0 - 1.0 / (1.0 + x4)


def two_halo_damping(k, kt):
    if kt is None:
        return np.ones_like(k)
    y = (k / 0.05699) ** 2.853
    return 1.0 - 0.05 * y / (1.0 + y)


def one_halo_damping_ia(k, kt):
    if kt is None:
        return np.ones_like(k)
    return 1.0 - np.exp(-(k**2) / kt**2)


def two_halo_damping_ia(k, kt):
    if kt is None:
        return np.ones_like(k)
    return np.exp(-(k**2) / kt**2)


def mead_one_halo_damping(k, s8):
    kstar = 0.05618 * s8[:, None] ** (-1.013)
    x4 = (k[None, :] / kstar) ** 4
    return x4 / (1.0 + x4)


def mead_two_halo_damping(k, s8):
    f = 0.2696 * s8[:, None] ** 0.9403
    y = (k[None, :] * s8[:, None] ** 1.089 / 0.05699) ** 2.853
    return 1.0 - f * y / (1.0 + y)


def mead_transition(k, neff, p1, p2):
    alpha = (1.875 * 1.603**neff)[None, :, None]
    fac = (k**3 / (2.0 * np.pi**2))[None, None, :]
    return ((fac * p1) ** alpha + (fac * p2) ** alpha) ** (1.0 / alpha) / fac


# ------------------------------------------------------------------ profiles
def matter_profile(mass, rho, u):
    """[1,z,k,m]: M u(k|M) / rho_m"""
    return mass * u[None, :, :, :] / rho[None, :, None, None]


def feedback_profile(mass, rho, u, z, theta, oc, ob):
    om = oc + ob
    zz = z[None, :, None, None]
    fstar = 0.01 * (2.01 - 0.3 * theta) * 10.0 ** (zz * (0.409 + 0.0224 * theta))
    mb = 10.0 ** (13.87 + 1.81 * theta + zz * (0.195 * theta - 0.108))
    return baryon_profile(mass, rho, u, fstar, mb, oc, ob)


def baryon_profile(mass, rho, u, fstar, mb, oc, ob):
    om = oc + ob
    x = (mass / mb) ** 2
    fgas = (ob / om - fstar) * x / (1.0 + x)
    w0 = mass / rho[None, :, None, None]
    return w0 * ((oc / om + fgas) * u[None, :, :, :] + fstar)


def central_profile(f_c, n_cen, dens_cen, u):
    return f_c[:, :, None, None] * n_cen[:, :, None, :] / dens_cen[:, :, None, None] + 0.0 * u[None, :, :, :]


def satellite_profile(f_s, n_sat, dens_sat, u):
    return f_s[:, :, None, None] * n_sat[:, :, None, :] * u[None, :, :, :] / dens_sat[:, :, None, None]


def central_alignment(f_c, amp, growth, mass, mean_mass, mpivot, beta, u):
    """C1(z)/D(z) M (Mbar/Mpiv)^beta ; C1 = 5e-14 A_IA"""
    c1 = 5.0e-14 * amp / growth
    r = f_c[:, :, None, None] * c1[None, :, None, None] * mass
    if beta is not None and mpivot is not None:
        r = r * (mean_mass[:, :, None, None] / mpivot) ** beta
    return r


def satellite_alignment(f_s, n_sat, dens_sat, wkm, mean_mass, mpivot, beta):
    r = f_s[:, :, None, None] * n_sat[:, :, None, :] * wkm / dens_sat[:, :, None, None]
    if beta is not None and mpivot is not None:
        r = r * (mean_mass[:, :, None, None] / mpivot) ** beta
    return r


# ----------------------------------------------------------------- integrals
def one_halo(w1, w2, mass, dndlnm):
    """int dn/dM W1 W2 dM"""
    return simpson(w1 * w2 * (dndlnm / mass)[None, :, None, :], x=mass, axis=-1)


def bias_integral(w, mass, dndlnm, bias):
    """int dn/dM b(M) W dM"""
    return simpson(w * (bias * dndlnm / mass)[None, :, None, :], x=mass, axis=-1)


def missing_bias(mass, dndlnm, bias, rho):
    """1 - int M/rho b dn/dM dM : bias-weighted mass in haloes below the grid, [1,z,1]"""
    full = simpson(bias * dndlnm / rho[:, None], x=mass, axis=-1)
    return (1.0 - full)[None, :, None]


def matter_bias_integral(u, mass, dndlnm, bias, rho):
    i = simpson(u * (bias * dndlnm / rho[:, None])[:, None, :], x=mass, axis=-1)
    return i[None, :, :] + missing_bias(mass, dndlnm, bias, rho)


def alignment_bias_integral(w, mass, dndlnm, bias, rho):
    i = bias_integral(w, mass, dndlnm, bias)
    return i + missing_bias(mass, dndlnm, bias, rho) * w[:, :, :, 0] * (rho / mass[0])[None, :, None]


def trapz_weights(x):
    d = x[1:] - x[:-1]
    lo = np.append(d, 0.0 * d[-1])
    hi = np.append(0.0 * d[0], d)
    return 0.5 * (lo + hi)


def beta_integral(w1, w2, mass, dndlnm, bias, rho, beta):
    """int int dn1 b1 W1 dn2 b2 W2 beta_NL(k,z,M1,M2), Mead & Verde 2021 eqs 19-23 with the low-mass correction"""
    t = trapz_weights(mass)
    nb = bias * dndlnm / mass * t
    a = missing_bias(mass, dndlnm, bias, rho)
    r = (rho / mass[0])[None, :, None]
    h1 = w1 * nb[None, :, None, :]
    h2 = w2 * nb[None, :, None, :]
    i22 = np.einsum('bzki,bzkj,zkij->bzk', h1, h2, beta)
    i12 = np.einsum('bzkj,zkj->bzk', h2, beta[:, :, 0, :]) * a * r * w1[:, :, :, 0]
    i21 = np.einsum('bzki,zki->bzk', h1, beta[:, :, :, 0]) * a * r * w2[:, :, :, 0]
    i11 = beta[:, :, 0, 0][None, :, :] * (a * r) ** 2 * w1[:, :, :, 0] * w2[:, :, :, 0]
    return i11 + i12 + i21 + i22


# ------------------------------------------------------------------ dewiggle
def dewiggled(k, plin, ns, lnt):
    """P - (1 - exp(-k^2 sigma_v^2)) (P - P_smooth)"""
    dlnk = np.log(k[1] / k[0])
    sv2 = simpson(plin * k, dx=dlnk, axis=-1) / (6.0 * np.pi**2)
    smooth0 = k**ns * np.exp(2.0 * lnt(np.log(k)))
    smooth = gaussian_filter1d(plin / smooth0, 0.25 / dlnk) * smooth0
    return plin - (1.0 - np.exp(-(k[None, :] ** 2) * sv2[:, None])) * (plin - smooth)


# ------------------------------------------------------------------- poisson
def poisson_factor(mass, p, pivot, slope):
    if pivot is None:
        return p + 0.0 * mass
    return p * (mass / 10.0**pivot) ** slope


def one_halo_weighted(w1, w2, f, mass, dndlnm):
    return simpson(w1 * w2 * f * (dndlnm / mass)[None, :, None, :], x=mass, axis=-1)


def eh_nowiggle(cosmo):
    from hmf.density_field.transfer_models import EH_NoBAO
    return EH_NoBAO(cosmo).lnt


def default_pivot_mass():
    return 10.0**13.87


def stellar_fraction(z, theta):
    return 0.01 * (2.01 - 0.3 * theta) * 10.0 ** (z * (0.409 + 0.0224 * theta))


def pivot_mass(z, theta):
    return 10.0 ** (13.87 + 1.81 * theta + z * (0.195 * theta - 0.108))


def gas_fraction(m, mb, fstar, oc, ob):
    x = (m / mb) ** 2
    return (ob / (oc + ob) - fstar) * x / (1.0 + x)
