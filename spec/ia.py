"""Intrinsic-alignment amplitudes and the satellite alignment multipoles (Fortuna et al. 2021, Johnston et al. 2021)."""
import numpy as np
from astropy.io import fits
from hankel import HankelTransform
from scipy.fft import fht, fhtoffset
from scipy.integrate import simpson
from scipy.interpolate import RegularGridInterpolator, interp1d
from scipy.special import binom, gamma

NLUM = 10000
CORE = 0.06
CAP = 0.3
# angular integrals for a line of sight perpendicular to the wave vector, per multipole 0, 2, 4, ...
ANGULAR = {
    0: [0, 2.77582637, -0.19276603, 0.04743899, -0.01779024, 0.00832446, -0.00447308],
    -2: [0, 4.71238898, -2.61799389, 2.06167032, -1.76714666, 1.57488973, -1.43581368],
}


def luminosities(name, z, i):
    """luminosities of the galaxies whose redshift falls in the cell around the i-th redshift"""
    cat = fits.open(name)[1].data
    half = (z[1] - z[0]) / 2.0
    zg = np.array(cat['z'])
    hi = z[i + 1] - half if i + 1 < z.size else z[i] + half
    sel = (zg >= z[i] - half) & (zg < hi)
    return 10.0 ** np.array(cat['loglum'])[sel]


def pdf(name, z):
    """bin centres and density of the luminosity histogram of each redshift"""
    centre = np.zeros([z.size, NLUM])
    dens = np.zeros([z.size, NLUM])
    for i in range(z.size):
        lum = luminosities(name, z, i)
        if lum.size:
            n, edges = np.histogram(lum, bins=NLUM, density=True)
            width = (edges[-1] - edges[0]) / NLUM
            centre[i] = edges[:-1] + width / 2.0
            dens[i] = n
    return centre, dens


def constant(amplitude, z):
    return amplitude * np.ones_like(z)


def mean_power(amplitude, lum, dens, pivot, slope):
    """amplitude times the population mean of (L/L0)^slope"""
    return amplitude * simpson(dens * (lum / pivot) ** slope, x=lum)


def mean_broken_power(amplitude, lum, dens, pivot, slope, slope_low, z):
    return np.array([
        simpson(dens[i] * np.where(lum[i] > pivot, amplitude * (lum[i] / pivot) ** slope, amplitude * (lum[i] / pivot) ** slope_low), x=lum[i])
        for i in range(z.size)
    ])


def multipoles(ell_max):
    return np.arange(0, ell_max + 1, 2)


def wavenumbers(n):
    return np.logspace(-3.0, 3.0, n)


def nfw_mass(r_s, c):
    return 4.0 * np.pi * r_s**3 * (np.log(1.0 + c) - c / (1.0 + c))


def shear_profile(r, r_s, r_vir, amplitude, slope, truncate):
    """density-weighted alignment of satellites: power law outside the core, constant inside, capped at 0.3"""
    shape = np.where(r < CORE, amplitude * (CORE / r_vir) ** slope, amplitude * (r / r_vir) ** slope)
    shape = np.clip(shape, None, CAP)
    x = r / r_s
    rho = 1.0 / (x * (1.0 + x) ** 2)
    if truncate:
        rho = np.where(r >= r_vir, 0.0, rho)
    return shape * rho


def beta_integral(a, b):
    return (1.0 + (-1.0) ** b) * gamma(a / 2.0 + 1.0) * gamma((b + 1.0) / 2.0) / (2.0 * gamma(a / 2.0 + b / 2.0 + 1.5))


def angular(ell, slope):
    """angular part for theta = pi/2, phi = 0"""
    if slope in (0, -2):
        return ANGULAR[slope][ell // 2]
    return angular_general(ell, slope)


def angular_general(ell, slope):
    th = np.pi / 2.0
    g = [0, 0, np.pi / 2, 0, np.pi / 2, 0, 15 * np.pi / 32, 0, 7 * np.pi / 16, 0, 105 * np.pi / 256, 0]
    tot = 0.0
    for m in range(ell + 1):
        inner = 0.0
        for j in range(m + 1):
            inner = inner + binom(m, j) * g[j] * np.sin(th) ** j * np.cos(th) ** (m - j) * beta_integral(j + slope, m - j)
        tot = tot + binom(ell, m) * binom(0.5 * (ell + m - 1.0), ell) * inner
    return 2.0**ell * tot


def radial_fftlog(i, ell, k_out, r_s, r_vir, c, amplitude, slope, truncate):
    """Hankel transform of order ell+1/2 of the shear profile on a logarithmic grid"""
    r = np.logspace(-8.0, 8.0, 512)
    r_vir = np.broadcast_to(r_vir, r_s.shape)
    dlnr = np.log(r[1] / r[0])
    bias = -(i + 2.0) / 2.0
    off = fhtoffset(dlnr, mu=ell + 0.5, initial=-2 * np.log(10.0), bias=bias)
    k = np.exp(off) / r[::-1]
    f = shear_profile(r[None, None, :], r_s[:, :, None], r_vir[:, :, None], amplitude[:, None, None], slope, truncate)
    t = fht(f * r**1.5 * np.sqrt(np.pi / 2.0), dlnr, mu=ell + 0.5, offset=off, bias=bias)
    u = t / (k**1.5 * nfw_mass(r_s, c)[:, :, None])
    return interp1d(k, u, axis=-1, kind='linear', fill_value='extrapolate', bounds_error=False)(k_out)


def radial_hankel(ell, n, k, r_s, r_vir, c, amplitude, slope, truncate):
    """the same transform by quadrature, for one redshift and mass"""
    ht = HankelTransform(ell + 0.5, n, np.pi / n)
    f = lambda x: shear_profile(x, r_s, r_vir, amplitude, slope, truncate) * np.sqrt(x * np.pi / 2.0)
    return ht.transform(f, k)[0] / (k**0.5 * nfw_mass(r_s, c))


def wkm(ell_max, u, slope, nz, nm, nk):
    """|sum over even multipoles of i^ell (2 ell + 1) f_ell u_ell|"""
    tot = np.zeros([nz, nm, nk], dtype=complex)
    for ell in range(0, ell_max + 1, 2):
        tot = tot + 1j**ell * (2.0 * ell + 1.0) * u[ell // 2] * angular(ell, slope)
    return np.abs(tot)


def resample_fftlog(k, w, k_out):
    return interp1d(k, w, axis=-1, kind='linear', fill_value='extrapolate', bounds_error=False)(k_out)


def resample_hankel(k, m, w, k_out, m_out):
    """log-log interpolation of w/k^2 for one redshift"""
    f = RegularGridInterpolator((np.log10(k).T, np.log10(m).T), np.log10(w / k**2).T, bounds_error=False, fill_value=None)
    lk, lm = np.meshgrid(np.log10(k_out), np.log10(m_out), sparse=True)
    return 10.0 ** f((lk.T, lm.T)).T * k_out**2


def linear_alignment_factor(amplitude, rho, growth):
    return -5e-14 * amplitude * rho / growth


def column(v):
    return v[:, None]


def wkm_list(ell_max, us, slope):
    tot = 0.0
    for i in range(0, ell_max // 2 + 1):
        ell = 2 * i
        f = angular(ell, slope)
        tot = tot + 1j**ell * (2.0 * ell + 1.0) * us[i] * f
    return np.abs(tot)


def hankel_table(ell_max, n, k, r_s, r_vir, c, amplitude, slope, truncate):
    r_vir = np.broadcast_to(r_vir, r_s.shape)
    return np.array([
        [
            [radial_hankel(ell, n, k, r_s[iz, im], r_vir[iz, im], c[iz, im], amplitude[iz], slope, truncate) for im in range(r_vir.shape[1])]
            for iz in range(amplitude.size)
        ]
        for ell in range(0, ell_max + 1, 2)
    ])


def resample_hankel_all(k, m, w, k_out, m_out, z):
    return np.array([resample_hankel(k, m, w[i], k_out, m_out) for i in range(z.size)])


def on_spectra_grid(w):
    """(z, mass, k) -> (1, z, k, mass)"""
    return w.transpose(0, 2, 1)[None]


def take(a, keep):
    return np.array([a[i] for i in keep]) if a.ndim == 1 else np.array([[a[z, i] for i in keep] for z in range(a.shape[0])])
