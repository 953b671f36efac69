"""Halo occupation distributions (Cacciato et al. 2013; Zehavi et al. 2005; Zheng et al. 2005; Zhai et al. 2017) and the
population averages built from them.  Axes: b bins, h redshifts of the selection, m halo mass, o observable."""
import numpy as np
from scipy.integrate import simpson
from scipy.interpolate import interp1d
from scipy.special import erf


# ----------------------------------------------------------------- selections
def selection_bins(s, nz, nobs):
    """(z [b,h], observable grid [b,h,1,o])"""
    z = np.array([np.linspace(a, b, nz) for a, b in zip(s['zmin'], s['zmax'])])
    obs = np.array([np.logspace(a, b, nobs) for a, b in zip(s['obs_min'], s['obs_max'])])
    return z, obs[:, None, None, :] + 0.0 * z[:, :, None, None]


def selection_file(zd, lo, hi, nobs):
    z = zd[None, :]
    obs = np.array([np.logspace(a, b, nobs) for a, b in zip(np.log10(lo), np.log10(hi))])
    return z, obs[None, :, None, :]


def selection_obs(sel):
    return sel[1]


def selection_z(sel):
    return sel[0]


def on_selection(z_vec, f, z):
    """function of redshift [z,m] evaluated at the selection redshifts [b,h,m]"""
    return interp1d(z_vec, f, kind='linear', fill_value='extrapolate', bounds_error=False, axis=0)(z)


def at_redshifts(z, data, z_vec, fill):
    """[b,h,...] -> [b,z,...]"""
    return np.array([interp1d(zi, d, fill_value=fill, bounds_error=False, axis=0)(z_vec) for zi, d in zip(z, data)])


def extrapolated(z, data, z_vec):
    return at_redshifts(z, data, z_vec, 'extrapolate')


def zero_outside(z, data, z_vec):
    return at_redshifts(z, data, z_vec, 0.0)


# -------------------------------------------------------------- occupations
def boosted_cen(n, a):
    if a is None:
        return n
    return n + a * np.fmin(n, 1.0 - n)


def boosted_sat(n, a):
    if a is None:
        return n
    return n + a * n


def cacciato_mean(m, p):
    x = m / 10.0 ** p['log10_m_ch']
    return 10.0 ** p['log10_obs_norm_c'] * x ** p['g1'] / (1.0 + x) ** (p['g1'] - p['g2'])


def cacciato_cen(obs, m, p):
    """conditional observable function of centrals [b,h,m,o]"""
    mean = cacciato_mean(m, p)[:, None]
    s = p['sigma_log10_O_c']
    return np.exp(-0.5 * (np.log10(obs / mean) / s) ** 2) / (np.sqrt(2.0 * np.pi) * np.log(10.0) * s * obs)


def cacciato_sat(obs, m, p):
    star = (p['norm_s'] * cacciato_mean(m, p))[:, None]
    lm = np.log10(m) - p['pivot']
    phi = (10.0 ** (p['b0'] + p['b1'] * lm + p['b2'] * lm**2))[:, None]
    x = obs / star
    return phi / star * x ** p['alpha_s'] * np.exp(-(x ** p['beta_s']))


def count(cof, obs):
    return simpson(cof, x=obs, axis=-1)


def fraction(cof, obs, m):
    return simpson(cof * obs, x=obs, axis=-1) / m


def step(m, mmin):
    return np.heaviside(m - mmin, 1.0)


def soft_step(m, mmin, sigma):
    return np.where(sigma == 0.0, np.heaviside(m - mmin, 1.0), 0.5 * (1.0 + erf(np.log10(m / mmin) / sigma)))


def col(x):
    """scalar or per-bin parameter -> [b,1,1]"""
    return np.atleast_1d(x)[:, None, None]


def model_cen(name, m, p):
    mmin = 10.0 ** col(p['log10_Mmin'])
    if name == 'Simple' or name == 'Zehavi':
        return step(m, mmin)
    return soft_step(m, mmin, col(p['sigma']))


def model_sat(name, m, p, n_cen):
    al = col(p['alpha'])
    if name == 'Simple':
        return n_cen * (m / 10.0 ** col(p['log10_Msat'])) ** al
    if name == 'Zehavi':
        return (m / 10.0 ** col(p['log10_Msat'])) ** al
    if name == 'Zheng':
        m0 = 10.0 ** col(p['log10_M0'])
        return (step(m, m0) * (m - m0) / 10.0 ** col(p['log10_M1'])) ** al
    return (m / 10.0 ** col(p['log10_Msat'])) ** al * np.exp(-(10.0 ** col(p['log10_Mcut'])) / m)


def spread(n, like):
    """[b,1,m] -> [b,h,m]"""
    return n + 0.0 * like


# ----------------------------------------------------------------- averages
def density(n, dn, m):
    return simpson(n * dn / m, x=m, axis=-1)


def mass_weight(n, dn, m):
    return simpson(n * dn, x=m, axis=-1)


def bias(n, b, dn, m, ntot):
    return simpson(n * b * dn / m, x=m, axis=-1) / ntot


def ratio(a, b):
    return a / b


def plus(a, b):
    return a + b


def times(a, b):
    return a * b


def zeros(dens, m):
    return 0.0 * dens[:, :, None] * m


def obs_function(cof, dn, m):
    """abundance per unit observable [b,h,o]"""
    return simpson(cof * (dn / m)[:, :, :, None], x=m, axis=-2)


def obs_per_dex(obs, cof, dn, m):
    return np.log(10.0) * obs[:, :, 0, :] * obs_function(cof, dn, m)


def obs_axis(obs, dn):
    return obs[:, :, 0, :]
