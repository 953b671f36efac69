"""Halo-model ingredients: one independent halo model per redshift (Mead et al. 2021, HMcode-2020, for the overrides)."""
import halomod.concentration as concentration_classes
import numpy as np
from astropy import units as u
from astropy.cosmology import Flatw0waCDM
from halomod.concentration import interp_concentration, make_colossus_cm
from halomod.halo_model import DMHaloModel
from scipy.integrate import quad, solve_ivp
from scipy.interpolate import interp1d


def cosmology(h0, omega_c, omega_b, w0, wa, tcmb, Neff, m_nu):
    return Flatw0waCDM(H0=100.0 * h0, Om0=omega_c + omega_b, Ob0=omega_b, w0=w0, wa=wa, Tcmb0=tcmb, Neff=Neff, m_nu=[0.0, 0.0, m_nu] * u.eV)


def model(z, mdef_par, dc, eta, norm, k, mead, o, mdef, cosmo, profile, conc):
    hpar = {'cosmo': cosmo}
    cpar = {'norm': norm}
    if eta is not None:
        hpar['eta_bloat'] = eta
    if k is not None:
        cpar['K'] = k
    return DMHaloModel(
        z=z, mdef_params=mdef_par, delta_c=dc, lnk_min=o.lnk_min, lnk_max=o.lnk_max, dlnk=o.dlnk, Mmin=o.Mmin, Mmax=o.Mmax, dlog10m=o.dlog10m,
        hmf_model='ST' if mead else o.hmf_model, mdef_model=mdef, disable_mass_conversion=mead, bias_model='ST99' if mead else o.bias_model,
        halo_profile_model=profile, halo_profile_params=hpar, halo_concentration_model=conc, halo_concentration_params=cpar,
        cosmo_model=cosmo, sigma_8=o.sigma_8, n=o.n_s, transfer_model=o.transfer_model, transfer_params=o.transfer_params,
        growth_model=o.growth_model, growth_params=o.growth_params)


def conc_model(name, mead, internal):
    if mead:
        return interp_concentration(concentration_classes.Bullock01)
    if internal:
        return interp_concentration(getattr(concentration_classes, name))
    return interp_concentration(make_colossus_cm(name))


def models(o, mead, virial, mdef, sat, internal, dv, dcm, kk):
    cosmo = cosmology(o.h0, o.omega_c, o.omega_b, o.w0, o.wa, o.tcmb, o.Neff, o.m_nu)
    profile = o.halo_profile_model_sat if sat else o.halo_profile_model_dm
    conc = conc_model(o.halo_concentration_model_sat if sat else o.halo_concentration_model_dm, mead, internal)
    norm = (o.norm_sat if sat else o.norm_cen) * np.ones_like(o.z_vec)
    eta = (o.eta_sat if sat else o.eta_cen) * np.ones_like(o.z_vec)
    if mead:
        out = []
        for z, d, dc, n, k in zip(o.z_vec, dv, dcm, norm, kk):
            mp = {'overdensity': d}
            s8 = model(z, mp, dc, None, n, k, True, o, mdef, cosmo, profile, conc).sigma8_z
            out.append(model(z, mp, dc, 0.1281 / s8**0.3644, n, k, True, o, mdef, cosmo, profile, conc))
        return out
    if virial:
        dcs = 0.15 * (12.0 * np.pi) ** (2.0 / 3.0) * (1.0 + 0.0123 * np.log10(cosmo.Om(o.z_vec)))
    else:
        dcs = o.delta_c * np.ones_like(o.z_vec)
    mp = {} if virial else {'overdensity': o.overdensity}
    return [model(z, mp, dc, e, n, None, False, o, mdef, cosmo, profile, conc) for z, dc, e, n in zip(o.z_vec, dcs, eta, norm)]


def per_z(ms, what):
    return np.array([getattr(x, what) for x in ms])


def nu(ms):
    return np.array([np.sqrt(x.nu) for x in ms])


def rho_halo(ms):
    return np.array([x.halo_overdensity_mean * x.mean_density0 for x in ms])


def sigma8(ms):
    return np.array([x.sigma8_z[0] for x in ms])


def profile(ms, k):
    return np.array([x.halo_profile.u(k, x.m) for x in ms])


def normalised(u):
    return u / u[:, 0, :][:, None, :]


def rvir(ms):
    return np.array([x.halo_profile.halo_mass_to_radius(x.m) for x in ms])


def rs(ms):
    return np.array([x.halo_profile._rs_from_m(x.m) for x in ms])


def first(ms, what):
    return getattr(ms[0], what)


def growth_factor(ms, z):
    return ms[0].growth.growth_factor(z)


def fnu(cosmo, z):
    return cosmo.Onu0 / cosmo.Om0 * np.ones_like(z)


def om0(cosmo):
    return cosmo.Om0


def scale_factor(z):
    return 1.0 / (1.0 + z)


# ------------------------------------------------------------ HMcode-2020 fits
def hmcode_B(z, mode, theta):
    if mode == 'mead2020':
        return 5.196 + 0.0 * z
    if mode == 'mead2020_feedback':
        return 5.196 * (3.44 - 0.496 * theta) / 4.0 * 10.0 ** (z * (-0.0671 - 0.0371 * theta))
    return 0.0 * z


def growth_function(cosmo):
    """linear growth by integrating the growth equation from a = 1e-4, normalised to the early-time growing mode"""
    om = cosmo.Om0 + cosmo.Onu0
    ode = 1.0 - om
    ok = cosmo.Ok0

    def h2(a):
        return om / a**3 + ode * cosmo.de_density_scale(1.0 / a - 1.0) + ok / a**2

    def ah(a):
        zz = 1.0 / a - 1.0
        return -0.5 * (om / a**3 + (1.0 + 3.0 * cosmo.w(zz)) * ode * cosmo.de_density_scale(zz))

    def omz(a):
        return om / a**3 / h2(a)

    a0 = 1.0e-4
    a = np.linspace(a0, 1.0, 129)
    p = 1.0 - 0.6 * (1.0 - omz(a0))

    def rhs(x, y):
        return y[1], -(2.0 + ah(x) / h2(x)) * y[1] / x + 1.5 * omz(x) * y[0] / x**2

    y = solve_ivp(rhs, (a[0], a[-1]), (a0**p, p * a0 ** (p - 1.0)), t_eval=a).y
    return interp1d(a, y[0], kind='cubic', assume_sorted=True)


def growth(g, a):
    return g(a)


def accumulated_growth(g, a):
    a0 = 1.0e-4
    return np.array([quad(lambda x: g(x) / x, a0, ai)[0] + g(a0) for ai in a])


def _poly(x, y, c0, c1, c2, c3):
    return c0 + c1 * (1.0 - x) + c2 * (1.0 - x) ** 2 + c3 * (1.0 - y)


def collapse_threshold(cosmo, z, g, gg):
    a = 1.0 / (1.0 + z)
    lom = np.log10(cosmo.Om(z) + cosmo.Onu(z))
    fn = cosmo.Onu0 / (cosmo.Om0 + cosmo.Onu0)
    x, y = g / a, gg / a
    d = 1.0 + _poly(x, y, -0.0069, -0.0208, 0.0312, 0.0021) * lom + _poly(x, y, 0.0001, -0.0647, -0.0417, 0.0646)
    return 0.15 * (12.0 * np.pi) ** (2.0 / 3.0) * d * (1.0 - 0.041 * fn)


def virial_overdensity(cosmo, z, g, gg):
    a = 1.0 / (1.0 + z)
    lom = np.log10(cosmo.Om(z) + cosmo.Onu(z))
    fn = cosmo.Onu0 / (cosmo.Om0 + cosmo.Onu0)
    x, y = g / a, gg / a
    d = 1.0 + _poly(x, y, -0.79, -10.17, 2.51, 6.51) * lom + _poly(x, y, -1.89, 0.38, 18.8, -15.87) * lom**2
    return 18.0 * np.pi**2 * d * (1.0 + 0.763 * fn)
