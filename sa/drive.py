"""Build symbolic instances of the public classes, one per finite mode configuration."""
from fractions import Fraction

from . import graph as G
from .arrays import Arr, scalar, symarr
from .interp import Interp
from .values import DictV, ListV, StrV, Top

PK = 'src.onepower.pk'
HMI = 'src.onepower.hmi'
HOD = 'src.onepower.hod'
IA = 'src.onepower.ia'
BNL = 'src.onepower.bnl'
ADD = 'src.onepower.add'
POI = 'src.onepower.utils.poisson'


def S(name):
    return scalar(G.sym(name))


# axis sizes taken to be equal (or one) in the configuration being analysed: axis -> axis or number
SAME = {}


def A(name, *sizes):
    return symarr(name, tuple(SAME.get(s, s) for s in sizes))


COSMO = ('h0', 'omega_c', 'omega_b', 'w0', 'wa', 'n_s', 'tcmb', 'Neff', 'm_nu', 'sigma_8', 'log10T_AGN')
HMSCAL = ('lnk_min', 'lnk_max', 'dlnk', 'Mmin', 'Mmax', 'dlog10m', 'overdensity', 'delta_c')
HMSTR = ('mdef_model', 'hmf_model', 'bias_model', 'halo_profile_model_dm', 'halo_profile_model_sat', 'transfer_model', 'growth_model')


def cosmo_kw():
    kw = {k: S(k) for k in COSMO}
    kw['z_vec'] = A('z_vec', 'Z')
    return kw


def hm_kw(sovirial=False, conc=('Duffy08', 'Ludlow16')):
    kw = cosmo_kw()
    kw.update({k: S(k) for k in HMSCAL})
    kw.update({k: StrV(G.sym('str:' + k)) for k in HMSTR})
    kw['mdef_model'] = 'SOVirial' if sovirial else 'SOMean'
    kw['halo_concentration_model_dm'] = conc[0]
    kw['halo_concentration_model_sat'] = conc[1]
    kw['k_vec'] = A('k_vec', 'K')
    kw['transfer_params'] = DictV({'tp': S('tp')})
    kw['growth_params'] = DictV({'gp': S('gp')})
    for n in ('norm_cen', 'norm_sat', 'eta_cen', 'eta_sat'):
        kw[n] = S(n)
    return kw


def size(sym):
    s = SAME.get(sym, sym)
    return s if isinstance(s, int) else G.ixn(s)


def hod_settings(tag='', file=False, unit='1/h^2', nb='B', nh='H', no='O'):
    if file:
        return DictV({'observables_file': 'obs%s.dat' % tag, 'nobs': size(no), 'observable_h_unit': unit})
    return DictV({
        'observables_file': None,
        'obs_min': A('obs_min' + tag, nb), 'obs_max': A('obs_max' + tag, nb),
        'zmin': A('zmin' + tag, nb), 'zmax': A('zmax' + tag, nb),
        'nz': size(nh), 'nobs': size(no), 'observable_h_unit': unit,
    })


def class_defaults(it, cls):
    """parameter names of a Component class = keys of _defaults"""
    c, m = cls.lookup('_defaults')
    return list(m.value.d)


def hod_params(it, cls, a_cen=None, a_sat=None, vec=False):
    out = {}
    for k in class_defaults(it, cls):
        if k == 'A_cen':
            v = a_cen
        elif k == 'A_sat':
            v = a_sat
        else:
            v = A('hod:' + k, 'B') if vec else S('hod:' + k)
        out[k] = v
    return DictV(out)


def align_params(slope=Fraction(-2), cen='halo_mass', sat='halo_mass', two=None, **over):
    d = dict(
        central_ia_depends_on=cen, satellite_ia_depends_on=sat,
        gamma_2h_amplitude=S('gamma_2h_amplitude'), beta_cen=S('beta_cen'), beta_two=two,
        gamma_1h_amplitude=S('gamma_1h_amplitude'), gamma_1h_slope=slope, beta_sat=S('beta_sat'),
        mpivot_cen=S('mpivot_cen'), mpivot_sat=S('mpivot_sat'), lpivot_cen=S('lpivot_cen'), lpivot_sat=S('lpivot_sat'),
        z_loglum_file_centrals='cen.fits', z_loglum_file_satellites='sat.fits',
    )
    d.update(over)
    return DictV(d)


def spectra_kw(it, mode=None, ingr=None, response=False, dewiggle=False, pointmass=False, compute_observable=False,
               plin=True, pnl=True, beta=True, hod='Cacciato', poisson='constant', kt=True, sovirial=False,
               slope=Fraction(-2), obs_unit='1/h^2', **over):
    kw = hm_kw(sovirial)
    hcls = it.get(HOD, hod)
    pcls = it.get(POI, poisson)
    kw.update(
        hmcode_ingredients=ingr, nonlinear_mode=mode, dewiggle=dewiggle, response=response, pointmass=pointmass,
        compute_observable=compute_observable,
        matter_power_lin=A('P_lin', 'Z', 'K') if plin else None,
        matter_power_nl=A('P_nl', 'Z', 'K') if pnl else None,
        mb=S('mb'),
        beta_nl=A('beta_nl', 'Z', 'K', 'M', 'M') if beta and mode == 'bnl' else None,
        one_halo_ktrunc=S('one_halo_ktrunc') if kt else None,
        two_halo_ktrunc=S('two_halo_ktrunc') if kt else None,
        one_halo_ktrunc_ia=S('one_halo_ktrunc_ia') if kt else None,
        two_halo_ktrunc_ia=S('two_halo_ktrunc_ia') if kt else None,
        poisson_model=pcls,
        poisson_params=DictV({k: S('poisson:' + k) for k in class_defaults(it, pcls)}),
        hod_model=hcls, hod_params=hod_params(it, hcls),
        hod_settings=hod_settings('', unit=obs_unit),
        hod_settings_mm=hod_settings('_mm', nb=1, nh='Hm', no='Om', unit=obs_unit),
        obs_settings=hod_settings('_obs', nb='Bo', nh='Ho', no='Oo', unit=obs_unit),
        t_eff=S('t_eff'),
        align_params=align_params(slope),
    )
    kw.update(over)
    return kw


def spectra(it, **cfg):
    return it.call(it.get(PK, 'Spectra'), [], spectra_kw(it, **cfg))


def q(it, o, path):
    """public quantity by dotted path"""
    for p in path.split('.'):
        o = it.getattr(o, p)
    return o
