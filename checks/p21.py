"""Information flow: the set of inputs each spectrum's value graph is computed from, per configuration, against a table of flows
that must not exist (another component's parameters) and flows that must exist (a parameter the user sets has an effect)."""
from .common import HOD, PK, align_params, build, hod_params
from .hodspec import MODELS
from .p17 import evaluate
from sa.arrays import Arr
from sa.depend import syms
from sa.drive import A, S, class_defaults, spectra_kw
from sa.interp import RaiseSig
from sa.values import DictV, Top

MIN_OBLIGATIONS = 1500

COSMO = {'h0', 'omega_c', 'omega_b', 'w0', 'wa', 'n_s', 'tcmb', 'Neff', 'm_nu', 'sigma_8', 'z_vec'}
IA_CEN = {'gamma_2h_amplitude', 'beta_cen', 'mpivot_cen', 'lpivot_cen', 'beta_two'}
IA_SAT = {'gamma_1h_amplitude', 'beta_sat', 'mpivot_sat', 'lpivot_sat'}
KT_IA = {'one_halo_ktrunc_ia', 'two_halo_ktrunc_ia'}
SAT_PROFILE = {'norm_sat', 'eta_sat', 'str:halo_profile_model_sat'}
DM_PROFILE = {'norm_cen', 'eta_cen', 'str:halo_profile_model_dm'}
OWN_OBS = {'obs_min_obs', 'obs_max_obs', 'zmin_obs', 'zmax_obs'}
MM_OBS = {'obs_min_mm', 'obs_max_mm', 'zmin_mm', 'zmax_mm'}
CFGS = {
    'default': dict(), 'mead': dict(ingr='mead2020'), 'feedback': dict(mode='hmcode', ingr='mead2020_feedback'), 'bnl': dict(mode='bnl'), 'fortuna': dict(mode='fortuna'),
    'response': dict(response=True), 'fit': dict(ingr='fit'), 'fit+pointmass': dict(ingr='fit', pointmass=True), 'power_law': dict(poisson='power_law'),
    'computed': dict(plin=False, pnl=False), 'luminosity': dict(align=('luminosity', 'luminosity')), 'mixed': dict(align=('constant', 'halo_mass')), 'mixed2': dict(align=('halo_mass', 'constant')),
    **{h: dict(hod=h) for h in MODELS[1:]},
}
# parameters of the occupation of satellites only: centrals must not know them
SAT_ONLY = {'Cacciato': {'norm_s', 'pivot', 'alpha_s', 'beta_s', 'b0', 'b1', 'b2', 'A_sat'}}


def jobs(tier):
    return list(CFGS)


def run(c, n):
    it = c.it
    cfg = dict(CFGS[n])
    al = cfg.pop('align', ('halo_mass', 'halo_mass'))
    hod = cfg.get('hod', 'Cacciato')
    cls = it.get(HOD, hod)
    kw = dict(spectra_kw(it, **cfg))
    hp = hod_params(it, cls, S('hod:A_cen'), S('hod:A_sat'))
    kw['hod_params'] = hp
    kw['align_params'] = align_params(cen=al[0], sat=al[1], two=S('beta_two') if al[0] == 'luminosity' else None,
                                      **{k: None for k, a in (('mpivot_cen', al[0]), ('mpivot_sat', al[1])) if a != 'halo_mass'})
    GAL_OBS = {'obs_min', 'obs_max', 'zmin', 'zmax'} if hod == 'Cacciato' else {'zmin', 'zmax'}
    HODP = set(syms(hp))
    POIS = set(syms(kw['poisson_params']))
    o = it.call(it.get(PK, 'Spectra'), [], kw)
    mode, ingr, resp = cfg.get('mode'), cfg.get('ingr'), cfg.get('response')
    mead = ingr in ('mead2020', 'mead2020_feedback')
    fit = ingr == 'fit'
    plin, pnl = {'P_lin'}, {'P_nl'}
    dep = {}

    def d(q):
        if q not in dep:
            v = c.val(o, q)
            dep[q] = None if isinstance(v, Top) or not isinstance(v, Arr) else syms(v)
        return dep[q]

    def free(q, what, label):
        s = d(q)
        if s is not None:
            bad = sorted(s & set(what))
            c.require('no-flow', f'{q} from {label}', not bad, f'{q} is computed from {", ".join(bad[:4])}', None, n)

    def uses(q, what, label):
        s = d(q)
        if s is not None:
            miss = sorted(set(what) - s)
            c.require('flow', f'{label} to {q}', not miss, f'{", ".join(miss[:4])} has no effect on {q}', None, n)

    ia = IA_CEN | IA_SAT
    terms = ('pk_1h', 'pk_2h', 'pk_tot')
    # matter
    free('power_spectrum_lin.pk_tot', HODP | POIS | ia | KT_IA | SAT_PROFILE | DM_PROFILE | GAL_OBS | MM_OBS | OWN_OBS | {'one_halo_ktrunc', 'Mmin', 'Mmax', 'dlog10m', 'P_nl'}, 'galaxies, haloes, alignment')
    for t in terms:
        q = f'power_spectrum_mm.{t}'
        free(q, POIS | ia | KT_IA | SAT_PROFILE | GAL_OBS | OWN_OBS, 'galaxies and alignment')
        if not fit:
            free(q, HODP | MM_OBS | {'mb'}, 'occupation and baryon mass scale')
        elif t != 'pk_2h':
            uses(q, MM_OBS | {'mb'}, 'stellar and gas content')
        if not resp and mode != 'fortuna':
            free(q, pnl, 'non-linear input')
        if ingr != 'mead2020_feedback':
            free(q, {'log10T_AGN'}, 'feedback temperature')
        elif t != 'pk_2h':
            uses(q, {'log10T_AGN'}, 'feedback temperature')
        # galaxies
        q = f'power_spectrum_gg.{t}'
        free(q, ia | KT_IA | MM_OBS | OWN_OBS | {'mb'}, 'alignment and other settings')
        if not resp:
            free(q, DM_PROFILE, 'matter profile')
            if mode != 'fortuna':
                free(q, pnl, 'non-linear input')
        uses(q, HODP - {'hod:A_cen', 'hod:A_sat'} if t == 'pk_tot' else set(), 'occupation')
        uses(q, {'hod:A_cen', 'hod:A_sat'} | GAL_OBS, 'assembly bias and bin limits')
        uses(q, SAT_PROFILE - ({'eta_sat'} if mead else set()), 'satellite profile')
        if t == 'pk_2h':
            free(q, POIS, 'satellite pair statistics')
        else:
            uses(q, POIS, 'satellite pair statistics')
        q = f'power_spectrum_gm.{t}'
        free(q, ia | KT_IA | OWN_OBS | POIS, 'alignment and pair statistics')
        if not fit:
            free(q, MM_OBS | {'mb'}, 'baryon content')
        uses(q, (HODP if t == 'pk_tot' else set()) | GAL_OBS | SAT_PROFILE - ({'eta_sat'} if mead else set()) | DM_PROFILE - ({'eta_cen'} if mead else set()), 'occupation and profiles')
        # alignment
        for s in ('mi', 'ii', 'gi'):
            q = f'power_spectrum_{s}.{t}'
            free(q, POIS | OWN_OBS, 'pair statistics and other settings')
            if not fit and not resp:
                free(q, MM_OBS | {'mb'}, 'baryon content')
            if mode != 'fortuna':
                free(q, {'one_halo_ktrunc', 'two_halo_ktrunc'} if not resp else set(), 'truncation of the clustering terms')
            if t == 'pk_1h':
                free(q, IA_CEN, 'alignment of centrals')
                uses(q, {'gamma_1h_amplitude', 'one_halo_ktrunc_ia'}, 'alignment of satellites')
            if t == 'pk_tot':
                need = {'gamma_1h_amplitude'} | ({'gamma_2h_amplitude'})
                if al[0] != 'constant' and not (mode == 'fortuna' and al[0] == 'halo_mass'):
                    need |= {'beta_cen', {'halo_mass': 'mpivot_cen', 'luminosity': 'lpivot_cen'}[al[0]]} | ({'beta_two'} if al[0] == 'luminosity' else set())
                if al[1] != 'constant':
                    need |= {'beta_sat', {'halo_mass': 'mpivot_sat', 'luminosity': 'lpivot_sat'}[al[1]]}
                uses(q, need, 'alignment parameters')
            if al[0] == 'constant':
                free(q, {'beta_cen', 'mpivot_cen', 'lpivot_cen', 'beta_two'}, 'unselected scaling of centrals')
            if al[0] == 'halo_mass':
                free(q, {'lpivot_cen'}, 'unselected scaling of centrals')
            if al[0] == 'luminosity':
                free(q, {'mpivot_cen'}, 'unselected scaling of centrals')
            if al[1] == 'constant':
                free(q, {'beta_sat', 'mpivot_sat', 'lpivot_sat'}, 'unselected scaling of satellites')
            if al[1] == 'halo_mass':
                free(q, {'lpivot_sat'}, 'unselected scaling of satellites')
            if al[1] == 'luminosity':
                free(q, {'mpivot_sat'}, 'unselected scaling of satellites')
    for s in ('mm', 'gg', 'gm', 'mi', 'ii', 'gi'):
        if s == 'mm' and resp:
            uses('power_spectrum_mm.pk_tot', pnl, 'non-linear input')
            continue
        uses(f'power_spectrum_{s}.pk_tot', COSMO | {'k_vec', 'Mmin', 'Mmax', 'dlog10m'}, 'cosmology and grids')
        if cfg.get('plin', True):
            uses(f'power_spectrum_{s}.pk_tot', plin, 'linear input')
        if resp:
            uses(f'power_spectrum_{s}.pk_tot', pnl, 'non-linear input')
        if mode == 'bnl' and s in ('mm', 'gg', 'gm'):
            uses(f'power_spectrum_{s}.pk_tot', {'beta_nl'}, 'non-linear bias')
    if mode != 'bnl':
        for s in ('mm', 'gg', 'gm', 'mi', 'ii', 'gi'):
            free(f'power_spectrum_{s}.pk_tot', {'beta_nl'}, 'non-linear bias')
    # occupation: centrals and satellites
    for q in ('hod.hod_cen', 'hod.number_density_cen', 'hod.avg_halo_mass_cen'):
        free(q, {'hod:A_sat'} | {f'hod:{x}' for x in SAT_ONLY.get(hod, ())} | OWN_OBS | MM_OBS | ia | POIS, 'satellites')
        uses(q, {'hod:A_cen'} | GAL_OBS, 'own parameters')
    for q in ('hod.hod_sat', 'hod.number_density_sat', 'hod.galaxy_linear_bias_sat', 'hod.avg_halo_mass_sat'):
        free(q, OWN_OBS | MM_OBS | ia | POIS, 'other settings')
        uses(q, {'hod:A_sat'} | {f'hod:{x}' for x in SAT_ONLY.get(hod, ())} - {'hod:'} | GAL_OBS, 'own parameters')
    # halo model: nothing of galaxies
    for q in ('dndlnm', 'halo_bias', 'nu', 'mass', 'u_dm', 'conc_cen', 'r_s_cen', 'rvir_cen', 'sigma8_z', 'neff', 'growth_factor', 'mean_density0'):
        free(q, HODP | POIS | ia | KT_IA | SAT_PROFILE | GAL_OBS | MM_OBS | OWN_OBS | {'P_lin', 'P_nl', 'one_halo_ktrunc', 't_eff', 'mb', 'beta_nl'}, 'galaxies, alignment and spectra')
    for q in ('u_sat', 'conc_sat', 'r_s_sat', 'rvir_sat'):
        free(q, HODP | POIS | ia | KT_IA | DM_PROFILE | GAL_OBS | MM_OBS | OWN_OBS | {'P_lin', 'P_nl', 'one_halo_ktrunc', 't_eff', 'mb', 'beta_nl'}, 'galaxies, alignment and spectra')
