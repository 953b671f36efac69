"""Every published halo-model ingredient is compared, value graph against value graph, with the attribute of a halo model
built afresh for each redshift with the settings the configuration prescribes (HMcode overrides, virial definition,
matter versus satellite profile settings), so that nothing carries over between redshifts or between the two sets."""
from .common import HMI, hm_kw, name, A, S
from sa.interp import RaiseSig
from sa.values import Top

MIN_OBLIGATIONS = 100
CEN = ('power', 'nonlinear_power', 'halo_overdensity_mean', 'dndlnm', 'mean_density0', 'halo_bias')


def jobs(tier):
    out = [dict(ingr=i, sovirial=v) for i in (None, 'mead2020', 'mead2020_feedback', 'fit') for v in (False, True)]
    out.append(dict(ingr=None, sovirial=False, conc=('diemer19', 'Duffy08'), internal=(False, True)))
    out.append(dict(ingr=None, sovirial=False, conc=('Duffy08', 'child18'), internal=(True, False)))
    out.append(dict(ingr=None, sovirial=False, vec=True))
    out.append(dict(ingr='mead2020', sovirial=False, vec=True))
    return out


def run(c, cfg):
    kw = hm_kw(cfg['sovirial'], cfg.get('conc', ('Duffy08', 'Ludlow16')))
    kw['hmcode_ingredients'] = cfg['ingr']
    if cfg.get('vec'):
        for k in ('norm_cen', 'norm_sat', 'eta_cen', 'eta_sat'):
            kw[k] = A(k, 'Z')
    n = name({k: v for k, v in cfg.items() if k != 'internal'})
    try:
        o = c.it.call(c.it.get(HMI, 'HaloModelIngredients'), [], kw)
    except RaiseSig as r:
        c.require('constructs', 'HaloModelIngredients', False, f'construction raises {r.name}', r.site, n)
        return
    F = c.F('ingredients')
    mead = cfg['ingr'] in ('mead2020', 'mead2020_feedback')
    internal = cfg.get('internal', (True, True))
    v = lambda x: c.val(o, x)
    mdef = c.it.get(HMI, 'SOVirial_Mead') if mead else kw['mdef_model']
    dv = dc = kk = None
    if mead:
        dv, dc, kk = v('Dv_Mead'), v('dc_Mead'), v('K')
    cen = F.models(o, mead, cfg['sovirial'], mdef, False, internal[0], dv, dc, kk)
    sat = F.models(o, mead, cfg['sovirial'], mdef, True, internal[1], dv, dc, kk)
    if isinstance(cen, Top) or isinstance(sat, Top):
        t = cen if isinstance(cen, Top) else sat
        c.expect('ingredient', 'hmcode fits', t, 0, n)
        return
    ex = lambda s, spec: c.expect('ingredient', s, v(s), spec, n)
    for a in CEN:
        ex(a, F.per_z(cen, a))
    ex('mean_density_z', F.per_z(cen, 'mean_density'))
    ex('neff', F.per_z(cen, 'n_eff_at_collapse'))
    ex('nu', F.nu(cen))
    ex('rho_halo', F.rho_halo(cen))
    ex('sigma8_z', F.sigma8(cen))
    ex('mass', F.first(cen, 'm'))
    ex('kh', F.first(cen, 'k'))
    ex('growth_factor', F.growth_factor(cen, v('z_vec')))
    for tag, ms, un in (('cen', cen, 'u_dm'), ('sat', sat, 'u_sat')):
        ex(f'conc_{tag}', F.per_z(ms, 'cmz_relation'))
        ex(f'nfw_{tag}', F.profile(ms, v('k_vec')))
        ex(un, F.normalised(F.profile(ms, v('k_vec'))))
        ex(f'r_s_{tag}', F.rs(ms))
        ex(f'rvir_{tag}', F.rvir(ms))
