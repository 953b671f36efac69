"""The CosmoSIS module is interpreted abstractly on a symbolic data block for every kind of run; every entry it writes is compared,
value graph against value graph, with the quantity of that name of a halo model built anew from the same inputs, resampled to the
grid of the input spectrum where the entry is a spectrum; axes, bin suffixes and section names included."""
from fractions import Fraction

from .common import ADD, PK
from .cosmosis import CONFIGS, SIZES, Run, wrap
from sa.arrays import Arr
from sa.values import DictV, ListV, ObjV, Top

MIN_OBLIGATIONS = 300
COMP = (('p_k_1h', '1h'), ('p_k_2h', '2h'), ('p_k', 'tot'))
SECTION = {'gg': 'galaxy_power', 'gm': 'matter_galaxy_power', 'II': 'intrinsic_power', 'gI': 'galaxy_intrinsic_power', 'mI': 'matter_intrinsic_power'}


def jobs(tier):
    return list(CONFIGS)


def run(c, name):
    r = Run(c, name)
    if r.err is not None:
        c.require('evaluates', 'execute', False, f'raises {r.err.name}', r.err.site, name)
        return
    c.require('reports success', 'execute', not (isinstance(r.status, (int, Fraction)) and r.status != 0), f'a good run returns {r.status}', None, name)
    it, cfg, F = c.it, r.cfg, c.F('cosmosis')
    e = r.expected()
    K = it.get(PK, 'Spectra')
    new = lambda **over: it.call(K, [], {k: wrap(v) for k, v in {**e, **over}.items()})
    m = new()
    z_in, k_in = r.blk('matter_power_lin', 'z'), r.blk('matter_power_lin', 'k_h')
    seen = set()

    def entry(sec, nm, want):
        key = (sec.lower(), nm.lower())
        seen.add(key)
        got = r.block.f.get(key)
        if isinstance(want, Top):
            return
        if got is None:
            c.require('written', f'{sec}/{nm}', None if c.it.lost else False, 'is not written', None, name)
            return
        c.expect('output', f'{sec}/{nm}', got, want, name)

    def grid(sec, xn, x, yn, y, zn, v):
        entry(sec, xn, x)
        entry(sec, yn, y)
        entry(sec, zn, v)
        order = r.block.f.get((sec.lower(), '_grid_' + zn.lower()))
        seen.add((sec.lower(), '_grid_' + zn.lower()))
        if order is not None:
            c.require('axes', f'{sec}/{zn}', order == (xn.lower(), yn.lower()) if isinstance(order, tuple) else None, f'the axes are stored as {order}', None, name)

    q = lambda o, p: c.val(o, p)
    z, k, mass = e['z_vec'], e['k_vec'], q(m, 'mass')
    # halo model
    for sec, yn, v in (('concentration_m', 'c', 'conc_cen'), ('concentration_sat', 'c', 'conc_sat'), ('nfw_scale_radius_m', 'rs', 'r_s_cen'),
                       ('nfw_scale_radius_sat', 'rs', 'r_s_sat'), ('hmf', 'dndlnmh', 'dndlnm'), ('hmf', 'nu', 'nu'), ('halobias', 'b_hb', 'halo_bias')):
        grid(sec, 'z', z, 'm_h', mass, yn, q(m, v))
    entry('virial_radius', 'm_h', mass)
    entry('virial_radius', 'rvir_m', F.first(q(m, 'rvir_cen')))
    entry('virial_radius', 'rvir_sat', F.first(q(m, 'rvir_sat')))
    for n, v in (('z', z), ('m_h', mass), ('k_h', k), ('ukm', q(m, 'u_dm')), ('uksat', q(m, 'u_sat'))):
        entry('fourier_nfw_profile', n, v)
    for n, v in (('mean_density0', q(m, 'mean_density0')), ('rho_crit', F.rho_crit(q(m, 'mean_density0'), r.blk('cosmological_parameters', 'omega_m'))),
                 ('mean_density_z', q(m, 'mean_density_z')), ('rho_halo', q(m, 'rho_halo')), ('z', z)):
        entry('density', n, v)
    entry('hmf', 'neff', q(m, 'neff'))
    entry('hmf', 'sigma8_z', q(m, 'sigma8_z'))
    entry('cosmological_parameters', 'fnu', q(m, 'fnu'))

    def occupation(o, sec, bins):
        entry(sec, 'nbins', bins)
        for b in range(bins):
            s = f'_{b + 1}' if bins != 1 else ''
            for n, v in (('N_sat', 'hod.hod_sat'), ('N_cen', 'hod.hod_cen'), ('N_tot', 'hod.hod'), ('f_star', 'fstar')):
                grid(sec, f'z{s}', z, f'mass{s}', mass, f'{n}{s}', F.rows(q(o, v), b))
            for n, v in (('number_density_cen', 'hod.number_density_cen'), ('number_density_sat', 'hod.number_density_sat'),
                         ('number_density_tot', 'hod.number_density'), ('central_fraction', 'hod.f_c'), ('satellite_fraction', 'hod.f_s'),
                         ('average_halo_mass', 'mass_avg')):
                entry(sec, f'{n}{s}', F.rows(q(o, v), b))

    def spectra(o, ps, second=None):
        u = it.call(it.get(ADD, 'UpsampledSpectra'), [], dict(
            z=z_in, k=k_in, fraction_z=z_in if second else None, fraction=F.ones(z_in) if second else None, model=o,
            model_1_params=DictV({kk: wrap(v) for kk, v in e.items()}), model_2_params=wrap(second) if second else None))
        it.call(it.getattr(u, 'results'), [ListV([p.lower() for p in ps]), ListV(['1h', '2h', 'tot'])], {})
        return {(p, t): q(u, f'power_spectrum_{p.lower()}.pk_{t}') for p in ps for _, t in COMP}

    bins = cfg.get('bins', 1)
    if r.galaxy:
        occupation(m, r.opt('hod_section_name', 'hod'), bins)
        if cfg.get('observable'):
            of = {x: q(m, x) for x in ('obs_func', 'obs_func_cen', 'obs_func_sat', 'obs_func_z', 'obs_func_obs')}
            single = cfg.get('one_z') and bins == 1
            for b in range(bins):
                for n, v in (('obs_func', 'obs_func'), ('obs_func_c', 'obs_func_cen'), ('obs_func_s', 'obs_func_sat')):
                    if single:
                        entry('obs', 'obs_val_1', F.grid_axis(of['obs_func_obs'], 0))
                        entry('obs', n + '_1', F.grid_axis(of[v], 0))
                        continue
                    grid('obs', f'z_bin_{b + 1}', F.rows(of['obs_func_z'], b), f'obs_val_{b + 1}', F.grid_axis(of['obs_func_obs'], b),
                         f'{n}_{b + 1}', F.rows(of[v], b))
            seen.add(('obs', 'obs_func_definition'))
    first = [p for p in ('mm', 'gg', 'gm') if p in r.ps]
    P = spectra(m, first)
    if 'mm' in first and not cfg.get('response'):
        for n, t in COMP:
            grid('matter_power_nl', 'z', z_in, 'k_h', k_in, n, F.rows(P['mm', t], 0))
    for p, lin, ln in (('gg', 'galaxy_linear_bias', 'bg_linear'), ('gm', 'galaxy_matter_linear_bias', 'bgm_linear')):
        if p in first:
            for b in range(bins):
                s = f'_{b + 1}' if bins != 1 else ''
                for n, t in COMP:
                    grid(SECTION[p] + s, 'z', z_in, 'k_h', k_in, n, F.rows(P[p, t], b))
                grid(lin + s, 'z', z, 'k_h', k, ln, F.rows(q(m, f'power_spectrum_{p}.galaxy_linear_bias'), b))
    if r.align:
        split = cfg.get('split')
        s1 = 'ia_1' if split else 'ia'
        a = new(hod_settings=r.settings(s1))
        occupation(a, r.opt('hod_section_name_' + s1), bins)
        second = dict(hod_settings=r.settings('ia_2'), align_params=r.align_params('_pop_ia_2' if cfg.get('suffix') else '')) if split else None
        ps = [p for p in ('II', 'gI', 'mI') if p in r.ps]
        P = spectra(a, ps, second)
        for p in ps:
            for b in range(bins):
                s = f'_{b + 1}' if bins != 1 else ''
                for n, t in COMP:
                    grid(SECTION[p] + s, 'z', z_in, 'k_h', k_in, n, F.rows(P[p, t], b))
    # inputs of other modules stay as they were
    for key, v in r.b.items():
        kk = (key[0].lower(), key[1].lower())
        if kk in seen:
            continue
        c.require('inputs kept', '/'.join(kk), r.block.f.get(kk) is v, 'an input of the module is overwritten', None, name)
    if cfg.get('response'):
        c.require('inputs kept', 'matter_power_nl', r.block.f.get(('matter_power_nl', 'p_k')) is r.b['matter_power_nl', 'p_k'],
                  'the non-linear spectrum the response multiplies is overwritten', None, name)
    for p, sec in SECTION.items():
        mine = sorted({kk[0] for _, kk, _ in it.block_writes if kk[0] == sec or kk[0].startswith(sec + '_') and kk[0][len(sec) + 1:].isdigit()})
        allow = {sec + (f'_{b + 1}' if bins != 1 else '') for b in range(bins)} if p in r.ps else set()
        for x in mine:
            c.require('only what was asked for', x, x in allow, 'this section was not requested, or is no bin of the sample', None, name)
    extra = sorted({'/'.join(kk) for _, kk, _ in it.block_writes if kk not in seen})
    c.counts['entries written beyond those specified'] = len(extra)
