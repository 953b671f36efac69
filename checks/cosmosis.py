"""The CosmoSIS module on a symbolic data block: options, inputs, and the halo model they must lead to."""
from .common import ADD, HOD, PK, POI
from sa import blockmodel
from sa import graph as G
from sa.drive import A, S, size
from sa.interp import RaiseSig
from sa.values import DictV, ListV, ObjV, StrV, Top

IFACE = 'cosmosis_modules.onepower_interface'
OPT = 'module_options'
EQUAL = tuple((x, 'M') for x in ('Z', 'K', 'Zl', 'Kl', 'Zn', 'Kn', 'Zg', 'Kt') + tuple(a + b for a in 'HO' for b in ('g', 'ia', 'ia_1', 'ia_2', 'smf')))
SIZES = dict(quick=(EQUAL,), thorough=(EQUAL,))
HODPAR = {
    'Zheng': ['log10_Mmin', 'sigma', 'log10_M0', 'log10_M1', 'alpha'],
    'Zhai': ['log10_Mmin', 'sigma', 'log10_Msat', 'log10_Mcut', 'alpha'],
    'Cacciato': ['log10_obs_norm_c', 'log10_m_ch', 'g1', 'g2', 'sigma_log10_O_c', 'norm_s', 'pivot', 'alpha_s', 'beta_s', 'b0', 'b1', 'b2'],
}
POIPAR = {'constant': ['poisson'], 'power_law': ['poisson', 'pivot', 'slope']}
PS = ('mm', 'gg', 'gm', 'gI', 'mI', 'II')

CONFIGS = {
    'matter': dict(ps='mm'),
    'matter-defaults': dict(ps='mm', minimal=True),
    'matter-hmcode': dict(ps='mm', mode='hmcode', ingr='mead2020_feedback', dewiggle=True),
    'galaxies': dict(ps='mm gg gm', bins=1),
    'galaxies-2': dict(ps='mm gg gm', bins=2, poisson='power_law', pointmass=True, decor=True),
    'galaxies-only': dict(ps='gg', bins=2, hod='Zheng'),
    'lensing-only': dict(ps='gm', bins=1, hod='Zhai', mode='bnl'),
    'response': dict(ps='gg gm', bins=1, response=True, observable=True),
    'fortuna': dict(ps='mm gg gm gI mI II', bins=2, mode='fortuna'),
    'alignment': dict(ps='mm gm gI mI II', bins=1, cen='constant', sat='halo_mass', smf=True, observable=True),
    'alignment-b': dict(ps='gg gI', bins=1, cen='halo_mass', sat='constant', suffix=True),
    'alignment-c': dict(ps='mm II', bins=1),
    'alignment-d': dict(ps='mm mI', bins=1, hod='Zheng'),
    'alignment-e': dict(ps='II gI', bins=2, hod='Zhai'),
    'alignment-f': dict(ps='II', bins=1),
    'file': dict(ps='gg', file=True),
    'split': dict(ps='gg gI mI II', bins=1, split=True, suffix=True),
    'split-2': dict(ps='gI mI', bins=2, split=True, hod='Zheng'),
    'response-mm': dict(ps='mm gm', bins=2, response=True, mode='fortuna'),
    'response-b': dict(ps='mm gg', bins=1, response=True, hod='Zheng'),
    'decor-cen': dict(ps='mm gg gm', bins=1, decor=('A_cen',), observable=True),
    'observable-1': dict(ps='gg', bins=1, observable=True, one_z=True),
    'observable-2': dict(ps='gm', bins=2, observable=True, one_z=True),
    'decor-sat': dict(ps='gg II', bins=1, decor=('A_sat',), poisson='power_law'),
    'alignment-bnl': dict(ps='mm gg gm gI mI II', bins=1, mode='bnl', pointmass=True),
    'galaxies-hmcode': dict(ps='mm gg gm', bins=2, mode='hmcode', ingr='mead2020', hod='Zhai'),
}


def settings(opt, sfx, bins, tag, file=False):
    if file:
        opt[OPT, f'observables_file_{sfx}'] = f'{tag}.dat'
    else:
        for n in ('log10_obs_min', 'log10_obs_max', 'zmin', 'zmax'):
            opt[OPT, f'{n}_{sfx}'] = A(f'opt:{n}_{sfx}', bins) if bins != 1 else S(f'opt:{n}_{sfx}')
        opt[OPT, f'nz_{sfx}'] = size('H' + tag)
    opt[OPT, f'nobs_{sfx}'] = size('O' + tag)


def options(cfg):
    o = {}
    ps = cfg['ps'].split()
    for p in PS:
        if p in ps or not cfg.get('minimal'):
            o[OPT, 'p_' + p] = p in ps
    o[OPT, 'poisson_type'] = cfg.get('poisson', 'constant')
    galaxy = 'gg' in ps or 'gm' in ps
    align = any('I' in p for p in ps)
    if not cfg.get('minimal'):
        for n in ('log_mass_min', 'log_mass_max', 'zmin_hmf', 'zmax_hmf', 'overdensity', 'delta_c', 'nmass',
                  'one_halo_ktrunc', 'two_halo_ktrunc', 'one_halo_ktrunc_ia'):
            o[OPT, n] = S('opt:' + n)
        o[OPT, 'two_halo_ktrunc_ia'] = 'None'
        o[OPT, 'nz_hmf'] = size('Z')
        o[OPT, 'nk'] = size('K')
        for n in ('profile_cen', 'profile_sat', 'hmf_model', 'bias_model'):
            o[OPT, n] = StrV(G.sym('optstr:' + n))
        o[OPT, 'mdef_model'] = 'SOMean'
        o[OPT, 'cm_model_cen'], o[OPT, 'cm_model_sat'] = 'Bullock01', 'Ludlow16'
        o[OPT, 'profile_value_name'] = 'profpar'
        o[OPT, 'values_name'] = 'HodVals'
        o[OPT, 'hod_section_name'] = 'hodsec'
        o[OPT, 'hod_model'] = cfg.get('hod', 'Cacciato')
        o[OPT, 'observable_h_unit'] = '1/H'
        for n, k in (('dewiggle', 'dewiggle'), ('point_mass', 'pointmass'), ('response', 'response'), ('split_ia', 'split')):
            o[OPT, n] = bool(cfg.get(k))
        o[OPT, 'nonlinear_mode'] = cfg.get('mode') or 'None'
        o[OPT, 'hmcode_ingredients'] = cfg.get('ingr') or 'None'
    if cfg.get('mode') == 'bnl':
        o[OPT, 'update_bnl'] = cfg.get('update', 1)
    if galaxy:
        settings(o, 'hod', cfg.get('bins'), 'g', cfg.get('file'))
    if align:
        for a, b in (('central_IA_depends_on', 'cen'), ('satellite_IA_depends_on', 'sat')):
            if b in cfg:
                o[OPT, a] = cfg[b]
        for s in (('ia_1', 'ia_2') if cfg.get('split') else ('ia',)):
            o[OPT, 'hod_section_name_' + s] = 'hodsec_' + s
            if cfg.get('suffix'):
                o[OPT, 'output_suffix_' + s] = 'Pop_' + s
            settings(o, s, cfg['bins'], s)
    if cfg.get('observable'):
        o[OPT, 'save_observable'] = True
        settings(o, 'smf', cfg['bins'], 'smf')
        if cfg.get('one_z'):
            o[OPT, 'nz_smf'] = 1
        o[OPT, 'observable_section_name'] = 'OBS'
    return o


def block(cfg):
    b = {}
    cp = 'cosmological_parameters'
    for n in ('omega_m', 'omega_c', 'omega_b', 'h0', 'n_s', 'sigma_8', 'A_s', 'mnu', 'w', 'wa'):
        b[cp, n] = S('blk:' + n)
    b['matter_power_transfer_func', 'k_h'], b['matter_power_transfer_func', 't_k'] = A('blk:tk', 'Kt'), A('blk:t', 'Kt')
    b['growth_parameters', 'z'], b['growth_parameters', 'd_z'] = A('blk:gz', 'Zg'), A('blk:gd', 'Zg')
    for s, zz, kk in (('matter_power_lin', 'Zl', 'Kl'), ('matter_power_nl', 'Zn', 'Kn')):
        b[s, 'z'], b[s, 'k_h'], b[s, 'p_k'] = A(f'blk:{s}.z', zz), A(f'blk:{s}.k', kk), A(f'blk:{s}.p', zz, kk)
    b['halo_model_parameters', 'logT_AGN'] = S('blk:logT_AGN')
    if not cfg.get('minimal'):
        b[cp, 'TCMB'] = S('blk:TCMB')
        b['halo_model_parameters', 'm_b'] = S('blk:m_b')
        for n in ('norm_cen', 'norm_sat', 'eta_cen', 'eta_sat'):
            b['profpar', n] = S('blk:' + n)
        b['pk_parameters', 'linear_fraction_fortuna'] = S('blk:linear_fraction_fortuna')
    for n in POIPAR['power_law']:
        b['pk_parameters', n] = S('blk:poi:' + n)
    hod = cfg.get('hod', 'Cacciato')
    bins = cfg.get('bins', 1)
    for p in HODPAR[hod]:
        for nb in ([''] if hod == 'Cacciato' or bins == 1 else [f'_{i + 1}' for i in range(bins)]):
            b['hodvals', p + nb] = S('blk:hod:' + p + nb)
    for n in () if not cfg.get('decor') else ('A_cen', 'A_sat') if cfg['decor'] is True else cfg['decor']:
        b['hodvals', n] = S('blk:' + n)
    for s in pops(cfg):
        for n in ('beta', 'beta_sat', 'M_pivot', 'gamma_1h_amplitude', 'gamma_2h_amplitude'):
            b['intrinsic_alignment_parameters' + s, n] = S(f'blk:ia{s}:{n}')
        b['intrinsic_alignment_parameters' + s, 'gamma_1h_radial_slope'] = -2
    return b


def pops(cfg):
    if not any('I' in p for p in cfg['ps'].split()):
        return []
    names = ('ia_1', 'ia_2') if cfg.get('split') else ('ia',)
    return ['_pop_' + n if cfg.get('suffix') else '' for n in names]


class Run:
    def __init__(self, c, name, cfg=None):
        self.c, self.name, self.cfg = c, name, cfg or CONFIGS[name]
        cfg = self.cfg
        it = c.it
        self.o, self.b = options(cfg), block(cfg)
        self.ps = cfg['ps'].split()
        self.galaxy = 'gg' in self.ps or 'gm' in self.ps
        self.align = any('I' in p for p in self.ps)
        self.opts = blockmodel.make(self.o, 'options')
        self.block = blockmodel.make(self.b, 'block')
        it.created = []
        it.block_writes.clear()
        it.block_reads.clear()
        it.block_missing.clear()
        self.err = None
        try:
            self.conf = it.call(it.get(IFACE, 'setup'), [self.opts], {})
            self.status = it.call(it.get(IFACE, 'execute'), [self.block, self.conf], {})
        except RaiseSig as r:
            self.err = r
        self.models = [x for x in it.created if x.cls.name == 'Spectra' and x.qval]
        it.created = None

    # expected ---------------------------------------------------------------
    def opt(self, n, default=None):
        v = self.o.get((OPT, n), default)
        return None if v == 'None' and isinstance(v, str) else v

    def blk(self, s, n, default=None):
        return self.b.get((s, n), default)

    def settings(self, sfx):
        F = self.c.F('cosmosis')
        f = self.opt(f'observables_file_{sfx}')
        d = {'observables_file': f}
        if f is None:
            for k, n in (('obs_min', 'log10_obs_min'), ('obs_max', 'log10_obs_max'), ('zmin', 'zmin'), ('zmax', 'zmax')):
                d[k] = F.flat(self.opt(f'{n}_{sfx}'))
            d['nz'] = self.opt(f'nz_{sfx}')
        d['nobs'] = self.opt(f'nobs_{sfx}')
        d['observable_h_unit'] = self.opt('observable_h_unit', '1/h^2').lower()
        return d

    def settings_mm(self, d):
        F = self.c.F('cosmosis')
        m = dict(d)
        if d['observables_file'] is None:
            m.update(obs_min=F.low(d['obs_min']), obs_max=F.high(d['obs_max']), zmin=F.low(d['zmin']), zmax=F.high(d['zmax']), nz=15)
        m['nobs'] = 100
        return m

    def align_params(self, pop):
        s = 'intrinsic_alignment_parameters' + pop
        cen, sat = self.cfg.get('cen', 'halo_mass'), self.cfg.get('sat', 'halo_mass')
        g = lambda n: self.blk(s, n)
        return dict(central_ia_depends_on=cen, satellite_ia_depends_on=sat,
                    beta_cen=g('beta') if cen == 'halo_mass' else None, mpivot_cen=g('M_pivot') if cen == 'halo_mass' else None,
                    beta_sat=g('beta_sat') if sat == 'halo_mass' else None, mpivot_sat=g('M_pivot') if sat == 'halo_mass' else None,
                    gamma_1h_slope=g('gamma_1h_radial_slope'), gamma_1h_amplitude=g('gamma_1h_amplitude'),
                    gamma_2h_amplitude=g('gamma_2h_amplitude'), nmass=5, n_hankel=350, nk=10, ell_max=6)

    def expected(self):
        c, cfg, it = self.c, self.cfg, self.c.it
        F = c.F('cosmosis')
        from fractions import Fraction as R
        num = lambda n, d: self.opt(n, d)
        cp = 'cosmological_parameters'
        z = F.z_grid(num('zmin_hmf', R(0)), num('zmax_hmf', R(3)), self.opt('nz_hmf', 15))
        kin, zin = self.blk('matter_power_lin', 'k_h'), self.blk('matter_power_lin', 'z')
        k = F.k_grid(kin, self.opt('nk', 100))
        lmin, lmax = num('log_mass_min', R(9)), num('log_mass_max', R(16))
        kl = F.logk()
        prof = lambda n, d: self.blk(self.opt('profile_value_name', 'profile_parameters'), n, d)
        e = dict(
            matter_power_lin=F.resample(self.blk('matter_power_lin', 'p_k'), zin, kin, z, k),
            hmcode_ingredients=self.opt('hmcode_ingredients'), nonlinear_mode=self.opt('nonlinear_mode'),
            dewiggle=self.opt('dewiggle', False), k_vec=k, z_vec=z, lnk_min=kl[0], lnk_max=kl[1], dlnk=kl[2],
            Mmin=lmin, Mmax=lmax, dlog10m=F.dlog10m(lmin, lmax, num('nmass', R(200))),
            mdef_model=self.opt('mdef_model', 'SOMean'), hmf_model=self.opt('hmf_model', 'Tinker10'),
            bias_model=self.opt('bias_model', 'Tinker10'), halo_profile_model_dm=self.opt('profile_cen', 'NFW'),
            halo_profile_model_sat=self.opt('profile_sat', 'NFW'), halo_concentration_model_dm=self.opt('cm_model_cen', 'Duffy08'),
            halo_concentration_model_sat=self.opt('cm_model_sat', 'Duffy08'), transfer_model='FromArray', growth_model='FromArray',
            transfer_params=dict(k=self.blk('matter_power_transfer_func', 'k_h'), T=self.blk('matter_power_transfer_func', 't_k')),
            growth_params=dict(z=self.blk('growth_parameters', 'z'), d=self.blk('growth_parameters', 'd_z')),
            norm_cen=prof('norm_cen', R(1)), norm_sat=prof('norm_sat', R(1)), eta_cen=prof('eta_cen', R(0)), eta_sat=prof('eta_sat', R(0)),
            overdensity=num('overdensity', R(200)), delta_c=num('delta_c', R('1.686')),
            one_halo_ktrunc=num('one_halo_ktrunc', R('0.1')), two_halo_ktrunc=num('two_halo_ktrunc', R(2)),
            omega_c=self.blk(cp, 'omega_c'), omega_b=self.blk(cp, 'omega_b'), h0=self.blk(cp, 'h0'), n_s=self.blk(cp, 'n_s'),
            sigma_8=self.blk(cp, 'sigma_8'), m_nu=self.blk(cp, 'mnu'), w0=self.blk(cp, 'w'), wa=self.blk(cp, 'wa'),
            tcmb=self.blk(cp, 'TCMB', R('2.7255')), log10T_AGN=self.blk('halo_model_parameters', 'logT_AGN'),
            mb=F.ten(self.blk('halo_model_parameters', 'm_b', R('13.87'))), response=bool(cfg.get('response')),
        )
        if cfg.get('mode') == 'bnl':
            n = it.call(it.get('src.onepower.bnl', 'NonLinearBias'), [], dict(
                mass=F.masses(lmin, lmax, e['dlog10m']), z_vec=z, k_vec=k, h0=e['h0'], A_s=self.blk(cp, 'A_s'), omega_b=e['omega_b'],
                omega_c=e['omega_c'], omega_lambda=F.omega_lambda(self.blk(cp, 'omega_m')), n_s=e['n_s'], w0=e['w0'], z_dep=False))
            e['beta_nl'] = c.val(n, 'bnl')
        if cfg.get('response') or cfg.get('mode') == 'fortuna':
            s = 'matter_power_nl'
            e['matter_power_nl'] = F.resample(self.blk(s, 'p_k'), self.blk(s, 'z'), self.blk(s, 'k_h'), z, k)
        if self.galaxy or self.align:
            hod = cfg.get('hod', 'Cacciato')
            hp = dict(A_cen=self.blk('hodvals', 'A_cen'), A_sat=self.blk('hodvals', 'A_sat'))
            bins = cfg.get('bins', 1)
            for p in HODPAR[hod]:
                if hod == 'Cacciato':
                    hp[p] = self.blk('hodvals', p)
                elif bins == 1:
                    hp[p] = F.vec(self.blk('hodvals', p))
                else:
                    hp[p] = F.vec(*[self.blk('hodvals', f'{p}_{i + 1}') for i in range(bins)])
            poi = cfg.get('poisson', 'constant')
            e.update(poisson_model=poi, poisson_params={p: self.blk('pk_parameters', p) for p in POIPAR[poi]}, pointmass=bool(cfg.get('pointmass')),
                     hod_model=hod, hod_params=hp, compute_observable=bool(cfg.get('observable')))
            if self.galaxy:
                e['hod_settings'] = self.settings('hod')
                e['hod_settings_mm'] = self.settings_mm(e['hod_settings'])
            if cfg.get('observable'):
                e['obs_settings'] = dict(self.settings('smf'), save_observable=True, observable_section_name='obs')
        if self.align:
            e.update(align_params=self.align_params(pops(cfg)[0]), one_halo_ktrunc_ia=num('one_halo_ktrunc_ia', R(4)),
                     two_halo_ktrunc_ia=self.opt('two_halo_ktrunc_ia', R(6)),
                     t_eff=self.blk('pk_parameters', 'linear_fraction_fortuna', R(0)))
        return e


def wrap(v):
    return DictV({k: wrap(x) for k, x in v.items()}) if isinstance(v, dict) else v
