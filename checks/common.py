"""Configurations and shared ingredients of the checks."""
import itertools

from sa import graph as G
from sa.arrays import Arr
from sa.drive import (ADD, BNL, HMI, HOD, IA, PK, POI, A, S, align_params, cosmo_kw, hm_kw, hod_params, hod_settings,
                      spectra_kw)
from sa.interp import RaiseSig
from sa.values import DictV, StrV, Top

MODES = (None, 'bnl', 'fortuna', 'hmcode')
INGR = (None, 'mead2020', 'mead2020_feedback', 'fit')
MEAD = ('mead2020', 'mead2020_feedback')


def legal(mode, ingr):
    return not (mode == 'hmcode' and ingr not in MEAD)


def mode_configs(response=(False,)):
    for mode, ingr, r in itertools.product(MODES, INGR, response):
        if legal(mode, ingr):
            yield dict(mode=mode, ingr=ingr, response=r)


def name(cfg):
    return ','.join(f'{k}={v}' for k, v in cfg.items() if v is not None and v is not False) or 'default'


def build(c, **cfg):
    """symbolic Spectra instance; a construction failure in a legal configuration is a violation"""
    it = c.it
    try:
        return it.call(it.get(PK, 'Spectra'), [], spectra_kw(it, **cfg))
    except RaiseSig as r:
        c.require('constructs', 'Spectra', False, f'construction raises {r.name} in a valid configuration', r.site, name(cfg))
        return None


class Ing:
    """public ingredients of one instance (the program's own values) and the specified composites"""

    def __init__(self, c, o, cfg):
        self.c, self.o, self.cfg = c, o, cfg
        self.F = c.F('halo')
        self.mode = cfg.get('mode')
        self.ingr = cfg.get('ingr')
        self._m = {}

    def v(self, path):
        if path not in self._m:
            self._m[path] = self.c.val(self.o, path)
        return self._m[path]

    def memo(self, key, f):
        if key not in self._m:
            self._m[key] = f()
        return self._m[key]

    # inputs
    @property
    def k(self):
        return self.v('k_vec')

    @property
    def mass(self):
        return self.v('mass')

    @property
    def nm(self):
        return self.v('dndlnm')

    @property
    def bias(self):
        return self.v('halo_bias')

    @property
    def rho(self):
        return self.v('mean_density0')

    @property
    def u(self):
        return self.v('u_dm')

    @property
    def us(self):
        return self.v('u_sat')

    def plin(self):
        """linear spectrum used by the model, from public input"""
        return self.v('power_spectrum_lin.pk_tot')

    def wm(self):
        return self.memo('wm', lambda: self.F.matter_profile(self.mass, self.rho, self.u))

    def wm_1h(self, galaxy=False):
        """matter profile of the one-halo term"""
        F, c = self.F, self.c
        if self.ingr == 'mead2020_feedback':
            return self.memo('wmf', lambda: F.feedback_profile(self.mass, self.rho, self.u, self.v('z_vec'), minus(self.v('log10T_AGN'), '7.8'), self.v('omega_c'), self.v('omega_b')))
        if self.ingr == 'fit' or (galaxy and self.cfg.get('pointmass') and self.ingr is None):
            fs = self.v('hod.stellar_fraction') if galaxy else self.fstar_mm()
            return self.memo(('wmp', galaxy), lambda: F.baryon_profile(self.mass, self.rho, self.u, lift(fs), self.v('mb'), self.v('omega_c'), self.v('omega_b')))
        return self.wm()

    def fstar_mm(self):
        return self.v('fstar_mm')

    def wc(self):
        return self.memo('wc', lambda: self.F.central_profile(self.v('hod.f_c'), self.v('hod.hod_cen'), self.v('hod.number_density_cen'), self.us))

    def ws(self):
        return self.memo('ws', lambda: self.F.satellite_profile(self.v('hod.f_s'), self.v('hod.hod_sat'), self.v('hod.number_density_sat'), self.us))

    def mean_mass(self):
        from sa.models import NP  # noqa: F401
        return self.memo('mbar', lambda: self.c.it.binop('Div', self.v('hod.avg_halo_mass_cen'), self.v('hod.number_density_cen')))

    def ac(self):
        v = self.v
        return self.memo('ac', lambda: self.F.central_alignment(v('hod.f_c'), v('alignment_class.alignment_gi'), v('growth_factor'), self.mass, self.mean_mass(), v('alignment_class.mpivot_cen'), v('alignment_class.beta_cen'), self.us))

    def as_(self):
        v = self.v
        return self.memo('as', lambda: self.F.satellite_alignment(v('hod.f_s'), v('hod.hod_sat'), v('hod.number_density_sat'), v('wkm_sat'), self.mean_mass(), v('alignment_class.mpivot_sat'), v('alignment_class.beta_sat')))

    def one(self, a, b):
        return self.F.one_halo(a, b, self.mass, self.nm)

    def I(self, w):
        return self.F.bias_integral(w, self.mass, self.nm, self.bias)

    def Im(self):
        return self.memo('Im', lambda: self.F.matter_bias_integral(self.u, self.mass, self.nm, self.bias, self.rho))

    def Ia(self, w):
        return self.F.alignment_bias_integral(w, self.mass, self.nm, self.bias, self.rho)

    def inl(self, a, b):
        return self.F.beta_integral(a, b, self.mass, self.nm, self.bias, self.rho, self.v('beta_nl'))

    def d1(self, ia=False):
        return self.F.one_halo_damping_ia(self.k, self.v('one_halo_ktrunc_ia')) if ia else self.F.one_halo_damping(self.k, self.v('one_halo_ktrunc'))

    def d2(self, ia=False):
        return self.F.two_halo_damping_ia(self.k, self.v('two_halo_ktrunc_ia')) if ia else self.F.two_halo_damping(self.k, self.v('two_halo_ktrunc'))


def op(c, o, a, b):
    return c.it.binop(o, a, b)


def minus(a, lit):
    from fractions import Fraction
    from sa.arrays import emap, scalar
    return emap(G.sub, a, scalar(G.const(Fraction(lit))))


def lift(fs):
    """[b,z,m] -> [b,z,1,m]"""
    if isinstance(fs, Top):
        return fs
    from sa.arrays import expand_dims
    return expand_dims(fs, 2)
