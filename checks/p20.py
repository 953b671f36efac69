"""Typestate of the options: every invalid value or combination must reach a raise on every path from construction, from an
update or, where validity depends on other inputs, from the evaluation that needs it; every valid one must reach none. Code
compares options only by equality with literals, so one string equal to no literal of the program stands for all others."""
from .common import BNL, HMI, IA, INGR, MODES, PK, POI, legal
from .p17 import MOD, fresh, kwof
from sa import graph as G
from sa.arrays import Arr
from sa.drive import A, S, align_params, hm_kw, spectra_kw
from sa.interp import RaiseSig
from sa.values import DictV, ListV, PhiV, Top

MIN_OBLIGATIONS = 120
SIZES = dict(quick=(), thorough=())     # wrong shapes are told from right ones by their sizes

BAD = ('<no such option>', 'Mead2020', 'mead2020 ', 'mead', 'HMCODE', 'hmcode_', 'Bnl', 'none', '', 'Constant', 'halo mass', 'luminosit', 'fft', 'Hankel')
OPTIONS = {
    ('Spectra', 'nonlinear_mode'): ('bnl', 'fortuna', None), ('Spectra', 'hmcode_ingredients'): ('mead2020', 'mead2020_feedback', 'fit', None),
    ('HaloModelIngredients', 'hmcode_ingredients'): ('mead2020', 'mead2020_feedback', 'fit', None),
    ('AlignmentAmplitudes', 'central_ia_depends_on'): ('constant', 'luminosity', 'halo_mass'), ('AlignmentAmplitudes', 'satellite_ia_depends_on'): ('constant', 'luminosity', 'halo_mass'),
    ('SatelliteAlignment', 'central_ia_depends_on'): ('constant', 'luminosity', 'halo_mass'), ('SatelliteAlignment', 'satellite_ia_depends_on'): ('constant', 'luminosity', 'halo_mass'),
    ('SatelliteAlignment', 'method'): ('hankel', 'fftlog'), ('SatelliteAlignment', 'ell_max'): (0, 2, 6, 10, 11),
}


def jobs(tier):
    return [('option', k, o) for k, o in OPTIONS] + [('combination',), ('context',), ('shape',), ('alignment',), ('poisson',), ('emulator',), ('thinning',), ('unknown',)]


# settings next to which a contradiction must still be refused
CONTEXTS = (dict(response=True), dict(dewiggle=True), dict(pointmass=True), dict(plin=False), dict(pnl=False), dict(plin=False, pnl=False), dict(kt=False), dict(compute_observable=True),
            dict(hod='Zheng'), dict(hod='Zhai', response=True), dict(poisson='power_law'), dict(sovirial=True),
            dict(dewiggle=True, response=True, kt=False))


def attempt(c, f):
    """('raise', name, site) if the call definitely raises, ('ok', value) if it returns, None if unknown"""
    try:
        v = f()
    except RaiseSig as r:
        return 'raise', r.name, r.site
    return 'ok', v, None


def rejects(c, rule, subject, f, why, where):
    n0 = len(c.it.findings)
    try:
        r = attempt(c, f)
    except Exception as e:
        c.require(rule, subject, None, repr(e), None, where)
        return
    if r[0] == 'raise':
        c.require(rule, subject, True, '', None, where)
    elif isinstance(r[1], Top):
        none = 'None used' in r[1].why
        c.require(rule, subject, False if none else True if r[1].bad else None, why + ' (' + r[1].why + ')', r[1].site, where)
    else:
        c.require(rule, subject, False, why, None, where)


def accepts(c, rule, subject, f, where):
    r = attempt(c, f)
    bad = r[0] == 'raise' or isinstance(r[1], Top) and r[1].bad
    c.require(rule, subject, not bad, f'a valid setting is refused: {r[1].why if isinstance(r[1], Top) else r[1]}', r[2], where)


def new(c, cls, kw):
    return c.it.call(c.it.get(MOD[cls], cls), [], {k: fresh(v) for k, v in kw.items()})


def update(c, o, **kw):
    return c.it.call(c.it.getattr(o, 'update'), [], kw)


def run(c, job):
    it = c.it
    if job[0] == 'option':
        _, cls, opt = job
        kw = kwof(c, cls, {'Spectra': 'default', 'HaloModelIngredients': None}.get(cls, 'constant'))
        good = OPTIONS[cls, opt]
        bad = [b for b in BAD if b not in good] if opt != 'ell_max' else [12, 13, 20, 100]
        for b in bad:
            rejects(c, 'rejected', f'{cls}.{opt}', lambda: new(c, cls, {**kw, opt: b}), f'{opt}={b!r} is accepted at construction', f'{b!r}')
            o = new(c, cls, kw)
            rejects(c, 'rejected-in-update', f'{cls}.{opt}', lambda: update(c, o, **{opt: b}), f'{opt}={b!r} is accepted in an update', f'{b!r}')
        for g in good:
            accepts(c, 'accepted', f'{cls}.{opt}', lambda: new(c, cls, {**kw, opt: g}), f'{g!r}')
            o = new(c, cls, kw)
            accepts(c, 'accepted-in-update', f'{cls}.{opt}', lambda: update(c, o, **{opt: g}), f'{g!r}')
    elif job[0] == 'combination':
        for m in MODES:
            for i in INGR:
                kw = spectra_kw(it)
                kw2 = {**kw, 'nonlinear_mode': m, 'hmcode_ingredients': i}
                n = f'{m},{i}'
                f = lambda: new(c, 'Spectra', kw2)
                if legal(m, i):
                    accepts(c, 'accepted', 'mode and ingredients', f, n)
                    o = new(c, 'Spectra', kw)
                    accepts(c, 'accepted-in-update', 'mode and ingredients', lambda: update(c, o, nonlinear_mode=m, hmcode_ingredients=i), n)
                    if m == 'hmcode':
                        rejects(c, 'rejected-in-update', 'mode and ingredients', lambda: update(c, new(c, 'Spectra', kw2), hmcode_ingredients=None), 'removing the ingredients hmcode needs is accepted', n)
                        rejects(c, 'rejected-in-update', 'mode and ingredients', lambda: update(c, new(c, 'Spectra', kw2), hmcode_ingredients='fit'), 'changing to ingredients hmcode cannot use is accepted', n)
                else:
                    rejects(c, 'rejected', 'mode and ingredients', f, f'nonlinear_mode={m} is accepted with hmcode_ingredients={i}', n)
                    o = new(c, 'Spectra', kw)
                    rejects(c, 'rejected-in-update', 'mode and ingredients', lambda: update(c, o, nonlinear_mode=m, hmcode_ingredients=i), f'nonlinear_mode={m} is accepted with hmcode_ingredients={i} in an update', n)
    elif job[0] == 'context':
        for ctx in CONTEXTS:
            kw = spectra_kw(it, **ctx)
            for m in MODES:
                for i in INGR:
                    n = f'{m},{i},{ctx}'
                    f = lambda: new(c, 'Spectra', {**kw, 'nonlinear_mode': m, 'hmcode_ingredients': i})
                    g = lambda: update(c, new(c, 'Spectra', kw), nonlinear_mode=m, hmcode_ingredients=i)
                    if legal(m, i):
                        accepts(c, 'accepted', 'mode and ingredients', f, n)
                        accepts(c, 'accepted-in-update', 'mode and ingredients', g, n)
                    else:
                        rejects(c, 'rejected', 'mode and ingredients', f, f'nonlinear_mode={m} is accepted with hmcode_ingredients={i}', n)
                        rejects(c, 'rejected-in-update', 'mode and ingredients', g, f'nonlinear_mode={m} is accepted with hmcode_ingredients={i}', n)
            for opt in ('nonlinear_mode', 'hmcode_ingredients'):
                for b in BAD[:4]:
                    rejects(c, 'rejected', f'Spectra.{opt}', lambda: new(c, 'Spectra', {**kw, opt: b}), f'{opt}={b!r} is accepted at construction', f'{b!r},{ctx}')
            # every value of an option that leaves the mode alone is still judged against it
            for m, i in (('hmcode', None), ('hmcode', 'fit')):
                legal_first = new(c, 'Spectra', {**kw, 'nonlinear_mode': 'hmcode', 'hmcode_ingredients': 'mead2020'})
                rejects(c, 'rejected-in-update', 'mode and ingredients', lambda: update(c, legal_first, hmcode_ingredients=i), f'hmcode keeps running with hmcode_ingredients={i}', f'{i},{ctx}')
    elif job[0] == 'shape':
        shapes = dict(redshifts=('Zother', 'K'), wavenumbers=('Z', 'Kother'), transposed=('K', 'Z'), extra=('Z', 'K', 'Z'), one=('K',), single_z=(1, 'K'), single_k=('Z', 1))
        for n, sh in shapes.items():
            for dew in (False,):
                rejects(c, 'shape', 'matter_power_lin', lambda: c.val(new(c, 'Spectra', {**spectra_kw(it, dewiggle=dew), 'matter_power_lin': A('P', *sh)}), 'power_spectrum_mm.pk_tot'),
                        f'a linear spectrum of shape {sh} is used on a (Z, K) grid', n)
            for cfg in (dict(response=True), dict(mode='fortuna')):
                rejects(c, 'shape', 'matter_power_nl', lambda: c.val(new(c, 'Spectra', {**spectra_kw(it, **cfg), 'matter_power_nl': A('P', *sh)}), 'power_spectrum_gm.pk_tot' if cfg.get('response') else 'power_spectrum_ii.pk_tot'),
                        f'a non-linear spectrum of shape {sh} is used on a (Z, K) grid', n)
    elif job[0] == 'alignment':
        for cls in ('AlignmentAmplitudes', 'SatelliteAlignment'):
            for pop, q in (('cen', 'alignment_gi'), ('sat', 'gamma_1h_amp')):
                for dep, missing in (('luminosity', 'lpivot_'), ('halo_mass', 'mpivot_'), ('luminosity', 'z_loglum_file_')):
                    kw = kwof(c, cls, dep)
                    k = missing + (pop if missing != 'z_loglum_file_' else {'cen': 'centrals', 'sat': 'satellites'}[pop])
                    other = {'cen': 'satellite_ia_depends_on', 'sat': 'central_ia_depends_on'}[pop]
                    if dep == 'luminosity' and pop == 'sat':
                        kw['beta_two'] = None
                    kw2 = {**kw, other: 'constant', k: None}
                    rejects(c, 'missing-input', f'{cls}.{k}', lambda: c.val(new(c, cls, kw2), q), f'{dep} scaling without {k} yields amplitudes', dep)
                    accepts(c, 'complete-input', f'{cls}.{k}', lambda: c.val(new(c, cls, {**kw, other: 'constant'}), q), dep)
                    # what the other population would need is not needed
                    o = {'cen': ('lpivot_sat', 'mpivot_sat', 'z_loglum_file_satellites'), 'sat': ('lpivot_cen', 'mpivot_cen', 'z_loglum_file_centrals')}[pop]
                    accepts(c, 'complete-input', f'{cls}.{k}', lambda: c.val(new(c, cls, {**kw, other: 'constant', **{x: None for x in o}}), q), dep + ' only')
            kw = kwof(c, cls, 'halo_mass')
            rejects(c, 'contradiction', f'{cls}.beta_two', lambda: c.val(new(c, cls, {**kw, 'beta_two': S('beta_two')}), 'alignment_gi'), 'a broken power law of luminosity is accepted with halo-mass scaling', 'halo_mass')
    elif job[0] == 'poisson':
        P = it.get(POI, 'power_law')
        for miss in ('pivot', 'slope'):
            d = {k: S('poisson:' + k) for k in ('poisson', 'pivot', 'slope')}
            d[miss] = None
            rejects(c, 'missing-input', f'poisson.{miss}', lambda: c.val(new(c, 'Spectra', {**spectra_kw(it, poisson='power_law'), 'poisson_params': DictV(d)}), 'poisson_func'),
                    f'a power-law Poisson parameter without {miss} is evaluated', '')
    elif job[0] == 'emulator':
        for z in (False, True):
            kw = kwof(c, 'NonLinearBias', z)
            rejects(c, 'missing-input', 'NonLinearBias.amplitude', lambda: c.val(new(c, 'NonLinearBias', {**kw, 'A_s': None, 'sigma_8': None}), 'emulator'), 'the emulator is set up without an amplitude', str(z))
            for a, b in ((S('A_s'), None), (None, S('sigma_8')), (S('A_s'), S('sigma_8'))):
                accepts(c, 'complete-input', 'NonLinearBias.amplitude', lambda: c.val(new(c, 'NonLinearBias', {**kw, 'A_s': a, 'sigma_8': b}), 'emulator'), str(z))
    elif job[0] == 'thinning':
        kw = kwof(c, 'SatelliteAlignment', 'constant')
        for nm, ok in ((5, True), (6, True), (4, False), (1, False)):
            k = {**kw, 'method': 'hankel', 'mass_in': A('m5', nm), 'c_in': A('c5', 'Z', nm), 'r_s_in': A('r5', 'Z', nm), 'rvir_in': A('v5', nm)}
            if ok:
                accepts(c, 'complete-input', 'mass resolution', lambda: c.val(new(c, 'SatelliteAlignment', k), 'mass'), str(nm))
            else:
                rejects(c, 'missing-input', 'mass resolution', lambda: c.val(new(c, 'SatelliteAlignment', k), 'mass'), f'{nm} halo masses are accepted for the radial integrals', str(nm))
    else:
        o = new(c, 'Spectra', spectra_kw(it))
        rejects(c, 'rejected-in-update', 'unknown parameter', lambda: update(c, o, no_such_parameter=S('x')), 'an unknown parameter is accepted in an update', '')
        kw = spectra_kw(it)
        rejects(c, 'rejected', 'unknown parameter', lambda: new(c, 'Spectra', {**kw, 'no_such_parameter': S('x')}), 'an unknown parameter is accepted at construction', '')
        for d, q in (('hod_params', 'hod'), ('poisson_params', 'poisson_func'), ('align_params', 'alignment_class')):
            kw2 = {**kw, d: DictV({**kw[d].d, 'no_such_parameter': S('x')})}
            rejects(c, 'rejected', f'unknown entry of {d}', lambda: c.val(new(c, 'Spectra', kw2), q), f'an unknown entry of {d} is accepted', '')
