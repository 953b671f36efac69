"""The modules that turn power spectra into projected correlation functions, convert angles and correct for the data cosmology are
interpreted abstractly on a symbolic data block; every entry they leave in the block is compared, value graph against value graph,
with the stated formula. The FFTLog transform itself (the vendored pyfftlog) is an uninterpreted function of its arguments."""
from fractions import Fraction

from sa import blockmodel, graph as G
from sa.drive import A, S
from sa.interp import RaiseSig
from sa.judge import compare
from sa.models import FFTLOG
from sa.values import ExtV, ListV, Top

MIN_OBLIGATIONS = 40
PKR = 'cosmosis_modules.pk_to_real.pk_to_real'
COR = 'cosmosis_modules.pk_to_real.correct_cosmo_real'
ANG = 'cosmosis_modules.convert_theta.convert_theta'
O = 'module_options'
COSMO = ('hubble', 'omega_b', 'omega_m', 'mnu', 'w', 'wa')


def jobs(tier):
    out = []
    for kind in ('wp', 'ds'):
        for bins in (1, 2):
            out += [('real', kind, bins, 'plain'), ('real', kind, bins, 'suffixes'), ('real', kind, bins, 'defaults'), ('real', kind, bins, 'sections')]
        out += [('cosmo', kind, 1, None), ('cosmo', kind, 1, 'FlatLambdaCDM'), ('cosmo', kind, 2, None), ('cosmo', kind, 3, None)]
    out += [('angle', u, v) for u in ('rad', 'radian', 'radians', 'deg', 'arcmin', 'arcsec') for v in ('rad', 'deg', 'arcmin', 'arcsec')]
    out += [('refuse',)]
    return out


def run(c, job):
    c.it.cuts.update({k: f for k, f in FFTLOG.items()})
    c.it.raise_guards.clear()
    try:
        globals()['run_' + job[0]](c, *job[1:])
        if job[0] != 'refuse':
            for site, cond in c.it.raise_guards:
                c.require('no valid data refused', site[1] if site else '', False, 'the module gives up depending on the values of its data: ' + G.show(cond)[:80], site, '/'.join(str(x) for x in job))
            c.require('no valid data refused', job[0], True, '', None, '/'.join(str(x) for x in job))
    except RaiseSig as e:
        c.require('evaluates', '/'.join(str(x) for x in job), False, f'raises {e.name}', e.site, str(job))


def run_real(c, kind, bins, how):
    it, F = c.it, c.F('realspace')
    name = f'{kind}/{bins}/{how}'
    o = {(O, 'corr_type'): kind, (O, 'sample'): 'sam'}
    n, kmin, kmax, rmin, rmax = 8192, G.const('1e-4'), G.const(5000000), G.const('0.1'), G.const(1000)
    from sa.arrays import scalar
    kmin, kmax, rmin, rmax = [scalar(x) for x in (kmin, kmax, rmin, rmax)]
    if how != 'defaults':
        n, kmin, kmax, rmin, rmax = G.ixn('N'), S('kmin'), S('kmax'), S('rmin'), S('rmax')
        for nm, v in (('n_transform', n), ('k_min_extrapolate', kmin), ('k_max_extrapolate', kmax), ('rp_min', rmin), ('rp_max', rmax)):
            o[O, nm] = v
    sec, out = {'wp': 'galaxy_power', 'ds': 'matter_galaxy_power'}[kind], kind
    if how == 'sections':
        o[O, 'input_section_name'], o[O, 'output_section_name'] = 'other_power', 'elsewhere'
        sec, out = 'other_power', 'elsewhere'
    elif how == 'defaults' and bins == 2:
        o[O, 'input_section_name'], o[O, 'output_section_name'] = '', ''
    secs = [sec] * bins
    b = {('sam', 'z'): A('nz:z', 'Zn'), ('sam', 'nbin'): bins}
    if how == 'suffixes':
        suf = ['a', 'b'][:bins]
        o[O, 'suffixes'] = ListV(suf) if bins > 1 else suf[0]
        secs = [f'{sec}_{x}' for x in suf]
        b['sam', 'nbin'] = 7   # the suffixes decide
    for i, s in enumerate(secs):
        b[s, 'z'], b[s, 'k_h'], b[s, 'p_k'] = A(s + ':z', 'Z'), A(s + ':k', 'K'), A(s + ':p', 'Z', 'K')
        b['sam', f'bin_{i + 1}'] = A(f'nz:{i}', 'Zn')
    if kind == 'ds':
        rho = S('rho').node()
        from sa.arrays import Arr
        b['density', 'mean_density0'] = Arr((G.ixn('Z0'),), lambda ii: rho)
    config = it.call(it.get(PKR, 'setup'), [blockmodel.make(o, 'options')], {})
    block = blockmodel.make(b, 'block')   # the second sample of a chain
    it.call(it.get(PKR, 'execute'), [blockmodel.make(renamed(b), 'first'), config], {})
    succeeded(c, it.call(it.get(PKR, 'execute'), [block, config], {}), PKR)
    mu = {'wp': 0, 'ds': 2}[kind]
    args = [mu, kmin, kmax, n, rmin, rmax]
    scale = F.per(S('rho'), 10**12) if kind == 'ds' else 1
    want = {'rp': F.rp(*args), 'nbin': bins, 'sample': 'sam', 'sep_name': 'rp', 'save_name': kind}
    for i, s in enumerate(secs):
        want[f'bin_{i + 1}'] = F.projected(*args, b[s, 'z'], b[s, 'k_h'], b[s, 'p_k'], b['sam', 'z'], b['sam', f'bin_{i + 1}'], scale)
    entries(c, block, b, {(out, k): v for k, v in want.items()}, name)


def succeeded(c, status, what):
    c.require('reports success', what, isinstance(status, Top) and None or not (isinstance(status, (int, Fraction)) and status != 0), f'a good run returns {status}, which stops the pipeline', None, 'status')


def entries(c, block, b, want, name):
    for k, w in want.items():
        got = block.f.get(k)
        if got is None:
            c.require('written', '/'.join(k), None if c.it.lost else False, 'is not written', None, name)
        elif isinstance(w, str):
            c.require('output', '/'.join(k), got == w if isinstance(got, str) else None, f'is {got!r}', None, name)
        else:
            c.expect('output', '/'.join(k), got, w, name)
    for k, v in block.f.items():
        if not isinstance(k, tuple) or k in want:
            continue
        if k not in b:
            c.require('nothing-else', '/'.join(k), False, 'is written although it was not asked for', None, name)
        elif v is not b[k]:
            c.expect('kept', '/'.join(k), v, b[k], name)


def renamed(b):
    from sa.arrays import Arr
    out = {}
    for k, v in b.items():
        if isinstance(v, Arr):
            nm = f'first:{k[0]}:{k[1]}'
            v = A(nm, *[s.terms[0][0][1] for s in v.shape]) if v.shape and k[1] != 'mean_density0' else Arr(v.shape, lambda ii, n=S(nm).node(): n)
        out[k] = v
    return out


def run_cosmo(c, kind, bins, cls):
    it, F = c.it, c.F('realspace')
    name = f'{kind}/{bins}/{cls}'
    z = [S(f'z{i}') for i in range(bins)]
    o = {(O, 'section_name'): kind, (O, 'z'): z[0] if bins == 1 and cls else ListV(z)}
    par = {'H0': 70, 'Om0': '0.3', 'Ode0': '0.7'}
    if cls:
        o[O, 'astropy_cosmology_class'] = cls
        o[O, 'cosmo_kwargs'] = "{'H0': 67.0, 'Om0': 0.31}"
        par = {'H0': 67, 'Om0': '0.31'}
    b = {('cosmological_parameters', n): S('cos:' + n) for n in COSMO}
    b[kind, 'rp'] = A('rp', 'R')
    for i in range(bins):
        b[kind, f'bin_{i + 1}'] = A(f'bin{i}', 'R')
    b[kind, 'nbin'], b[kind, 'save_name'] = bins, kind
    if cls:
        b['cosmological_parameters', 'tcmb'] = S('tcmb')
    new = lambda n, kw: it.call(ExtV('astropy.cosmology.' + n), [], kw)
    from fractions import Fraction
    data = new(cls or 'LambdaCDM', {k: Fraction(v) for k, v in par.items()})
    cp = lambda n: b['cosmological_parameters', n]
    model = new('Flatw0waCDM', dict(H0=cp('hubble'), Ob0=cp('omega_b'), Om0=cp('omega_m'), m_nu=ListV([0, 0, cp('mnu')]), w0=cp('w'), wa=cp('wa'),
                                    Tcmb0=S('tcmb') if cls else Fraction('2.7255')))
    config = it.call(it.get(COR, 'setup'), [blockmodel.make(o, 'options')], {})
    block = blockmodel.make(b, 'block')
    it.call(it.get(COR, 'execute'), [blockmodel.make(renamed(b), 'first'), config], {})
    succeeded(c, it.call(it.get(COR, 'execute'), [block, config], {}), COR)
    f = {'wp': F.wp_ratio, 'ds': F.ds_ratio}[kind]
    want = {(kind, f'bin_{i + 1}'): F.times(b[kind, f'bin_{i + 1}'], f(model, data, z[i])) for i in range(bins)}
    # one axis serves all bins: it can follow one bin's rescaling only
    if bins == 1:
        want[kind, 'rp'] = F.times(b[kind, 'rp'], F.axis_ratio(model, data, z[0]))
        entries(c, block, b, want, name)
    else:
        got = block.f[kind, 'rp']
        ratios = [F.axis_ratio(model, data, x) for x in z]
        every = b[kind, 'rp']
        for x in ratios:
            every = F.times(every, x)
        if compare(got, every).status == 'ok':
            c.require('axis-rescaled-once', f'{kind}/rp', False, 'the separations are multiplied by the ratios of all bins', None, name)
        else:
            c.expect_any('shared-axis', f'{kind}/rp', got, [F.times(b[kind, 'rp'], x) for x in ratios], name)
        block.f[kind, 'rp'] = b[kind, 'rp']
        entries(c, block, b, want, name)


def run_angle(c, u, v):
    it = c.it
    from fractions import Fraction as Q
    from sa.arrays import emap
    size = {'rad': (Q(1), 0), 'radian': (Q(1), 0), 'radians': (Q(1), 0), 'deg': (Q(1, 180), 1), 'arcmin': (Q(1, 10800), 1), 'arcsec': (Q(1, 648000), 1)}
    config = it.call(it.get(ANG, 'setup'), [blockmodel.make({(O, 'output_units'): v, (O, 'section_name'): 'sec'}, 'options')], {})
    th = A('theta', 'T')
    b = {('sec', 'theta'): th, ('sec', 'theta#unit'): u, ('sec', 'other'): A('other', 'T')}
    block = blockmodel.make(b, 'block')
    succeeded(c, it.call(it.get(ANG, 'execute'), [block, config], {}), ANG)
    f, p = size[u][0] / size[v][0], size[u][1] - size[v][1]
    want = emap(lambda x: G.mul(x, G.const(f), G.powr(G.PI, p)), th)
    entries(c, block, b, {('sec', 'theta'): want, ('sec', 'theta#unit'): v}, f'{u} to {v}')


def raises(c, what, f):
    try:
        r = f()
    except RaiseSig:
        c.require('refused', what, True, '')
        return
    c.require('refused', what, None if isinstance(r, Top) else False, 'is accepted')


def run_refuse(c):
    it = c.it
    opt = lambda **kw: blockmodel.make({(O, k): v for k, v in kw.items()}, 'options')
    raises(c, 'unknown correlation type', lambda: it.call(it.get(PKR, 'setup'), [opt(corr_type='xi', sample='s')], {}))
    raises(c, 'missing correlation type', lambda: it.call(it.get(PKR, 'setup'), [opt(sample='s')], {}))
    raises(c, 'missing sample', lambda: it.call(it.get(PKR, 'setup'), [opt(corr_type='wp')], {}))
    raises(c, 'unknown angular unit', lambda: it.call(it.get(ANG, 'setup'), [opt(output_units='hour', section_name='s')], {}))
    raises(c, 'missing angular unit', lambda: it.call(it.get(ANG, 'setup'), [opt(section_name='s')], {}))

    def redshifts(count):
        config = it.call(it.get(COR, 'setup'), [opt(section_name='wp', z=ListV([S(f'z{i}') for i in range(count)]))], {})
        b = {('cosmological_parameters', n): S('cos:' + n) for n in COSMO}
        b.update({('wp', 'rp'): A('rp', 'R'), ('wp', 'bin_1'): A('b1', 'R'), ('wp', 'bin_2'): A('b2', 'R'), ('wp', 'nbin'): 2, ('wp', 'save_name'): 'wp'})
        it.call(it.get(COR, 'execute'), [blockmodel.make(b, 'block'), config], {})
    raises(c, 'fewer redshifts than bins', lambda: redshifts(1))
    raises(c, 'more redshifts than bins', lambda: redshifts(3))

    def kind():
        config = it.call(it.get(COR, 'setup'), [opt(section_name='wp', z=ListV([S('z0')]))], {})
        b = {('cosmological_parameters', n): S('cos:' + n) for n in COSMO}
        b.update({('wp', 'rp'): A('rp', 'R'), ('wp', 'bin_1'): A('b1', 'R'), ('wp', 'nbin'): 1, ('wp', 'save_name'): 'xi'})
        it.call(it.get(COR, 'execute'), [blockmodel.make(b, 'block'), config], {})
    raises(c, 'unknown kind of correlation function', kind)
