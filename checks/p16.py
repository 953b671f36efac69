"""For every spectrum, component, number of populations and source of the fraction, the published result on the requested
grid is compared, value graph against value graph, with the interpolated spectra of the two populations mixed with the
population fraction (squared where both tracers belong to the population); matter is never mixed."""
from sa.harness import EQUAL
from .common import ADD, PK, spectra_kw
from sa.drive import A, S
from sa.interp import RaiseSig
from sa.values import DictV, ListV, StrV, Top

MIN_OBLIGATIONS = 60
SIZES = dict(quick=(), thorough=(EQUAL,))
SPECTRA = ('mm', 'gg', 'gm', 'mi', 'ii', 'gi')
COMP = ('1h', '2h', 'tot')


def jobs(tier):
    out = []
    for two in (False, True):
        for frac in (False, True):
            for given in (False, True):
                out.append((two, frac, given, 'extrapolate'))
    return out + [(True, True, False, 'other'), (False, False, True, 'other'), (True, True, False, 'own grid'), (True, True, True, 'again')]


def run(c, job):
    two, frac, given, outside = job
    it, F = c.it, c.F('mixing')
    n = f'populations={1 + two},fraction={"given" if frac else None},model={"given" if given else "parameters"},outside={outside}'
    cls = it.get(ADD, 'UpsampledSpectra')
    kw = dict(spectra_kw(it))
    first = it.call(it.get(PK, 'Spectra'), [], dict(kw))
    z, k, fz, f = A('z_out', 'Zx'), A('k_out', 'Kx'), A('frac_z', 'Zf'), A('frac', 'Zf')
    out = S('outside') if outside == 'other' else 'extrapolate'
    second = dict(h0=S('h0_b'), t_eff=S('t_eff_b'), hod_params=kw['hod_params']) if two else None
    if outside == 'own grid':
        # the second population is tabulated on its own redshifts and wavenumbers
        second.update(z_vec=A('z_b', 'Zb'), k_vec=A('k_b', 'Kb'), matter_power_lin=A('P_lin_b', 'Zb', 'Kb'), matter_power_nl=A('P_nl_b', 'Zb', 'Kb'))
    args = dict(z=z, k=k, fraction_z=fz if frac else None, fraction=f if frac else None, model=first if given else None,
                model_1_params=None if given else DictV({kk: v for kk, v in kw.items()}), model_2_params=DictV(second) if two else None,
                extrapolate_option=out)
    try:
        o = it.call(cls, [], args)
        if outside == 'again':
            # earlier requests, for fewer spectra and parts, do not matter
            it.call(it.getattr(o, 'results'), [ListV(['gg', 'mm']), ListV(['tot'])], {})
            it.call(it.getattr(o, 'results'), [ListV(['gm']), ListV(['1h', 'tot'])], {})
        it.call(it.getattr(o, 'results'), [ListV(list(SPECTRA)), ListV(list(COMP))], {})
    except RaiseSig as r:
        c.require('evaluates', 'results', False, f'raises {r.name}', r.site, n)
        return
    f1 = F.fraction(z, fz, f) if frac else F.all_first(z)
    c.expect('fraction', 'frac_1', c.val(o, 'frac_1'), f1, n)
    c.expect('fraction', 'frac_2', c.val(o, 'frac_2'), F.second(f1), n)
    if given:
        # the caller's model is left alone
        for q in ('h0', 't_eff'):
            c.expect('model-untouched', q, c.val(first, q), kw[q], n)
    s2 = it.call(it.get(PK, 'Spectra'), [], dict(kw, **second)) if two else None
    for s in SPECTRA:
        for x in COMP:
            u = [F.upsample(z, k, c.val(q, 'z_vec'), c.val(q, 'k_vec'), c.val(q, f'power_spectrum_{s}.pk_{x}'), out) if q is not None else None
                 for q in (first, s2)]
            got = c.val(o, f'power_spectrum_{s}.pk_{x}')
            if u[1] is None:
                u[1] = F.zero(u[0])
            want = u[0] if s == 'mm' else F.mix_single(f1, *u) if s in ('gm', 'mi') else F.mix_pair(f1, *u)
            c.expect('mixing', f'{s}.{x}', got, want, n)
