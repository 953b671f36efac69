"""Galaxy abundances, central and satellite fractions, mean-mass and bias averages and stellar fractions of every HOD are
compared, value graph against value graph, with the mass integrals of the published occupations over the halo mass
function at the selection's own redshifts, interpolated to the model redshifts; the same for the instances inside the
power-spectrum class, which must be built from its own halo model, settings and parameters."""
from .common import build, name
from .hodspec import MODELS, HodSpec, make
from sa.values import Top

MIN_OBLIGATIONS = 100


def jobs(tier):
    out = [(m, v, b, False, u) for m in MODELS for v, b, u in ((False, False, '1/h^2'), (False, True, '1/h'))]
    out += [('Zheng', True, True, False, '1/h'), ('Simple', True, False, False, '1/h^2')]
    out += [(m, False, False, True, u) for m in ('Cacciato', 'Zhai') for u in ('1/h', '1/h^2')]
    out += ['pk']
    return out


def run(c, job):
    if job == 'pk':
        return spectra(c)
    m, vec, boost, file, unit = job
    o, s, cosmo = make(c, m, vec, boost, file, unit)
    n = f'{m},{"per-bin" if vec else "scalar"} parameters,{"boosted" if boost else "plain"},{"table" if file else "limits"},{unit}'
    for q, want in s.averages().items():
        c.expect('average', f'{m}.{q}', c.val(o, q), want, n)
    h = c.it.getattr(cosmo, 'h') if unit == '1/h^2' else None
    for q, want in s.stellar(h).items():
        c.expect('stellar-fraction', f'{m}.{q}', c.val(o, q), want, n)


def spectra(c):
    F = c.F('hod')
    for m in ('Cacciato', 'Zheng'):
        for ingr in (None, 'fit'):
            if m == 'Zheng' and ingr:
                continue
            cfg = dict(mode=None, ingr=ingr, hod=m)
            o = build(c, **cfg)
            if o is None:
                continue
            v = lambda x: c.val(o, x)
            ing = [v(x) for x in ('mass', 'dndlnm', 'halo_bias', 'z_vec')]
            h = c.it.getattr(v('cosmo_model'), 'h')
            s = HodSpec(c, m, v('hod_params'), v('hod_settings'), *ing)
            av = s.averages()
            n = 'Spectra,' + name(cfg)
            for q, want in av.items():
                c.expect('average', f'hod.{q}', v(f'hod.{q}'), want, n)
            c.expect('average', 'mass_avg', v('mass_avg'), F.ratio(av['avg_halo_mass_cen'], av['number_density_cen']), n)
            for q, want in {**s.occupations(), **s.stellar(h)}.items():
                c.expect('stellar-fraction', f'hod.{q}', v(f'hod.{q}'), want, n)
            c.expect('stellar-fraction', 'fstar', v('fstar'), s.stellar(h)['stellar_fraction'], n)
            if m == 'Cacciato' and ingr:
                s2 = HodSpec(c, m, v('hod_params'), v('hod_settings_mm'), *ing)
                c.expect('stellar-fraction', 'fstar_mm', v('fstar_mm'), s2.stellar(h)['stellar_fraction'], n)
