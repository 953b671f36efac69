"""For every legal mode configuration the value graph of each published spectrum's total is compared with the sum of
the value graphs of its one- and two-halo parts (HMcode matter total: the published smoothing), and the response
configuration with the same graph without response multiplied by P_nl over the un-rescaled matter total."""
from .common import Ing, build, mode_configs, name
from sa.values import Top

MIN_OBLIGATIONS = 100
SPECTRA = ('mm', 'gg', 'gm', 'mi', 'ii', 'gi')
PARTS = ('pk_1h', 'pk_2h', 'pk_tot')


def jobs(tier):
    return list(mode_configs())


def run(c, cfg):
    C = c.F('spectra')
    if True:
        plain = build(c, **cfg)
        resp = build(c, **{**cfg, 'response': True})
        if plain is None or resp is None:
            return
        g = Ing(c, plain, cfg)
        n = name(cfg)
        for s in SPECTRA:
            p1, p2, pt = (c.val(plain, f'power_spectrum_{s}.{x}') for x in PARTS)
            if s == 'mm' and cfg['mode'] == 'hmcode':
                want = C.mm_tot_mead(g.k, g.v('neff'), p1, p2)
            else:
                want = C.total(p1, p2)
            if not isinstance(want, Top):
                c.expect('total-is-sum', f'power_spectrum_{s}', pt, want, n)
            else:
                c.expect('total-is-sum', f'power_spectrum_{s}', want, want if not isinstance(want, Top) else 0, n)
        mm0 = c.val(plain, 'power_spectrum_mm.pk_tot')
        nl = c.val(resp, 'matter_power_nl')
        for s in SPECTRA:
            for x in PARTS:
                got = c.val(resp, f'power_spectrum_{s}.{x}')
                if s == 'mm':
                    want = C.zeros(nl) if x != 'pk_tot' else C.total(C.zeros(nl), nl)
                else:
                    want = C.rescaled(c.val(plain, f'power_spectrum_{s}.{x}'), nl, mm0)
                if isinstance(want, Top):
                    want = 0
                c.expect('response-rescales', f'power_spectrum_{s}.{x}', got, want, n)
