"""Satellite alignment: NFW mass normalisation, core/cap/truncation of the shear profile, Hankel transform of every even
multipole on both evaluation paths, angular weights for the tabulated and the general radial slope, the multipole sum, and
the resampling onto the spectra's grid are compared with the published expressions, value graph against value graph."""
from fractions import Fraction

from .common import IA, build
from sa.drive import A, align_params
from sa.arrays import Arr
from sa.values import ListV, PhiV, Top

MIN_OBLIGATIONS = 30
ELLS = (2, 4, 6, 10)
SLOPES = (Fraction(-2), 0, Fraction(-17, 10), Fraction(-3, 2))


def jobs(tier):
    j = [('angular', None, None), ('thinning', None, None)]
    j += [('fftlog', s, e) for s in SLOPES for e in ELLS]
    j += [('hankel', s, e) for s in SLOPES for e in ((6,) if tier == 'quick' else ELLS)]
    j += [('spectra', s, 6) for s in SLOPES]
    return j


def make(c, slope, method, ell_max, **over):
    kw = dict(align_params(slope=slope).d)
    kw.update(z_vec=A('z_vec', 'Z'), mass_in=A('mass', 'M'), c_in=A('conc', 'Z', 'M'), r_s_in=A('r_s', 'Z', 'M'),
              rvir_in=A('rvir', 'M'), method=method, ell_max=ell_max)
    kw.update(over)
    return c.it.call(c.it.get(IA, 'SatelliteAlignment'), [], kw)


def run(c, job):
    F = c.F('ia')
    what, slope, ell_max = job
    n = f'{what},slope={job[1]},ell_max={ell_max}'
    if what == 'angular':
        o = make(c, Fraction(-2), 'fftlog', 10)
        for sl in SLOPES + (Fraction(-1), Fraction(1, 3)):
            for ell in range(0, 11, 2):
                want = F.angular(ell, sl)
                c.expect('angular-weight', 'calculate_f_ell', c.call(c.attr(o, 'calculate_f_ell'), ell, sl), want, f'ell={ell},slope={sl}')
        return
    if what == 'thinning':
        # the coarse mass grid of the quadrature path keeps the first and the last mass, in step for all inputs
        for size in (7, 11, 12, 14, 23):
            o = make(c, Fraction(-2), 'hankel', 6, mass_in=A('m', size), c_in=A('c', 'Z', size), r_s_in=A('r', 'Z', size), rvir_in=A('v', size))
            for q, src in (('mass', A('m', size)), ('c', A('c', 'Z', size)), ('r_s', A('r', 'Z', size)), ('rvir', A('v', size))):
                got = c.val(o, q)
                while isinstance(got, PhiV):
                    # guard: is the last mass already kept (no two masses of the grid are equal)
                    got = got.a if len(F_shape(got.a)) and F_shape(got.a)[-1].const == len(kept(size)) else got.b
                c.expect('thinning', q, got, F.take(src, ListV(kept(size))), f'{size} masses')
        return
    if what == 'spectra':
        s = build(c, slope=slope)
        if s is None:
            return
        o = c.val(s, 'alignment_class')
        if isinstance(o, Top):
            c.require('wiring', 'alignment_class', None, 'not followed')
            return
        for a, b in (('mass_in', 'mass'), ('c_in', 'conc_cen'), ('r_s_in', 'r_s_cen'), ('z_vec', 'z_vec')):
            c.expect('wiring', a, c.val(o, a), c.val(s, b), n)
        c.expect('wiring', 'rvir_in', c.val(o, 'rvir_in'), c.val(s, 'rvir_cen'), n)
        w = F.resample_fftlog(c.val(o, 'k_vec'), c.val(o, 'wkm_f_ell'), c.val(s, 'k_vec'))
        c.expect('resampling', 'wkm_sat', c.val(s, 'wkm_sat'), F.on_spectra_grid(w), n)
        for p in ('gamma_1h_slope',):
            c.expect('wiring', p, c.val(o, p), slope, n)
        return
    for trunc in (False, True):
        o = make(c, slope, what, ell_max, truncate=trunc, rvir_in=A('rvir', 'Z', 'M') if trunc else A('rvir', 'M'))
        nn = n + (',truncated' if trunc else '')
        v = lambda x: c.val(o, x)
        if what == 'fftlog':
            z, mass, conc, r_s, rvir, amp, k = (v(x) for x in ('z_vec', 'mass', 'c', 'r_s', 'rvir', 'gamma_1h_amp', 'k_vec'))
            c.expect('grid', 'k_vec', k, F.wavenumbers(100), nn)
            c.expect('grid', 'mass', mass, A('mass', 'M'), nn)
            us = [F.radial_fftlog(i, ell, k, r_s, rvir, conc, amp, slope, trunc) for i, ell in enumerate(range(0, ell_max + 1, 2))]
            got = v('compute_uell_gamma_r_hankel')
            for i, u in enumerate(us):
                if isinstance(got, Top) or isinstance(u, Top):
                    c.expect('radial-transform', f'multipole {2 * i}', got, u, nn)
                else:
                    c.expect('radial-transform', f'multipole {2 * i}', c.it.getitem(got, i), u, nn)
            c.expect('multipole-sum', 'wkm', v('wkm_f_ell'), F.wkm_list(ell_max, ListV(us), slope), nn)
            kout, mout = A('kout', 'K'), A('mass', 'M')
            c.expect('resampling', 'upsampled_wkm', c.call(c.attr(o, 'upsampled_wkm'), kout, mout), F.resample_fftlog(k, v('wkm_f_ell'), kout), nn)
        else:
            # quadrature path: mass grid handed over at the working resolution (no thinning)
            o = make(c, slope, 'hankel', ell_max, truncate=trunc, mass_in=A('mass5', 5), c_in=A('conc5', 'Z', 5), r_s_in=A('r_s5', 'Z', 5), rvir_in=A('rvir5', 'Z', 5) if trunc else A('rvir5', 5))
            z, mass, conc, r_s, rvir, amp, k = (v2(c, o, x) for x in ('z_vec', 'mass', 'c', 'r_s', 'rvir', 'gamma_1h_amp', 'k_vec'))
            c.expect('grid', 'k_vec', k, F.wavenumbers(10), nn)
            c.expect('grid', 'mass', mass, A('mass5', 5), nn)
            got = v2(c, o, 'compute_uell_gamma_r_hankel')
            want = F.hankel_table(ell_max, 350, k, r_s, rvir, conc, amp, slope, trunc)
            c.expect('radial-transform', 'all multipoles', got, want, nn)
            if isinstance(got, Top):
                continue
            us = [c.it.getitem(got, i) for i in range(ell_max // 2 + 1)]
            c.expect('multipole-sum', 'wkm', v2(c, o, 'wkm_f_ell'), F.wkm_list(ell_max, ListV(us), slope), nn)
            kout, mout = A('kout', 'K'), A('mout', 'M')
            c.expect('resampling', 'upsampled_wkm', c.call(c.attr(o, 'upsampled_wkm'), kout, mout), F.resample_hankel_all(k, mass, v2(c, o, 'wkm_f_ell'), kout, mout, z), nn)


def kept(size, nmass=5):
    k = list(range(0, size, size // nmass))
    return k if k[-1] == size - 1 else k + [size - 1]


def F_shape(v):
    return v.shape if isinstance(v, Arr) else ()


def v2(c, o, x):
    return c.val(o, x)
