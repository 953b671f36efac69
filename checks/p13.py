"""The amplitudes of central (two-halo) and satellite (one-halo) alignment are compared, per dependence option, with the
published scalings; the luminosity distribution of each redshift with the normalised histogram of the galaxies in that
redshift's cell; the linear-alignment prefactors with -C1 A rho/D and its square."""
from .common import IA, build
from sa.drive import A, S, align_params
from sa.values import Top

MIN_OBLIGATIONS = 25
OPT = ('constant', 'luminosity', 'halo_mass')


def jobs(tier):
    return [('class', x) for x in OPT] + [('spectra', x) for x in OPT]


def run(c, job):
    F = c.F('ia')
    what, opt = job
    amp2, amp1 = S('gamma_2h_amplitude'), S('gamma_1h_amplitude')
    if what == 'class':
        z = A('z_vec', 'Z')
        for cls in ('AlignmentAmplitudes', 'SatelliteAlignment'):
            for two in (None, S('beta_two')):
                if two is not None and opt == 'halo_mass':
                    continue
                n = f'{cls},{opt},beta_two={"set" if two is not None else None}'
                kw = dict(align_params(cen=opt, sat=opt, two=two).d)
                o = c.it.call(c.it.get(IA, cls), [], dict(kw, z_vec=z))
                for p in ('mpivot_cen', 'mpivot_sat', 'lpivot_cen', 'lpivot_sat'):
                    c.expect('pivot', p, c.val(o, p), c.it.binop('Pow', 10, S(p)), n)
                for p in ('beta_cen', 'beta_sat'):
                    c.expect('slope', p, c.val(o, p), S(p), n)
                if opt == 'luminosity':
                    lc, pc = unpair(c, F.pdf('cen.fits', z))
                    ls, ps = unpair(c, F.pdf('sat.fits', z))
                    for nm, w in (('lum_centrals', lc), ('lum_pdf_z_centrals', pc), ('lum_satellites', ls), ('lum_pdf_z_satellites', ps)):
                        c.expect('luminosity-distribution', nm, c.val(o, nm), w, n)
                    L0c, L0s = c.val(o, 'lpivot_cen'), c.val(o, 'lpivot_sat')
                    if two is None:
                        want2 = F.mean_power(amp2, lc, pc, L0c, S('beta_cen'))
                    else:
                        want2 = F.mean_broken_power(amp2, lc, pc, L0c, S('beta_cen'), two, z)
                    want1 = F.mean_power(amp1, ls, ps, L0s, S('beta_sat'))
                else:
                    want2, want1 = F.constant(amp2, z), F.constant(amp1, z)
                c.expect('amplitude', 'alignment_gi', c.val(o, 'alignment_gi'), want2, n)
                c.expect('amplitude', 'gamma_1h_amp', c.val(o, 'gamma_1h_amp'), want1, n)
        return
    # one option for centrals, every option for satellites: neither may read the other's
    for sat in OPT:
        for two in (None, S('beta_two')):
            if two is not None and opt == 'halo_mass':
                continue
            n = f'cen={opt},sat={sat},two={"set" if two is not None else None}'
            s = build(c, align_params=align_params(cen=opt, sat=sat, two=two))
            if s is None:
                return
            z = c.val(s, 'z_vec')
            if opt == 'luminosity':
                lc, pc = unpair(c, F.pdf('cen.fits', z))
                L0 = c.it.binop('Pow', 10, S('lpivot_cen'))
                want2 = F.mean_power(amp2, lc, pc, L0, S('beta_cen')) if two is None else \
                    F.mean_broken_power(amp2, lc, pc, L0, S('beta_cen'), two, z)
            else:
                want2 = F.constant(amp2, z)
            if sat == 'luminosity':
                ls, ps = unpair(c, F.pdf('sat.fits', z))
                want1 = F.mean_power(amp1, ls, ps, c.it.binop('Pow', 10, S('lpivot_sat')), S('beta_sat'))
            else:
                want1 = F.constant(amp1, z)
            c.expect('amplitude', 'Spectra.alignment_gi', c.val(s, 'alignment_gi'), want2, n)
            c.expect('amplitude', 'Spectra.gamma_1h_amp', c.val(s, 'alignment_class.gamma_1h_amp'), want1, n)
            f = F.linear_alignment_factor(want2, c.val(s, 'mean_density0'), c.val(s, 'growth_factor'))
            c.expect('linear-alignment', 'alignment_amplitude_2h', c.val(s, 'alignment_amplitude_2h'), col(c, f), n)
            c.expect('linear-alignment', 'alignment_amplitude_2h_II', c.val(s, 'alignment_amplitude_2h_II'), col(c, c.it.binop('Mult', f, f)), n)
            for p in ('beta_cen', 'beta_sat'):
                c.expect('slope', 'Spectra.' + p, c.val(s, p), S(p), n)
            for p in ('mpivot_cen', 'mpivot_sat'):
                c.expect('pivot', 'Spectra.' + p, c.val(s, p), c.it.binop('Pow', 10, S(p)), n)


def unpair(c, v):
    if isinstance(v, Top):
        return v, v
    return c.sp.getitem(v, 0), c.sp.getitem(v, 1)


def col(c, v):
    """(z) -> (z, 1)"""
    return c.F('ia').column(v)
