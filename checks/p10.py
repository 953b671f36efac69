"""The mean central, satellite and total occupation published by every HOD model is compared, value graph against value
graph, with the occupation functions of the cited publications (conditional observable function integrated over the bin,
step or error-function centrals, power-law satellites), including the assembly-bias terms, for scalar and per-bin
parameters and for bins given by limits or by a table."""
from .hodspec import MODELS, make

MIN_OBLIGATIONS = 40


def jobs(tier):
    out = []
    for m in MODELS:
        for vec in (False,) if m == 'Cacciato' else (False, True):
            for boost in (False, True):
                out.append((m, vec, boost, False))
        out.append((m, False, False, True))
    return out


def run(c, job):
    m, vec, boost, file = job
    o, s, _ = make(c, m, vec, boost, file)
    n = f'{m},{"per-bin" if vec else "scalar"} parameters,{"boosted" if boost else "plain"},{"table" if file else "limits"}'
    for q, want in s.occupations().items():
        c.expect('occupation', f'{m}.{q}', c.val(o, q), want, n)
