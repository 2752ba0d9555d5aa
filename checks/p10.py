"""P10: survey and window three-point statistics equal their definition."""
from vt import build, core, lib
from . import stats as st, pyapi
from .p09 import DEG, FORMS, G3, G3T, config_case, larger, rotate


def main():
    ch = core.Check('P10')
    th = ch.tier == 'thorough'
    lib.prepare()
    pyapi.PKG = build.python_package()
    sets = [('std', st.DATA, st.RAND), ('few', (1, 6), (3, 5, 7)),
            ('one', (2,), (9,))]
    kinds = ('bispec', 'tpcf', 'tpcf_win', 'tpcf_win_wa')
    ch.run_cases('configurations', rotate(
        G3T if th else G3[:2], st.SCHEMES, DEG, FORMS, sets, kinds, th), config_case,
        setup=lib.L, timeout=900)
    ch.run_cases('larger', list(larger((30, 45), kinds, th)), config_case,
                 setup=lib.L, timeout=900)
    cases = []
    for kind in ('bispec', '3pcf', '3pcf_win', '3pcf_win_wa'):
        c = pyapi.cases_3(kind, ch.tier)
        cases += c if th else c[::2]
    ch.run_cases('Python interface', cases, pyapi.run_case,
                 setup=pyapi.setup)
    return ch.finish(rule='grids x schemes x interlacing x degree triplets '
                     'x data-vector forms (rotating in the quick tier) x '
                     'statistics x catalogue pairs; Python interface over '
                     'norms, parameter routes, alignments and forms')
