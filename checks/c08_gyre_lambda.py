"""C08: eigenvalues of the traditional approximation read from GYRE tables."""

import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vplib.harness import Check  # noqa: E402

chk = Check(
    'C08', needs=(),
    rule='Installations with generated sets of tables (each with its own values) and lookups of '
         'one or several modes are generated. Non-trivial: a nonzero azimuthal order or a list.',
    assumptions=['the reader of the table files (module gyre_tar_fit, part of GYRE) is replaced '
                 'by a stand-in with the same interface'])

FAKE = '''
class TarFit:
    def __init__(self, text):
        self.a, self.b = map(float, text.split())

    @classmethod
    def load(cls, fn):
        with open(fn) as fh:
            return cls(fh.read())

    def lam(self, nu):
        return self.a + self.b * nu
'''


def setup():
    global LT
    import lam_tar_gyre.lam_tar_gyre as LT


chk.setup = setup


def strategy(st):
    from vplib import gen
    mode = st.integers(-4, 4).flatmap(
        lambda m: st.integers(0, 5).map(lambda k: [abs(m) + k, m]))
    return st.fixed_dictionaries({
        'tables': st.lists(mode, min_size=1, max_size=8, unique_by=tuple),
        'want': st.lists(st.tuples(st.one_of(st.integers(0, 7), mode), gen.floats(st, -8.0, 8.0)),
                         min_size=1, max_size=5),
        'scalar': st.booleans(), 'env': st.booleans()})


@chk.prop('lookup', strategy, quick=6000, thorough=20000, shards=5)
def lookup(case, ctx):
    """The eigenvalue comes from the table of that very mode, at that spin parameter."""
    import shutil
    base = os.path.join(ctx.scratch, 'gyre')
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(f'{base}/src/tar')
    os.makedirs(f'{base}/data/tar')
    with open(f'{base}/src/tar/gyre_tar_fit.py', 'w') as fh:
        fh.write(FAKE)
    val = {}
    for i, (l, m) in enumerate(case['tables']):
        k = l - abs(m)
        val[(l, m)] = (10.0 * i + 1.0, i + 0.5)
        sign = '-' if m < 0 else '+'
        with open(f'{base}/data/tar/tar_fit.m{sign}{abs(m)}.k+{k}.h5', 'w') as fh:
            fh.write(f'{val[(l, m)][0]} {val[(l, m)][1]}')
    want = [(case['tables'][w % len(case['tables'])] if isinstance(w, int) else w, float(nu))
            for w, nu in case['want']]
    if case['env']:
        os.environ['GYRE_DIR'] = base
        gl = LT.GyreLambdas()
    else:
        os.environ.pop('GYRE_DIR', None)
        gl = LT.GyreLambdas(base_gyre_dir=base)

    def one(lm, nu):
        a, b = val[tuple(lm)]
        return a + b * nu
    if case['scalar']:
        for lm, nu in want:
            assert gl.get_k(*lm) == lm[0] - abs(lm[1])
            try:
                got = gl.get_lambda(lm[0], lm[1], nu)
            except SystemExit:
                got = None
            exp = one(lm, nu) if tuple(lm) in val else None
            assert got == exp, f'(l, m) = {lm}, nu = {nu}: {got} instead of {exp}'
    else:
        ls, ms, nus = ([w[0][0] for w in want], [w[0][1] for w in want], [w[1] for w in want])
        try:
            got = gl.get_lambda(ls, ms, nus)
        except SystemExit:
            got = None
        exp = [one(*w) for w in want] if all(tuple(w[0]) in val for w in want) else None
        assert got == exp, f'{want}: {got} instead of {exp}'
    ctx.label('missing table' if exp is None else 'table found')
    ctx.nontrivial(any(w[0][1] for w in want) or not case['scalar'])


def bad_strategy(st):
    return st.fixed_dictionaries({
        'kind': st.sampled_from(['absent', 'no src', 'file', 'good']), 'k': st.integers(0, 10**6)})


@chk.prop('installation', bad_strategy, quick=300, thorough=1000, shards=1)
def installation(case, ctx):
    """A directory that is no GYRE installation is refused."""
    import shutil
    base = os.path.join(ctx.scratch, f'inst{case["k"] % 7}')
    shutil.rmtree(base, ignore_errors=True)
    if os.path.isfile(base):
        os.remove(base)
    if case['kind'] == 'file':
        open(base, 'w').close()
    elif case['kind'] == 'no src':
        os.makedirs(f'{base}/data/tar')
    elif case['kind'] == 'good':
        os.makedirs(f'{base}/src/tar')
        with open(f'{base}/src/tar/gyre_tar_fit.py', 'w') as fh:
            fh.write(FAKE)
    try:
        LT.GyreLambdas(base_gyre_dir=base)
        ok = True
    except SystemExit:
        ok = False
    finally:
        if os.path.isfile(base):
            os.remove(base)
        shutil.rmtree(base, ignore_errors=True)
    assert ok == (case['kind'] == 'good'), f'{case["kind"]}: accepted={ok}'
    ctx.nontrivial()


if __name__ == '__main__':
    sys.exit(chk.main())
