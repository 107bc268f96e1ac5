"""C19: selection of the input files of modes and structure models."""

import contextlib
import io
import os
import re
import shutil
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vplib.harness import Check  # noqa: E402

chk = Check(
    'C19', needs=('cpp-numintegrator', 'cpp-disc-integrator', 'fornberg-num-deriv'),
    rule='Directories of generated files whose names hold degree, azimuthal order, radial order '
         'and mode type in any order between neutral words, with near misses (one quantum number '
         'off, other sign, other mode type, a missing word, another suffix), for lists of '
         'requested modes with repeats. Non-trivial: at least one near miss next to a file that '
         'is selected, or a request that cannot be met.',
    assumptions=['a file name holds each quantum number once',
                 'directories are given as absolute paths or inferred from the base directory'])

WORDS = ['M8.00', 'D2.00', 'Xc0.09', 'rot_20', 'd05', 'SPB', 'TAR', 'n_3_0', 'Z0.014', 'prof_d05',
         'ad', 'k_x']


def setup():
    global ModelLoader, h5, np, sel
    import h5py as h5
    import numpy as np
    from aesolver.model_handling import ModelLoader
    from aesolver.model_handling import subselection_classes as sel


chk.setup = setup


def mode_name(mode, words, order, kind_word='detail'):
    """File name of a mode: dictionary with l, m, n and g (whether it is a gravity mode)."""
    parts = [f'l{mode["l"]}', f'm{"-" if mode["m"] < 0 else "+"}{abs(mode["m"])}',
             f'n+{mode["n"]}', 'g_mode' if mode['g'] else 'p_mode', kind_word] + list(words)
    ranked = [p for _, p in sorted(zip(order, parts))] + parts[len(order):]
    return '_'.join(ranked) + '.h5'


def mode_strategy(st):
    return st.fixed_dictionaries({
        'l': st.one_of(st.integers(0, 4), st.integers(0, 120)),
        'm': st.one_of(st.integers(-3, 3), st.integers(-120, 120)),
        'n': st.one_of(st.integers(0, 12), st.integers(0, 200)), 'g': st.booleans()})


def near_miss(mode, what):
    out = dict(mode)
    if what == 'l':
        out['l'] += 1
    elif what == 'l10':
        out['l'] = out['l'] * 10 + 1
    elif what == 'm':
        out['m'] -= 1
    elif what == 'sign':
        out['m'] = -out['m'] if out['m'] else 1
    elif what == 'n':
        out['n'] += 1
    elif what == 'n10':
        out['n'] = out['n'] * 10 + 2
    else:
        out['g'] = not out['g']
    return out


def names_strategy(st):
    return st.fixed_dictionaries({
        'modes': st.lists(mode_strategy(st), min_size=1, max_size=3),
        'words': st.lists(st.sampled_from(WORDS), max_size=4, unique=True),
        'order': st.lists(st.integers(0, 50), min_size=9, max_size=9),
        'miss': st.lists(st.tuples(st.integers(0, 2), st.sampled_from(
            ['l', 'l10', 'm', 'sign', 'n', 'n10', 'g'])), max_size=6),
        'sub': st.sampled_from(['none', 'str', 'list', 'tuple', 'tuple2', 'absent', 'absent_list',
                                'absent_tuple', 'by_mode']),
        'own': st.lists(st.sampled_from(WORDS + ['detail']), min_size=3, max_size=3),
        'poly': st.booleans()})


def wanted_words(kind, words, nr):
    """(additional substring, whether the words are in the names)."""
    last = words[-1] if words else 'detail'
    return {'none': (None, True), 'str': ('detail', True), 'list': (['detail', last, 'e'][:nr], True),
            'tuple': (('detail',), True), 'tuple2': (('detail', last), True),
            'absent': ('summary', False), 'absent_list': (['summary'] * nr, False),
            'absent_tuple': (('detail', 'summary'), False)}[kind]


@chk.prop('mode_names', names_strategy, quick=4000, thorough=60000, shards=3)
def mode_names(case, ctx):
    """A name is selected for a mode exactly if its quantum numbers, mode type and words match."""
    modes, words = case['modes'], case['words']
    cls = sel.PolytropeOscillationModelSubSelector if case['poly'] else sel.GYREDetailSubSelector
    helper = cls(search_l=[m['l'] for m in modes], search_m=[m['m'] for m in modes],
                 search_n=[m['n'] for m in modes])
    if case['sub'] == 'by_mode':
        # each mode has a text of its own
        extra, present = case['own'][:len(modes)], True
    else:
        extra, present = wanted_words(case['sub'], words, len(modes))
    files = [dict(m) for m in modes]
    files += [near_miss(modes[i % len(modes)], w) for i, w in case['miss']]
    for f in files:
        name = mode_name(f, words, case['order'])
        for nr, mode in enumerate(modes):
            for g in (True, False):
                got = helper.subselect(name=name, additional_substring=extra, mode_number=nr + 1,
                                       g_mode=g)
                here = present and (case['sub'] != 'by_mode' or extra[nr] in name)
                want = (here and all(f[k] == mode[k] for k in 'lmn') and f['g'] == g)
                assert bool(got) == want, (
                    f'{name!r} was {"" if got else "not "}selected for l={mode["l"]} m={mode["m"]} '
                    f'n={mode["n"]} {"g" if g else "p"} mode with words {extra!r}')
    ctx.label(case['sub'])
    ctx.nontrivial(bool(case['miss']) or not present or case['sub'] == 'by_mode')


def structure_strategy(st):
    return st.fixed_dictionaries({
        'words': st.lists(st.sampled_from(WORDS), min_size=1, max_size=5, unique=True),
        'drop': st.integers(0, 5), 'end': st.sampled_from(
            ['.dat', '.h5', '.dat.GYRE', '.dat.bak', '.h5~', '.gyre.dat', '_dat', '.txt', '.data',
             '.hdf5']),
        'gyre': st.sampled_from(['', '', '', 'gyre', 'GYRE', 'mid_gyre']),
        'form': st.sampled_from(['none', 'list', 'tuple', 'str']),
        'suffix': st.sampled_from(['dat', 'h5']), 'mesa': st.booleans(), 'turn': st.integers(0, 4)})


@chk.prop('structure_names', structure_strategy, quick=4000, thorough=60000, shards=2)
def structure_names(case, ctx):
    """A structure file is selected exactly if it ends on the suffix, holds all words and, for
    MESA, is not one of the files written for GYRE."""
    words = case['words']
    name = '_'.join(words)
    if case['gyre'] == 'mid_gyre':
        name += '_gyre_x'
    elif case['gyre']:
        name = case['gyre'] + '_' + name
    name += case['end']
    turn = case['turn'] % len(words)
    asked = words[turn:] + words[:turn]
    if case['turn'] > 2:
        asked.reverse()
    missing = case['drop'] < 2
    if missing:
        asked[case['drop'] % len(asked)] = 'Q7'
    form = case['form']
    extra = {'none': None, 'list': asked, 'tuple': tuple(asked), 'str': asked[0]}[form]
    found = {'none': True, 'str': asked[0] in name}.get(form, all(a in name for a in asked))
    suffix = case['suffix']
    if case['mesa']:
        helper = sel.MESAProfileSubSelector(mesa_file_suffix=suffix)
        ok = name.endswith('.' + suffix) and not re.search('gyre|GYRE', name)
    else:
        helper = sel.PolytropeModelSubSelector(polytrope_model_suffix=suffix)
        ok = name.endswith('.' + suffix)
    got = helper.subselect(name=name, additional_substring=extra)
    assert bool(got) == (ok and found), (
        f'{name!r} was {"" if got else "not "}selected with suffix {suffix!r} and words {extra!r}')
    ctx.label('mesa' if case['mesa'] else 'polytrope')
    ctx.label('selected' if got else 'refused')
    ctx.nontrivial(got or (ok != found))


def loader_strategy(st):
    return st.fixed_dictionaries({
        'modes': st.lists(mode_strategy(st), min_size=1, max_size=3),
        'words': st.lists(st.sampled_from(WORDS), max_size=3, unique=True),
        'order': st.lists(st.integers(0, 50), min_size=8, max_size=8),
        'miss': st.lists(st.tuples(st.integers(0, 2), st.sampled_from(
            ['l', 'l10', 'm', 'sign', 'n', 'n10', 'g'])), max_size=5),
        'problem': st.sampled_from(['none', 'none', 'none', 'lost', 'double']),
        'which': st.integers(0, 2), 'poly': st.booleans(),
        'dirs': st.sampled_from(['given', 'inferred', 'no_base', 'ambiguous']),
        'bars': st.booleans(), 'slash': st.booleans(), 'struct': st.booleans(),
        'struct_problem': st.sampled_from(['none', 'none', 'none', 'lost', 'double']),
        'seed': st.integers(0, 10**6)})


def write_mode(path, mode, mark):
    cplx = np.dtype([('re', float), ('im', float)])
    with h5.File(path, 'w') as f:
        for k in 'lm':
            f.attrs[k] = mode[k]
        f.attrs['n_pg'] = -mode['n']
        f.attrs['label'] = mark
        f.attrs['j'] = mark
        f.attrs['M_star'] = 1.0 + mark
        f.attrs['R_star'] = 2.0
        f['x'] = np.linspace(0.0, 1.0, 4) + mark
        f['xi_r'] = np.array([(mark, -mark)] * 4, dtype=cplx)


def write_structure(path, mark, poly):
    if poly:
        z = np.linspace(0.3, 3.0, 8)
        with h5.File(path, 'w') as f:
            f.attrs['n_poly'] = np.array([1.0])
            f.attrs['Gamma_1'] = 5.0 / 3.0 + 0.001 * mark
            f['z'] = z
            f['theta'] = np.sin(z) / z
            f['dtheta'] = np.cos(z) / z - np.sin(z) / z**2
        return
    with open(path, 'w') as f:
        f.write(f'{1:>40}\n{"model_number":>40}\n{mark:>40}\n\n')
        f.write(f'{1:>40}{2:>40}\n{"zone":>40}{"logT":>40}\n')
        for i in range(3):
            f.write(f'{i + 1:>40}{mark + 0.5 * i:>40.16E}\n')


@chk.prop('loader', loader_strategy, quick=260, thorough=3000, shards=4)
def loader(case, ctx):
    """The loader returns the one file of each mode, in the requested order, and the one structure
    model; it refuses to continue if there is none or more than one."""
    root = tempfile.mkdtemp(dir=ctx.scratch)
    try:
        load_one(case, ctx, root)
    finally:
        shutil.rmtree(root)


def load_one(case, ctx, root):
    poly, modes, words = case['poly'], case['modes'], case['words']
    base = os.path.join(root, 'base')
    mdir = os.path.join(base, 'polytrope_oscillation' if poly else 'my_GYRE_out')
    sdir = os.path.join(base, 'Polytrope_model_x' if poly else 'MESA_profiles')
    for d in (mdir, sdir, os.path.join(base, 'other')):
        os.makedirs(d)
    if case['dirs'] == 'ambiguous':
        os.makedirs(mdir + '_2')
    key = lambda m: (m['l'], m['m'], m['n'], m['g'])  # noqa: E731
    marks, files = {}, [dict(m) for m in modes]
    files += [near_miss(modes[i % len(modes)], w) for i, w in case['miss']]
    for i, f in enumerate(files):
        if key(f) not in marks:
            marks[key(f)] = i + 1
            write_mode(os.path.join(mdir, mode_name(f, words, case['order'])), f, i + 1)
    target = modes[case['which'] % len(modes)]
    if case['problem'] == 'lost':
        os.remove(os.path.join(mdir, mode_name(target, words, case['order'])))
    elif case['problem'] == 'double':
        write_mode(os.path.join(mdir, 'second_' + mode_name(target, words, case['order'])),
                   target, 77)
    # files of other kinds
    write_mode(os.path.join(mdir, mode_name(target, words, case['order'], 'summary')), target, 88)
    os.makedirs(os.path.join(mdir, 'sub_' + mode_name(target, words, case['order'])))
    ending = 'h5' if poly else 'dat'
    write_structure(os.path.join(sdir, 'mymodel_n_3_0.' + ending), 5, poly)
    write_structure(os.path.join(sdir, 'mymodel_n_2_0.' + ending), 6, poly)
    write_structure(os.path.join(sdir, 'mymodel_n_3_0.dat.GYRE'), 7, False)
    if case['struct_problem'] == 'lost':
        os.remove(os.path.join(sdir, 'mymodel_n_3_0.' + ending))
    elif case['struct_problem'] == 'double':
        write_structure(os.path.join(sdir, 'amymodel_n_3_0.' + ending), 8, poly)
    end = os.sep if case['slash'] else ''
    given = {('polytrope_oscillation_output_dir' if poly else 'gyre_output_dir'): mdir + end,
             ('polytrope_model_output_dir' if poly else 'mesa_output_dir'): sdir + end}
    if case['dirs'] in ('inferred', 'ambiguous'):
        kw = dict(base_dir=base, infer_dir=True)
    elif case['dirs'] == 'given':
        kw = dict(base_dir=base + end, infer_dir=case['seed'] % 2 == 0, **given)
    else:
        kw = dict(base_dir=None, infer_dir=False, **given)
    subs = ('mymodel', 'n_3_0')
    kw.update({'polytrope_model_substrings' if poly else 'mesa_profile_substrings': subs})
    here = os.getcwd()
    empty = os.path.join(root, 'empty')
    os.makedirs(empty)
    bad = (case['problem'] != 'none' or case['dirs'] == 'ambiguous'
           or (case['struct'] and case['struct_problem'] != 'none'))
    try:
        os.chdir(empty)
        with contextlib.redirect_stderr(io.StringIO()):
            load = ModelLoader(search_l=[m['l'] for m in modes], search_m=[m['m'] for m in modes],
                               search_n=[m['n'] for m in modes], **kw)
            ask = dict(g_modes=[m['g'] for m in modes], progress_bars=case['bars'])
            ask.update({'polytrope_oscillation' if poly else 'gyre_detail': True})
            if case['struct']:
                ask.update({'polytrope_model' if poly else 'mesa_profile': True})
            try:
                load.read_data_files(**ask)
                stopped = False
            except SystemExit:
                stopped = True
    finally:
        os.chdir(here)
    ctx.label('polytrope' if poly else 'gyre')
    ctx.label(case['dirs'])
    ctx.nontrivial(len(marks) > len(modes) or bad)
    if bad:
        assert stopped, (f'the loader went on although the mode file was {case["problem"]}, the '
                         f'structure file {case["struct_problem"]} and directories {case["dirs"]}')
        ctx.label('stopped')
        return
    assert not stopped, 'the loader found no unique file for each mode'
    got = load.polytrope_oscillation_models if poly else load.gyre_details
    assert len(got) == len(modes), f'{len(got)} modes'
    for mode, d in zip(modes, got):
        want = marks[key(mode)]
        ident = d['label'] if poly else d['j']
        assert ident == want and d['x'][0] == want and d['l'] == mode['l'] and (
            d['m'] == mode['m']), f'{mode} yields the data of file {ident}, not {want}'
    struct = load.polytrope_model if poly else load.mesa_profile
    assert len(struct) == (1 if case['struct'] else 0), f'{len(struct)} structure models'
    if case['struct']:
        if poly:
            assert abs(struct[0]['Gamma_1'] - 5 / 3 - 0.005) < 1e-12, 'other structure model'
        else:
            assert abs(float(struct[0]['logT'][0]) - 5.0) < 1e-12, 'other structure model'


if __name__ == '__main__':
    sys.exit(chk.main())
