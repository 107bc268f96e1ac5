"""C06: settings read from inlists, parsers and paths."""

import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vplib.harness import Check  # noqa: E402

chk = Check(
    'C06', needs=('cpp-numintegrator', 'cpp-disc-integrator', 'fornberg-num-deriv'),
    rule='Inlist contents (nested TOML documents; custom key=value inlists with a defaults '
         'inlist), their layout, lookups of existing and missing settings, working and script '
         'directories, and log flags are generated. Non-trivial: at least two settings, or a '
         'missing setting or file, or a changed level.',
    assumptions=['custom inlists: no blanks, slashes or quotes inside list elements, no quotes or '
                 'line ends inside strings, exponents without a plus sign; data files of folders: no blanks, quotes or '
                 'signs inside list elements (limits of the formats)'])


def setup():
    global GenericParser, InlistHandler, TomlInlistHandler, LF, RP, logging, json, math, InfoDirs
    import json
    import logging
    import math
    import log_formatter as LF
    import path_resolver as RP
    from generic_parser import GenericParser
    from aesolver.read_load_info import InfoDirHandler as InfoDirs
    from inlist_handler import InlistHandler, TomlInlistHandler


chk.setup = setup


def fresh(ctx, name):
    """An empty directory below the scratch directory of this worker."""
    import shutil
    d = os.path.join(ctx.scratch, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


# ------------------------------------------------------------------ custom inlists
WORD = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_'


def custom_value(st):
    num = st.one_of(
        st.integers(-10**6, 10**6).map(lambda i: {'t': str(i), 'v': i}),
        st.integers(-10**20, 10**20).map(lambda i: {'t': str(i), 'v': i}),
        st.integers(-9999, 9999).map(lambda i: {'t': repr(i / 8.0), 'v': i / 8.0}),
        st.tuples(st.integers(-99, 99), st.integers(-30, 30), st.booleans(), st.sampled_from('eE'))
        .map(lambda t: f'{t[0]}{".5" if t[2] else ""}{t[3]}{t[1]}')
        .map(lambda s: {'t': s, 'v': float(s)}))
    const = st.sampled_from([{'t': 'True', 'v': True}, {'t': 'False', 'v': False},
                             {'t': 'None', 'v': None}])
    upper = st.sampled_from([{'t': 'TRUE', 'v': True}, {'t': 'FALSE', 'v': False}])
    word = st.text(WORD + '.-', max_size=8)
    quoted = st.tuples(word, st.sampled_from('\'"')).map(
        lambda t: {'t': t[1] + t[0] + t[1], 'v': t[0]})
    text = st.tuples(
        st.one_of(st.text(WORD + ' ./%=,-:', max_size=20),
                  st.sampled_from(['True', 'None', 'a False one', '[x]', '(y)', '1.5', '7', '',
                                   'e5', '/a/True/b.in', '% no comment', '[', '1e5'])),
        st.sampled_from('\'"')).map(lambda t: {'t': t[1] + t[0] + t[1], 'v': t[0]})
    other = st.tuples(st.text(WORD[:4] + ' .[]()@@', min_size=1, max_size=10), st.booleans()).map(
        lambda t: ('"' + t[0].replace('@', "'") + '"' if t[1] else
                   "'" + t[0].replace('@', '"') + "'")).map(lambda s: {'t': s, 'v': s[1:-1]})
    elem = st.one_of(num, const, quoted)

    def seq(children):
        def mk(t):
            items, tup = t
            inner = ','.join(i['t'] for i in items)
            if tup:
                inner += ',' if len(items) == 1 else ''
                return {'t': f'({inner})', 'v': {'tuple': [i['v'] for i in items]}}
            return {'t': f'[{inner}]', 'v': [i['v'] for i in items]}
        return st.tuples(st.lists(children, max_size=4), st.booleans()).map(mk)
    listed = seq(st.one_of(elem, seq(elem)))
    return st.one_of(num, const, upper, text, other, listed, listed)


def untuple(v):
    if isinstance(v, dict):
        return tuple(untuple(x) for x in v['tuple'])
    if isinstance(v, list):
        return [untuple(x) for x in v]
    return v


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    return a == b


def custom_strategy(st):
    key = st.text('abcdefghijklmnopqrstuvwxyz_', min_size=1, max_size=8)
    entry = st.fixed_dictionaries({
        'key': key, 'val': custom_value(st), 'sp': st.sampled_from([' = ', '=', '= ', '  =\t']),
        'tail': st.sampled_from(['', ' % note', ' %a = 3', '   ', '\n%%%%\n', '\n\n'])})
    return st.fixed_dictionaries({
        'defaults': st.lists(entry, max_size=6), 'user': st.lists(entry, max_size=6),
        'override': st.lists(st.integers(0, 5), max_size=3),
        'name': st.sampled_from(['run', 'run.v2', 'my-list_3']),
        'suffix': st.sampled_from(['in', 'txt'])})


@chk.prop('custom_inlist', custom_strategy, quick=5000, thorough=20000, shards=3)
def custom_inlist(case, ctx):
    """Typed values come back; the user inlist overrides the defaults inlist."""
    base = fresh(ctx, 'custom')
    os.makedirs(f'{base}/defaults')
    os.makedirs(f'{base}/user')
    user = list(case['user'])
    if case['defaults']:  # make overrides frequent
        for n, i in enumerate(case['override']):
            if n < len(user):
                user[n] = {**user[n], 'key': case['defaults'][i % len(case['defaults'])]['key']}
    expected = {}
    for entries, path in ((case['defaults'], f'{base}/defaults/{case["name"]}.defaults'),
                          (user, f'{base}/user/{case["name"]}.{case["suffix"]}')):
        with open(path, 'w') as fh:
            fh.write('% heading\n')
            for e in entries:
                fh.write(f'{e["key"]}{e["sp"]}{e["val"]["t"]}{e["tail"]}\n')
                expected[e['key']] = untuple(e['val']['v'])
    got = InlistHandler.get_inlist_values(path)
    assert set(got) == set(expected), f'settings {sorted(got)} instead of {sorted(expected)}'
    for k, v in expected.items():
        assert same(got[k], v), f'{k}: read {got[k]!r} instead of {v!r}'
    dk = {e['key'] for e in case['defaults']}
    ctx.label('override' if dk & {e['key'] for e in user} else 'no override')
    for e in user:
        ctx.label('type ' + type(untuple(e['val']['v'])).__name__)
    ctx.nontrivial(len(expected) > 1)


# ------------------------------------------------------------------ TOML documents
def toml_tree(st):
    key = st.one_of(st.text('abcdefgh_-', min_size=1, max_size=5),
                    st.sampled_from(['n', 'low', 'high', 'parent', 'mode-info']))
    text = st.text(st.characters(min_codepoint=32, max_codepoint=0x2fff,
                                 exclude_characters='\x7f', exclude_categories=('Cs', 'Cc', 'Zl', 'Zp')),
                   max_size=12)
    scalar = st.one_of(st.booleans(), st.integers(-2**63, 2**63 - 1), text,
                       st.floats(-1e12, 1e12, allow_nan=False))
    lst = st.lists(scalar, max_size=4)
    leaf = st.one_of(scalar, lst, st.lists(lst, max_size=3), st.just({}))
    return st.dictionaries(key, st.one_of(leaf, st.dictionaries(key, st.one_of(
        leaf, st.dictionaries(key, leaf, max_size=3)), max_size=4)), max_size=5)


def toml_value(v):
    if isinstance(v, bool):
        return 'true' if v else 'false'
    if isinstance(v, str):
        return json.dumps(v)
    if isinstance(v, float):
        return repr(v)
    if isinstance(v, int):
        return str(v)
    if isinstance(v, list):
        return '[' + ', '.join(toml_value(x) for x in v) + ']'
    return '{' + ', '.join(f'{k} = {toml_value(x)}' for k, x in v.items()) + '}'


def toml_text(tree, style, path=()):
    """style 0: table headers; 1: dotted keys; 2: inline tables."""
    lines, later = [], []
    for k, v in tree.items():
        if isinstance(v, dict) and v and style == 0:
            later.append((k, v))
        elif isinstance(v, dict) and style == 0 and not v and len(path) < 1:
            later.append((k, v))
        elif isinstance(v, dict) and v and style == 1:
            lines += [f'{k}.{x}' for x in toml_text(v, 1)]
        else:
            lines.append(f'{k} = {toml_value(v)}')
    if style == 0:
        out = [*lines, '']
        for k, v in later:
            p = (*path, k)
            out.append(f'[{".".join(p)}]  # table')
            out += toml_text(v, 0, p)
        return out
    return lines


def with_none(tree):
    return {k: (None if v == {} else with_none(v)) if isinstance(v, dict) else v
            for k, v in tree.items()}


def toml_strategy(st):
    return st.fixed_dictionaries({'tree': toml_tree(st), 'style': st.integers(0, 2)})


def write_toml(path, tree, style):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w', encoding='utf-8') as fh:
        fh.write('# a comment\n' + '\n'.join(toml_text(tree, style)) + '\n')


@chk.prop('toml_inlist', toml_strategy, quick=4500, thorough=20000)
def toml_inlist(case, ctx):
    """Every setting comes back with its type; empty tables are None."""
    path = os.path.join(fresh(ctx, 'toml'), 'x.toml')
    write_toml(path, case['tree'], case['style'])
    got = TomlInlistHandler.get_inlist_values(path)
    assert same(got, with_none(case['tree'])), f'read {got!r} from {case["tree"]!r}'
    ctx.label(f'style {case["style"]}')
    ctx.label('with None' if 'None' in repr(got) else 'no None')
    ctx.nontrivial(len(case['tree']) > 1)


def paths_of(tree, pre=()):
    out = []
    for k, v in tree.items():
        out.append([*pre, k])
        if isinstance(v, dict):
            out += paths_of(v, (*pre, k))
        if v is None or isinstance(v, dict):
            out.append([*pre, k, 'absent'])
    return out


def lookup(tree, path):
    for k in path:
        if not isinstance(tree, dict) or k not in tree:
            return None
        tree = tree[k]
    return tree


def parser_strategy(st):
    return st.fixed_dictionaries({
        'tree': toml_tree(st), 'style': st.integers(0, 2), 'other': toml_tree(st),
        'use': st.sampled_from(['path', 'names', 'override']),
        'base': st.sampled_from(['AESolver', 'my_AESolver-1.0', 'AESolver2']),
        'sub': st.sampled_from(['inlists', 'inlists/user_input', 'a/b/c']),
        'name': st.sampled_from(['inlist', 'inlist.v2', 'x-1']),
        'picks': st.lists(st.tuples(st.integers(0, 60), st.booleans()), min_size=1, max_size=8),
        'negate': st.booleans()})


@chk.prop('parser_lookup', parser_strategy, quick=3500, thorough=16000)
def parser_lookup(case, ctx):
    """A parser hands out the settings of the inlist it was told to read."""
    from pathlib import Path
    root = fresh(ctx, 'parser')
    base = f'{root}/{case["base"]}'
    path = f'{base}/{case["sub"]}/{case["name"]}.toml'
    other = f'{root}/elsewhere/other.toml'
    write_toml(path, case['tree'], case['style'])
    write_toml(other, case['other'], 1)
    argv = ['prog', 'positional', 'more']
    tree = case['tree']
    if case['use'] == 'override':
        argv += ['--inlist_name', other]
        tree = case['other']
    tree = with_none(tree)
    old = sys.argv
    sys.argv = argv
    try:
        if case['use'] == 'names':
            p = GenericParser('AESolver', base_dir=base, inlist_name=case['name'],
                              inlist_dir=case['sub'], inlist_suffix='toml')
        else:
            p = GenericParser('AESolver', full_inlist_path=Path(path))
    finally:
        sys.argv = old
    exp_path = other if case['use'] == 'override' else path
    assert os.path.realpath(p.inlist_path) == os.path.realpath(exp_path), p.inlist_path
    # settings inside scalar settings are meaningless: all paths come from the document
    avail = paths_of(tree) + [['absent'], ['absent', 'too']]
    picks = [(avail[i % len(avail)], neg) for i, neg in case['picks']]
    keys = [f'k{i}' for i in range(len(picks))]
    vals = [lookup(tree, q) for q, _ in picks]
    if case['negate']:
        got = p.read_in_to_dict([(k, q, n) for k, (q, n) in zip(keys, picks)])
        exp = {k: (not v) if n else v for k, v, (_, n) in zip(keys, vals, picks)}
        lst = p.read_in_to_list([(q, n) for q, n in picks])
        assert same(list(lst), list(exp.values())), f'{lst} instead of {list(exp.values())}'
    else:
        got = p.read_in_to_dict([(k, q) for k, (q, _) in zip(keys, picks)])
        exp = dict(zip(keys, vals))
        # a two-key path up front is indistinguishable from a (path, negation) pair
        if len(picks[0][0]) != 2:
            lst = p.read_in_to_list([q for q, _ in picks])
            assert same(list(lst), vals), f'{lst} instead of {vals}'
    assert same(got, exp), f'{got} instead of {exp}'
    ctx.label(case['use'])
    ctx.label('missing setting' if None in vals else 'all present')
    ctx.nontrivial(len(picks) > 1)


# ------------------------------------------------------------------ information directories
# key, section of the TOML inlist, setting in it, name in the data file, kind
FOLDERS = [
    ('base_dir', 'MESA.default', 'base_dir', 'MESA base folder/directory', 's'),
    ('mesa_output_dir', 'MESA.default', 'output_dir', 'MESA default output folder/directory', 's'),
    ('mesa_profile_substrings', 'MESA.selection', 'substrings',
     'MESA default profile substrings', 'l'),
    ('mesa_suffix', 'MESA.selection', 'suffix', 'MESA default suffix', 's'),
    ('gyre_base_dir', 'GYRE.default', 'base_dir', 'GYRE base folder/directory', 's'),
    ('gyre_output_dir', 'GYRE.default', 'output_dir', 'GYRE default output folder/directory', 's'),
    ('gyre_detail_substring', 'GYRE.selection', 'detail_substrings',
     'GYRE default detail substring', 'l'),
    ('gyre_summary_substring', 'GYRE.selection', 'summary_substring',
     'GYRE default summary substring', 's'),
    ('poly_base_dir', 'POLY.structure.default', 'base_dir',
     'POLYTROPE structure base folder/directory', 's'),
    ('poly_struct_dir', 'POLY.structure.default', 'output_dir',
     'POLYTROPE structure default output folder/directory', 's'),
    ('poly_struct_substrings', 'POLY.structure.selection', 'substrings',
     'POLYTROPE default structure substrings', 'l'),
    ('poly_struct_suffix', 'POLY.structure.selection', 'suffix',
     'POLYTROPE default structure suffix', 's'),
    ('poly_mode_base_dir', 'POLY.modes.default', 'base_dir',
     'POLYTROPE mode base folder/directory', 's'),
    ('poly_mode_dir', 'POLY.modes.default', 'output_dir',
     'POLYTROPE mode default output folder/directory', 's'),
    ('poly_mode_substrings', 'POLY.modes.selection', 'detail_substrings',
     'POLYTROPE mode default detail substring', 'l'),
    ('poly_summary_substring', 'POLY.modes.selection', 'summary_substring',
     'POLYTROPE mode default summary substring', 's')]
COMPARED = ['base_dir', 'mesa_output_dir', 'mesa_profile_substrings', 'mesa_suffix',
            'gyre_detail_substring', 'gyre_summary_substring']


def folders_strategy(st):
    text = st.text(WORD + './-+ ', max_size=15)
    return st.fixed_dictionaries({
        'toml': st.booleans(), 'where': st.booleans(),
        'single': st.lists(text, min_size=len(FOLDERS), max_size=len(FOLDERS)),
        'listed': st.lists(st.lists(st.text(WORD + '.', max_size=8), max_size=4),
                           min_size=4, max_size=4),
        'tuples': st.lists(st.booleans(), min_size=4, max_size=4),
        'quotes': st.lists(st.sampled_from('\'"'), min_size=4, max_size=4),
        'order': st.permutations(range(len(FOLDERS))),
        'kept': st.integers(0, len(FOLDERS))})


@chk.prop('information_folders', folders_strategy, quick=1200, thorough=5000)
def information_folders(case, ctx):
    """Each folder, suffix and name part comes from its own entry; the subsets are subsets."""
    root = os.path.realpath(fresh(ctx, 'folders'))
    entries, nr = [], 0
    for (key, section, setting, name, kind), text in zip(FOLDERS, case['single']):
        if kind == 'l':
            entries.append((key, section, setting, name, list(case['listed'][nr]),
                            case['tuples'][nr], case['quotes'][nr]))
            nr += 1
        else:
            entries.append((key, section, setting, name, text, None,
                            case['quotes'][len(text) % 4]))
    entries = [entries[i] for i in case['order']]
    expected = {}
    if case['toml']:
        doc = {}
        for key, section, setting, _, value, tup, _ in entries:
            sub = doc
            for part in ('information_folders.' + section).split('.'):
                sub = sub.setdefault(part, {})
            sub[setting] = value
            if tup is not None:
                sub[setting + '_to_tuple'] = tup
            expected[key] = tuple(value) if tup else value
        path = f'{root}/folders.toml'
        write_toml(path, doc, 0)
        handler = InfoDirs(['x'], toml_use=True, inlist_path=path)
    else:
        entries = entries[:case['kept']]
        # the working directory is searched before the one of the script
        script = f'{root}/repo/a/b'
        place = f'{root}/sub' if case['where'] else f'{root}/repo/sub'
        os.makedirs(script)
        os.makedirs(place)
        with open(f'{place}/my.dat', 'w') as fh:
            for key, _, _, name, value, tup, q in entries:
                if tup is not None:
                    expected[key] = tuple(value)
                    text = '(' + ','.join(q + v + q for v in value)
                    text += (',' if len(value) == 1 else '') + ')'
                else:
                    expected[key], text = value, q + value + q
                fh.write(f'# {name}\n{text}\n')
        old = os.getcwd()
        os.chdir(root)
        try:
            handler = InfoDirs([f'{script}/go.py'], alternative_directory_path='sub',
                               alternative_file_name='my.dat')
        finally:
            os.chdir(old)
    handler.parse_info_directories()
    assert same(handler.full_info, expected), f'{handler.full_info} instead of {expected}'
    for got, keys in ((handler.load_info, [*COMPARED, 'gyre_output_dir']),
                      (handler.gyre_comparison_info, COMPARED)):
        exp = {k: v for k, v in expected.items() if k in keys}
        assert same(got, exp), f'subset {got} instead of {exp}'
    ctx.label('toml' if case['toml'] else 'data file')
    ctx.nontrivial(len(expected) > 1)


# ------------------------------------------------------------------ paths and log levels
def path_strategy(st):
    return st.fixed_dictionaries({
        'here': st.booleans(), 'script': st.booleans(),
        'sub': st.sampled_from(['./inlists/', 'inlists', 'a/b', '.', '../up']),
        'name': st.sampled_from(['inlist.toml', 'x', 'y.in']),
        'run': st.sampled_from([None, '..', '.', '../..']),
        'argv': st.sampled_from(['abs', 'rel']), 'depth': st.integers(1, 3)})


@chk.prop('resolve_path', path_strategy, quick=1500, thorough=5000)
def resolve_path(case, ctx):
    """The working directory is searched first, then the directory of the script."""
    root = os.path.realpath(fresh(ctx, 'paths'))
    cwd = f'{root}/work/here'
    scripts = f'{root}/repo/' + '/'.join(['deep'] * case['depth']) + '/run'
    os.makedirs(cwd)
    os.makedirs(scripts)
    run = '..' if case['run'] is None else case['run']
    first = os.path.normpath(f'{cwd}/{case["sub"]}/{case["name"]}')
    second = os.path.normpath(f'{scripts}/{run}/{case["sub"]}/{case["name"]}')
    for want, path in ((case['here'], first), (case['script'], second)):
        if want:
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, 'w') as fh:
                fh.write('x')
    arg0 = f'{scripts}/go.py'
    if case['argv'] == 'rel':
        arg0 = os.path.relpath(arg0, cwd)
    old = os.getcwd()
    os.chdir(cwd)
    try:
        kw = {} if case['run'] is None else {'default_run_path': case['run']}
        got = RP.resolve_path_to_file([arg0, 'x', 'y'], case['name'], case['sub'], **kw)
    except FileNotFoundError:
        got = None
    finally:
        os.chdir(old)
    exp = first if case['here'] else second if case['script'] else None
    assert (None if got is None else str(got)) == exp, f'{got} instead of {exp}'
    ctx.label(f'here={case["here"]} script={case["script"]}')
    ctx.nontrivial(not case['here'])


def log_strategy(st):
    level = st.sampled_from(['DEBUG', 'INFO', 'WARNING', 'ERROR'])
    return st.fixed_dictionaries({
        'start': st.one_of(st.none(), level),
        'calls': st.lists(st.fixed_dictionaries({'verbose': st.booleans(), 'debug': st.booleans()}),
                          min_size=1, max_size=4)})


@chk.prop('log_level', log_strategy, quick=600, thorough=2000, shards=1)
def log_level(case, ctx):
    """debug wins over verbose; neither leaves warnings only; other settings are kept."""
    root = logging.getLogger()
    saved = root.level, root.handlers[:]
    try:
        kw = {} if case['start'] is None else {'my_level': getattr(logging, case['start'])}
        lg = LF.set_up_root_logger(**kw)
        cur = getattr(logging, case['start'] or 'INFO')
        assert lg is root and lg.level == cur, f'level {lg.level} instead of {cur}'
        for c in case['calls']:
            info = {**c, 'rot_pct': 20, 'base_dir': 'x'}
            out = LF.adjust_root_logger_level(lg, info)
            if c['debug']:
                cur = logging.DEBUG
            elif not c['verbose']:
                cur = logging.WARNING
            assert out is root and root.level == cur, f'{c}: level {root.level}, expected {cur}'
            assert root.handlers[0].level == cur, f'{c}: handler level {root.handlers[0].level}'
            assert info == {'rot_pct': 20, 'base_dir': 'x'}, f'remaining settings {info}'
    finally:
        root.handlers[:] = saved[1]
        root.setLevel(saved[0])
    ctx.nontrivial()


if __name__ == '__main__':
    sys.exit(chk.main())
