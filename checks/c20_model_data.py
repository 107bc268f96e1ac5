"""C20: data read from mode files and structure models, their units and dimensions."""

import contextlib
import io
import os
import shutil
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vplib.harness import Check  # noqa: E402

chk = Check(
    'C20', needs=('cpp-numintegrator', 'cpp-disc-integrator', 'fornberg-num-deriv'),
    rule='Generated GYRE detail files, polytropic mode and structure files (HDF5, with quantities '
         'as datasets or attributes) and MESA profiles (text, up to hundreds of zones, signs that '
         'change anywhere, exponents of three digits), read in CGS and SI units. Non-trivial: at '
         'least two quantities with dimensions, or zones with both signs of a quantity.',
    assumptions=['the entropy perturbation is only checked as it is stored, because its units '
                 'are not in the files',
                 'SI conversion is checked for the quantities that the solver uses'])


def setup():
    global ModelLoader, ModelReader, EN, h5, np, g, consts
    import h5py as h5
    import numpy as np
    from astropy import constants as consts
    from aesolver.model_handling import ModelLoader
    from aesolver.model_handling.read_models import ModelReader
    from aesolver.model_handling import enumeration_files as EN
    from vplib import gen as g


chk.setup = setup

# ---------------------------------------------------------------- what GYRE writes, and its units
# exponents of (G, M, R, L) and the profile in whose units the quantity is
REAL, CPLX = 'real', 'complex'
GM_R, GM_R2, FREQ = (1, 1, -1, 0), (1, 1, -2, 0), (.5, .5, -1.5, 0)
INERTIA, ENERGY = (0, 1, 2, 0), (1, 2, -1, 0)
GYRE = {  # name: (kind, shape, unit)
    'xi_r': (CPLX, 'n', (0, 0, 1, 0)), 'xi_h': (CPLX, 'n', (0, 0, 1, 0)),
    'eul_phi': (CPLX, 'n', GM_R), 'deul_phi': (CPLX, 'n', GM_R2),
    'eul_P': (CPLX, 'n', 'P'), 'lag_P': (CPLX, 'n', 'P'), 'eul_rho': (CPLX, 'n', 'rho'),
    'lag_rho': (CPLX, 'n', 'rho'), 'eul_T': (CPLX, 'n', 'T'), 'lag_T': (CPLX, 'n', 'T'),
    'lag_L': (CPLX, 'n', (0, 0, 0, 1)), 'Omega_rot': (REAL, 'n', FREQ),
    'xi_r_ref': (CPLX, '1', (0, 0, 1, 0)), 'xi_h_ref': (CPLX, '1', (0, 0, 1, 0)),
    'eul_phi_ref': (CPLX, '1', GM_R), 'deul_phi_ref': (CPLX, '1', GM_R2),
    'lag_L_ref': (CPLX, '1', (0, 0, 0, 1)), 'E': (REAL, '1', INERTIA),
    'E_p': (REAL, '1', INERTIA), 'E_g': (REAL, '1', INERTIA), 'H': (REAL, '1', ENERGY),
    'W': (REAL, '1', ENERGY), 'W_eps': (REAL, '1', ENERGY), 'tau_ss': (REAL, '1', ENERGY),
    'tau_tr': (REAL, '1', ENERGY), 'dE_dx': (REAL, 'n', INERTIA), 'dW_dx': (REAL, 'n', ENERGY),
    'dW_eps_dx': (REAL, 'n', ENERGY), 'dtau_ss_dx': (REAL, 'n', ENERGY),
    'dtau_tr_dx': (REAL, 'n', ENERGY), 'Delta_p': (REAL, '1', FREQ),
    'Delta_g': (REAL, '1', FREQ),
    # without units
    'omega': (CPLX, '1', None), 'freq': (CPLX, '1', None), 'y_1': (CPLX, 'n', None),
    'y_2': (CPLX, 'n', None), 'y_3': (CPLX, 'n', None), 'y_4': (CPLX, 'n', None),
    'y_5': (CPLX, 'n', None), 'y_6': (CPLX, 'n', None), 'lambda': (CPLX, 'n', None),
    'l_i': (CPLX, '1', None), 'omega_int': (CPLX, '1', None), 'dzeta_dx': (CPLX, 'n', None),
    'Yt_1': (CPLX, 'n', None), 'Yt_2': (CPLX, 'n', None), 'I_0': (CPLX, 'n', None),
    'I_1': (CPLX, 'n', None), 'dbeta_dx': (CPLX, 'n', None), 'eta': (REAL, '1', None),
    'E_norm': (REAL, '1', None), 'E_ratio': (REAL, '1', None), 'f_T': (REAL, '1', None),
    'beta': (REAL, '1', None), 'domega_rot': (REAL, '1', None), 'x_ref': (REAL, '1', None),
    'As': (REAL, 'n', None), 'V_2': (REAL, 'n', None), 'U': (REAL, 'n', None),
    'c_1': (REAL, 'n', None), 'Gamma_1': (REAL, 'n', None), 'nabla': (REAL, 'n', None),
    'nabla_ad': (REAL, 'n', None), 'c_lum': (REAL, 'n', None), 'kap_T': (REAL, 'n', None),
    'x': (REAL, 'n', None), 'T': (REAL, 'n', None)}
TO_SI = {'M_star': 1e-3, 'M_r': 1e-3, 'R_star': 1e-2, 'L_star': 1e-7, 'P': 0.1, 'rho': 1e3}
INTS = {'l': 2, 'm': 1, 'n_pg': -20, 'n_p': 0, 'n_g': 20, 'j': 3}


def values(kind, n, rng):
    v = rng.normal(size=n) * 10.0 ** rng.integers(-3, 4)
    if kind == REAL:
        return v
    out = np.zeros(n, dtype=[('re', float), ('im', float)])
    out['re'], out['im'] = v, rng.normal(size=n)
    return out


def store(f, name, v, as_attr):
    if as_attr:
        f.attrs[name] = v
    else:
        f[name] = v


def as_complex(v):
    v = np.atleast_1d(v)
    return v['re'] + 1j * v['im']


def gyre_strategy(st):
    from vplib import gen
    return st.fixed_dictionaries({
        'seed': st.integers(0, 10**6), 'n': st.integers(1, 40),
        'names': st.lists(st.sampled_from(sorted(GYRE)), min_size=1, max_size=25, unique=True),
        'units': st.sampled_from(['CGS', 'SI', 'si', 'cgs']),
        'M': gen.logfloat(st, 1e32, 1e35), 'R': gen.logfloat(st, 1e10, 1e13),
        'L': gen.logfloat(st, 1e32, 1e40), 'modes': st.integers(1, 3)})


@chk.prop('gyre_modes', gyre_strategy, quick=500, thorough=6000, shards=3)
def gyre_modes(case, ctx):
    """Each quantity is returned as stored (complex where it has two parts), SI units convert the
    stellar quantities, and perturbations obtain their dimensions."""
    root = tempfile.mkdtemp(dir=ctx.scratch)
    try:
        n, names, count = case['n'], case['names'], case['modes']
        prof = {k: np.abs(values(REAL, n, g.rng(case['seed'] + 99 + i))) + 0.1
                for i, k in enumerate(['P', 'rho', 'M_r'])}
        files = []
        for j in range(count):
            rng = g.rng(case['seed'] + 1000 * j)
            raw = {k: values(GYRE[k][0], n if GYRE[k][1] == 'n' else 1, rng) for k in names}
            raw.setdefault('T', np.abs(rng.normal(size=n)))
            files.append(raw)
            with h5.File(os.path.join(root, f'detail_l2_m+1_n+{20 + j}_g_mode.h5'), 'w') as f:
                for k, v in list(raw.items()) + list(prof.items()):
                    one = k in GYRE and GYRE[k][1] == '1'
                    store(f, k, v[0] if one else v, one)
                for k, v in INTS.items():
                    f.attrs[k] = v + (j if k == 'j' else 0)
                f.attrs['M_star'], f.attrs['R_star'], f.attrs['L_star'] = (
                    case['M'], case['R'], case['L'])
                f.attrs['freq_units'], f.attrs['freq_frame'] = 'UHZ', 'COROT_O'
                f['unknown'] = np.arange(3)
        load = ModelLoader(base_dir=root, gyre_output_dir=root, infer_dir=False,
                           search_l=[2] * count, search_m=[1] * count,
                           search_n=[20 + j for j in range(count)], unit_system=case['units'])
        load.read_data_files(gyre_detail=True, g_modes=[True] * count)
        data = load.gyre_details
    finally:
        shutil.rmtree(root)
    si = case['units'].upper() == 'SI'
    conv = TO_SI if si else {}
    big_g = consts.G.si.value if si else consts.G.cgs.value
    star = {k: v * conv.get(k, 1.0) for k, v in (
        ('M_star', case['M']), ('R_star', case['R']), ('L_star', case['L']))}
    base = {k: v * conv.get(k, 1.0) for k, v in prof.items()}
    assert len(data) == count
    dims = 0
    for j, (raw, d) in enumerate(zip(files, data)):
        expect = {}
        for k, v in raw.items():
            kind, _, unit = GYRE[k]
            v = as_complex(v) if kind == CPLX else (v if GYRE[k][1] == 'n' else v[0])
            if unit is None:
                expect[k] = v
                continue
            if isinstance(unit, str):
                fac = raw['T'] if unit == 'T' else base[unit]
            else:
                fac = (big_g ** unit[0] * star['M_star'] ** unit[1] * star['R_star'] ** unit[2]
                       * star['L_star'] ** unit[3])
            expect[f'{k}_dim'] = v * fac
            dims += 1
        expect.update(base)
        expect.update(star)
        expect.update({k: v + (j if k == 'j' else 0) for k, v in INTS.items()})
        expect['G'] = big_g
        for k, w in expect.items():
            assert k in d, f'{k} was not read'
            g.close(np.atleast_1d(d[k]), np.atleast_1d(w), rtol=1e-12, atol=0,
                    msg=f'{k} of mode {j + 1} in {case["units"]} units')
            assert np.iscomplexobj(d[k]) == np.iscomplexobj(w), f'type of {k}'
        assert d['freq_units'] == 'UHZ' and d['freq_frame'] == 'COROT_O'
        assert 'unknown' not in d
        extra = set(d) - set(expect) - set(raw) - {'freq_units', 'freq_frame'}
        assert not extra, f'quantities that are not in the file: {sorted(extra)}'
    ctx.label(case['units'])
    ctx.nontrivial(dims >= 2)


POLY = {'xi_r': (CPLX, 'n'), 'xi_h': (CPLX, 'n'), 'eul_phi': (CPLX, 'n'), 'deul_phi': (CPLX, 'n'),
        'omega': (CPLX, '1'), 'freq': (CPLX, '1'), 'y_1': (CPLX, 'n'), 'y_2': (CPLX, 'n'),
        'y_3': (CPLX, 'n'), 'y_4': (CPLX, 'n'), 'l_i': (CPLX, '1'), 'lambda': (CPLX, 'n'),
        'Omega_rot': (REAL, 'n'), 'Gamma_1': (REAL, 'n'), 'x': (REAL, 'n')}


def poly_strategy(st):
    from vplib import gen
    return st.fixed_dictionaries({
        'seed': st.integers(0, 10**6), 'n': st.integers(1, 40),
        'names': st.lists(st.sampled_from(sorted(POLY)), min_size=1, unique=True),
        'units': st.sampled_from(['CGS', 'SI', 'si', 'cgs']), 'M': gen.logfloat(st, 1e30, 1e35),
        'R': gen.logfloat(st, 1e9, 1e13), 'modes': st.integers(1, 3), 'struct': st.booleans()})


@chk.prop('polytropes', poly_strategy, quick=400, thorough=5000, shards=2)
def polytropes(case, ctx):
    """Polytropic modes and structure carry the stored values and the mass, radius and
    gravitational constant that were asked for."""
    root = tempfile.mkdtemp(dir=ctx.scratch)
    try:
        n, count = case['n'], case['modes']
        files = []
        mdir, sdir = os.path.join(root, 'modes'), os.path.join(root, 'struct')
        os.makedirs(mdir)
        os.makedirs(sdir)
        for j in range(count):
            rng = g.rng(case['seed'] + 1000 * j)
            raw = {k: values(POLY[k][0], n if POLY[k][1] == 'n' else 1, rng)
                   for k in case['names']}
            files.append(raw)
            with h5.File(os.path.join(mdir, f'detail_l1_m-1_n+{3 + j}_g_mode.h5'), 'w') as f:
                for k, v in raw.items():
                    one = POLY[k][1] == '1'
                    store(f, k, v[0] if one else v, one)
                for k, v in (('l', 1), ('m', -1), ('n_pg', -3 - j), ('label', 7 + j)):
                    f.attrs[k] = v
                f.attrs['freq_units'] = 'NONE'
        z = np.linspace(0.2, 3.0, 12)
        s = {'z': z, 'theta': np.sin(z) / z, 'dtheta': np.cos(z) / z - np.sin(z) / z**2}
        with h5.File(os.path.join(sdir, 'poly_n_1_0.h5'), 'w') as f:
            for k, v in s.items():
                f[k] = v
            f.attrs['n_poly'], f.attrs['Gamma_1'] = np.array([1.0]), 1.6
        load = ModelLoader(base_dir=root, polytrope_oscillation_output_dir=mdir,
                           polytrope_model_output_dir=sdir, infer_dir=False,
                           search_l=[1] * count, search_m=[-1] * count,
                           search_n=[3 + j for j in range(count)], unit_system=case['units'],
                           polytrope_model_substrings=['poly'], use_polytrope_data=True)
        load.read_data_files(polytrope_oscillation=True, polytrope_model=case['struct'],
                             g_modes=[True] * count, polytrope_mass=case['M'],
                             polytrope_radius=case['R'])
    finally:
        shutil.rmtree(root)
    big_g = (consts.G.si if case['units'].upper() == 'SI' else consts.G.cgs).value
    for j, (raw, d) in enumerate(zip(files, load.polytrope_oscillation_models)):
        for k, v in raw.items():
            w = as_complex(v) if POLY[k][0] == CPLX else v
            g.close(np.atleast_1d(d[k]), w, rtol=1e-14, atol=0, msg=f'{k} of mode {j + 1}')
            assert np.iscomplexobj(d[k]) == (POLY[k][0] == CPLX), f'type of {k}'
        assert (d['G'], d['M_star'], d['R_star']) == (big_g, case['M'], case['R'])
        assert (d['l'], d['m'], d['n_pg'], d['label']) == (1, -1, -3 - j, 7 + j)
        assert d['freq_units'] == 'NONE'
    if case['struct']:
        d = load.polytrope_model[0]
        for k, v in s.items():
            g.close(d[k], v, rtol=1e-14, atol=0, msg=k)
        assert d['G'] == big_g and d['n_poly'] == 1.0 and d['Gamma_1'] == 1.6
        assert abs(d['r'][-1] / case['R'] - 1) < 1e-12, f'radius {d["r"][-1]!r}'
        assert abs(d['mr'][-1] / case['M'] - 1) < 1e-12, f'mass {d["mr"][-1]!r}'
        assert abs(d['surfgrav'][-1] / (big_g * case['M'] / case['R']**2) - 1) < 1e-12
    ctx.label(case['units'])
    ctx.nontrivial(len(case['names']) >= 2)


# ---------------------------------------------------------------- MESA profiles
MESA = ['logT', 'logRho', 'pressure', 'grav', 'brunt_N2', 'gamma_1_adDer', 'mlt_mixing_length',
        'brunt_N2_composition_term', 'radius', 'lamb_S', 'q', 'x', 'grada', 'log_D_mix', 'velocity',
        'mass', 'luminosity', 'gradT']
MESA_SI = {'pressure': 0.1, 'grav': 1e-2, 'gamma_1_adDer': 1e-3, 'mlt_mixing_length': 1e-2}
UNJUDGED_SI = {'velocity'}
HEADER = {'model_number': 812, 'num_zones': 1, 'initial_mass': 6.0, 'star_age': 1.5e7,
          'center_h1': 0.09, 'Teff': 19000.0, 'initial_z': 0.014}


def mesa_number(v, width):
    if isinstance(v, int):
        return f'{v:>{width}}'
    if isinstance(v, str):
        return f'"{v}"'.rjust(width)
    m, e = f'{v:.16E}'.split('E')
    return f'{m}E{e[0]}{int(e[1:]):03d}'.rjust(width)


def mesa_strategy(st):
    return st.fixed_dictionaries({
        'seed': st.integers(0, 10**6), 'rows': st.one_of(st.integers(1, 20), st.integers(90, 400)),
        'cols': st.lists(st.sampled_from(MESA), min_size=1, max_size=8, unique=True),
        'head': st.lists(st.sampled_from(sorted(HEADER)), max_size=5, unique=True),
        'flip': st.integers(0, 400), 'span': st.sampled_from([0, 3, 40, 250]),
        'width': st.sampled_from([40, 32]), 'zones': st.booleans(), 'extra': st.booleans(),
        'start': st.sampled_from([1, 1, 95, 9990]),
        'units': st.sampled_from(['CGS', 'SI', 'si', 'cgs'])})


@chk.prop('mesa_profile', mesa_strategy, quick=400, thorough=4000, shards=3)
def mesa_profile(case, ctx):
    """Every column of the profile is read for every zone, with its sign, and converted to SI."""
    root = tempfile.mkdtemp(dir=ctx.scratch)
    rng = g.rng(case['seed'])
    rows, w = case['rows'], case['width']
    cols = {}
    if case['zones']:
        cols['zone'] = [case['start'] + i for i in range(rows)]
    for k in case['cols']:
        v = np.abs(rng.normal(size=rows)) * 10.0 ** rng.uniform(-case['span'], case['span'], rows)
        if case['flip'] < rows:
            v[case['flip']:] *= -1.0
        elif case['flip'] % 3 == 0:
            v = v * rng.choice([-1.0, 1.0], rows)
        cols[k] = v.tolist()
    if case['extra']:
        cols['not_a_known_name'] = rng.normal(size=rows).tolist()
    head = ['version_number', *case['head']]
    try:
        with open(os.path.join(root, 'profile_M6_00.dat'), 'w') as f:
            f.write(''.join(f'{i + 1:>{w}}' for i in range(len(head))) + '\n')
            f.write(''.join(f'{h:>{w}}' for h in head) + '\n')
            f.write(''.join(mesa_number(HEADER.get(h, 'r22.05.1'), w) for h in head) + '\n\n')
            f.write(''.join(f'{i + 1:>{w}}' for i in range(len(cols))) + '\n')
            f.write(''.join(f'{h:>{w}}' for h in cols) + '\n')
            for i in range(rows):
                f.write(''.join(mesa_number(v[i], w) for v in cols.values()) + '\n')
        load = ModelLoader(base_dir=root, mesa_output_dir=root, infer_dir=False,
                           mesa_profile_substrings=['profile'], unit_system=case['units'])
        with contextlib.redirect_stderr(io.StringIO()):
            load.read_data_files(mesa_profile=True)
        (data,) = load.mesa_profile
    finally:
        shutil.rmtree(root)
    si = case['units'].upper() == 'SI'
    for k, v in cols.items():
        if k == 'not_a_known_name':
            assert k not in data
            continue
        if si and k in UNJUDGED_SI:
            continue
        fac = MESA_SI.get(k, 1.0) if si else 1.0
        got = np.asarray(data[k], dtype=float)
        assert got.shape == (rows,), f'{k} has {got.shape} zones of {rows}'
        g.close(got, np.asarray(v, dtype=float) * fac, rtol=1e-13, atol=0, msg=f'column {k}')
    for h in case['head']:
        assert abs(float(data[h]) - HEADER[h]) <= 1e-12 * HEADER[h], f'{h}: {data[h]!r}'
    assert set(data) <= set(cols) | set(head), f'columns {sorted(data)}'
    ctx.label('many zones' if rows > 100 else 'few zones')
    ctx.label(case['units'])
    ctx.nontrivial(case['flip'] < rows or len(cols) >= 3)


if __name__ == '__main__':
    sys.exit(chk.main())
