"""Build the pyinterp extension (or a subset of it) from /repo's working tree.

The distribution's pybind11 (2.11, numpy-1 ABI) cannot import numpy 2, so the
build uses a copy of /usr/include/pybind11 whose numpy.h is patched for the
numpy 2 descriptor layout; nothing of /repo is altered.
"""
import hashlib
import json
import os
import pathlib
import re
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get('VF_REPO', '/repo'))
CORE = REPO / 'src' / 'pyinterp' / 'core'
BUILD = pathlib.Path(os.environ.get('VF_BUILD', str(VERIF / 'build')))
PYBIND = pathlib.Path('/usr/include/pybind11')

FLAGS = ('-O0 -g0 -std=c++17 -fPIC -fvisibility=hidden -DEIGEN_USE_BLAS '
         '-DHAVE_IEC559 -D_GLIBCXX_ASSERTIONS -w').split()

# unit -> (list of (init function, submodule arguments), needs lib/)
UNITS = {
    'axis': ('axis.cpp', 'init_axis', ['m'], False),
    'binning': ('binning.cpp', 'init_binning', ['m'], False),
    'histogram2d': ('histogram2d.cpp', 'init_histogram2d', ['m'], False),
    'bivariate_interpolator': ('bivariate_interpolator.cpp',
                               'init_bivariate_interpolator', ['m'], False),
    'descriptive_statistics': ('descriptive_statistics.cpp',
                               'init_descriptive_statistics', ['m'], False),
    'interpolate1d': ('interpolate1d.cpp', 'init_interpolate1d', ['m'],
                      False),
    'grid': ('grid.cpp', 'init_grid', ['m'], False),
    'bivariate': ('bivariate.cpp', 'init_bivariate', ['m'], False),
    'trivariate': ('trivariate.cpp', 'init_trivariate', ['m'], False),
    'quadrivariate': ('quadrivariate.cpp', 'init_quadrivariate', ['m'],
                      False),
    'bicubic': ('bicubic.cpp', 'init_bicubic', ['m'], False),
    'enum': ('enum.cpp', 'init_enum', ['m', 'fill'], False),
    'fill': ('fill.cpp', 'init_fill', ['fill'], False),
    'dateutils': ('dateutils.cpp', 'init_dateutils', ['dateutils'], False),
    'geodetic': ('geodetic.cpp', 'init_geodetic', ['geodetic'], True),
    'period': ('period.cpp', 'init_period', ['m'], False),
    'rtree': ('rtree.cpp', 'init_rtree', ['m'], False),
    'streaming_histogram': ('streaming_histogram.cpp',
                            'init_streaming_histogram', ['m'], False),
    'geohash_int64': ('geohash/int64.cpp', 'init_geohash_int64',
                      ['geohash_int64'], True),
    'geohash_string': ('geohash/string.cpp', 'init_geohash_string',
                       ['geohash'], True),
    'geohash': ('geohash.cpp', 'init_geohash_class', ['m'], True),
    # harness units, from /verif/harness
    'vf_axis': ('@vf_axis.cpp', 'init_vf_axis', ['m'], False),
    'vf_thread': ('@vf_thread.cpp', 'init_vf_thread', ['m'], False),
    'vf_interp1d': ('@vf_interp1d.cpp', 'init_vf_interp1d', ['m'], False),
}
# initialisation order of module/main.cpp
ORDER = ['enum', 'dateutils', 'geodetic', 'period', 'axis', 'binning',
         'histogram2d', 'bivariate_interpolator', 'descriptive_statistics',
         'interpolate1d', 'grid', 'bivariate', 'trivariate',
         'quadrivariate', 'bicubic', 'fill', 'rtree', 'streaming_histogram',
         'geohash_int64', 'geohash_string', 'geohash']
ORDER += [u for u in UNITS if u.startswith('vf_')]
KNOWN_LIB = {'geodetic/box.cpp', 'geodetic/crossover.cpp',
             'geodetic/line_string.cpp', 'geodetic/multipolygon.cpp',
             'geodetic/point.cpp', 'geodetic/polygon.cpp',
             'geodetic/rtree.cpp', 'geohash/base32.cpp', 'geohash/int64.cpp',
             'geohash/string.cpp'}

MODULE_MACRO = r'''
#include <pybind11/pybind11.h>
#undef PYBIND11_MODULE
#define VP_MODULE2(name, variable)                                           \
  static ::pybind11::module_::module_def                                     \
      PYBIND11_CONCAT(pybind11_module_def_, name);                           \
  static void PYBIND11_CONCAT(pybind11_init_, name)(::pybind11::module_ &);  \
  PYBIND11_PLUGIN_IMPL(name) {                                               \
    PYBIND11_CHECK_PYTHON_VERSION                                            \
    PYBIND11_ENSURE_INTERNALS_READY                                          \
    auto m = ::pybind11::module_::create_extension_module(                   \
        PYBIND11_TOSTRING(name), nullptr,                                    \
        &PYBIND11_CONCAT(pybind11_module_def_, name));                       \
    try {                                                                    \
      PYBIND11_CONCAT(pybind11_init_, name)(m);                              \
      return m.ptr();                                                        \
    }                                                                        \
    PYBIND11_CATCH_INIT_EXCEPTIONS                                           \
  }                                                                          \
  void PYBIND11_CONCAT(pybind11_init_, name)(::pybind11::module_ &(variable))
#define PYBIND11_MODULE(name, variable, ...) VP_MODULE2(name, variable)
'''


class BuildError(Exception):
    pass


def _sha(path):
    h = hashlib.sha256()
    h.update(pathlib.Path(path).read_bytes())
    return h.hexdigest()


def make_shim():
    """Copy pybind11 and patch numpy.h for numpy 2."""
    dst = BUILD / 'shim'
    stamp = dst / 'stamp'
    if stamp.exists():
        return dst
    if dst.exists():
        shutil.rmtree(dst)
    shutil.copytree(PYBIND, dst / 'pybind11')
    path = dst / 'pybind11' / 'numpy.h'
    s = path.read_text()
    s = s.replace('API_PyArray_CopyInto = 82', 'API_PyArray_CopyInto = 50')
    s = s.replace('numpy.core.multiarray', 'numpy._core.multiarray')
    s = s.replace('numpy.core._internal', 'numpy._core._internal')
    s, n = re.subn(
        r'    char flags;\n    int type_num;\n    int elsize;\n'
        r'    int alignment;\n',
        '    char former_flags_;\n    int type_num;\n'
        '    unsigned long long flags;\n    Py_ssize_t elsize;\n'
        '    Py_ssize_t alignment;\n    PyObject *metadata_;\n'
        '    Py_ssize_t hash_;\n    void *reserved_[2];\n', s)
    if n != 1:
        raise BuildError('unexpected layout of pybind11/numpy.h')
    s = s.replace(
        'return detail::array_descriptor_proxy(m_ptr)->alignment;',
        'return (int)detail::array_descriptor_proxy(m_ptr)->alignment;')
    s = s.replace('return detail::array_descriptor_proxy(m_ptr)->flags;',
                  'return (char)detail::array_descriptor_proxy(m_ptr)->flags;')
    path.write_text(s)
    stamp.write_text('ok')
    return dst


def _compile(src, name, shim, extra_flags):
    """Compile one file, reusing an object whose dependencies are unchanged."""
    flags = FLAGS + list(extra_flags)
    key = hashlib.sha256((' '.join(flags) + str(src) + str(CORE)).encode()).hexdigest()[:12]
    obj = BUILD / 'obj' / f'{name}-{key}.o'
    dep = obj.with_suffix('.json')
    if obj.exists() and dep.exists():
        try:
            deps = json.loads(dep.read_text())
            if all(_sha(p) == h for p, h in deps.items()):
                return obj, 0.0, None
        except OSError:
            pass
    obj.parent.mkdir(parents=True, exist_ok=True)
    tmp = obj.with_suffix(f'.{os.getpid()}.tmp.o')
    dfile = obj.with_suffix(f'.{os.getpid()}.d')
    cmd = ['g++', *flags, f'-I{shim}', '-I/usr/include/eigen3',
           f'-I{CORE}/include', '-isystem', '/usr/include/python3.12',
           '-MD', '-MF', str(dfile), '-c', str(src), '-o', str(tmp)]
    t0 = time.time()
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        return None, time.time() - t0, p.stderr[-3000:]
    deps = {}
    for tok in dfile.read_text().replace('\\\n', ' ').split()[1:]:
        if str(REPO) in tok or 'vf' in tok or str(BUILD) in tok:
            deps[tok] = _sha(tok)
    dfile.unlink()
    tmp.rename(obj)
    dep.write_text(json.dumps(deps))
    return obj, time.time() - t0, None


def _main_source(units):
    subs = ['dateutils', 'geodetic', 'geohash', 'fill', 'geohash_int64']
    out = [MODULE_MACRO, 'namespace py = pybind11;']
    for u in units:
        _, fn, args, _ = UNITS[u]
        out.append(f'extern void {fn}({", ".join("py::module &" for _ in args)});')
    out.append('PYBIND11_MODULE(core, m) {')
    for s in subs:
        if s == 'geohash_int64':
            out.append('  auto geohash_int64 = geohash.def_submodule("int64", "");')
        else:
            out.append(f'  auto {s} = m.def_submodule("{s}", "");')
    for s in subs:
        out.append(f'  (void){s};')
    for u in units:
        _, fn, args, _ = UNITS[u]
        out.append(f'  {fn}({", ".join(args)});')
    out.append('}')
    return '\n'.join(out) + '\n'


def _build(sources, tag, extra_flags):
    shim = make_shim()
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as pool:
        res = list(pool.map(
            lambda s: (s[0], _compile(s[0], s[1], shim, extra_flags)),
            sources))
    objs = []
    for src, (obj, _, err) in res:
        if obj is None:
            raise BuildError(f'{src}: {err}')
        objs.append(obj)
    h = hashlib.sha256(
        ''.join(f'{o}:{_sha(o)}' for o in objs).encode()).hexdigest()[:16]
    outdir = BUILD / 'ext' / f'{tag}-{h}'
    so = outdir / 'core.cpython-312-x86_64-linux-gnu.so'
    if not so.exists():
        outdir.mkdir(parents=True, exist_ok=True)
        tmp = outdir / f'tmp{os.getpid()}.so'
        p = subprocess.run(['g++', '-shared', *extra_flags, '-o', str(tmp),
                            *map(str, objs), '-lopenblas', '-lpthread'],
                           capture_output=True, text=True)
        if p.returncode:
            raise BuildError(p.stderr[-3000:])
        tmp.rename(so)
    return so


# expensive first, so that the parallel build is balanced
COST = {'geodetic': 32, 'rtree': 30, 'binning': 18, 'histogram2d': 17,
        'polygon': 17, 'multipolygon': 17}


def _order(sources):
    return sorted(sources,
                  key=lambda s: -COST.get(pathlib.Path(s[0]).stem, 10))


def _importable(so):
    code = ('import importlib.util as u,sys\n'
            f's=u.spec_from_file_location("core",{str(so)!r})\n'
            'm=u.module_from_spec(s);s.loader.exec_module(m)\n')
    p = subprocess.run([sys.executable, '-c', code], capture_output=True,
                       text=True)
    return p.returncode == 0, p.stderr[-2000:]


def build(units, extra_flags=()):
    """Return the path of an extension holding at least *units*."""
    BUILD.mkdir(parents=True, exist_ok=True)
    units = set(units)
    if 'axis' in units:
        units.add('dateutils')  # DType::pattern_ is defined there
    units = [u for u in ORDER if u in units]
    err = None
    try:
        sources = []
        need_lib = False
        known = {UNITS[u][0] for u in UNITS} | {'main.cpp'}
        for u in units:
            rel, _, _, lib = UNITS[u]
            need_lib |= lib
            if rel[0] == '@':
                sources.append((VERIF / 'harness' / rel[1:], rel[1:]))
            else:
                sources.append((CORE / 'module' / rel,
                                'module_' + rel.replace('/', '_')))
        for p in sorted((CORE / 'module').rglob('*.cpp')):
            rel = str(p.relative_to(CORE / 'module'))
            if rel not in known:
                sources.append((p, 'module_' + rel.replace('/', '_')))
        for p in sorted((CORE / 'lib').rglob('*.cpp')):
            rel = str(p.relative_to(CORE / 'lib'))
            if need_lib or rel not in KNOWN_LIB:
                sources.append((p, 'lib_' + rel.replace('/', '_')))
        text = _main_source(units)
        tag = hashlib.sha256(text.encode()).hexdigest()[:8]
        mainf = BUILD / f'vf_main_{tag}.cpp'
        if not mainf.exists() or mainf.read_text() != text:
            mainf.write_text(text)
        sources.append((mainf, f'vf_main_{tag}'))
        so = _build(_order(sources), 'sub' + tag, extra_flags)
        ok, err = _importable(so)
        if ok:
            return so
    except BuildError as e:
        err = str(e)
    # the tree does not have the expected layout: build everything
    print(f'[vf] subset build unusable, building the whole module ({err})',
          file=sys.stderr)
    sources = []
    for p in sorted((CORE / 'module').rglob('*.cpp')):
        if p.name != 'main.cpp' or p.parent != CORE / 'module':
            sources.append((p, 'module_' + str(
                p.relative_to(CORE / 'module')).replace('/', '_')))
    for p in sorted((CORE / 'lib').rglob('*.cpp')):
        sources.append((p, 'lib_' + str(
            p.relative_to(CORE / 'lib')).replace('/', '_')))
    harness = [u for u in units if UNITS[u][0][0] == '@']
    for u in harness:
        sources.append((VERIF / 'harness' / UNITS[u][0][1:],
                        UNITS[u][0][1:]))
    mainf = BUILD / f'vf_main_full{len(harness)}.cpp'
    text = MODULE_MACRO + '#define init_axis init_axis_\n' * bool(harness)
    text += f'#include "{CORE}/module/main.cpp"\n'
    if harness:
        # run the harness initialisers together with init_axis
        text += '#undef init_axis\nextern void init_axis(py::module &);\n'
        text += '\n'.join(f'extern void {UNITS[u][1]}(py::module &);'
                          for u in harness)
        text += ('\nvoid init_axis_(py::module &m) { init_axis(m); ' +
                 ' '.join(f'{UNITS[u][1]}(m);' for u in harness) + ' }\n')
    mainf.write_text(text)
    sources.append((mainf, 'vf_main_full'))
    so = _build(_order(sources), 'full', extra_flags)
    ok, err = _importable(so)
    if not ok:
        raise BuildError('the extension cannot be imported: ' + err)
    return so


if __name__ == '__main__':
    t = time.time()
    if sys.argv[1:] == ['--setup']:
        BUILD.mkdir(parents=True, exist_ok=True)
        print('pybind11 for numpy 2:', make_shim())
        sys.exit(0)
    print(build(sys.argv[1:] or ORDER))
    print(f'{time.time() - t:.1f}s')
