"""Mechanical extraction: /repo/src/*.cpp plus one contract file -> one LLVM IR module; and the native build."""
import hashlib
import os
import re
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VC_REPO', '/repo')
CLANG = '/usr/bin/clang++-18'
OPT = '/usr/bin/opt-18'
LINK = '/usr/bin/llvm-link-18'
CACHE = os.path.join(VERIF, '.cache')
MPI = ['-I/usr/lib/x86_64-linux-gnu/openmpi/include', '-I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi']
INC = ['-I/usr/include/eigen3', '-I/usr/include/hdf5/serial']
MAINS = ('teufel_hybrid.cpp', 'propagate.cpp', 'reflection.cpp')


def incs():
    return ['-I' + os.path.join(VERIF, 'contracts'), '-I' + REPO + '/src', '-I' + os.path.join(VERIF, 'contracts/gen')] + INC + \
        ['-I' + REPO + '/lib/SDDS'] + MPI


def h(*parts):
    m = hashlib.sha256()
    for p in parts:
        m.update(p if isinstance(p, bytes) else str(p).encode())
        m.update(b'\0')
    return m.hexdigest()[:24]


def tree_key():
    """hash over all sources and headers of the repository (any header change recompiles)"""
    out = []
    for d, _, fs in sorted(os.walk(REPO + '/src')):
        for f in sorted(fs):
            out.append(f)
            out.append(open(os.path.join(d, f), 'rb').read())
    for f in sorted(os.listdir(os.path.join(VERIF, 'contracts'))):
        if f.endswith('.h'):
            out.append(open(os.path.join(VERIF, 'contracts', f), 'rb').read())
    return h(*out)


def run(cmd, **kw):
    r = subprocess.run(cmd, capture_output=True, text=True, **kw)
    if r.returncode:
        raise RuntimeError('%s\n%s' % (' '.join(cmd), r.stderr[-3000:]))
    return r.stdout


def cached(name, key, build):
    os.makedirs(CACHE, exist_ok=True)
    path = os.path.join(CACHE, key + '-' + name)
    if not os.path.exists(path):
        tmp = path + '.tmp%d' % os.getpid()
        build(tmp)
        os.rename(tmp, path)
    return path


def lib_sources():
    return sorted(f for f in os.listdir(REPO + '/src') if f.endswith('.cpp') and f not in MAINS)


def ensure_config():
    g = os.path.join(VERIF, 'contracts/gen')
    os.makedirs(g, exist_ok=True)
    p = os.path.join(g, 'config.h')
    if not os.path.exists(p):
        src = REPO + '/src/config.h.in'
        txt = open(src).read() if os.path.exists(src) else ''
        txt = re.sub(r'@[A-Za-z_]+@', '0', txt)
        txt = re.sub(r'#cmakedefine (\w+)', r'/* #undef \1 */', txt)
        open(p + '.tmp%d' % os.getpid(), 'w').write(txt)
        os.rename(p + '.tmp%d' % os.getpid(), p)


CFLAGS = ['-std=c++11', '-O1', '-Xclang', '-disable-llvm-passes', '-DNDEBUG', '-m64', '-S', '-emit-llvm', '-w']


def compile_ll(path, key, extra=()):
    name = os.path.basename(path) + '.ll'
    shim = ['-I' + os.path.join(VERIF, 'contracts/shim')]

    def build(out):
        run([CLANG] + CFLAGS + shim + incs() + list(extra) + [path, '-o', out])
    return cached(name, h(key, path, open(path, 'rb').read(), *extra), build)


def contracts_in(path):
    return re.findall(r'^\s*CONTRACT\((\w+)\)', open(path).read(), re.M)


def uses_main(path):
    m = re.search(r'^// MAIN: (.*)$', open(path).read(), re.M)
    return m.group(1).split() if m else []


def module(contract):
    """merged IR for a contract file; returns (path of .ll, harness names)"""
    ensure_config()
    key = tree_key()
    cpath = os.path.join(VERIF, 'contracts', contract + '.cpp')
    names = contracts_in(cpath)

    def build(out):
        srcs = [REPO + '/src/' + f for f in lib_sources()]
        with ThreadPoolExecutor(8) as ex:
            lls = list(ex.map(lambda p: compile_ll(p, key), srcs + [cpath]))
        pub = ','.join(['c_' + n for n in names] + replaced_names(cpath))
        bc = out + '.bc'
        run([LINK] + lls + ['-o', bc])
        run([OPT, '-S', '-passes=internalize,globaldce,function(sroa,simplifycfg,early-cse,loop-simplify),globaldce', '-internalize-public-api-list=' + pub, bc, '-o', out])
        os.unlink(bc)
    return cached(contract + '.merged.ll', h(key, open(cpath, 'rb').read(), open(__file__, 'rb').read()), build), names


def replaced_names(cpath):
    """callee contracts: the extern "C" functions defined in the contract file and the headers it includes"""
    out, todo, seen = [], [cpath], set()
    while todo:
        p = todo.pop()
        if p in seen or os.path.basename(p) in ('vc.h', 'common.h') or not os.path.exists(p):
            continue
        seen.add(p)
        txt = open(p).read()
        out += re.findall(r'^extern "C" [\w \*]*?(\w+)\(', txt, re.M)
        todo += [os.path.join(os.path.dirname(p), n) for n in re.findall(r'^#include "(\w+\.h)"', txt, re.M)]
    return sorted(set(out))


NFLAGS = ['-std=c++11', '-O1', '-g', '-DNDEBUG', '-m64', '-pthread', '-fopenmp', '-w', '-D_GLIBCXX_ASSERTIONS']
SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=vptr']


def native(contract, san=True):
    """native program with all harnesses of a contract file"""
    ensure_config()
    key = tree_key()
    fl = NFLAGS + (SAN if san else [])
    cpath = os.path.join(VERIF, 'contracts', contract + '.cpp')
    names = contracts_in(cpath)

    def obj(path, extra=()):
        def build(out):
            run(['g++'] + fl + list(extra) + incs() + ['-x', 'c++', '-c', path, '-o', out])
        return cached(os.path.basename(path) + '.o', h(key, path, open(path, 'rb').read(), ' '.join(fl)), build)

    def build(out):
        srcs = [REPO + '/src/' + f for f in lib_sources()]
        tab = out + '.table.cpp'
        with open(tab, 'w') as f:
            for n in names:
                f.write('extern "C" void c_%s();\n' % n)
            f.write('struct Entry { const char *name; void (*f)(); };\nextern Entry vc_table[];\nEntry vc_table[] = {\n')
            for n in names:
                f.write(' {"%s", c_%s},\n' % (n, n))
            f.write(' {0,0}};\n')
        with ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(obj, srcs + [cpath, os.path.join(VERIF, 'native/vc_native.cpp')]))
        run(['g++'] + fl + objs + [tab, '-o', out] + link_libs())
        os.unlink(tab)
    return cached(contract + ('.san' if san else '.bin'), h(key, open(cpath, 'rb').read(), open(os.path.join(VERIF, 'native/vc_native.cpp'), 'rb').read(), san), build)


def link_libs():
    sd = REPO + '/lib/SDDS/'
    return ['-L/usr/lib/x86_64-linux-gnu/hdf5/serial', '-Wl,-rpath,/usr/lib/x86_64-linux-gnu/hdf5/serial:/usr/lib/x86_64-linux-gnu/openmpi/lib',
            '-lhdf5_cpp', '-lhdf5', '-lcrypto', '-lcurl', '-lsz', '-lz',
            sd + 'libSDDS1.a', sd + 'libmdblib.a', sd + 'libmdbcommon.a', sd + 'liblzma.a',
            '-L/usr/lib/x86_64-linux-gnu/openmpi/lib', '-lmpi_cxx', '-lmpi', '-lpugixml', '-lmuparser', '-lz', '-ldl', '-lm', '-lpthread']


if __name__ == '__main__':
    print(module(sys.argv[1]))
    print(native(sys.argv[1]))
