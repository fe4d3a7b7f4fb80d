"""IR and replay builds of the package from a source tree."""
import os, re, shlex, subprocess, shutil, glob, sys

CLANG = '/usr/lib/llvm-18/bin/clang++'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODULES = ('datastructure', 'correlator')
PYPY = '/opt/venv-pypy/bin/python'
COMPAT = '/opt/vp/compat/pypy_compat.h'
PYINC = '/usr/include/pypy3.9'


EARLY = ['-include', 'stdlib.h', '-include', 'math.h', '-include', 'bits/stdc++.h']


class BuildError(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stdout[-3000:]))
    return r.stdout


def sources(repo, m):
    fs = sorted(glob.glob(os.path.join(repo, 'sacf', m, '*.cpp')))
    return fs


def ir(repo, out, context='sandbox'):
    """one IR file per extension module.  context 'sandbox': with the sandbox build's force-included
    header; 'plain': without it."""
    os.makedirs(out, exist_ok=True)
    procs = []
    jobs = {}
    for m in MODULES:
        for f in sources(repo, m):
            o = os.path.join(out, '%s.%s.ll' % (m, os.path.basename(f)[:-4]))
            cmd = [CLANG, '-std=c++14', '-O0', '-Xclang', '-disable-O0-optnone', '-S', '-emit-llvm', '-w', '-DNDEBUG',
                   '-D_GLIBCXX_EXTERN_TEMPLATE=-1', '-D_GLIBCXX_ASSERTIONS', '-I' + os.path.join(VERIF, 'stub'),
                   '-I' + os.path.join(repo, 'sacf', 'include'), '-ffp-contract=off']
            if context == 'sandbox':
                cmd += ['-I' + PYINC, '-include', COMPAT]
            if context == 'early':
                cmd += EARLY
            cmd += [f, '-o', o]
            procs.append((cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
            jobs.setdefault(m, []).append(o)
    support = os.path.join(out, 'support.ll')
    cmd = [CLANG, '-std=c++14', '-O0', '-Xclang', '-disable-O0-optnone', '-S', '-emit-llvm', '-w', '-DNDEBUG', os.path.join(VERIF, 'stub', 'support.cpp'), '-o', support]
    procs.append((cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for cmd, p in procs:
        o, _ = p.communicate()
        if p.returncode:
            raise BuildError('%s\n%s' % (' '.join(cmd), o[-3000:]))
    res = {}
    for m, os_ in jobs.items():
        l = os.path.join(out, m + '.linked.ll')
        run(['llvm-link-18', '-S'] + os_ + ['-o', l])
        run(['llvm-link-18', '-S', '--only-needed', l, support, '-o', l])
        t = open(l).read()
        t = re.sub(r'\bnoinline\b', '', t)
        open(l, 'w').write(t)
        o = os.path.join(out, m + '.opt.ll')
        run(['opt-18', '-S', '-passes=default<O1>', '-vectorize-loops=false', '-vectorize-slp=false', l, '-o', o])
        res[m] = open(o).read()
    return res


def ext_suffix():
    return '.pypy39-pp73-x86_64-linux-gnu.so'


def start_native(repo, out, asan=False, context='sandbox'):
    """start the compilations of a runnable package in out/sacf; returns the processes"""
    d = os.path.join(out, 'sacf')
    os.makedirs(d, exist_ok=True)
    for f in glob.glob(os.path.join(repo, 'sacf', '*.py')):
        shutil.copy(f, d)
    procs = []
    if context != 'sandbox':
        return start_context(repo, d, context)
    for m in MODULES:
        cmd = ['g++', '-shared', '-fPIC', '-std=c++14', '-w', '-fvisibility=hidden', '-I' + PYINC, '-include', COMPAT,
               '-I' + os.path.join(repo, 'sacf/include'), '-I' + os.path.join(repo, 'sacf/include/pybind11/include')]
        if asan:
            cmd += ['-O1', '-g', '-fsanitize=address', '-D_GLIBCXX_ASSERTIONS', '-D_GLIBCXX_SANITIZE_VECTOR']
        else:
            cmd += ['-O1', '-DNDEBUG']
        cmd += sources(repo, m) + ['-o', os.path.join(d, m + ext_suffix())]
        procs.append((cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    return procs


def start_context(repo, d, context):
    """the library sources in the given include context, the bindings as always"""
    inc = ['-I' + os.path.join(repo, 'sacf/include')]
    bind = ['-I' + PYINC, '-include', COMPAT] + inc + ['-I' + os.path.join(repo, 'sacf/include/pybind11/include')]
    flags = ['g++', '-fPIC', '-std=c++14', '-w', '-fvisibility=hidden', '-O1', '-DNDEBUG']
    procs = []
    for m in MODULES:
        objs = []
        cmds = []
        for f in sources(repo, m):
            o = os.path.join(d, '%s-%s.o' % (m, os.path.basename(f)[:-4]))
            objs.append(o)
            extra = bind if 'pybind11' in open(f, errors='replace').read() else inc + (EARLY if context == 'early' else [])
            cmds.append(' '.join(shlex.quote(c) for c in flags + extra + ['-c', f, '-o', o]))
        link = ' '.join(shlex.quote(c) for c in ['g++', '-shared', '-fPIC'] + objs + ['-o', os.path.join(d, m + ext_suffix())])
        cmd = ['/bin/sh', '-c', ' && '.join(cmds + [link])]
        procs.append((cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    return procs


def wait_native(procs):
    for cmd, p in procs:
        o, _ = p.communicate()
        if p.returncode:
            raise BuildError('%s\n%s' % (' '.join(cmd), o[-3000:]))
