"""mechanical extraction: harness TU + /repo headers -> LLVM IR (per run)."""
import hashlib
import os
import re
import subprocess
import tempfile
import atexit
import shutil

REPO = os.environ.get('VX_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_tmp = [None]


def tmpdir():
    if _tmp[0] is None:
        _tmp[0] = tempfile.mkdtemp(prefix='vx_')
        pid = os.getpid()

        def clean(d=_tmp[0]):
            if os.getpid() == pid:
                shutil.rmtree(d, ignore_errors=True)
        atexit.register(clean)
    return _tmp[0]


class BuildError(Exception):
    pass


CLANG = '/usr/bin/clang++' if os.path.exists('/usr/bin/clang++') else 'clang++'
OPT = next((p for p in ('/usr/bin/opt', '/usr/bin/opt-18', '/usr/lib/llvm-18/bin/opt') if os.path.exists(p)), 'opt')
PASSES = ('function(sroa,early-cse,simplifycfg),always-inline,function(sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg,'
          'loop-simplify,lcssa),globaldce,strip-dead-prototypes')


def run(cmd, timeout=600):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if p.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stdout.decode(errors='replace')[-4000:]))
    return p.stdout.decode(errors='replace')


def to_ir(name, defs=(), passes=PASSES):
    """compile harness/<name>.cpp; returns path of the .ll"""
    src = os.path.join(VERIF, 'harness', name + '.cpp')
    key = hashlib.sha1(repr((name, tuple(defs))).encode()).hexdigest()[:8]
    d = tmpdir()
    f0, f1, f2 = [os.path.join(d, '%s_%s.%d.ll' % (name, key, i)) for i in range(3)]
    if os.path.exists(f2):
        return f2
    run([CLANG, '-std=c++17', '-I' + REPO + '/src', '-I' + VERIF + '/harness', '-O1', '-Xclang', '-disable-llvm-passes',
         '-fno-math-errno', '-ffp-contract=off', '-fno-exceptions', '-w', '-S', '-emit-llvm', src, '-o', f0] + ['-D' + x for x in defs])
    out = []
    for line in open(f0):
        if line.startswith('define ') and re.match(r'define (linkonce_odr|internal|weak_odr)\b', line):
            line = re.sub(r' (#\d+)', r' alwaysinline \1', line, count=1)
        elif line.startswith('attributes #'):
            line = line.replace(' noinline', '')
        out.append(line)
    open(f1, 'w').writelines(out)
    run([OPT, '-S', '-passes=' + passes, f1, '-o', f2])
    os.remove(f0)
    return f2


def native(name, defs=(), compiler=None):
    """the same harness with the project's own containers, as a shared object"""
    src = os.path.join(VERIF, 'harness', name + '.cpp')
    key = hashlib.sha1(repr((name, tuple(defs))).encode()).hexdigest()[:8]
    so = os.path.join(tmpdir(), 'lib_%s_%s.so' % (name, key))
    if os.path.exists(so):
        return so
    run([compiler or CLANG, '-std=c++17', '-I' + REPO + '/src', '-I' + VERIF + '/harness', '-O1', '-fPIC', '-shared',
         '-ffp-contract=off', '-w', '-DVX_NATIVE', src, '-o', so, '-lpthread'] + ['-D' + x for x in defs])
    return so
