"""Compiles harnesses against /repo's current headers and exports the IR."""
import os, subprocess, sys, hashlib, json, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CLANG = '/usr/bin/clang++-18'
OPT = '/usr/bin/opt-18'
BROOT = '/opt/vp/boost-root'
INC = ['-I' + REPO + '/include', '-I' + BROOT + '/guard', '-I' + BROOT]
BASE = ['-std=c++17', '-w'] + INC
IRF = ['-O0', '-Xclang', '-disable-O0-optnone', '-g', '-fstandalone-debug', '-fwhole-program-vtables', '-flto',
       '-fvisibility=hidden', '-fno-discard-value-names', '-ffile-prefix-map=' + REPO + '/=']


class BuildError(Exception):
    pass


def tool():
    """path of irdump; built by setup, rebuilt here if missing or stale"""
    src = VERIF + '/tools/irdump.cpp'
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    out = VERIF + '/build/irdump-' + h
    if not os.path.exists(out):
        os.makedirs(VERIF + '/build', exist_ok=True)
        flags = subprocess.check_output(['llvm-config-18', '--cppflags'], text=True).split()
        tmp = out + '.%d' % os.getpid()
        subprocess.check_call(['g++', '-O1', '-std=c++17', '-fno-rtti'] + flags + [src, '-o', tmp, '-L/usr/lib/llvm-18/lib', '-lLLVM-18'])
        os.rename(tmp, out)
    return out


def tmpdir():
    d = tempfile.mkdtemp(prefix='sa-', dir=os.environ.get('TMPDIR', '/tmp'))
    return d


PASSES = 'function(sroa,early-cse,simplifycfg)'


def ir(src, flags=(), work=None, passes=PASSES):
    """compile src -> JSON path"""
    t = tool()
    d = work or tmpdir()
    key = hashlib.sha256((src + '\0' + '\0'.join(flags)).encode()).hexdigest()[:12]
    b = os.path.join(d, os.path.basename(src) + '.' + key)
    p = subprocess.run([CLANG] + BASE + IRF + list(flags) + ['-I' + VERIF + '/harness', '-c', src, '-o', b + '.bc'], capture_output=True, text=True)
    if p.returncode:
        raise BuildError('%s does not compile:\n%s' % (src, p.stderr[:3000]))
    subprocess.run([OPT, '-passes=' + passes, b + '.bc', '-o', b + '.o.bc'], check=True)
    subprocess.run([t, b + '.o.bc', b + '.json'], check=True)
    os.unlink(b + '.bc'); os.unlink(b + '.o.bc')
    return b + '.json'


def compiles(src, flags=(), compiler=CLANG, extra=()):
    p = subprocess.run([compiler] + BASE + ['-fsyntax-only'] + list(flags) + ['-I' + VERIF + '/harness'] + list(extra) + [src], capture_output=True, text=True)
    return p.returncode == 0, p.stderr


def many(jobs, n=8):
    """jobs: list of (src, flags) -> list of json paths (parallel)"""
    d = tmpdir()
    with ThreadPoolExecutor(n) as ex:
        fs = [ex.submit(ir, s, f, d) for s, f in jobs]
        return d, [f.result() for f in fs]


if __name__ == '__main__':
    print(tool())
