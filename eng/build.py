"""Extract LLVM IR from /repo's current sources (nothing is rewritten: the C++ front end reads the real files)."""
import os, subprocess, shutil, tempfile, sys, hashlib

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JH = '/usr/lib/jvm/java-8-openjdk-amd64'
CLANG = 'clang++-18'; OPT = '/usr/lib/llvm-18/bin/opt'

class BuildError(Exception):
    pass

_work = None
def workdir():
    global _work
    if _work is None:
        _work = tempfile.mkdtemp(prefix='avverif.')
        import atexit
        pid = os.getpid()
        def rm():
            if os.getpid() == pid and _work.startswith('/tmp/avverif.'):
                shutil.rmtree(_work, ignore_errors=True)
        atexit.register(rm)
    return _work

def sh(cmd, **kw):
    p = subprocess.run(cmd, capture_output=True, text=True, errors='replace', **kw)
    return p

def types_dir():
    """generated type headers, made by the repository's own type-generator from the current tree"""
    b = os.path.join(workdir(), 'gen')
    if os.path.exists(os.path.join(b, 'type-maps.cpp')):
        return b
    os.makedirs(b, exist_ok=True)
    env = dict(os.environ, JAVA_HOME=JH)
    tg = [os.path.join(b, 'type-%s.cpp' % x) for x in
          ('enums', 'declarations', 'constructors', 'initializations', 'java-initializations', 'name-initializations', 'maps')]
    p = sh(['make', '-j8', 'build=' + b, 'process=interpret', 'extra-cflags=-include /opt/vp/glibc-compat.h -w'] + tg, cwd=REPO, env=env)
    if p.returncode != 0 or not all(os.path.exists(t) for t in tg):
        raise BuildError('type generation failed:\n' + (p.stdout + p.stderr)[-3000:])
    return b

def cflags(gen, jit=False, extra=()):
    f = ['-std=c++11', '-fno-rtti', '-fno-exceptions', '-I' + REPO + '/classpath', '-I' + JH + '/include', '-I' + JH + '/include/linux',
         '-I' + REPO + '/src', '-I' + REPO + '/src/avian', '-I' + REPO + '/include', '-I' + REPO,
         '-D__STDC_LIMIT_MACROS', '-D_JNI_IMPLEMENTATION_', '-DAVIAN_VERSION="1.3.0-SNAPSHOT"',
         '-DAVIAN_INFO=""', '-DUSE_ATOMIC_OPERATIONS', '-DAVIAN_JAVA_HOME=""', '-DAVIAN_EMBED_PREFIX="/avian-embedded"',
         '-DTARGET_BYTES_PER_WORD=8', '-fPIC', '-fvisibility=hidden', '-pthread', '-DNDEBUG',
         '-DBOOT_CLASSPATH="[classpathJar]"', '-DAVIAN_CLASSPATH="[classpathJar]"',
         '-include', '/opt/vp/glibc-compat.h', '-w']
    if gen:
        f.insert(0, '-I' + gen)
    if jit:
        f += ['-DAVIAN_TARGET_ARCH=AVIAN_ARCH_X86_64', '-DAVIAN_TARGET_FORMAT=AVIAN_FORMAT_ELF']
    return f + list(extra)

def ir(src, name=None, gen=True, jit=False, extra=(), passes='mem2reg,instsimplify,simplifycfg<no-hoist-common-insts;no-sink-common-insts;no-switch-to-lookup;no-switch-range-to-icmp>', wrapper=None):
    """compile one translation unit to simplified IR; returns path of bitcode.
    wrapper: text of a driver .cpp that #includes real sources (used only to name entry points)."""
    wd = workdir()
    if wrapper is not None:
        name = name or 'wrap'
        s = os.path.join(wd, name + '.wrap.cpp')
        with open(s, 'w') as f:
            f.write(wrapper)
    else:
        s = os.path.join(REPO, src)
        name = name or src.replace('/', '_')
    g = types_dir() if gen else None
    out = os.path.join(wd, name + '.bc')
    raw = os.path.join(wd, name + '.raw.bc')
    cmd = [CLANG] + cflags(g, jit, extra) + ['-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-c', '-emit-llvm', s, '-o', raw]
    p = sh(cmd)
    if p.returncode:
        raise BuildError('compile failed: %s\n%s' % (src or name, p.stderr[-3000:]))
    p = sh([OPT, '-phi-node-folding-threshold=0', '-two-entry-phi-node-folding-threshold=0', '-speculate-one-expensive-inst=false', '-passes=' + passes, raw, '-o', out])
    if p.returncode:
        raise BuildError('opt failed: ' + p.stderr[-2000:])
    return out

def demangle(names):
    p = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
    return p.stdout.split('\n')[:len(names)]
