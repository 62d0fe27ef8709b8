"""Build the VM from the current tree (outside /repo) and run class files on it; used only to replay counterexamples."""
import os, shutil, subprocess, resource
import build

def vm(process):
    """process: 'interpret' | 'compile' -> path of the avian executable"""
    d = os.path.join(build.workdir(), 'vm-' + process)
    exe = os.path.join(d, 'avian')
    if os.path.exists(exe):
        return exe
    os.makedirs(d, exist_ok=True)
    env = dict(os.environ, JAVA_HOME=build.JH, LC_ALL='C.UTF-8')
    env.pop('MAKEFLAGS', None)
    rel = os.path.relpath(d, build.REPO)
    p = subprocess.run(['make', '-j8', 'build=' + rel, 'process=' + process,
                        'extra-cflags=-include /opt/vp/glibc-compat.h -w $(if $(filter %/java-lang.o,$@),-D__ANDROID__)',
                        rel + '/avian'], cwd=build.REPO, env=env, capture_output=True, text=True, errors='replace')
    if p.returncode or not os.path.exists(exe):
        raise build.BuildError('VM build failed:\n' + (p.stdout + p.stderr)[-3000:])
    return exe

def limits():
    resource.setrlimit(resource.RLIMIT_CPU, (120, 120))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

def run(exe, classes, main, timeout=120, args=()):
    d = os.path.join(build.workdir(), 'cls-' + main + '-' + str(os.getpid()))
    os.makedirs(d, exist_ok=True)
    for n, b in classes.items():
        p = os.path.join(d, n + '.class')
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f:
            f.write(b)
    try:
        p = subprocess.run([exe, '-Xmx128m', '-cp', d, main] + list(args), capture_output=True, timeout=timeout, preexec_fn=limits,
                           cwd=d, env={'PATH': '/usr/bin:/bin', 'LC_ALL': 'C.UTF-8'})
        return p.returncode, p.stdout.decode('latin-1'), p.stderr.decode('latin-1')
    except subprocess.TimeoutExpired as e:
        return 'timeout', (e.stdout or b'').decode('latin-1'), (e.stderr or b'').decode('latin-1')

def javac(src):
    """compile one Java source -> directory with the class files (version 51: no stack-map requirement on either engine)"""
    d = os.path.join(build.workdir(), 'java-' + os.path.basename(src)[:-5])
    if not os.path.isdir(d):
        t = d + '.tmp%d' % os.getpid()
        os.makedirs(t)
        p = subprocess.run([os.path.join(build.JH, 'bin', 'javac'), '-nowarn', '-source', '1.7', '-target', '1.7', '-d', t, src],
                           capture_output=True, text=True, errors='replace')
        if p.returncode:
            raise build.BuildError('javac failed: ' + p.stderr[-1500:])
        os.rename(t, d)
    return d

def java_cases(name, process, timeout=150, args=(), hide=()):
    """run specs/java/<name>.java on a VM built from the current tree -> list of mismatch lines.
    hide: classes whose files are moved to hidden/ before the run (the program copies them back itself)"""
    src = os.path.join(build.VERIF, 'specs', 'java', name + '.java')
    d = javac(src)
    if hide:
        t = os.path.join(build.workdir(), 'hide-%s-%d' % (name, os.getpid()))
        shutil.rmtree(t, ignore_errors=True)
        shutil.copytree(d, t)
        os.makedirs(os.path.join(t, 'hidden'))
        for h in hide:
            os.rename(os.path.join(t, h + '.class'), os.path.join(t, 'hidden', h + '.class'))
        d = t
    exe = vm(process)
    try:
        p = subprocess.run([exe, '-Xmx128m', '-cp', d, name] + list(args), capture_output=True, timeout=timeout, preexec_fn=limits,
                           cwd=d, env={'PATH': '/usr/bin:/bin', 'LC_ALL': 'C.UTF-8'})
        rc, out, err = p.returncode, p.stdout.decode('latin-1'), p.stderr.decode('latin-1')
    except subprocess.TimeoutExpired as e:
        rc, out, err = 'timeout', (e.stdout or b'').decode('latin-1'), ''
    bad = [l[4:] for l in out.split('\n') if l.startswith('BAD ')]
    if 'DONE' not in out:
        bad.append('the virtual machine did not finish (exit %s): %s' % (rc, (out[-200:] + err[-300:]).strip()))
    return bad

def link_cases(process):
    """specs/java/LinkCases.java against the changed classes of specs/java/alt, present from the start or only later"""
    out = []
    d = javac(os.path.join(build.VERIF, 'specs', 'java', 'LinkCases.java'))
    alt = os.path.join(build.VERIF, 'specs', 'java', 'alt')
    exe = vm(process)
    for late in (False, True):
        t = os.path.join(build.workdir(), 'link-%d-%d' % (late, os.getpid()))
        shutil.rmtree(t, ignore_errors=True)
        os.makedirs(os.path.join(t, 'hidden'))
        shutil.copy(os.path.join(d, 'LinkCases.class'), t)
        p = subprocess.run([os.path.join(build.JH, 'bin', 'javac'), '-nowarn', '-source', '1.7', '-target', '1.7', '-d', os.path.join(t, 'hidden') if late else t] +
                           [os.path.join(alt, f) for f in sorted(os.listdir(alt)) if f.startswith('Link')], capture_output=True, text=True, errors='replace')
        if p.returncode: raise build.BuildError('javac: ' + p.stderr[-800:])
        try:
            p = subprocess.run([exe, '-Xmx128m', '-cp', t, 'LinkCases'] + (['lazy'] if late else []), capture_output=True, timeout=60, preexec_fn=limits, cwd=t,
                               env={'PATH': '/usr/bin:/bin', 'LC_ALL': 'C.UTF-8'})
            o, rc = p.stdout.decode('latin-1'), p.returncode
        except subprocess.TimeoutExpired:
            o, rc = '', 'timeout'
        out += ['%s (%s): %s' % ('LinkCases', 'classes appear after compilation' if late else 'eager', l[4:]) for l in o.split('\n') if l.startswith('BAD ')]
        if 'DONE' not in o: out.append('LinkCases (%s): the virtual machine did not finish (exit %s)' % ('late' if late else 'eager', rc))
    return out

def native(name, text, flags=()):
    """compile a small C++ file (it #includes real sources) into a shared object; used for replay only"""
    so = os.path.join(build.workdir(), name + '-%d.so' % os.getpid())
    src = so[:-3] + '.cpp'
    with open(src, 'w') as f:
        f.write(text)
    p = subprocess.run(['clang++', '-x', 'c++', '-std=c++11', '-O2', '-w', '-fPIC', '-shared', '-fno-rtti', '-fno-exceptions', '-o', so, src] + list(flags),
                       capture_output=True, text=True, errors='replace')
    if p.returncode:
        raise build.BuildError('replay harness: ' + p.stderr[-2000:])
    return so

def jni_lib(name):
    """shared library of specs/jni/<name>.cpp"""
    so = os.path.join(build.workdir(), 'lib%s.so' % name)
    if not os.path.exists(so):
        t = so + '.tmp%d' % os.getpid()
        p = subprocess.run(['g++', '-O1', '-shared', '-fPIC', '-w', '-I' + os.path.join(build.JH, 'include'), '-I' + os.path.join(build.JH, 'include', 'linux'),
                            '-o', t, os.path.join(build.VERIF, 'specs', 'jni', name + '.cpp')], capture_output=True, text=True, errors='replace')
        if p.returncode: raise build.BuildError('JNI library: ' + p.stderr[-1500:])
        os.rename(t, so)
    return so

def jni_cases(mode, processes=('interpret', 'compile')):
    """specs/java/JniCases.java and its native half on both virtual machines"""
    out = []
    for p in processes:
        out += [{'text': '%s virtual machine, specs/java/JniCases.java %s: %s' % (p, mode, b), 'key': None} for b in java_cases('JniCases', p, args=[jni_lib('jnicases'), mode])]
    return out
