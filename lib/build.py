"""Builds of the library under test from /repo's working tree, cached by content."""
import os, re, glob, hashlib, subprocess, shutil, tempfile, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
CACHE = os.environ.get('VP_BUILD', os.path.join(VERIF, '.build'))
INC = ['include', 'modules/collections/include', 'modules/utils/include']

class BuildError(Exception): pass

def lib_sources(cpp=False):
    pats = ['src/*.c', 'modules/collections/src/*.c', 'modules/utils/src/*.c']
    if cpp: pats += ['src/*.cpp', 'modules/collections/src/*.cpp', 'modules/utils/src/*.cpp']
    out = []
    for p in pats: out += sorted(glob.glob(os.path.join(REPO, p)))
    return out

def all_inputs():
    out = lib_sources(True) + [os.path.join(REPO, 'config.h.in'), os.path.join(REPO, 'CMakeLists.txt')]
    for d in INC + ['src', 'modules/collections/src', 'modules/utils/src', 'modules/python/src', 'modules/java/src']:
        for r, _, fs in os.walk(os.path.join(REPO, d)):
            out += [os.path.join(r, f) for f in sorted(fs)]
    return sorted(set(out))

def digest(extra=()):
    h = hashlib.sha256()
    for f in all_inputs():
        h.update(f.encode()); h.update(open(f, 'rb').read())
    for f in sorted(glob.glob(os.path.join(VERIF, 'harness', '*')) + glob.glob(os.path.join(VERIF, 'harness', '*', '*')) + glob.glob(os.path.join(VERIF, 'lib', 'build.py'))):
        if os.path.isfile(f): h.update(f.encode()); h.update(open(f, 'rb').read())
    for e in extra: h.update(repr(e).encode())
    return h.hexdigest()[:24]

def write_config(d, label='unsigned int', dist='double', index='unsigned int'):
    txt = open(os.path.join(REPO, 'config.h.in')).read()
    txt = re.sub(r'#cmakedefine\s+(\w+)', r'/* #undef \1 */', txt)
    m = {'LABEL_TYPE': label, 'DISTANCE_TYPE': dist, 'INDEX_TYPE': index,
         'D_MAX': 'DBL_MAX' if dist == 'double' else 'FLT_MAX', 'D_MIN': 'DBL_MIN' if dist == 'double' else 'FLT_MIN',
         'HDBSCAN_MAJOR_VERSION': '5', 'HDBSCAN_MINOR_VERSION': '1', 'HDBSCAN_PATCH_VERSION': '2', 'HDBSCAN_VERSION': '5.1.2'}
    txt = re.sub(r'@(\w+)@', lambda k: m.get(k.group(1), '0'), txt)
    open(os.path.join(d, 'config.h'), 'w').write(txt)

BASE = ['-g', '-O2', '-fopenmp', '-fno-omit-frame-pointer', '-fPIC', '-w', '-ftrivial-auto-var-init=pattern']
WRAP = ['-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free']

def run(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError('command failed: %s\n%s' % (' '.join(cmd), p.stdout[-4000:]))
    return p.stdout

def cached(name, key, make):
    """make(dir) fills dir; the result is published atomically."""
    os.makedirs(CACHE, exist_ok=True)
    dst = os.path.join(CACHE, '%s-%s' % (name, digest(key)))
    if os.path.isdir(dst): return dst
    tmp = tempfile.mkdtemp(prefix='b.', dir=CACHE)
    try:
        make(tmp)
        try: os.rename(tmp, dst)
        except OSError:
            if not os.path.isdir(dst): raise
    finally:
        if os.path.isdir(tmp): shutil.rmtree(tmp, ignore_errors=True)
    # drop results of older contents
    olds = sorted(glob.glob(os.path.join(CACHE, name + '-*')), key=os.path.getmtime)
    for o in olds[:-60]:
        if o != dst: shutil.rmtree(o, ignore_errors=True)
    return dst

def compile_objs(d, srcs, flags, cc='gcc', cxx='g++', tag='o'):
    procs = []; objs = []
    for i, s in enumerate(srcs):
        o = os.path.join(d, '%s%02d_%s.o' % (tag, i, os.path.basename(s).replace('.', '_')))
        comp = [cxx, '-std=gnu++11'] if s.endswith('.cpp') else [cc]
        cmd = comp + flags + ['-I' + d] + ['-I' + os.path.join(REPO, x) for x in INC] + ['-I' + os.path.join(VERIF, 'harness'), '-c', s, '-o', o]
        procs.append((cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))); objs.append(o)
        if len(procs) >= 12:
            c, p = procs.pop(0); out = p.communicate()[0]
            if p.returncode: raise BuildError('%s\n%s' % (' '.join(c), out[-3000:]))
    for c, p in procs:
        out = p.communicate()[0]
        if p.returncode: raise BuildError('%s\n%s' % (' '.join(c), out[-3000:]))
    return objs

def inline_tu(d):
    """definitions of the functions that headers declare inline only"""
    f = os.path.join(d, 'inl.c'); t = ''
    for h in [x for i in INC for x in sorted(glob.glob(os.path.join(REPO, i, '*', '*.h')))]:
        for m in re.finditer(r'^inline\s+(\w[\w\s*]*?\w+\s*\([^)]*\))\s*\{', open(h).read(), re.M):
            t += '#include "%s/%s"\nextern inline %s;\n' % (os.path.basename(os.path.dirname(h)), os.path.basename(h), m.group(1))
    open(f, 'w').write(t + '\n')
    return f

def hx(label='unsigned int', dist='double', index='unsigned int', san=None, opt=None, extra=(), cpp=False):
    """The scenario interpreter linked with the library."""
    key = ('hx', label, dist, index, san, opt, tuple(extra), cpp)
    def make(d):
        write_config(d, label, dist, index)
        flags = list(BASE)
        if opt: flags.append(opt)
        flags += list(extra)
        srcs = lib_sources(cpp) + [inline_tu(d)]
        ld = 'gcc'
        if cpp: srcs.append(os.path.join(VERIF, 'harness', 'hxx.cpp')); flags.append('-DHX_CPP'); ld = 'g++'
        if san == 'prt':      # schedules under control, accesses recorded: harness/prt.c instead of libgomp and libtsan
            lf = ['-g', '-O1', '-fopenmp', '-fsanitize=thread', '-fno-builtin', '-U_FORTIFY_SOURCE', '-fno-omit-frame-pointer', '-fPIC', '-w', '-ftrivial-auto-var-init=pattern'] + list(extra)
            hf = ['-g', '-O2', '-w', '-U_FORTIFY_SOURCE', '-DHX_PRT']
            h = [os.path.join(VERIF, 'harness', x) for x in ('hx.c', 'vmem.c', 'prt.c') + (('hxx.cpp',) if cpp else ())]
            if cpp: srcs = srcs[:-1]; hf.append('-DHX_CPP')
            objs = compile_objs(d, srcs, lf) + compile_objs(d, h, hf, tag='h')
            run([ld, '-g'] + objs + WRAP + ['-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=qsort', '-lm', '-lpthread', '-o', os.path.join(d, 'hx')])
        elif san == 'asan':
            flags = [f for f in flags if not f.startswith('-ftrivial') and f not in ('-O2', '-fopenmp')] + ['-O1', '-I' + os.path.join(VERIF, 'harness', 'noomp')] + ['-fsanitize=address,undefined', '-fno-sanitize=float-divide-by-zero,alignment', '-fsanitize=float-cast-overflow', '-fno-sanitize-recover=undefined,float-cast-overflow']
            objs = compile_objs(d, srcs + [os.path.join(VERIF, 'harness', 'hx.c'), os.path.join(VERIF, 'harness', 'vmem_asan.c')], flags)
            run([ld] + flags + objs + ['-lm', '-o', os.path.join(d, 'hx')])
        elif san == 'msan':
            flags = [f for f in flags if not f.startswith('-ftrivial') and f not in ('-O2', '-fopenmp')] + ['-O1', '-fsanitize=memory', '-fno-sanitize-recover=memory']
            objs = compile_objs(d, srcs + [os.path.join(VERIF, 'harness', 'hx.c'), os.path.join(VERIF, 'harness', 'vmem_asan.c')], flags, cc='clang')
            run(['clang'] + flags + objs + ['-lm', '-o', os.path.join(d, 'hx')])
        else:
            objs = compile_objs(d, srcs + [os.path.join(VERIF, 'harness', 'hx.c'), os.path.join(VERIF, 'harness', 'vmem.c')], flags)
            run([ld] + flags + objs + WRAP + ['-lm', '-lpthread', '-o', os.path.join(d, 'hx')])
        for o in glob.glob(os.path.join(d, '*.o')): os.unlink(o)
    return os.path.join(cached('hx', key, make), 'hx')

def hx_if(**kw):
    """the same, or None where the ordinary compiler builds the library and the special one can not"""
    try: return hx(**kw)
    except BuildError as e:
        hx(cpp=kw.get('cpp', False)); sys.stderr.write('left out: %s build: %s\n' % (kw.get('san'), str(e)[-300:]))
        return None

def line(index):
    """the driver for points in large numbers, with small distances"""
    def make(d):
        write_config(d, dist='float', index=index)
        objs = compile_objs(d, lib_sources() + [inline_tu(d), os.path.join(VERIF, 'harness', 'line.c')], [x for x in BASE if not x.startswith('-ftrivial')])
        run(['gcc'] + objs + ['-fopenmp', '-lm', '-o', os.path.join(d, 'line')])
        for o in glob.glob(os.path.join(d, '*.o')): os.unlink(o)
    return os.path.join(cached('line', ('line', index), make), 'line')

NP_INC = '/usr/lib/python3/dist-packages/numpy/core/include'
def pymod():
    """the Python module with the checking allocator; returns its directory"""
    def make(d):
        write_config(d)
        srcs = lib_sources() + [inline_tu(d), os.path.join(REPO, 'modules/python/src/PyHdbscan.c'), os.path.join(VERIF, 'harness', 'vmem.c')]
        objs = compile_objs(d, srcs, BASE + ['-I/usr/include/python3.12', '-I' + NP_INC])
        run(['gcc', '-shared'] + objs + WRAP + ['-fopenmp', '-lm', '-lpthread', '-o', os.path.join(d, 'PyHdbscan.so')])
        for o in glob.glob(os.path.join(d, '*.o')): os.unlink(o)
    return cached('py', ('py',), make)

JAVA_HOME = '/usr/lib/jvm/java-17-openjdk-amd64'
def javamod():
    """the Java class, its native library with the checking allocator, and the driver; returns their directory"""
    def make(d):
        write_config(d)
        srcs = lib_sources(True) + [inline_tu(d), os.path.join(REPO, 'modules/java/src/Hdbscan.cpp')] + [os.path.join(VERIF, 'harness', x) for x in ('vmem.c', 'jvm.cpp')]
        objs = compile_objs(d, srcs, BASE + ['-I' + JAVA_HOME + '/include', '-I' + JAVA_HOME + '/include/linux'])
        run(['g++', '-shared'] + objs + WRAP + ['-Wl,-Bsymbolic', '-fopenmp', '-lm', '-lpthread', '-o', os.path.join(d, 'libhdbscan_java.so')])
        for o in glob.glob(os.path.join(d, '*.o')): os.unlink(o)
        run([JAVA_HOME + '/bin/javac', '-d', d, os.path.join(REPO, 'modules/java/src/bw/co/roguesystems/Hdbscan.java'), os.path.join(VERIF, 'harness', 'BindMain.java')])
    return cached('java', ('java',), make)
