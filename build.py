"""Builds the code under test (from /repo's working tree) together with a harness.

Every object is compiled from the current sources. An object is reused from /verif/.cache only when
its compiler flags and the *contents* of all files it was compiled from are unchanged."""
import concurrent.futures, hashlib, json, os, re, subprocess, sys, threading

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('MC_REPO', '/repo')
CACHE = os.path.join(VERIF, '.cache')
JOBS = os.cpu_count() or 8

DEFINES = ['-DHAVE_LIBNUMA', '-DPOCO_ENABLE_CPP11', '-DPOCO_ENABLE_CPP14', '-DPOCO_HAVE_FD_EPOLL', '-DPOCO_OS_FAMILY_UNIX',
           '-DPOCO_UNBUNDLED', '-DPOTHOS_DLL_EXPORTS', '-DPOTHOS_LIBRARY_NAME="libPothos.so.0.8.0"', '-D_FILE_OFFSET_BITS=64',
           '-D_LARGEFILE64_SOURCE', '-D_REENTRANT', '-D_THREAD_SAFE', '-D_XOPEN_SOURCE=500']
VARIANTS = {
    # sequential exploration, memory errors detected
    'asan': dict(cxx=['-O1', '-g1', '-DNDEBUG', '-fsanitize=address', '-fno-omit-frame-pointer'], link=['-fsanitize=address', '-no-pie', '-rdynamic'], rt=False),
    # sequential exploration
    'plain': dict(cxx=['-O1', '-g1', '-DNDEBUG'], link=['-no-pie', '-rdynamic'], rt=False),
    # threads under the controlled scheduler: accesses instrumented, the run-time is engine/mcrt.cpp
    'mc': dict(cxx=['-O1', '-g1', '-DNDEBUG', '-fsanitize=thread', '-fno-pie'],
               link=['-no-pie', '-rdynamic', '-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset'], rt=True),
}
LIBS = ['-lPocoUtil', '-lPocoXML', '-lPocoNet', '-lPocoJSON', '-lPocoFoundation', '-lmuparserx', '-lnuma', '-latomic', '-lpthread', '-ldl', '-lrt']
POCO_VERSIONED = True

SUBST = {'MODULE_EXT': 'so', 'POTHOS_ROOT_ENV': 'POTHOS_ROOT', 'POTHOS_ROOT': '/nonexistent/pothos', 'CMAKE_INSTALL_DATADIR': 'share',
         'CMAKE_INSTALL_BINDIR': 'bin', 'CMAKE_INSTALL_LIBDIR': 'lib', 'CMAKE_INSTALL_INCLUDEDIR': 'include', 'APPDATA_ENV': 'APPDATA',
         'POTHOS_VERSION': '0.8.0-local', 'CMAKE_CXX_COMPILER': '/usr/bin/g++', 'CMAKE_OSX_SYSROOT': ''}

class BuildError(Exception): pass

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str): p = p.encode()
        h.update(p); h.update(b'\0')
    return h.hexdigest()

_fh = {}
_fhl = threading.Lock()
def filehash(path):
    with _fhl:
        if path in _fh: return _fh[path]
    try:
        with open(path, 'rb') as f: v = hashlib.sha256(f.read()).hexdigest()
    except OSError: v = 'missing'
    with _fhl: _fh[path] = v
    return v

def write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        with open(path) as f:
            if f.read() == text: return
    except OSError: pass
    tmp = path + '.tmp%d' % os.getpid()
    with open(tmp, 'w') as f: f.write(text)
    os.replace(tmp, path)

def configured(path):
    rel = os.path.relpath(path, REPO)
    out = os.path.join(CACHE, 'gen', rel.replace('.in.cpp', '.cpp'))
    text = open(path).read()
    text = re.sub(r'@(\w+)@', lambda m: SUBST.get(m.group(1), ''), text)
    text = re.sub(r'#cmakedefine\s+(\w+)', r'/* #undef \1 */', text)
    write_if_changed(out, text)
    return out

EXCLUDE = re.compile(r'(^|/)Test(?!ing\.cpp|ing/)|/Tests?[A-Z]?[^/]*/|Windows|Apple|OSX|BSD|(^|/)SIMD|NumaInfoOther|Msvc')
def lib_sources(exclude=None):
    out = []
    top = os.path.join(REPO, 'lib')
    for d, dirs, files in os.walk(top):
        dirs.sort()
        for f in sorted(files):
            if not f.endswith('.cpp'): continue
            p = os.path.join(d, f); rel = os.path.relpath(p, top)
            if EXCLUDE.search(rel): continue
            if exclude and re.search(exclude, rel): continue
            out.append(p)
    return out

INCLUDES = ['-I%s/lib' % REPO, '-I%s/include' % REPO, '-I/usr/include/muparserx', '-I/usr/include/nlohmann', '-I%s/libsimdpp' % REPO]
SIMDWEAK = os.path.join(VERIF, 'engine', 'simd-weak.hpp')

def lib_flags(variant):
    return ['-std=gnu++14', '-fno-pic', '-fno-pie', '-w'] + VARIANTS[variant]['cxx'] + ['-include', SIMDWEAK] + DEFINES + INCLUDES

def compile_one(src, flags, cxx='g++'):
    """returns the object path"""
    incdir = ['-I' + os.path.dirname(src)]
    # a configured source includes files relative to its original folder
    gen = os.path.join(CACHE, 'gen') + os.sep
    if src.startswith(gen): incdir = ['-I' + os.path.join(REPO, os.path.dirname(os.path.relpath(src, gen)))]
    key = sha(cxx, ' '.join(flags), src)
    man = os.path.join(CACHE, 'man', key)
    try:
        with open(man) as f: deps = json.load(f)
        okey = sha(key, *[d + '=' + filehash(d) for d in deps])
        obj = os.path.join(CACHE, 'obj', okey + '.o')
        if os.path.exists(obj): return obj
    except (OSError, ValueError): pass
    os.makedirs(os.path.join(CACHE, 'obj'), exist_ok=True); os.makedirs(os.path.join(CACHE, 'man'), exist_ok=True)
    tmp = os.path.join(CACHE, 'obj', 'tmp-%d-%d-%s' % (os.getpid(), threading.get_ident(), key[:12]))
    cmd = [cxx] + flags + incdir + ['-MD', '-MF', tmp + '.d', '-c', src, '-o', tmp + '.o']
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        for e in ('.d', '.o'):
            if os.path.exists(tmp + e): os.unlink(tmp + e)
        raise BuildError('compiling %s failed:\n%s' % (src, r.stdout.decode(errors='replace')[-4000:]))
    text = open(tmp + '.d').read().replace('\\\n', ' ')
    deps = sorted(set(text.split(':', 1)[1].split()))
    deps = [d for d in deps if d]
    os.unlink(tmp + '.d')
    okey = sha(key, *[d + '=' + filehash(d) for d in deps])
    obj = os.path.join(CACHE, 'obj', okey + '.o')
    os.replace(tmp + '.o', obj)
    with open(man + '.tmp%d' % threading.get_ident(), 'w') as f: json.dump(deps, f)
    os.replace(man + '.tmp%d' % threading.get_ident(), man)
    return obj

def engine_flags(): return ['-std=gnu++17', '-O2', '-g1', '-Wall', '-fno-pie', '-I' + os.path.join(VERIF, 'engine')]

def poco_libs():
    import glob
    out = []
    for l in LIBS:
        if l.startswith('-lPoco'):
            g = sorted(glob.glob('/usr/lib/x86_64-linux-gnu/lib%s.so*' % l[2:]))
            if g: out.append(g[0]); continue
        out.append(l)
    return out

def cleanup(limit=6 << 30):
    """keep the cache small: drop the least recently used objects"""
    d = os.path.join(CACHE, 'obj')
    try: fs = [(os.stat(os.path.join(d, f)).st_atime, os.path.join(d, f)) for f in os.listdir(d)]
    except OSError: return
    total = sum(os.path.getsize(p) for _, p in fs)
    for _, p in sorted(fs):
        if total < limit: break
        total -= os.path.getsize(p); os.unlink(p)

def build(name, harness, variant, exclude=None, extra_flags=(), extra_link=(), extra_sources=()):
    """compile library, harness and engine; returns the executable"""
    v = VARIANTS[variant]
    jobs = []
    for s in (lib_sources(exclude) if exclude != '.' else []):
        if s.endswith('.in.cpp'): s = configured(s)
        jobs.append((s, lib_flags(variant), 'g++', os.path.getsize(s)))
    hf = ['-fno-access-control', '-I' + os.path.join(VERIF, 'engine'), '-I' + os.path.join(VERIF, 'harness')] + list(extra_flags)
    for h in harness: jobs.append((os.path.join(VERIF, 'harness', h), lib_flags(variant) + hf, 'g++', 10**9))
    for s in extra_sources: jobs.append((s, lib_flags(variant) + list(extra_flags), 'g++', 10**6))
    ef = engine_flags()
    jobs.append((os.path.join(VERIF, 'engine', 'mc.cpp'), ef, 'g++', 10**8))
    if v['rt']: jobs.append((os.path.join(VERIF, 'engine', 'mcrt.cpp'), ef, 'g++', 10**8))
    jobs.sort(key=lambda j: -(10**6 if 'TestingConvert' in j[0] else j[3]))
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        def one(src, flags, cxx):
            try: return compile_one(src, flags, cxx)
            except BuildError:
                # internals that a harness only uses to recognise equal states may be gone: explore without
                if not src.startswith(os.path.join(VERIF, 'harness')): raise
                return compile_one(src, flags + ['-DMC_NO_PEEK'], cxx)
        futs = [ex.submit(one, s, f, c) for s, f, c, _ in jobs]
        objs = []
        err = None
        for f in futs:
            try: objs.append(f.result())
            except BuildError as e: err = err or e
        if err: raise err
    os.makedirs(os.path.join(VERIF, '.build'), exist_ok=True)
    exe = os.path.join(VERIF, '.build', name)
    lkey = sha('\n'.join(objs), ' '.join(extra_link), ' '.join(v['link']))
    try:
        if os.path.exists(exe) and open(exe + '.key').read() == lkey: return exe
    except OSError: pass
    rsp = exe + '.rsp'
    with open(rsp, 'w') as f: f.write('\n'.join(objs))
    link = list(v['link'])
    # sources left out of this build: references to them stay unresolved (calling one would crash, and
    # a violation found in such a build is only reported when the complete build shows it as well)
    if exclude and exclude != '.': link += ['-Wl,--unresolved-symbols=ignore-all', '-Wl,-z,lazy']
    cmd = ['g++', '-o', exe] + link + ['@' + rsp] + list(extra_link) + poco_libs()
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        if exclude and exclude != '.': return build(name, harness, variant, None, extra_flags, extra_link, extra_sources)
        raise BuildError('linking %s failed:\n%s' % (name, r.stdout.decode(errors='replace')[-6000:]))
    with open(exe + '.key', 'w') as f: f.write(lkey)
    return exe
