"""Content-hash incremental builder.

Objects live in /verif/build/obj and are reused only when the hash of the compile
command, the source text and every /repo and /verif header it included is the same.
mtime is never looked at, so it is right in any copy of the tree.
"""
import hashlib, json, os, subprocess, sys, concurrent.futures as cf, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
OBJ = os.path.join(BUILD, 'obj')
GEN = os.path.join(BUILD, 'gen')
INC = [GEN, REPO + '/core/include/bertini2', REPO + '/core/include', '/usr/include/eigen3', VERIF + '/harness']
CXX = 'g++'
# -O1: the harnesses run long enough for it to pay; asserts stay on as in the repository's build
FLAGS = ['-std=c++17', '-O1', '-g0', '-w', '-fno-var-tracking', '-DBOOST_LOG_DYN_LINK', '-DBOOST_ALL_DYN_LINK']
LIBS = ['-lboost_serialization', '-lboost_log', '-lboost_log_setup', '-lboost_thread', '-lboost_filesystem',
        '-lboost_system', '-lboost_regex', '-lboost_chrono', '-lboost_program_options', '-lboost_timer',
        '-lmpc', '-lmpfr', '-lgmp', '-lpthread']

CONFIG = '''#define BMP_EXPRESSION_TEMPLATES 1
#define HAVE_BOOST 1
#define HAVE_BOOST_LOG 1
#define HAVE_BOOST_SERIALIZATION 1
#define HAVE_CXX17 1
#define PACKAGE "b2"
#define PACKAGE_BUGREPORT "amethyst@uwec.edu"
#define PACKAGE_NAME "b2"
#define PACKAGE_STRING "b2 2.0-alpha8"
#define PACKAGE_TARNAME "b2"
#define PACKAGE_URL "http://github.com/bertiniteam/b2"
#define PACKAGE_VERSION "2.0-alpha8"
#define VERSION "2.0-alpha8"
'''


class BuildError(Exception):
    pass


def sha(path):
    try:
        with open(path, 'rb') as f:
            return hashlib.sha256(f.read()).hexdigest()
    except OSError:
        return None


_shacache = {}


def csha(path):
    if path not in _shacache:
        _shacache[path] = sha(path)
    return _shacache[path]


def lib_sources():
    out = []
    top = REPO + '/core/src'
    for d, _, fs in os.walk(top):
        rel = os.path.relpath(d, top)
        if rel.startswith('blackbox') or 'unity' in rel.split(os.sep):
            continue
        for f in sorted(fs):
            p = os.path.join(d, f)
            if not f.endswith('.cpp'):
                continue
            if os.path.relpath(p, top) == 'function_tree/special_number.cpp':
                continue      # stale file the repository itself does not compile
            out.append(p)
    return sorted(out)


def objpath(src, tag=''):
    n = src.replace(VERIF, 'V').replace(REPO, 'R').replace('/', '__')
    return os.path.join(OBJ, n + tag + '.o')


def compile_one(src, flags=(), tag=''):
    obj = objpath(src, tag)
    cmd = [CXX] + FLAGS + list(flags) + ['-I' + i for i in INC] + ['-c', src, '-o', obj]
    cmdh = hashlib.sha256(' '.join(cmd).encode()).hexdigest()
    meta = obj + '.json'
    if os.path.exists(obj) and os.path.exists(meta):
        try:
            m = json.load(open(meta))
            if m['cmd'] == cmdh and all(csha(p) == h for p, h in m['deps'].items()):
                return obj, False
        except Exception:
            pass
    dep = obj + '.d'
    for f in (obj, meta):
        if os.path.exists(f):
            os.unlink(f)
    r = subprocess.run(cmd + ['-MMD', '-MF', dep], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError('compile of %s failed:\n%s' % (src, r.stdout[-6000:]))
    txt = open(dep).read().replace('\\\n', ' ')
    files = [f for f in txt.split(':', 1)[1].split() if f.startswith(REPO) or f.startswith(VERIF)]
    json.dump({'cmd': cmdh, 'deps': {os.path.abspath(f): csha(os.path.abspath(f)) for f in files}}, open(meta, 'w'))
    os.unlink(dep)
    return obj, True


def prepare():
    os.makedirs(OBJ, exist_ok=True)
    d = os.path.join(GEN, 'bertini2')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, 'config.h')
    if not os.path.exists(p) or open(p).read() != CONFIG:
        open(p, 'w').write(CONFIG)


# harness name -> (source files under harness/, needs the library)
TARGETS = json.load(open(os.path.join(VERIF, 'harness', 'targets.json')))


def build(names):
    """Builds the named harness programs; returns {name: path}. Raises BuildError."""
    prepare()
    lock = open(os.path.join(BUILD, 'lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        jobs = []
        for n in names:
            for s in TARGETS[n]['src']:
                s = s.replace('@REPO@', REPO)
                jobs.append((s if s.startswith('/') else os.path.join(VERIF, 'harness', s),
                             tuple(TARGETS[n].get('flags', [])), TARGETS[n].get('tag', '')))
        lib = lib_sources()
        jobs += [(s, (), '') for s in lib]
        seen, uniq = set(), []
        for j in jobs:
            if j not in seen:
                seen.add(j)
                uniq.append(j)
        objs, changed = {}, set()
        with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
            futs = {ex.submit(compile_one, *j): j for j in uniq}
            for f in cf.as_completed(futs):
                o, ch = f.result()
                objs[futs[f]] = o
                if ch:
                    changed.add(o)
        libobjs = [objs[(s, (), '')] for s in lib]
        out = {}
        for n in names:
            t = TARGETS[n]
            mine = [objs[((s.replace('@REPO@', REPO) if s.startswith('@') else os.path.join(VERIF, 'harness', s)),
                          tuple(t.get('flags', [])), t.get('tag', ''))] for s in t['src']]
            exe = os.path.join(BUILD, n)
            inputs = mine + libobjs
            key = hashlib.sha256(''.join((sha(o) or '') for o in inputs).encode()).hexdigest()
            kf = exe + '.key'
            if not (os.path.exists(exe) and os.path.exists(kf) and open(kf).read() == key):
                cmd = [CXX, '-o', exe] + inputs + LIBS
                if os.path.exists('/usr/bin/ld.gold'):
                    cmd.insert(1, '-fuse-ld=gold')
                r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode:
                    raise BuildError('link of %s failed:\n%s' % (n, r.stdout[-6000:]))
                open(kf, 'w').write(key)
            out[n] = exe
        return out
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


if __name__ == '__main__':
    import time
    t = time.time()
    try:
        print(build(sys.argv[1:] or sorted(TARGETS)))
    except BuildError as e:
        print(e)
        sys.exit(2)
    print('%.1f s' % (time.time() - t))
