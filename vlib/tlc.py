"""Runs TLC on the specifications in /verif/spec from a scratch copy, and collects what they emit."""
import subprocess, os, shutil, json, re, tempfile, concurrent.futures as cf, time

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), 'spec')
JAR = '/opt/veriftools/tla/tla2tools.jar'


class TLCError(Exception):
    pass


def _classpath():
    d = os.path.dirname(JAR)
    jars = [os.path.join(d, j) for j in sorted(os.listdir(d)) if j.endswith('.jar')]
    return ':'.join(jars)


def cfg_text(consts, invariants=(), properties=(), spec='Spec', postcondition=None, constraint=None, deadlock=False, extra=''):
    def v(x):
        if isinstance(x, bool):
            return 'TRUE' if x else 'FALSE'
        if isinstance(x, str):
            return '"%s"' % x
        if isinstance(x, (set, frozenset)):
            return '{%s}' % ', '.join(sorted(v(y) for y in x))
        return str(x)
    out = []
    if consts:
        out.append('CONSTANTS')
        out += ['  %s = %s' % (k, v(x)) for k, x in consts.items()]
    out.append('SPECIFICATION %s' % spec)
    if invariants:
        out.append('INVARIANTS ' + ' '.join(invariants))
    if properties:
        out.append('PROPERTIES ' + ' '.join(properties))
    if postcondition:
        out.append('POSTCONDITION %s' % postcondition)
    if constraint:
        out.append('CONSTRAINT %s' % constraint)
    out.append('CHECK_DEADLOCK %s' % ('TRUE' if deadlock else 'FALSE'))
    return '\n'.join(out) + '\n' + extra + '\n'


def run(module, cfg, args=(), timeout=600, heap='2g', tag='HIST', files=None, env=None, workers=1):
    """Run TLC.  Returns dict(hists, states, distinct, out, ok, wall).  files: {name: text} added to the scratch dir."""
    d = tempfile.mkdtemp(prefix='tlc_')
    t0 = time.time()
    try:
        for f in os.listdir(SPEC):
            if f.endswith('.tla'):
                shutil.copy(os.path.join(SPEC, f), d)
        with open(os.path.join(d, 'M.cfg'), 'w') as f:
            f.write(cfg)
        for k, t in (files or {}).items():
            with open(os.path.join(d, k), 'w') as f:
                f.write(t)
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss16m', '-cp', _classpath(), 'tlc2.TLC', '-config', 'M.cfg', '-workers', str(workers),
               '-metadir', os.path.join(d, 'states'), '-noGenerateSpecTE'] + list(args) + [module + '.tla']
        p = subprocess.Popen(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace',
                             env=dict(os.environ, **(env or {})))
        try:
            out, _ = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            out, _ = p.communicate()
            out += '\nTIMEOUT'
    finally:
        shutil.rmtree(d, ignore_errors=True)
    hists = []
    rest = []
    for l in out.split('\n'):
        if l.startswith('"' + tag + ' '):
            hists.append(json.loads(json.loads(l)[len(tag) + 1:]))
        else:
            rest.append(l)
    rest = '\n'.join(rest)
    states = distinct = 0
    m = re.search(r'(\d+) states generated, (\d+) distinct', rest)
    if m:
        states, distinct = int(m.group(1)), int(m.group(2))
    m = re.search(r'The number of states generated: (\d+)', rest)
    if m:
        states = distinct = int(m.group(1))
    ok = p.returncode == 0 and 'Error:' not in rest
    return dict(hists=hists, states=states, distinct=distinct, out=rest, ok=ok, rc=p.returncode, wall=time.time() - t0)


def simulate(module, consts, num, depth, seed, procs=8, invariants=('Emit',), timeout=600, tag='HIST', files=None):
    """num behaviours in total from procs TLC processes with different seeds."""
    per = (num + procs - 1) // procs

    def one(i):
        c = dict(consts)
        return run(module, cfg_text(c, invariants), ['-simulate', 'num=%d' % per, '-depth', str(depth), '-seed', str(seed * 1000 + i)],
                   timeout=timeout, tag=tag, files=files)
    with cf.ThreadPoolExecutor(max_workers=procs) as ex:
        rs = list(ex.map(one, range(procs)))
    for r in rs:
        if not r['ok']:
            raise TLCError(r['out'][-3000:])
    return dict(hists=[h for r in rs for h in r['hists']], states=sum(r['states'] for r in rs), wall=max(r['wall'] for r in rs))


def bfs(module, consts, invariants=(), properties=(), workers=4, timeout=800, heap='6g', tag='HIST', **kw):
    r = run(module, cfg_text(consts, invariants, properties, **kw), timeout=timeout, heap=heap, workers=workers, tag=tag)
    if not r['ok']:
        raise TLCError(r['out'][-3000:])
    return r
