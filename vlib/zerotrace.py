"""Recorded zero-dimensional solves as traces for ZeroTrace: the tracks made, and the metadata."""
import hashlib, json, math, time
from num import *
from tracedrv import validate as _validate
from zerodrv import TB, mod, pts, dist2
import tlc

EPS = Decimal(10) ** -12


def reals(s):
    return parse(s)


def same(p, q):
    return len(p) == len(q) and all(mod(csub(a, b)) <= EPS * (1 + mod(b)) for a, b in zip(p, q))


def norm(p):
    return max(mod(z) for z in p)


class Track:
    def __init__(self, t):
        f = t.split('|')
        self.t0, self.t1, self.x0, self.tol, self.h = parse(f[0]), parse(f[1]), pts(f[2]), Decimal(f[3]), Decimal(f[4])
        self.te, self.xe, self.hend = parse(f[5]), pts(f[6]), Decimal(f[8])
        q = f[7].split()            # changes on the way to the precision it starts in, "=" that, changes on the track
        z = [v[0] for v in q].index('=')
        self.early = [parse(v.split('@')[1]) for v in q[:z]]
        self.precs = [int(q[z][1:])] + [int(v.split('@')[0]) for v in q[z + 1:]]
        self.rises = [parse(v.split('@')[1]) for a, v, b in zip(self.precs, q[z + 1:], self.precs[1:]) if b > a]
        o = f[10].split()           # changes after the track: refining
        k = [self.precs[-1]] + [int(v.split('@')[0]) for v in o]
        self.rises += [parse(v.split('@')[1]) for a, v, b in zip(k, o, k[1:]) if b > a]
        self.top = max(self.precs + k)


def isat(t, v):
    return mod(csub(t, (Decimal(v.numerator) / Decimal(v.denominator), Decimal(0)))) < EPS


def convert(ctx, reply):
    """the trace of one solve; None where it cannot be told (points on the edge of looking crossed)"""
    if not reply.startswith('ok') or 'paths' not in ctx:
        return None
    s, P, n, amp = ctx['s'], ctx['paths'], ctx['n'], ctx['kind'] == 'amp'
    tb = TB[s['boundary']]
    mid = Decimal(10) ** -(ctx['prob']['tol'] if ctx['prob']['top'] == 'user' else 5)
    T = [Track(t) for t in reply[3:].split(';') if t.strip()]
    pre = [t for t in T if isat(t.t0, Fr(1))]
    k = len(pre)
    if any(a is not b for a, b in zip(T, pre)):
        return dict(c=dict(n=n, R=s['resolve'], same=[]), ev=[dict(n='mixed', what='a path is tracked to the boundary after an endgame')])
    starts = [t.x0 for t in pre[:n]]
    dup = [[i + 1, j + 1] for i in range(len(starts)) for j in range(i) if same(starts[i], starts[j])]
    if ctx['prob']['top'] == 'user':
        dup = [[i + 1, j + 1] for i in range(n) for j in range(i) if ctx['prob']['P'][i]['dup'] == ctx['prob']['P'][j]['dup']]
    before = Decimal(10) ** -s['before']
    h0 = Decimal(1) / (10 * s['step'])
    latest, ev, first, lasth = {}, [], {}, {}
    for j, t in enumerate(pre):
        ps = [i + 1 for i in range(len(starts)) if same(starts[i], t.x0)]
        if j < n:
            ps = [j + 1]
            if ctx['starts']:
                z = tuple(Decimal(v.numerator) / Decimal(v.denominator) for v in ctx['starts'][j])
                if not same(t.x0, [z]):
                    ps = []
        r = (before / t.tol).log10() / s['retrack']
        ok = isat(t.te, tb)
        near = []
        for q, x in latest.items():
            if q in ps and j < n:
                continue
            if ok and x is not None:
                d = max(mod(csub(a, b)) for a, b in zip(x, t.xe)) / norm(x if q < ps[0] else t.xe)
                if mid * Decimal('0.97') < d < mid * Decimal('1.03'):
                    return None
                if d < mid:
                    near.append(q)
        for q in ps:
            latest[q] = t.xe if ok else None
            lasth.setdefault(q, []).append(t.hend)
            first.setdefault(q, []).extend(t.early + t.rises[:1])
        if len(ps) > 1:
            near += [q for q in ps if q not in near]
        ri = int(r.to_integral_value())
        ev.append(dict(n='pre', ps=ps, r=ri if abs(r - ri) < Decimal('0.001') else -1, step=abs(t.h - h0) < EPS, ends=isat(t.t1, tb), ok=ok, near=near,
                       rise=0 if not amp else 1 if t.rises else 2 if t.early else 0, maxp=max(t.precs) if amp else 0))
    groups = []
    last = 0
    for t in T[k:]:
        ps = [i + 1 for i, p in enumerate(P) if isat(t.t0, tb) and same(p.b, t.x0)]
        nxt = [i for i in ps if i > last]
        if nxt or not groups:
            groups.append((ps, [t]))
            last = nxt[0] if nxt else last
        else:
            groups[-1][1].append(t)
    during = Decimal(10) ** -s['during']
    egfirst = {}
    for ps, ts in groups:
        t = ts[0]
        rises = [x for u in ts for x in u.rises]
        early = [x for u in ts for x in u.early]
        for q in ps:
            egfirst.setdefault(q, []).extend(early + rises[:1])
        ev.append(dict(n='eg', ps=ps, step=any(any(abs(t.h - v) <= EPS * t.h for v in lasth[q][-len(ps):]) and abs(Decimal(P[q - 1].bstep) - t.h) <= EPS * t.h for q in ps), ends=isat(t.t0, tb),
                       tol=all(abs(u.tol - during) < during * EPS for u in ts), rise=0 if not amp else 1 if rises else 2 if early else 0, maxp=max(u.top for u in ts) if amp else 0))
    for i, p in enumerate(P):
        tm = True
        if p.changed:
            c = first.get(i + 1, []) + egfirst.get(i + 1, [])
            tm = any(mod(csub(parse(p.tfirst), v)) < EPS for v in c)
        ev.append(dict(n='meta', p=i + 1, pre=p.pre == 'Success', changed=bool(p.changed), time=tm, maxp=p.maxprec if amp else 0))
    return dict(c=dict(n=n, R=s['resolve'], same=dup), ev=ev)


def validate(traces, procs=8):
    return _validate(traces, procs, 500, 'ZeroTrace', {})


def traces(hists, cases, replies):
    out = []
    for h, c, r in zip(hists, cases, replies):
        for j, ctx in enumerate(c.solves):
            if ctx['id'] < len(r):
                t = convert(ctx, r[ctx['id']])
                if t:
                    out.append((h, j, t))
    return out


def text(t, rep):
    e = rep['ev']
    return 'track %d "%s" is not allowed after "%s" (state %s, event %s, settings %s)' % (rep['at'], e['n'], rep['ph'], rep['s'], {k: v for k, v in e.items() if k != 'n'}, t['c'])


def redo(h, j, exe):
    import harness, zerodrv
    c = zerodrv.Case(h)
    r = harness.run_cases(exe, [c.cmds], timeout=zerodrv.TIMEOUT)
    c.judge(r[0])
    got = [g for g in traces([h], [c], r) if g[1] == j]
    if not got:
        return None
    b = validate([got[0][2]], procs=1)[0]
    return (text(got[0][2], b[0][1]), got[0][2]['ev'][:b[0][1]['at']][-20:]) if b else None


MODELS = [(1, 2, ()), (2, 2, ()), (3, 2, ()), (3, 2, ((1, 2),)), (3, 3, ((2, 3),)), (4, 1, ((1, 3),))]
DEEP = [(4, 2, ()), (4, 2, ((1, 2), (3, 4)))]


def model(run):
    n = 0
    for k, r, sm in MODELS + (DEEP if run.thorough else []):
        x = tlc.bfs('ZeroModel', dict(N=k, R=r, Same=frozenset(frozenset(q) for q in sm)), ('Bounds', 'Tracked', 'EndOnlyGood', 'AllRun', 'Tried', 'NotStuck'), ('OnlyCrossed', 'Ends'), workers=8, timeout=800, spec='MSpec')
        n += x['distinct']
        run.states += x['distinct']
        run.transitions += x['states']
        run.stages.append(dict(stage='the course of a solve: %d paths, %d attempts, same starts %s' % (k, r, list(sm)), kind='exhaustive', exhaustive=True, spec_states=x['distinct'], tlc_s=round(x['wall'], 1)))
    print('%s the course of a solve: %d states, invariants and liveness hold' % (run.prop, n), flush=True)


def stage(run, name, got):
    """got: what engine.replay gave"""
    t0 = time.time()
    tr = traces(*got)
    bad, states, wall = validate([t for _, _, t in tr])
    for i, rep in bad[:20]:
        h, j, t = tr[i]
        again = redo(h, j, run.exes['zerorep'])
        if again:
            run.violation(name, dict(kind='trace', driver='zerotrace', hist=h, index=j), again[0], events=again[1])
        else:
            run.unconfirmed += 1
    n = sum(len(t['ev']) for _, _, t in tr)
    run.states += states
    run.transitions += states
    run.evaluations += n
    run.distinct |= {hashlib.sha1(json.dumps(t['ev']).encode()).digest() for _, _, t in tr}
    again = sum(1 for _, _, t in tr if any(e['n'] == 'pre' and e['r'] for e in t['ev']))
    rise = sum(1 for _, _, t in tr if any(e.get('rise') == 1 for e in t['ev']))
    run.stages.append(dict(stage=name, kind='trace validation', solves=len(tr), with_reruns=again, with_higher_precision=rise, events=n, failing=len(bad), tlc_s=round(wall, 1), wall_s=round(time.time() - t0, 1)))
    print('%s %s: %d solves (%d with paths run again, %d with higher precision), %d events, %d rejected (%.1f s)' % (run.prop, name, len(tr), again, rise, n, len(bad), time.time() - t0), flush=True)


def recheck(data):
    import build as _b
    again = redo(data['hist'], data['index'], _b.build(['zerorep'])['zerorep'])
    return again[0] if again else None
