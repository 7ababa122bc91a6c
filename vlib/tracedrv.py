"""Recorded tracks as traces for TrackTrace: what the observers saw, in integers."""
import concurrent.futures as cf, json, multiprocessing
from num import *
import tlc

UNIT = 10 ** 9
LOG = 10 ** 5
BIG = 999


def digits(d):
    """-log10 of a difference"""
    if not d.is_finite():
        return -99
    if d == 0:
        return BIG
    return max(-99, min(BIG, int(-d.log10().to_integral_value(rounding='ROUND_CEILING'))))


def size(z):
    return max(abs(z[0]), abs(z[1]))


def agree(p, q):
    if p is None or q is None or len(p) != len(q):
        return -99
    sc = max([Decimal(1)] + [size(z) for z in q])
    if any(not z[0].is_finite() or not z[1].is_finite() for z in list(p) + list(q)):
        return -99
    return digits(max(size(csub(a, b)) for a, b in zip(p, q)) / sc)


def cdiv(a, b):
    n = b[0] * b[0] + b[1] * b[1]
    return (a[0] * b[0] + a[1] * b[1]) / n, (a[1] * b[0] - a[0] * b[1]) / n


def log2(x):
    return int(round(float(x.ln() / Decimal(2).ln()) * LOG)) if x > 0 else -10 ** 8


def exact(s, t):
    """the path at a time, None where it has none or is hard to follow"""
    if s['kind'] == 'branch':
        return [((t[0] - Decimal('0.5')).sqrt(), Decimal(0))] if t[0] > Decimal('0.501') and abs(t[1]) < Decimal('1e-12') else None
    if s['kind'] == 'pole':
        return [cdiv((Decimal(1), Decimal(0)), t)] if abs(t[0]) > Decimal('1e-9') else None
    out = []
    for c in s['p']:
        v = (Decimal(0), Decimal(0))
        for a in reversed(c):
            v = cadd(cdecs(a), cmul(t, v))
        out.append(v)
    return out


def affine(s, p):
    if not s['proj'] or p is None:
        return p
    if p[0] == (0, 0):
        return None
    return [cdiv(z, p[0]) for z in p[1:]]


def convert(item):
    """(entry, tracker, system, seen, reply) -> trace, or None when there is nothing to judge"""
    e, T, s, seen, reply = item
    if 'code' not in seen or not reply.startswith('ok '):
        return None
    c = e['c']
    t0, t1 = cdecs(e['t0']), cdecs(e['t1'])
    d = csub(t1, t0)
    ln = (d[0] * d[0] + d[1] * d[1]).sqrt()
    q = lambda v: dec(cval(v)[0])
    h0 = min(q(c['h']), ln / c['minsteps']) if T['reinit'] else dec(Fr(T['h']))
    rel = lambda x: x / ln
    lg = lambda x: log2(rel(x))
    lin = lambda x: int(min(Decimal(2 * UNIT), rel(x) * UNIT).to_integral_value())
    thr2 = Decimal(c['trunc']) ** 2
    conf = dict(fixed=T['ty'] != 'amp', lhmax=lg(q(c['h'])), lhmin=lg(Decimal('0.5') if c['low'] else Decimal(10) ** -c['least']), fail=log2(q(c['fail'])), succ=log2(q(c['succ'])), before=c['before'], lessbefore=c['lessbefore'], lessmax=c['lessmax'],
                maxprec=c['maxprec'], maxsteps=c['maxsteps'], inf=bool(c['inf']), lh0=lg(h0), h0=lin(h0), prec0=e['prec'], tol=e['tol'], code=seen['code'], seen=seen.get('obs', []))
    ev = []
    onpath = s['kind'] != 'path' or 'x1' in e       # else the start point is none of the path's
    cur = corr = None
    for raw in reply[3:].split(';'):
        f = raw.split('|')
        n = f[0]
        r = dict(n=n, pos=0, dt=0, h=0, lh=0, prec=0, tot=0, big=0, a=0, b=0, off=False, acur=BIG, acorr=BIG, err=BIG)
        try:
            pt = None
            if n == 'init':
                pt = [parse(z) for z in f[6].split()]
                r['acur'] = min(agree([parse(f[1])], [t0]), agree([parse(f[2])], [t1]))
                if not s['proj']:
                    r['acur'] = min(r['acur'], agree(pt, [cdecs(v) for v in e['x0']]))
                cur = pt
            else:
                z = cdiv(csub(parse(f[1]), t0), d)
                r['pos'] = int((z[0] * UNIT).to_integral_value())
                r['off'] = bool(abs(z[1]) > Decimal(10) ** -9)
                w = parse(f[2])
                r['dt'] = lin((w[0] * w[0] + w[1] * w[1]).sqrt())
                hh = Decimal(f[3].split(',')[0])
                r['h'], r['lh'] = lin(hh), lg(hh)
                r['prec'], r['tot'] = int(f[4]), int(f[5])
                if n == 'prec':
                    r['a'], r['b'] = (int(x) for x in f[6].split())
                elif f[6]:
                    pt = [parse(z) for z in f[6].split()]
            if n == 'new':
                r['acur'] = agree(pt, cur)
                cur = pt
            elif n == 'corr':
                corr = pt
            elif n == 'ok':
                r['acorr'] = agree(pt, corr)
                want = exact(s, parse(f[1])) if onpath else None
                r['err'] = BIG if want is None else agree(affine(s, pt), want)
                cur = pt
            elif n == 'fail':
                r['acur'] = agree(pt, cur)
            if n in ('init', 'corr'):
                a = affine(s, pt)
                n2 = sum(z[0] * z[0] + z[1] * z[1] for z in a) if a else thr2 * 100
                r['big'] = 0 if not n2 > thr2 * Decimal('0.9999') else 1 if n2 > thr2 * Decimal('1.0001') else 2
        except (ValueError, ArithmeticError, IndexError):      # nan, say
            r['n'] = 'garbled'
        ev.append(r)
    return dict(c=conf, ev=ev)


def validate(traces, procs=8, timeout=500, spec='TrackTrace', consts=dict(Unit=UNIT, Slack=4, LSlack=60)):
    """[(index, report)] of the traces the machine rejects, and the number of states"""
    for i, t in enumerate(traces):
        t['id'] = i
    parts = [traces[k::procs] for k in range(procs)]
    parts = [p for p in parts if p]

    def one(p):
        cfg = tlc.cfg_text(dict(consts, File='traces.json'), ('Report',), spec='TSpec')
        return tlc.run(spec, cfg, args=['-continue'], timeout=timeout, heap='3g', files={'traces.json': json.dumps(p)})
    with cf.ThreadPoolExecutor(max_workers=procs) as ex:
        rs = list(ex.map(one, parts))
    for r in rs:
        if not r['ok']:
            raise tlc.TLCError(r['out'][-3000:])
    return [(h['id'], h) for r in rs for h in r['hists']], sum(r['distinct'] for r in rs), max([r['wall'] for r in rs] + [0])


MODELS = [(fx, u, ml, ms, mp) for fx in (True, False) for u, ml, ms, mp in ((4, 2, 5, 30), (8, 2, 3, 20), (8, 3, 9, 20))]
DEEP = [(False, 8, 3, 9, 30), (False, 16, 3, 16, 20), (True, 16, 4, 16, 20)]


def model(run):
    """the machine itself, exhaustively"""
    for fx, u, ml, ms, mp in MODELS + (DEEP if run.thorough else []):
        k = dict(Unit=u, Slack=0, LSlack=0, Fixed=fx, MaxLh=ml, MaxSteps=ms, MaxPrec=mp)
        r = tlc.bfs('TrackModel', k, ('Bounds', 'Justified', 'NotStuck'), ('Forward', 'NothingMovesOnFailure', 'Ends'), workers=8, timeout=800, spec='MSpec')
        run.states += r['distinct']
        run.transitions += r['states']
        run.stages.append(dict(stage='the machine over a segment of %d, %s precision' % (u, 'fixed' if fx else 'adaptive'), kind='exhaustive', exhaustive=True, spec_states=r['distinct'], tlc_s=round(r['wall'], 1)))
    print('%s the machine itself: %d states, invariants and liveness hold' % (run.prop, run.states), flush=True)


def collect(hists, exe, limit=1500, obs=False):
    """[(history, entry index in its traces, trace)]"""
    import harness, trackdrv
    cases = [(trackdrv.ObsCase if obs else trackdrv.Case)(h) for h in hists]
    reps = harness.run_cases(exe, [c.cmds for c in cases], timeout=trackdrv.TIMEOUT)
    items = []
    for h, c, r in zip(hists, cases, reps):
        c.judge(r)
        items += [(h, i, it) for i, it in enumerate(c.traces) if it[4].count(';') < limit]
    if len(items) > 20:
        with multiprocessing.Pool(8) as pool:
            ts = pool.map(convert, [it for _, _, it in items], chunksize=16)
    else:
        ts = [convert(it) for _, _, it in items]
    return [(h, i, t) for (h, i, _), t in zip(items, ts) if t]


def text(t, rep):
    e = rep['ev']
    return 'event %d "%s" is not allowed after "%s" (state %s, event %s, settings %s)' % (rep['at'], e['n'], rep['ph'], {k: rep['s'][k] for k in ('pos', 'dt', 'lh', 'prec', 'succ', 'fails', 'sInc', 'sDec', 'nDec')}, {k: v for k, v in e.items() if k != 'n'}, t['c'])


def stage(run, name, kinds, num, shift, obs=False):
    import time, hashlib
    t0 = time.time()
    exe = run.exes['trackrep']
    r = tlc.simulate('TrackSpec', dict(Sim=True, MaxOps=24, Kinds=set(kinds), Slow=True), num, 30, run.seed + shift, invariants=('Emit', 'Consistent'))
    got = collect(r['hists'], exe, obs=obs)
    t1 = time.time()
    bad, states, wall = validate([t for _, _, t in got])
    done = 0
    for i, rep in bad[:20]:
        h, j, t = got[i]
        again = [g for g in collect([h], exe, obs=obs) if g[1] == j]
        b2 = validate([again[0][2]], procs=1)[0] if again else []
        if b2:
            run.violation(name, dict(kind='trace', driver='tracedrv', hist=h, index=j, obs=obs), text(again[0][2], b2[0][1]), events=again[0][2]['ev'][:b2[0][1]['at']][-30:])
        else:
            run.unconfirmed += 1
    n = sum(len(t['ev']) for _, _, t in got)
    run.states += r['states'] + states
    run.transitions += r['states'] + states
    run.traces += len(got)
    run.evaluations += n
    run.distinct |= {hashlib.sha1(json.dumps(t['ev']).encode()).digest() for _, _, t in got}
    if got and len(run.samples) < 3:
        run.samples.append(dict(stage=name, settings=got[0][2]['c'], events=got[0][2]['ev'][:8]))
    run.stages.append(dict(stage=name, kind='trace validation', behaviours=len(r['hists']), tracks=len(got), events=n, failing=len(bad), tlc_s=round(r['wall'] + wall, 1), wall_s=round(time.time() - t0, 1)))
    print('%s %s: %d tracks of %d behaviours, %d events, %d rejected (%.1f s, validation %.1f s)' % (run.prop, name, len(got), len(r['hists']), n, len(bad), time.time() - t0, wall), flush=True)


def recheck(data):
    import build as _b
    exe = _b.build(['trackrep'])['trackrep']
    again = [g for g in collect([data['hist']], exe, obs=data.get('obs', False)) if g[1] == data['index']]
    if not again:
        return 'the track gave no trace'
    b = validate([again[0][2]], procs=1)[0]
    return text(again[0][2], b[0][1]) if b else None
