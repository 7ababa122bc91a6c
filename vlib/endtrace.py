"""Recorded runs of endgames as traces for EndTrace: what the observers saw, in integers."""
import cmath, hashlib, json, math, multiprocessing, time
from num import *
from enddrv import size
from tracedrv import digits, log2, cdiv, validate as _validate
import tlc

TURN = 10 ** 6
CONSTS = dict(Turn=TURN, ASlack=5, LSlack=60)


def fl(z):
    return complex(float(z[0]), float(z[1]))


def cpow(z, n):
    r = (Decimal(1), Decimal(0))
    for _ in range(n):
        r = cmul(r, z)
    return r


def mod(z):
    return (z[0] * z[0] + z[1] * z[1]).sqrt()


def point(s, f):
    p = [parse(z) for z in f.split()]
    if any(not (z[0].is_finite() and z[1].is_finite()) for z in p):
        raise ArithmeticError
    return p


def affine(s, p):
    return [cdiv(z, p[0]) for z in p[1:]] if s['proj'] else p


def near(s, t, x):
    """digits to which a point solves the homotopy, from one Newton step"""
    d = csub(t, cdecs(s['T']))
    worst = 999
    for i, c in enumerate(s['c']):
        if s['kind'] == 'pole':
            r = csub(cmul(cpow(x[i], c), d), (1, 0))
            q = cmul(cpow(x[i], c - 1), d)
            sc = max(Decimal(1), size(x[i]))
        else:
            u = csub(x[i], cdecs(s['a'][i]))
            r = csub(cpow(u, c), cmul(cpow(cdecs(s['b'][i]), c), d))
            q = cpow(u, c - 1)
            sc = max(Decimal(1), size(x[i]))
        if q == (0, 0):
            return -99
        worst = min(worst, digits(mod(cdiv(r, q)) / c / sc))
    if s['e']:
        u = csub(x[0], cdecs(s['a'][0]))
        z = cadd(cdecs(s['e'][0]), cadd(cmul(cdecs(s['e'][1]), u), cmul(cdecs(s['e'][2]), cmul(u, u))))
        worst = min(worst, digits(mod(csub(x[-1], z))))
    return worst


def branch(s, L, w, rho, turns, x):
    """digits to which a point is the continuation of the start point: distance ratio rho, so many turns (floating point)"""
    sv = complex(fl(cdecs(w))) * rho ** (1.0 / L) * cmath.exp(2j * math.pi * turns / L)
    worst = 0.0
    for i, c in enumerate(s['c']):
        want = 1 / sv if s['kind'] == 'pole' else fl(cdecs(s['a'][i])) + fl(cdecs(s['b'][i])) * sv ** (L // c)
        worst = max(worst, abs(fl(x[i]) - want) / max(1.0, abs(want)))
    return 99 if worst < 1e-15 else int(-math.log10(worst))


class TooNear(Exception):
    """so near a time which is not 0 that the distance to it has too few digits left in double precision"""


def convert(item):
    try:
        return _convert(item)
    except TooNear:
        return None


def _convert(item):
    e, f, T, s, seen, reply = item
    if 'code' not in seen or not reply.startswith('ok '):
        return None
    c, L = e['c'], e['L']
    tT = cdecs(e['T'])
    d0 = csub(cdecs(e['t0']), tT)
    r0 = mod(d0)
    fac = dec(cval(c['factor'])[0])
    tol = Decimal(10) ** -c['tol']
    conf = dict(f=f, n=c['points'], lfac=log2(fac), lmin=log2(Decimal(10) ** -c['mintime'] / r0), cyc=L, ttol=min(T['tol'], 9),
                rtol=c['tol'] + 1 if T['ty'] != 'dbl' else 2 if s['kind'] == 'pole' else min(c['tol'], 8) - 1, level=c['level'], failsafe=c['failsafe'] if f == 'cauchy' else 250, stable=3, inf=s['kind'] == 'pole' or e['hard'], code=seen['code'])
    ev = []
    turns = 0.0
    last = None

    def where(tok):
        z = cdiv(csub(parse(tok), tT), d0)
        m = mod(z)
        if T['ty'] == 'dbl' and tT != (0, 0) and m * r0 < Decimal('1e-11'):
            raise TooNear
        a = cmath.phase(fl((z[0] / m, z[1] / m))) / (2 * math.pi)
        return m, a, log2(m), 0 if abs(a) < 1e-9 else int(round(a * TURN)) % TURN

    for raw in reply[3:].split(';'):
        g = raw.split('|')
        n = g[0]
        r = dict(n=n, ld=0, ang=0, err=99, cyc=0, cnt=0, mean=True, geo=True, serr=99, diff=True, chain=True, small=0, bigs=0, merged=False)
        try:
            if g[1] != '-':
                rho, a, r['ld'], r['ang'] = where(g[1])
            r['cyc'] = int(g[2])
            if n == 'advance':
                turns = 0.0
                x = affine(s, point(s, g[3]))
                r['err'] = min(near(s, parse(g[1]), x), branch(s, L, e['w'], float(rho), 0, x))
            elif n == 'zone':
                turns = 0.0
            elif n == 'circle':
                rho, a, r['ld'], r['ang'] = where(g[3])
                turns += (a - turns + 0.5) % 1.0 - 0.5
                x = affine(s, point(s, g[4]))
                r['err'] = min(near(s, parse(g[3]), x), branch(s, L, e['w'], float(rho), turns, x))
                last = rho
            elif n in ('closed', 'approx'):
                ts, xs = (g[3], g[4]) if n == 'closed' else (g[6], g[7])
                ts = ts.split()
                xs = [point(s, q) for q in xs.split('/')]
                r['cnt'] = len(xs)
                if f == 'cauchy':
                    k = round(turns)
                    sv = abs(fl(cdecs(e['w']))) * float(last) ** (1.0 / L)
                    gap = 0.0 if s['kind'] == 'pole' else max(abs(fl(cdecs(s['b'][i]))) * sv ** (L // q) * abs(1 - cmath.exp(2j * math.pi * k / q)) for i, q in enumerate(s['c']))
                    r['merged'] = s['kind'] != 'pole' and gap < 4 * 10.0 ** -T['tol']
                if n == 'approx':
                    for tk, x in zip(ts, xs):
                        r['serr'] = min(r['serr'], near(s, parse(tk), affine(s, x)))
                    now, prev = point(s, g[4]), point(s, g[5])
                    dist = max(mod(csub(u, v)) for u, v in zip(now, prev))
                    sc = max([Decimal(1)] + [mod(z) for z in now])
                    est = Decimal(g[3])
                    r['diff'] = bool(est.is_finite() and abs(est - dist) <= dist / 1000 + sc * Decimal(10) ** -14)
                    r['small'] = 1 if est < tol * Decimal('0.999') else 0 if est > tol * Decimal('1.001') else 2
                    if ev and any(q['n'] == 'approx' for q in ev):
                        r['chain'] = bool(max(mod(csub(u, v)) for u, v in zip(prev, lastapp)) <= sc * Decimal(10) ** -12)
                    lastapp = now
                    nm = [max(mod(z) for z in affine(s, q)) if not s['proj'] or q[0] != (0, 0) else Decimal(10) ** 30 for q in (now, prev)]
                    mx = Decimal(c['maxnorm'])
                    r['bigs'] = 1 if min(nm) > mx * Decimal('1.001') else 0 if min(nm) < mx * Decimal('0.999') else 2
                    if f == 'cauchy':
                        m = len(xs) - 1
                        avg = [(sum(x[i][0] for x in xs[:m]) / m, sum(x[i][1] for x in xs[:m]) / m) for i in range(len(now))]
                        r['mean'] = bool(max(mod(csub(u, v)) for u, v in zip(avg, now)) <= sc * Decimal(10) ** -12)
                        r['err'] = 99
                    else:
                        w = [where(tk) for tk in ts]
                        r['geo'] = all(abs(v[2] - u[2] - conf['lfac']) <= 60 for u, v in zip(w, w[1:])) and all(u[3] == 0 for u in w)
        except (ValueError, ArithmeticError, IndexError, OverflowError, UnboundLocalError):
            r['n'] = 'garbled'
        ev.append(r)
    ev.append(dict(n='ret', ld=0, ang=0, err=99, cyc=0, cnt=0, mean=True, geo=True, serr=99, diff=True, chain=True, small=0, bigs=0, merged=False))
    return dict(c=conf, ev=ev)


def validate(traces, procs=8):
    return _validate(traces, procs, 500, 'EndTrace', CONSTS)


def collect(hists, exe):
    import casebase, engine, harness, enddrv
    casebase.KNOWN[:] = [t for p, t in engine.known() if p == 'C15']        # those do not matter here
    cases = [enddrv.Case(h) for h in hists]
    reps = harness.run_cases(exe, [c.cmds for c in cases], timeout=enddrv.TIMEOUT)
    items = []
    for h, c, r in zip(hists, cases, reps):
        c.judge(r)
        items += [(h, i, it) for i, it in enumerate(c.traces)]
    if len(items) > 20:
        with multiprocessing.Pool(8) as pool:
            ts = pool.map(convert, [it for _, _, it in items], chunksize=8)
    else:
        ts = [convert(it) for _, _, it in items]
    return [(h, i, t) for (h, i, _), t in zip(items, ts) if t]


def text(t, rep):
    e = rep['ev']
    return 'event %d "%s" is not allowed after "%s" (state %s, event %s, settings %s)' % (rep['at'], e['n'], rep['ph'], rep['s'], {k: v for k, v in e.items() if k != 'n'}, t['c'])


MODELS = [('ps', 3, 1, 3, 0, 12), ('cauchy', 3, 1, 3, 0, 10), ('cauchy', 3, 2, 3, 0, 10), ('cauchy', 4, 3, 2, 0, 10), ('cauchy', 3, 3, 5, 1, 12)]
DEEP = [('ps', 5, 1, 3, 1, 30), ('cauchy', 3, 4, 6, 0, 24), ('cauchy', 6, 2, 5, 1, 24), ('cauchy', 5, 5, 4, 0, 24)]


def model(run):
    """the machine itself, exhaustively"""
    n = 0
    for f, pts, cyc, fs, lev, deep in MODELS + (DEEP if run.thorough else []):
        k = dict(Turn=60, ASlack=0, LSlack=0, F=f, N=pts, Cyc=cyc, FailSafe=fs, Deepest=deep, Level=lev)
        r = tlc.bfs('EndModel', k, ('Bounds', 'CycleFound', 'Justified', 'NotStuck'), ('Approaches', 'SteadyOnLoops', 'Ends'), workers=8, timeout=800, spec='MSpec')
        n += r['distinct']
        run.states += r['distinct']
        run.transitions += r['states']
        run.stages.append(dict(stage='the machine: %s endgame, %d sample points, cycle number %d, at most %d loops, level %d' % (f, pts, cyc, fs, lev), kind='exhaustive', exhaustive=True, spec_states=r['distinct'], tlc_s=round(r['wall'], 1)))
    print('%s the machine itself: %d states, invariants and liveness hold' % (run.prop, n), flush=True)


def stage(run, name, flavours, kinds, num, shift):
    t0 = time.time()
    exe = run.exes['endrep']
    r = tlc.simulate('EndSpec', dict(Sim=True, MaxOps=20, Flavours=set(flavours), Kinds=set(kinds)), num, 30, run.seed + shift, invariants=('Emit', 'OnPath'))
    got = collect(r['hists'], exe)
    bad, states, wall = validate([t for _, _, t in got])
    for i, rep in bad[:20]:
        h, j, t = got[i]
        again = [g for g in collect([h], exe) if g[1] == j]
        b2 = validate([again[0][2]], procs=1)[0] if again else []
        if b2:
            run.violation(name, dict(kind='trace', driver='endtrace', hist=h, index=j), text(again[0][2], b2[0][1]), events=again[0][2]['ev'][:b2[0][1]['at']][-30:])
        else:
            run.unconfirmed += 1
    n = sum(len(t['ev']) for _, _, t in got)
    run.states += r['states'] + states
    run.transitions += r['states'] + states
    run.traces += len(got)
    run.evaluations += n
    run.distinct |= {hashlib.sha1(json.dumps(t['ev']).encode()).digest() for _, _, t in got}
    if got and len(run.samples) < 3:
        run.samples.append(dict(stage=name, settings=got[0][2]['c'], events=got[0][2]['ev'][:8]))
    run.stages.append(dict(stage=name, kind='trace validation', behaviours=len(r['hists']), runs=len(got), events=n, failing=len(bad), tlc_s=round(r['wall'] + wall, 1), wall_s=round(time.time() - t0, 1)))
    print('%s %s: %d runs of %d behaviours, %d events, %d rejected (%.1f s, validation %.1f s)' % (run.prop, name, len(got), len(r['hists']), n, len(bad), time.time() - t0, wall), flush=True)


def recheck(data):
    import build as _b
    exe = _b.build(['endrep'])['endrep']
    again = [g for g in collect([data['hist']], exe) if g[1] == data['index']]
    if not again:
        return 'the run gave no trace'
    b = validate([again[0][2]], procs=1)[0]
    return text(again[0][2], b[0][1]) if b else None
