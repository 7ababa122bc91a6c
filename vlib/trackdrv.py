"""TrackSpec behaviours on the real trackers."""
from num import *
from casebase import *

TARGET = 'trackrep'
TIMEOUT = 300


def size(z):
    return max(abs(z[0]), abs(z[1]))


def norm2(v):
    return sum(z[0] * z[0] + z[1] * z[1] for z in v)


def fields(reply):
    if not reply.startswith('ok '):
        return None
    f = [x.strip() for x in (reply[3:] + ' ').split('|')]
    return f


class Case(Base):
    OBSERVERS = False
    nobs = 0

    def begin(self):
        self.sys, self.trk = {}, {}
        self.traces = []
        self.c('reset')

    # ---- building
    def poly(self, s, name, coefs, t):
        """node with the polynomial"""
        self.c('node %s rat %s' % (name, ctok(coefs[0])))
        for j, cf in enumerate(coefs[1:], 1):
            if cval(cf) == (0, 0):
                continue
            self.c('node %s_c%d rat %s' % (name, j, ctok(cf)))
            self.c('node %s_p%d ipow %s %d' % (name, j, t, j))
            self.c('node %s_m%d mul %s_c%d %s_p%d' % (name, j, name, j, name, j))
            self.c('node %s add %s %s_m%d' % (name, name, name, j))

    def do_sys(self, e):
        i, s = e['id'], e['s']
        self.sys[i] = s
        t = 't%d' % i
        self.c('prec 30')
        self.c('var %s %s' % (t, t))
        n = s['n']
        X = ['x%d_%d' % (i, j) for j in range(1, n + 1)]
        for x in X:
            self.c('var %s %s' % (x, x))
        S = 'S%d' % i
        self.c('sys %s' % S)
        self.c('sevalm %s %s' % (S, s['ev']))
        fs = []
        if s['kind'] == 'path':
            for j in range(n):
                q = 's%df%d' % (i, j)
                self.poly(s, q + 'p', s['p'][j], t)
                self.c('node %su sub %s %sp' % (q, X[j], q))
                self.c('node %sd rat %s' % (q, ctok(s['d'][j])))
                self.c('node %sv add %su %sd' % (q, q, q))
                self.c('node %sw mul %su %sv' % (q, q, q))
                if j and cval(s['k'][j]) != (0, 0):
                    self.c('node %sk rat %s' % (q, ctok(s['k'][j])))
                    self.c('node %sl mul %sk s%df%du' % (q, q, i, j - 1))
                    self.c('node %sm mul %sl %s' % (q, q, X[j]))
                    self.c('node %sw add %sw %sm' % (q, q, q))
                fs.append(q + 'w')
        elif s['kind'] == 'near':
            self.c('node s%dg0 addq %s -1/2' % (i, t))
            self.c('node s%dg1 ipow s%dg0 2' % (i, i))
            self.c('node s%dg2 rat 6' % i)
            self.c('node s%dg3 mul s%dg1 s%dg2' % (i, i, i))
            self.c('node s%dg4 addq s%dg3 1/%d' % (i, i, 10 ** s['g']))
            for j in range(n):
                q = 's%df%d' % (i, j)
                self.poly(s, q + 'p', s['p'][j], t)
                self.c('node %su sub %s %sp' % (q, X[j], q))
                self.c('node %sv add %su s%dg4' % (q, q, i))
                self.c('node %sw mul %su %sv' % (q, q, q))
                fs.append(q + 'w')
        elif s['kind'] == 'branch':
            self.c('node b%da ipow %s 2' % (i, X[0]))
            self.c('node b%db sub b%da %s' % (i, i, t))
            self.c('node b%dc addq b%db 1/2' % (i, i))
            fs = ['b%dc' % i]
        else:
            self.c('node b%da mul %s %s' % (i, t, X[0]))
            self.c('node b%db subi b%da 1' % (i, i))
            fs = ['b%db' % i]
        for f in fs:
            self.c('sfn %s %s' % (S, f))
        self.c('spath %s %s' % (S, t))
        self.c('sgrp %s %s' % (S, ' '.join(X)))
        if s['proj']:
            self.c('shomog %s' % S)
            self.c('spatch %s' % S)

    def ready(self, sid, prec):
        self.c('prec %d' % prec)
        self.c('sprec S%d %d' % (sid, prec))
        self.c('nprec t%d %d' % (sid, prec))

    def do_tracker(self, e):
        self.trk[e['id']] = dict(ty=e['ty'], sys=e['sys'], prec=e['prec'], reinit=True, c=dict(lessbefore=10, lessmax=10, maxprec=90))
        self.ready(e['sys'], e['prec'])
        self.c('tmake T%d %s S%d' % (e['id'], e['ty'], e['sys']))
        if e['ty'] == 'amp':
            self.amp(e['id'])

    def amp(self, i):
        c = self.trk[i]['c']
        self.c('tamp T%d %d %d %d' % (i, c['maxprec'], c['lessbefore'], c['lessmax']))

    def do_setup(self, e):
        c = e['c']
        h = str(cval(c['h'])[0])
        T = self.trk[e['id']]
        T['h'] = h
        T['c'] = c
        if T['ty'] != 'dbl':
            self.c('prec %d' % T['prec'])
        self.c('tsetup T%d %s 1e-%d %d %s %s %s %s %s %d %d %d 1 %d' % (e['id'], c['pred'], c['tol'], c['trunc'], h, h, '1/2' if c['low'] else '1e-25', cval(c['succ'])[0], cval(c['fail'])[0], c['before'], c['minsteps'], c['maxsteps'], c['newton']))
        if T['ty'] == 'amp':
            self.amp(e['id'])

    def do_pred(self, e):
        if self.trk[e['id']]['ty'] != 'dbl':
            self.c('prec %d' % self.trk[e['id']]['prec'])
        self.c('tpred T%d %s' % (e['id'], e['pred']))

    def do_tol(self, e):
        self.c('ttol T%d 1e-%d' % (e['id'], e['tol']))

    def do_badtol(self, e):
        self.c('%s T%d %s' % (e['w'], e['id'], e['v']), refused)

    def do_trunc(self, e):
        self.c('ttrunc T%d %d' % (e['id'], e['b']))
        self.c('tinf T%d %d' % (e['id'], e['on']))

    def do_reinit(self, e):
        T = self.trk[e['id']]
        if T['ty'] != 'dbl':
            self.c('prec %d' % T['prec'])
        self.c('treinit T%d %d' % (e['id'], e['on']))
        self.c('tstep T%d %s' % (e['id'], cval(e['h'])[0]))
        T['reinit'], T['h'] = e['on'], cval(e['h'])[0]

    def do_settrsys(self, e):
        T = self.trk[e['id']]
        self.ready(e['sys'], T['prec'])
        self.c('tsys T%d S%d' % (e['id'], e['sys']))
        T['sys'] = e['sys']
        if T['ty'] == 'amp':
            self.amp(e['id'])

    # ---- tracking
    def track_cmd(self, e, T, s):
        x0 = e['x0']
        pr = '%d:%d' % (e['prec'], e.get('tprec', e['prec']))
        if s['proj']:
            return 'ttrackp T%d %s %s %s 1 %s' % (e['id'], pr, ctok(e['t0']), ctok(e['t1']), ' '.join(ctok(v) for v in x0))
        return 'ttrack T%d %s %s %s %s' % (e['id'], pr, ctok(e['t0']), ctok(e['t1']), ' '.join(ctok(v) for v in x0))

    def before(self, e, T):
        if T['ty'] == 'mp' or self.sys[T['sys']]['proj']:
            self.ready(T['sys'], e['prec'])

    def common(self, e, T, f, codes):
        """checks that hold however a track ends"""
        if f is None:
            return 'tracking did not answer'
        if len(f) != 10:
            return 'answer not understood'
        code, y, tm, steps, prec, yprec, dprec, sprec = f[:8]
        if code not in codes:
            return 'ended with %s, must be %s' % (code, ' or '.join(codes))
        if (code == 'Success') != bool(y):
            return '%s and endpoint "%s"' % (code, y)
        if T['ty'] == 'dbl' and prec != '16' or T['ty'] == 'mp' and (int(prec) != T['prec'] or dprec != prec or sprec != prec):
            return 'precision after tracking: tracker %s, default %s, system %s' % (prec, dprec, sprec)
        if T['ty'] == 'amp' and not (prec == dprec == sprec):
            return 'precision after tracking: tracker %s, default %s, system %s' % (prec, dprec, sprec)
        if code == 'Success' and T['ty'] != 'dbl' and yprec != prec:
            return 'endpoint of precision %s, tracker at %s' % (yprec, prec)

    def do_track(self, e):
        T = self.trk[e['id']]
        s = self.sys[T['sys']]
        c = e['c']
        T = dict(T)
        x1 = [cdecs(v) for v in e['x1']]
        t0, t1 = cdecs(e['t0']), cdecs(e['t1'])
        tol = Decimal(10) ** -e['tol'] * 10
        seen = {}

        def chk(r):
            f = fields(r)
            m = self.common(e, T, f, e['codes'])
            if m:
                return m
            code, y, tm, steps, prec = f[:5]
            tm = parse(tm)
            steps = int(steps)
            if code == 'Success':
                y = [parse(z) for z in y.split()]
                if len(y) != len(x1):
                    return '%d coordinates' % len(y)
                for a, b in zip(y, x1):
                    if not (a[0].is_finite() and a[1].is_finite()) or size(csub(a, b)) > tol:
                        return 'endpoint %s, must be %s within %s' % (a, b, tol)
                if size(csub(tm, t1)) > Decimal(10) ** -12:
                    return 'Success at time %s' % (tm,)
                if c['inf'] and norm2(y) > Decimal(c['trunc']) ** 2 * (1 + tol):
                    return 'Success beyond the truncation threshold'
            if e['exact'] and T['ty'] != 'amp' and steps != e['steps']:
                return 'took %d steps, must be %d' % (steps, e['steps'])
            if code == 'Success' and steps < e['steps']:
                return 'took %d steps, must be at least %d' % (steps, e['steps'])
            if code == 'MaxNumStepsTaken' and steps < c['maxsteps']:
                return 'MaxNumStepsTaken after %d steps, %d are allowed' % (steps, c['maxsteps'])
            if code == 'MinStepSizeReached' and size(csub(tm, t0)) > Decimal(10) ** -12:
                return 'time %s, no step was possible' % (tm,)
            if code == 'GoingToInfinity':
                cp = [parse(z) for z in f[9].split()]
                if not norm2(cp) > Decimal(c['trunc']) ** 2 * (1 - Decimal(10) ** -9):
                    return 'GoingToInfinity at a point of norm^2 %s, threshold %s' % (norm2(cp), c['trunc'])
            if seen:
                if seen['code'] != code and not (T['ty'] == 'amp' and c['maxsteps'] < 100000):      # (one rounding error more is one step more)
                    return 'the same track ended with %s before' % seen['code']
                if T['ty'] != 'amp' and seen['steps'] != steps:
                    return 'the same track took %d steps before, %d now' % (seen['steps'], steps)
            seen.update(code=code, steps=steps)
        for rep in range(2 if e['again'] else 1):
            self.before(e, T)
            if not T['reinit']:
                self.c('prec %d' % e['prec'])
                self.c('tstep T%d %s' % (e['id'], T['h']))
            rec = e['rec'] and rep == 0
            if rec:
                self.c('trec T%d 1' % e['id'])
                if self.OBSERVERS:
                    self.c('tobsmake T%d mm minmax' % e['id'])
                    self.c('tobsmake T%d fp first' % e['id'])
                    self.c('tobsadd T%d %s' % (e['id'], 'fp' if self.nobs % 2 else 'mm'))
                    self.c('tobsadd T%d %s' % (e['id'], 'mm' if self.nobs % 2 else 'fp'))
                    self.nobs += 1
            self.c(self.track_cmd(e, T, s), chk)
            if rec and self.OBSERVERS:
                def first(r, seen=seen):
                    f = r.split()
                    seen['fp'] = (int(f[3]) if f[1] == '1' else 0, int(f[2]))

                def minmax(r, seen=seen):
                    f = r.split()
                    seen['obs'] = [int(f[1]), int(f[2]), seen['fp'][0], seen['fp'][1]]
                self.c('tobsread T%d fp' % e['id'], first)
                self.c('tobsread T%d mm' % e['id'], minmax)
                self.c('tobsrem T%d fp' % e['id'])
                self.c('tobsrem T%d mm' % e['id'])
            if rec:
                self.c('tdump T%d' % e['id'], lambda r, e=e, T=T, s=s, seen=seen: self.traces.append((e, T, s, dict(seen), r)))
                self.c('trec T%d 0' % e['id'])

    def do_trackbad(self, e):
        T = dict(self.trk[e['id']])
        s = self.sys[T['sys']]
        self.before(e, T)
        if not T['reinit']:
            self.c('prec %d' % e['prec'])
            self.c('tstep T%d %s' % (e['id'], T['h']))
        seen = {}

        def chk(r):
            f = fields(r)
            m = self.common(e, T, f, e['codes'])
            if not m:
                seen['code'] = f[0]
            return m
        if e['rec']:
            self.c('trec T%d 1' % e['id'])
        self.c(self.track_cmd(e, T, s), chk)
        if e['rec']:
            self.c('tdump T%d' % e['id'], lambda r: self.traces.append((e, T, s, dict(seen), r)))
            self.c('trec T%d 0' % e['id'])

    def do_wrongsize(self, e):
        T = self.trk[e['id']]
        self.ready(T['sys'], e['prec'])
        self.c('ttrack T%d %d 1 0 %s' % (e['id'], e['prec'], ' '.join(['1/2'] * e['n'])), refused)

    def do_wrongprec(self, e):
        T = self.trk[e['id']]
        self.ready(T['sys'], e['prec'])
        if e['w'] == 'point':
            self.c('ttrack T%d %d 1 0 %s' % (e['id'], e['prec'] + 10, ' '.join(['1/2'] * e['n'])), refused)
        else:
            self.c('prec %d' % (e['prec'] + 10))
            self.c('ttrack T%d %d 1 0 %s' % (e['id'], e['prec'], ' '.join(['1/2'] * e['n'])), refused)
            self.c('ttrack T%d %d 1 0 %s' % (e['id'], e['prec'] + 10, ' '.join(['1/2'] * e['n'])), refused)
            self.c('prec %d' % e['prec'])

    def do_refine(self, e):
        T = self.trk[e['id']]
        ty = T['ty']
        x = [cval(v) for v in e['x']]
        eps = Fr(1, 10 ** e['e'])
        st = ' '.join('%s,%s' % (re + eps, im) for re, im in x)
        want = [(dec(a), dec(b)) for a, b in x]
        num = 'dbl' if ty == 'dbl' or ty == 'amp' and e['prec'] == 16 else 'mp'
        if ty != 'dbl':
            self.ready(T['sys'], e['prec'])
        tol = e['tol'] if e['how'] == 'default' else 2 * e['e'] - 3 if e['how'] == 'given' else 12
        sure = {'default': (2 if e['newton'] == 2 else 4) * e['e'] >= tol + (2 if e['newton'] == 2 else 4), 'given': True, 'toofew': False}[e['how']]
        if ty == 'amp' and e['prec'] < tol + 12:
            sure = False

        def chk(r):
            f = fields(r)
            if f is None:
                return 'refinement did not answer: %s' % r[:200]
            code, y, yp = f
            if e['how'] == 'toofew' and code == 'Success':
                return 'refined to 1e-12 in one step from 1e-%d' % e['e']
            if sure and code != 'Success':
                return 'refinement ended with %s' % code
            if code == 'Success':
                y = [parse(z) for z in y.split()]
                t = max(Decimal(10) ** -tol, Decimal(10) ** -13 if num == 'dbl' else Decimal(0)) * 10
                if len(y) != len(want) or any(not z[0].is_finite() or size(csub(z, w)) > t for z, w in zip(y, want)):
                    return 'refined to %s, must be %s' % (y, want)
                if num == 'mp' and int(yp) != e['prec']:
                    return 'refined point of precision %s, must be %d' % (yp, e['prec'])
        how = {'default': '- 0', 'given': '1e-%d 4' % tol, 'toofew': '1e-12 1'}[e['how']]
        self.c('trefine T%d %s %d %s %s %s' % (e['id'], num, e['prec'], how, ctok(e['t']), st), chk)


class ObsCase(Case):
    OBSERVERS = True
