"""EndSpec behaviours on the real endgames."""
from num import *
from casebase import *

from hermdrv import NODES
TARGET = 'endrep'
TIMEOUT = 300
SIX = 'the power series endgame finds cycle number 3 for a path of cycle number 6'


def size(z):
    return max(abs(z[0]), abs(z[1]))


def norm2(v):
    return sum(z[0] * z[0] + z[1] * z[1] for z in v)


class Case(Base):
    def begin(self):
        self.sys, self.trk, self.eg = {}, {}, {}
        self.traces, self.stats = [], []
        self.worst = Decimal(0)
        self.c('reset')

    def do_sys(self, e):
        i, s = e['id'], e['s']
        self.sys[i] = s
        S, t = 'S%d' % i, 't%d' % i
        self.c('prec 30')
        self.c('var %s %s' % (t, t))
        n = len(s['c'])
        X = ['x%d_%d' % (i, j) for j in range(n + (1 if s['e'] else 0))]
        for x in X:
            self.c('var %s %s' % (x, x))
        self.c('sys %s' % S)
        self.c('sevalm %s %s' % (S, s['ev']))
        fs = []
        T = 's%dT' % i
        self.c('node %s rat %s' % (T, ctok(s['T'])))
        self.c('node %sd sub %s %s' % (T, t, T))
        for j in range(n):
            q = 's%df%d' % (i, j)
            if s['kind'] == 'pole':
                self.c('node %sp ipow %s %d' % (q, X[j], s['c'][j]))
                self.c('node %sm mul %sp %sd' % (q, q, T))
                self.c('node %sw subi %sm 1' % (q, q))
            else:
                self.c('node %sa rat %s' % (q, ctok(s['a'][j])))
                self.c('node %su sub %s %sa' % (q, X[j], q))
                self.c('node %sp ipow %su %d' % (q, q, s['c'][j]))
                re, im = cval(s['b'][j])
                b = (Fr(1), Fr(0))
                for _ in range(s['c'][j]):
                    b = cmul(b, (re, im))
                self.c('node %sb rat %s,%s' % (q, b[0], b[1]))
                self.c('node %sm mul %sb %sd' % (q, q, T))
                self.c('node %sw sub %sp %sm' % (q, q, q))
            fs.append(q + 'w')
        if s['e']:
            q = 's%de' % i
            for k, v in enumerate(s['e']):
                self.c('node %s%d rat %s' % (q, k, ctok(v)))
            self.c('node %sr1 mul %s1 s%df0u' % (q, q, i))
            self.c('node %sr2 ipow s%df0u 2' % (q, i))
            self.c('node %sr3 mul %s2 %sr2' % (q, q, q))
            self.c('node %sr4 add %sr1 %sr3' % (q, q, q))
            self.c('node %sr5 add %sr4 %s0' % (q, q, q))
            self.c('node %sw sub %s %sr5' % (q, X[-1], q))
            fs.append(q + 'w')
        for f in fs:
            self.c('sfn %s %s' % (S, f))
        self.c('spath %s %s' % (S, t))
        self.c('sgrp %s %s' % (S, ' '.join(X)))
        if s['proj']:
            self.c('shomog %s' % S)
            self.c('spatch %s' % S)

    def ready(self, sid, prec):
        self.c('prec %d' % prec)
        self.c('sprec S%d %d' % (sid, prec))
        self.c('nprec t%d %d' % (sid, prec))

    def do_tracker(self, e):
        r = dict(e['r'])
        self.trk[e['id']] = r
        self.ready(r['sys'], r['prec'])
        self.c('tmake T%d %s S%d' % (e['id'], r['ty'], r['sys']))
        self.c('tsetup T%d %s 1e-%d 1000000 1/10 1/10 1e-100 2 1/2 5 1 100000 1 2' % (e['id'], r['pred'], r['tol']))
        self.amp(e['id'])

    def amp(self, i):
        if self.trk[i]['ty'] == 'amp':
            self.c('tamp T%d 200 10 10' % i)

    def do_settrsys(self, e):
        T = self.trk[e['id']]
        self.ready(e['sys'], T['prec'])
        self.c('tsys T%d S%d' % (e['id'], e['sys']))
        T['sys'] = e['sys']
        self.amp(e['id'])

    def do_eg(self, e):
        self.eg[e['id']] = dict(f=e['f'], trk=e['trk'])
        self.c('emake E%d %s T%d' % (e['id'], e['f'], e['trk']))

    def do_egtr(self, e):
        self.eg[e['id']]['trk'] = e['trk']
        self.c('egtr E%d T%d' % (e['id'], e['trk']))

    def settings(self, i, c):
        s = 'eset E%d points %d factor %s tol 1e-%d mintime 1e-%d level %d maxnorm %d' % (i, c['points'], cval(c['factor'])[0], c['tol'], c['mintime'], c['level'], c['maxnorm'])
        if self.eg[i]['f'] == 'cauchy':
            s += ' failsafe %d flat %d/100' % (c['failsafe'], c['flat'])
        self.c(s)

    def do_set(self, e):
        self.settings(e['id'], e['c'])

    def run_cmd(self, e, s, x0):
        return '%s E%d %d %s %s %s%s' % ('erunp' if s['proj'] else 'erun', e['id'], e['prec'], ctok(e['t0']), '-' if e['dflt'] else ctok(e['T']), '1 ' if s['proj'] else '', ' '.join(ctok(v) for v in x0))

    def do_run(self, e):
        g = self.eg[e['id']]
        T = self.trk[g['trk']]
        s = self.sys[T['sys']]
        self.ready(T['sys'], e['prec'])
        seen = {}
        if e['rec']:
            self.c('erec E%d 1' % e['id'])
        self.c(self.run_cmd(e, s, e['x0']), lambda r: self.check_run(r, e, g['f'], T, s, seen))
        if e['rec']:
            self.c('edump E%d' % e['id'], lambda r: self.traces.append((e, g['f'], T, s, seen, r)))
            self.c('erec E%d 0' % e['id'])

    def check_run(self, r, e, f, T, s, seen):
        self.stats.append((f, T['ty'], s, e, r))
        if not r.startswith('ok '):
            return 'the endgame did not answer: %s' % r[:200]
        code, final, prev, err, cyc, latest, prec, user = [x.strip() for x in (r[3:] + ' ').split('|')]
        seen['code'] = code
        if code not in e['codes']:
            return 'answered %s, must be one of %s' % (code, sorted(e['codes']))
        tol = Decimal(10) ** -e['c']['tol']
        T0, d0 = cdecs(e['T']), csub(cdecs(e['t0']), cdecs(e['T']))
        if latest != '-':
            z = csub(parse(latest), T0)
            if norm2([z]) > norm2([d0]) * Decimal('1.0001'):
                return 'ended farther from the target time than it began: %s' % latest
        if code != 'Success':
            return None
        x, p = [parse(z) for z in final.split()], [parse(z) for z in prev.split()]
        n = len(e['x0']) + (1 if s['proj'] else 0)
        if len(x) != n or len(p) != n:
            return 'approximations have %d and %d coordinates, not %d' % (len(x), len(p), n)
        if not all(q.is_finite() for z in x + p for q in z):
            return 'succeeded with %s' % final
        if Decimal(err) > tol:
            return 'succeeded with an estimated error of %s, the tolerance is %s' % (err, tol)
        d = max(norm2([csub(a, b)]) for a, b in zip(x, p)).sqrt()
        sc = max([Decimal(1)] + [size(z) for z in x])
        if abs(d - Decimal(err)) > d / 100 + sc * Decimal(10) ** -14:
            return 'the estimated error is %s, the last two approximations are %s apart' % (err, d)
        if f == 'cauchy' and s['kind'] != 'pole' and int(cyc) != e['L']:
            return 'found cycle number %s, it is %d' % (cyc, e['L'])
        if f == 'ps' and s['kind'] != 'pole' and (int(cyc), e['L']) == (3, 6) and self.finding(SIX) is None:
            pass
        elif f == 'ps' and (T['ty'] != 'dbl' or e['L'] < 4 and not e['hard']) and s['kind'] != 'pole' and int(cyc) % e['L']:
            return 'found cycle number %s, it is %d' % (cyc, e['L'])
        if s['kind'] == 'pole':
            if s['proj'] and size(x[0]) > 100 * tol * max(size(z) for z in x[1:]):
                return 'the end point at infinity is %s' % final
            return None
        y = [parse(z) for z in user.split()]
        if len(y) != len(e['x1']):
            return 'end point has %d coordinates, must have %d' % (len(y), len(e['x1']))
        worst = max(size(csub(a, cdecs(b))) for a, b in zip(y, e['x1']))
        self.worst = max(self.worst, worst / tol)
        # sixteen digits do not tell the branches of a high cycle number apart at such a tolerance
        if not worst <= (100 * tol if not e['hard'] else Decimal('1e-9') if e['L'] < 3 else Decimal('1e-4')):
            return 'ended at %s, %s from the end point, the tolerance is %s' % (user, worst, tol)
        return None

    def do_approx(self, e):
        g = self.eg[e['id']]
        T = self.trk[g['trk']]
        self.ready(T['sys'], e['prec'])
        self.settings(e['id'], dict(e['back'], factor=e['factor']))
        cmd = 'eapprox E%d %d %s %d %s %s' % (e['id'], e['prec'], ctok(e['T']), e['n'], ' '.join(ctok(t) for t in e['times']), ' '.join(ctok(v) for x in e['points'] for v in x))
        self.c(cmd, lambda r: self.check_approx(r, e, T))
        self.settings(e['id'], e['back'])

    def check_approx(self, r, e, T):
        self.stats.append(('approx', T['ty'], None, e, r))
        if not r.startswith('ok '):
            return 'no approximation: %s' % r[:200]
        code, x, cyc, bound = [q.strip() for q in (r[3:] + ' ').split('|')]
        if code != 'Success':
            return 'approximating from exact samples answered %s' % code
        if int(bound) < e['L']:
            return None             # the bound is an estimate
        y = [parse(z) for z in x.split()]
        t = Decimal(10) ** (-8 if T['ty'] == 'dbl' else 10 - e['prec'])
        worst = max(size(csub(a, cdecs(b))) for a, b in zip(y, e['x1']))
        if len(y) == len(e['x1']) and not worst <= t and int(cyc) == e['L'] and all(e['found']) and max(size(csub(a, cdecs(b))) for a, b in zip(y, e['found'])) <= t:
            return self.finding(NODES)
        if NODES in KNOWN and int(cyc) != e['L']:
            return None             # by that finding the candidates are judged by wrong predictions
        if len(y) != len(e['x1']) or not worst <= t:
            return 'approximated %s, %s from the end point, from exact samples' % (x, worst)
        if int(cyc) % e['L'] or not 1 <= int(cyc) <= int(bound):
            return 'found cycle number %s (bound %s), it is %d' % (cyc, bound, e['L'])
        return None

    def do_wrongsize(self, e):
        g = self.eg[e['id']]
        T = self.trk[g['trk']]
        self.ready(T['sys'], e['prec'])
        self.c('erun E%d %d 1/8 0 %s' % (e['id'], e['prec'], ' '.join(['1'] * e['n'])), refused)
