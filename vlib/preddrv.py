"""PredSpec behaviours on the real trackers: the predictions seen by an observer."""
from num import *
from casebase import *
from tracedrv import agree, cdiv, digits, size

TARGET = 'trackrep'
TIMEOUT = 300


def path(s, t):
    """the solution at time t, by Newton's method from (1, ..., 1) (t is small)"""
    one = (Decimal(1), Decimal(0))
    prev = cadd(one, t)
    out = []
    for q in s['eq']:
        a, b, c, e = (cdecs(q[k]) for k in 'abce')
        rhs = cadd(cadd(one, a), cadd(cmul(c, t), cmul(e, cmul(t, t))))
        lin = cadd(cmul(a, prev), cmul(b, t))
        x = one
        for _ in range(12):
            f = csub(cadd(cmul(x, x), cmul(lin, x)), rhs)
            d = cadd(cadd(x, x), lin)
            x = csub(x, cdiv(f, d))
        out.append(x)
        prev = x
    return out


def first_prediction(reply):
    for ev in reply[3:].split(';'):
        f = ev.split('|')
        if f[0] == 'pred':
            return [parse(z) for z in f[6].split()], int(f[4])
    return None, 0


class Case(Base):
    def begin(self):
        self.sys, self.trk, self.ref = {}, {}, 0
        self.c('reset')

    def do_psys(self, e):
        i, s = e['id'], e['s']
        self.sys[i] = s
        t, S = 't%d' % i, 'S%d' % i
        self.c('prec 60')
        self.c('var %s %s' % (t, t))
        self.c('sys %s' % S)
        self.c('sevalm %s %s' % (S, s['ev']))
        prev = 's%dx0' % i
        self.c('node %s addi %s 1' % (prev, t))
        X = []
        for j, q in enumerate(s['eq'], 1):
            x, n = 'x%d_%d' % (i, j), 's%dq%d' % (i, j)
            self.c('var %s %s' % (x, x))
            X.append(x)
            one = [cval(q['a'])[0] + 1, cval(q['a'])[1]]
            self.c('node %sf ipow %s 2' % (n, x))
            for k, parts in (('a', [x, prev]), ('b', [t, x]), ('c', [t]), ('e', [t, t])):
                if cval(q[k]) == (0, 0):
                    continue
                self.c('node %s%s rat %s' % (n, k, ctok(q[k])))
                for p in parts:
                    self.c('node %s%s mul %s%s %s' % (n, k, n, k, p))
                self.c('node %sf %s %sf %s%s' % (n, 'add' if k in 'ab' else 'sub', n, n, k))
            self.c('node %so rat %s,%s' % (n, one[0], one[1]))
            self.c('node %sf sub %sf %so' % (n, n, n))
            self.c('sfn %s %sf' % (S, n))
            prev = x
        self.c('spath %s %s' % (S, t))
        self.c('sgrp %s %s' % (S, ' '.join(X)))

    def ready(self, sid, prec):
        self.c('prec %d' % prec)
        self.c('sprec S%d %d' % (sid, prec))
        self.c('nprec t%d %d' % (sid, prec))

    def make(self, name, ty, sid, prec, pred=None):
        self.ready(sid, prec)
        self.c('tmake %s %s S%d' % (name, ty, sid))
        if ty == 'amp':
            self.c('tamp %s 150 10 10' % name)
        self.c('tsetup %s %s 1e-5 100000 1/5 1/5 1e-50 2 1/2 5 1 100000 1 2' % (name, pred or 'RKF45'))

    def do_ptracker(self, e):
        self.trk[e['id']] = dict(ty=e['ty'], sys=e['sys'], prec=e['prec'])
        self.make('T%d' % e['id'], e['ty'], e['sys'], e['prec'])

    def do_ppred(self, e):
        self.c('prec %d' % e['prec'])
        self.c('tpred T%d %s' % (e['id'], e['pred']))

    def do_ptsys(self, e):
        T = self.trk[e['id']]
        self.ready(e['sys'], e['prec'])
        self.c('tsys T%d S%d' % (e['id'], e['sys']))
        T['sys'] = e['sys']
        if T['ty'] == 'amp':
            self.c('tamp T%d 150 10 10' % e['id'])

    def one(self, name, T, prec, u, k, chk):
        self.ready(T['sys'], prec)
        s = self.sys[T['sys']]
        h = '%s,%s' % tuple(v / 10 ** k for v in cval(u))
        self.c('trec %s 1' % name)
        self.c('ttrack %s %d 0 %s %s' % (name, prec, h, ' '.join(['1'] * s['n'])), lambda r: None if r.startswith('ok ') else 'tracking did not answer: %s' % r[:150])
        self.c('tdump %s' % name, chk)
        self.c('trec %s 0' % name)

    def do_measure(self, e):
        T = self.trk[e['id']]
        s = self.sys[T['sys']]
        re, im = cval(e['u'])
        h = (dec(re / 10 ** e['k']), dec(im / 10 ** e['k']))

        def chk(r):
            got, p = first_prediction(r)
            if got is None:
                return 'no prediction: %s' % r[:200]
            if p != e['prec']:
                return None                                  # an adaptive tracker chose to work with more
            d = agree(got, path(s, h))
            if d < e['digits']:
                return '%s predicts with an error of 1e-%d over a step of length 1e-%d in precision %d, must be at most 1e-%d' % (e['pred'], d, e['k'], e['prec'], e['digits'])
        self.one('T%d' % e['id'], T, e['prec'], e['u'], e['k'], chk)

    def do_same(self, e):
        T = self.trk[e['id']]
        self.c('prec %d' % (16 if T['ty'] == 'dbl' else T['prec']))
        self.c('tpred T%d %s' % (e['id'], e['pred']))
        self.ref += 1
        R = 'R%d' % self.ref
        self.make(R, 'mp', T['sys'], 110, e['pred'])
        got = []
        self.one(R, T, 110, e['u'], e['k'], lambda r: got.append(first_prediction(r)[0]))

        def chk(r):
            p, q = first_prediction(r)
            if p is None:
                return 'no prediction: %s' % r[:200]
            if q != e['prec']:
                return None
            if agree(p, got[0]) < e['digits']:
                return '%s predicts %s in precision %d, %s in precision 110' % (e['pred'], p[0], e['prec'], got[0][0] if got[0] else None)
        self.one('T%d' % e['id'], T, e['prec'], e['u'], e['k'], chk)
