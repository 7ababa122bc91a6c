"""ZeroSpec behaviours on the real zero-dimensional solve."""
from num import *
from casebase import *

TARGET = 'zerorep'
TIMEOUT = 400
CHUNK = 1               # start points and patches are random: the same in every fresh process
NAMES = 'x y z w'.split()
BASE = [(Fr(1), Fr(0)), (Fr(-3), Fr(0)), (Fr(0), Fr(2)), (Fr(0), Fr(-4))]
TB = [Fr(1, 10), Fr(1, 5), Fr(1, 20)]


def q(z):
    return '%s,%s' % z


def size(z):
    return max(abs(z[0]), abs(z[1]))


def frac(z):
    return tuple(Decimal(v.numerator) / Decimal(v.denominator) for v in z)


def mod(z):
    return (z[0] * z[0] + z[1] * z[1]).sqrt()


def dist2(a, b):
    return sum(((x[0] - y[0]) ** 2 + (x[1] - y[1]) ** 2 for x, y in zip(a, b)), Decimal(0)).sqrt()


def pts(f):
    p = [parse(z) for z in f.split()]
    return p


class Path:
    def __init__(self, t):
        f = t.split('|')
        (self.pre, self.eg, pi, si, self.bcode, b, self.bstep, x, u, m, self.cyc, ch, self.tfirst, mp, self.res, self.acc, self.accu, self.tend) = f
        self.pi, self.si, self.mult, self.changed, self.maxprec = int(pi), int(si), int(m), int(ch), int(mp)
        self.bs = b
        self.b = pts(b)
        self.x = pts(x)
        self.u = pts(u)


class Case(Base):
    def begin(self):
        self.nn = self.nz = 0
        self.stats = []
        self.solves = []        # (command index of paths, of dump, context)
        self.c('reset')

    def node(self, *w):
        self.nn += 1
        self.c('node q%d %s' % (self.nn, ' '.join(str(x) for x in w)))
        return 'q%d' % self.nn

    def fold(self, op, ns):
        r = ns[0]
        for n in ns[1:]:
            r = self.node(op, r, n)
        return r

    def do_clone(self, e):
        self.prob = e
        self.c('prec 30')
        groups, k = [], 0
        for d in e['d']:
            groups.append(NAMES[k:k + d])
            k += d
        for v in NAMES[:k]:
            self.c('var %s %s' % (v, v))
        self.c('sys T')
        for g in groups:
            self.c('sgrp T ' + ' '.join(g))
        self.blocks = [len(g) for g in groups]
        for f in e['fs']:
            fac = []
            for l in f:
                vs = groups[l['g'] - 1]
                t = [self.node('mul', self.node('rat', ctok(c)), v) if c != [1, 0, 1] else v for c, v in zip(l['c'], vs) if c != [0, 0, 1]]
                if l['c'][-1] != [0, 0, 1]:
                    t.append(self.node('rat', ctok(l['c'][-1])))
                fac.append(self.fold('add', t))
            self.c('sfn T ' + self.fold('mul', fac))

    def do_user(self, e):
        self.prob = dict(e, top='user')
        self.c('prec 30')
        self.c('var x x')
        self.c('var t t')
        self.blocks = None

    def user_make(self, e):
        pr, tb = self.prob, TB[e['s']['boundary']]
        u = Fr(1, 10 ** (pr['tol'] + 1))
        self.ends, self.starts, fac, tfac = [], [], [], []
        for i, p in enumerate(pr['P']):
            b = BASE[p['x'][0] - 1]
            P = (b[0] * (500 if p['far'] else 1) + (u * p['x'][1] if b[0] == 0 else 0), b[1] * (500 if p['far'] else 1) + (u * p['x'][1] if b[1] == 0 else 0))
            a = cval(p['a'])
            s = tuple(a[k] + (P[k] - a[k]) / tb for k in (0, 1))
            self.ends.append(a)
            self.starts.append(s)
            if p['dup'] == i + 1:
                d = self.node('mul', self.node('rat', q((s[0] - a[0], s[1] - a[1]))), 't')
                fac.append(self.node('sub', self.node('sub', 'x', self.node('rat', q(a))), d))
                tfac.append(self.node('sub', 'x', self.node('rat', q(a))))
        self.c('sys T')
        self.c('sgrp T x')
        self.c('sfn T ' + self.fold('mul', tfac))
        self.c('sys H')
        self.c('sgrp H x')
        self.c('sfn H ' + self.fold('mul', fac))
        self.c('spath H t')

    def settings(self, s, first):
        k, z = self.kind, self.z
        if first and k != 'mp':
            self.prec = 16 + (14 if s['prec'] and k == 'amp' else 0)
        w = 'before 1/%d during 1/%d egtol 1/%d resolve %d retrack 1/%d step 1/%d boundary %s points %d prec %d' % (
            10 ** s['before'], 10 ** s['during'], 10 ** s['egtol'], s['resolve'], 10 ** s['retrack'], 10 * s['step'], TB[s['boundary']], s['points'], self.prec)
        same = min(s['egtol'] - 2, 7)
        self.same = Decimal(10) ** -same
        w += ' same 1/%d' % 10 ** same
        w += ' maxsteps 3000'       # fixed precision trackers never enlarge a step again, so that a path can take very long; so can one to a multiple point at infinity
        if self.prob['top'] == 'user':
            w += ' mid 1/%d trunc 1000' % 10 ** self.prob['tol']
        self.s = s
        self.c('zset %s %s' % (z, w))

    def do_make(self, e):
        self.nz += 1
        self.z = 'Z%d' % self.nz
        self.kind, self.flav = e['k'], e['f']
        s = e['s']
        self.prec = 16
        if e['k'] == 'mp':
            self.prec = 30 + 10 * s['prec']
        self.c('prec %d' % self.prec)
        if self.prob['top'] == 'user':
            self.user_make(e)
            self.c('sprec H %d' % self.prec)
            self.c('sprec T %d' % self.prec)
            self.c('zuser %s %s %s T H %d %d %s' % (self.z, e['k'], e['f'], max(30, self.prec), len(self.starts), ' '.join(q(x) for x in self.starts)))
        else:
            self.c('sprec T %d' % self.prec)
            self.c('zmake %s %s %s %s T' % (self.z, e['k'], e['f'], self.prob['top']))
        if s['zsetup']:
            self.c('zsetup %s' % self.z)
        self.settings(s, True)
        n = len(self.prob['P']) if self.prob['top'] == 'user' else self.prob['paths']
        self.n = n
        self.c('zinfo %s' % self.z, lambda r: None if r.split()[1:2] == [str(n)] else 'has %s paths, must have %d' % (r[3:], n))
        self.c('zrec %s 1' % self.z)
        self.before = None

    def do_set(self, e):
        self.settings(e['s'], False)

    def do_solve(self, e):
        n = self.n
        self.c('zsolve %s' % self.z, equals('%d %d %d' % (n, n, n)))
        ctx = dict(prob=self.prob, s=self.s, kind=self.kind, flav=self.flav, blocks=self.blocks, same=self.same, n=n, ends=getattr(self, 'ends', None), starts=getattr(self, 'starts', None), prec=self.prec, z=self.z, again=e['n'] > 1)
        prev = self.before

        def chk(r):
            if not r.startswith('ok '):
                return r[:200]
            ctx['paths'] = P = [Path(t) for t in r[3:].split(';')]
            return self.paths(P, ctx, prev)
        self.before = ctx
        ctx['ip'] = len(self.cmds)
        self.c('zpaths %s' % self.z, chk)
        ctx['id'] = len(self.cmds)
        self.c('zdump %s' % self.z)
        self.solves.append(ctx)

    # what every path must say, and where it must be
    def paths(self, P, c, prev):
        for i, p in enumerate(P):
            if (p.pi, p.si) != (i, i):
                return 'path %d has indices %d, %d' % (i, p.pi, p.si)
            if p.bcode != p.pre:
                return 'path %d: success at the boundary is %s, in the metadata %s' % (i, p.bcode, p.pre)
            if p.pre == 'NeverStarted':
                return 'path %d was never tracked' % i
            if (p.eg != 'NeverStarted') != (p.pre == 'Success'):
                return 'path %d: %s before the endgame, %s in it' % (i, p.pre, p.eg)
            for z in p.x + p.u:
                if not (z[0].is_finite() and z[1].is_finite()) and p.eg == 'Success':
                    return 'path %d ends in %s and is called a success' % (i, p.x)
        m = self.multiplicities(P, c)
        if m:
            return m
        tb = Decimal(TB[c['s']['boundary']].numerator) / Decimal(TB[c['s']['boundary']].denominator)
        for i, p in enumerate(P):
            if p.eg != 'Success':
                continue
            if Decimal(p.acc) > Decimal(10) ** -c['s']['egtol'] * Decimal('1.001'):
                return 'path %d is a success with accuracy estimate %s, more than 1e-%d' % (i, p.acc, c['s']['egtol'])
            t = parse(p.tend)
            k = 0
            while k < 400 and t[0] > 0 and abs(t[0] * 2 ** k - tb) > tb * Decimal(10) ** -12:
                k += 1
            if not t[0] > 0 or abs(t[1]) > t[0] * Decimal(10) ** -12 or not 1 <= k < 400:
                return 'path %d: time last used %s is not the boundary %s halved some times' % (i, p.tend, tb)
            if int(p.cyc) < 1:
                return 'path %d has cycle number %s' % (i, p.cyc)
        return (self.user if c['prob']['top'] == 'user' else self.clone)(P, c)

    def multiplicities(self, P, c):
        ok = [i for i, p in enumerate(P) if p.eg == 'Success']
        for i, p in enumerate(P):
            if i not in ok:
                if p.mult != 1:
                    return 'path %d did not succeed and has multiplicity %d' % (i, p.mult)
                continue
            d = [dist2(p.x, P[j].x) for j in ok if j != i]
            lo = 1 + sum(1 for v in d if v < c['same'] * Decimal('0.999'))
            hi = 1 + sum(1 for v in d if v < c['same'] * Decimal('1.001'))
            if not lo <= p.mult <= hi:
                return 'path %d has multiplicity %d, but %d paths end within the tolerance of it' % (i, p.mult, lo)

    def user(self, P, c):
        pr, tb = c['prob'], TB[c['s']['boundary']]
        for i, (p, w) in enumerate(zip(P, pr['P'])):
            a, s = c['ends'][i], c['starts'][i]
            if w['far']:
                if p.pre == 'Success':
                    return 'path %d is at %s at the boundary, beyond the truncation threshold, and is called %s' % (i, p.b, p.pre)
                continue
            B = frac(tuple(a[k] + (s[k] - a[k]) * tb for k in (0, 1)))
            if p.pre != 'Success' or p.eg != 'Success':
                return 'path %d, straight to %s, ended in %s before and %s in the endgame' % (i, a, p.pre, p.eg)
            if dist2(p.b, [B]) > Decimal(10) ** -9:
                return 'path %d is at %s at the boundary, must be at %s' % (i, p.b, B)
            if dist2(p.x, [frac(a)]) > Decimal(10) ** -7 or dist2(p.u, [frac(a)]) > Decimal(10) ** -7:
                return 'path %d ended at %s, must end at %s' % (i, p.x, a)
            d = [mod(csub(p.x[0], frac(v))) for j, v in enumerate(c['ends']) if pr['P'][j]['dup'] == j + 1]
            want = Decimal(1)
            for v in d:
                want *= v
            if abs(Decimal(p.res) - want) > want / 100 + Decimal(10) ** -13:
                return 'path %d ends at %s with function residual %s, must be %s' % (i, p.x, p.res, want)
            if abs(Decimal(p.accu) - Decimal(p.acc)) > Decimal(p.acc) / 100 + Decimal(10) ** -13:
                return 'path %d: accuracy estimate %s, in coordinates of the user, which are the same, %s' % (i, p.acc, p.accu)
            if c['flav'] == 'cauchy' and p.cyc != '1':
                return 'path %d is straight and has cycle number %s' % (i, p.cyc)
            if p.mult != pr['mult'][i]:
                return 'path %d has multiplicity %d, must have %d' % (i, p.mult, pr['mult'][i])
        return None

    def clone(self, P, c):
        sols = c['prob']['sols']
        at = [0] * len(sols)
        lost = []
        slow = 0
        for i, p in enumerate(P):
            if p.pre == 'GoingToInfinity' or p.eg in ('SecurityMaxNormReached', 'GoingToInfinity'):
                lost.append(i)
                continue
            if 'MaxNumStepsTaken' in (p.pre, p.eg) and c['kind'] != 'amp':
                slow += 1
                continue
            if p.eg != 'Success':
                return 'path %d ended in %s before and %s in the endgame' % (i, p.pre, p.eg)
            near = []
            for k, s in enumerate(sols):
                d, o = Decimal(0), 0
                for g, n in enumerate(c['blocks']):
                    h = p.x[o:o + n + 1]
                    o += n + 1
                    h = h[1:] + h[:1]           # the homogenizing variable comes first
                    w = [cdecs(v) for v in s['p'][g]]
                    nh, nw = sum(size(v) for v in h), sum(size(v) for v in w)
                    if nh < Decimal('0.001'):
                        return 'path %d ends at the origin of a group: %s' % (i, p.x)
                    for a in range(n + 1):      # distance of projective points: the minors
                        for b in range(a):
                            d = max(d, size(csub(cmul(h[a], w[b]), cmul(h[b], w[a]))) / nh / nw)
                if d < Decimal(10) ** -6:
                    near.append(k)
            if len(near) != 1:
                return 'path %d is called a success, but ends at %s, which is no solution' % (i, p.u)
            k = near[0]
            at[k] += 1
            if sols[k]['fin']:
                want = [cdecs(v) for q in sols[k]['p'] for v in q[:-1]]
                sc = 1 + max([size(v) for v in want])
                if len(p.u) != len(want) or any(size(csub(a, b)) > sc * sc * Decimal(10) ** -5 for a, b in zip(p.u, want)):
                    return 'path %d ends at %s in the coordinates of the user, must be %s' % (i, p.u, want)
                if Decimal(p.res) > Decimal(10) ** -5 * sc ** 4:
                    return 'path %d ends at a solution with residual %s' % (i, p.res)
        miss = 0
        for k, s in enumerate(sols):
            if at[k] > s['m'] or (s['fin'] and not slow and at[k] != s['m']):
                return '%d paths end at the solution %s of multiplicity %d' % (at[k], s['p'], s['m'])
            if not s['fin']:
                miss += s['m'] - at[k]
        c['st'] = [('slow',)] * slow + [('other',)] * (c['n'] - slow)
        if miss != len(lost) and not (slow and len(lost) <= miss):
            return '%d paths went to infinity, must be %d' % (len(lost), miss)
        return None
