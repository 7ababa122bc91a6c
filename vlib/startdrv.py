"""StartSpec behaviours on the real start systems."""
from num import *
from casebase import *

TARGET = 'startrep'
VARS = ['x', 'y', 'z', 'w', 't']
GAMMA = (1, 2, 3)     # (1+2i)/3


def mod2(z):
    return max(abs(z[0]), abs(z[1]))


class Case(Base):
    def begin(self):
        self.prec = 30
        self.nn = 0
        self.live = ['T']
        self.pts = {}          # start system (copies share) -> {(i): {ty: (point, prec)}}
        self.same = {}
        self.foreign = set()   # reloaded from an archive: has variables of its own
        self.c('reset')
        self.c('prec 30')
        for v in VARS:
            self.c('var %s %s' % (v, v))

    def node(self, *w):
        self.nn += 1
        self.c('node q%d %s' % (self.nn, ' '.join(str(x) for x in w)))
        return 'q%d' % self.nn

    def do_target(self, e):
        self.c('sys T')
        for g in e['g']:
            self.c({'aff': 'sgrp', 'hom': 'shgrp', 'ung': 'sungs'}[g['kind']] + ' T ' + ' '.join(g['vs']))
        self.nf = len(e['fns'])
        for j, f in enumerate(e['fns']):
            tot = None
            for t in f:
                n = self.node('rat', ctok(t['c']))
                for x in sorted(t['e']):
                    k = t['e'][x]
                    if k:
                        n = self.node('mul', n, self.node('ipow', x, k) if k > 1 else x)
                tot = n if tot is None else self.node('add', tot, n)
            if e['nonpoly'] and j == 0:
                tot = self.node('add', tot, self.node('exp', e['order'][0]))
            self.c('sfn T ' + tot)
        if e['path']:
            self.c('spath T t')
        if e['how'] != 'plain':
            self.c('shomog T')
        if e['how'] == 'patch':
            self.c('spatch T')
        self.nv = len(e['order'])

    def do_make(self, e):
        cmd = {'td': 'stot', 'mh': 'smhom'}[e['k']] + ' S%d T' % e['id']
        if not e['ok']:
            self.c(cmd, refused)
            return
        self.c(cmd)
        self.live.append('S%d' % e['id'])
        self.same['S%d' % e['id']] = 'S%d' % e['id']
        self.pts['S%d' % e['id']] = {}
        self.c('snum S%d' % e['id'], equals(e['num']))

    def do_degs(self, e):
        s = 'S%d' % e['id']
        for i, g in enumerate(e['gs']):
            self.c('sdegso %s %s' % (s, ' '.join(g)), equals(' '.join(str(r[i]) for r in e['m'])) if self.kind(s) == 'mh' else self.degset([r[i] for r in e['m']]))
        names = {'h1': 'HOM_VAR_0', 'h2': 'HOM_VAR_1', 'h3': 'HOM_VAR_2'}
        self.c('svars %s' % s, equals(' '.join(names.get(v, v) for v in e['order'])))

    def kind(self, s):
        return 'mh' if any(c.startswith('smhom %s ' % self.same[s]) for c in self.cmds) else 'td'

    @staticmethod
    def degset(want):
        return lambda r: equals(' '.join(map(str, want)))(r)

    def do_method(self, e):
        self.c('%s S%d %s' % ('sevalm' if e['m'][0] == 'ev' else 'sderivm', e['id'], e['m'][1]))

    def do_prec(self, e):
        self.prec = e['p']
        self.c('prec %d' % e['p'])
        self.c('nprec t %d' % e['p'])
        for s in self.live:
            self.c('sprec %s %d' % (s, e['p']))

    def do_copy(self, e):
        self.c('std_%s S%d S%d' % (e['k'], e['new'], e['id']))
        self.live.append('S%d' % e['new'])
        self.same['S%d' % e['new']] = self.same['S%d' % e['id']]
        if e['k'] == 'ser' or 'S%d' % e['id'] in self.foreign:
            self.foreign.add('S%d' % e['new'])

    def zero_tol(self, ty, p, x, deg):
        m = max([Decimal(1)] + [mod2(z) for z in x]) * (self.nv + 1)
        return (Decimal(10) ** -10 if ty == 'dbl' else Decimal(10) ** -(p - 8)) * m ** max(deg, 1)

    def do_pt(self, e):
        s, ty, p = 'S%d' % e['id'], e['ty'], self.prec
        if not e['ok']:
            self.c('sstartpt %s %s %d' % (s, ty, e['i']), refused)
            return
        known = self.pts[self.same[s]]

        def chk(r):
            if not r.startswith('ok '):
                return 'no start point: %s' % r[:200]
            f = r[3:].split(' | ')
            if len(f) != 5:
                return 'start point: %s' % r[:200]
            x, d, v = [[parse(t) for t in q.split()] for q in f[1:4]]
            if any(not (a.is_finite() and b.is_finite()) for a, b in x + v):
                return 'start point is not finite: %s' % r[:200]
            if int(f[0]) != (16 if ty == 'dbl' else p):
                return 'start point has precision %s, must have %d' % (f[0], 16 if ty == 'dbl' else p)
            tl = self.zero_tol(ty, p, x, e['deg'])
            if any(mod2(z) > tl for z in v):
                return 'start point %d does not solve the start system: residual %s' % (e['i'], [float(mod2(z)) for z in v])
            if f[4] == 'nonsquare':
                return 'the start system is not square'
            if ty == 'mp' and p >= 30:
                if mod2(parse(f[4])) < Decimal(10) ** -15:
                    return 'start point %d is singular: determinant %s' % (e['i'], f[4])
            for i, q in known.items():
                if i == e['i']:
                    for ty2, (x2, d2, p2) in q.items():
                        sc = (1 + max(mod2(z) for z in d + d2)) ** 2
                        t2 = Decimal(10) ** -6 if 'dbl' in (ty, ty2) else Decimal(10) ** -(min(p, p2) - 12)
                        if len(d) != len(d2) or any(mod2(csub(a, b)) > t2 * sc for a, b in zip(d, d2)):
                            return 'start point %d differs between calls' % i
                else:
                    for ty2, (x2, d2, p2) in q.items():
                        t2 = Decimal(10) ** -10 if 'dbl' in (ty, ty2) else Decimal(10) ** -13
                        if len(x) == len(x2) and all(mod2(csub(a, b)) <= t2 for a, b in zip(x, x2)):
                            return 'start points %d and %d coincide' % (i, e['i'])
            known.setdefault(e['i'], {})[ty] = (x, d, p)
            return None
        self.c('sstart %s %s %d' % (s, ty, e['i']), chk)

    def do_homotopy(self, e):
        s, ty, p = 'S%d' % e['id'], e['ty'], self.prec
        if s in self.foreign:
            return
        a = self.node('isub', 't', 1)
        b = self.node('mul', self.node('rat', ctok(GAMMA)), 't')
        self.c('smul A T ' + a)
        self.c('smul B %s %s' % (s, b))
        self.c('sadd H A B')
        self.c('spath H t')
        state = {}

        def zero(r):
            v = parse_list(r)
            if v is None:
                return 'homotopy at the start point: %s' % r[:200]
            x = state.get('x') or [(Decimal(1), Decimal(0))]
            tl = self.zero_tol(ty, p, x, e['deg'])
            if any(mod2(z) > tl for z in v):
                return 'the homotopy does not vanish at start point %d, t=1: %s' % (e['i'], [float(mod2(z)) for z in v])

        def keepx(r):
            state['x'] = parse_list(r)
            return None if state['x'] else 'start point: %s' % r[:100]

        def keepg(r):
            state['g'] = parse_list(r)
            return None if state['g'] else 'start system: %s' % r[:100]

        def mix(r):
            v, g = parse_list(r), state.get('g')
            if v is None:
                return 'homotopy: %s' % r[:200]
            if g is None or any(not q for q in e['f']):
                return None
            t = cdecs(e['t'])
            omt = csub((Decimal(1), Decimal(0)), t)
            gt = cmul(cdecs(list(GAMMA)), t)
            for j in range(self.nf):
                want = cadd(cmul(omt, cdecs(e['f'][j])), cmul(gt, g[j]))
                sc = 1 + mod2(g[j]) + mod2(cdecs(e['f'][j]))
                if not close(v[j], want, ty, p, sc):
                    return 'the homotopy is not (1-t)*target + gamma*t*start: function %d gave %s, must be %s' % (j, v[j], want)
            if len(v) != len(g) or any(not close(v[j], g[j], ty, p) for j in range(self.nf, len(v))):
                return 'the homotopy has other patches than the start system'
        xs = ' '.join(ctok(v) for v in e['x'])
        self.c('sstartpt %s %s %d' % (s, ty, e['i']), keepx)
        self.c('shomat H %s %s %d 1' % (s, ty, e['i']), zero)
        self.c('seval %s %s %s' % (s, ty, xs), keepg)
        self.c('seval H %s %s %s' % (ty, xs, ctok(e['t'])), mix)
        self.c('sdrop H')
        self.c('sdrop A')
        self.c('sdrop B')

    def do_user(self, e):
        flat = ' '.join(ctok(v) for q in e['pts'] for v in q)
        p, ty = self.prec, e['ty']
        self.c('suser U T %s 2 %s' % (ty, flat))
        self.c('snum U', equals(2))
        if e['i'] >= 2:
            self.c('sstartpt U %s %d' % (ty, e['i']), refused)
            return
        for ty2 in ('dbl', 'mp'):
            def chk(r, ty2=ty2):
                v = parse_list(r)
                if v is None or len(v) != len(e['pts'][e['i']]):
                    return 'start point: %s' % r[:200]
                t = 'dbl' if 'dbl' in (ty, ty2) else 'mp'
                if any(not close(a, cdecs(b), t, p) for a, b in zip(v, e['pts'][e['i']])):
                    return 'not the point given'
            self.c('sstartpt U %s %d' % (ty2, e['i']), chk)
