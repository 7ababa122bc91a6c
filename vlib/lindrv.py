"""LinSpec behaviours on real patches and slices."""
from num import *
from casebase import *

TARGET = 'linrep'
ONE = (Decimal(1), Decimal(0))
ZERO = (Decimal(0), Decimal(0))


def dot(a, b):
    s = ZERO
    for p, q in zip(a, b):
        s = cadd(s, cmul(p, q))
    return s


def cdiv(a, b):
    n = b[0] * b[0] + b[1] * b[1]
    return cmul(a, (b[0] / n, -b[1] / n))


def size(z):
    return abs(z[0]) + abs(z[1])


class Case(Base):
    def begin(self):
        self.obj = {}      # id -> dict(kind, tok, sh, real)
        self.prec = {}     # id -> precision (as read after a copy)
        self.dflt = 30
        self.ref = {}      # tok -> rows, constants
        self.c('reset')

    def name(self, i):
        return '%s%d' % ('P' if self.obj[i]['kind'] == 'patch' else 'L', i)

    def pre(self, i):
        return 'p' if self.obj[i]['kind'] == 'patch' else 'sl'

    def shape(self, i):
        o = self.obj[i]
        return (len(o['sh']), sum(o['sh'])) if o['kind'] == 'patch' else (o['sh']['dim'], o['sh']['n'])

    def after(self, i, want=None):
        """dimensions and precision of a new object, and the coefficients it must have"""
        n, k = self.name(i), self.pre(i)
        self.c('%sdims %s' % (k, n), equals('%d %d' % self.shape(i)))
        if want is not None:
            self.c('%sgetprec %s' % (k, n), equals(want))
            self.prec[i] = want
        else:
            def keep(r, i=i):
                self.prec[i] = int(r[3:])
                return None if self.prec[i] in (self.cand) else 'a copy has a precision that is neither the default nor the original\'s: %s' % r
            self.c('%sgetprec %s' % (k, n), keep)

        def ref(r, i=i):
            o = self.obj[i]
            if not r.startswith('ok '):
                return 'coefficients: %s' % r[:200]
            f = r[3:].split('|')
            m, nv = self.shape(i)
            v = [parse(t) for t in f[0].split()]
            c = [parse(t) for t in f[1].split()] if len(f) > 1 else []
            if len(v) != m * nv or (len(f) > 1 and len(c) != m):
                return 'coefficients have the wrong shape: %s' % r[:200]
            rows = [v[a * nv:(a + 1) * nv] for a in range(m)]
            if any(not (z[0].is_finite() and z[1].is_finite()) for z in v + c):
                return 'coefficients are not finite'
            old = self.ref.get(o['tok'])
            t = Decimal(10) ** -120
            if old:
                if any(size(csub(a, b)) > t for ra, rb in zip(rows, old[0]) for a, b in zip(ra, rb)) or any(size(csub(a, b)) > t for a, b in zip(c, old[1])):
                    return 'a copy has other coefficients'
                return None
            for tok, (r2, c2) in self.ref.items():
                if any(size(csub(a, b)) < t and size(a) > t and o['kind'] == 'patch' for ra, rb in zip(rows, r2) for a, b in zip(ra, rb)):
                    return 'two random objects share coefficients'
            if o['real'] and any(z[1] != 0 for z in v + c):
                return 'a real object has non-real coefficients'
            if not o['real'] and o['kind'] == 'patch' and any(z[1] == 0 and z[0] != 0 for z in v + c):
                return 'a complex patch has real coefficients'
            if o['kind'] == 'patch':
                at = 0
                for a, s in enumerate(o['sh']):
                    for j in range(nv):
                        inside = at <= j < at + s
                        if (size(rows[a][j]) == 0) == inside:
                            return 'patch %d has coefficient %s at variable %d' % (a, rows[a][j], j)
                    at += s
            else:
                if o['sh']['hom'] and any(size(z) for z in c):
                    return 'a homogeneous slice has constants'
                if not o['sh']['hom'] and any(size(z) == 0 for z in c):
                    return 'an affine slice has no constants'
                if o['sh']['orth']:
                    vecs = rows if m <= nv else [[rows[a][j] for a in range(m)] for j in range(nv)]
                    for a in range(len(vecs)):
                        for b in range(len(vecs)):
                            d = dot(vecs[a], [(z[0], -z[1]) for z in vecs[b]])
                            if size(csub(d, ONE if a == b else ZERO)) > Decimal(10) ** -100:
                                return 'an orthogonal slice is not orthonormal to high precision: %s' % (d,)
            self.ref[o['tok']] = (rows, c)
        self.c('%sref %s' % (k, n), ref)

    def do_pmake(self, e):
        self.obj[e['id']] = dict(kind='patch', tok=e['tok'], sh=e['sh'], real=e['real'])
        self.c('pmake P%d %s %s' % (e['id'], 'real' if e['real'] else 'complex', ' '.join(map(str, e['sh']))))
        self.after(e['id'], e['prec'])

    def do_slmake(self, e):
        s = e['sh']
        self.obj[e['id']] = dict(kind='slice', tok=e['tok'], sh=s, real=e['real'])
        self.c('slmake L%d %s %d %d %d %d' % (e['id'], 'real' if e['real'] else 'complex', s['hom'], s['orth'], s['dim'], s['n']))
        self.after(e['id'], e['prec'])

    def do_copy(self, e):
        self.obj[e['id']] = self.obj[e['of']]
        k = self.pre(e['of'])
        self.c('%s%s %s %s' % (k, e['how'], self.name(e['id']), self.name(e['of'])))
        self.cand = range(16, 1001)
        self.after(e['id'])

    def do_setprec(self, e):
        k, n = self.pre(e['id']), self.name(e['id'])
        self.c('%sprec %s %d' % (k, n, e['p']))

        def chk(r, i=e['id'], p=e['p']):
            self.prec[i] = p
            return equals(p)(r)
        self.c('%sgetprec %s' % (k, n), chk)

    def do_default(self, e):
        self.c('prec %d' % e['p'])
        self.dflt = e['p']

    def do_equal(self, e):
        self.c('peq P%d P%d' % (e['i'], e['j']), equals('1 0' if e['eq'] else '0 1'))

    def do_obs(self, e):
        i, ty, w = e['id'], e['ty'], e['w']
        k, n = self.pre(i), self.name(i)
        o = self.obj[i]
        x = [cdecs(v) for v in e['x']]
        dflt = self.dflt

        def chk(r):
            p = self.prec[i]
            m, nv = self.shape(i)
            rows, cons = self.ref[o['tok']]
            f = r[3:].split(' | ') if r.startswith('ok ') else []
            if len(f) < 2:
                return 'no value: %s' % r[:200]
            v = [parse(t) for t in f[1].split()]
            if w == 'resc':
                at, want = 0, []
                for a, s in enumerate(o['sh']):
                    seg = x[at:at + s]
                    d = dot(rows[a][at:at + s], seg)
                    if size(d) < Decimal(10) ** -4:
                        return None      # not a point of this chart
                    want += [cdiv(z, d) for z in seg]
                    at += s
            elif w in ('jac', 'jacip'):
                want = [z for row in rows for z in row]
                if w == 'jacip' and o['kind'] == 'patch':
                    want = [(Decimal('3.5'), Decimal(0))] * nv + want
            else:
                want = [csub(dot(row, x), ONE) if o['kind'] == 'patch' else cadd(dot(row, x), cons[a] if cons else ZERO) for a, row in enumerate(rows)]
                if w == 'evalip' and o['kind'] == 'patch':
                    want = [(Decimal('3.5'), Decimal(0))] * 2 + want
            if len(v) != len(want):
                return '%d values, must be %d' % (len(v), len(want))
            sc = max([Decimal(1)] + [size(z) for z in x] + [size(z) for z in want]) * 10
            t = sc * (Decimal(10) ** -13 if ty == 'dbl' else Decimal(10) ** -(p - 5))
            for a, b in zip(v, want):
                if not (a[0].is_finite() and a[1].is_finite()) or size(csub(a, b)) > t:
                    return 'gave %s, must be %s to %s digits' % (a, b, 'double' if ty == 'dbl' else p)
            # values made up of constants are at the default precision, the others at the working precision
            if ty == 'mp' and any(int(q) not in (p, dflt) for q in f[0].split('-')):
                return 'gave values of precision %s, working precision is %d, default %d' % (f[0], p, dflt)
            if w == 'resc':
                pe = [parse(t2) for t2 in f[2].split()]
                if any(size(z) > t for z in pe):
                    return 'a rescaled point does not satisfy the patch: %s' % f[2][:100]
        if w == 'resc':
            # only points of the chart: a zero segment is not a projective point
            at = 0
            for s in o['sh']:
                if all(z == ZERO for z in x[at:at + s]):
                    return
                at += s
        self.c('%s%s %s %s %s' % (k, w, n, ty, ' '.join(ctok(v) for v in e['x'])), chk)
