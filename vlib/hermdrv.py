"""HermSpec behaviours on the real interpolation."""
from num import *
from casebase import *

TARGET = 'endrep'
TIMEOUT = 120
NODES = 'HermiteInterpolateAndSolve evaluates the Newton form with the nodes z1, z2, z3, ... where z1, z1, z2, z2, ... are meant'


class Case(Base):
    def begin(self):
        self.worst = Decimal(0)
        self.c('reset')
        self.c('prec 30')

    def do_herm(self, e):
        self.c('prec %d' % (e['prec'] if e['ty'] == 'mp' else 30))
        v = [ctok(t) for t in e['times']] + [ctok(x) for p in e['xs'] for x in p] + [ctok(x) for p in e['ds'] for x in p]
        self.c('hermite %s %d %s %d %s %d %d %s' % (e['ty'], e['prec'], ctok(e['target']), e['n'], 'back' if e['back'] else 'front', e['m'], len(e['ans']), ' '.join(v)),
               lambda r: self.check(r, e))

    def check(self, r, e):
        if not r.startswith('ok'):
            return 'no value: %s' % r[:200]
        y = [parse(z) for z in r[3:].split()]
        if len(y) != len(e['ans']):
            return '%d coordinates, must be %d' % (len(y), len(e['ans']))
        used = e['xs'][-e['n']:] if e['back'] else e['xs'][:e['n']]
        sc = max([Decimal(1)] + [mag(cdecs(x)) for p in used + [e['ans']] for x in p])
        w = max(mag(csub(a, cdecs(b))) for a, b in zip(y, e['ans'])) / sc
        self.worst = max(self.worst, w * Decimal(10) ** e['prec'])
        lim = Decimal(10) ** (7 - (e['prec'] if e['ty'] == 'mp' else 16))
        if not w <= lim and max(mag(csub(a, cdecs(b))) for a, b in zip(y, e['found'])) / sc <= lim * 100:
            return self.finding(NODES)
        if not w <= Decimal(10) ** (7 - (e['prec'] if e['ty'] == 'mp' else 16)):
            return 'interpolated %s, the polynomial is %s there' % (r[3:], ' '.join(ctok(x) for x in e['ans']))
        return None


def mag(z):
    return (z[0] * z[0] + z[1] * z[1]).sqrt()
