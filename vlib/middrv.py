"""MidSpec behaviours on the real check for path crossings."""
from casebase import *
from num import *

TARGET = 'zerorep'
BASE = [(Fr(1), Fr(0)), (Fr(-3), Fr(0)), (Fr(0), Fr(2)), (Fr(0), Fr(-4))]
START = [(Fr(1), Fr(0)), (Fr(-2), Fr(1)), (Fr(1, 2), Fr(3))]


def tok(z):
    return '%s,%s' % z


class Case(Base):
    def begin(self):
        self.c('reset')
        self.made = False

    def do_tol(self, e):
        self.c(('mset' if self.made else 'mmake') + ' M 1/%d' % 10 ** e['k'])
        self.made = True

    def do_check(self, e):
        u = Fr(1, 10 ** (e['k'] + 1))
        ps = []
        for p in e['paths']:
            x, s = p['x'], p['s']
            ps.append('%d %s %s %s %s' % (p['ok'], tok(BASE[x[0] - 1]), tok((Fr(1, 2), u * x[1])), tok(START[s[0] - 1]), tok((Fr(1, 3) + u * s[1], Fr(0)))))
        want = {i: c for i, c in enumerate(e['crossed']) if c}

        def chk(r):
            f = r[3:].split()
            if not r.startswith('ok ') or f[0] != f[1]:
                return 'the check answered %s but remembers %s' % tuple(f[:2])
            got = {}
            for q in f[2:]:
                i, _, b = q.partition(':')
                if int(i) in got:
                    return 'path %s is listed twice' % i
                got[int(i)] = 2 if b == '1' else 1
            if got != want or (f[0] == '1') != e['passed']:
                return 'the check for crossings answered %s, must be %s (path: 1 crossed, 2 to run again)' % (got, want)
        self.c('mcheck M %d 2 %s' % (len(ps), ' '.join(ps)), chk)
