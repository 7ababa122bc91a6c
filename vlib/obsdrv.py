"""ObsSpec behaviours on the real trackers and observers."""
from num import *
from casebase import *
import trackdrv

TARGET = 'trackrep'
TIMEOUT = 300
Z = lambda a, b=0, d=1: [a, b, d]
SYS = [dict(n=1, kind='path', proj=False, ev='SLP', p=[[Z(1), Z(1, 1, 2), Z(1, 0, 2), Z(0)]], d=[Z(6)], k=[Z(0)]),
       dict(n=2, kind='path', proj=False, ev='FT', p=[[Z(0), Z(1), Z(0), Z(1, 0, 3)], [Z(3), Z(0, 1), Z(0), Z(0)]], d=[Z(-7), Z(5, 4)], k=[Z(0), Z(0, 1)])]


class Case(trackdrv.Case):
    def do_begin(self, e):
        ty = e['ty']
        self.events = {}
        self.rec = {}
        self.kinds = e['kinds']
        self.prec = 16 if ty != 'mp' else 30
        for i in range(e['ntrk']):
            self.do_sys(dict(id=i + 1, s=SYS[i]))
            self.do_tracker(dict(id=i + 1, ty=ty, sys=i + 1, prec=self.prec))
        for o, k in enumerate(e['kinds'], 1):
            self.c('tobsmake T1 o%d %s' % (o, k))

    def do_add(self, e):
        self.c('tobsadd T%d o%d' % (e['trk'], e['obs']))

    def do_rem(self, e):
        self.c('tobsrem T%d o%d' % (e['trk'], e['obs']))

    def do_arm(self, e):
        f = lambda x: 'o%d' % x if x else '-'
        self.c('tobsat T1 o%d %d %s %s' % (e['who'], e['j'], f(e['rem']), f(e['add'])))

    def do_track(self, e):
        k = e['trk']
        s = SYS[k - 1]
        self.before(dict(prec=self.prec), self.trk[k])
        self.c('ttol T%d %s' % (k, '1e-15' if e['tight'] else '1e-6'))
        self.c('trec T%d 1' % k)
        x0 = [sum((cval(c)[0] for c in p), 0) for p in s['p']], [sum((cval(c)[1] for c in p), 0) for p in s['p']]
        self.c('ttrack T%d %d 1 0 %s' % (k, self.prec, ' '.join('%s,%s' % z for z in zip(*x0))), lambda r: None if r.startswith('ok Success') else 'tracking gave %s' % r[:100])
        self.c('tdump T%d' % k, lambda r, n=e['n']: self.events.__setitem__(n, [x.split('|') for x in r[3:].split(';')]) or (None if r.count(';') > 20 else 'only %d events' % r.count(';')))
        self.c('trec T%d 0' % k)
        for w in range(1, len(self.kinds) + 1):
            self.c('tobsat T1 o%d 0 - -' % w) if self.kinds[w - 1] == 'count' else None
        for o, h in enumerate(e['heard'], 1):
            if self.kinds[o - 1] == 'first':
                for t in self.trk:
                    self.c('tobsrem T%d o%d' % (t, o))
            self.c('tobsread T1 o%d' % o, lambda r, o=o, h=h, n=e['n']: (self.recorder if self.kinds[o - 1] in ('first', 'minmax') else self.compare)(o, h, r, n))

    def recorder(self, o, heard, r, n):
        """the precision recorders show the last track they heard the whole of"""
        kind = self.kinds[o - 1]
        if not r.startswith('ok'):
            return 'observer %d: %s' % (o, r[:100])
        got = r[3:].strip()
        if not heard or heard[-1]['t'] != n:
            want = self.rec.get(o)
        elif heard[-1]['a'] != 1 or heard[-1]['b'] or heard[-1]['ua'] or heard[-1]['ub']:
            want = None
        else:
            ev = self.events[n]
            start = [int(x[4]) for x in ev if x[0] == 'started'][0]
            after = ev[[x[0] for x in ev].index('started'):]
            ch = [(x[1],) + tuple(int(y) for y in x[6].split()) for x in after if x[0] == 'prec']
            if kind == 'minmax':
                ps = [start] + [c[2] for c in ch]
                want = '%d %d' % (min(ps), max(ps))
            else:
                up = [c for c in ch if c[2] > c[1]]
                want = '1 %d %d %s' % (start, up[0][2], up[0][0]) if up else '0 %d -' % start
        self.rec[o] = got
        if want is None:
            return
        f = lambda t: [tuple(round(float(c), 9) for c in w.split(',')) if ',' in w else w for w in t.split()]
        if f(got) != f(want):
            return 'observer %d (%s) shows %s after track %d, must be %s' % (o, kind, got, n, want)

    def compare(self, o, heard, r, n=0):
        kind = self.kinds[o - 1]
        got = (r[3:] if r.startswith('ok ') else '').strip()
        if not r.startswith('ok'):
            return 'observer %d: %s' % (o, r[:100])
        opts = [[]]                      # the event lists it may have heard
        for g in heard:
            ev = self.events[g['t']]
            b = g['b'] or len(ev)
            alts = [ev[x - 1:y] for x in ([g['a'] - 1, g['a']] if g['ua'] else [g['a']]) for y in ([b - 1, b] if g['ub'] else [b])]
            opts = [p + q for p in opts for q in alts]
        if kind == 'count':
            want = {str(len(p)) for p in opts}
        elif kind == 'precacc':
            want = {' '.join(x[4] for x in p) for p in opts}
        else:
            want = {';'.join(x[6] for x in p if x[0] == 'ok') for p in opts}
            if kind == 'path':
                f = lambda t: [[tuple(round(float(c), 9) for c in z.split(',')) for z in v.split()] for v in t.split(';')]
                want, got = [f(w) if w else [] for w in want], f(got) if got else []
        if got not in want:
            return 'observer %d (%s) heard of %s: %s, must be %s' % (o, kind, [(g['t'], g['a'], g['b']) for g in heard], str(got)[:150], ' or '.join(str(w)[:150] for w in list(want)[:2]))
