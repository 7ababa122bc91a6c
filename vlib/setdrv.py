"""SetSpec behaviours: a settings text, and what every configuration structure read from it must be."""
import math, random
from fractions import Fraction as Fr
from decimal import Decimal
from casebase import Base

TARGET = 'setrep'
FIELDS = dict(Regeneration=['RegenRemoveInf', 'SliceTolBeforeEG', 'SliceTolDuringEG', 'SliceFinalTol', 'RegenHigherDimTest', 'RegenStartLevel'])
NODEF = {'Epsilon', 'Phi', 'Psi', 'SharpenDigits', 'SliceTolBeforeEG', 'SliceTolDuringEG', 'SliceFinalTol'}     # declared without a default
DEFAULT = {'MPType': '1', 'ODEPredictor': '5', 'TrackType': '0'}
SP = ['', ' ', '  ', '\t']
AFTER = ['', '\n', ' ', '\n\n']


def token(s):
    return s.replace('\\', '\\\\').replace('\n', '\\n').replace('\t', '\\t').replace(' ', '\\s') or '\\s'


def cased(n, k):
    return n if k == 1 else n.lower() if k == 2 else n.upper() if k == 3 else ''.join(c.upper() if i % 2 else c.lower() for i, c in enumerate(n))


def render(stm):
    out = ''
    for st in stm:
        l = st['l']
        if st['c'] == 'comment':
            out += st['v']['t'] + '\n'
        else:
            out += cased(st['n'], l[0]) + SP[l[1]] + ':' + SP[l[2]] + st['v']['t'] + SP[l[3]] + ';' + AFTER[l[4]]
    return out


def value(v):
    return Fr(v['m']) * (Fr(10) ** v['e'] if v['e'] >= 0 else Fr(1, 10 ** -v['e']))


def number(s):
    if '/' in s:
        return Fr(s)
    return Fr(Decimal(s))


class Case(Base):
    def begin(self):
        self.defs = {}

        def chk(r):
            for p in r[3:].split(';'):
                n, ok, *f = p.split()
                self.defs[n] = f
        self.c('setdef', chk)

    def do_read(self, e):
        t = render(e['stm'])
        form = e['form']
        if form:
            t = ['', 'CONFIG\n', 'some words\nCONFIG\n', 'Config\n'][form] + t + ('' if t.endswith('\n') else '\n') + 'END;\nINPUT\nvariable x;\nfunction f;\nf = x;\nEND;\n'
        how = 'config' if form == 0 else 'file' if form < 3 else 'disk'
        exp = {x['s']: x for x in e['exp']}
        self.c('setall %s %s' % (how, token(t)), lambda r: self.compare(r, exp, t, len(exp)))
        if not any(exp[s]['bad'] for s in ('Tolerances', 'Stepping', 'Security', 'Newton', 'Endgame')):
            self.c('setpair %s %s' % (how, token(t)), lambda r: self.compare(r, exp, t, 5))

    def compare(self, r, exp, t, n):
        if not r.startswith('ok '):
            return r[:200]
        got = [p.split() for p in r[3:].split(';')]
        if len(got) != n:
            return 'not every structure answered: %d of %d: %s' % (len(got), n, r[-600:])
        for p in got:
            x = exp[p[0]]
            if p[1] == 'ex':
                if not x['bad']:
                    return '%s refused the settings %r' % (p[0], t)
                continue
            if x['bad']:
                return '%s took the malformed settings %r: %s' % (p[0], t, p[2:])
            d = self.defs[p[0]]
            f = p[2:]
            if '|' in f:
                k = f.index('|')
                if f[k:] != d[k:]:
                    return '%s: fields without a name have changed: %s, before %s, settings %r' % (p[0], f[k:], d[k:], t)
                f, d = f[:k], d[:k]
            if len(f) != len(x['f']):
                return '%s: %s' % (p[0], f)
            for g, dd, w in zip(f, d, x['f']):
                if w['d']:
                    if w['n'] in NODEF:
                        continue
                    dd = DEFAULT.get(w['n'], dd)
                    if g != dd:
                        return '%s: %s is %s, not set, must be the default %s: settings %r' % (p[0], w['n'], g, dd, t)
                elif w['k'] == 'word':
                    if g != w['v']['w']:
                        return '%s: %s is %s, must be %s: settings %r' % (p[0], w['n'], g, w['v']['w'], t)
                else:
                    try:
                        a, b = number(g), value(w['v'])
                    except Exception:
                        return '%s: %s is %s: settings %r' % (p[0], w['n'], g, t)
                    if abs(a - b) > abs(b) * Fr(1, 10 ** 15):
                        return '%s: %s is %s, must be %s: settings %r' % (p[0], w['n'], g, float(b), t)
        return None
