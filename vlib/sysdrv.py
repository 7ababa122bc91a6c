"""SysSpec behaviours -> commands for the sysrep harness, and the comparison of what it observed
with what the specification says must be observed."""
from num import *

TARGET = "sysrep"

VARS = ['x', 'y', 'z', 'w', 't']
VID = {v: 'n%d' % (i + 1) for i, v in enumerate(VARS)}
DIRECT2 = {'add', 'sub', 'mul', 'div', 'addeq', 'subeq', 'muleq', 'diveq'}
INT2 = {'addi', 'iadd', 'subi', 'isub', 'muli', 'imul', 'divi', 'idiv', 'ipow'}
RAT2 = {'addq', 'qadd', 'subq', 'qsub', 'mulq', 'qmul', 'divq', 'qdiv'}
FUNC0 = {'sin0': 'sin', 'tan0': 'tan', 'asin0': 'asin', 'atan0': 'atan', 'cos0': 'cos', 'exp0': 'exp', 'log1': 'log', 'sqrt': 'sqrt', 'neg': 'neg'}


def decstr(q):
    """a dyadic rational as a decimal literal"""
    return format(dec(q).normalize(), 'f')


def node_cmds(e):
    i = e['id']
    n = 'n%d' % i
    a, b, x = 'n%d' % e['a'], 'n%d' % e['b'], 'n%d' % e['e']
    op = e['op']
    k = e['n']
    T = lambda j: 'm%d_%d' % (i, j)
    N = lambda id_, *w: 'node %s %s' % (id_, ' '.join(str(y) for y in w))
    if op in DIRECT2:
        return [N(n, op, a, b)]
    if op in INT2:
        return [N(n, op, a, k)]
    if op in RAT2:
        return [N(n, op, a, Fr(k, 3))]
    if op in FUNC0:
        return [N(n, FUNC0[op], a)]
    if op == 'fn':
        return [N(n, 'fn', a, 'f%d' % i)]
    if op == 'int':
        return [N(n, 'int', k)]
    if op == 'rat':
        return [N(n, 'rat', ctok(e['c']))]
    if op == 'flt':
        re, im = cval(e['c'])
        return [N(n, 'flt', decstr(re), decstr(im))]
    if op in ('i', 'one', 'two', 'zero'):
        return [N(n, op)]
    if op == 'cpow':
        return [N(T(1), 'int', k), N(n, 'pow', a, T(1))]
    if op == 'sum3':
        s = ['+' if y else '-' for y in e['s']]
        return [N(n, 'sum', a, s[0], b, s[1], x, s[2])]
    if op == 'prod3':
        s = ['*' if y else '/' for y in e['s']]
        return [N(n, 'prod', a, s[0], b, s[1], x, s[2])]
    if op == 'pyth':
        return [N(T(1), 'sin', a), N(T(2), 'cos', a), N(T(3), 'ipow', T(1), 2), N(T(4), 'mul', T(2), T(2)), N(n, 'add', T(3), T(4))]
    if op == 'explog':
        return [N(T(1), 'log', a), N(n, 'exp', T(1))]
    if op == 'logexp':
        return [N(T(1), 'exp', a), N(n, 'log', T(1))]
    if op == 'sqrtsq':
        return [N(T(1), 'sqrt', a), N(n, 'ipow', T(1), 2)]
    if op == 'powhalfsq':
        return [N(T(1), 'qpow', a, '1/2'), N(n, 'mul', T(1), T(1))]
    if op == 'sinasin':
        return [N(T(1), 'asin', a), N(n, 'sin', T(1))]
    if op == 'cosacos':
        return [N(T(1), 'acos', a), N(n, 'cos', T(1))]
    if op == 'tanatan':
        return [N(T(1), 'atan', a), N(n, 'tan', T(1))]
    if op == 'tancos':
        return [N(T(1), 'tan', a), N(T(2), 'cos', a), N(T(3), 'mul', T(1), T(2)), N(T(4), 'sin', a), N(n, 'sub', T(3), T(4))]
    if op == 'expinv':
        return [N(T(1), 'exp', a), N(T(2), 'neg', a), N(T(3), 'exp', T(2)), N(n, 'mul', T(1), T(3))]
    if op == 'logpow':
        return [N(T(1), 'int', 3), N(T(2), 'pow', T(1), a), N(T(3), 'log', T(2)), N(T(4), 'log', T(1)), N(n, 'div', T(3), T(4))]
    if op == 'sinpi6':
        return [N(T(1), 'pi'), N(T(2), 'divi', T(1), 6), N(n, 'sin', T(2))]
    if op == 'cospi':
        return [N(T(1), 'pi'), N(n, 'cos', T(1))]
    if op == 'loge':
        return [N(T(1), 'e'), N(n, 'log', T(1))]
    if op == 'expe':
        return [N(T(1), 'one'), N(T(2), 'exp', T(1)), N(T(3), 'e'), N(n, 'div', T(2), T(3))]
    raise ValueError(op)


class Case:
    """commands, and for each a check (None: must answer ok)"""

    def __init__(self, hist):
        self.cmds = []
        self.chk = []
        self.entry = []
        self.prec = 30
        self.live = set()
        self.nodes = set(VID.values())
        self.dead = False
        self.coefs = {}
        self.ei = 0
        self.n_checks = 0
        self.c('reset')
        self.c('prec 30')
        for v in VARS:
            self.c('var %s %s' % (VID[v], v))
        for i, e in enumerate(hist):
            self.ei = i
            getattr(self, 'do_' + e['o'])(e)

    def c(self, cmd, chk=None):
        self.cmds.append(cmd)
        self.chk.append(chk)
        self.entry.append(self.ei)
        if chk:
            self.n_checks += 1

    # -- operations
    def do_node(self, e):
        for c in node_cmds(e):
            self.c(c)
        self.nodes.add('n%d' % e['id'])

    def do_new(self, e):
        s = e['s']
        self.c('sys %d' % s)
        for g in e['g']:
            w = ' '.join(VID[v] for v in g['vs'])
            self.c({'aff': 'sgrp', 'hom': 'shgrp', 'ung': 'sungs'}[g['kind']] + ' %d %s' % (s, w))
        if e['path']:
            self.c('spath %d %s' % (s, VID['t']))
        self.live.add(s)

    def do_addfn(self, e):
        self.c('sfn %d n%d' % (e['s'], e['n']))

    def do_addsub(self, e):
        self.c('%s %d n%d' % (e['k'], e['s'], e['n']))

    def do_addpath(self, e):
        self.c('spath %d %s' % (e['s'], VID['t']))

    def do_addvar(self, e):
        self.c({'aff': 'sgrp', 'ung': 'sung'}[e['k']] + ' %d %s' % (e['s'], VID[e['x']]))

    def do_method(self, e):
        self.c(('sevalm' if e['m'][0] == 'ev' else 'sderivm') + ' %d %s' % (e['s'], e['m'][1]))

    def do_act(self, e):
        self.c({'diff': 'sdiff %d', 'simp': 'ssimp %d', 'auto0': 'sautosimp %d 0', 'auto1': 'sautosimp %d 1', 'reset': 'sreset %d'}[e['k']] % e['s'])

    def do_prec(self, e):
        self.prec = e['p']
        self.c('prec %d' % e['p'])
        for n in sorted(self.nodes):
            self.c('nprec %s %d' % (n, e['p']))
        for s in sorted(self.live):
            self.c('sprec %d %d' % (s, e['p']))

    def do_copy(self, e):
        k, s, d = e['k'], e['s'], e['d']
        self.c('%s %d %d' % (k, d, s))
        if k in ('smove', 'smoveassign'):
            self.live.discard(s)
        self.live.add(d)

    def do_drop(self, e):
        self.c('sdrop %d' % e['s'])
        self.live.discard(e['s'])

    def do_plus(self, e):
        if e['inplace']:
            self.c('saddeq %d %d' % (e['s'], e['r']))
        else:
            self.c('sadd %d %d %d' % (e['d'], e['s'], e['r']))
            self.live.add(e['d'])

    def do_times(self, e):
        if e['k'] == 'smuleq':
            self.c('smuleq %d n%d' % (e['s'], e['n']))
        else:
            self.c('%s %d %d n%d' % (e['k'], e['d'], e['s'], e['n']))
            self.live.add(e['d'])

    def do_concat(self, e):
        self.c('sconcat %d %d %d' % (e['d'], e['s'], e['r']))
        self.live.add(e['d'])

    def do_reorder(self, e):
        self.c('sreorder %d %s' % (e['s'], e['k']))

    def do_homog(self, e):
        for d in sorted(e['drop']):
            self.c('sdrop %d' % d)
            self.live.discard(d)
        self.c('shomog %d' % e['s'], None if e['ok'] else self.must_refuse)

    def do_patch(self, e):
        self.c('spatch %d' % e['s'], None if e['ok'] else self.must_refuse)
        if e['ok']:
            sizes = e['sizes']

            def grab(reply, id_=e['id']):
                v = parse_list(reply)
                n = sum(sizes)
                if v is None or len(v) != n * len(sizes):
                    return 'patch of groups %s has coefficient matrix %s' % (sizes, reply[:200])
                rows = [v[i * n:(i + 1) * n] for i in range(len(sizes))]
                lo = 0
                for r, k in zip(rows, sizes):
                    for j in range(n):
                        z = r[j][0] == 0 and r[j][1] == 0
                        if z != (not lo <= j < lo + k):
                            return 'patch row has the wrong support: %s' % reply[:300]
                    lo += k
                self.coefs[id_] = rows
            self.c('spcoef %d mp 100' % e['s'], grab)

    def do_cpatch(self, e):
        self.c('scpatch %d %d' % (e['s'], e['r']))

    # -- observations
    @staticmethod
    def must_refuse(reply):
        return None if reply.startswith('ex ') else 'was not refused: ' + reply[:200]

    def do_set(self, e):
        a = ' '.join(ctok(v) for v in e['x']) + (' ' + ctok(e['t']) if e['t'] else '')
        self.c('%s %d %s %s' % ('sset' if e['k'] == 'set' else 'ssetv', e['s'], e['ty'], a))
        if e['k'] == 'setr':
            self.c('sreset %d' % e['s'])

    def do_bad(self, e):
        x = [ctok(v) for v in e['x']]
        if e['k'] == 'size':
            x = x[:-1]
            if not x:
                return
        elif not e['path']:
            x = x + ['1/2']
        self.c('s%s %d %s %s' % (e['w'], e['s'], e['ty'], ' '.join(x)), self.must_refuse)

    def compare(self, got, exp, what, ty):
        """exp: list of decimals or None (nothing claimed)"""
        if got is None:
            return None
        if len(got) != len(exp):
            return '%s: %d values, expected %d' % (what, len(got), len(exp))
        for i, (g, x) in enumerate(zip(got, exp)):
            if x is not None and not close(g, x, ty, self.prec_at):
                return '%s: entry %d is %s,%s, must be %s,%s' % (what, i, g[0], g[1], str(x[0])[:40], str(x[1])[:40])
        return None

    def do_obs(self, e):
        w, ty, p = e['w'], e['ty'], self.prec
        cmd = 's%s %d %s' % (w, e['s'], ty)
        if not e['noarg']:
            cmd += ' ' + ' '.join(ctok(v) for v in e['x']) + (' ' + ctok(e['t']) if e['t'] else '')

        def chk(reply):
            got = parse_list(reply)
            defined = all(self.defd(r, w) for r in e['exp'])
            if got is None:
                return None if not defined else '%s failed: %s' % (w, reply[:200])
            if w == 'jac':
                exp = [None if not v else cdecs(v) for row in e['exp'] for v in row]
            else:
                exp = [None if not v else cdecs(v) for v in e['exp']]
            if e['pat']:
                rows = self.coefs.get(e['pat'])
                if rows is None:
                    return None
                x = [cdecs(v) for v in e['x']]
                for r in rows:
                    if w == 'jac':
                        exp += list(r)
                    elif w == 'td':
                        exp.append((Decimal(0), Decimal(0)))
                    else:
                        s = (Decimal(-1), Decimal(0))
                        for c, v in zip(r, x):
                            s = cadd(s, cmul(c, v))
                        exp.append(s)
            self.prec_at = p
            return self.compare(got, exp, w, ty)
        self.c(cmd, chk)

    @staticmethod
    def defd(r, w):
        return all(bool(v) for v in r) if w == 'jac' else bool(r)

    def do_dehom(self, e):
        p = self.prec

        def chk(reply):
            exp = [None if not v else cdecs(v) for v in e['exp']]
            got = parse_list(reply)
            if got is None:
                return 'dehomogenization failed: %s' % reply[:200]
            self.prec_at = p
            return self.compare(got, exp, 'dehomogenized point', e['ty'])
        self.c('sdehom %d %s %s' % (e['s'], e['ty'], ' '.join(ctok(v) for v in e['x'])), chk)

    def do_rescale(self, e):
        p = self.prec

        def chk(reply):
            rows = self.coefs.get(e['pat'])
            if rows is None:
                return None
            x = [cdecs(v) for v in e['x']]
            got = parse_list(reply)
            exp = []
            for r in rows:
                s = (Decimal(0), Decimal(0))
                for c, v in zip(r, x):
                    s = cadd(s, cmul(c, v))
                n2 = s[0] * s[0] + s[1] * s[1]
                if n2 < Decimal('1e-6'):
                    return None
                inv = (s[0] / n2, -s[1] / n2)
                for c, v in zip(r, x):
                    if c[0] != 0 or c[1] != 0:
                        exp.append(cmul(v, inv))
            if got is None:
                return 'rescaling failed: ' + reply[:200]
            self.prec_at = p
            return self.compare(got, exp, 'rescaled point', e['ty'])
        self.c('srescale %d %s %s' % (e['s'], e['ty'], ' '.join(ctok(v) for v in e['x'])), chk)

    def is_(self, what, want):
        want = str(want)
        return lambda reply: None if reply[3:].strip() == want and reply.startswith('ok') else '%s: %s, must be %s' % (what, reply[:200], want)

    def do_query(self, e):
        s = e['s']
        names = ' '.join('HOM_VAR_%d' % (int(v[1:]) - 1) if v[0] == 'h' else v for v in e['vars'])
        self.c('svars %d' % s, self.is_('variable order', names))
        self.c('sord %d' % s, self.is_('variable ordering', names))
        self.c('scounts %d' % s, self.is_('counts', ' '.join(str(c) for c in e['counts'])))
        self.c('sgsizes %d' % s, self.is_('group sizes', ' '.join(str(c) for c in e['sizes'])))
        self.c('spatchq %d' % s, self.is_('patched', e['patched']))
        self.c('sprecget %d' % s, self.is_('precision', e['prec']))
        if e['counts'][0] == 0:
            return
        if e['poly'] >= 0:
            self.c('spoly %d' % s, self.is_('IsPolynomial', e['poly']))
        if e['homg'] >= 0:
            self.c('shomq %d' % s, self.is_('IsHomogeneous', e['homg']))
        for g in e['gdegs']:
            if all(d >= 0 for d in g['d']):
                self.c('sgdegs %d %s' % (s, ' '.join('HOM_VAR_%d' % (int(v[1:]) - 1) if v[0] == 'h' else v for v in g['g'])),
                       self.is_('degrees in %s' % g['g'], ' '.join(str(d) for d in g['d'])))

    def do_nobs(self, e):
        n, ty, w, p = 'n%d' % e['n'], e['ty'], e['w'], self.prec
        val = cdecs(e['val']) if e['val'] else None
        sets = ['nset %s %s %s %d' % (ty, VID[v], ctok(x), p) for v, x in zip(e['vs'], e['x'])]

        def chk(exp):
            def f(reply):
                if exp is None:
                    return None
                got = parse_list(reply)
                if got is None:
                    return 'evaluation of an expression failed: ' + reply[:200]
                self.prec_at = p
                return self.compare(got, [exp], 'expression', ty)
            return f
        tmp = 'q%d' % self.ei
        if w == 'simpn':
            # the expression itself; simplification looks at the values in the variables, so these are generic
            for t2 in ('dbl', 'mp'):
                for i, v in enumerate(e['vs']):
                    self.c('nset %s %s %d/%d,%d/%d %d' % (t2, VID[v], 10007 + 17 * i, 7919 - 31 * i, 3571 + 13 * i, 4003 + 7 * i, p))
            self.c('nreset ' + n)
            self.c('nsimp ' + n)
            for s in sets:
                self.c(s)
            self.c('nreset ' + n)
            self.c('neval %s %s' % (ty, n), chk(val))
            return
        if w == 'serial':
            self.c('nserv %s %s %s' % (tmp, n, ' '.join(VID[v] for v in e['vs'])))
            for v, x in zip(e['vs'], e['x']):
                self.c('nset %s %s%s %s %d' % (ty, tmp, VID[v], ctok(x), p))
            self.c('nreset %sn' % tmp)
            self.c('neval %s %sn' % (ty, tmp), chk(val))
            return
        for s in sets:
            self.c(s)
        if w == 'simp':
            # simplification looks at values: let these be the generic ones just set, in both number types
            o = 'mp' if ty == 'dbl' else 'dbl'
            for v, x in zip(e['vs'], e['x']):
                self.c('nset %s %s %s %d' % (o, VID[v], ctok(x), p))
        if w == 'val':
            self.c('nreset ' + n)
            self.c('neval %s %s' % (ty, n), chk(val))
        elif w == 'dif':
            for v, d in zip(e['vs'], e['der']):
                self.c('node %s diff %s %s' % (tmp, n, VID[v]))
                self.c('nreset ' + tmp)
                self.c('neval %s %s' % (ty, tmp), chk(cdecs(d) if d else None))
        elif w == 'jac':
            self.c('njac %s %s' % (tmp, n))
            self.c('nreset ' + tmp)
            for v, d in zip(e['vs'], e['der']):
                self.c('njeval %s %s %s' % (ty, tmp, VID[v]), chk(cdecs(d) if d else None))
        elif w == 'simp':
            for v in e['vs'][:1]:
                self.c('node %s diff %s %s' % (tmp, n, VID[v]))
                self.c('nreset ' + tmp)
                self.c('nsimp ' + tmp)
                self.c('nreset ' + tmp)
                self.c('neval %s %s' % (ty, tmp), chk(cdecs(e['der'][0]) if e['der'][0] else None))

    def do_ndegs(self, e):
        n = 'n%d' % e['n']
        g = ' '.join(VID[v] for v in e['vs'])
        for v, d in zip(e['vs'], e['each']):
            if d >= 0:
                self.c('ndeg %s %s' % (n, VID[v]), self.is_('degree in %s' % v, d))
                self.c('npoly %s %s' % (n, VID[v]), self.is_('polynomial in %s' % v, 1))
        if all(d >= 0 for d in e['each']) and e['all'] >= 0:
            self.c('nmdeg %s %s' % (n, g), self.is_('multidegree', ' '.join(str(d) for d in e['each'])))
        if e['all'] >= 0:
            self.c('ndegg %s %s' % (n, g), self.is_('degree in %s' % e['vs'], e['all']))
            self.c('npolyg %s %s' % (n, g), self.is_('polynomial in %s' % e['vs'], 1))
        if e['homg'] >= 0:
            self.c('nhomqg %s %s' % (n, g), self.is_('homogeneous in %s' % e['vs'], e['homg']))

    # -- verdict
    def judge(self, replies):
        """None, or (command index, text)"""
        for i, (cmd, chk) in enumerate(zip(self.cmds, self.chk)):
            if i >= len(replies):
                return i, 'no answer'
            r = replies[i]
            if r.startswith('crash'):
                return i, 'crashed on "%s": %s' % (cmd, r[:200])
            if r.startswith('bad') or r.startswith('ex harness'):
                return i, 'harness: %s -> %s' % (cmd, r[:200])
            if chk:
                m = chk(r)
                if m:
                    return i, '%s [%s]' % (m, cmd)
            elif not r.startswith('ok'):
                return i, '"%s" failed: %s' % (cmd, r[:200])
        return None
