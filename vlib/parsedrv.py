"""ParseSpec behaviours: an input text, and what the system parsed from it must be."""
import random
from num import *
from casebase import Base, refused, equals

TARGET = 'parserep'
KINDS = {'variable_group': 'aff', 'hom_variable_group': 'hom', 'variable': 'ung'}
KEYWORDS = {'variable_group', 'hom_variable_group', 'variable', 'function', 'constant', 'parameter', 'pathvariable', 'variables_group'}


def token(s):
    return s.replace('\\', '\\\\').replace('\n', '\\n').replace('\t', '\\t').replace(' ', '\\s') or '\\s'


def layout(stmts, kind, rnd, comments):
    out = []
    for st in stmts:
        line = ''
        for i, w in enumerate(st):
            if i:
                sep = {'tight': '', 'spaced': ' ', 'lines': rnd.choice(['\n', ' ', '']), 'mixed': rnd.choice(['', ' ', '  ', '\t', ' \n '])}[kind]
                if st[i - 1] in KEYWORDS and not sep:
                    sep = ' '
                if (st[i - 1][-1].isalnum() or st[i - 1][-1] in '._]') and (w[0].isalnum() or w[0] in '._[') and not sep:
                    sep = ' '   # two words side by side stay two words
                if comments and '\n' in sep:
                    sep = ' % a comment; x = 1;\n'
                line += sep
            line += w
        if comments:
            line += rnd.choice(['', ' % function f; f = 2;', '%', '% 100%']) + '\n'
        else:
            line += {'tight': '', 'spaced': ' ', 'lines': '\n', 'mixed': rnd.choice(['', '\n', '\n\n', ' ', '\t'])}[kind]
        out.append(line)
    return ''.join(out)


def infile(form, config, body, comments, junk):
    if form == 99:
        return body
    nl = '\n'
    c = nl.join(x + (' % ' + x if comments else '') for x in config) + nl
    pre = 'some words' + nl if junk else ''
    post = nl + 'END;' + (nl + 'more words' if junk else '')
    inp = 'INPUT' + nl
    if form >= 10:
        head = pre + 'CONFIG' + nl + c
        return {15: head + 'END;' + nl + inp + body + post, 14: head + 'END;' + nl + inp + body, 13: head + 'END;' + nl + body + post,
                12: head + 'END;' + nl + body, 11: head + inp + body + post, 10: head + inp + body}[form]
    return {3: inp + body + post, 2: inp + body, 1: body + post, 0: body}[form]


class Case(Base):
    def do_text(self, e):
        rnd = random.Random(e['id'])
        com = e['comments'] and e['form'] != 99
        body = layout(e['stmts'], e['layout'], rnd, com)
        if com and e['id'] % 3 == 0:
            body = body.rstrip('\n') + rnd.choice(['', ' % the end'])   # no newline at the end of the file
        text = infile(e['form'], e['config'], body, com, e['junk'])
        p = e['prec']
        self.c('prec %d' % p)
        make = ('psys' if e['form'] == 99 else 'pdisk' if e['id'] % 2 else 'pfile') + ' S ' + token(text)
        if e['fault'] != 'none':
            self.c(make, refused)
            return

        def conf(reply):
            if not reply.startswith('ok'):
                return 'refused: ' + reply[:200]
            if e['form'] != 99 and reply[2:].split() != ' '.join(e['config']).split():
                return 'configuration is "%s", must be "%s"' % (reply[3:200], ' '.join(e['config']))
        self.c(make, conf)
        self.c('sevalm S ' + e['ev'])
        ng = {k: sum(1 for g in e['groups'] if KINDS[g['k']] == k) for k in ('aff', 'hom', 'ung')}
        nu = sum(len(g['n']) for g in e['groups'] if g['k'] == 'variable')
        n, m = e['nf'], len(e['vars'])
        self.c('scounts S', equals('%d %d %d %d 0 %d %d %d 0 %d' % (n, n, m, m, ng['aff'], ng['hom'], nu, e['path'])))
        self.c('svars S', equals(' '.join(e['vars'])))
        if not e['path']:
            if all(d >= 0 for d in e['degs']):
                self.c('sdegs S', equals(' '.join(str(d) for d in e['degs'])))
                self.c('spoly S', equals(1))
        for a in e['at']:
            for ty in ('dbl', 'mp'):
                x = ' '.join(ctok(v) for v in a['x']) + (' ' + ctok(a['t']) if e['path'] else '')
                for w, exp in (('eval', a['f']), ('jac', [v for r in a['jac'] for v in r]), ('td', a['td'])):
                    if w != 'td' or e['path']:
                        self.c('s%s S %s %s' % (w, ty, x), self.vals(w, exp, ty, p))

    def do_number(self, e):
        a, b = ''.join(map(str, e['a'])), ''.join(map(str, e['b']))
        if not a and not b:
            return
        mant = a + ('.' + b if e['point'] else '')
        ex = '' if e['e'] == 99 else '%s%d' % ('E' if e['up'] else 'e', e['e'])
        want = Decimal(mant.rstrip('.') + ex)
        digits = max(e['prec'], len(a + b))
        sg = '-' if e['neg'] else ''

        def num(part, w):
            def chk(reply):
                if not reply.startswith('ok'):
                    return 'refused: ' + reply[:200]
                g = reply.split()[1].split(',')[part]
                if abs(Decimal(g) - w) > abs(w) * Decimal(10) ** (2 - digits):
                    return 'number is %s, must be %s' % (g, w)
            return chk
        self.c('prec %d' % e['prec'])
        self.c('pnum real ' + sg + mant + ex, num(0, -want if e['neg'] else want))
        self.c('pnum complex %s\\s%s' % (mant + ex, sg + mant + ex), num(1, -want if e['neg'] else want))
        self.c('pnum real %sx' % (mant + ex), refused)
        self.c('psys N ' + token('variable_group x; function f; f = x%s%s;' % ('-' if e['neg'] else '+', mant + ex)))
        self.c('prec 120')
        self.c('sprec N 120')
        self.c('seval N mp 0', num(0, -want if e['neg'] else want))

    def vals(self, w, exp, ty, p):
        def chk(reply):
            got = parse_list(reply)
            if got is None:
                return '%s failed: %s' % (w, reply[:200])
            if len(got) != len(exp):
                return '%s: %d values, must be %d' % (w, len(got), len(exp))
            for i, (g, v) in enumerate(zip(got, exp)):
                c = cval(v)
                if not close(g, (dec(c[0]), dec(c[1])), ty, p):
                    return '%s: entry %d is %s,%s, must be %s' % (w, i, g[0], g[1], ctok(v))
        return chk
