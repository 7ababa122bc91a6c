"""A behaviour of a specification as commands for a harness, and a check of each answer."""


KNOWN = []      # texts of the known findings of the property being checked


class Base:
    def __init__(self, hist):
        self.known = set()
        self.cmds, self.chk, self.entry = [], [], []
        self.ei = 0
        self.n_checks = 0
        self.begin()
        for i, e in enumerate(hist):
            self.ei = i
            getattr(self, 'do_' + e['o'])(e)

    def begin(self):
        self.c('reset')

    def c(self, cmd, chk=None):
        """chk: None: must answer ok; else a function of the answer giving None or what is wrong"""
        self.cmds.append(cmd)
        self.chk.append(chk)
        self.entry.append(self.ei)
        if chk:
            self.n_checks += 1

    def finding(self, text):
        """a deviation which may be a listed finding: then noted and passed over"""
        if text in KNOWN:
            self.known.add(text)
            return None
        return text

    def judge(self, replies):
        """None, or (command index, text)"""
        for i, (cmd, chk) in enumerate(zip(self.cmds, self.chk)):
            if i >= len(replies):
                return i, 'no answer'
            r = replies[i]
            if r.startswith('crash'):
                return i, 'crashed on "%s": %s' % (cmd, r[:200])
            if r.startswith('bad') or r.startswith('ex harness'):
                return i, 'harness: %s -> %s' % (cmd, r[:200])
            if chk:
                try:
                    m = chk(r)
                except (ValueError, ArithmeticError, IndexError, KeyError) as x:
                    m = 'answer not understood (%s): %s' % (x, r[:200])
                if m:
                    return i, '%s [%s]' % (m, cmd)
            elif not r.startswith('ok'):
                return i, '"%s" failed: %s' % (cmd, r[:200])
        return None


def refused(reply):
    return None if reply.startswith('ex ') else 'was not refused: %s' % reply[:120]


def ok(reply):
    return None if reply.startswith('ok') else reply[:200]


def equals(want):
    def chk(reply):
        got = reply[3:] if reply.startswith('ok') else reply
        return None if got.strip() == str(want) else 'gave %s, must be %s' % (got[:200], want)
    return chk
