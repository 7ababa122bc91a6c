"""Common machinery of the checks: collects what a check explores, confirms what fails in a fresh
process, writes replay files and the evidence, knows the known findings."""
import hashlib, importlib, json, os, sys, time
import build as _build, casebase, harness, tlc

VERIF = _build.VERIF
FINDINGS = os.path.join(VERIF, 'known_findings.txt')
MAXSAMPLES = 3


def known():
    """[(property, text)] of the findings listed as known (not the fixed ones)."""
    out = []
    if os.path.exists(FINDINGS):
        for l in open(FINDINGS):
            l = l.strip()
            if l.startswith('known: property='):
                p, _, text = l[len('known: property='):].partition(' ')
                out.append((p, text))
    return out


class Run:
    def __init__(self, prop, tier, seed, level):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.evaluations = 0
        self.distinct = set()
        self.samples, self.violations, self.stages, self.assumptions = [], [], [], []
        self.unconfirmed = 0
        self.noted = set()
        casebase.KNOWN[:] = [t for p, t in known() if p == prop]
        self.exes = {}

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def build(self, *names):
        t = time.time()
        self.exes.update(_build.build(list(names)))
        print('built %s in %.1f s' % (' '.join(names), time.time() - t), flush=True)

    def left(self, budget):
        return budget - (time.time() - self.t0)

    # -- specification behaviours replayed on the real code
    def replay(self, stage, driver, hists, kind='simulate', exhaustive=False, states=0, transitions=0, wall=0.0):
        mod = importlib.import_module(driver)
        t = time.time()
        uniq, seen = [], set()
        for h in hists:
            k = hashlib.sha1(json.dumps(h, sort_keys=True).encode()).digest()
            if k not in seen:
                seen.add(k)
                uniq.append(h)
        cases = [mod.Case(h) for h in uniq]
        exe = self.exes[mod.TARGET]
        replies = harness.run_cases(exe, [c.cmds for c in cases], timeout=getattr(mod, 'TIMEOUT', 120), chunk=getattr(mod, 'CHUNK', None))
        n_checks = 0
        bad = 0
        for h, c, r in zip(uniq, cases, replies):
            m = c.judge(r)
            n_checks += c.n_checks
            self.noted |= getattr(c, 'known', set())
            if not m:
                continue
            bad += 1
            if bad > 20:
                continue
            # alone, in a fresh process
            c2 = mod.Case(h)
            r2 = harness.run_cases(exe, [c2.cmds], timeout=getattr(mod, 'TIMEOUT', 120))[0]
            m2 = c2.judge(r2)
            if m2:
                self.violation(stage, dict(kind='hist', driver=driver, hist=h), m2[1], cmds=c2.cmds[:m2[0] + 1], replies=r2[:m2[0] + 1])
            else:
                self.unconfirmed += 1
        self.distinct |= seen
        self.states += states
        self.transitions += transitions
        self.traces += len(uniq)
        self.evaluations += n_checks
        if cases and len(self.samples) < MAXSAMPLES:
            c = cases[len(cases) // 2]
            self.samples.append(dict(stage=stage, commands=c.cmds[:60]))
        self.stages.append(dict(stage=stage, kind=kind, behaviours=len(hists), distinct_behaviours=len(uniq), observations_compared=n_checks,
                                spec_states=states, exhaustive=exhaustive, tlc_s=round(wall, 1), replay_s=round(time.time() - t, 1), failing=bad))
        print('%s %s: %d behaviours, %d observations compared, %d failing (spec %.1f s, replay %.1f s)' %
              (self.prop, stage, len(uniq), n_checks, bad, wall, time.time() - t), flush=True)
        return uniq, cases, replies

    def simulate(self, stage, driver, module, consts, num, depth, invariants=('Emit',), seed_shift=0, procs=8, timeout=600):
        r = tlc.simulate(module, consts, num, depth, self.seed + seed_shift, procs=procs, invariants=invariants, timeout=timeout)
        return self.replay(stage, driver, r['hists'], states=r['states'], transitions=r['states'], wall=r['wall'])

    def bfs(self, stage, driver, module, consts, invariants=('Emit',), properties=(), workers=8, timeout=800, heap='8g', **kw):
        r = tlc.bfs(module, consts, invariants, properties, workers=workers, timeout=timeout, heap=heap, **kw)
        return self.replay(stage, driver, r['hists'], kind='exhaustive', exhaustive=True, states=r['distinct'], transitions=r['states'], wall=r['wall'])

    def violation(self, stage, data, text, **extra):
        d = os.path.join(VERIF, 'build', 'replays', self.prop)
        os.makedirs(d, exist_ok=True)
        body = dict(property=self.prop, stage=stage, what=text, data=data, **extra)
        name = hashlib.sha1(json.dumps(data, sort_keys=True).encode()).hexdigest()[:12]
        path = os.path.join(d, name + '.json')
        with open(path, 'w') as f:
            json.dump(body, f, indent=1)
        self.violations.append((path, text))

    def finish(self):
        kf = [t for p, t in known() if p == self.prop]
        fresh, listed = [], []
        for path, text in self.violations:
            hit = [k for k in kf if k in text]
            (listed if hit else fresh).append((path, text))
        for k in kf:
            if k in self.noted or any(k in t for _, t in listed):
                print('KNOWN-FINDING: property=%s %s' % (self.prop, k))
        cov = dict(stages=self.stages, samples=self.samples, unconfirmed_failures=self.unconfirmed)
        if self.level == 'model_checking':
            cov.update(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                       observations_compared=self.evaluations)
        else:
            cov.update(evaluations=self.evaluations, distinct_nontrivial=len(self.distinct), rule='distinct specification behaviours', traces=self.traces)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=cov, wall_s=round(time.time() - self.t0, 2),
                  violations=len(fresh), assumptions=self.assumptions)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for path, text in fresh[:5]:
            print('  ' + text[:600])
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
        print('%s: %s in %.1f s' % (self.prop, 'VIOLATED' if fresh else 'held on everything explored', time.time() - self.t0))
        return 1 if fresh else 0
