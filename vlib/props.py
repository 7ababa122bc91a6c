"""What each property's check does."""
import importlib
import build as _build, harness, tlc

MC = 'model_checking'
PROPS = {}


def prop(pid, level=MC):
    def deco(f):
        PROPS[pid] = (level, f)
        return f
    return deco


def recheck(data):
    if data['kind'] == 'hist':
        mod = importlib.import_module(data['driver'])
        exe = _build.build([mod.TARGET])[mod.TARGET]
        c = mod.Case(data['hist'])
        m = c.judge(harness.run_cases(exe, [c.cmds], timeout=getattr(mod, 'TIMEOUT', 120))[0])
        return m[1] if m else None
    return importlib.import_module(data['driver']).recheck(data)


def sysc(sim, profile, ops=30):
    return dict(Sim=sim, Profile=profile, MaxOps=ops, Shard=0, Shards=1)


def sys_sim(run, profile, quick, thorough, shift=0):
    run.simulate('random histories, %s' % profile, 'sysdrv', 'SysSpec', sysc(True, profile), run.pick(quick, thorough), 40, ('Emit', 'TypeOK'), shift)


def sys_bfs(run):
    run.bfs('every history of the small alphabet', 'sysdrv', 'SysSpec', sysc(False, 'all', run.pick(3, 4)),
            ('Emit', 'TypeOK', 'EulerOK', 'DehomOK'), ('Others',))


def tree_bfs(run):
    """every expression of two operations; thorough: a seventh of those of three"""
    k = dict(sysc(False, 'simp', 3), Depth=2, Slice=0, Slices=1)
    run.bfs('every expression of two operations', 'sysdrv', 'TreeSpec', k, ('TEmit',), spec='TSpec')
    if run.thorough:
        for i in range(4):
            k.update(Depth=3, Slice=(run.seed + i) % 29, Slices=29)
            run.bfs('every expression of three operations, part %d of 29' % k['Slice'], 'sysdrv', 'TreeSpec', k, ('TEmit',), spec='TSpec')


def sysprop(pid, profiles, tree=True):
    @prop(pid)
    def f(run):
        run.build('sysrep')
        sys_bfs(run)
        if tree:
            tree_bfs(run)
        for i, p in enumerate(profiles):
            sys_sim(run, p, 6000 if i == 0 else 2000, 80000 if i == 0 else 16000, i)


sysprop('C01', ['eval', 'all', 'diff', 'arith'])
sysprop('C02', ['diff', 'all', 'simp'])
sysprop('C03', ['simp', 'all'])
sysprop('C04', ['prec', 'all'], tree=False)
sysprop('C05', ['arith', 'all', 'hom'], tree=False)
sysprop('C06', ['deg', 'hom', 'all'])
sysprop('C07', ['hom', 'all', 'arith'], tree=False)


@prop('C09')
def c09(run):
    run.build('startrep')
    k = lambda sim, ops, deg: dict(Sim=sim, MaxOps=ops, MaxDeg=deg)
    inv = ('Emit', 'BoundOK', 'BezoutOK')
    run.bfs('every target of the small alphabet, every short history', 'startdrv', 'StartSpec', k(False, 2, run.pick(2, 3)), inv)
    run.simulate('random targets and histories', 'startdrv', 'StartSpec', k(True, 16, 3), run.pick(3000, 40000), 20, inv)


@prop('C08')
def c08(run):
    run.build('linrep')
    k = lambda sim, ops: dict(Sim=sim, MaxOps=ops)
    run.bfs('every short history of one patch or slice and its copies', 'lindrv', 'LinSpec', k(False, run.pick(3, 4)), ('Emit', 'TypeOK'))
    run.simulate('random histories', 'lindrv', 'LinSpec', k(True, 25), run.pick(4000, 60000), 30, ('Emit', 'TypeOK'))


@prop('C10')
def c10(run):
    run.build('trackrep')
    k = lambda sim, ops, kinds, slow: dict(Sim=sim, MaxOps=ops, Kinds=set(kinds), Slow=slow)
    inv = ('Emit', 'Consistent')
    run.bfs('every short history of one tracker', 'trackdrv', 'TrackSpec', k(False, 4, ['dbl', 'mp', 'amp'], False), inv)
    run.simulate('random histories, fixed precision', 'trackdrv', 'TrackSpec', k(True, 24, ['dbl', 'mp'], True), run.pick(1500, 20000), 30, inv)
    run.simulate('random histories, adaptive precision', 'trackdrv', 'TrackSpec', k(True, 16, ['amp'], True), run.pick(600, 8000), 24, inv, 1)


@prop('C11')
def c11(run):
    run.build('trackrep')
    tr = importlib.import_module('tracedrv')
    tr.model(run)
    tr.stage(run, 'recorded tracks, fixed precision', ['dbl', 'mp'], run.pick(500, 6000), 2)
    tr.stage(run, 'recorded tracks, adaptive precision', ['amp'], run.pick(500, 6000), 3)


@prop('C12')
def c12(run):
    run.build('trackrep')
    k = lambda sim, ops: dict(Sim=sim, MaxOps=ops)
    run.bfs('every predictor, tracker, precision, step length and direction', 'preddrv', 'PredSpec', k(False, 4), ('Emit', 'Monotone'))
    run.simulate('random histories', 'preddrv', 'PredSpec', k(True, 24), run.pick(600, 8000), 30, ('Emit',))


@prop('C13')
def c13(run):
    run.build('trackrep')
    tr = importlib.import_module('tracedrv')
    k = lambda sim, ops, no, nt: dict(Sim=sim, MaxOps=ops, NObs=no, NTrk=nt)
    run.bfs('every short history of three observers', 'obsdrv', 'ObsSpec', k(False, run.pick(4, 5), 3, 1), ('Emit', 'Once'), ('Quiet',))
    run.simulate('random histories, two trackers', 'obsdrv', 'ObsSpec', k(True, 25, 5, 2), run.pick(800, 10000), 30, ('Emit', 'Once'))
    tr.stage(run, 'precision recorders, fixed precision', ['dbl', 'mp'], run.pick(100, 1000), 4, obs=True)
    tr.stage(run, 'precision recorders, adaptive precision', ['amp'], run.pick(250, 3000), 5, obs=True)


@prop('C14')
def c14(run):
    run.build('parserep')
    k = lambda sim, ops: dict(Sim=sim, MaxOps=ops)
    inv = ('Emit', 'Signs', 'Bracketed')
    run.bfs('every phrase of the small alphabet', 'parsedrv', 'ParseSpec', k(False, run.pick(10, 11)), inv)
    run.simulate('random inputs', 'parsedrv', 'ParseSpec', k(True, 60), run.pick(20000, 200000), 70, inv, timeout=1200)


@prop('C15')
def c15(run):
    run.build('endrep')
    k = lambda sim, ops, fl, kinds: dict(Sim=sim, MaxOps=ops, Flavours=set(fl), Kinds=set(kinds))
    inv = ('Emit', 'OnPath')
    both, all3 = ['ps', 'cauchy'], ['dbl', 'mp', 'amp']
    run.bfs('every homotopy, tracker, endgame and setting of the small alphabet', 'enddrv', 'EndSpec', k(False, 5, both, all3), inv)
    run.simulate('random histories, power series endgame', 'enddrv', 'EndSpec', k(True, 20, ['ps'], all3), run.pick(400, 8000), 30, inv)
    run.simulate('random histories, Cauchy endgame', 'enddrv', 'EndSpec', k(True, 20, ['cauchy'], all3), run.pick(300, 6000), 30, inv, 1)
    h = lambda sim, ops: dict(Sim=sim, MaxOps=ops)
    run.bfs('every monomial, selection of nodes and container', 'hermdrv', 'HermSpec', h(False, 1), ('Emit', 'SlopeOK'))
    run.simulate('random interpolations', 'hermdrv', 'HermSpec', h(True, 20), run.pick(240, 6000), 30, ('Emit', 'SlopeOK'), 2)


@prop('C16')
def c16(run):
    run.build('endrep')
    et = importlib.import_module('endtrace')
    et.model(run)
    et.stage(run, 'recorded runs, power series endgame', ['ps'], ['dbl', 'mp', 'amp'], run.pick(300, 5000), 5)
    et.stage(run, 'recorded runs, Cauchy endgame', ['cauchy'], ['dbl', 'mp', 'amp'], run.pick(300, 5000), 6)


@prop('C17')
def c17(run):
    run.build('zerorep')
    zt = importlib.import_module('zerotrace')
    zt.model(run)
    k = lambda sim, ops, n: dict(Sim=sim, MaxOps=ops, MaxPaths=n)
    run.bfs('every pair of checks for crossings of the small alphabet', 'middrv', 'MidSpec', k(False, 3, 2), ('Emit', 'Mutual'))
    run.simulate('random checks for crossings', 'middrv', 'MidSpec', k(True, 20, run.pick(6, 9)), run.pick(600, 10000), 30, ('Emit', 'Mutual'))
    z = lambda sim, ops, tops, kinds: dict(Sim=sim, MaxOps=ops, Tops=set(tops), Kinds=set(kinds), Flavours={'ps', 'cauchy'})
    inv = ('Emit', 'Counts', 'Solve0')
    got = run.bfs('every problem, tracker, endgame of the small alphabet, solved twice', 'zerodrv', 'ZeroSpec', z(False, 4, ['td', 'mhom', 'user'], ['dbl', 'mp', 'amp']), inv)
    zt.stage(run, 'recorded solves of the small alphabet', got)
    got = run.simulate('random user homotopies', 'zerodrv', 'ZeroSpec', z(True, 12, ['user'], ['dbl', 'mp', 'amp']), run.pick(400, 8000), 30, inv)
    zt.stage(run, 'recorded solves of user homotopies', got)
    got = run.simulate('random products of linear forms, fixed precision', 'zerodrv', 'ZeroSpec', z(True, 12, ['td', 'mhom'], ['dbl', 'mp']), run.pick(100, 3000), 30, inv, 1, timeout=1200)
    zt.stage(run, 'recorded solves in fixed precision', got)
    got = run.simulate('random products of linear forms, adaptive precision', 'zerodrv', 'ZeroSpec', z(True, 12, ['td', 'mhom'], ['amp']), run.pick(100, 3000), 30, inv, 2, timeout=1200)
    zt.stage(run, 'recorded solves in adaptive precision', got)


@prop('C18')
def c18(run):
    run.build('setrep')
    inv = ('Emit', 'OwnOnly')
    run.bfs('every text of two statements', 'setdrv', 'SetSpec', dict(Sim=False, MaxOps=2), inv)
    run.simulate('random texts', 'setdrv', 'SetSpec', dict(Sim=True, MaxOps=20), run.pick(4000, 60000), 24, inv)
