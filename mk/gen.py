#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'core/include/bertini2/system/'
SS = 'core/src/system/'
F = 'core/include/bertini2/function_tree/'
FS = 'core/src/function_tree/'
TREE = [F, FS]
SYS = [S + 'system.hpp', SS + 'system.cpp', S + 'straight_line_program.hpp', SS + 'straight_line_program.cpp']
TEST_NOTE = 'The repository\'s function tree, system, differentiation and straight line program tests sample a few fixed expressions at fixed points and are not part of the stable run.'

P = []


def p(id, title, statement, over, text, why, files, mech, technique, note, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], **({'state': state} if state else {}), **({'observe_at': observe} if observe else {}))))
    P[-1]['_t'], P[-1]['_n'] = technique, note


NOTE = ('TLC explores the specification (exhaustively for the small alphabet, seeded random behaviours for the rest); every behaviour is replayed on the code built from /repo and each observation is compared with '
        'the value the specification requires. Trusts TLC, the specification, the drivers in vlib and harness, and floating point comparison within 1e-9 (double) or all but 12 digits (multiple precision).')

p('C01', 'System evaluation returns the values of the functions put in, at any point',
  'Evaluating a System gives, in the order the functions were added, the mathematical values of its functions at the given point (and path time), followed by its patch equations, in double and in multiple precision. '
  'This holds for any expressions (sums, differences, products, quotients, integer and real powers, negation, elementary functions, constants, nested and shared subexpressions) and after any sequence of other operations: adding functions and variables, switching evaluation or differentiation method, differentiating, simplifying, evaluating elsewhere or in the other number type, setting variables and re-evaluating, resetting. '
  'A point of the wrong size, a missing time or a superfluous time is refused with an exception and leaves the System usable.',
  ['inputs', 'histories'], 'every System built from the expression grammar, every sequence of mutating and observing operations, every point',
  TEST_NOTE + ' No test interleaves mutations, method switches and evaluations.', TREE + SYS,
  [('straight line program compilation and evaluation', SS + 'straight_line_program.cpp'), ('function tree evaluation with stored values', F + 'node.hpp'), ('setting variables and times', S + 'system.hpp')],
  'TLA+ specification (SysSpec), TLC exhaustive and random behaviours replayed on the code', NOTE)
p('C02', 'Jacobians and time derivatives are the derivatives of the functions',
  'The Jacobian of a System has as entry (i,j) the partial derivative of function i with respect to the j-th variable of the documented ordering, patch rows after the functions, and its time derivative is the derivative of each function with respect to the path variable. '
  'This holds for every supported expression, in either evaluation method and either differentiation method, in double and multiple precision, at any point and after any sequence of other operations on the System; asking for a time derivative without a path variable is refused. '
  'The derivative of a single expression with respect to a variable, as a tree or through its Jacobian form, evaluates to the mathematical derivative.',
  ['inputs', 'histories'], 'every System and expression of the grammar, every method combination, every history of operations, every point',
  TEST_NOTE, TREE + SYS, [('Differentiate of every node type', FS), ('Jacobian nodes', F + 'roots/jacobian.hpp'), ('derivatives in the straight line program', SS + 'straight_line_program.cpp')],
  'TLA+ specification (SysSpec, dual numbers), TLC behaviours replayed on the code', NOTE)
p('C03', 'Simplification never changes what an expression or System computes',
  'Simplifying a System (explicitly, or automatically before evaluation) leaves the values of its functions, Jacobian and time derivatives at every point unchanged, and so does simplifying a single expression. '
  'This holds whatever values happen to be stored in the variables at that time, for expressions containing zeros and ones, nested sums and products, and shared subexpressions, and simplifying repeatedly is harmless.',
  ['inputs', 'histories'], 'every System and expression of the grammar, every point, simplification at any moment of any history', TEST_NOTE, TREE + SYS,
  [('Simplify, EliminateZeros, EliminateOnes, ReduceDepth', F), ('SimplifyFunctions, SimplifyDerivatives', SS + 'system.cpp')],
  'TLA+ specification (SysSpec), TLC behaviours replayed on the code', NOTE)
p('C04', 'Changing working precision keeps values correct to the new precision',
  'After the precision of a System and of its expressions has been changed any number of times, up or down, before or after evaluations, copies and differentiations, multiple precision evaluation, Jacobian, time derivative and single expression values are correct to the current precision, and double precision results are unaffected. '
  'Rational and integer constants never lose accuracy by a detour through a lower precision, and the System and its results report the current precision.',
  ['inputs', 'histories', 'configurations'], 'every System of the grammar, every sequence of precisions between 30 and 100 digits interleaved with other operations', TEST_NOTE + ' No test changes precision after evaluation and re-evaluates.', TREE + SYS,
  [('precision(unsigned) of Systems, straight line programs and nodes', SYS[1] + ', ' + SYS[3] + ', ' + F), ('numbers re-downsampled from exact values', F + 'symbols/number.hpp')],
  'TLA+ specification (SysSpec), TLC behaviours replayed on the code', NOTE)
p('C05', 'Copies, clones, archives and arithmetic of Systems mean what they say',
  'A copy, move, clone or archived and reloaded System has the same functions, variables, path variable, patch and values as the original, and later operations on one of the two do not change the other\'s values, degrees or variables. '
  'System + System, += , multiplication by an expression and concatenation give Systems whose functions are the sums, products and concatenation of the operands\' functions, keep a patch of either operand, leave every other System unchanged and refuse operands of different shape.',
  ['inputs', 'histories'], 'every pair of Systems of the grammar, every order of copying, arithmetic, mutation and observation',
  TEST_NOTE + ' No test observes the operands after arithmetic or the copy after mutation.', TREE + SYS, [('copy, move, swap, Clone, serialize', S + 'system.hpp'), ('operator+=, operator*=, Concatenate', SS + 'system.cpp')],
  'TLA+ specification (SysSpec), TLC behaviours replayed on the code', NOTE)
p('C06', 'Degrees, polynomiality and homogeneity are reported correctly',
  'For a polynomial expression the degree in one variable, in a group of variables jointly, and the multidegree are the mathematical formal degrees of the expression, independent of how it is nested; for a non-polynomial dependence the degree is negative. '
  'A System reports the degrees of its functions in all its variables and in each group, is reported polynomial when all functions are, reported homogeneous exactly when each function is homogeneous in each group, and reordering functions by degree orders them by these degrees without otherwise changing the System.',
  ['inputs', 'histories'], 'every expression and System of the grammar, every subset of variables', TEST_NOTE, TREE + SYS,
  [('Degree, MultiDegree, IsHomogeneous, IsPolynomial of every node type', FS), ('Degrees, ReorderFunctionsByDegree*', SS + 'system.cpp')],
  'TLA+ specification (SysSpec degree calculus), TLC behaviours replayed on the code', NOTE)
p('C07', 'Homogenization, variable order, patching and dehomogenization fit together',
  'Homogenizing a polynomial System adds one homogenizing variable per affine group, placed before that group in the documented first-in-first-out variable order, and makes function f of group degrees d the function that is homogeneous of degree d in each group and equals f when the homogenizing variables are one; homogenizing twice changes nothing and a non-polynomial System is refused. '
  'Dehomogenizing a point divides each affine group by its homogenizing variable and returns the natural variables in order; patching adds one equation per projective group, and rescaling a point to the patch makes every patch equation zero without changing the point it represents. '
  'The reported variables, groups, counts and sizes always agree with this.',
  ['inputs', 'histories'], 'every polynomial System with any arrangement of affine, homogeneous and ungrouped variables, every history', TEST_NOTE, TREE + SYS + [S + 'patch.hpp'],
  [('Homogenize', FS), ('DehomogenizePoint, VariableOrdering, AutoPatch', SS + 'system.cpp'), ('patches', S + 'patch.hpp')],
  'TLA+ specification (SysSpec), TLC behaviours replayed on the code', NOTE)

exec(open(os.path.join(V, 'mk', 'more.py')).read()) if os.path.exists(os.path.join(V, 'mk', 'more.py')) else None

P.sort(key=lambda q: q['id'])
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for q in P:
        f.write(json.dumps({k: v for k, v in q.items() if not k.startswith('_')}) + '\n')
NA = globals().get('NA', [])
man = dict(version=1, setup_cmd='python3 check.py setup', checks=[
    dict(property=q['id'], quick_cmd='python3 check.py %s quick' % q['id'], thorough_cmd='python3 check.py %s thorough' % q['id'],
         technique=q['_t'], level=q.get('_level', 'model_checking'), level_note=q['_n'], evidence_file='evidence/%s.json' % q['id'])
    for q in P if q['id'] not in {x['property'] for x in NA}], not_applicable=NA)
json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
for q in P:
    assert len(q['title']) <= 80, q['title']
print(len(P))
