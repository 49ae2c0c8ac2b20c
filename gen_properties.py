"""writes properties.jsonl"""
import json
CE = 'src/PLASMA/ConstraintEngine/'
T = []


def P(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    assert len(title) <= 80, title
    T.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe),
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state], hook_needed=None)))


P('P01', 'Extended numbers: arithmetic and comparison with infinities',
  'Sums, differences, products, quotients, remainders, negations, increments and comparisons of extended integers and extended reals, in every mix of operand types, equal the mathematical result when all operands are finite; a zero factor gives zero, a finite operand never moves an infinity, and a finite number divided by an infinity is zero. A finite result outside the range between the infinities is reported as an overflow and never returned as a number. Compound assignments and increments store the same result they return.',
  ['inputs'], 'every pair of operand values (finite or infinite) of every pair of operand types the operators accept',
  'the tests try a dozen constants per operator; the case distinctions are macros expanded some hundred times for different operand types',
  ['src/PLASMA/Utils/Number.hh'], [('infinity case macros', 'Utils/Number.hh handle_inf_*'), ('operators', 'Utils/Number.hh edouble, eint')],
  ['return values and exceptions of the operators'])

P('P02', 'Interval domains: every operation yields exactly the intended set',
  'An interval of reals, integers or booleans answers emptiness, singleton, bounds, size, membership, subset, overlap and equality queries according to the set of values between its bounds, up to the resolution of its type. Setting, restricting to bounds, intersecting, equating, subtracting, removing and relaxing leave exactly the intended set: never a value that was outside, never losing a value that should stay. The returned flag says whether the set changed.',
  ['inputs'], 'all bounds (finite or infinite, open-ended, equal, crossed) and all argument domains or values that satisfy the documented preconditions',
  'tests use a few literal bounds; the tolerance comparisons, integer rounding and infinity cases interact for every pair of bounds',
  [CE + 'component/Domains.cc', CE + 'component/Domains.hh', CE + 'base/Domain.cc', CE + 'base/Domain.hh'],
  [('bounds intersection', 'IntervalDomain::intersect'), ('tolerant comparison', 'Domain::lt, leq, eq, compareEqual'), ('integer rounding', 'IntervalIntDomain::intersect, convert')],
  ['domain queries after each operation'], [('m_lb, m_ub', 'the bounds', 'IntervalDomain')])

P('P03', 'Enumerated domains: every operation yields exactly the intended set',
  'A domain that lists its values (numbers, symbols or strings) answers emptiness, singleton, bounds, size, membership, subset, overlap and equality queries according to that set, up to the resolution of its type. Inserting, removing, setting, intersecting with another enumeration or with an interval, equating, subtracting and relaxing leave exactly the intended set, whatever the sizes and relative order of the two sets. The returned flag says whether the set changed.',
  ['inputs'], 'all finite sets of values, open or closed, and all argument domains or values that satisfy the documented preconditions',
  'the merge-style loops over two ordered sets behave differently for every interleaving of the two sets; tests try a handful of interleavings',
  [CE + 'component/Domains.cc', CE + 'component/Domains.hh'],
  [('ordered merge', 'EnumeratedDomain::intersect, equateClosedEnumerations'), ('membership with tolerance', 'EnumeratedDomain::isMember')],
  ['domain queries after each operation'], [('m_values', 'the set of members', 'EnumeratedDomain')])

P('P04', 'Domains notify their listener of every change, once, with the right event',
  'Whenever an operation changes a domain, its listener receives exactly one event for that change and the event describes it: emptied when nothing remains, restricted to a singleton when one value remains, the bound or value events otherwise, and the set, reset, relaxed, closed and opened events for those operations. An operation that leaves the domain as it was sends no event.',
  ['inputs', 'histories'], 'all domains, all operations on them and all arguments satisfying the documented preconditions',
  'constraint propagation depends on these events; a missing event silently leaves other variables stale, and tests look at events for a few operations only',
  [CE + 'component/Domains.cc', CE + 'base/Domain.cc', CE + 'base/DomainListener.hh'],
  [('notification', 'Domain::notifyChange'), ('event choice', 'the mutators of IntervalDomain and EnumeratedDomain')],
  ['DomainListener::notifyChange'])

if __name__ == '__main__':
    try:
        import props_more
        props_more.add(P, CE)
    except ImportError:
        pass
    with open('/verif/properties.jsonl', 'w') as f:
        for o in sorted(T, key=lambda o: o['id']): f.write(json.dumps(o) + '\n')
