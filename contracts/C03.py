"""C03: flag sets and enum operators are the set algebra of their bits."""
from kv.lib import *
from kv.harness import Targets
T = Targets()
OPS = {'plus': lambda a, b: a | b, 'or': lambda a, b: a | b, 'and': lambda a, b: a & b, 'xor': lambda a, b: a ^ b,
       'minus': lambda a, b: a & ~b, 'asg': lambda a, b: b}


def value_ops(pre, n, ops, suffix=''):
    for op in ops:
        def mk(op):
            @T.add('%s %s' % (pre, op), 'result == bitwise %s; operands unchanged' % op)
            def t(h):
                a, b = h.bv('a', n), h.bv('b', n)
                if 'c03_e' in pre:
                    p, q = h.st.new_cells('a', n // 8), h.st.new_cells('b', n // 8)
                    h.st.put(p, n // 8, a)
                    h.st.put(q, n // 8, b)
                    for s in h.run('%s_%s' % (pre, op), p, q):
                        h.check(s, s.ret == OPS[op](a, b), 'operator %s' % op)
                        h.check(s, And(s.get(p, n // 8) == a, s.get(q, n // 8) == b), 'operands of %s unchanged' % op)
                else:
                    for s in h.run('%s_%s' % (pre, op), a, b):
                        h.check(s, s.ret == OPS[op](a, b), 'operator %s' % op)
        mk(op)


def assign_ops(pre, n, ops):
    for op in ops:
        def mk(op, alias):
            @T.add('%s %sa%s' % (pre, op, ' self' if alias else ''), 'assigning form stores and returns the result, right operand unchanged')
            def t(h):
                a, b = h.bv('a', n), h.bv('b', n)
                p, q, o = [h.st.new_cells(x, n // 8) for x in 'abo']
                h.st.put(p, n // 8, a)
                h.st.put(q, n // 8, b)
                h.st.put(o, n // 8, BV(0, n))
                if alias:
                    q, b = p, a
                fn = '%s_%s' % (pre, op if op == 'asg' else op + 'a')
                for s in h.run(fn, p, q, o):
                    h.check(s, s.get(p, n // 8) == OPS[op](a, b), 'operator %s= stores' % op)
                    h.check(s, s.get(o, n // 8) == OPS[op](a, b), 'operator %s= returns its left operand' % op)
                    if not alias:
                        h.check(s, s.get(q, n // 8) == b, 'right operand of %s= unchanged' % op)
        mk(op, False)
        mk(op, True)


def simple(pre, n, fn, nargs, spec):
    @T.add('%s %s' % (pre, fn), 'definition')
    def t(h):
        args = [h.bv('ab'[i], n) for i in range(nargs)]
        for s in h.run('%s_%s' % (pre, fn), *args):
            r = s.ret
            e = spec(*args)
            h.check(s, (B(r) == e) if z3.is_bool(r) else (r == e), '%s definition' % fn)


for nm, n in (('8', 8), ('16', 16), ('32', 32), ('32s', 32), ('64', 64), ('32p', 32)):
    f = 'c03_f_' + nm
    value_ops(f, n, ('plus', 'or', 'and', 'xor', 'minus'))
    assign_ops(f, n, ('plus', 'or', 'and', 'xor', 'minus', 'asg'))
    simple(f, n, 'plusk', 2, lambda a, b: BV(1, a.size()))
    simple(f, n, 'bool', 1, lambda a: a != 0)
    simple(f, n, 'not', 1, lambda a: a == 0)
    simple(f, n, 'eq', 2, lambda a, b: a == b)
    simple(f, n, 'ne', 2, lambda a, b: a != b)
    simple(f, n, 'bits', 1, lambda a: a)
    simple(f, n, 'get', 1, lambda a: a)
    simple(f, n, 'copy', 1, lambda a: a)
    simple(f, n, 'def', 0, lambda n=n: BV(0, n))
    if nm == '32p':
        continue
    e = 'c03_e_' + nm
    value_ops(e, n, ('or', 'and', 'xor'))
    assign_ops(e, n, ('or', 'and', 'xor'))
    for c in ('eq1', 'eq2'):
        simple(e, n, c, 2, lambda a, b: a == b)
    for c in ('ne1', 'ne2'):
        simple(e, n, c, 2, lambda a, b: a != b)

    def mk(e, n):
        @T.add(e + ' inv/not', '~ complements every bit, ! is emptiness, operand unchanged')
        def t(h):
            a = h.bv('a', n)
            p = h.st.new_cells('a', n // 8)
            h.st.put(p, n // 8, a)
            for s in h.run(e + '_inv', p):
                h.check(s, s.ret == ~a, 'operator ~')
                h.check(s, s.get(p, n // 8) == a, 'operand of ~ unchanged')
            for s in h.run(e + '_not', p):
                h.check(s, B(s.ret) == (a == 0), 'operator !')
    mk(e, n)
