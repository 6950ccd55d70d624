"""C01: MultiIndexHandler<D>, D = 1..4, for all lengths. The abstract state is (L, d) with 0 <= d_j < L_j; rank(L, d) is the
mixed-radix number. `canon(L, d)` is the object the real constructor and SetIndices make; a mutator is right when it turns
canon(L, d) into canon(L, d') field by field, so no field of the class is named here."""
import z3
from values import *
from spec import Task

TU = 'core'


def mih(D): return f'util::MultiIndexHandler<{D}>'


def rank(L, d):
    r, m = 0, 1
    for l, x in zip(L, d): r = r + x * m; m = m * l
    return r


def total(L):
    m = 1
    for l in L: m = m * l
    return m


def succ(L, d):
    carry = z3.BoolVal(True); out = []
    for l, x in zip(L, d):
        out.append(z3.If(carry, z3.If(x == l - 1, z3.IntVal(0), x + 1), x)); carry = z3.And(carry, x == l - 1)
    return out


def pred(L, d):
    carry = z3.BoolVal(True); out = []
    for l, x in zip(L, d):
        out.append(z3.If(carry, z3.If(x == 0, l - 1, x - 1), x)); carry = z3.And(carry, x == 0)
    return out


def setup(a, D, tag=''):
    L = [z3.Int(f'L{tag}{j}') for j in range(D)]; d = [z3.Int(f'd{tag}{j}') for j in range(D)]
    for l, x in zip(L, d): a.assume(l >= 1); a.assume(x >= 0); a.assume(x < l)
    return L, d


def canon(a, D, L, d):
    h = a.new(mih(D), Arr(L)); a.call(h, 'SetIndices', Arr(d))
    return h


def same_state(a, h, D, L, d): return val_eq(a.load(h), a.load(canon(a, D, L, d)))


def tasks():
    T = []
    for D in (1, 2, 3, 4):
        def ctor(a, D=D):
            L = [z3.Int(f'L{j}') for j in range(D)]
            for l in L: a.assume(l >= 1)
            h = a.new(mih(D), Arr(L))
            a.ensure('a new counter starts at the zero tuple', same_state(a, h, D, L, [0] * D))
            a.ensure('GetIndices of a new counter', land(*[eq(x, 0) for x in a.call(h, 'GetIndices').items]))
            a.ensure('total length is the product of the lengths', eq(a.call(h, 'Get1DLength'), total(L)))

        def observe(a, D=D):
            L, d = setup(a, D); h = canon(a, D, L, d)
            got = a.call(h, 'GetIndices')
            a.ensure('GetIndices returns the tuple that was set', land(*[eq(x, y) for x, y in zip(got.items, d)]))
            for j in range(D): a.ensure('operator[] returns the component', eq(a.call(h, 'operator[]', j), d[j]))
            a.ensure('linear index is the mixed-radix number', eq(a.call(h, 'Get1DIndex'), rank(L, d)))
            a.ensure('total length is the product of the lengths', eq(a.call(h, 'Get1DLength'), total(L)))
            e = [z3.Int(f'e{j}') for j in range(D)]; M = [z3.Int(f'M{j}') for j in range(D)]
            a.ensure('linear index of a given tuple', eq(a.call(h, 'Get1DIndex', Arr(e)), rank(L, e)))
            a.ensure('linear index for given lengths and tuple', eq(a.call(h, 'Get1DIndex', Arr(M), Arr(e)), rank(M, e)))
            diff = a.call(h, 'GetDifferenceIndices')
            a.ensure('difference tuple is the mirrored one', land(*[eq(x, l - 1 - y) for x, l, y in zip(diff.items, L, d)]))
            a.ensure('queries leave the counter unchanged', same_state(a, h, D, L, d))

        def extract(a, D=D):
            L, d = setup(a, D)
            for k in range(D):
                h = canon(a, D, L, d)
                rest = [j for j in range(D) if j != k]
                a.ensure(f'dropping direction {k} gives the linear index of the others', eq(a.call(h, 'ExtractDimension', k), rank([L[j] for j in rest], [d[j] for j in rest])))
                a.ensure('dropping a direction leaves the counter unchanged', same_state(a, h, D, L, d))

        def inc(a, D=D):
            L, d = setup(a, D); h = canon(a, D, L, d)
            a.call(h, 'operator++')
            a.ensure('++ makes the successor tuple', same_state(a, h, D, L, succ(L, d)))
            a.ensure('++ adds one to the linear index, wrapping at the end',
                     eq(a.call(h, 'Get1DIndex'), z3.If(rank(L, d) == total(L) - 1, 0, rank(L, d) + 1)))

        def postinc(a, D=D):
            L, d = setup(a, D); h = canon(a, D, L, d)
            old = a.call(h, 'operator++', 0)
            a.ensure('post-increment makes the successor tuple', same_state(a, h, D, L, succ(L, d)))
            a.ensure('post-increment returns the old counter', val_eq(old, a.load(canon(a, D, L, d))))

        def dec(a, D=D):
            L, d = setup(a, D); h = canon(a, D, L, d)
            a.call(h, 'operator--')
            a.ensure('-- makes the predecessor tuple', same_state(a, h, D, L, pred(L, d)))
            a.ensure('-- subtracts one from the linear index, wrapping at the start',
                     eq(a.call(h, 'Get1DIndex'), z3.If(rank(L, d) == 0, total(L) - 1, rank(L, d) - 1)))

        def inverse(a, D=D):
            L, d = setup(a, D); h = canon(a, D, L, d)
            a.call(h, 'operator++'); a.call(h, 'operator--')
            a.ensure('-- undoes ++', same_state(a, h, D, L, d))

        def inj(a, D=D):   # the enumeration hits every tuple once: the rank is injective and onto [0, total)
            L, d = setup(a, D); e = [z3.Int(f'e{j}') for j in range(D)]
            for l, x in zip(L, e): a.assume(x >= 0); a.assume(x < l)
            h1, h2 = canon(a, D, L, d), canon(a, D, L, e)
            r1, r2 = a.call(h1, 'Get1DIndex'), a.call(h2, 'Get1DIndex')
            a.ensure('linear index lies in [0, total)', z3.And(to_int(r1) >= 0, to_int(r1) < to_int(total(L))))
            for j in reversed(range(D)):
                # digit by digit from the top: equal ranks and equal higher digits force equal digit j
                hyp = z3.And(to_int(r1) == to_int(r2), *[d[i] == e[i] for i in range(j + 1, D)])
                m = to_int(total(L[:j])); lo, lo2 = to_int(rank(L[:j], d[:j])), to_int(rank(L[:j], e[:j]))
                a.ensure('partial linear index is below the product of the lower lengths', z3.And(lo >= 0, lo < m))
                q = z3.And(lo >= 0, lo < m, lo2 >= 0, lo2 < m)
                a.ensure('equal linear indices mean equal tuples', z3.Implies(z3.And(q, lo + d[j] * m == lo2 + e[j] * m, d[j] - e[j] >= 1), (d[j] - e[j]) * m >= m))
                a.ensure('equal linear indices mean equal tuples', z3.Implies(z3.And(hyp, q, z3.Implies(d[j] > e[j], (d[j] - e[j]) * m >= m), z3.Implies(e[j] > d[j], (e[j] - d[j]) * m >= m)), d[j] == e[j]))
        T += [Task(f'MultiIndexHandler<{D}> constructor', ctor), Task(f'MultiIndexHandler<{D}> observers', observe), Task(f'MultiIndexHandler<{D}> ExtractDimension', extract),
              Task(f'MultiIndexHandler<{D}> ++', inc), Task(f'MultiIndexHandler<{D}> post++', postinc), Task(f'MultiIndexHandler<{D}> --', dec), Task(f'MultiIndexHandler<{D}> -- after ++', inverse),
              Task(f'MultiIndexHandler<{D}> rank is injective', inj)]
    return T
