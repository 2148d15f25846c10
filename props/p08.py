"""P08 - dimension trees: structure, equality, changes and constructors."""
import itertools
import numpy as np
import tensap as ts
from .common import Case

BOUNDS = ('every rooted tree with up to 4 nodes (5 when no node has a single '
          'child; one more in the thorough tier), every numbering of its '
          'nodes and every assignment of dimensions to its leaves, as '
          'symbolic integers; random trees over up to 4 dimensions for every '
          'outcome of the random draws')
OUTSIDE = ('larger trees, adjacency matrices that are no trees, plotting, '
           'change_root when the root has a single child')


def sym_tree(c, name, n, unary=True, dims='any', topo=False):
    """Any rooted tree on nodes 1..n, any assignment of its leaves.

    The adjacency matrix handed to the code has symbolic entries; only which
    nodes are leaves, and of which dimension, is fixed beforehand.
    -> (tree, parent of each node (symbolic), leaf of each dimension)"""
    par = c.int(name + '_parent', (n,), 0, n)
    par = [par[i] for i in range(n)]
    lev = c.int(name + '_level', (n,), 0, n - 1)
    adj = np.zeros((n, n)).astype(object if c.symbolic else int)
    for i in range(n):
        c.assume(par[i] != i + 1)
        c.assume(iff(par[i] == 0, lev[i] == 0))
        for j in range(n):
            adj[j, i] = one(par[i] == j + 1)
            c.assume(imp(par[i] == j + 1, lev[i] == lev[j] + 1))
        if topo:
            c.assume(par[i] <= i)
    c.assume(sum(one(p == 0) for p in par) == 1)
    nk = [sum(one(p == i) for p in par) for i in range(1, n + 1)]
    if not unary:
        for k in nk:
            c.assume(k != 1)
    leaves = [i for i in range(1, n + 1) if nk[i - 1] == 0]
    d2i, left = [], list(leaves)
    while left:
        k = int(c.int('%s_dim%d' % (name, len(d2i)), None, 0,
                      len(left) - 1)) if dims == 'any' else 0
        d2i.append(left.pop(k))
    return ts.DimensionTree(np.array(d2i), adj), Par(par), d2i


class Par(list):
    """Parent function; reading an entry settles its value on this path."""

    def __getitem__(self, i):
        v = list.__getitem__(self, i)
        if not isinstance(v, int):
            v = int(v)
            list.__setitem__(self, i, v)
        return v

    def __iter__(self):
        return iter([self[i] for i in range(len(self))])

    def index(self, x):
        return list(self.__iter__()).index(x)

    def __add__(self, o):
        return list(iter(self)) + o


def one(b):
    return b._i() if hasattr(b, '_i') else int(b)


def neg(x):
    return (not x) if isinstance(x, (bool, np.bool_)) else ~x


def imp(a, b):
    if isinstance(a, (bool, np.bool_)) and not a:
        return True
    return (~a | b) if hasattr(a, '_i') else bool(b)


def iff(a, b):
    if isinstance(a, (bool, np.bool_)):
        return bool(a) == bool(b)
    return (~a | b) & (~b | a)


def kids_of(par, i):
    return [j + 1 for j, p in enumerate(par) if p == i]


def dims_of(par, d2i, i):
    if i in d2i:
        return [d2i.index(i)]
    out = []
    for j in kids_of(par, i):
        out += dims_of(par, d2i, j)
    return out


def up(par, i):
    out = []
    while par[i - 1]:
        i = par[i - 1]
        out.append(i)
    return out


def lst(x):
    return [int(y) for y in np.ravel(x)]


def consistent(c, t, par, d2i):
    """Every attribute of the tree object against its parent function."""
    n = len(par)
    c.ok('nb_nodes', t.nb_nodes == n)
    c.ok('dim2ind', lst(t.dim2ind) == list(d2i))
    c.ok('root', int(t.root) == par.index(0) + 1)
    c.ok('arity', int(t.arity) == max(len(kids_of(par, i))
                                      for i in range(1, n + 1)))
    c.ok('internal', lst(t.internal_nodes) == [
        i for i in range(1, n + 1) if i not in d2i])
    c.ok('parents of leaves', lst(t.nodes_parent_of_leaves) == sorted(
        {par[i - 1] for i in d2i}))
    lev = [len(up(par, i)) for i in range(1, n + 1)]
    c.ok('level', lst(t.level) == lev)
    for k in range(max(lev) + 1):
        c.ok('nodes with level', lst(t.nodes_with_level(k)) == [
            i for i in range(1, n + 1) if lev[i - 1] == k])
    for i in range(1, n + 1):
        ch = kids_of(par, i)
        c.ok('children', lst(t.children(i)) == ch)
        c.ok('parent', int(t.parent(i)) == par[i - 1])
        c.ok('leaf', bool(t.is_leaf[i - 1]) == (not ch))
        if par[i - 1]:
            sib = kids_of(par, par[i - 1])
            c.ok('child number', int(t.child_number(i)) == sib.index(i) + 1)
            c.ok('sibling', [x for x in lst(t.sibling[:, i - 1]) if x] == sib)
        else:
            c.ok('child number', int(t.child_number(i)) == 0)
        c.ok('ascendants', lst(t.ascendants(i)) == up(par, i))
        desc = lst(t.descendants(i))
        c.ok('descendants', sorted(desc) == [
            j for j in range(1, n + 1) if i in up(par, j)])
        c.ok('parents first', all(desc.index(j) > desc.index(par[j - 1])
                                  for j in desc if par[j - 1] != i))
        c.ok('dims', lst(t.dims[i - 1]) == dims_of(par, d2i, i))


def c_structure(c, n, unary, dims='any'):
    t, par, d2i = sym_tree(c, 't', n, unary, dims)
    consistent(c, t, par, d2i)
    fam = [sorted(dims_of(par, d2i, i)) for i in range(1, n + 1)]
    d = len(d2i)
    for k in range(1, d + 1):
        for s in itertools.combinations(range(d), k):
            c.ok('node with dims', lst(t.node_with_dims(list(reversed(s))))
                 == [i + 1 for i in range(n) if fam[i] == list(s)])


def family(par, d2i):
    n = len(par)
    return sorted((len(up(par, i)), sorted(dims_of(par, d2i, i)))
                  for i in range(1, n + 1))


def c_equal(c, n, unary, topo=False):
    t, par, d2i = sym_tree(c, 't', n, unary, topo=True)
    u, par2, d2i2 = sym_tree(c, 'u', n, unary, topo=topo,
                             dims='any' if topo else 'first')
    got, diff = bool(t == u), bool(t != u)
    same = family(par, d2i) == family(par2, d2i2)
    c.ok('equal', got == same)
    c.ok('different', diff == (not same))
    consistent(c, t, par, d2i)


def c_unequal_sizes(c, n, m):
    t, par, d2i = sym_tree(c, 't', n, topo=True)
    u, par2, d2i2 = sym_tree(c, 'u', m, dims='first')
    c.ok('different', bool(t != u) and not bool(t == u))


def c_permute(c, n, unary, dims='any'):
    t, par, d2i = sym_tree(c, 't', n, unary, dims)
    d = len(d2i)
    left, sg = list(range(d)), []
    while left:
        sg.append(left.pop(int(c.int('s%d' % len(sg), None, 0,
                                     len(left) - 1))))
    s = np.array(sg)
    p, q = t.permute(s), t.ipermute(s)
    consistent(c, p, par, [d2i[sg.index(k)] for k in range(d)])
    consistent(c, q, par, [d2i[k] for k in sg])
    c.ok('inverse', p.ipermute(s) == t and q.permute(s) == t)
    c.ok('permutation unchanged', lst(s) == sg)
    p.adjacency_matrix[:] = 0
    q.adjacency_matrix[:] = 0
    consistent(c, t, par, d2i)


def parents_of(c, t):
    a = np.asarray(t.adjacency_matrix)
    n = a.shape[0]
    par = [0] * n
    for i in range(n):
        for j in range(n):
            c.ok('0-1 entries', a[i, j] in (0, 1))
            if a[i, j]:
                c.ok('one parent', par[j] == 0)
                par[j] = i + 1
    return par


def edges(par):
    return {frozenset((j + 1, p)) for j, p in enumerate(par) if p}


def c_root(c, n, unary):
    t, par, d2i = sym_tree(c, 't', n, unary)
    root = par.index(0) + 1
    c.assume(len(kids_of(par, root)) > 1)
    nod = int(c.int('nod', None, 1, n))
    new, mod = t.change_root(nod)
    p2 = parents_of(c, new)
    if nod == root:
        consistent(c, new, par, d2i)
        return
    c.ok('new root', p2[nod - 1] == 0 and p2.count(0) == 1)
    if nod in d2i:
        c.ok('edges', edges(p2) == edges(par) | {frozenset((nod, n + 1))})
        consistent(c, new, p2, [n + 1 if x == nod else x for x in d2i])
    else:
        c.ok('edges', edges(p2) == edges(par))
        consistent(c, new, p2, d2i)
    changed = {i for i in range(1, n + 1) if p2[i - 1] != par[i - 1]
               or kids_of(p2, i) != kids_of(par, i)}
    c.ok('modified nodes', changed <= set(lst(mod)) <=
         set(range(1, n + 1)))
    consistent(c, t, par, d2i)


def c_child(c, n):
    t, par, d2i = sym_tree(c, 't', n)
    nod = int(c.int('nod', None, 1, n))
    new = t.add_child(nod)
    consistent(c, new, par + [nod], [n + 1 if x == nod else x for x in d2i]
               if nod in d2i else d2i + [n + 1])
    consistent(c, t, par, d2i)


def c_sub(c, n, unary):
    t, par, d2i = sym_tree(c, 't', n, unary)
    nod = int(c.int('nod', None, 1, n))
    c.assume(nod not in d2i)
    s, nodes = t.sub_dimension_tree(nod)
    v = lst(nodes)
    want = [nod] + [j for j in range(1, n + 1) if nod in up(par, j)]
    c.ok('nodes', v[0] == nod and sorted(v) == sorted(want))
    p2 = [0 if x == nod else v.index(par[x - 1]) + 1 for x in v]
    dims = lst(t.dims[nod - 1])
    consistent(c, s, p2, [v.index(d2i[k]) + 1 for k in dims])
    consistent(c, t, par, d2i)


def check_built(c, t, d):
    par = parents_of(c, t)
    c.ok('one root', par.count(0) == 1)
    d2i = lst(t.dim2ind)
    leaves = [i for i in range(1, len(par) + 1) if not kids_of(par, i)]
    c.ok('one leaf per dimension', sorted(d2i) == leaves and len(d2i) == d)
    consistent(c, t, par, d2i)
    return par, d2i


def c_named(c, d, order):
    arg = d
    if order:
        left, arg = list(range(d)), []
        while left:
            arg.append(left.pop(int(c.int('s%d' % len(arg), None, 0,
                                          len(left) - 1))))
    o = arg if order else list(range(d))
    t = ts.DimensionTree.linear(np.array(arg) if order else arg)
    par, d2i = check_built(c, t, d)
    fam = sorted(sorted(dims_of(par, d2i, i)) for i in range(1, len(par) + 1))
    want = sorted([sorted(o[:k]) for k in range(2, d + 1)] +
                  [[k] for k in range(d)])
    c.ok('linear: first dims grouped', fam == want)
    b = ts.DimensionTree.balanced(np.array(arg) if order else arg)
    par, d2i = check_built(c, b, d)
    c.ok('balanced: binary', d == 1 or all(
        len(kids_of(par, i)) in (0, 2) for i in range(1, len(par) + 1)))
    lev = [len(up(par, i)) for i in d2i]
    c.ok('balanced: depths', max(lev) - min(lev) <= 1)
    if not order:
        t = ts.DimensionTree.trivial(d)
        par, d2i = check_built(c, t, d)
        c.ok('trivial', sorted(par) == [0] + [par.index(0) + 1] * d)


def c_random(c, d, arity):
    lo, hi = arity if np.ndim(arity) else (arity, arity)
    t = ts.DimensionTree.random(d, list(arity) if np.ndim(arity) else arity)
    par, d2i = check_built(c, t, d)
    for i in range(1, len(par) + 1):
        k = len(kids_of(par, i))
        nd = len(dims_of(par, d2i, i))
        c.ok('arity', k == 0 if nd == 1 else
             min(lo, nd) <= k <= min(hi, nd))


def cases(tier):
    deep = tier == 'thorough'
    out = []

    def add(f, name, **k):
        out.append(Case(f.__name__[2:] + ':' + name, f, k, max_paths=60000,
                        time=300 if not deep else 850, max_conc=200,
                        sym_perm=True,
                        weight=5 if f in (c_random, c_equal) else 1))
    e = 1 if deep else 0
    for n in range(2, 5):
        add(c_structure, '%d' % n, n=n, unary=True)
        add(c_child, '%d' % n, n=n)
    for n in range(3, 6 + e):
        add(c_structure, 'branching-%d' % n, n=n, unary=False,
            dims='any' if n < 5 or deep else 'first')
        if n == 5 and not deep:
            continue
        add(c_permute, '%d' % n, n=n, unary=False)
        add(c_root, '%d' % n, n=n, unary=False)
        add(c_sub, '%d' % n, n=n, unary=False)
    add(c_root, 'unary-4', n=4, unary=True)
    add(c_sub, 'unary-4', n=4, unary=True)
    add(c_permute, 'unary-4', n=4, unary=True,
        dims='any' if deep else 'first')
    if deep:
        add(c_structure, '5', n=5, unary=True)
        add(c_child, '5', n=5)
    for n in (2, 3):
        add(c_equal, '%d' % n, n=n, unary=True)
    add(c_equal, 'branching-4', n=4, unary=False)
    add(c_equal, '4', n=4, unary=True, topo=not deep)
    add(c_unequal_sizes, '3-2', n=3, m=2)
    add(c_unequal_sizes, '3-4', n=3, m=4)
    for d in (1, 2, 3, 4, 5, 6, 7, 8):
        add(c_named, '%d' % d, d=d, order=False)
    for d in (2, 3, 4):
        add(c_named, 'order-%d' % d, d=d, order=True)
    for d, a in ((1, 2), (2, 2), (3, 2), (3, 3), (3, (2, 3)), (4, 2),
                 (4, 3)) + (((4, (2, 3)), (4, (2, 4))) if deep else ()):
        add(c_random, '%d-%s' % (d, a), d=d, arity=a)
    return out
