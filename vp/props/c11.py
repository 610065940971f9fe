from ..core import *
from .. import oracles as o
import jax.numpy as jnp
from mfs.multi_dims.multi_indices import sizeof_multi_indices, graded_lexico_indexof_multi_index, generate_graded_lexico_multi_indices, find_indices

PROP = Prop('C11', rule='dimension >= 2 and at least two multi-indices in the range')


@st.composite
def rng(draw):
    d = draw(st.integers(1, 7))
    cap = {1: 30, 2: 16, 3: 11, 4: 8, 5: 6, 6: 5, 7: 4}[d]
    if d <= 3 and draw(st.integers(0, 7)) == 0:  # a thin band of high degree
        up = draw(st.integers(100, {1: 400, 2: 300, 3: 135}[d]))
        return dict(d=d, up=up, lo=up - draw(st.integers(0, {1: 30, 2: 4, 3: 0}[d])), default=False)
    up = draw(st.integers(0, cap))
    return dict(d=d, up=up, lo=draw(st.integers(0, up)), default=draw(st.booleans()))


@PROP.sub('enumeration', rng(), quick=450, shards=4)
def enumeration(c, ctx):
    d, up, lo = c['d'], c['up'], 0 if c['default'] else c['lo']
    ex = o.multi_indices(d, up, lo)
    ctx.label(f'd={d}', 'lower bound' if lo else 'no lower bound')
    ctx.nt(d >= 2 and len(ex) >= 2)
    kw = {} if c['default'] else dict(lower_sum=lo)
    got = ctx.call('generate', generate_graded_lexico_multi_indices, d, up, **kw)
    got = np.asarray(got)
    ctx.equal(tuple(got.shape), (len(ex), d), 'shape of the collection')
    ctx.true(np.issubdtype(got.dtype, np.integer), 'integer collection', dtype=str(got.dtype))
    ctx.true(np.array_equal(got, np.array(ex)), 'graded lexicographic collection', got=got[:20], expected=ex[:20])
    if got.flags.writeable:  # a caller owns what it is given: changing it must not change later answers
        got += 1
        again = np.asarray(ctx.call('generate', generate_graded_lexico_multi_indices, d, up, **kw))
        ctx.true(np.array_equal(again, np.array(ex)), 'the collection after a caller changed an earlier one in place', got=again[:20], expected=ex[:20])
    ctx.equal(int(ctx.call('sizeof', sizeof_multi_indices, d, up, **kw)), len(ex), 'cardinality')
    step = max(1, len(ex) // 60)
    for i in range(0, len(ex), step):
        for seq in (tuple(ex[i]), list(ex[i]), np.array(ex[i])):
            r = ctx.call('rank', graded_lexico_indexof_multi_index, seq, **kw)
            ctx.true(int(r) == i, 'rank of a multi-index', multi_index=ex[i], rank=int(r), expected=i, lower=lo)
    if lo == 0:
        r = np.asarray(ctx.call('find_indices', find_indices, np.array(ex)))
        ctx.true(np.array_equal(r, np.arange(len(ex))), 'ranks of an array of multi-indices', got=r[:20])
        if r.flags.writeable:
            r += 1
        # element-wise on any leading shape
        p = np.random.default_rng(d * 100 + up).integers(0, len(ex), size=(3, 4))
        r = np.asarray(ctx.call('find_indices', find_indices, np.array(ex)[p]))
        ctx.true(np.array_equal(r, p), 'ranks of a matrix of multi-indices')
        ctx.true(int(ctx.call('find_indices', find_indices, ex[-1])) == len(ex) - 1, 'rank of a tuple')


@st.composite
def big(draw):
    d = draw(st.integers(1, 9))
    n = draw(st.lists(st.one_of(st.integers(0, 12), st.integers(0, 12), st.integers(0, 150 if d < 5 else 30)), min_size=d, max_size=d))
    return dict(n=n, lo=draw(st.integers(0, sum(n))), up=draw(st.integers(0, 40)), l=draw(st.integers(0, 45)))


def count(d, total):
    return math.comb(total + d - 1, d - 1)


@PROP.sub('ranking_and_counting', big(), quick=2500, shards=3)
def ranking(c, ctx):
    """Large indices: rank = number of multi-indices before it, counted coordinate by coordinate."""
    n, d = c['n'], len(c['n'])
    ctx.nt(d >= 2 and sum(n) >= 2)
    s = sum(n)
    before = sum(count(d, k) for k in range(s))
    rem = s
    for i in range(d - 1):
        before += sum(count(d - i - 1, rem - v) for v in range(n[i]))
        rem -= n[i]
    r = int(ctx.call('rank', graded_lexico_indexof_multi_index, tuple(n)))
    ctx.equal(r, before, f'rank of {n}')
    lo = c['lo']
    r = int(ctx.call('rank', graded_lexico_indexof_multi_index, tuple(n), lo))
    ctx.equal(r, before - sum(count(d, k) for k in range(lo)), f'rank of {n} with lower bound {lo}')
    got = int(ctx.call('sizeof', sizeof_multi_indices, d, c['up'], c['l']))
    ctx.equal(got, sum(count(d, k) for k in range(c['l'], c['up'] + 1)), f'cardinality d={d} up={c["up"]} low={c["l"]}')
