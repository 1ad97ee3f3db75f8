PROPS = {}
def J(file, entry, bounds='', quick=None, thorough=None, **kw):
    d = dict(file=file, entry=entry, bounds=bounds, quick=quick or {}, thorough=thorough or {}); d.update(kw); return d
S = dict(SYM=1)   # operations, sizes and positions stay symbolic and are forked on by the code; without it they are split into cases up front
def D(**k): return k
BIG = ['--max-steps', 400000000]

PROPS['V01'] = {'jobs': [
    J('vector.cpp', 'v01_hist', '', D(K=3, N0=2), D(K=4, N0=2), workers=8),
    J('vector.cpp', 'v01_hist', '', D(K=1, N0=1, SYM=1), D(K=1, N0=3, SYM=1), workers=8),
    J('vector.cpp', 'v01_long', '', D(K=7), D(K=9), workers=8),
    J('vector.cpp', 'v01_grow', '', D(GROW=18), D(GROW=40), workers=8),
    J('vector.cpp', 'v01_sizes', '', D(GROW=70), D(GROW=95), workers=4),
    J('vector.cpp', 'v01_huge', workers=8, opts=BIG),
    J('vector.cpp', 'v01_init'),
]}
PROPS['V02'] = {'jobs': [
    J('vector.cpp', 'v02_hist', '', D(K=2, N0=3), D(K=3, N0=3), workers=8),
    J('vector.cpp', 'v02_hist', '', D(K=1, N0=1, SYM=1), D(K=1, N0=3, SYM=1), workers=8),
    J('vector.cpp', 'v02_long', '', D(K=6), D(K=8), workers=8),
    J('vector.cpp', 'v02_grow', '', D(GROW=12), D(GROW=30), workers=8),
    J('vector.cpp', 'v02_sizes', '', D(GROW=40), D(GROW=95), workers=4),
    J('vector.cpp', 'v02_init'),
    J('vector.cpp', 'v02_huge', workers=8, opts=BIG),
    J('vector.cpp', 'v01_huge', workers=8, opts=BIG),
]}
PROPS['V03'] = {'jobs': [
    J('vector.cpp', 'v03_at', '', D(GROW=24), D(GROW=70), workers=8),
    J('vector.cpp', 'v03_tracked'),
]}
PROPS['S01'] = {'jobs': [
    J('string.cpp', 's01_hist', '', D(K=3, N0=2), D(K=4, N0=1), workers=8),
    J('string.cpp', 's01_hist', '', D(K=1, N0=3, SYM=1), D(K=2, N0=2, SYM=1), workers=8),
    J('string.cpp', 's01_wide', '', D(N0=2), D(N0=3), workers=4),
    J('string.cpp', 's01_c16', '', D(N0=2, SYM=1), D(N0=3, SYM=1), workers=4),
    J('string.cpp', 's01_grow', '', D(GROW=20), D(GROW=40), workers=8),
    J('string.cpp', 's01_huge', workers=8, opts=BIG),
]}
PROPS['S02'] = {'jobs': [
    J('string.cpp', 's02_find', '', D(HAY=4, NEEDLE=3), D(HAY=6, NEEDLE=4), workers=8),
    J('string.cpp', 's02_default', '', D(HAY=4, NEEDLE=3), D(HAY=6, NEEDLE=4), workers=4),
    J('string.cpp', 's02_char', '', D(HAY=4), D(HAY=16), workers=4),
    J('string.cpp', 's02_self', '', D(HAY=3), D(HAY=5), workers=4),
    J('string.cpp', 's02_huge', workers=8, opts=BIG),
]}
PROPS['S03'] = {'jobs': [
    J('string.cpp', 's03_compare', '', D(HAY=4), D(HAY=8), workers=4),
    J('string.cpp', 's03_literal', '', D(HAY=4), D(HAY=8), workers=4),
    J('string.cpp', 's03_trans', workers=4),
    J('string.cpp', 's03_long', '', D(GROW=20), D(GROW=60), workers=4),
    J('string.cpp', 's03_len', '', D(GROW=280), D(GROW=800), workers=8),
    J('string.cpp', 's03_wide'),
    J('string.cpp', 's03_huge', workers=8, opts=BIG),
]}
PROPS['S04'] = {'jobs': [
    J('string.cpp', 's04_hist', '', D(K=2, N0=2), D(K=3, N0=2), workers=8),
    J('string.cpp', 's04_alias', '', D(K=2, N0=2), D(K=3, N0=2), workers=8),
    J('string.cpp', 's04_alias', '', D(K=1, N0=2, SYM=1), D(K=2, N0=2, SYM=1), workers=8),
    J('string.cpp', 's04_grow', '', D(GROW=12), D(GROW=24), workers=8),
    J('string.cpp', 's04_wide', '', D(N0=2), D(N0=3), workers=4),
    J('string.cpp', 's04_ctor', '', D(GROW=20), D(GROW=60)),
    J('string.cpp', 's01_huge', workers=8, opts=BIG),
]}
PROPS['L01'] = {'jobs': [
    J('list.cpp', 'l01_hist', '', D(K=2, N0=3, SYM=1), D(K=3, N0=2, SYM=1), workers=8),
    J('list.cpp', 'l01_hist', '', D(K=3, N0=2), D(K=4, N0=2), workers=8),
    J('list.cpp', 'l01_long', '', D(K=6, SYM=1), D(K=8), workers=8),
    J('list.cpp', 'l01_grow', '', D(GROW=8, SYM=1), D(GROW=14, SYM=1), workers=8),
    J('list.cpp', 'l01_walk', '', D(K=4), D(K=5), workers=8),
    J('list.cpp', 'l01_big', '', D(GROW=12, SYM=1), D(GROW=30, SYM=1), workers=4),
    J('list.cpp', 'l01_huge', workers=8, opts=BIG),
]}
PROPS['L02'] = {'jobs': [
    J('list.cpp', 'l02_hist', '', D(K=2, N0=3, SYM=1), D(K=3, N0=2, SYM=1), workers=8),
    J('list.cpp', 'l02_hist', '', D(K=3, N0=2), D(K=4, N0=2), workers=8),
    J('list.cpp', 'l02_long', '', D(K=6, SYM=1), D(K=9), workers=8),
    J('list.cpp', 'l02_walk', '', D(K=5), D(K=6), workers=8),
    J('list.cpp', 'l02_grow', '', D(GROW=8, SYM=1), D(GROW=16, SYM=1), workers=8),
    J('list.cpp', 'l02_huge', workers=8, opts=BIG),
]}
PROPS['L03'] = {'jobs': [
    J('list.cpp', 'l03_list', '', D(K=2, N0=2, SYM=1), D(K=3, N0=3), workers=8),
    J('list.cpp', 'l03_flist', '', D(K=2, N0=2, SYM=1), D(K=3, N0=3), workers=8),
    J('list.cpp', 'l03_grow', '', D(GROW=6, SYM=1), D(GROW=12, SYM=1), workers=8),
    J('list.cpp', 'l03_fgrow', '', D(GROW=7, SYM=1), D(GROW=14, SYM=1), workers=8),
    J('list.cpp', 'l03_huge', workers=8, opts=BIG),
    J('list.cpp', 'l01_huge', workers=8, opts=BIG),
    J('list.cpp', 'l02_huge', workers=8, opts=BIG),
]}

DQ = dict(workers=8, opts=['--max-steps', 60000000])
PROPS['D01'] = {'jobs': [
    J('deque.cpp', 'd01_small', '', D(K=4), D(K=5), **DQ),
    J('deque.cpp', 'd01_small', '', D(K=2, SYM=1), D(K=3, SYM=1), **DQ),
    J('deque.cpp', 'd01_edge', '', D(K=2, W=2), D(K=3, W=4), **DQ),
    J('deque.cpp', 'd01_edge', '', D(K=1, W=4, SYM=1), D(K=2, W=2, SYM=1), **DQ),
    J('deque.cpp', 'd01_bulk', '', D(K=2), D(K=3), **DQ),
    J('deque.cpp', 'd01_init', **DQ),
    J('deque.cpp', 'd01_huge', workers=8, opts=BIG),
]}
PROPS['D02'] = {'jobs': [
    J('deque.cpp', 'd02_iter', '', D(W=5), D(W=10), **DQ),
    J('deque.cpp', 'd02_walk', '', D(K=4), D(K=5), **DQ),
    J('deque.cpp', 'd02_ops', '', D(K=2), D(K=3), **DQ),
    J('deque.cpp', 'd02_algo', '', D(W=3), D(W=8), **DQ),
    J('deque.cpp', 'd02_small', '', D(W=6), D(W=10), **DQ),
    J('deque.cpp', 'd02_huge', workers=8, opts=BIG),
]}
PROPS['D03'] = {'jobs': [
    J('deque.cpp', 'd03_small', '', D(K=4), D(K=5), **DQ),
    J('deque.cpp', 'd03_small', '', D(K=2, SYM=1), D(K=3, SYM=1), **DQ),
    J('deque.cpp', 'd03_edge', '', D(K=2, W=1), D(K=3, W=2), **DQ),
    J('deque.cpp', 'd03_edge', '', D(K=1, W=2, SYM=1), D(K=2, W=1, SYM=1), **DQ),
    J('deque.cpp', 'd03_bulk', '', D(K=2), D(K=3), **DQ),
    J('deque.cpp', 'd03_huge', workers=8, opts=BIG),
    J('deque.cpp', 'd01_huge', workers=8, opts=BIG),
]}
PROPS['Q01'] = {'jobs': [
    J('queue.cpp', 'q01_hist', '', D(K=5), D(K=7), workers=8),
    J('queue.cpp', 'q01_hist', '', D(K=3, SYM=1), D(K=4, SYM=1), workers=8),
    J('queue.cpp', 'q01_list', '', D(K=3, SYM=1), D(K=4, SYM=1), workers=8),
    J('queue.cpp', 'q01_list', '', D(K=5), D(K=7), workers=8),
    J('queue.cpp', 'q01_edge', '', D(W=6), D(W=40), workers=8, opts=['--max-steps', 60000000]),
    J('queue.cpp', 'q01_copy', '', D(K=3), D(K=4), workers=8),
    J('queue.cpp', 'q01_huge', workers=8, opts=BIG),
]}
PROPS['T01'] = {'jobs': [
    J('tree.cpp', 't01_order', '', D(K=4), D(K=5), workers=8),
    J('tree.cpp', 't01_end', '', D(K=5), D(K=6), workers=8),
    J('tree.cpp', 't01_comp', '', D(K=3), D(K=4), workers=8),
    J('tree.cpp', 't01_big', '', D(N0=20), D(N0=64), workers=8),
    J('tree.cpp', 't01_walk', '', D(K=4, N0=3), D(K=5, N0=4), workers=8),
    J('tree.cpp', 't01_hint', '', D(N0=3, K=1), D(N0=3, K=2), workers=8),
    J('tree.cpp', 't01_hetero', workers=4),
    J('tree.cpp', 't01_reuse', '', D(), D(EXTRA=1), workers=8),
    J('tree.cpp', 't01_init'),
    J('tree.cpp', 't01_huge', workers=8, opts=BIG),
]}
PROPS['M01'] = {'jobs': [
    J('tree.cpp', 'm01_order', '', D(K=4), D(K=5), workers=8),
    J('tree.cpp', 'm01_end', '', D(K=5), D(K=6), workers=8),
    J('tree.cpp', 'm01_comp', '', D(K=3), D(K=4), workers=8),
    J('tree.cpp', 'm01_big', '', D(N0=20), D(N0=64), workers=8),
    J('tree.cpp', 'm01_walk', '', D(K=4, N0=3), D(K=5, N0=4), workers=8),
    J('tree.cpp', 'm01_hetero', workers=4),
    J('tree.cpp', 'm01_modify', workers=4),
    J('tree.cpp', 'm01_reuse', '', D(), D(EXTRA=1), workers=8),
    J('tree.cpp', 'm01_init'),
    J('tree.cpp', 'm01_huge', workers=8, opts=BIG),
]}
PROPS['T02'] = {'jobs': [
    J('tree.cpp', 't02_set', '', D(K=6), D(K=7), workers=8),
    J('tree.cpp', 't02_map', '', D(K=6), D(K=7), workers=8),
    J('tree.cpp', 't02_set_pre', '', D(K=2, N0=10), D(K=3, N0=12), workers=8),
    J('tree.cpp', 't02_map_pre', '', D(K=2, N0=10), D(K=3, N0=12), workers=8),
    J('tree.cpp', 't02_set_big', '', D(N0=40), D(N0=200), workers=8),
    J('tree.cpp', 't02_map_big', '', D(N0=40), D(N0=200), workers=8),
    J('tree.cpp', 't02_set_adv', '', D(N0=40), D(N0=90), workers=8),
    J('tree.cpp', 't02_map_adv', '', D(N0=40), D(N0=90), workers=8),
    J('tree.cpp', 't02_huge', workers=8, opts=BIG),
]}
PROPS['T03'] = {'jobs': [
    J('tree.cpp', 't03_set', '', D(K=3), D(K=4), workers=8),
    J('tree.cpp', 't03_map', '', D(K=3), D(K=4), workers=8),
    J('tree.cpp', 't03_order', '', D(N0=4), D(N0=5), workers=8),
    J('tree.cpp', 't03_big', '', D(N0=20), D(N0=64), workers=8),
    J('tree.cpp', 't03_self', workers=2),
    J('tree.cpp', 't03_huge', workers=8, opts=BIG),
    J('tree.cpp', 't01_huge', workers=8, opts=BIG),
    J('tree.cpp', 'm01_huge', workers=8, opts=BIG),
]}
PROPS['U01'] = {'jobs': [
    J('mem.cpp', 'u01_hist', '', D(K=3), D(K=4), workers=8),
    J('mem.cpp', 'u01_hist', '', D(K=2, SYM=1), D(K=2, SYM=1), workers=8),
    J('mem.cpp', 'u01_derived'),
    J('mem.cpp', 'u01_chain'),
]}
PROPS['U02'] = {'jobs': [
    J('mem.cpp', 'u02_hist', '', D(K=3), D(K=4), workers=8),
    J('mem.cpp', 'u02_hist', '', D(K=2, SYM=1), D(K=3, SYM=1), workers=8),
    J('mem.cpp', 'u02_derived'),
    J('mem.cpp', 'u02_array'),
    J('mem.cpp', 'u02_chain'),
    J('mem.cpp', 'u02_huge', workers=8, opts=BIG),
]}
PROPS['F01'] = {'jobs': [
    J('mem.cpp', 'f01_hist', '', D(K=3), D(K=4), workers=8),
    J('mem.cpp', 'f01_hist', '', D(K=1, SYM=1), D(K=2, SYM=1), workers=8),
    J('mem.cpp', 'f01_source'),
    J('mem.cpp', 'f01_args'),
    J('mem.cpp', 'f01_void', '', D(K=3), D(K=4), workers=8),
    J('mem.cpp', 'f01_vargs'),
]}

PROPS['I01'] = {'jobs': [
    J('io.cpp', 'i01_istr', '', D(K=4, N0=3), D(K=5, N0=3), workers=8),
    J('io.cpp', 'i01_istr', '', D(K=3, N0=2, SYM=1), D(K=4, N0=3, SYM=1), workers=8),
    J('io.cpp', 'i01_str', '', D(K=4, N0=3), D(K=5, N0=3), workers=8),
    J('io.cpp', 'i01_wide', '', D(K=3, N0=3), D(K=4, N0=3), workers=8),
    J('io.cpp', 'i01_empty', '', D(K=4, N0=2), D(K=5, N0=2), workers=4),
    J('io.cpp', 'i01_mode', '', D(K=2, N0=2, SYM=1), D(K=3, N0=2, SYM=1), workers=8),
    J('io.cpp', 'i01_long', '', D(GROW=20), D(GROW=40), workers=8),
    J('io.cpp', 'i01_two', '', D(K=4, N0=2), D(K=6, N0=2), workers=8),
    J('io.cpp', 'i01_huge', workers=8, opts=BIG),
]}
PROPS['I02'] = {'jobs': [
    J('io.cpp', 'i02_hist', '', D(K=4), D(K=5), workers=8),
    J('io.cpp', 'i02_hist', '', D(K=2, SYM=1), D(K=3, SYM=1), workers=8),
    J('io.cpp', 'i02_str', '', D(K=3), D(K=4), workers=8),
    J('io.cpp', 'i02_any', '', D(K=1, N0=3, SYM=1), D(K=2, N0=3, SYM=1), workers=8),
    J('io.cpp', 'i02_nobuf', '', D(K=3), D(K=4), workers=8),
    J('io.cpp', 'i02_restr', '', D(K=6), D(K=8), workers=8),
]}
PROPS['I03'] = {'jobs': [
    J('io.cpp', 'i03_hist', '', D(K=4, N0=5, GROW=8), D(K=5, N0=8, GROW=16), workers=8),
    J('io.cpp', 'i03_hist', '', D(K=2, N0=4, GROW=4, SYM=1), D(K=3, N0=5, GROW=6, SYM=1), workers=8),
    J('io.cpp', 'i03_two', '', D(K=3), D(K=4), workers=8),
    J('io.cpp', 'i03_state', '', D(K=4), D(K=5), workers=8),
    J('io.cpp', 'i03_chunks', '', D(GROW=20), D(GROW=60), workers=4),
    J('io.cpp', 'i03_huge', workers=8, opts=BIG),
]}
PROPS['I04'] = {'jobs': [
    J('io.cpp', 'i04_hist', '', D(K=3), D(K=4), workers=8),
    J('io.cpp', 'i04_hist', '', D(K=1, SYM=1), D(K=2, SYM=1), workers=8),
    J('io.cpp', 'i04_chain', '', D(SYM=1), D(SYM=1), workers=4),
    J('io.cpp', 'i04_printf', workers=8),
    J('io.cpp', 'i04_fprintf', workers=8),
    J('io.cpp', 'i04_long', '', D(GROW=12), D(GROW=40), workers=4),
]}

PROPS['I05'] = {'jobs': [
    J('sbuf.cpp', 'i05_raw', '', D(K=3, N0=4), D(K=4, N0=5), workers=8),
    J('sbuf.cpp', 'i05_raw', '', D(K=2, N0=3, SYM=1), D(K=3, N0=3, SYM=1), workers=8),
    J('sbuf.cpp', 'i05_wide', '', D(K=3, N0=3), D(K=4, N0=4), workers=8),
    J('sbuf.cpp', 'i05_stream', '', D(K=4, N0=4), D(K=5, N0=5), workers=8),
    J('sbuf.cpp', 'i05_throw', '', D(K=3, N0=3), D(K=4, N0=3), workers=8),
    J('sbuf.cpp', 'i05_wstream', '', D(K=2, N0=3), D(K=3, N0=3), workers=8),
    J('sbuf.cpp', 'i05_flush', '', D(K=3), D(K=4), workers=8),
]}

PROPS['C01'] = {'jobs': [
    J('misc.cpp', 'c01_alnum'), J('misc.cpp', 'c01_upper'), J('misc.cpp', 'c01_chars', workers=4),
]}
PROPS['W01'] = {'jobs': [
    J('misc.cpp', 'w01_int', '', D(SYM=1), D(SYM=1)), J('misc.cpp', 'w01_tracked'), J('misc.cpp', 'w01_string', workers=4),
    J('misc.cpp', 'w01_many', workers=8),
    J('misc.cpp', 'w01_repeat', '', D(), D(SYM=1), workers=8), J('misc.cpp', 'w01_repeat_tracked', workers=8),
]}
PROPS['X01'] = {'jobs': [
    J('misc.cpp', 'x01_ring', '', D(SYM=1), D(SYM=1), workers=4),
    J('misc.cpp', 'x01_pow', '', D(K=6), D(K=12), workers=8),
    J('misc.cpp', 'x01_exps', workers=8),
    J('misc.cpp', 'x01_unit', '', D(K=8), D(K=14), workers=4),
    J('misc.cpp', 'x01_field3', workers=4), J('misc.cpp', 'x01_field7', workers=8),
    J('misc.cpp', 'x01_negpow', '', D(K=3), D(K=5), workers=4),
    J('misc.cpp', 'x01_double', workers=8),
]}

def B(xl, xh, yl, yh): return dict(XL=repr(float(xl)), XH=repr(float(xh)), YL=repr(float(yl)), YH=repr(float(yh)))
PROPS['X02'] = {'jobs': [
    J('cplx.cpp', 'x02_polar', '', B(0, 4, -4, 4), B(0, 100, -20, 20), workers=8),
    *[J('cplx.cpp', e, '', B(-3, 3, -3, 3), B(-8, 8, -8, 8), workers=8) for e in 'x02_exp x02_sin x02_cos x02_sinh x02_cosh'.split()],
    *[J('cplx.cpp', e, '', B(0.5, 2, 0.5, 2), B(0.001, 100, 0.001, 100), workers=8) for e in 'x02_abs x02_arg x02_sqrt x02_sqrt_axes'.split()],
    *[J('cplx.cpp', e, '', B(1.1, 6, 0, 0), B(1.1, 6, 0, 0), workers=8) for e in 'x02_log x02_log10 x02_pow_cr x02_pow_cc'.split()],
    *[J('cplx.cpp', e, '', B(-1.2, 1.2, -1.2, 1.2), B(-1.2, 1.2, -1.2, 1.2), workers=8) for e in 'x02_tan x02_tanh x02_pow_zero'.split()],
    J('cplx.cpp', 'x02_pow_rc', '', B(0.5, 4, 0, 0), B(0.1, 20, 0, 0), workers=8),
]}

AQ, AT = D(N0=4, W=2), D(N0=5, W=3)
PROPS['A01'] = {'jobs': [
    *[J('algo.cpp', 'a01_read_' + c, '', AQ, AT, workers=4) for c in ('vector', 'list', 'flist', 'reverse', 'set', 'map', 'deque', 'string')],
    J('algo.cpp', 'a01_read_vector', '', D(N0=2, SYM=1), D(N0=3, SYM=1), workers=4),
    J('algo.cpp', 'a01_deque_edge', '', AQ, AT, workers=8, opts=['--max-steps', 60000000]),
    J('algo.cpp', 'a01_vector_inplace', '', AQ, AT, workers=8),
    J('algo.cpp', 'a01_list_inplace', '', AQ, AT, workers=4),
    J('algo.cpp', 'a01_binary', '', AQ, AT, workers=8),
    J('algo.cpp', 'a01_includes', '', AQ, AT, workers=8),
    J('algo.cpp', 'a01_array', '', AQ, AT, workers=2),
]}

GQ, GT = D(K=3, N0=2, W=1), D(K=4, N0=2, W=3)
PROPS['G01'] = {'jobs': [
    *[J('alloc.cpp', 'g01_' + c, '', GQ, GT, workers=8) for c in ('vector', 'vector_obj', 'list', 'list_obj', 'flist', 'set', 'map', 'string')],
    *[J('alloc.cpp', 'g01_' + c, '', D(K=3, N0=1, SYM=1), D(K=3, N0=2, SYM=1), workers=8) for c in ('vector', 'vector_obj', 'list', 'list_obj', 'flist', 'set', 'map', 'string')],
    J('alloc.cpp', 'g01_deque', '', D(K=2, N0=1, SYM=1), D(K=3, N0=1, SYM=1), workers=8, opts=['--max-steps', 60000000]),
    J('alloc.cpp', 'g01_given', '', GQ, GT, workers=8, opts=['--max-steps', 60000000]),
    J('alloc.cpp', 'g01_grow', '', GQ, GT, workers=8),
    J('alloc.cpp', 'g01_chunks', '', GQ, GT, workers=8, opts=['--max-steps', 60000000]),
]}

# the same harnesses and models, with the library compiled as at run time (ICE=0) and as in constant evaluation (ICE=1): both must equal the one model
K1 = [('vector.cpp', ['v01_hist', 'v01_grow', 'v02_hist', 'v03_at'], D(K=2, N0=2, GROW=6), D(K=3, N0=2, GROW=12)),
      ('string.cpp', ['s01_hist', 's02_find', 's02_char', 's03_compare', 's03_literal', 's04_hist', 's04_alias', 's04_ctor', 's01_grow'], D(K=2, N0=1, HAY=3, NEEDLE=2, GROW=6), D(K=3, N0=1, HAY=4, NEEDLE=3, GROW=16)),
      ('list.cpp', ['l01_hist', 'l02_hist', 'l03_list', 'l03_flist', 'l01_walk', 'l02_walk'], D(K=2, N0=2), D(K=3, N0=2)),
      ('deque.cpp', ['d01_small', 'd01_edge', 'd02_iter', 'd02_walk', 'd03_small'], D(K=2, W=1), D(K=3, W=3)),
      ('queue.cpp', ['q01_hist', 'q01_list', 'q01_copy'], D(K=3), D(K=5)),
      ('tree.cpp', ['t01_order', 'm01_order', 't01_walk', 'm01_walk', 'm01_modify', 't03_set', 't03_map'], D(K=3, N0=2), D(K=4, N0=3)),
      ('mem.cpp', ['u01_hist', 'u01_derived', 'u02_hist', 'u02_derived', 'u02_array', 'f01_hist', 'f01_source', 'f01_args', 'f01_void', 'f01_vargs'], D(K=2), D(K=3)),
      ('io.cpp', ['i01_istr', 'i01_str', 'i02_hist', 'i02_nobuf', 'i03_hist', 'i04_hist', 'i04_chain', 'i04_printf', 'i04_fprintf', 'i04_long'], D(K=2, N0=2, GROW=6), D(K=3, N0=3, GROW=12)),
      ('misc.cpp', ['c01_alnum', 'c01_upper', 'w01_int', 'w01_string', 'x01_ring', 'x01_pow', 'x01_field3'], D(K=4), D(K=6)),
      ('num.cpp', ['n01_abs', 'n01_floor', 'n01_ceil', 'n02_pow_int', 'n02_log_exp', 'n03_axes', 'n03_sinh', 'n04_exp', 'n04_atan', 'n04_sin'], D(EMAX=5, LO='-2.0', HI='2.0'), D(EMAX=8, LO='-8.0', HI='8.0')),
      ('num.cpp', ['n02_sqrt'], D(LO='0.01', HI='4.0'), D(LO='0.0001', HI='1e4')),
      ('algo.cpp', ['a01_read_vector', 'a01_read_deque', 'a01_read_list', 'a01_vector_inplace', 'a01_binary'], D(N0=2, W=1), D(N0=3, W=2)),
      ('alloc.cpp', ['g01_vector', 'g01_deque', 'g01_list', 'g01_flist', 'g01_set', 'g01_map', 'g01_string', 'g01_given'], D(K=2, N0=1), D(K=3, N0=1))]
PROPS['K01'] = {'jobs': [J(f, e, '', dict(q, ICE=i), dict(t, ICE=i), workers=2, opts=['--max-steps', 60000000]) for f, es, q, t in K1 for e in es for i in (0, 1)],
                'assumptions': ['"during constant evaluation" is the library compiled with __builtin_is_constant_evaluated() replaced by true, which decides std::is_constant_evaluated() in the library and in the standard headers it uses; if consteval (not in C++20) is not redirected']}

def R(lo, hi): return dict(LO=repr(float(lo)), HI=repr(float(hi)))
_NUM = 'the mathematical functions on the oracle side are the platform libm with each interval end widened by 16 units in the last place'
PROPS['N01'] = {'jobs': [J('num.cpp', 'n01_abs'), J('num.cpp', 'n01_floor', workers=2), J('num.cpp', 'n01_ceil', workers=2)]}
PROPS['X02']['assumptions'] = [_NUM, 'abs, log, log10, sqrt and pow with a complex base are decided on 16 rays through the origin (both axes, both diagonals, slopes a half and two in every quadrant) for every magnitude in the range; exponents are taken from a list of six real and four imaginary parts']
PROPS['N02'] = {'jobs': [
    J('num.cpp', 'n02_pow_int', '', D(EMAX=8), D(EMAX=10)), J('num.cpp', 'n02_pow_any'), J('num.cpp', 'n02_pow_two', '', D(W=100), D(W=1020)),
    J('num.cpp', 'n02_pow', '', D(EMAX=7, **R(0.1, 10)), D(EMAX=16, **R(0.01, 100)), workers=4),
    J('num.cpp', 'n02_sqrt', '', R(1e-12, 1e12), R(1e-100, 1e100), workers=8), J('num.cpp', 'n02_sqrt_special'), J('num.cpp', 'n02_log_special'),
    J('num.cpp', 'n02_exp', '', R(-30, 30), R(-300, 300), workers=8), J('num.cpp', 'n02_exp0'),
    J('num.cpp', 'n02_log_exp', '', R(-20, 20), R(-100, 100), workers=8), J('num.cpp', 'n02_log_inv', '', R(1e-4, 1e4), R(1e-20, 1e20), workers=8),
]}
PROPS['N03'] = {'jobs': [
    J('num.cpp', 'n03_atan', workers=2), J('num.cpp', 'n03_atan2', workers=8), J('num.cpp', 'n03_axes'), J('num.cpp', 'n03_zero'),
    J('num.cpp', 'n03_sinh', '', R(-10, 10), R(-100, 100), workers=2), J('num.cpp', 'n03_cosh', '', R(-8, 8), R(-20, 20), workers=4),
    J('num.cpp', 'n03_sin', '', R(-15, 15), R(-100, 100), workers=2), J('num.cpp', 'n03_cos', '', R(-15, 15), R(-100, 100), workers=2),
], 'assumptions': [_NUM]}
PROPS['N04'] = {'jobs': [
    J('num.cpp', 'n04_exp', '', R(-60, 60), R(-600, 600), workers=8), J('num.cpp', 'n04_log', '', R(1e-12, 1e12), R(1e-100, 1e100), workers=8),
    J('num.cpp', 'n04_sin', '', R(-30, 30), R(-300, 300), workers=2), J('num.cpp', 'n04_cos', '', R(-30, 30), R(-300, 300), workers=2),
    J('num.cpp', 'n04_sinh', '', R(-30, 30), R(-300, 300), workers=4), J('num.cpp', 'n04_cosh', '', R(-10, 10), R(-30, 30), workers=8),
    J('num.cpp', 'n04_atan', '', R(-1e300, 1e300), R(-1.7e308, 1.7e308), workers=4),
], 'assumptions': [_NUM]}

NOT_APPLICABLE = {
    'K02': 'whether an expression is accepted as a constant expression is decided by the compiler\'s own constant evaluator, for which no symbolic encoding is available; the IR that solver-based checking sees is the same whether or not the evaluator accepts it (the value half of the claim is K01)',
}
