"""Which symbolic jobs decide which property, and within which bounds."""
def J(harness, entry, *params, P=None, defs=(), tier='a', to=400, need=('done',), opts=(), samples=4, w=0):
    d = list(defs); o = list(opts)
    if P: d = ['ZP=' + P] + d
    if P == 'Flex' or any('Flex' in x for x in d): o += ['--conc-ptr', '1']
    return dict(harness=harness, entry=entry, params=list(params), defs=d, tier=tier, timeout=to if tier != 't' else max(to, 3000), need=list(need), opts=o, samples=samples, weight=w)
PROPS = {}
def prop(id, bounds, jobs, assumptions=()):
    PROPS[id] = dict(bounds=bounds, jobs=jobs, assumptions=list(assumptions), level='model_checking')
BIG = ['--max-inst', '2000000000']
# ---------------------------------------------------------------- round trips
def rt(P):
    fl = P == 'Flex'
    j = [J('rt', 'rt_scalar', P=P), J('rt', 'rt_types', P=P),
         J('rt', 'rt_str', 0, 40, P=P), J('rt', 'rt_str', 253, 258, P=P), J('rt', 'rt_str', 65534, 65537, P=P, opts=BIG),
         J('rt', 'rt_arr', 0, 20, P=P), J('rt', 'rt_arr', 254, 257, P=P, opts=BIG, w=30 if fl else 5), J('rt', 'rt_map', 0, 18, P=P), J('rt', 'rt_map', 254, 257, P=P, opts=BIG),
         J('rt', 'rt_key', 0, 40, P=P), J('rt', 'rt_key', 254, 257, P=P, opts=BIG), J('rt', 'rt_key', 65533, 65537, P=P, opts=BIG),
         J('rt', 'rt_tree', 4, 2, 2, 2, P=P, w=10), J('rt', 'rt_tree', 3, 2, 2, 0 if fl else 1, P=P, w=50),
         J('rt', 'rt_deep', 0, 40, P=P), J('rt', 'rt_mix', 20, 18, P=P),
         J('rt', 'rt_big', 65535, 0, P=P, opts=BIG, w=20), J('rt', 'rt_big', 65536, 0, P=P, opts=BIG, w=20)]
    j += [J('rt', 'rt_big', n, 1, P=P, opts=BIG, w=20, tier='a') for n in (65535, 65536)]
    j += [J('rt', 'rt_pair', 0, 16, P=P), J('rt', 'rt_rep', 0, P=P), J('rt', 'rt_rep', 12, P=P), J('rt', 'rt_str', 4095, 4097, P=P, opts=BIG), J('rt', 'rt_str', 1048575, 1048577, P=P, opts=BIG, w=12),
          J('rt', 'rt_deep', 63, 66, P=P, opts=BIG), J('rt', 'rt_deep', 127, 130, P=P, opts=BIG, w=9), J('rt', 'rt_deep', 255, 258, P=P, opts=BIG, w=20),
          J('rt', 'rt_arr', 1023, 1026, P=P, opts=BIG, tier='a' if P == 'Zera' else 't'), J('rt', 'rt_map', 1023, 1026, P=P, opts=BIG, w=10, tier='a' if fl else 't'), J('rt', 'rt_deep', 511, 514, P=P, opts=BIG, tier='t' if P == 'MsgPack' else 'a'), J('rt', 'rt_deep', 1024, 1025, P=P, opts=BIG, tier='t' if P == 'MsgPack' else 'a')]
    j += [J('rt', 'rt_tree', 5, 3, 3, 2, P=P, tier='t'), J('rt', 'rt_tree', 3, 2, 2, 3, P=P, tier='t'), J('rt', 'rt_tree', 4, 3, 3, 1, P=P, tier='t'), J('rt', 'rt_str', 41, 252, P=P, tier='t'), J('rt', 'rt_deep', 41, 130, P=P, tier='t', opts=BIG), J('rt', 'rt_mix', 40, 36, P=P, tier='t')]
    return j
RTB = 'documents: every tree of <=4 nodes (thorough 5), depth <=2 (3), <=2 (3) children per container with arbitrary leaf contents (64-bit integers, any double bits, strings/blobs of 0..40, 253..258 and 65534..65537 bytes), 4095..4097 and 1048575..1048577 bytes included; two strings of which one begins with or repeats the other (lengths 0..64); arrays/maps of 0..20, 254..257, (thorough) 1023..1026 and 65535/65536 entries with one arbitrary entry, keys of 0..40, 254..257, 65533..65537 bytes, nesting depth 0..40, 63..66, 127..130, 255..258 and (ZERA, FlexBuffers; thorough for MessagePack) 511..514, 1024..1025; every arithmetic type through the typed entry point'
prop('C01', RTB, rt('Zera'))
prop('C02', RTB, rt('MsgPack'))
prop('C03', RTB + '; map keys distinct and without NUL bytes (FlexBuffers keys are C strings)', rt('Flex'), ['map keys contain no NUL byte and are distinct'])
# ---------------------------------------------------------------- readers on arbitrary bytes
def ops(f, lo=1, hi=16): return [f(k) for k in range(lo, hi + 1)]
z1 = ['--mux', '1']
prop('C04', 'every input of 0..48 bytes (thorough: 60) with all bytes arbitrary, and every input with a valid fixed header, a 36-byte envelope (thorough 52) and 12 arena bytes; every public reader operation on the root and on one child (thorough: two levels), arbitrary 64-bit index, arbitrary key of 0..2 bytes',
     [J('safe_zera', 'safe_short', 47, need=['rejected'], opts=z1)] +
     ops(lambda k: J('safe_zera', 'safe_any', 48, 1, 0, 0, 0, 0, 0, k, need=['accepted', 'rejected'], opts=z1, w=k)) +
     [J('safe_zera', 'safe_env', 36, 12, 1, 0, need=['accepted'], opts=z1, w=40)] +
     ops(lambda k: J('safe_zera', 'safe_any', 60, 1, 0, 0, 0, 0, 0, k, need=['accepted', 'rejected'], opts=z1, tier='t')) +
     ops(lambda k: J('safe_zera', 'safe_env', 52, 16, 2, 0, 0, 0, 0, k, need=['accepted'], opts=z1, tier='t')))
prop('C05', 'every input of 0..5 bytes (thorough 6) with all bytes arbitrary, plus inputs of 7..36 bytes starting with (or containing as first array or map element) any wide header; every sequence of 4 tokens (every kind; 5 of the main kinds) with arbitrary contents and counts; every public reader operation on the root and one child (thorough two levels), arbitrary 64-bit index, arbitrary key of 0..2 bytes',
     [J('safe_mp', 'safe_mp', n, 1, need=['predicates'] if n else ()) for n in range(0, 5)] +
     ops(lambda k: J('safe_mp', 'safe_mp', 5, 1, 0, 0, 0, 0, 0, k, need=())) + [J('safe_mp', 'safe_tok', 4, 0, 0, 2, 1, need=['predicates'], w=9), J('safe_mp', 'safe_tok', 5, 0, 0, 2, 0, need=['predicates'], w=9), J('safe_mp', 'safe_tok', 6, 0, 0, 1, 0, need=['predicates'], tier='t'), J('safe_mp', 'safe_tok', 5, 0, 0, 2, 1, need=['predicates'], tier='t')] +
     [J('safe_mp', 'safe_wide', *a, need=()) for a in ((9, 1, 0, 0), (18, 1, 0, 0), (36, 1, 0, 0), (8, 1, 1, 1), (7, 1, 0, 1), (9, 1, 2, 0), (8, 1, 1, 0))] +
     ops(lambda k: J('safe_mp', 'safe_mp', 6, 1, 0, 0, 0, 0, 0, k, need=(), tier='t')) + ops(lambda k: J('safe_mp', 'safe_mp', 5, 2, 0, 0, 0, 0, 0, k, need=(), tier='t')))
# ---------------------------------------------------------------- accessors
ALL = ('Zera', 'MsgPack', 'Flex')
prop('C06', 'every 64-bit signed and unsigned integer written at the root, in an array and in a map; every integer encoding of MsgPack and FlexBuffers with arbitrary payload; all eight integer accessors',
     [J('acc', 'int_written', P=p) for p in ALL] + [J('acc', 'int_wire', P=p) for p in ALL[1:]] + [J('acc', 'int_child', P=p) for p in ALL])
prop('C07', 'every value kind with arbitrary contents (64-bit scalars, strings/blobs of 0, 8, 16 bytes, containers of 0..2 entries) at the root, in an array and in a map; every predicate and accessor; homogeneous arrays of 1..4 elements of every kind',
     [J('acc', 'kinds', P=p) for p in ALL] + [J('acc', 'kinds_arr', P=p) for p in ALL])
prop('C29', 'every 64-bit double (NaN payloads, signed zeros and subnormals included) and every non-NaN 32-bit float, at the root, among other floats, strings, integers, in maps and in nested arrays, as an element of vectors of float and of dynamic values; every float32/float64 payload of MessagePack behind neighbours of every fixed width, and of FlexBuffers at both widths',
     [J('acc', 'flt_written', 0, P=p) for p in ALL] + [J('acc', 'flt_written', 1, P=p) for p in ALL[:2]] + [J('acc', 'flt_single', P=p) for p in ALL] + [J('acc', 'flt_wire', P=p) for p in ALL[1:]] + [J('acc', 'flt_written', 1, P='Flex', tier='t')])
prop('C09', 'maps of 0..3 entries (thorough 4) with arbitrary distinct keys of 0..3 bytes and an arbitrary probe of 0..3 bytes; maps with long keys (8..300 bytes, arbitrary) probed with keys of neighbouring lengths; maps of 4..20, 100 and 257 entries (every key found, an absent key not); nested maps',
     [J('acc', 'map_coherent', m, 3 if m < 3 else 2, 3, P=p, need=['miss']) for p in ALL for m in (0, 1, 2, 3)] + [J('acc', 'map_nested', P=p) for p in ALL] +
     [J('acc', 'map_long', L, P=p, need=['hit', 'miss']) for p in ALL for L in (8, 31, 64, 255, 300)] +
     [J('acc', 'map_many', *r, P=p, opts=BIG, need=['hit', 'miss']) for p in ALL for r in ((4, 20), (100, 100), (257, 257))] +
     [J('acc', 'map_coherent', 4, 2, 2, P=p, need=['miss'], tier='t') for p in ALL] + [J('acc', 'map_coherent', 3, 3, 4, P=p, need=['miss'], tier='t') for p in ALL])
prop('C10', 'arrays of 0..17 elements of integers, strings and nested arrays; every 64-bit index', [J('acc', 'arr_index', 17, P=p, need=['in', 'out']) for p in ALL] + [J('acc', 'arr_index', 40, P=p, need=['in', 'out'], tier='t') for p in ALL])
# ---------------------------------------------------------------- translation
def xl(a, b):
    D = ['ZA=' + a, 'ZB=' + b]; fl = 'Flex' in (a, b)
    X = lambda e, *p, **k: J('xlate', e, *p, defs=D, **k)
    return [X('x_scalar'), X('x_str', 0, 40), X('x_str', 254, 257), X('x_str', 65534, 65537, opts=BIG), X('x_tree', 4, 2, 2, 2, w=9), X('x_tree', 3, 2, 2, 0 if fl else 1, w=9),
            X('x_keys', 2, 2), X('x_keys', 3, 1), X('x_long', 0, 18), X('x_long', 254, 257, opts=BIG), X('x_deep', 0, 24), X('x_deep', 63, 66, opts=BIG), X('x_deep', 127, 130, opts=BIG), X('x_deep', 255, 258, opts=BIG), X('x_str', 4095, 4097, opts=BIG), X('x_sub'), X('x_back', 3, 2, 2, 2),
            X('x_tree', 5, 3, 3, 2, tier='t'), X('x_tree', 3, 2, 2, 3, tier='t'), X('x_keys', 3, 3, tier='t'), X('x_deep', 25, 100, tier='t', opts=BIG), X('x_back', 4, 2, 2, 2, tier='t'), X('x_long', 19, 60, tier='t', opts=BIG), X('x_long', 1023, 1026, tier='t', opts=BIG), X('x_str', 1048575, 1048577, tier='t', opts=BIG), X('x_deep', 511, 514, tier='t', opts=BIG)]
prop('C08', 'all nine ordered protocol pairs; every tree of <=4 nodes (thorough 5), depth <=2 (3), <=2 (3) children with arbitrary leaves (64-bit scalars, strings/blobs of 0..17, 0..40, 254..257, 4095..4097, 65534..65537 (1 MiB) bytes), maps of 2..3 entries with arbitrary distinct keys of 0..2 (3) bytes, containers of 0..18 and 254..257 entries, nesting 0..24 (100), 63..66, 127..130, 255..258 (511..514), translation of sub-values at three positions, and there-and-back; keys without NUL bytes when FlexBuffers is involved',
     [j for a in ALL for b in ALL for j in xl(a, b)])
# ---------------------------------------------------------------- builders
prop('C18', 'every arithmetic type with arbitrary value, strings/blobs of 0..14 (thorough 0..40) arbitrary bytes in every supported string/blob type, nested zvec/zmap, standard containers (vector, list, array, initializer_list, map, unordered_map, nested), user types found by ADL, dynamic trees of <=4 nodes (5), containers of 0..18, 254..257, 1023..1026 entries, strings of 254..257 and 65534..65537 bytes, dynamic nesting of 1..40, 63..66, 255..257; lvalue, const and temporary arguments; each stored builder serialized twice, copied and moved',
     [j for p in ALL for j in [J('build', 'b_arith', P=p), J('build', 'b_str', 0, 14, P=p), J('build', 'b_nest', P=p), J('build', 'b_stl', P=p), J('build', 'b_size', 0, 18, P=p), J('build', 'b_size', 254, 257, P=p, opts=BIG), J('build', 'b_dyn', 3, 2, 2, 0, P=p), J('build', 'b_dyn', 4, 2, 2, 2, P=p),
                               J('build', 'b_size', 1023, 1026, P=p, opts=BIG), J('build', 'b_str', 254, 257, P=p), J('build', 'b_str', 65534, 65537, P=p, opts=BIG), J('build', 'b_deep', 1, 40, P=p), J('build', 'b_deep', 63, 66, P=p), J('build', 'b_deep', 255, 257, P=p, opts=BIG),
                               J('build', 'b_str', 15, 40, P=p, tier='t'), J('build', 'b_dyn', 5, 3, 3, 2, P=p, tier='t')]])
prop('C19', 'histories of 4 operations (thorough 5) over 3 buffers (and 5 (6) over 2) of every storage kind with 0 or 3 arbitrary bytes; every 64-bit size with null pointers; every deleter kind (function pointers, small and large callables, the shipped ones) and sizes of 0..300 bytes; debug renderings of 0..40 bytes with rows of 1..18; leaks checked',
     [J('zbuf', 'zb_hist', 4, 3, w=20), J('zbuf', 'zb_hist', 5, 2, w=10), J('zbuf', 'zb_args'), J('zbuf', 'zb_kinds'), J('zbuf', 'zb_hex', 0, 40), J('zbuf', 'zb_vec', 3), J('zbuf', 'zb_vec', 4), J('zbuf', 'zb_hist', 5, 3, tier='t'), J('zbuf', 'zb_hist', 6, 2, tier='t')])
M256 = ['--mux', '256']
prop('C20', 'encoding: all byte strings of 0..14 bytes (thorough 24); decoding: all texts of 0..9 characters (thorough 12)',
     [J('b64', 'b64_enc', a, b, opts=M256) for a, b in ((0, 6), (7, 9), (10, 12), (13, 14))] + [J('b64', 'b64_dec', a, b, opts=M256, need=()) for a, b in ((0, 5), (6, 7), (8, 8), (9, 9))] +
     [J('b64', 'b64_long', a, b, opts=M256) for a, b in ((15, 36), (37, 58), (59, 80), (81, 100), (4095, 4097))] + [J('b64', 'b64_char', 80, opts=M256), J('b64', 'b64_char', 1000, opts=M256)] +
     [J('b64', 'b64_enc', a, a, opts=M256, tier='t') for a in range(15, 25)] + [J('b64', 'b64_dec', a, a, opts=M256, need=(), tier='t') for a in (10, 11, 12)])
# ---------------------------------------------------------------- wire formats
prop('C14', 'every tree of <=4 nodes (thorough 5), depth <=2 (3), with arbitrary leaves; strings and blobs of 0..40, 253..258 and 65534..65537 arbitrary bytes; containers of 0..20, 254..257, 1023..1026, 65535..65536 entries; nesting of 1..66 and 255..258; inline/arena forms of every string length 0..12 read back',
     [J('zera', 'zl_deep', 1, 66), J('zera', 'zl_deep', 255, 258, opts=BIG), J('zera', 'zl_size', 254, 257, opts=BIG), J('zera', 'zl_size', 1023, 1026, opts=BIG), J('zera', 'zl_size', 65535, 65536, opts=BIG, w=20)] +
     [J('zera', 'zl_tree', 3, 2, 2, 1), J('zera', 'zl_tree', 4, 2, 2, 2), J('zera', 'zl_str', 0, 40), J('zera', 'zl_str', 253, 258), J('zera', 'zl_str', 65534, 65537, opts=BIG), J('zera', 'zl_size', 0, 20), J('zera', 'zl_inline', need=['done', 'rejected']),
      J('zera', 'zl_tree', 5, 3, 3, 2, tier='t'), J('zera', 'zl_tree', 3, 2, 2, 3, tier='t'), J('zera', 'zl_str', 41, 252, tier='t')])
prop('C15', 'every buffer of 0..80 bytes (thorough 200) whose bytes are all arbitrary; root references inside envelopes of 17..36 bytes',
     [J('zera', 'zh_accept', 0, 47, need=['rejected'], opts=z1), J('zera', 'zh_accept', 48, 80, need=['accepted', 'rejected'], opts=z1), J('zera', 'zh_root', 17, need=['accepted'], opts=z1), J('zera', 'zh_root', 36, need=['accepted'], opts=z1),
      J('zera', 'zh_accept', 81, 200, need=['accepted', 'rejected'], opts=z1, tier='t')])
prop('C16', 'every sequence of <=6 writer calls (thorough 7) over all call kinds with arbitrary scalar arguments; keys of 65533..65537 bytes',
     [J('zera', 'zw_hist', 5, 0, need=['finished', 'raised'])] + [J('zera', 'zw_hist', 6, k, need=(), w=10) for k in range(1, 10)] + [J('zera', 'zw_key', 65533, 65537, need=['ok', 'raised'], opts=BIG)] +
     [J('zera', 'zw_hist', 7, k, need=(), tier='t') for k in range(1, 10)])
prop('C17', 'writing: every tree of <=4 nodes (thorough 5), depth <=2 (3), arbitrary leaves, strings/blobs of 0..40, 253..258, 65534..65537 bytes, containers of 0..20, 254..257 and 65535..65536 entries, nesting of 1..66, 127..130, 255..258; reading: every MessagePack format byte with arbitrary payload, trees of <=3 nodes with every choice of header width, containers of 0..18, 254..257, 1023..1026, 65535..65536 and strings of the same lengths in every legal width',
     [J('mpwire', 'mw_deep', 1, 66), J('mpwire', 'mw_deep', 127, 130, opts=BIG), J('mpwire', 'mw_deep', 255, 258, opts=BIG), J('mpwire', 'mw_size', 65535, 65536, opts=BIG, w=30), J('mpwire', 'mr_size', 1023, 1026, opts=BIG), J('mpwire', 'mr_size', 65535, 65536, opts=BIG, w=50)] +
     [J('mpwire', 'mw_count', need=['done', 'refused']), J('mpwire', 'mw_tree', 3, 2, 2, 1), J('mpwire', 'mw_tree', 4, 2, 2, 2), J('mpwire', 'mw_str', 0, 40), J('mpwire', 'mw_str', 253, 258), J('mpwire', 'mw_str', 65534, 65537, opts=BIG), J('mpwire', 'mw_size', 0, 20), J('mpwire', 'mw_size', 254, 257, opts=BIG),
      J('mpwire', 'mr_leaf'), J('mpwire', 'mr_tree', 2, 1, 1), J('mpwire', 'mr_tree', 3, 2, 1), J('mpwire', 'mr_tree', 3, 1, 2, w=20), J('mpwire', 'mr_size', 0, 18), J('mpwire', 'mr_size', 254, 257, opts=BIG, w=20), J('mpwire', 'mr_str', 0, 40), J('mpwire', 'mr_str', 253, 258), J('mpwire', 'mr_str', 65534, 65537, opts=BIG),
      J('mpwire', 'mw_tree', 5, 3, 3, 2, tier='t'), J('mpwire', 'mr_tree', 4, 2, 2, tier='t'), J('mpwire', 'mr_str', 41, 252, tier='t')])
# ---------------------------------------------------------------- lifetimes
prop('C21', 'histories of 4 operations over 2 readers and 3 over 3 (thorough 5 over 2, 4 over 3): open from every buffer kind, copy, move, copy/move-assign, destroy, read; views taken through temporaries; stored builders; two-entry documents with arbitrary contents, and documents of one byte and of 700 bytes',
     [j for p in ALL for j in [J('life', 'life_hist', 4, 2, P=p, w=9), J('life', 'life_hist', 3, 3, P=p), J('life', 'life_hist', 4, 2, 1, P=p, w=9), J('life', 'life_views', P=p), J('life', 'life_moved', P=p), J('life', 'life_build', P=p),
                               J('life', 'life_hist', 4, 3, P=p, tier='t'), J('life', 'life_hist', 5, 2, P=p, tier='t')]])
# ---------------------------------------------------------------- tensors
def tj(sec, entry, *p, P=None, **k): return J('tensor', entry, *p, P=P, defs=['SEC=%d' % sec], **k)
AR = dict(need=['accepted', 'rejected'])
prop('C11', 'rank 0..3 with every 64-bit signed/unsigned or non-integer dimension (third dimension, and for FlexBuffers the second, from 8 representatives), every 64-bit element-type code, payloads of 0..4 (8, thorough 16) arbitrary bytes, missing/extra/mistyped parts, array and map form, decoded as xarray of free, 1 or 2 dimensions and as Eigen matrices dynamic, 2x2 and dynamic x3; uint8, int16, float, double elements',
     [tj(5 + e, 't_hostile', 2, 4, 0, 0, 1, m, P=p, w=9, **AR) for p in ALL for e in (0, 1) for m in (0, 1) if not (p == 'Flex' and m == 1 and e == 1)] +
     [tj(5 + e, 't_hostile', 1, 8, 0, 1, t, m, P=p, need=['rejected']) for p in ALL for e, t, m in ((0, 2, 0), (1, 3, 1))] +
     [tj(5, 't_hostile', 3, 2, 0, 0, 0, 0, P='Zera', w=9, **AR), tj(6, 't_hostile', 2, 16, 0, 0, 3, 0, P='Zera', **AR)] +
     [tj(7, 't_shape', P=p, **AR) for p in ALL + ('CBOR',)] + [tj(7, 't_shape', P='JSON', opts=M256, **AR)] + [tj(5, 't_hostile', 2, 4, 0, 0, 1, 0, P='CBOR', w=9, **AR)] +
     [tj(5 + e, 't_hostile', 2, 8, 0, 0, 1, m, P=p, tier='t', **AR) for p in ALL for e in (0, 1) for m in (0, 1)] + [tj(5, 't_hostile', 3, 4, 0, 0, 0, 0, P=p, tier='t', **AR) for p in ALL])
prop('C12', 'xtensor containers (row/column-major, dynamic layout, fixed rank), adaptors and strided/offset/transposed views of rank 0..3 (thorough 4) with dimensions 0..2, Eigen matrices dynamic and fixed, row- and column-major and vectors with dimensions 0..3 (5); tensors and matrices with one dimension at every 7-, 8-, 15- and 16-bit boundary (elements fixed but for four arbitrary bytes) and, without elements, up to 2^32-1; every supported element type, arbitrary element bits; array and map form; at the root and inside a map',
     [j for p in ALL for j in (tj(1, 'xt_rt', 3, 2, P=p), tj(2, 'xt_views', P=p), tj(3, 'eig_rt', 3, P=p))] +
     [j for p in ALL for j in (tj(8, 'xt_big', P=p, opts=BIG), tj(9, 'eig_big', P=p, opts=BIG))] +
     [tj(1, 'xt_rt', 3, 2, P='CBOR'), tj(2, 'xt_views', P='CBOR'), tj(3, 'eig_rt', 3, P='CBOR'), tj(8, 'xt_big', P='CBOR', opts=BIG, w=5), tj(9, 'eig_big', P='CBOR', opts=BIG), tj(1, 'xt_rt', 2, 2, P='JSON', opts=M256, w=5), tj(2, 'xt_views', P='JSON', opts=M256, w=6), tj(3, 'eig_rt', 2, P='JSON', opts=M256, w=9)] +
     [j for p in ALL for j in (tj(1, 'xt_rt', 4, 2, P=p, tier='t'), tj(1, 'xt_rt', 2, 6, P=p, tier='t'), tj(3, 'eig_rt', 5, P=p, tier='t'))])
prop('C13', 'a tensor of 0..4 elements (1-, 2-, 4-, 8-byte and complex element types, arbitrary bits) after a string of 0..16 (thorough 40) bytes, in a buffer placed at every offset 0..15 from a 16-aligned address; xtensor and Eigen views, their copies and moves',
     [tj(4, 't_align', 16, 15, P=p, need=['done', 'offset']) for p in ALL] + [tj(4, 't_align', 40, 31, P=p, need=['done', 'offset'], tier='t') for p in ALL] + [tj(4, 't_align', 16, 15, P='CBOR', need=['done', 'offset']), tj(4, 't_align', 3, 1, P='JSON', opts=M256, need=['done', 'offset'], w=9)])
# ---------------------------------------------------------------- CBOR reader (jsoncons, which its writer needs, is not installed: stubs/ stands in for its headers)
prop('C22', 'every input of 0..4 bytes (thorough 5) with all bytes arbitrary; inputs of 12..14 bytes with a 2-, 4- or 8-byte header argument at the root, in an array, as a map key or value, in an indefinite container or as a string chunk; 100000 nested brackets; every sequence of 4 tokens of the main kinds (thorough: every kind, and 5) with arbitrary contents and counts; every public reader operation on the root and one child, arbitrary 64-bit index, arbitrary key of 0..2 bytes',
     [J('cbor', 'cb_any', n, 1, need=()) for n in range(0, 4)] + ops(lambda k: J('cbor', 'cb_any', 4, 1, 0, 0, 0, 0, 0, k, need=()), 1, 15) +
     ops(lambda k: J('cbor', 'cb_wide', 12, 1, 0, 0, 0, 0, 0, k, need=()), 1, 15) + [J('cbor', 'cb_wide', 12, 1, 1, need=()), J('cbor', 'cb_wide', 14, 1, 2, need=())] + [J('cbor', 'cb_wide', 12, 0, p, need=()) for p in (3, 4, 5, 6)] +
     [J('cbor', 'cb_deep', 100000, opts=BIG)] + [J('cbor', 'cb_tok', 4, 0, 0, 2, 0, need=(), w=9), J('cbor', 'cb_tok', 4, 0, 0, 2, 1, need=(), tier='t'), J('cbor', 'cb_tok', 5, 0, 0, 2, 0, need=(), tier='t')] +
     ops(lambda k: J('cbor', 'cb_any', 5, 1, 0, 0, 0, 0, 0, k, need=(), tier='t'), 1, 15) + ops(lambda k: J('cbor', 'cb_wide', 20, 1, 0, 0, 0, 0, 0, k, need=(), tier='t'), 1, 15))
prop('C23', 'documents of 1..2 nodes (thorough 3), depth 1 (2), with every kind, arbitrary 64-bit integers, half/single/double floats with arbitrary bits, every header width, definite, indefinite and chunked forms; every kind of value, simple value and tag stepped over inside arrays and maps; strings and containers of 0..24, 254..257 and 65535..65536 bytes or entries (thorough)',
     [J('cbor', 'cb_doc', 1, 0, 1), J('cbor', 'cb_doc', 2, 1, 0), J('cbor', 'cb_doc', 2, 1, 1), J('cbor', 'cb_skip', 1), J('cbor', 'cb_skip', 2), J('cbor', 'cb_size', 0, 24), J('cbor', 'cb_size', 254, 257, opts=BIG)] +
     [J('cbor', 'cb_doc', 3, 2, 0, tier='t'), J('cbor', 'cb_doc', 3, 1, 1, tier='t'), J('cbor', 'cb_size', 65535, 65536, opts=BIG, tier='t')], ['map keys are text strings'])
# ---------------------------------------------------------------- CBOR writer over the stand-in encoder (stubs/jsoncons_ext)
def cb(h, e, *p, **k): return J(h, e, *p, P='CBOR', **k)
def cx(a, b): # translation pairs with CBOR
    D = ['ZA=' + a, 'ZB=' + b, 'WITH_CBOR=1']; X = lambda e, *p, **k: J('xlate', e, *p, defs=D, **k)
    return [X('x_scalar'), X('x_str', 0, 40), X('x_str', 254, 257), X('x_tree', 4, 2, 2, 2, w=9), X('x_keys', 2, 2), X('x_long', 0, 18), X('x_long', 254, 257, opts=BIG), X('x_deep', 0, 24), X('x_sub'), X('x_back', 3, 2, 2, 2),
            X('x_tree', 5, 3, 3, 2, tier='t'), X('x_keys', 3, 3, tier='t'), X('x_deep', 63, 66, opts=BIG, tier='t'), X('x_str', 65534, 65537, opts=BIG, tier='t')]
prop('C30', 'documents: every tree of <=4 nodes (thorough 5), depth <=2 (3), <=2 (3) children with arbitrary leaf contents, strings/blobs of 0..40, 253..258 and 65534..65537 bytes, containers of 0..20, 254..257 and 65535/65536 entries with one arbitrary entry, keys of 0..40 and 254..257 bytes, nesting of 0..40; every 64-bit integer through every accessor; every 64-bit double and non-NaN 32-bit float; every kind at the root, in an array and in a map; maps of 0..3 entries with arbitrary distinct keys and probe; every 64-bit index into arrays of 0..17 elements; builders as in C18 to 18 entries; histories of 4 reader operations over 2 readers; translation to and from ZERA, MessagePack, FlexBuffers and CBOR itself of trees of <=4 nodes (5), containers to 257 entries, nesting to 24 (66)',
     [cb('rt', 'rt_scalar'), cb('rt', 'rt_types'), cb('rt', 'rt_str', 0, 40), cb('rt', 'rt_str', 253, 258), cb('rt', 'rt_str', 65534, 65537, opts=BIG), cb('rt', 'rt_arr', 0, 20), cb('rt', 'rt_arr', 254, 257, opts=BIG, w=30), cb('rt', 'rt_map', 0, 18), cb('rt', 'rt_map', 254, 257, opts=BIG, w=30),
      cb('rt', 'rt_key', 0, 40), cb('rt', 'rt_key', 254, 257, opts=BIG), cb('rt', 'rt_tree', 4, 2, 2, 2, w=9), cb('rt', 'rt_tree', 3, 2, 2, 1, w=30), cb('rt', 'rt_deep', 0, 40, w=20), cb('rt', 'rt_mix', 20, 18), cb('rt', 'rt_pair', 0, 16), cb('rt', 'rt_rep', 0), cb('rt', 'rt_rep', 12), cb('rt', 'rt_big', 65535, 0, opts=BIG), cb('rt', 'rt_big', 65536, 0, opts=BIG), cb('rt', 'rt_big', 65536, 1, opts=BIG, w=15),
      cb('acc', 'int_written'), cb('acc', 'int_child'), cb('acc', 'kinds'), cb('acc', 'kinds_arr'), cb('acc', 'flt_written', 0), cb('acc', 'flt_written', 1), cb('acc', 'flt_single'), cb('acc', 'map_nested'), cb('acc', 'map_many', 4, 20, opts=BIG, need=['hit', 'miss']), cb('acc', 'arr_index', 17, need=['in', 'out'])] +
     [cb('acc', 'map_coherent', m, 3 if m < 3 else 2, 3, need=['miss']) for m in (0, 1, 2, 3)] + [cb('acc', 'map_long', L, need=['hit', 'miss']) for L in (8, 31, 64, 255, 300)] +
     [cb('build', 'b_arith'), cb('build', 'b_str', 0, 14), cb('build', 'b_nest'), cb('build', 'b_stl'), cb('build', 'b_size', 0, 18), cb('build', 'b_dyn', 3, 2, 2, 0), cb('build', 'b_dyn', 4, 2, 2, 2), cb('build', 'b_deep', 1, 40)] +
     [cb('life', 'life_hist', 4, 2, w=20), cb('life', 'life_hist', 3, 3), cb('life', 'life_views'), cb('life', 'life_moved'), cb('life', 'life_build')] +
     [j for a in ALL for j in cx(a, 'CBOR') + cx('CBOR', a)] + cx('CBOR', 'CBOR') +
     [cb('rt', 'rt_tree', 5, 3, 3, 2, tier='t'), cb('rt', 'rt_tree', 3, 2, 2, 3, tier='t'), cb('rt', 'rt_arr', 1023, 1026, opts=BIG, tier='t'), cb('rt', 'rt_deep', 63, 66, opts=BIG, tier='t'), cb('build', 'b_size', 254, 257, opts=BIG, tier='t'), cb('life', 'life_hist', 4, 3, tier='t'), cb('acc', 'map_many', 257, 257, opts=BIG, need=['hit', 'miss'], tier='t')],
     ['jsoncons encodes what its documentation says (jsoncons is not installed: stubs/jsoncons_ext/cbor/cbor.hpp is an RFC 8949 encoder with the interface cbor.hpp uses)', 'map keys are distinct; without NUL bytes when FlexBuffers is involved'])
# ---------------------------------------------------------------- JSON over the stand-in for yyjson (stubs/yyjson.h)
def js(e, *p, big=False, fx=False, **k): return J('json', e, *p, opts=M256 + (BIG if big else []) + (['--conc-ptr', '1'] if fx else []), **k)
prop('C24', 'documents: every tree of <=4 nodes (thorough 5), depth <=2 (3), <=2 (3) children with arbitrary leaves (64-bit integers, finite doubles, ASCII strings and arbitrary blobs of 0..40, 254..257, 65534..65537 bytes); every string and key of 1..6 arbitrary bytes (UTF-8 or not), every double; containers of 0..20, 254..257, 1023..1026 entries, nesting 0..30 and 63..66; maps of 2..3 entries with arbitrary ASCII keys of 0..2 bytes (NUL and empty included) and probe; every 64-bit integer through every accessor; arrays of 0..4 elements that resemble blobs; every index; translation to and from ZERA, MessagePack and FlexBuffers of trees of <=3 nodes; strings from temporaries, leaks when writing or reading raises; every sequence of 6 writer calls (thorough 7)',
     [js('js_scalar'), js('js_types'), js('js_str', 0, 8), js('js_str', 9, 40, w=20), js('js_str', 254, 257), js('js_str', 65534, 65537, big=True, w=9), js('js_tree', 3, 2, 2, 1), js('js_tree', 4, 2, 2, 2, w=9), js('js_many', 0, 20), js('js_many', 254, 257, big=True), js('js_many', 1023, 1026, big=True, w=9), js('js_deep', 0, 30), js('js_deep', 63, 66, big=True),
      js('js_keys', 2, 2), js('js_keys', 3, 2), js('js_int'), js('js_float'), js('js_kinds'), js('js_nan', need=['done', 'refused']), js('js_index', 17, need=['in', 'out']), js('js_temp'), js('js_life')] +
     [js('js_utf8', n, need=['done', 'refused']) for n in range(1, 7)] + [js('js_blobish', n, need=['blob', 'refused']) for n in (4, 8)] +
     [js('js_hist', 6, need=['finished', 'raised'])] +
     [js('js_xl', f, 0, fx=f == 2, w=9 if f == 2 else 0) for f in (0, 1, 2)] + [js('js_xl', f, 3, 2, 2, 2 if f == 2 else 3, fx=f == 2, w=5) for f in (0, 1, 2)] + [js('js_xl', 1, 4, 2, 2, 2, w=9)] +
     [js('js_tree', 5, 3, 3, 2, tier='t'), js('js_tree', 4, 2, 2, 1, tier='t'), js('js_deep', 127, 130, big=True, tier='t'), js('js_utf8', 8, need=['done', 'refused'], tier='t'), js('js_hist', 7, need=['finished', 'raised'], tier='t'), js('js_xl', 0, 4, 2, 2, 2, tier='t'), js('js_xl', 2, 4, 2, 2, 2, fx=True, tier='t')],
     ['what yyjson writes it reads back value for value (yyjson is not installed: stubs/yyjson.h implements the part of its documented API that json.hpp uses)'])
# ---------------------------------------------------------------- translating untrusted bytes
def xa(a, b, entry, *p, **k):
    D = ['ZA=' + a, 'ZB=' + b] + (['WITH_CBOR=1'] if a == 'CBOR' else [])
    return J('xlany', entry, *p, defs=D, need=(), opts=(z1 if a == 'Zera' else []) + k.pop('xo', []), **k)
prop('C25', 'sources: every ZERA input of 48 and 52 bytes (envelopes to 28 bytes, cyclic and overlapping references included; thorough: valid header with envelopes of 36 bytes and 12 arena bytes), every MessagePack input of 0..4 bytes and every 6-byte input with a wide header, every CBOR input of 0..3 (4) bytes and 6-byte inputs with a wide header; every sequence of 5 MessagePack tokens (to ZERA and FlexBuffers 4, and 5 of the main kinds), 4 CBOR tokens, 6 main MessagePack kinds to MessagePack with arbitrary contents and counts; nesting of 1020..1030 and 4000 levels; destinations ZERA, MessagePack, FlexBuffers',
     [xa('Zera', b, 'xa_any', 48 if b == 'Flex' else 52, w=50) for b in ALL] + [xa('MsgPack', b, 'xa_any', n) for b in ALL for n in (0, 1, 2, 3, 4)] + [xa('MsgPack', b, 'xa_wide', 6, w=20 if b == 'Zera' else 0) for b in ALL] +
     [xa('MsgPack', b, 'xa_deep', *r, xo=BIG) for b in ALL for r in ((1020, 1030), (4000, 4000))] +
     [xa('CBOR', b, 'xa_any', n) for b in ALL for n in (1, 2)] + [xa('CBOR', 'MsgPack', 'xa_any', 3), xa('CBOR', 'Zera', 'xa_any', 3), xa('CBOR', 'MsgPack', 'xa_wide', 6)] +
     [xa('MsgPack', 'MsgPack', 'xa_tok', 6, w=20)] + [xa('MsgPack', 'MsgPack', 'xa_tok', 5, 0, 0, 1)] + [xa('MsgPack', b, 'xa_tok', 4, 0, 0, 1) for b in ('Zera', 'Flex')] + [xa('MsgPack', b, 'xa_tok', 5, 0, 0, 0) for b in ('Zera', 'Flex')] + [xa('MsgPack', b, 'xa_tok', 5, 0, 0, 1, tier='t') for b in ('Zera', 'Flex')] + [xa('CBOR', b, 'xa_tok', 4, 0, 0, 1) for b in ALL] +
     [xa('MsgPack', b, 'xa_tok', 6, tier='t') for b in ('Zera', 'Flex')] + [xa('MsgPack', b, 'xa_tok', 7, 0, 1, tier='t') for b in ALL] + [xa('CBOR', b, 'xa_tok', 5, 0, 0, b == 'MsgPack', tier='t') for b in ALL] +
     [xa('Zera', b, 'xa_env', 36, 0, t, tier='t') for b in ('Zera', 'MsgPack') for t in (1, 2)] + [xa('Zera', 'Zera', 'xa_env', 36, 12, tier='t'), xa('CBOR', 'MsgPack', 'xa_any', 4, tier='t'), xa('CBOR', 'Flex', 'xa_any', 3, tier='t'), xa('MsgPack', 'MsgPack', 'xa_any', 5, tier='t'), xa('MsgPack', 'Zera', 'xa_any', 5, tier='t')])
# ---------------------------------------------------------------- sharing between threads, repeatability
def sh(entry, *p, P=None, sec=1, **k): return J('share', entry, *p, P=P if P != 'CBOR' else None, defs=['SEC=%d' % sec] + (['WITH_CBOR=1'] if P == 'CBOR' else []), **k)
prop('C26', 'documents of nine shapes (every leaf kind, small and homogeneous containers, 17-entry arrays and maps, nesting 2) with arbitrary leaf contents, opened owning and borrowing, one arbitrary operation of 14 kinds with arbitrary index or key; six builder forms; every input of 0..3 bytes for MessagePack and CBOR; base64 of 0..5 arbitrary bytes; tensors of rank 2 with uint8, float, double elements; translation to ZERA and MessagePack; the shared phase may write nothing that existed before it except through atomic operations, static-initialisation guards and thread-local storage',
     [j for p in ALL for j in (sh('sh_read', P=p, w=10), sh('sh_write', P=p), sh('sh_build', P=p), sh('sh_buf', P=p), sh('sh_xlate', P=p), sh('sh_tensor', P=p, sec=2))] +
     [sh('sh_b64', P='MsgPack', opts=M256)] + [sh('sh_any', n, P=p, need=()) for p in ('MsgPack', 'CBOR') for n in (0, 1, 2)] + [sh('sh_any', 3, P='MsgPack', need=())] +
     [sh('sh_any', 4, P='MsgPack', need=(), tier='t'), sh('sh_any', 3, P='CBOR', need=(), tier='t'), sh('sh_any', 48, P='Zera', opts=z1, need=(), tier='t')])
prop('C27', 'any two of 14 kinds of operation with arbitrary index or key asked in the order a, b, a and b of a fresh reader, over every MessagePack input of 0..3 bytes, every CBOR input of 0..2 bytes, every sequence of 3 MessagePack tokens (thorough 4), every 48-byte ZERA input (first operation kind, integer, mapKeys; thorough: all) and documents of nine shapes with arbitrary leaf contents; two readers or two writers used in turn; one storage holding two documents one after the other; a child asked again after its sibling',
     [sh('rp_any', n, P='MsgPack', need=(), w=20 * (n == 3)) for n in (0, 1, 2, 3)] + [sh('rp_any', n, P='CBOR', need=(), w=20 * (n == 2)) for n in (1, 2)] +
     [sh('rp_any', 48, k, P='Zera', need=(), opts=z1, w=90) for k in (1, 10)] + [sh('rp_tok', 3, P='MsgPack', need=()), sh('rp_tok', 3, 0, 0, 1, P='MsgPack', need=(), tier='t')] + [sh('rp_tok', 4, k, P='MsgPack', need=(), tier='t') for k in range(1, 15)] +
     [sh('rp_doc', k, P=p, w=9) for p in ALL for k in range(1, 10)] + [sh(e, P=p, w=9) for p in ALL for e in ('rp_two', 'rp_reuse', 'rp_writers')] +
     [sh('rp_child', k, P=p, w=9) for p in ALL for k in (1, 4, 9)] +
     [sh('rp_any', 48, k, P='Zera', need=(), opts=z1, tier='t') for k in range(2, 15) if k != 10] + [sh('rp_any', 3, P='CBOR', need=(), tier='t')] + [sh('rp_child', k, P=p, tier='t') for p in ALL for k in (2, 3, 5, 6, 7, 8)])
# ---------------------------------------------------------------- debug text
def dm(entry, *p, P=None, **k): return J('dump', entry, *p, P=P if P != 'CBOR' else None, defs=['WITH_CBOR=1'] if P == 'CBOR' else [], need=k.pop('need', ()), **k)
prop('C28', 'every MessagePack input of 0..3 bytes (thorough 4) and 6-byte inputs with a wide header at the root or in a container, every CBOR input of 0..3 bytes (4) and 6- to 8-byte inputs with a wide header at the root, in an array, as a key or as a chunk, every ZERA input of 48 bytes (56); every sequence of 4 MessagePack or CBOR tokens (5 of the main kinds) with arbitrary contents and counts; nesting of 250..260, 2000 and 100000 levels; documents of four shapes written in ZERA, MessagePack and FlexBuffers with arbitrary leaf contents; nesting of 200 for written documents; number formatting itself is trusted to libstdc++',
     [dm('dm_any', n, P='MsgPack') for n in (0, 1, 2, 3)] + [dm('dm_any', n, P='CBOR') for n in (1, 2, 3)] + [dm('dm_any', 48, P='Zera', opts=z1)] +
     [dm('dm_wide', 6, k, P='MsgPack') for k in (0, 1, 2)] + [dm('dm_wide', *a, P='CBOR') for a in ((6, 0), (7, 1), (7, 2), (7, 3), (7, 4))] +
     [dm('dm_deep', *r, P=p, opts=BIG) for p in ('MsgPack', 'CBOR') for r in ((250, 260), (2000, 2000))] + [dm('dm_deep', 100000, 100000, P='MsgPack', opts=BIG)] +
     [dm('dm_tok', *a, P=p) for p in ('MsgPack', 'CBOR') for a in ((5, 0, 0, 0), (4, 0, 0, 1))] + [dm('dm_tok', 5, 0, 0, 1, P=p, tier='t') for p in ('MsgPack', 'CBOR')] + [dm('dm_tok', 6, P='MsgPack', tier='t')] +
     [dm('dm_doc', P=p, need=['done']) for p in ALL] + [dm('dm_nest', 200, P=p, need=['done'], opts=BIG) for p in ('MsgPack', 'Flex')] +
     [dm('dm_any', 4, P='MsgPack', tier='t'), dm('dm_any', 4, P='CBOR', tier='t'), dm('dm_any', 56, P='Zera', opts=z1, tier='t')] + [dm('dm_wide', *a, P='CBOR', tier='t') for a in ((9, 0), (10, 1), (10, 2), (10, 3))])
