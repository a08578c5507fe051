PROPS = {}


def P(pid, **k):
    PROPS[pid] = k


P("C01", crate="hquery",
  shards=[dict(entry="h_contains", args=range(10)),
          dict(entry="h_intersect", args=range(100)), dict(entry="h_merge", args=range(100)), dict(entry="h_bounds", args=range(10)),
          dict(entry="h_order", args=range(100)), dict(entry="h_many", args=range(100)), dict(entry="h_keys", args=range(10)),
          dict(entry="h_iter", args=range(40))],
  reach=["contains", "intersect"])

# kinds of query item: 0 Key, 1 Range, 2 RangeInclusive, 3 RangeFull, 4 RangeFrom, 5 RangeTo,
# 6 RangeToInclusive, 7 RangeAfter, 8 RangeAfterTo, 9 RangeAfterToInclusive
MQ = [100 * d + 10 * b + a for d in range(4)
      for a, b in [(x, y) for x in (0, 3, 4, 6) for y in (0, 3, 4, 6)] + [(0, 2), (2, 0), (9, 0)]]
P("C02", crate="hquery", shards=[
    dict(entry="h_insert", args=range(10)),
    dict(entry="h_cond", args=range(100)),
    dict(entry="h_branch", args=range(48)),
    dict(entry="h_mergeq", args=MQ, thorough=range(400))],
  reach=["insert", "cond", "branch", "mergeq"])

_FT = [5, 11, 17, 23]
P("C03", crate="hcodec", shards=[
    dict(entry="h_q_item", args=range(10)),
    dict(entry="h_q_codec", args=[k + 10 * n + 100 * s + 1000 * c for k, n, s, c in
                                  [(k, 1, 0, 0) for k in range(10)] + [(k, 2, 2, 0) for k in range(10)]
                                  + [(k, 0, 3, 0) for k in (0, 9)] + [(k, 1, 5, 1) for k in (3, 6)] + [(k, 1, s, c) for k in (0, 3) for s in (0, 1, 4) for c in (2, 3)]
                                  + [(3, 1, 0, 4)]]),
    dict(entry="h_q_total", args=[n + 100 * k for k in range(7) for n in (0, 1, 3, 5, 7, 8)], thorough=[n + 100 * k for k in range(7) for n in range(12)]),
    dict(entry="h_q_limits", args=range(6)),
    dict(entry="h_q_sum", args=[k + 10 * n for k in range(0, 10, 2) for n in range(3)])],
  reach=["query item", "query codec", "query accepted", "query rejected", "query limits", "query sum"])
P("C04", crate="hcodec", shards=[
    dict(entry="h_op_codec", args=[*range(28)] + [k + 100 * f for k in _FT for f in range(1, 7)]),
    dict(entry="h_op_large", args=[k + 100 * d for k in range(24) if k % 12 in (3, 4, 5, 6, 7, 9, 11) for d in (0, 1)]),
    dict(entry="h_op_total", args=[o + 1000 * n for o in range(0x32) for n in (1, 3, 6, 45)] + [0] + [o + 75000 for o in (0x1c, 0x1d, 0x2e, 0x2f)]),
    dict(entry="h_op_seq", args=range(0, 784, 27), thorough=range(784)),
    dict(entry="h_feature", args=range(7))],
  reach=["op codec", "op large", "op rejected", "op accepted", "op seq", "feature"])

P("C05", crate="hcore", shards=[
    dict(entry="h_el_codec", args=range(15)),
    dict(entry="h_el_total", args=[20 * n + k for n in (0, 1, 2, 4, 6) for k in range(16)] + [200, 201, 203], thorough=[20 * n + k for n in range(12) for k in range(16)]),
    dict(entry="h_el_helpers", args=range(15))],
  reach=["element codec", "element accepted", "element rejected", "element helpers"])

P("C06", crate="hcore", shards=[
    dict(entry="h_ref_resolve", args=range(28)),
    dict(entry="h_ref_invert", args=range(28))],
  reach=["resolve", "invert"])

P("C07", crate="hcore", shards=[
    dict(entry="h_path_ops", args=[30 + i for i in range(9)], thorough=[40 + i for i in range(9)]),
    dict(entry="h_path_pair", args=range(16)),
    dict(entry="h_path_parent", args=range(4))],
  reach=["path ops", "path pair", "path parent"])

P("C08", crate="hcore", shards=[
    dict(entry="h_removed", args=range(16)),
    dict(entry="h_opcost", args=range(4)),
    dict(entry="h_kvcost", args=range(24)),
    dict(entry="h_rootcost", args=range(2)),
    dict(entry="h_context", args=range(6))],
  reach=["removed", "opcost", "kvcost", "rootcost", "context"])

P("C09", crate="hcore", shards=[
    dict(entry="h_flags_codec", args=range(12)),
    dict(entry="h_flags_total", args=[*range(13), *range(101, 112)]),
    dict(entry="h_flags_split", args=range(12)),
    dict(entry="h_flags_add", args=range(16)),
    dict(entry="h_flags_update", args=range(12))],
  reach=["flags codec", "flags accepted", "flags rejected", "flags split", "flags add", "flags update"])

P("C10", crate="htree", shards=[
    dict(entry="h_mmr_pos", args=[*range(11), 14, 20, 32, 48, 62], thorough=range(48)),
    dict(entry="h_mmr_keys", args=range(2)),
    dict(entry="h_mmr_node", args=range(4)),
    dict(entry="h_mmr_node_total", args=[0, 1, 33, 34, 37, 38, 39], thorough=range(42)),
    dict(entry="h_mmr_push", args=range(7), thorough=range(11))],
  reach=["positions", "keys", "node", "node accepted", "node rejected", "push"])

P("C11", crate="htree", shards=[
    dict(entry="h_mmr_complete", args=[100 * o + n for o in range(4) for n in range(1, 7)] + [7, 8], thorough=[100 * o + n for o in range(4) for n in range(1, 11)]),
    dict(entry="h_mmr_incremental", args=[100 * d + n for d in range(1, 4) for n in range(1, 6)], thorough=[100 * d + n for d in range(1, 5) for n in range(1, 10)])],
  reach=["complete", "incremental"])

P("C12", crate="htree", shards=[
    dict(entry="h_mmr_sound", args=[1000 * m + 100 * k + n for m in range(6) for k in range(1, 4) for n in range(1, 9)], thorough=[1000 * m + 100 * k + n for m in range(6) for k in range(1, 4) for n in range(1, 11)]),
    dict(entry="h_mmr_total", args=[100 * m + 10 * k + c for m in (0, 1, 3) for k in range(1, 3) for c in range(5)]),
    dict(entry="h_mmr_decode", args=[0, 1, 2, 3, 4, 6, 10])],
  reach=["rejected", "accepted", "total", "proof rejected", "proof accepted"])

P("C13", crate="htree", shards=[
    dict(entry="h_dense_history", args=[10 * s + h for h, s in ((1, 4), (2, 4), (3, 3))] + [100 + 10 * s + h for h, s in ((1, 3), (2, 4))],
         thorough=[10 * s + h for h in (1, 2, 3, 4) for s in (5, 6)] + [100 + 10 * s + h for h in (2, 3) for s in (5, 6)])],
  reach=["dense history", "dense fault"])
P("C14", crate="htree", shards=[
    dict(entry="h_dense_complete", args=[10 * n + h for h in (1, 2, 3) for n in range(1, 2 ** h)], thorough=[10 * n + 4 for n in range(1, 13)]),
    dict(entry="h_dense_query", args=[10000 + 10 * n + k for n in range(5) for k in range(10)] + [100 * k2 + 20 + k for k in range(10) for k2 in (0, 6)],
         thorough=[100 * k2 + 10 * n + k for k in range(10) for k2 in range(10) for n in range(8)])],
  reach=["dense complete", "dense query"])
P("C15", crate="htree", shards=[
    dict(entry="h_dense_sound", args=[n + 10 * e + 100 * v + 1000 * h for n in range(1, 5) for e in range(3) for v in range(3) for h in range(3)],
         thorough=[n + 10 * e + 100 * v + 1000 * h for n in range(1, 8) for e in range(4) for v in range(3) for h in range(4)]),
    dict(entry="h_dense_total", args=[0, 1, 11, 101, 111]),
    dict(entry="h_dense_decode", args=[0, 1, 2, 3, 4, 6, 10])],
  reach=["dense rejected", "dense accepted", "dense query accepted", "dense total", "dense proof rejected", "dense proof accepted"])

P("C16", crate="htree", shards=[
    dict(entry="h_bulk_history", args=[51, 42, 52] + [1000 * b + 141 for b in (0, 1, 2, 3)] + [1000 * b + 141 for b in (4, 5, 6, 7)] + [3142, 4131, 6131, 7042], thorough=[61, 62, 241, 1241, 3241, 5141, 7141, 9141, 11131, 13131])],
  reach=["bulk history", "bulk fault", "bulk commit fault"])
P("C17", crate="htree", shards=[
    dict(entry="h_bulk_complete", args=[10000 + 100 + 10 * n + k for n in range(6) for k in range(10)] + [10200 + 50 + k for k in range(10)] + [1000 * k2 + 130 + k for k in (0, 4) for k2 in (1, 4)],
         thorough=[1000 * k2 + 100 * h + 10 * n + k for h in (1, 2) for n in range(9) for k in range(10) for k2 in (0, 2, 6, 10)]),
    dict(entry="h_bulk_queries", args=[10 + n for n in range(8)] + [20 + n for n in range(8)]),
    dict(entry="h_bulk_sound", args=[n + 10 * c + 100 * m + 1000 * e + 10000 * v for n in range(1, 7) for c in range(3) for m in range(3) for e in range(2) for v in range(1 + (n % 2)) if c < 2 or n == 4 and v == 0 or n == 5 and m == 1 and e == v == 1]),
    dict(entry="h_bulk_total", args=[c + 10 * e + 100 * w for c in range(3) for e in range(2) for w in range(4)]),
    dict(entry="h_bulk_decode", args=[0, 1, 2, 3, 4, 6, 8, 11])],
  reach=["bulk complete", "bulk queries", "bulk rejected", "bulk accepted", "bulk query accepted", "bulk total", "bulk proof rejected", "bulk proof accepted"])
P("C18", crate="htree", shards=[
    dict(entry="h_chunk_codec", args=range(5)),
    dict(entry="h_chunk_total", args=[*range(16), 21])],
  reach=["chunk codec", "chunk accepted", "chunk rejected"])

P("C19", crate="hmerk", shards=[
    dict(entry="h_merk_hash", args=[0, 1, 3]),
    # item kind + 10 * pattern + 100 * direction + 1000 * (second item + 1) + 100000 * mode
    dict(entry="h_merk_sound", args=[k + 10 * p + 100 * d for k in range(10) for p in range(4) for d in range(2) if p < 2 or d == (k + p) % 2]
         + [a + 1000 * (b + 1) + 10 * p + 100 * d for a, b, p, d in [(a, b, 1, d) for a, b in ((0, 0), (0, 4), (1, 0), (2, 1), (5, 7), (0, 9)) for d in range(2)] + [(0, 0, 2, 0), (0, 4, 2, 1), (1, 0, 2, 0)]],
         thorough=[a + 1000 * (b + 1) + 10 * p + 100 * d for a in (0, 1, 2, 5, 6, 8, 9) for b in (0, 1, 2, 4, 7, 8, 9) for p in (1, 2, 3) for d in range(2)]
         + [k + 10 * p + 200000 + 100 * d for k in (0, 2, 3, 7) for p in (4, 5, 6, 7) for d in range(2)]),
    # kind + 100 * pattern + 1000 * direction + 10000 * version + 100000 * counted + 1000000 * combined
    dict(entry="h_merk_kinds", args=[k + 100 * p + 1000 * d + 10000 + 100000 * c + 1000000 * o for k in range(14) for p, d, c, o, ks in
                                     [(0, 0, 0, 0, 0), (0, 0, 0, 1, 0), (0, 0, 1, 0, 0), (1, 0, 0, 0, 0), (1, 1, 0, 1, 0), (1, 0, 1, 1, 0),
                                      (2, 1, 1, 0, (8, 9, 10)), (2, 0, 0, 1, (5, 7)), (3, 0, 0, 0, (0, 2, 6))] if ks == 0 or k in ks],
         thorough=[k + 100 * p + 1000 * d + 10000 * v + 100000 * c + 1000000 * o for k in range(14) for p in range(4) for d in range(2) for v in range(2) for c in range(2) for o in range(2)])],
  reach=["merk hashes", "merk rejected", "merk accepted", "merk other root"])

P("C21", crate="hgrove", shards=[
    # see the decoding of cfg above layer::layers
    dict(entry="h_layer", args=[1, 1000001, 10001, 1010001, 101, 1000101, 10101, 1010101, 201, 1000201, 10201, 1010201, 301, 1000301, 10301, 1010301, 401, 1000401, 10401, 1010401, 501, 1000501, 10501, 1010501, 601, 1000601, 10601, 1010601, 701, 1000701, 10701, 1010701, 801, 1000801, 10801, 1010801, 901, 1000901, 10901, 1010901, 3, 103, 203, 303, 1000103, 1000303, 4, 104, 304, 10304, 10004, 1000104, 1010004, 2, 102, 302, 10302, 1000302, 5, 105, 300305, 1300105, 0, 10, 110, 310, 1000110, 300102, 300302, 1300302, 200001, 210001, 200501, 210501, 200010, 200011, 1210011, 1210501, 110001, 110301, 1100301, 1011, 1001111, 1211, 1001311, 1001511, 1611, 1001711, 12301, 12201, 12311, 712211, 712311, 30010301, 10010201, 1310, 1302, 301111, 1303, 1001103, 201511, 410001, 410101, 1410201, 410301, 1410801, 400302, 400102, 510001, 1510101, 510201, 510301, 510801, 500302, 500102, 810001, 1810101, 810201, 810301, 810801, 800302, 800102, 1910001, 910101, 910201, 1910301, 910801, 900302, 900102, 401712, 1901712, 600001, 610501, 600510, 600012, 710201, 710204, 1710204, 710001, 710004, 700004, 710104, 710501],
      thorough=[20301, 20201, 10020301, 11020301, 11201, 711211, 1001011, 1001211, 1101, 1201, 1301, 501712])],
  reach=["layer accepted", "layer rejected", "layer other root"])

P("C22", crate="hgrove", shards=[
    # kind n qk x y z em opt
    dict(entry="h_nonmerk", args=[int(s[::-1]) for s in """
 03410 03310 03321 03021 01310 02021 02310 031201 03101 03322 0341 02320 0331000 03310001 0331001 0321001
 133300 13310 13322 130111 13111 11310 12320 13320000 13320001 13310002 131201001 133210 130110
 2331000 23311 231110 230001 230110 23310001 23311001 21301 22310 2331101001 230010002 230001002
 33311 33311001 330110 33311003 03310003 13320003""".split()])],
  reach=["contents accepted", "contents rejected"])

P("C23", crate="hgrove", shards=[
    dict(entry="h_bytes", args=[1, 3, 5, 7, 104, 106, 204, 206, 1206, 2206, 3206, 305, 1306, 405, 1405, 1407, 1505, 1605, 1705],
         thorough=[1208, 2208, 3208]),
    dict(entry="h_deep", args=[0, 127, 128, 129, 128127, 129127, 128001, 129001, 1128127, 1129127, 1000128, 1000129, 1001127, 1001128])],
  reach=["bytes accepted", "bytes rejected", "deep"])

P("C20", crate="hgrove", shards=[
    dict(entry="h_chunk_honest", args=[10000, 20001, 21002, 10104, 20307, 21212, 30011, 20120, 22112, 1020006, 550120, 551120, 550020, 340320, 11020005, 10020105]),
    dict(entry="h_depth", args=[0, 1, 9, 17, 33]),
    dict(entry="h_chunk", args=[10000001, 10000002, 10000000, 10001000, 10001001, 10001101, 10000101, 1001, 2, 1002, 10002, 11002, 10012, 10102, 110002, 111001, 20003, 20013, 1020003, 30003, 20103, 30103, 1010002, 10303, 100001]),
    dict(entry="h_branch", args=[1, 2, 12, 102, 10002, 10012, 10102, 20003, 30003, 20103, 30103, 110002, 110102, 1020003])],
  reach=["chunk accepted", "chunk rejected", "chunk other root", "branch accepted", "honest trunk", "height", "depths"])

import itertools
LV = sorted({b + 10 * cd + 100 * c1 + 1000 * c2 + 10000 * i + 100000 * ic + 10000000 * par + 100000000 * base
      for (b, cd, c1, c2, i, ic, par, base) in [
        (0,0,0,0,0,0,1,0),(1,0,0,0,0,0,2,0),(2,0,0,0,0,0,0,1),(3,0,0,0,0,0,3,0),(3,0,0,0,3,0,3,1),(4,0,0,0,0,0,2,2),(5,0,0,0,1,0,1,0),(6,0,0,0,0,0,3,0),(7,0,0,0,0,0,1,0),
        (0,1,3,0,0,0,1,0),(0,1,1,0,0,0,1,0),(0,2,4,0,0,0,0,1),(3,1,1,0,0,0,1,0),(1,1,3,0,0,0,3,0),(3,3,3,1,0,0,1,0),(1,3,4,2,0,0,2,0),(4,4,3,5,0,0,0,0),
        (3,0,0,0,1,1,0,0),(3,0,0,0,3,2,1,0),(0,1,3,0,3,4,2,0),(3,1,0,0,0,0,0,0),(0,2,0,0,0,0,0,0),(1,3,0,3,0,0,0,0),(2,2,5,0,0,0,1,0),(3,0,0,0,0,1,0,0)]})
import random
_r = random.Random(24)  # a fixed choice among all the shapes of queries
LV2 = sorted({_r.randrange(8) + 10 * _r.randrange(5) + 100 * _r.randrange(8) + 1000 * _r.randrange(8) + 10000 * _r.randrange(8) + 100000 * _r.randrange(9) + 10000000 * _r.randrange(4) + 100000000 * _r.randrange(3) for _ in range(900)})
MP = ((0, 0), (1, 0), (0, 1), (0, 3), (3, 0), (1, 2), (3, 1), (1, 3), (4, 2), (3, 5), (5, 1), (5, 0))
P("C24", crate="hgrove", shards=[
    dict(entry="h_level", args=LV + LV2[::8], thorough=LV2),
    dict(entry="h_terminal", args=LV + [1, 2, 3, 4] + LV2[::4], thorough=LV2),
    dict(entry="h_pq_merge", args=[a + 10 * p + 100 * b + 1000 * r for a in range(8) for b in range(8) for p, r in MP]
         + [a + 10 * p + 100 * b + 1000 * r + 10000 * (c + 1) + 100000 * t for a in range(0, 8) for b in range(1, 8, 3) for c in range(8) for p, r, t in ((2, 1, 2), (0, 0, 0)) if (a + b + c + p) % 3 == 0],
         thorough=[a + 10 * p + 100 * b + 1000 * r + 10000 * (c + 1) + 100000 * t for a in range(8) for b in range(8) for c in range(8) for p, r, t in ((2, 1, 2), (0, 0, 0), (3, 1, 5))]),
    dict(entry="h_pq_limits", args=[0, 1, 2, 3])],
  reach=["level", "terminal", "merged", "sums merged"])

# kind of the tree + 16 * operations + 256 * first + 4096 * entries before + 65536 * (second + 1)
def hist2(ks, ps, befores):
    return [k + 32 + 256 * a + 4096 * b + 65536 * (c + 1) for k in ks for a, c in ps for b in befores]
SLOW = ((4, 3), (3, 4), (3, 3), (4, 4), (2, 3), (3, 2), (1, 3), (3, 1))
PAIRS = [(a, b) for a in range(13) for b in range(13)]
P("C25", crate="hfull", shards=[
    dict(entry="h_history", args=[k + 16 + 256 * a + 4096 * b for k in range(7) for a in range(14) for b in (0, 2, 4) if b == 4 or (a + k) % 3 == 0 or a == 13]
         + [k + 32 + 256 * a + 4096 * 3 + 65536 * 14 for k in (1, 2, 4, 6) for a in (1, 3, 6)]
         + [x for a, b in PAIRS if (a + b) % 2 == 0 and (a, b) not in SLOW for x in hist2([(3 * a + 5 * b) % 7], [(a, b)], [3])]
         + [x for a, b in PAIRS if (a + b) % 2 or (a, b) in SLOW for x in hist2([(3 * a + 5 * b) % 7], [(a, b)], [(a + b) % 3 // 2])],
         thorough=hist2(range(7), PAIRS, [3]) + [k + 48 + 256 * a for k in range(7) for a in (0, 3, 4)])],
  reach=["insert", "delete", "clear", "delete up", "refused", "big amount"])

P("C26", crate="hfull", shards=[
    dict(entry="h_prove", args=[(s + c + l) % 7 + 10 * c + 10000 * s + 1000000 * l + 10000000 * v
                                for v in (0, 1) for s in list(range(24)) + [26, 27, 28, 31] for c in (13, 344, 567, 842, 939, 25, 713)
                                for l in range(4) if (s + c + l) % 2 == v],
         thorough=[k + 10 * c + 10000 * s + 1000000 * l + 10000000 * v for k in range(7) for v in (0, 1)
                   for s in list(range(24)) + [26, 27, 28, 31] for c in (13, 344, 567, 842, 939, 25, 713) for l in range(4)])],
  reach=["proved", "query", "raw query"])


def batch(sorts, mode=0, kind=None, keep=0):
    k = (3 * sorts[0] + 5 * sorts[-1]) % 7 if kind is None else kind
    return k + 8 * mode + 64 * len(sorts) + sum(x << (8 + 4 * i) for i, x in enumerate(sorts)) + (keep << 20)


P("C27", crate="hfull", shards=[
    dict(entry="h_batch", args=[batch([a], m, (a + m) % 7, k) for a in range(15) for m in range(5) for k in (0, 1)]
         + [batch([a, b], (a + b) % 5, None, (a * b) % 3 % 2) for a in range(15) for b in range(a, 15)]
         + [batch(x) for x in [(5, 0, 7), (2, 9, 0), (1, 3, 9), (7, 7, 8), (8, 8, 7), (8, 10, 7), (2, 4, 11)]],
         thorough=[batch([a, b], m, None, k) for a in range(15) for b in range(15) for m in range(5) for k in (0, 1)]
         + [batch(x) for x in [(1, 0, 0), (1, 1, 0), (13, 0, 0), (6, 4, 14), (14, 14, 0), (1, 3, 14), (9, 7, 14)]])],
  reach=["batch", "refused", "committed", "rolled back", "reference"])

P("C28", crate="hfull", shards=[
    dict(entry="h_fault", args=[k + 8 * o + 512 * m for m in range(7) for o in range(26 if m < 5 else 18) for k in ([(o + m) % 7, (o + m + 3) % 7] if m in (0, 1, 6) else [(o + m) % 7])]
         + [o % 7 + 8 * o + 512 * 7 for o in (6, 8, 9, 10, 14, 15, 16, 17)] + [o % 7 + 8 * o + 512 * 8 for o in range(26)],
         thorough=[k + 8 * o + 512 * m for m in range(7) for o in range(26 if m < 5 else 18) for k in range(7)])],
  reach=["done", "failed", "commit failed", "rolled back", "read", "error told", "moved"])

P("C29", crate="hfull", shards=[
    dict(entry="h_append", args=[t + 4 * ((o + t + b + q) % 7) + 32 * b + 256 * o + 2048 * q for t in range(4) for o in range(7) for b in (0, 1, 3, 4)
                                 for q in ([0] if b < 3 else range(8)) if t != 2 or b < 4],
         thorough=[t + 4 * k + 32 * b + 256 * o + 2048 * q for t in range(4) for o in range(7) for b in range(8) for q in range(8) for k in range(7) if (t != 2 or b < 4) and (k + b) % 2])],
  reach=["append", "batch", "full", "rolled back", "deleted", "proved"])
