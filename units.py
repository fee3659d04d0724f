"""What each property's check runs: harness files, entry points, bounds per tier."""
ASSUMPTIONS = [
 "clang 18's front end (-O0, sroa, instsimplify) and the C++17 reading of the headers are trusted; the IR encoded is regenerated from the headers on every run",
 "operator new never fails; exceptions and RTTI are off; one thread",
 "element and key types are int, structs of ints, or a lifetime-tracked class; element copies and comparisons do not fail",
 "arguments respect the documented preconditions (positions inside the container, sorted input where required, ranges not inside the container being range-inserted into)",
]
PROPS = {}
def P(pid, quick_t, thorough_t, *units, assumptions=()):
    PROPS[pid] = dict(units=list(units), time=dict(quick=quick_t, thorough=thorough_t), assumptions=list(assumptions))
def U(src, entries, defs=None, quick=None, thorough=None, **kw):
    return dict(src=src, entries=entries.split(), defs=defs or {}, quick=quick or {}, thorough=thorough or {}, **kw)

T = 'trees.cpp'
BIGS = 'sizes, positions and counts near powers of two and near the limits; containers of up to NI elements of any value, counts up to NC, '
LG = dict(LARGE=1, NOPS=1)
WIDE = dict(ELT='Wide')
TB = '; every construction, use and destruction of an element tracked'
WB = '; elements of several words, each checked whole'
XB = 'element types, values and ranges of different integer types (char, int, long, signed and not); up to NL elements of any value'
YB = 'predicates and comparisons whose results are numbers or pointers, any few values'
HUGET = dict(MANY='256,300,65536,65537,66000', SOME='255,256,257,300,600')
HUGEB = 'containers and ranges of 256 and 300 elements, contiguous ones, ranges, arrays and bitsets also of about 66000 (thorough: more sizes around these), known values except one arbitrary one, one operation at the ends, the middle or position 255'
OB = 'references to own keys and elements as arguments; containers of up to NI keys of any value, NS operations; lifetimes of keys and values tracked'
SH = 'RLO to RHI keys in RS shuffled orders, up to two thirds of them removed in another order; '
P('P01', 600, 3000,
  U(T, 'set_ins_erase map_ins_erase setg_ins_erase mapg_ins_erase set_range map_range set_erase_own', quick=dict(NK=5, NE=2), thorough=dict(NK=6, NE=2),
    bounds='any NK keys inserted, any NE keys erased', reach=['insert new', 'insert dup', 'erase present', 'erase absent', 'range ctor', 'range insert', 'own']),
  U(T, 'set_hist map_hist', quick=dict(NH=6), thorough=dict(NH=7), bounds='any history of NH insertions, removals and clears of arbitrary keys', reach=['clear', 'insert dup', 'erase absent', 'erase present']),
  U(T, 'set_perm map_perm', quick=dict(PERM=6, NE=2), thorough=dict(PERM=7, NE=2), bounds='every order of PERM distinct keys, NE removals of arbitrary keys'),
  U(T, 'set_big map_big', quick=dict(BIG=12, NB=2, NPAT=4), thorough=dict(BIG=31, NB=2, NPAT=6), bounds='trees of up to BIG keys built in NPAT orders, then NB operations on arbitrary keys'),
  U(T, 'set_big', quick=dict(BIG=31, NB=1, NPAT=7), thorough=dict(BIG=80, NB=1, NPAT=7), bounds='larger trees, one operation on an arbitrary key'),
  U(T, 'set_rnd map_rnd', quick=dict(RLO=13, RHI=30, RS=8, NB=1), thorough=dict(RLO=6, RHI=56, RS=40, NB=1), bounds=SH + 'then NB operations on arbitrary keys'),
  U(T, 'set_big', dict(LARGE=1), quick=dict(BIG=130, NB=1, NPAT=3), thorough=dict(BIG=200, NB=1, NPAT=5), bounds='trees of sizes near powers of two up to BIG in NPAT orders, then NB operations on any key'),
  U(T, 'map_big', dict(LARGE=1), quick=dict(BIG=66, NB=1, NPAT=3), thorough=dict(BIG=130, NB=1, NPAT=5), bounds='trees of sizes near powers of two up to BIG in NPAT orders, then NB operations on any key'),
  U('huge.cpp', 'set_huge map_huge', steps=60000000, quick=dict(), thorough=HUGET, bounds=HUGEB),
  U('mixed.cpp', 'x_keyed', quick=dict(), thorough=dict(NL=6, NS=3), bounds=XB),
  U('truth.cpp', 't_set t_map', quick=dict(), thorough=dict(NL=5, NS=3), bounds=YB),
  U('own.cpp', 'own_set own_map', quick=dict(NI=4, NS=2), thorough=dict(NI=5, NS=3), bounds=OB))
P('P02', 600, 3000,
  U(T, 'set_look setg_look map_look mapg_look', quick=dict(NK=4, NE=1), thorough=dict(NK=5, NE=2), bounds='any NK insertions, NE removals, then every lookup with an arbitrary probe', reach=['find absent', 'find present', 'bound end', 'bound inside']),
  U(T, 'set_look_big map_look_big', quick=dict(BIG=11, NB=1, NPAT=4), thorough=dict(BIG=24, NB=1, NPAT=6), bounds='trees of up to BIG keys, NB removals, an arbitrary probe', reach=['find absent', 'find present', 'bound end', 'bound inside']),
  U(T, 'dup_small', quick=dict(NK=4, NE=1), thorough=dict(NK=5, NE=1), bounds='the underlying tree with equal keys, an arbitrary probe'),
  U(T, 'set_look_rnd map_look_rnd', quick=dict(RLO=10, RHI=40, RS=6), thorough=dict(RLO=6, RHI=60, RS=40), bounds=SH + 'then any probe'),
  U(T, 'set_look_big map_look_big', dict(LARGE=1), quick=dict(BIG=66, NB=0, NPAT=5), thorough=dict(BIG=130, NB=0, NPAT=5), bounds='trees of sizes near powers of two up to BIG in NPAT orders, then every lookup with any probe'),
  U('huge.cpp', 'set_huge map_huge', steps=60000000, quick=dict(), thorough=HUGET, bounds=HUGEB),
  U('truth.cpp', 't_set t_map', quick=dict(), thorough=dict(NL=5, NS=3), bounds=YB))
P('P03', 600, 3000,
  U(T, 'set_iter map_iter setg_iter set_stable map_stable', quick=dict(NK=5, NE=1), thorough=dict(NK=6, NE=2), bounds='any NK insertions and NE removals; walks both ways; iterators held across an operation on any other key', reach=['survivor', 'erase present', 'insert new']),
  U(T, 'set_iter_big map_iter_big set_stable_big map_stable_big', quick=dict(BIG=12, NB=2), thorough=dict(BIG=20, NB=2, NPAT=6), bounds='trees of up to BIG keys, NB operations on arbitrary keys', reach=['survivor']),
  U(T, 'set_iter_big set_stable_big', quick=dict(BIG=31, NB=1), thorough=dict(BIG=63, NB=1, NPAT=6), bounds='larger trees, one operation'),
  U(T, 'set_iter_rnd map_iter_rnd set_stable_rnd map_stable_rnd', quick=dict(RLO=12, RHI=24, RS=4, NB=1), thorough=dict(RLO=6, RHI=56, RS=20, NB=1), bounds=SH + 'then NB operations on arbitrary keys', reach=['survivor']),
  U(T, 'set_iter_big map_stable_big', dict(LARGE=1), quick=dict(BIG=66, NB=1, NPAT=3), thorough=dict(BIG=130, NB=1, NPAT=5), bounds='trees of sizes near powers of two up to BIG in NPAT orders, then NB operations on any key'),
  U('huge.cpp', 'set_huge map_huge', steps=60000000, quick=dict(), thorough=HUGET, bounds=HUGEB))
P('P04', 700, 3400,
  U(T, 'bal_perm', quick=dict(PERM=7, NE=1), thorough=dict(PERM=7, NE=2), bounds='every order of PERM distinct keys, NE removals of arbitrary keys', reach=['balance: erased present', 'balance: erased absent']),
  U(T, 'bal_big bal_absent', quick=dict(BIG=31, NB=1, NPAT=6), thorough=dict(BIG=63, NB=1, NPAT=7), bounds='trees of up to BIG keys in NPAT orders, NB operations on arbitrary keys, any probe'),
  U(T, 'bal_big bal_absent', quick=dict(BIG=10, NB=2, NPAT=4), thorough=dict(BIG=15, NB=2, NPAT=6), bounds='as above, more operations'),
  U(T, 'bal_drain bal_churn', quick=dict(BIG=24, NPAT=4, NCH=40), thorough=dict(BIG=31, NPAT=6, NCH=80), bounds='trees of BIG keys drained in NPAT orders with removals of an arbitrary absent key interspersed'),
  U(T, 'bal_rnd', quick=dict(RLO=12, RHI=40, RS=6, NB=1), thorough=dict(RLO=10, RHI=60, RS=20, NB=1), bounds=SH + 'then NB operations on arbitrary keys'),
  U(T, 'bal_map', quick=dict(RLO=8, RHI=32, RS=6), thorough=dict(RLO=5, RHI=60, RS=40), bounds=SH + 'then every lookup of a map with any key', reach=['map visit present', 'map visit absent']),
  U(T, 'bal_absent bal_big', dict(LARGE=1), quick=dict(BIG=66, NB=1, NPAT=3), thorough=dict(BIG=130, NB=1, NPAT=5), bounds='trees of sizes near powers of two up to BIG in NPAT orders, then any absent probe'))
P('P05', 600, 3000,
  U(T, 'dup_small dup_delmin', quick=dict(NK=5, NE=1), thorough=dict(NK=6, NE=1), bounds='any NK keys inserted (equal ones included), NE removals, any probe', reach=['dup remove present', 'dup remove absent']),
  U(T, 'dup_small', quick=dict(NK=4, NE=2), thorough=dict(NK=5, NE=2), bounds='as above, more removals'),
  U(T, 'dup_big dup_drain', quick=dict(BIG=14, NB=1), thorough=dict(BIG=30, NB=1, NPAT=6), bounds='up to BIG elements over few distinct keys'),
  U(T, 'dup_rnd', quick=dict(RLO=5, RHI=36, RS=16), thorough=dict(RLO=5, RHI=60, RS=60), bounds='RLO to RHI elements inserted in RS shuffled orders with arbitrary keys (neighbours equal or not wherever consistent with the order), any probe, a removal', reach=['dup probe absent', 'dup probe several']),
  U(T, 'dup_multi', quick=dict(RLO=17, RHI=20, RS=3, NB=1), thorough=dict(RLO=12, RHI=40, RS=10, NB=1), bounds=SH + 'two to six distinct keys, then NB operations and any probe'),
  U(T, 'dup_big dup_drain', dict(LARGE=1), quick=dict(BIG=34, NB=1, NPAT=3), thorough=dict(BIG=66, NB=1, NPAT=3), bounds='trees of sizes near powers of two up to BIG in NPAT orders, then NB operations on any key'))
P('P06', 600, 3000,
  U(T, 'set_copy map_copy tree_assign', quick=dict(NK=4, NE=1), thorough=dict(NK=5, NE=1), bounds='any NK insertions and NE removals before copying; one change after', reach=['copy ctor', 'assign', 'self assign']),
  U(T, 'set_copy_big map_copy_big', quick=dict(BIG=14), thorough=dict(BIG=40, NPAT=6), bounds='trees of up to BIG keys', reach=['copy ctor', 'assign', 'self assign']),
  U(T, 'set_copy_rnd map_copy_rnd', quick=dict(RLO=13, RHI=18, RS=2), thorough=dict(RLO=8, RHI=44, RS=10), bounds=SH + 'then copied', reach=['copy ctor', 'assign', 'self assign']),
  U(T, 'set_copy_big map_copy_big', dict(LARGE=1), quick=dict(BIG=34, NPAT=3), thorough=dict(BIG=66, NPAT=3), bounds='trees of sizes near powers of two up to BIG in NPAT orders, then copied'),
  U('huge.cpp', 'set_huge map_huge', steps=60000000, quick=dict(), thorough=HUGET, bounds=HUGEB))
P('P07', 600, 3000,
  U(T, 'map_values mapg_values', quick=dict(NH=4), thorough=dict(NH=5), bounds='any history of NH map operations on arbitrary keys and values', reach=['map insert new', 'map insert dup', 'subscript present', 'subscript absent', 'write through find']),
  U(T, 'map_values_big mapg_values_big', quick=dict(BIG=11, NB=2), thorough=dict(BIG=20, NB=2, NPAT=6), bounds='maps of up to BIG keys, NB operations on arbitrary keys and values'),
  U(T, 'map_values_rnd', quick=dict(RLO=13, RHI=24, RS=3, NB=1), thorough=dict(RLO=8, RHI=50, RS=10, NB=1), bounds=SH + 'then NB map operations on arbitrary keys and values'),
  U(T, 'map_values_big', dict(LARGE=1), quick=dict(BIG=34, NB=1, NPAT=3), thorough=dict(BIG=66, NB=1, NPAT=3), bounds='trees of sizes near powers of two up to BIG in NPAT orders, then NB operations on any key and value'),
  U('huge.cpp', 'map_huge', steps=60000000, quick=dict(), thorough=HUGET, bounds=HUGEB),
  U('mixed.cpp', 'x_keyed', quick=dict(), thorough=dict(NL=6, NS=3), bounds=XB),
  U('own.cpp', 'own_map', quick=dict(NI=4, NS=2), thorough=dict(NI=5, NS=3), bounds=OB))
V, L, M, B, A, X = 'vec.cpp', 'lists.cpp', 'maps.cpp', 'bits.cpp', 'algos.cpp', 'misc.cpp'
SYM = 'any positions and counts (symbolic); '
CASE = 'positions and counts case by case; '
HIST = 'from any container of NI elements or fewer, any NOPS edits with arbitrary element values; counts up to NC, spare capacity up to NS'
TRK = dict(ELT='Trk', ELT_TRK=1)
ED = ['push', 'pop', 'insert', 'insert n', 'insert range', 'erase', 'erase range', 'erase empty', 'resize', 'resize value', 'assign n', 'assign range', 'clear', 'subscript', 'swap', 'operator=']
P('P08', 500, 3000,
  U(V, 'vector_history vector_ctors', dict(SYMARG=1), quick=dict(NI=2, NS=1, NC=1), thorough=dict(NI=3, NS=2, NC=2), bounds=SYM + HIST, reach=ED + ['reserve', 'ctor n', 'ctor range', 'ctor copy']),
  U(V, 'vector_history vector_ctors', quick=dict(NI=5, NS=3, NC=3), thorough=dict(NI=8, NS=4, NC=5), bounds=CASE + HIST, reach=ED + ['reserve', 'ctor n', 'ctor range', 'ctor copy']),
  U(V, 'vector_history', quick=dict(NOPS=3, NI=2, NS=2, NC=2), thorough=dict(NOPS=3, NI=4, NS=3, NC=3), bounds=CASE + HIST),
  U(V, 'vector_history', dict(LG, LARGE=2), quick=dict(NI=131, NC=66, NS=1), thorough=dict(NI=260, NC=131, NS=2), bounds=BIGS + 'one edit'),
  U(V, 'vector_ctors vector_history', dict(LG), quick=dict(NI=66, NC=66, NS=1), thorough=dict(NI=131, NC=66, NS=9), bounds=BIGS + 'one edit'),
  U(V, 'vector_history vector_ctors', WIDE, quick=dict(NI=3, NS=2, NC=2), thorough=dict(NI=5, NS=3, NC=3), bounds=CASE + HIST + WB),
  U(V, 'vector_history vector_ctors', TRK, quick=dict(NI=3, NS=1, NC=2), thorough=dict(NI=5, NS=3, NC=3), bounds=CASE + HIST + TB),
  U('huge.cpp', 'vector_huge', steps=60000000, quick=dict(), thorough=HUGET, bounds=HUGEB),
  U('mixed.cpp', 'x_vector', quick=dict(), thorough=dict(NL=6, NS=3), bounds=XB))
P('P09', 500, 3000,
  U(V, 'vector_capacity vector_reserve_any', dict(SYMARG=1), quick=dict(NI=2, NS=1, NC=1), thorough=dict(NI=3, NS=2, NC=2), bounds=SYM + HIST + '; any 32-bit reservation', reach=['reserve']),
  U(V, 'vector_capacity vector_reserve_any', quick=dict(NI=5, NS=3, NC=3), thorough=dict(NI=8, NS=5, NC=5), bounds=CASE + HIST),
  U(V, 'vector_capacity', quick=dict(NOPS=3, NI=2, NS=2, NC=2), thorough=dict(NOPS=3, NI=4, NS=3, NC=3), bounds=CASE + HIST),
  U(V, 'vector_capacity', dict(LG), quick=dict(NI=66, NC=66, NS=1), thorough=dict(NI=131, NC=131, NS=9), bounds=BIGS + 'one edit'),
  U(V, 'vector_capacity', WIDE, quick=dict(NI=3, NS=2, NC=2), thorough=dict(NI=5, NS=3, NC=3), bounds=CASE + HIST + WB),
  U(V, 'vector_capacity', TRK, quick=dict(NI=3, NS=1, NC=2), thorough=dict(NI=5, NS=3, NC=3), bounds=CASE + HIST + TB),
  U('huge.cpp', 'vector_huge', steps=60000000, quick=dict(), thorough=HUGET, bounds=HUGEB))
P('P10', 500, 3000,
  U(V, 'fixed_history fixed_ctors fixed_any_count', dict(SYMARG=1), quick=dict(NI=2, NC=2, FN=3), thorough=dict(NI=4, NC=3, FN=4), bounds=SYM + HIST + '; capacity FN; any 64-bit count for the counted edits', reach=ED),
  U(V, 'fixed_history fixed_ctors fixed_any_count', quick=dict(NI=5, NC=4, FN=5), thorough=dict(NI=9, NC=5, FN=8), bounds=CASE + HIST + '; capacity FN', reach=ED),
  U(V, 'fixed_history', quick=dict(NOPS=3, NI=3, NC=2, FN=3), thorough=dict(NOPS=3, NI=5, NC=3, FN=4), bounds=CASE + HIST + '; capacity FN', reach=ED),
  U(V, 'fixed_history fixed_ctors fixed_any_count', quick=dict(NOPS=3, NI=2, NC=2, FN=1), thorough=dict(NOPS=4, NI=2, NC=2, FN=1), bounds=CASE + HIST + '; capacity FN'),
  U(V, 'fixed_history', dict(LG, LARGE=2), quick=dict(NI=131, NC=66, FN=130), thorough=dict(NI=260, NC=131, FN=256), bounds=BIGS + 'capacity FN, one edit'),
  U(V, 'fixed_ctors fixed_history', dict(LG), quick=dict(NI=66, NC=66, FN=64), thorough=dict(NI=131, NC=66, FN=128), bounds=BIGS + 'capacity FN, one edit'),
  U(V, 'fixed_history fixed_ctors', WIDE, quick=dict(NI=3, NC=2, FN=4), thorough=dict(NI=5, NC=3, FN=6), bounds=CASE + HIST + WB),
  U(V, 'fixed_history fixed_ctors fixed_any_count', TRK, quick=dict(NI=3, NC=2, FN=4), thorough=dict(NI=5, NC=3, FN=6), bounds=CASE + HIST + TB),
  U('huge.cpp', 'fixed_huge', steps=60000000, quick=dict(), thorough=HUGET, bounds=HUGEB),
  U('mixed.cpp', 'x_fixed', quick=dict(), thorough=dict(NL=6, NS=3), bounds=XB))
P('P11', 500, 3000,
  U(V, 'vector_alias fixed_alias', dict(SYMARG=1), quick=dict(NI=4, NS=2, NC=3, FN=4), thorough=dict(NI=9, NS=4, NC=5, FN=7), bounds='any own element given as the value to every edit that takes one, from any container of up to NI elements'),
  U(L, 'list_remove_own list_insert_own fwd_own back_own lazy_own', dict(SYMARG=1), quick=dict(NI=4, NC=3, NM=4), thorough=dict(NI=8, NC=5, NM=6), bounds='any own element given as the value to every edit that takes one, from any list of up to NI (NM) elements'),
  U(V, 'vector_alias fixed_alias', TRK, quick=dict(NI=6, NS=3, NC=3, FN=6), thorough=dict(NI=12, NS=5, NC=6, FN=10), bounds='as above, elements whose lifetime is tracked'),
  U(L, 'list_remove_own list_insert_own fwd_own back_own lazy_own', TRK, quick=dict(NI=5, NC=3, NM=5), thorough=dict(NI=9, NC=5, NM=7), bounds='as above, elements whose lifetime is tracked'),
  U(V, 'vector_alias fixed_alias', dict(LG), quick=dict(NI=66, NC=34, NS=1, FN=64), thorough=dict(NI=131, NC=66, NS=9, FN=128), bounds=BIGS + 'one edit with an own element'),
  U(V, 'vector_alias fixed_alias', dict(LG, **TRK), quick=dict(NI=34, NC=18, NS=1, FN=32), thorough=dict(NI=66, NC=34, NS=9, FN=64), bounds=BIGS + 'one edit with an own element, lifetimes tracked'),
  U(V, 'vector_alias fixed_alias', WIDE, quick=dict(NI=4, NS=2, NC=2, FN=5), thorough=dict(NI=8, NS=3, NC=4, FN=8), bounds='any own element given as the value' + WB),
  U('own.cpp', 'own_set own_map own_vmap own_smap', quick=dict(NI=4, NS=2), thorough=dict(NI=5, NS=3), bounds=OB))
P('P12', 500, 3000,
  U(L, 'list_history list_ctors list_recycle', dict(SYMARG=1), quick=dict(NI=2, NC=2), thorough=dict(NI=4, NC=3), bounds=SYM + HIST, reach=['insert', 'erase', 'erase range', 'erase empty range', 'resize 0'], kf=['kf_list_erase_range']),
  U(L, 'list_history list_ctors list_recycle', quick=dict(NI=5, NC=3), thorough=dict(NI=8, NC=5), bounds=CASE + HIST),
  U(L, 'list_history', quick=dict(NOPS=3, NI=2, NC=2), thorough=dict(NOPS=3, NI=4, NC=3), bounds=CASE + HIST),
  U(L, 'list_history list_ctors', dict(LG), quick=dict(NI=66, NC=34), thorough=dict(NI=131, NC=66), bounds=BIGS + 'one edit'),
  U(L, 'list_history list_ctors', WIDE, quick=dict(NI=3, NC=2), thorough=dict(NI=6, NC=3), bounds=CASE + HIST + WB),
  U(L, 'list_history list_ctors list_recycle', TRK, quick=dict(NI=3, NC=2), thorough=dict(NI=6, NC=3), bounds=CASE + HIST + TB),
  U('huge.cpp', 'list_huge', steps=60000000, quick=dict(), thorough=HUGET, bounds=HUGEB),
  U(L, 'list_swap list_copy', quick=dict(NI=2, NC=1), thorough=dict(NI=3, NC=2), bounds='any two lists of up to NI elements, swapped or copied, edits before and after'),
  U('mixed.cpp', 'x_list', quick=dict(), thorough=dict(NL=6, NS=3), bounds=XB),
  U('huge.cpp', 'list_long', steps=60000000, quick=dict(), thorough=HUGET, bounds=HUGEB))
P('P13', 600, 3000,
  U(L, 'list_merge list_merge_cmp list_merge_self list_unique list_remove list_reverse', quick=dict(NI=3, NM=5), thorough=dict(NI=5, NM=6), bounds='any lists of up to NM (NI+3 for reverse) elements with arbitrary keys'),
  U(L, 'list_splice_all list_splice_one list_splice_range', dict(SYMARG=1), quick=dict(NI=2, NC=1), thorough=dict(NI=3, NC=2), bounds='any two lists of up to NI elements, any position and range, one edit afterwards'),
  U(L, 'list_splice_all list_splice_one list_splice_range', quick=dict(NI=3, NC=2), thorough=dict(NI=5, NC=3), bounds='as above, case by case'),
  U(L, 'list_splice_all list_splice_one list_splice_range', dict(LG), quick=dict(NI=18, NC=2), thorough=dict(NI=34, NC=2), bounds=BIGS + 'two lists, one edit afterwards'),
  U(L, 'list_merge list_merge_cmp list_unique list_remove list_reverse list_splice_all list_splice_one list_splice_range', WIDE, quick=dict(NI=2, NC=1, NM=4), thorough=dict(NI=3, NC=2, NM=5), bounds='any lists of up to NI (NM) elements' + WB),
  U(L, 'list_merge list_merge_cmp list_merge_self list_unique list_remove list_reverse list_splice_all list_splice_one list_splice_range', TRK, quick=dict(NI=2, NC=1, NM=4), thorough=dict(NI=3, NC=2, NM=5), bounds='any lists of up to NI (NM) elements' + TB),
  U('truth.cpp', 't_list', quick=dict(), thorough=dict(NL=5, NS=3), bounds=YB),
  U('huge.cpp', 'list_long', steps=60000000, quick=dict(), thorough=HUGET, bounds=HUGEB))
P('P14', 500, 3000,
  U(L, 'fwd_history fwd_ctors fwd_splice_one fwd_splice_range', dict(SYMARG=1), quick=dict(NI=2, NC=2), thorough=dict(NI=3, NC=3), bounds=SYM + HIST),
  U(L, 'fwd_history fwd_ctors fwd_splice_one fwd_splice_range', quick=dict(NI=4, NC=3), thorough=dict(NI=7, NC=4), bounds=CASE + HIST),
  U(L, 'fwd_history', quick=dict(NOPS=3, NI=2, NC=1), thorough=dict(NOPS=3, NI=4, NC=3), bounds=CASE + HIST),
  U(L, 'fwd_history fwd_ctors', dict(LG), quick=dict(NI=66, NC=34), thorough=dict(NI=131, NC=66), bounds=BIGS + 'one edit'),
  U(L, 'fwd_splice_one fwd_splice_range', dict(LG), quick=dict(NI=18, NC=2), thorough=dict(NI=34, NC=2), bounds=BIGS + 'two lists, one edit afterwards'),
  U(L, 'fwd_history fwd_ctors', WIDE, quick=dict(NI=3, NC=2), thorough=dict(NI=6, NC=3), bounds=CASE + HIST + WB),
  U(L, 'fwd_history fwd_ctors fwd_splice_one fwd_splice_range', TRK, quick=dict(NI=2, NC=2), thorough=dict(NI=5, NC=3), bounds=CASE + HIST + TB),
  U('huge.cpp', 'fwd_huge', steps=60000000, quick=dict(), thorough=HUGET, bounds=HUGEB),
  U(L, 'fwd_swap fwd_copy', quick=dict(NI=2, NC=1), thorough=dict(NI=3, NC=2), bounds='any two lists of up to NI elements, swapped or copied, edits before and after'),
  U('mixed.cpp', 'x_fwd', quick=dict(), thorough=dict(NL=6, NS=3), bounds=XB))
P('P15', 500, 3000,
  U(L, 'back_history back_ctors', dict(SYMARG=1), quick=dict(NI=3, NC=2), thorough=dict(NI=4, NC=3), bounds=SYM + HIST),
  U(L, 'back_history back_ctors', quick=dict(NI=5, NC=3), thorough=dict(NI=8, NC=5), bounds=CASE + HIST),
  U(L, 'back_history', quick=dict(NOPS=3, NI=2, NC=2), thorough=dict(NOPS=3, NI=4, NC=3), bounds=CASE + HIST),
  U(L, 'back_history back_ctors', dict(LG), quick=dict(NI=66, NC=34), thorough=dict(NI=131, NC=66), bounds=BIGS + 'one edit'),
  U(L, 'back_history back_ctors', WIDE, quick=dict(NI=4, NC=2), thorough=dict(NI=6, NC=3), bounds=CASE + HIST + WB),
  U(L, 'back_history back_ctors', TRK, quick=dict(NI=4, NC=2), thorough=dict(NI=6, NC=3), bounds=CASE + HIST + TB),
  U('huge.cpp', 'back_huge', steps=60000000, quick=dict(), thorough=HUGET, bounds=HUGEB),
  U(L, 'back_swap back_copy', quick=dict(NI=2, NC=1), thorough=dict(NI=3, NC=2), bounds='any two lists of up to NI elements, swapped or copied, edits before and after'),
  U('mixed.cpp', 'x_back', quick=dict(), thorough=dict(NL=6, NS=3), bounds=XB))
P('P16', 500, 3000,
  U(L, 'lazy_history lazy_ctors lazy_recycle', dict(SYMARG=1), quick=dict(NI=2, NC=2), thorough=dict(NI=4, NC=3), bounds=SYM + HIST + '; NOPS+3 edits when counting allocations'),
  U(L, 'lazy_history lazy_ctors lazy_recycle', TRK, quick=dict(NI=4, NC=3), thorough=dict(NI=6, NC=5), bounds=CASE + HIST),
  U(L, 'lazy_history lazy_recycle', quick=dict(NOPS=3, NI=2, NC=2), thorough=dict(NOPS=3, NI=4, NC=3), bounds=CASE + HIST),
  U(L, 'lazy_history lazy_ctors lazy_recycle', dict(LG), quick=dict(NI=66, NC=34), thorough=dict(NI=131, NC=66), bounds=BIGS + 'one edit'),
  U(L, 'lazy_history lazy_ctors lazy_recycle', WIDE, quick=dict(NI=3, NC=2), thorough=dict(NI=6, NC=3), bounds=CASE + HIST + WB),
  U('huge.cpp', 'lazy_huge', steps=60000000, quick=dict(), thorough=HUGET, bounds=HUGEB),
  U(L, 'lazy_swap lazy_copy', quick=dict(NI=2, NC=1), thorough=dict(NI=3, NC=2), bounds='any two queues of up to NI elements, swapped or copied, edits before and after'),
  U('mixed.cpp', 'x_lazy', quick=dict(), thorough=dict(NL=6, NS=3), bounds=XB))
P('P17', 500, 3000,
  U(M, 'vmap_history vmap_probe vmap_dups vmap_copy', quick=dict(NH=4, NK=4), thorough=dict(NH=5, NK=6), bounds='any NH edits or NK insertions of arbitrary keys and values, any probe', reach=['probe present', 'probe absent', 'insert present', 'subscript present', 'equal keys']),
  U(M, 'vmap_big', quick=dict(BIG=12), thorough=dict(BIG=40), bounds='maps of up to BIG known keys, an arbitrary probe and edits'),
  U(M, 'vmap_big', dict(LARGE=2), quick=dict(BIG=66), thorough=dict(BIG=120), bounds='maps of sizes near powers of two up to BIG known keys, an edit of any key or any probe'),
  U(M, 'vmap_history vmap_probe vmap_dups vmap_copy', dict(KT='Wide', VT='Wide'), quick=dict(NH=3, NK=3), thorough=dict(NH=4, NK=5), bounds='any NH edits or NK insertions, any probe' + WB),
  U(M, 'vmap_history vmap_probe vmap_copy', dict(KT='Trk', VT='Trk', TRK=2), quick=dict(NH=3, NK=3), thorough=dict(NH=4, NK=5), bounds='any NH edits or NK insertions, any probe' + TB),
  U('huge.cpp', 'vmap_huge', steps=60000000, quick=dict(), thorough=HUGET, bounds=HUGEB),
  U('own.cpp', 'own_vmap', quick=dict(NI=4, NS=2), thorough=dict(NI=5, NS=3), bounds=OB))
P('P18', 500, 3000,
  U(M, 'smap_history smapg_history smap_probe smapg_probe smap_copy', quick=dict(NH=4, NK=4, NPRE=4), thorough=dict(NH=5, NK=6, NPRE=6), bounds='any initial capacity up to NPRE, any NH edits or NK insertions of arbitrary keys and values, any probe', reach=['sorted clear', 'sorted probe present', 'sorted probe absent', 'sorted insert present', 'sorted copy']),
  U(M, 'smap_big', quick=dict(BIG=16), thorough=dict(BIG=40), bounds='maps of up to BIG known keys, then arbitrary ones'),
  U(M, 'smap_big', dict(LARGE=1), quick=dict(BIG=66, NPRE=33), thorough=dict(BIG=100, NPRE=66), bounds='maps of sizes near powers of two up to BIG known keys in three orders, initial capacities likewise, an insertion of any key or any probe'),
  U(M, 'smap_history smap_probe smap_copy', dict(KT='Wide', VT='Wide'), quick=dict(NH=3, NK=4, NPRE=4), thorough=dict(NH=4, NK=5, NPRE=6), bounds='any NH edits or NK insertions, any probe' + WB),
  U(M, 'smap_history smap_probe smap_copy', dict(KT='Trk', VT='Trk', TRK=2), quick=dict(NH=3, NK=3, NPRE=4), thorough=dict(NH=4, NK=5, NPRE=6), bounds='any NH edits or NK insertions, any probe' + TB),
  U('huge.cpp', 'smap_huge', steps=60000000, quick=dict(), thorough=HUGET, bounds=HUGEB),
  U('truth.cpp', 't_smap', quick=dict(), thorough=dict(NL=5, NS=3), bounds=YB),
  U('own.cpp', 'own_smap', quick=dict(NI=4, NS=2), thorough=dict(NI=5, NS=3), bounds=OB))
P('P19', 600, 3000,
  U(B, 'bits_single bits_reading bits_count bits_zero', quick=dict(WIDTHS='W(1)W(7)W(33)W(63)W(64)W(65)W(100)W(192)'), thorough=dict(), bounds='every listed width (thorough: 1 2 7 31 32 33 63 64 65 100 128 130 192 256), all contents, every position (beyond 130 bits: those around word and half-word boundaries)'),
  U(B, 'bits_history', quick=dict(WIDTHS='W(1)W(33)W(64)W(65)'), thorough=dict(), bounds='NOPS edits of any bitset'),
  U(B, 'bits_count bits_single', quick=dict(WIDTHS='W(300)'), thorough=dict(WIDTHS='W(256)W(257)W(300)W(520)'), bounds='bitsets of more than 255 bits, all contents'),
  U('huge.cpp', 'bits_huge', steps=60000000, quick=dict(), thorough=dict(), bounds=HUGEB))
P('P20', 600, 3000,
  U(B, 'bits_logic bits_zero', quick=dict(WIDTHS='W(1)W(7)W(33)W(63)W(64)W(65)W(100)W(192)'), thorough=dict(), bounds='every listed width, all contents of both operands'),
  U(B, 'bits_shift', quick=dict(WIDTHS='W(1)W(7)W(33)W(63)W(64)W(65)W(100)W(256)', WIN=3), thorough=dict(), bounds='every shift amount up to beyond the width (beyond 130 bits: those around multiples of half a word); widths up to FULL with all contents, wider ones with WIN arbitrary bits at every place in fixed patterns'),
  U('huge.cpp', 'bits_huge', steps=60000000, quick=dict(), thorough=dict(), bounds=HUGEB))
P('P21', 600, 3000,
  U(B, 'bits_from_int bits0_from_int bits_from_string bits_convert bits_convert0', quick=dict(), thorough=dict(SLEN=7, STRW='W(1)W(2)W(3)W(31)W(64)W(65)W(66)W(130)'), bounds='any integer; strings up to SLEN characters longer than the width with arbitrary characters; every pair of the listed widths, all contents'),
  U('huge.cpp', 'bits_huge', steps=60000000, quick=dict(), thorough=dict(), bounds=HUGEB))
P('P22', 500, 3000,
  U(A, 's_find s_count s_quant s_adjacent s_search s_search_n s_equal s_mismatch s_for_each', quick=dict(NL=5, NS=3), thorough=dict(NL=7, NS=4), bounds='any ranges of up to NL elements (second range, pattern, repeat count: NS), any values and predicates'),
  U(A, 's_find s_count s_quant s_adjacent s_search_n s_equal s_mismatch s_for_each', dict(LARGE=1), quick=dict(NL=34, NS=9, WINL=3), thorough=dict(NL=66, NS=17, WINL=4), bounds='ranges of sizes near powers of two up to NL (NS) of known values with WINL arbitrary ones at every place'),
  U(A, 's_search', dict(LARGE=1), quick=dict(NL=34, NS=18, WINL=1), thorough=dict(NL=66, NS=34, WINL=2), bounds='ranges of sizes near powers of two up to NL (NS) of known values with WINL arbitrary ones at every place'),
  U(A, 's_find s_count s_quant s_adjacent s_search s_search_n s_equal s_mismatch s_for_each', dict(RAWPTR=1), quick=dict(NL=5, NS=3), thorough=dict(NL=6, NS=4), bounds='as above, through plain pointers (RAWPTR=2: reading through pointers to const)'),
  U(A, 's_find s_count s_quant s_adjacent s_search s_search_n s_equal s_mismatch s_for_each', dict(RAWPTR=2), quick=dict(NL=5, NS=3), thorough=dict(NL=6, NS=4), bounds='as above, through plain pointers (RAWPTR=2: reading through pointers to const)'),
  U('huge.cpp', 'find_huge', steps=60000000, quick=dict(), thorough=HUGET, bounds=HUGEB),
  U('mixed.cpp', 'x_search', quick=dict(), thorough=dict(NL=6, NS=3), bounds=XB, reach=['mixed found']),
  U('truth.cpp', 't_unary t_binary', quick=dict(), thorough=dict(NL=5, NS=3), bounds=YB))
P('P23', 500, 3000,
  U(A, 'm_copy m_overlap m_inplace m_swap_ranges m_lists m_numeric', quick=dict(NL=6, NS=3), thorough=dict(NL=8, NS=5), bounds='any ranges of up to NL elements, any values and predicates, guard elements around every range'),
  U(A, 'm_copy m_overlap m_inplace m_swap_ranges m_lists m_numeric', dict(LARGE=1), quick=dict(NL=34, NS=9, WINL=3), thorough=dict(NL=66, NS=17, WINL=4), bounds='ranges of sizes near powers of two up to NL (NS) of known values with WINL arbitrary ones at every place'),
  U(A, 'm_copy m_overlap m_inplace m_swap_ranges m_lists m_numeric', dict(RAWPTR=1), quick=dict(NL=5, NS=3), thorough=dict(NL=6, NS=4), bounds='as above, through plain pointers (RAWPTR=2: reading through pointers to const)'),
  U(A, 'm_copy m_overlap m_inplace m_swap_ranges m_lists m_numeric', dict(RAWPTR=2), quick=dict(NL=5, NS=3), thorough=dict(NL=6, NS=4), bounds='as above, through plain pointers (RAWPTR=2: reading through pointers to const)'),
  U('huge.cpp', 'copy_huge', steps=60000000, quick=dict(), thorough=HUGET, bounds=HUGEB),
  U('mixed.cpp', 'x_modify', quick=dict(), thorough=dict(NL=6, NS=3), bounds=XB),
  U('truth.cpp', 't_unary', quick=dict(), thorough=dict(NL=5, NS=3), bounds=YB))
P('P24', 500, 3000,
  U(A, 'b_search', quick=dict(NB=12), thorough=dict(NB=20), bounds='any sorted range of up to NB arbitrary values, any probe, both orders'),
  U(A, 'b_search_big', quick=dict(), thorough=dict(BIGN=90), bounds='sorted ranges of known values of 11 lengths from 13 to 65 (thorough: all lengths up to BIGN) without ties, with ties in threes or all equal, any probe'),
  U(A, 'b_search', dict(RAWPTR=1), quick=dict(NL=5, NS=3), thorough=dict(NL=6, NS=4), bounds='as above, through plain pointers (RAWPTR=2: reading through pointers to const)'),
  U(A, 'b_search', dict(RAWPTR=2), quick=dict(NL=5, NS=3), thorough=dict(NL=6, NS=4), bounds='as above, through plain pointers (RAWPTR=2: reading through pointers to const)'),
  U(A, 'b_search_huge', steps=60000000, quick=dict(), thorough=dict(HUGEN=100000, HUGED=16), bounds='sorted ranges of known values of lengths around 255, 32768 and 65536 (thorough also 100000), with and without ties, any probe near any of HUGED + 1 evenly spread places'),
  U(A, 'b_search_huge', dict(RAWPTR=2), steps=60000000, quick=dict(), thorough=dict(), bounds='as above, through pointers to const'),
  U('mixed.cpp', 'x_bound', quick=dict(), thorough=dict(NL=5), bounds=XB),
  U('truth.cpp', 't_order', quick=dict(), thorough=dict(NL=5, NS=3), bounds=YB))
P('P25', 500, 3000,
  U(A, 'o_merge o_sorted o_is_sorted o_minmax o_minmax_element o_min_element o_max_element', quick=dict(NL=5, NS=4), thorough=dict(NL=7, NS=5), bounds='any ranges of up to NL elements (NS for the second), any values'),
  U(A, 'o_sorted o_is_sorted o_minmax o_minmax_element o_min_element o_max_element', dict(LARGE=1), quick=dict(NL=34, NS=9, WINL=3), thorough=dict(NL=66, NS=17, WINL=4), bounds='ranges of sizes near powers of two up to NL (NS) of known values with WINL arbitrary ones at every place'),
  U(A, 'o_merge', dict(LARGE=1), quick=dict(NL=34, NS=18, WINL=1), thorough=dict(NL=66, NS=34, WINL=2), bounds='ranges of sizes near powers of two up to NL (NS) of known values with WINL arbitrary ones at every place'),
  U(A, 'o_merge o_sorted o_is_sorted o_minmax o_minmax_element o_min_element o_max_element', dict(RAWPTR=1), quick=dict(NL=5, NS=3), thorough=dict(NL=6, NS=4), bounds='as above, through plain pointers (RAWPTR=2: reading through pointers to const)'),
  U(A, 'o_merge o_sorted o_is_sorted o_minmax o_minmax_element o_min_element o_max_element', dict(RAWPTR=2), quick=dict(NL=5, NS=3), thorough=dict(NL=6, NS=4), bounds='as above, through plain pointers (RAWPTR=2: reading through pointers to const)'),
  U('huge.cpp', 'merge_huge find_huge', steps=60000000, quick=dict(), thorough=HUGET, bounds=HUGEB),
  U('mixed.cpp', 'x_merge x_extrema', quick=dict(), thorough=dict(NL=5), bounds=XB),
  U('truth.cpp', 't_order', quick=dict(), thorough=dict(NL=5, NS=3), bounds=YB))
P('P26', 600, 3000,
  U(V, 'vector_history vector_ctors vector_capacity vector_alias vector_copy vector_self_swap', TRK, quick=dict(NI=2, NS=2, NC=2), thorough=dict(NI=5, NS=3, NC=3), bounds=CASE + HIST + '; every construction, use and destruction tracked'),
  U(V, 'fixed_history fixed_ctors fixed_any_count fixed_alias fixed_copy fixed_self_swap', TRK, quick=dict(NI=2, NC=2, FN=3), thorough=dict(NI=5, NC=3, FN=5), bounds=CASE + HIST + '; every construction, use and destruction tracked'),
  U(V, 'vector_swap fixed_swap', TRK, quick=dict(NI=2, NC=1, NS=1, FN=3), thorough=dict(NI=4, NC=2, NS=2, FN=4), bounds='any two containers of up to NI elements'),
  U(V, 'vector_history fixed_history', dict(TRK, SYMARG=1), quick=dict(NI=2, NS=1, NC=1, FN=3), thorough=dict(NI=3, NS=2, NC=2, FN=4), bounds=SYM + HIST),
  U(M, 'vmap_history vmap_probe vmap_copy smap_history smap_probe smap_copy', dict(KT='Trk', VT='Trk', TRK=2), quick=dict(NH=3, NK=3), thorough=dict(NH=4, NK=5), bounds='any NH edits or NK insertions of arbitrary keys'),
  U(X, 'u_array_tracked', bounds='arrays of tracked elements'),
  U(V, 'vector_history vector_ctors vector_capacity fixed_history fixed_ctors', dict(LG, **TRK), quick=dict(NI=34, NC=18, NS=1, FN=32), thorough=dict(NI=66, NC=34, NS=9, FN=64), bounds=BIGS + 'one edit; lifetimes tracked'),
  U(V, 'vector_copy fixed_copy vector_swap fixed_swap', dict(LG, **TRK), quick=dict(NI=18, NC=2, NS=1, FN=16), thorough=dict(NI=34, NC=9, NS=2, FN=32), bounds=BIGS + 'one edit afterwards; lifetimes tracked'),
  U(M, 'vmap_big smap_big', dict(LARGE=1, KT='Trk', VT='Trk', TRK=2), quick=dict(BIG=18, NPRE=9), thorough=dict(BIG=34, NPRE=17), bounds='maps of up to BIG known keys, an arbitrary edit or probe'),
  U('own.cpp', 'own_vmap', quick=dict(NI=4, NS=2), thorough=dict(NI=5, NS=3), bounds=OB))
P('P27', 600, 3000,
  U(T, 'life_set life_map', quick=dict(NH=4), thorough=dict(NH=5), bounds='any NH operations on arbitrary keys'),
  U(T, 'life_set_big', quick=dict(BIG=12, NB=1), thorough=dict(BIG=24, NB=2, NPAT=6), bounds='sets of up to BIG keys, NB removals of arbitrary keys, copies'),
  U(L, 'list_history fwd_history back_history lazy_history', dict(TRK, SYMARG=1), quick=dict(NI=2, NC=1), thorough=dict(NI=3, NC=2), bounds=SYM + HIST),
  U(L, 'list_history fwd_history back_history lazy_history list_ctors fwd_ctors back_ctors lazy_ctors lazy_recycle list_recycle list_remove_own list_insert_own fwd_own back_own lazy_own node_self_swap', TRK, quick=dict(NI=4, NC=2), thorough=dict(NI=7, NC=4), bounds=CASE + HIST),
  U(L, 'list_splice_all list_splice_one list_splice_range list_merge list_merge_self list_unique list_remove list_reverse fwd_splice_one fwd_splice_range list_copy fwd_copy back_copy lazy_copy', TRK, quick=dict(NI=2, NC=2, NM=4), thorough=dict(NI=4, NC=2, NM=5), bounds='any lists of up to NI (NM) elements, one edit afterwards'),
  U(L, 'list_swap fwd_swap back_swap lazy_swap', TRK, quick=dict(NI=2, NC=0), thorough=dict(NI=3, NC=1), bounds='any two lists of up to NI elements, edits before and after'),
  U(L, 'list_history fwd_history back_history lazy_history list_ctors fwd_ctors back_ctors lazy_ctors lazy_recycle', dict(LG, **TRK), quick=dict(NI=34, NC=18), thorough=dict(NI=66, NC=34), bounds=BIGS + 'one edit; lifetimes tracked'),
  U(L, 'list_copy fwd_copy back_copy lazy_copy list_swap fwd_swap back_swap lazy_swap', dict(LG, **TRK), quick=dict(NI=18, NC=2), thorough=dict(NI=34, NC=9), bounds=BIGS + 'one edit afterwards; lifetimes tracked'),
  U('own.cpp', 'own_set own_map own_smap', quick=dict(NI=4, NS=2), thorough=dict(NI=5, NS=3), bounds=OB))
P('P28', 600, 3000,
  U(V, 'vector_swap fixed_swap', dict(SYMARG=1), quick=dict(NI=2, NC=1, NS=1, FN=3), thorough=dict(NI=4, NC=2, NS=2, FN=4), bounds=SYM + 'any two containers of up to NI elements, an edit afterwards'),
  U(L, 'list_swap fwd_swap back_swap lazy_swap node_self_swap', dict(SYMARG=1), quick=dict(NI=3, NC=2), thorough=dict(NI=5, NC=3), bounds=SYM + 'any two lists of up to NI elements, an edit afterwards'),
  U(V, 'vector_swap vector_self_swap', quick=dict(NI=3, NC=1, NS=1), thorough=dict(NI=5, NC=2, NS=2), bounds='any two vectors of up to NI elements, edits before and after'),
  U(V, 'fixed_swap fixed_self_swap', quick=dict(NI=3, NC=1, FN=3), thorough=dict(NI=5, NC=2, FN=5), bounds='any two fixed vectors of up to NI elements, edits before and after'),
  U(L, 'list_swap fwd_swap back_swap lazy_swap node_self_swap', quick=dict(NI=2, NC=1), thorough=dict(NI=3, NC=2), bounds='any two lists of up to NI elements, edits before and after'),
  U(X, 'u_swap u_pair u_array u_array_tracked', bounds='pairs and arrays of arbitrary values'),
  U(V, 'vector_swap fixed_swap', dict(LG), quick=dict(NI=66, NC=2, NS=1, FN=64), thorough=dict(NI=131, NC=9, NS=2, FN=128), bounds=BIGS + 'one edit afterwards'),
  U(L, 'list_swap fwd_swap back_swap lazy_swap', dict(LG), quick=dict(NI=66, NC=2), thorough=dict(NI=131, NC=9), bounds=BIGS + 'one edit afterwards'),
  U(V, 'vector_swap fixed_swap', WIDE, quick=dict(NI=2, NC=1, NS=1, FN=3), thorough=dict(NI=3, NC=2, NS=2, FN=4), bounds='any two containers of up to NI elements' + WB),
  U(L, 'list_swap fwd_swap back_swap lazy_swap', WIDE, quick=dict(NI=2, NC=0), thorough=dict(NI=3, NC=1), bounds='any two lists of up to NI elements' + WB),
  U(V, 'vector_swap fixed_swap vector_self_swap fixed_self_swap', TRK, quick=dict(NI=2, NC=1, NS=1, FN=3), thorough=dict(NI=3, NC=2, NS=2, FN=4), bounds='any two containers of up to NI elements' + TB),
  U(L, 'list_swap fwd_swap back_swap lazy_swap node_self_swap', TRK, quick=dict(NI=2, NC=0), thorough=dict(NI=3, NC=1), bounds='any two lists of up to NI elements' + TB),
  U('huge.cpp', 'swap_huge', steps=60000000, quick=dict(), thorough=HUGET, bounds=HUGEB))
P('P29', 600, 3000,
  U(V, 'vector_copy fixed_copy', dict(SYMARG=1), quick=dict(NI=2, NC=1, NS=1, FN=3), thorough=dict(NI=4, NC=2, NS=2, FN=4), bounds=SYM + 'any source and target of up to NI elements, an edit afterwards'),
  U(L, 'list_copy fwd_copy back_copy lazy_copy', dict(SYMARG=1), quick=dict(NI=3, NC=2), thorough=dict(NI=5, NC=3), bounds=SYM + 'any source and target of up to NI elements, an edit afterwards'),
  U(V, 'vector_copy vector_ctors', quick=dict(NI=3, NS=1, NC=1), thorough=dict(NI=5, NS=2, NC=3), bounds='any source of up to NI elements, any target, edits of both afterwards'),
  U(V, 'fixed_copy fixed_ctors', quick=dict(NI=3, NC=1, FN=3), thorough=dict(NI=5, NC=3, FN=5), bounds='any source of up to NI elements, any target, edits of both afterwards'),
  U(L, 'list_copy fwd_copy back_copy lazy_copy list_ctors fwd_ctors back_ctors lazy_ctors', quick=dict(NI=3, NC=1), thorough=dict(NI=4, NC=3), bounds='any source of up to NI elements, any target, edits of both afterwards'),
  U(M, 'vmap_copy smap_copy', quick=dict(NK=3), thorough=dict(NK=5), bounds='maps of up to NK arbitrary keys'),
  U(V, 'vector_copy fixed_copy', dict(LG), quick=dict(NI=66, NC=2, NS=1, FN=64), thorough=dict(NI=131, NC=9, NS=2, FN=128), bounds=BIGS + 'one edit afterwards'),
  U(L, 'list_copy fwd_copy back_copy lazy_copy', dict(LG), quick=dict(NI=66, NC=2), thorough=dict(NI=131, NC=9), bounds=BIGS + 'one edit afterwards'),
  U(V, 'vector_copy fixed_copy', WIDE, quick=dict(NI=2, NC=1, NS=1, FN=3), thorough=dict(NI=3, NC=2, NS=2, FN=4), bounds='any source and target of up to NI elements' + WB),
  U(L, 'list_copy fwd_copy back_copy lazy_copy', WIDE, quick=dict(NI=2, NC=1), thorough=dict(NI=3, NC=2), bounds='any source and target of up to NI elements' + WB),
  U(V, 'vector_copy fixed_copy', TRK, quick=dict(NI=2, NC=1, NS=1, FN=3), thorough=dict(NI=3, NC=2, NS=2, FN=4), bounds='any source and target of up to NI elements' + TB),
  U(L, 'list_copy fwd_copy back_copy lazy_copy', TRK, quick=dict(NI=2, NC=1), thorough=dict(NI=3, NC=2), bounds='any source and target of up to NI elements' + TB),
  U('huge.cpp', 'vector_huge fixed_huge list_huge', steps=60000000, quick=dict(), thorough=HUGET, bounds=HUGEB))
P('P30', 500, 3000,
  U(V, 'vector_equal fixed_equal', quick=dict(NI=6, FN=6), thorough=dict(NI=12, FN=12), bounds='any two containers of up to NI elements'),
  U(L, 'list_equal fwd_equal back_equal', quick=dict(NI=6), thorough=dict(NI=12), bounds='any two lists of up to NI elements'),
  U(T, 'set_equal map_equal mapg_equal', quick=dict(NK=3), thorough=dict(NK=4), bounds='any two of up to NK insertions and a removal', reach=['trees equal', 'trees differ']),
  U(B, 'bits_logic bits_zero', quick=dict(WIDTHS='W(1)W(33)W(64)W(65)'), thorough=dict(), bounds='every listed width, all contents of both operands'),
  U(X, 'u_pair u_equality u_array u_array_tracked', quick=dict(AN=6), thorough=dict(AN=12), bounds='pairs and arrays of up to AN arbitrary values', reach=['pairs equal', 'pairs differ', 'arrays equal']),
  U(V, 'vector_equal fixed_equal', dict(LG), quick=dict(NI=130, FN=130), thorough=dict(NI=260, FN=256), bounds='two containers of sizes near powers of two up to NI'),
  U(L, 'list_equal fwd_equal back_equal', dict(LG), quick=dict(NI=66), thorough=dict(NI=131), bounds='two lists of sizes near powers of two up to NI'),
  U(V, 'vector_equal fixed_equal', WIDE, quick=dict(NI=4, FN=5), thorough=dict(NI=8, FN=8), bounds='any two containers of up to NI elements' + WB),
  U(L, 'list_equal fwd_equal back_equal', WIDE, quick=dict(NI=4), thorough=dict(NI=8), bounds='any two lists of up to NI elements' + WB),
  U('huge.cpp', 'vector_huge list_huge set_huge', steps=60000000, quick=dict(), thorough=HUGET, bounds=HUGEB),
  U('huge.cpp', 'array_huge', steps=60000000, quick=dict(), thorough=dict(), bounds=HUGEB))
P('P31', 500, 3000,
  U(X, 'u_pair u_equality u_pair_tracked u_swap u_functional u_array u_array_tracked', quick=dict(AN=6), thorough=dict(AN=12), bounds='pairs and arrays of up to AN arbitrary values', reach=['pairs equal', 'pairs differ', 'arrays equal']),
  U(A, 'm_numeric', quick=dict(NL=8), thorough=dict(NL=16), bounds='sequences of up to NL elements from any start'),
  U('mixed.cpp', 'x_sum', quick=dict(), thorough=dict(NL=6, NS=3), bounds=XB),
  U('huge.cpp', 'array_huge', steps=60000000, quick=dict(), thorough=dict(), bounds=HUGEB))
K, G = 'stable.cpp', 'calls.cpp'
P('P33', 500, 3000,
  U(K, 'list_stable fwd_stable back_stable lazy_stable', quick=dict(NI=5, NC=3), thorough=dict(NI=8, NC=5), bounds='any two containers of up to NI elements, one edit of the first with counts up to NC, then one of the second; every other element watched', reach=['stable resize', 'stable swap', 'stable splice', 'stable merge', 'stable unique', 'stable roll', 'stable cleanup']),
  U(K, 'list_stable fwd_stable back_stable lazy_stable', dict(LARGE=1), quick=dict(NI=34, NC=34), thorough=dict(NI=66, NC=66), bounds='two containers of sizes near powers of two up to NI, known values, one edit with counts up to NC', steps=5000000),
  U(K, 'set_kept map_kept', quick=dict(NT=32), thorough=dict(NT=61), bounds='up to NT keys in three insertion orders, one insertion or removal of any key', reach=['stable erase']))
P('P34', 500, 3000,
  U(G, 'c_unary c_pairs c_neighbours c_values c_search c_order c_list c_copies', quick=dict(NL=7, NS=3), thorough=dict(NL=12, NS=4), bounds='ranges of up to NL+1 elements (second ones NS) of any values, any predicate on eight kinds of elements', reach=['calls find', 'calls remove', 'calls merge', 'calls list merge']),
  U(G, 'c_unary c_pairs c_neighbours c_values c_search c_order c_list c_copies', dict(LARGE=1), quick=dict(NL=66, NS=34), thorough=dict(NL=110, NS=66), bounds='ranges of sizes near powers of two up to NL+1 of known sorted values, any predicate', steps=5000000))
