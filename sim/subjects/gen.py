#!/usr/bin/env python3
"""Writes the one-line-per-subject translation units s_*.cpp (committed)."""
import os, sys
here = os.path.dirname(os.path.abspath(__file__))
S = "F_STABLE"; T = "F_TOLERANT"; N = "F_NLOGN"; N2 = "F_NLOG2N"; Q = "F_QUADRATIC"; B = "F_BUFFERED"; A="F_NOALLOC"; D="F_ADAPTER"
# name, type, add function, flags, include
sorters = [
 ("adaptive_shivers_sorter", "adaptive_shivers_sorter", "ra", [S,N], ["sorters/adaptive_shivers_sorter.h"]),
 ("cartesian_tree_sorter", "cartesian_tree_sorter", "fw", [N], ["sorters/cartesian_tree_sorter.h"]),
 ("d_ary_heap_sorter<2>", "d_ary_heap_sorter<2>", "ra", [T,A,N], ["sorters/d_ary_heap_sorter.h"]),
 ("d_ary_heap_sorter<3>", "d_ary_heap_sorter<3>", "ra", [T,A,N], ["sorters/d_ary_heap_sorter.h"]),
 ("d_ary_heap_sorter<7>", "d_ary_heap_sorter<7>", "ra", [T,A,N], ["sorters/d_ary_heap_sorter.h"]),
 ("drop_merge_sorter", "drop_merge_sorter", "bi", [N], ["sorters/drop_merge_sorter.h"]),
 ("grail_sorter<>", "grail_sorter<>", "ra", [S,T,A,N,B], ["sorters/grail_sorter.h"]),
 ("grail_sorter<fixed512>", "grail_sorter<utility::fixed_buffer<512>>", "ra", [S,T,A,N,B], ["sorters/grail_sorter.h"]),
 ("grail_sorter<sqrt>", "grail_sorter<utility::dynamic_buffer<utility::sqrt>>", "ra", [S,N,B], ["sorters/grail_sorter.h"]),
 ("heap_sorter", "heap_sorter", "ra", [T,A,N], ["sorters/heap_sorter.h"]),
 ("insertion_sorter", "insertion_sorter", "bi", [S,T,A,Q], ["sorters/insertion_sorter.h"]),
 ("mel_sorter", "mel_sorter", "fw", [N], ["sorters/mel_sorter.h"]),
 ("merge_insertion_sorter", "merge_insertion_sorter", "ra", [N], ["sorters/merge_insertion_sorter.h"]),
 ("merge_sorter", "merge_sorter", "fw", [S,T,N2], ["sorters/merge_sorter.h"]),
 ("pdq_sorter", "pdq_sorter", "ra", [T,N], ["sorters/pdq_sorter.h"]),
 ("poplar_sorter", "poplar_sorter", "ra", [N], ["sorters/poplar_sorter.h"]),
 ("quick_merge_sorter", "quick_merge_sorter", "fw", [T,N], ["sorters/quick_merge_sorter.h"]),
 ("quick_sorter", "quick_sorter", "fw", [T,N], ["sorters/quick_sorter.h"]),
 ("selection_sorter", "selection_sorter", "fw", [T,A,Q], ["sorters/selection_sorter.h"]),
 ("slab_sorter", "slab_sorter", "bi", [N], ["sorters/slab_sorter.h"]),
 ("smooth_sorter", "smooth_sorter", "ra", [T,A,N], ["sorters/smooth_sorter.h"]),
 ("spin_sorter", "spin_sorter", "ra", [S,N], ["sorters/spin_sorter.h"]),
 ("splay_sorter", "splay_sorter", "fw", [S,N], ["sorters/splay_sorter.h"]),
 ("split_sorter", "split_sorter", "ra", [T,N2], ["sorters/split_sorter.h"]),
 ("std_sorter", "std_sorter", "ra", [T], ["sorters/std_sorter.h"]),
 ("stable_adapter<std_sorter>", "stable_adapter<std_sorter>", "ra", [S,T,N2], ["sorters/std_sorter.h"]),
 ("tim_sorter", "tim_sorter", "ra", [S,N], ["sorters/tim_sorter.h"]),
 ("verge_sorter", "verge_sorter", "bi", [N2], ["sorters/verge_sorter.h"]),
 ("wiki_sorter<>", "wiki_sorter<>", "ra", [S,T,A,N,B], ["sorters/wiki_sorter.h"]),
 ("wiki_sorter<fixed0>", "wiki_sorter<utility::fixed_buffer<0>>", "ra", [S,T,A,N,B], ["sorters/wiki_sorter.h"]),
 ("wiki_sorter<half>", "wiki_sorter<utility::dynamic_buffer<utility::half>>", "ra", [S,N,B], ["sorters/wiki_sorter.h"]),
 ("wiki_sorter<sqrt>", "wiki_sorter<utility::dynamic_buffer<utility::sqrt>>", "ra", [S,N,B], ["sorters/wiki_sorter.h"]),
 # adapters over representative sorters
 ("stable<heap>", "stable_adapter<heap_sorter>", "ra", [S,N,D], ["sorters/heap_sorter.h"]),
 ("stable<pdq>", "stable_adapter<pdq_sorter>", "ra", [S,N,D], ["sorters/pdq_sorter.h"]),
 ("stable<quick>", "stable_adapter<quick_sorter>", "fw", [S,N,D], ["sorters/quick_sorter.h"]),
 ("stable<quick_merge>", "stable_adapter<quick_merge_sorter>", "fw", [S,N,D], ["sorters/quick_merge_sorter.h"]),
 ("stable<smooth>", "stable_adapter<smooth_sorter>", "ra", [S,N,D], ["sorters/smooth_sorter.h"]),
 ("stable<poplar>", "stable_adapter<poplar_sorter>", "ra", [S,N,D], ["sorters/poplar_sorter.h"]),
 ("stable<selection>", "stable_adapter<selection_sorter>", "fw", [S,Q,D], ["sorters/selection_sorter.h"]),
 ("stable<verge>", "stable_adapter<verge_sorter>", "bi", [S,N2,D], ["sorters/verge_sorter.h"]),
 ("stable<drop_merge>", "stable_adapter<drop_merge_sorter>", "bi", [S,N,D], ["sorters/drop_merge_sorter.h"]),
 ("stable<split>", "stable_adapter<split_sorter>", "bi", [S,N2,D], ["sorters/split_sorter.h"]),
 ("stable<merge_insertion>", "stable_adapter<merge_insertion_sorter>", "ra", [S,N,D], ["sorters/merge_insertion_sorter.h"]),
 ("stable<cartesian_tree>", "stable_adapter<cartesian_tree_sorter>", "fw", [S,N,D], ["sorters/cartesian_tree_sorter.h"]),
 ("stable<verge_adapter<heap>>", "stable_adapter<verge_adapter<heap_sorter>>", "ra", [S,N2,D], ["sorters/heap_sorter.h","adapters/verge_adapter.h"]),
 ("make_stable<merge>", "make_stable<merge_sorter>", "fw", [S,N2,D], ["sorters/merge_sorter.h"]),
 ("make_stable<d_ary_heap<4>>", "make_stable<d_ary_heap_sorter<4>>", "ra", [S,N,D], ["sorters/d_ary_heap_sorter.h"]),
 ("indirect<heap>", "indirect_adapter<heap_sorter>", "fw", ["F_INDIRECT",N,D], ["sorters/heap_sorter.h","adapters/indirect_adapter.h"]),
 ("indirect<quick>", "indirect_adapter<quick_sorter>", "fw", ["F_INDIRECT",N,D], ["sorters/quick_sorter.h","adapters/indirect_adapter.h"]),
 ("indirect<merge>", "indirect_adapter<merge_sorter>", "fw", [S,"F_INDIRECT",N2,D], ["sorters/merge_sorter.h","adapters/indirect_adapter.h"]),
 ("indirect<tim>", "indirect_adapter<tim_sorter>", "ra", [S,"F_INDIRECT",N,D], ["sorters/tim_sorter.h","adapters/indirect_adapter.h"]),
 ("indirect<pdq>", "indirect_adapter<pdq_sorter>", "ra", ["F_INDIRECT",N,D], ["sorters/pdq_sorter.h","adapters/indirect_adapter.h"]),
 ("indirect<spin>", "indirect_adapter<spin_sorter>", "ra", [S,"F_INDIRECT",N,D], ["sorters/spin_sorter.h","adapters/indirect_adapter.h"]),
 ("indirect<merge_insertion>", "indirect_adapter<merge_insertion_sorter>", "ra", ["F_INDIRECT",N,D], ["sorters/merge_insertion_sorter.h","adapters/indirect_adapter.h"]),
 ("schwartz<pdq>", "schwartz_adapter<pdq_sorter>", "ra!", ["F_ONEPROJ",N,D], ["sorters/pdq_sorter.h","adapters/schwartz_adapter.h"]),
 ("schwartz<merge>", "schwartz_adapter<merge_sorter>", "fw!", [S,"F_ONEPROJ",N2,D], ["sorters/merge_sorter.h","adapters/schwartz_adapter.h"]),
 ("schwartz<heap>", "schwartz_adapter<heap_sorter>", "ra!", ["F_ONEPROJ",N,D], ["sorters/heap_sorter.h","adapters/schwartz_adapter.h"]),
 ("schwartz<quick>", "schwartz_adapter<quick_sorter>", "fw!", ["F_ONEPROJ",N,D], ["sorters/quick_sorter.h","adapters/schwartz_adapter.h"]),
 ("schwartz<tim>", "schwartz_adapter<tim_sorter>", "ra!", [S,"F_ONEPROJ",N,D], ["sorters/tim_sorter.h","adapters/schwartz_adapter.h"]),
 ("schwartz<poplar>", "schwartz_adapter<poplar_sorter>", "ra!", ["F_ONEPROJ",N,D], ["sorters/poplar_sorter.h","adapters/schwartz_adapter.h"]),
 ("schwartz<insertion>", "schwartz_adapter<insertion_sorter>", "bi!", [S,Q,"F_ONEPROJ",D], ["sorters/insertion_sorter.h","adapters/schwartz_adapter.h"]),
 ("out_of_place<pdq>", "out_of_place_adapter<pdq_sorter>", "fw", [N,D], ["sorters/pdq_sorter.h","adapters/out_of_place_adapter.h"]),
 ("out_of_place<merge>", "out_of_place_adapter<merge_sorter>", "fw", [S,N2,D], ["sorters/merge_sorter.h","adapters/out_of_place_adapter.h"]),
 ("split<pdq>", "split_adapter<pdq_sorter>", "ra", [T,N2,D], ["sorters/pdq_sorter.h","adapters/split_adapter.h"]),
 ("split<quick_merge>", "split_adapter<quick_merge_sorter>", "bi", [T,N2,D], ["sorters/quick_merge_sorter.h","adapters/split_adapter.h"]),
 ("split<heap>", "split_adapter<heap_sorter>", "ra", [T,N2,D], ["sorters/heap_sorter.h","adapters/split_adapter.h"]),
 ("split<tim>", "split_adapter<tim_sorter>", "ra", [N2,D], ["sorters/tim_sorter.h","adapters/split_adapter.h"]),
 ("drop_merge<heap>", "drop_merge_adapter<heap_sorter>", "bi", [N,D], ["sorters/heap_sorter.h","adapters/drop_merge_adapter.h"]),
 ("drop_merge<spin>", "drop_merge_adapter<spin_sorter>", "bi", [N,D], ["sorters/spin_sorter.h","adapters/drop_merge_adapter.h"]),
 ("verge<heap>", "verge_adapter<heap_sorter>", "ra", [N2,D], ["sorters/heap_sorter.h","adapters/verge_adapter.h"]),
 ("verge<quick_merge>", "verge_adapter<quick_merge_sorter>", "bi", [N2,D], ["sorters/quick_merge_sorter.h","adapters/verge_adapter.h"]),
 ("counting<quick_merge>", "counting_adapter<quick_merge_sorter>", "fw", [T,N,D], ["sorters/quick_merge_sorter.h","adapters/counting_adapter.h"]),
 ("hybrid<merge,insertion,pdq>", "hybrid_adapter<merge_sorter,insertion_sorter,pdq_sorter>", "fw", [T,Q,D], ["sorters/merge_sorter.h","sorters/insertion_sorter.h","sorters/pdq_sorter.h","adapters/hybrid_adapter.h"]),
 ("stable<hybrid<quick,heap>>", "stable_adapter<hybrid_adapter<quick_sorter,heap_sorter>>", "fw", [S,N,D], ["sorters/quick_sorter.h","sorters/heap_sorter.h","adapters/hybrid_adapter.h"]),
 ("container_aware<merge>", "container_aware_adapter<merge_sorter>", "fw", [S,T,N2,D], ["sorters/merge_sorter.h","adapters/container_aware_adapter.h"]),
 ("self_sort<quick_merge>", "self_sort_adapter<quick_merge_sorter>", "fw", [T,N,D], ["sorters/quick_merge_sorter.h","adapters/self_sort_adapter.h"]),
 ("stable<schwartz<quick>>", "stable_adapter<schwartz_adapter<quick_sorter>>", "fw!", [S,N,D], ["sorters/quick_sorter.h","adapters/schwartz_adapter.h"]),
]
os.chdir(here)
for f in os.listdir("."):
    if f.startswith("s_"): os.unlink(f)
import re, zlib
for i,(name,ty,cat,fl,inc) in enumerate(sorters):
    oneproj = cat.endswith("!"); cat = cat.rstrip("!")
    fn = "s_" + re.sub(r"[^a-z0-9]+","_",name).strip("_") + ".cpp"
    fl = "|".join("sim::"+x for x in fl) or "0"
    incs = "".join(f"#include <cpp-sort/{x}>\n" for x in inc)
    if "stable" in ty or "stable" in name: incs += "#include <cpp-sort/adapters/stable_adapter.h>\n"
    if "buffer" in ty: incs += "#include <cpp-sort/utility/buffer.h>\n"
    body = f"sim::add_{cat}{'_p' if oneproj else ''}<{ty}>(\"{name}\", {fl});"
    open(fn,"w").write(f"#include \"../subjects.h\"\n{incs}using namespace cppsort;\nstatic const int reg = ({body[:-1]}, 0);\n")
