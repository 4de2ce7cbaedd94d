{"adaptive_shivers_sorter|pt", 892, 4170, 0, 13, 816},
{"adaptive_shivers_sorter|pt|e", 0, 0, 0, 13, 0},
{"adaptive_shivers_sorter|pt|equal", 1000, 0, 0, 0, 0},
{"adaptive_shivers_sorter|pt|equal|L", 1000, 0, 0, 0, 0},
{"adaptive_shivers_sorter|pt|equal|short", 1000, 0, 0, 0, 0},
{"adaptive_shivers_sorter|pt|equal|short|L", 1000, 0, 0, 0, 0},
{"adaptive_shivers_sorter|pt|p", 0, 0, 0, 5, 0},
{"adaptive_shivers_sorter|pt|reversed", 1000, 2500, 0, 0, 0},
{"adaptive_shivers_sorter|pt|reversed|L", 1000, 2500, 0, 0, 0},
{"adaptive_shivers_sorter|pt|reversed|short", 1000, 2500, 0, 0, 0},
{"adaptive_shivers_sorter|pt|reversed|short|L", 1000, 2500, 0, 0, 0},
{"adaptive_shivers_sorter|pt|runs", 4194, 9980, 0, 0, 0},
{"adaptive_shivers_sorter|pt|runs|L", 2559, 4850, 0, 0, 0},
{"adaptive_shivers_sorter|pt|sorted", 1000, 0, 0, 0, 0},
{"adaptive_shivers_sorter|pt|sorted|L", 1000, 0, 0, 0, 0},
{"adaptive_shivers_sorter|pt|sorted|short", 1000, 0, 0, 0, 0},
{"adaptive_shivers_sorter|pt|sorted|short|L", 1000, 0, 0, 0, 0},
{"adaptive_shivers_sorter|ra", 893, 4453, 9993, 14, 2320},
{"adaptive_shivers_sorter|ra|e", 0, 0, 0, 13, 0},
{"adaptive_shivers_sorter|ra|equal", 1000, 0, 2000, 0, 0},
{"adaptive_shivers_sorter|ra|equal|L", 1000, 0, 2000, 0, 0},
{"adaptive_shivers_sorter|ra|equal|short", 1000, 0, 2000, 0, 0},
{"adaptive_shivers_sorter|ra|equal|short|L", 1000, 0, 2000, 0, 0},
{"adaptive_shivers_sorter|ra|p", 0, 0, 0, 5, 0},
{"adaptive_shivers_sorter|ra|reversed", 1000, 2500, 3000, 0, 0},
{"adaptive_shivers_sorter|ra|reversed|L", 1000, 2500, 3000, 0, 0},
{"adaptive_shivers_sorter|ra|reversed|short", 1000, 2500, 3000, 0, 0},
{"adaptive_shivers_sorter|ra|reversed|short|L", 1000, 2500, 3000, 0, 0},
{"adaptive_shivers_sorter|ra|runs", 4788, 23874, 49826, 0, 0},
{"adaptive_shivers_sorter|ra|runs|L", 2496, 5311, 7011, 0, 0},
{"adaptive_shivers_sorter|ra|sorted", 1000, 0, 2000, 0, 0},
{"adaptive_shivers_sorter|ra|sorted|L", 1000, 0, 2000, 0, 0},
{"adaptive_shivers_sorter|ra|sorted|short", 1000, 0, 2000, 0, 0},
{"adaptive_shivers_sorter|ra|sorted|short|L", 1000, 0, 2000, 0, 0},
{"apply_permutation<heap>|ra", 1149, 245, 167, 8, 608},
{"apply_permutation<heap>|ra|e", 0, 0, 0, 8, 0},
{"apply_permutation<merge>|ra", 0, 0, 0, 14, 2704},
{"apply_permutation<merge>|ra|e", 0, 0, 0, 14, 0},
{"cartesian_tree_sorter|bi", 1415, 333, 500, 60, 608},
{"cartesian_tree_sorter|bi|e", 0, 0, 0, 60, 0},
{"cartesian_tree_sorter|bi|equal", 1000, 2000, 3000, 0, 0},
{"cartesian_tree_sorter|bi|equal|L", 1000, 2000, 3000, 0, 0},
{"cartesian_tree_sorter|bi|equal|short", 1000, 1000, 2000, 0, 0},
{"cartesian_tree_sorter|bi|equal|short|L", 1000, 1000, 2000, 0, 0},
{"cartesian_tree_sorter|bi|p", 0, 0, 0, 43, 0},
{"cartesian_tree_sorter|bi|reversed", 1000, 2000, 3000, 0, 0},
{"cartesian_tree_sorter|bi|reversed|L", 1000, 2000, 3000, 0, 0},
{"cartesian_tree_sorter|bi|reversed|short", 1000, 1000, 2000, 0, 0},
{"cartesian_tree_sorter|bi|reversed|short|L", 1000, 1000, 2000, 0, 0},
{"cartesian_tree_sorter|bi|sorted", 1000, 2000, 3000, 0, 0},
{"cartesian_tree_sorter|bi|sorted|L", 1000, 2000, 3000, 0, 0},
{"cartesian_tree_sorter|bi|sorted|short", 1000, 1000, 2000, 0, 0},
{"cartesian_tree_sorter|bi|sorted|short|L", 1000, 1000, 2000, 0, 0},
{"cartesian_tree_sorter|fw", 1576, 334, 500, 60, 960},
{"cartesian_tree_sorter|fw|e", 0, 0, 0, 60, 0},
{"cartesian_tree_sorter|fw|equal", 1000, 2000, 3000, 0, 0},
{"cartesian_tree_sorter|fw|equal|L", 1000, 2000, 3000, 0, 0},
{"cartesian_tree_sorter|fw|equal|short", 1000, 1000, 2000, 0, 0},
{"cartesian_tree_sorter|fw|equal|short|L", 1000, 1000, 2000, 0, 0},
{"cartesian_tree_sorter|fw|p", 0, 0, 0, 44, 0},
{"cartesian_tree_sorter|fw|reversed", 1000, 2000, 3000, 0, 0},
{"cartesian_tree_sorter|fw|reversed|L", 1000, 2000, 3000, 0, 0},
{"cartesian_tree_sorter|fw|reversed|short", 1000, 1000, 2000, 0, 0},
{"cartesian_tree_sorter|fw|reversed|short|L", 1000, 1000, 2000, 0, 0},
{"cartesian_tree_sorter|fw|sorted", 1000, 2000, 3000, 0, 0},
{"cartesian_tree_sorter|fw|sorted|L", 1000, 2000, 3000, 0, 0},
{"cartesian_tree_sorter|fw|sorted|short", 1000, 1000, 2000, 0, 0},
{"cartesian_tree_sorter|fw|sorted|short|L", 1000, 1000, 2000, 0, 0},
{"cartesian_tree_sorter|ra", 1418, 334, 334, 60, 544},
{"cartesian_tree_sorter|ra|e", 0, 0, 0, 60, 0},
{"cartesian_tree_sorter|ra|equal", 1000, 2000, 2000, 0, 0},
{"cartesian_tree_sorter|ra|equal|L", 1000, 2000, 2000, 0, 0},
{"cartesian_tree_sorter|ra|equal|short", 1000, 1000, 1000, 0, 0},
{"cartesian_tree_sorter|ra|equal|short|L", 1000, 1000, 1000, 0, 0},
{"cartesian_tree_sorter|ra|p", 0, 0, 0, 44, 0},
{"cartesian_tree_sorter|ra|reversed", 1000, 2000, 2000, 0, 0},
{"cartesian_tree_sorter|ra|reversed|L", 1000, 2000, 2000, 0, 0},
{"cartesian_tree_sorter|ra|reversed|short", 1000, 1000, 1000, 0, 0},
{"cartesian_tree_sorter|ra|reversed|short|L", 1000, 1000, 1000, 0, 0},
{"cartesian_tree_sorter|ra|sorted", 1000, 2000, 2000, 0, 0},
{"cartesian_tree_sorter|ra|sorted|L", 1000, 2000, 2000, 0, 0},
{"cartesian_tree_sorter|ra|sorted|short", 1000, 1000, 1000, 0, 0},
{"cartesian_tree_sorter|ra|sorted|short|L", 1000, 1000, 1000, 0, 0},
{"container_aware<merge>|bi", 3107, 3425, 6609, 18, 4448},
{"container_aware<merge>|bi|e", 0, 0, 0, 18, 0},
{"container_aware<merge>|bi|p", 0, 0, 0, 6, 0},
{"container_aware<merge>|bi|short", 463, 850, 1090, 0, 0},
{"container_aware<merge>|fw", 1332, 5036, 3401, 19, 4976},
{"container_aware<merge>|fw|e", 0, 0, 0, 19, 0},
{"container_aware<merge>|fw|p", 0, 0, 0, 7, 0},
{"container_aware<merge>|fw|short", 188, 1620, 1177, 0, 0},
{"container_aware<merge>|ra", 3046, 3357, 6257, 18, 5168},
{"container_aware<merge>|ra|e", 0, 0, 0, 18, 0},
{"container_aware<merge>|ra|p", 0, 0, 0, 6, 0},
{"container_aware<merge>|ra|short", 476, 822, 1015, 0, 0},
{"counting<pdq>|ra", 2028, 2571, 3863, 0, 7360},
{"counting<pdq>|ra|e", 0, 0, 0, 0, 0},
{"counting<pdq>|ra|p", 0, 0, 0, 0, 0},
{"counting<quick_merge>|bi", 4709, 5038, 8027, 0, 5392},
{"counting<quick_merge>|bi|e", 0, 0, 0, 0, 0},
{"counting<quick_merge>|bi|p", 0, 0, 0, 0, 0},
{"counting<quick_merge>|fw", 5384, 10315, 8910, 0, 4992},
{"counting<quick_merge>|fw|e", 0, 0, 0, 0, 0},
{"counting<quick_merge>|fw|p", 0, 0, 0, 0, 0},
{"counting<quick_merge>|ra", 2275, 4595, 3424, 0, 4512},
{"counting<quick_merge>|ra|e", 0, 0, 0, 0, 0},
{"counting<quick_merge>|ra|p", 0, 0, 0, 0, 0},
{"cppsort::sort|bi", 0, 0, 0, 0, 5888},
{"cppsort::sort|bi|e", 0, 0, 0, 0, 0},
{"cppsort::sort|fw", 0, 0, 0, 0, 14640},
{"cppsort::sort|fw|e", 0, 0, 0, 0, 0},
{"cppsort::sort|ra", 0, 0, 0, 0, 6000},
{"cppsort::sort|ra|e", 0, 0, 0, 0, 0},
{"cppsort::stable_sort|fw", 0, 0, 0, 19, 5152},
{"cppsort::stable_sort|fw|e", 0, 0, 0, 19, 0},
{"cppsort::stable_sort|ra", 0, 0, 0, 18, 5184},
{"cppsort::stable_sort|ra|e", 0, 0, 0, 18, 0},
{"d_ary_heap_sorter<2>|ra", 2477, 8764, 5304, 0, 976},
{"d_ary_heap_sorter<2>|ra|e", 0, 0, 0, 0, 0},
{"d_ary_heap_sorter<2>|ra|p", 0, 0, 0, 0, 0},
{"d_ary_heap_sorter<3>|ra", 2239, 6089, 4292, 0, 992},
{"d_ary_heap_sorter<3>|ra|e", 0, 0, 0, 0, 0},
{"d_ary_heap_sorter<3>|ra|p", 0, 0, 0, 0, 0},
{"d_ary_heap_sorter<5>|ra", 0, 0, 0, 0, 1344},
{"d_ary_heap_sorter<5>|ra|e", 0, 0, 0, 0, 0},
{"d_ary_heap_sorter<7>|ra", 2804, 4230, 4259, 0, 976},
{"d_ary_heap_sorter<7>|ra|e", 0, 0, 0, 0, 0},
{"d_ary_heap_sorter<7>|ra|p", 0, 0, 0, 0, 0},
{"default_sorter|bi", 0, 0, 0, 0, 7984},
{"default_sorter|bi|e", 0, 0, 0, 0, 0},
{"default_sorter|bi|p", 0, 0, 0, 0, 0},
{"default_sorter|fw", 0, 0, 0, 0, 9664},
{"default_sorter|fw|e", 0, 0, 0, 0, 0},
{"default_sorter|fw|p", 0, 0, 0, 0, 0},
{"default_sorter|ra", 0, 0, 0, 0, 5776},
{"default_sorter|ra|e", 0, 0, 0, 0, 0},
{"default_sorter|ra|p", 0, 0, 0, 0, 0},
{"drop_merge<heap>|bi", 2375, 4181, 4521, 72, 848},
{"drop_merge<heap>|bi|displaced", 2317, 2677, 6173, 0, 0},
{"drop_merge<heap>|bi|displaced|L", 2010, 2026, 6019, 0, 0},
{"drop_merge<heap>|bi|e", 0, 0, 0, 72, 0},
{"drop_merge<heap>|bi|equal", 1000, 0, 3000, 0, 0},
{"drop_merge<heap>|bi|equal|L", 1000, 0, 3000, 0, 0},
{"drop_merge<heap>|bi|p", 0, 0, 0, 24, 0},
{"drop_merge<heap>|bi|sorted", 1000, 0, 3000, 0, 0},
{"drop_merge<heap>|bi|sorted|L", 1000, 0, 3000, 0, 0},
{"drop_merge<heap>|ra", 2387, 4166, 4514, 72, 1168},
{"drop_merge<heap>|ra|displaced", 2302, 2714, 6273, 0, 0},
{"drop_merge<heap>|ra|displaced|L", 2012, 2030, 6016, 0, 0},
{"drop_merge<heap>|ra|e", 0, 0, 0, 72, 0},
{"drop_merge<heap>|ra|equal", 1000, 0, 3000, 0, 0},
{"drop_merge<heap>|ra|equal|L", 1000, 0, 3000, 0, 0},
{"drop_merge<heap>|ra|p", 0, 0, 0, 24, 0},
{"drop_merge<heap>|ra|sorted", 1000, 0, 3000, 0, 0},
{"drop_merge<heap>|ra|sorted|L", 1000, 0, 3000, 0, 0},
{"drop_merge<spin>|bi", 7033, 8912, 4521, 72, 1712},
{"drop_merge<spin>|bi|displaced", 2448, 3048, 6765, 0, 0},
{"drop_merge<spin>|bi|displaced|L", 2004, 2010, 6010, 0, 0},
{"drop_merge<spin>|bi|e", 0, 0, 0, 72, 0},
{"drop_merge<spin>|bi|equal", 1000, 0, 3000, 0, 0},
{"drop_merge<spin>|bi|equal|L", 1000, 0, 3000, 0, 0},
{"drop_merge<spin>|bi|p", 0, 0, 0, 24, 0},
{"drop_merge<spin>|bi|sorted", 1000, 0, 3000, 0, 0},
{"drop_merge<spin>|bi|sorted|L", 1000, 0, 3000, 0, 0},
{"drop_merge<spin>|ra", 7033, 8912, 4521, 72, 1584},
{"drop_merge<spin>|ra|displaced", 2295, 2780, 6721, 0, 0},
{"drop_merge<spin>|ra|displaced|L", 2009, 2012, 6015, 0, 0},
{"drop_merge<spin>|ra|e", 0, 0, 0, 72, 0},
{"drop_merge<spin>|ra|equal", 1000, 0, 3000, 0, 0},
{"drop_merge<spin>|ra|equal|L", 1000, 0, 3000, 0, 0},
{"drop_merge<spin>|ra|p", 0, 0, 0, 24, 0},
{"drop_merge<spin>|ra|sorted", 1000, 0, 3000, 0, 0},
{"drop_merge<spin>|ra|sorted|L", 1000, 0, 3000, 0, 0},
{"drop_merge_sorter|bi", 2644, 3593, 4521, 72, 3392},
{"drop_merge_sorter|bi|displaced", 2324, 2834, 6520, 0, 0},
{"drop_merge_sorter|bi|displaced|L", 2007, 2020, 6009, 0, 0},
{"drop_merge_sorter|bi|e", 0, 0, 0, 72, 0},
{"drop_merge_sorter|bi|equal", 1000, 0, 3000, 0, 0},
{"drop_merge_sorter|bi|equal|L", 1000, 0, 3000, 0, 0},
{"drop_merge_sorter|bi|p", 0, 0, 0, 24, 0},
{"drop_merge_sorter|bi|sorted", 1000, 0, 3000, 0, 0},
{"drop_merge_sorter|bi|sorted|L", 1000, 0, 3000, 0, 0},
{"drop_merge_sorter|pt", 2580, 3620, 0, 72, 2080},
{"drop_merge_sorter|pt|displaced", 2160, 2112, 0, 0, 0},
{"drop_merge_sorter|pt|displaced|L", 2003, 2010, 0, 0, 0},
{"drop_merge_sorter|pt|e", 0, 0, 0, 72, 0},
{"drop_merge_sorter|pt|equal", 1000, 0, 0, 0, 0},
{"drop_merge_sorter|pt|equal|L", 1000, 0, 0, 0, 0},
{"drop_merge_sorter|pt|p", 0, 0, 0, 24, 0},
{"drop_merge_sorter|pt|sorted", 1000, 0, 0, 0, 0},
{"drop_merge_sorter|pt|sorted|L", 1000, 0, 0, 0, 0},
{"drop_merge_sorter|ra", 2602, 3620, 4521, 72, 2768},
{"drop_merge_sorter|ra|displaced", 2096, 2288, 6266, 0, 0},
{"drop_merge_sorter|ra|displaced|L", 2004, 2014, 6006, 0, 0},
{"drop_merge_sorter|ra|e", 0, 0, 0, 72, 0},
{"drop_merge_sorter|ra|equal", 1000, 0, 3000, 0, 0},
{"drop_merge_sorter|ra|equal|L", 1000, 0, 3000, 0, 0},
{"drop_merge_sorter|ra|p", 0, 0, 0, 24, 0},
{"drop_merge_sorter|ra|sorted", 1000, 0, 3000, 0, 0},
{"drop_merge_sorter|ra|sorted|L", 1000, 0, 3000, 0, 0},
{"grail_sorter<>|pt", 2596, 12660, 0, 0, 976},
{"grail_sorter<>|pt|e", 0, 0, 0, 0, 0},
{"grail_sorter<>|pt|p", 0, 0, 0, 0, 0},
{"grail_sorter<>|ra", 2624, 12194, 6226, 0, 2368},
{"grail_sorter<>|ra|e", 0, 0, 0, 0, 0},
{"grail_sorter<>|ra|p", 0, 0, 0, 0, 0},
{"grail_sorter<fixed512>|ra", 2611, 9958, 6151, 0, 14400},
{"grail_sorter<fixed512>|ra|e", 0, 0, 0, 0, 0},
{"grail_sorter<fixed512>|ra|p", 0, 0, 0, 0, 0},
{"grail_sorter<simbuf>|ra", 0, 0, 0, 49, 2080},
{"grail_sorter<simbuf>|ra|e", 0, 0, 0, 48, 0},
{"grail_sorter<simbuf>|ra|p", 0, 0, 0, 15, 0},
{"grail_sorter<sqrt>|ra", 2592, 10635, 6400, 4, 2176},
{"grail_sorter<sqrt>|ra|e", 0, 0, 0, 1, 0},
{"grail_sorter<sqrt>|ra|p", 0, 0, 0, 1, 0},
{"heap_sorter|ra", 1176, 1500, 2875, 0, 976},
{"heap_sorter|ra|e", 0, 0, 0, 0, 0},
{"heap_sorter|ra|p", 0, 0, 0, 0, 0},
{"hybrid<merge,insertion,pdq>|bi", 0, 0, 0, 0, 464},
{"hybrid<merge,insertion,pdq>|fw", 0, 0, 0, 19, 3440},
{"hybrid<merge,insertion,pdq>|ra", 0, 0, 0, 0, 3904},
{"hybrid<quick,heap>|fw", 0, 0, 0, 0, 10496},
{"hybrid<quick,heap>|fw|e", 0, 0, 0, 0, 0},
{"hybrid<quick,heap>|ra", 0, 0, 0, 0, 1232},
{"hybrid<quick,heap>|ra|e", 0, 0, 0, 0, 0},
{"indirect<heap>|bi", 1143, 242, 334, 32, 1504},
{"indirect<heap>|bi|e", 0, 0, 0, 32, 0},
{"indirect<heap>|bi|p", 0, 0, 0, 32, 0},
{"indirect<heap>|fw", 1149, 232, 334, 32, 912},
{"indirect<heap>|fw|e", 0, 0, 0, 32, 0},
{"indirect<heap>|fw|p", 0, 0, 0, 32, 0},
{"indirect<heap>|ra", 1147, 245, 333, 25, 624},
{"indirect<heap>|ra|e", 0, 0, 0, 25, 0},
{"indirect<heap>|ra|p", 0, 0, 0, 25, 0},
{"indirect<merge>|bi", 2735, 232, 334, 56, 3072},
{"indirect<merge>|bi|e", 0, 0, 0, 56, 0},
{"indirect<merge>|bi|p", 0, 0, 0, 56, 0},
{"indirect<merge>|bi|short", 349, 27, 44, 0, 0},
{"indirect<merge>|fw", 2984, 217, 334, 56, 3296},
{"indirect<merge>|fw|e", 0, 0, 0, 56, 0},
{"indirect<merge>|fw|p", 0, 0, 0, 56, 0},
{"indirect<merge>|fw|short", 290, 28, 55, 0, 0},
{"indirect<merge>|ra", 3046, 232, 334, 42, 2368},
{"indirect<merge>|ra|e", 0, 0, 0, 42, 0},
{"indirect<merge>|ra|p", 0, 0, 0, 42, 0},
{"indirect<merge>|ra|short", 335, 26, 51, 0, 0},
{"indirect<merge_insertion>|ra", 886, 244, 334, 84, 4048},
{"indirect<merge_insertion>|ra|e", 0, 0, 0, 84, 0},
{"indirect<merge_insertion>|ra|p", 0, 0, 0, 84, 0},
{"indirect<pdq>|ra", 2029, 237, 334, 25, 2352},
{"indirect<pdq>|ra|e", 0, 0, 0, 25, 0},
{"indirect<pdq>|ra|p", 0, 0, 0, 25, 0},
{"indirect<quick>|bi", 7188, 232, 334, 32, 7328},
{"indirect<quick>|bi|e", 0, 0, 0, 32, 0},
{"indirect<quick>|bi|p", 0, 0, 0, 32, 0},
{"indirect<quick>|fw", 7157, 239, 334, 32, 7168},
{"indirect<quick>|fw|e", 0, 0, 0, 32, 0},
{"indirect<quick>|fw|p", 0, 0, 0, 32, 0},
{"indirect<quick>|pt", 0, 0, 0, 9, 2096},
{"indirect<quick>|pt|e", 0, 0, 0, 9, 0},
{"indirect<quick>|pt|p", 0, 0, 0, 9, 0},
{"indirect<quick>|ra", 7152, 247, 333, 25, 5808},
{"indirect<quick>|ra|e", 0, 0, 0, 25, 0},
{"indirect<quick>|ra|p", 0, 0, 0, 25, 0},
{"indirect<spin>|ra", 5680, 247, 334, 37, 1616},
{"indirect<spin>|ra|e", 0, 0, 0, 37, 0},
{"indirect<spin>|ra|p", 0, 0, 0, 37, 0},
{"indirect<tim>|ra", 892, 247, 334, 37, 1024},
{"indirect<tim>|ra|e", 0, 0, 0, 37, 0},
{"indirect<tim>|ra|p", 0, 0, 0, 37, 0},
{"insertion_sorter|bi", 0, 0, 0, 0, 592},
{"insertion_sorter|bi|displaced", 3992, 4988, 7984, 0, 0},
{"insertion_sorter|bi|displaced|L", 3998, 4998, 7997, 0, 0},
{"insertion_sorter|bi|equal", 1000, 0, 2000, 0, 0},
{"insertion_sorter|bi|equal|L", 1000, 0, 2000, 0, 0},
{"insertion_sorter|bi|sorted", 1000, 0, 2000, 0, 0},
{"insertion_sorter|bi|sorted|L", 1000, 0, 2000, 0, 0},
{"insertion_sorter|ra", 0, 0, 0, 0, 448},
{"insertion_sorter|ra|displaced", 3994, 4992, 7988, 0, 0},
{"insertion_sorter|ra|displaced|L", 3999, 4982, 7998, 0, 0},
{"insertion_sorter|ra|equal", 1000, 0, 2000, 0, 0},
{"insertion_sorter|ra|equal|L", 1000, 0, 2000, 0, 0},
{"insertion_sorter|ra|sorted", 1000, 0, 2000, 0, 0},
{"insertion_sorter|ra|sorted|L", 1000, 0, 2000, 0, 0},
{"list<insertion>|fl", 0, 0, 0, 0, 384},
{"list<insertion>|fl|equal", 1000, 0, 0, 0, 0},
{"list<insertion>|fl|equal|L", 1000, 0, 0, 0, 0},
{"list<insertion>|fl|sorted", 1000, 0, 0, 0, 0},
{"list<insertion>|fl|sorted|L", 1000, 0, 0, 0, 0},
{"list<insertion>|li", 0, 0, 0, 0, 528},
{"list<insertion>|li|equal", 1000, 0, 0, 0, 0},
{"list<insertion>|li|equal|L", 1000, 0, 0, 0, 0},
{"list<insertion>|li|sorted", 1000, 0, 0, 0, 0},
{"list<insertion>|li|sorted|L", 1000, 0, 0, 0, 0},
{"list<mel>|fl", 1492, 0, 0, 10, 560},
{"list<mel>|fl|e", 0, 0, 0, 3, 0},
{"list<mel>|fl|encroaching", 3077, 0, 0, 0, 0},
{"list<mel>|fl|encroaching|L", 3028, 0, 0, 0, 0},
{"list<mel>|fl|equal", 1000, 0, 0, 0, 0},
{"list<mel>|fl|equal|L", 1000, 0, 0, 0, 0},
{"list<mel>|fl|equal|short", 0, 0, 0, 0, 0},
{"list<mel>|fl|equal|short|L", 0, 0, 0, 0, 0},
{"list<mel>|fl|reversed", 2000, 0, 0, 0, 0},
{"list<mel>|fl|reversed|L", 2000, 0, 0, 0, 0},
{"list<mel>|fl|reversed|short", 0, 0, 0, 0, 0},
{"list<mel>|fl|reversed|short|L", 0, 0, 0, 0, 0},
{"list<mel>|fl|sorted", 1000, 0, 0, 0, 0},
{"list<mel>|fl|sorted|L", 1000, 0, 0, 0, 0},
{"list<mel>|fl|sorted|short", 0, 0, 0, 0, 0},
{"list<mel>|fl|sorted|short|L", 0, 0, 0, 0, 0},
{"list<mel>|li", 1494, 0, 0, 12, 576},
{"list<mel>|li|e", 0, 0, 0, 3, 0},
{"list<mel>|li|encroaching", 3032, 0, 0, 0, 0},
{"list<mel>|li|encroaching|L", 3023, 0, 0, 0, 0},
{"list<mel>|li|equal", 1000, 0, 0, 0, 0},
{"list<mel>|li|equal|L", 1000, 0, 0, 0, 0},
{"list<mel>|li|equal|short", 0, 0, 0, 0, 0},
{"list<mel>|li|equal|short|L", 0, 0, 0, 0, 0},
{"list<mel>|li|reversed", 2000, 0, 0, 0, 0},
{"list<mel>|li|reversed|L", 2000, 0, 0, 0, 0},
{"list<mel>|li|reversed|short", 0, 0, 0, 0, 0},
{"list<mel>|li|reversed|short|L", 0, 0, 0, 0, 0},
{"list<mel>|li|sorted", 1000, 0, 0, 0, 0},
{"list<mel>|li|sorted|L", 1000, 0, 0, 0, 0},
{"list<mel>|li|sorted|short", 0, 0, 0, 0, 0},
{"list<mel>|li|sorted|short|L", 0, 0, 0, 0, 0},
{"list<merge>|fl", 921, 0, 0, 0, 2624},
{"list<merge>|fl|e", 0, 0, 0, 0, 0},
{"list<merge>|li", 921, 0, 0, 0, 2464},
{"list<merge>|li|e", 0, 0, 0, 0, 0},
{"list<selection>|fl", 0, 0, 0, 0, 176},
{"list<selection>|li", 0, 0, 0, 0, 480},
{"list<self_sort>|li", 0, 0, 0, 0, 80},
{"list<self_sort>|li|e", 0, 0, 0, 0, 0},
{"list_generic<merge>|fl", 1299, 4376, 0, 19, 2496},
{"list_generic<merge>|fl|e", 0, 0, 0, 19, 0},
{"list_generic<merge>|fl|short", 197, 1525, 0, 0, 0},
{"list_generic<merge>|li", 2684, 3086, 0, 18, 2464},
{"list_generic<merge>|li|e", 0, 0, 0, 18, 0},
{"list_generic<merge>|li|short", 363, 848, 0, 0, 0},
{"list_generic<quick_merge>|fl", 5376, 10204, 0, 0, 1136},
{"list_generic<quick_merge>|fl|e", 0, 0, 0, 0, 0},
{"list_generic<quick_merge>|li", 4677, 5038, 0, 0, 1232},
{"list_generic<quick_merge>|li|e", 0, 0, 0, 0, 0},
{"make_stable<d_ary_heap<4>>|ra", 4238, 5112, 167, 32, 464},
{"make_stable<d_ary_heap<4>>|ra|e", 0, 0, 0, 32, 0},
{"make_stable<d_ary_heap<4>>|ra|p", 0, 0, 0, 32, 0},
{"make_stable<merge>|bi", 3260, 6369, 334, 56, 3408},
{"make_stable<merge>|bi|e", 0, 0, 0, 56, 0},
{"make_stable<merge>|bi|p", 0, 0, 0, 44, 0},
{"make_stable<merge>|bi|short", 353, 884, 45, 0, 0},
{"make_stable<merge>|fw", 3260, 6369, 333, 56, 3312},
{"make_stable<merge>|fw|e", 0, 0, 0, 56, 0},
{"make_stable<merge>|fw|p", 0, 0, 0, 44, 0},
{"make_stable<merge>|fw|short", 458, 984, 56, 0, 0},
{"make_stable<merge>|ra", 3052, 6495, 167, 56, 3376},
{"make_stable<merge>|ra|e", 0, 0, 0, 56, 0},
{"make_stable<merge>|ra|p", 0, 0, 0, 44, 0},
{"make_stable<merge>|ra|short", 363, 897, 26, 0, 0},
{"mel_sorter|bi", 1305, 334, 503, 70, 1088},
{"mel_sorter|bi|e", 0, 0, 0, 69, 0},
{"mel_sorter|bi|encroaching", 3077, 2000, 3016, 0, 0},
{"mel_sorter|bi|encroaching|L", 3037, 2000, 3001, 0, 0},
{"mel_sorter|bi|equal", 1000, 2000, 3016, 0, 0},
{"mel_sorter|bi|equal|L", 1000, 2000, 3001, 0, 0},
{"mel_sorter|bi|equal|short", 0, 0, 1011, 0, 0},
{"mel_sorter|bi|equal|short|L", 0, 0, 1001, 0, 0},
{"mel_sorter|bi|p", 0, 0, 0, 53, 0},
{"mel_sorter|bi|reversed", 2000, 2000, 3015, 0, 0},
{"mel_sorter|bi|reversed|L", 2000, 2000, 3001, 0, 0},
{"mel_sorter|bi|reversed|short", 0, 0, 1015, 0, 0},
{"mel_sorter|bi|reversed|short|L", 0, 0, 1001, 0, 0},
{"mel_sorter|bi|sorted", 1000, 2000, 3016, 0, 0},
{"mel_sorter|bi|sorted|L", 1000, 2000, 3001, 0, 0},
{"mel_sorter|bi|sorted|short", 0, 0, 1016, 0, 0},
{"mel_sorter|bi|sorted|short|L", 0, 0, 1001, 0, 0},
{"mel_sorter|fw", 1291, 334, 503, 71, 1312},
{"mel_sorter|fw|e", 0, 0, 0, 69, 0},
{"mel_sorter|fw|encroaching", 3109, 2000, 3016, 0, 0},
{"mel_sorter|fw|encroaching|L", 3047, 2000, 3001, 0, 0},
{"mel_sorter|fw|equal", 1000, 2000, 3016, 0, 0},
{"mel_sorter|fw|equal|L", 1000, 2000, 3001, 0, 0},
{"mel_sorter|fw|equal|short", 0, 0, 1016, 0, 0},
{"mel_sorter|fw|equal|short|L", 0, 0, 1001, 0, 0},
{"mel_sorter|fw|p", 0, 0, 0, 53, 0},
{"mel_sorter|fw|reversed", 2000, 2000, 3016, 0, 0},
{"mel_sorter|fw|reversed|L", 2000, 2000, 3001, 0, 0},
{"mel_sorter|fw|reversed|short", 0, 0, 1016, 0, 0},
{"mel_sorter|fw|reversed|short|L", 0, 0, 1001, 0, 0},
{"mel_sorter|fw|sorted", 1000, 2000, 3016, 0, 0},
{"mel_sorter|fw|sorted|L", 1000, 2000, 3001, 0, 0},
{"mel_sorter|fw|sorted|short", 0, 0, 1016, 0, 0},
{"mel_sorter|fw|sorted|short|L", 0, 0, 1001, 0, 0},
{"mel_sorter|ra", 1296, 334, 336, 70, 1024},
{"mel_sorter|ra|e", 0, 0, 0, 69, 0},
{"mel_sorter|ra|encroaching", 3154, 2000, 2016, 0, 0},
{"mel_sorter|ra|encroaching|L", 3013, 2000, 2001, 0, 0},
{"mel_sorter|ra|equal", 1000, 2000, 2015, 0, 0},
{"mel_sorter|ra|equal|L", 1000, 2000, 2001, 0, 0},
{"mel_sorter|ra|equal|short", 0, 0, 13, 0, 0},
{"mel_sorter|ra|equal|short|L", 0, 0, 1, 0, 0},
{"mel_sorter|ra|p", 0, 0, 0, 54, 0},
{"mel_sorter|ra|reversed", 2000, 2000, 2015, 0, 0},
{"mel_sorter|ra|reversed|L", 2000, 2000, 2001, 0, 0},
{"mel_sorter|ra|reversed|short", 0, 0, 16, 0, 0},
{"mel_sorter|ra|reversed|short|L", 0, 0, 1, 0, 0},
{"mel_sorter|ra|sorted", 1000, 2000, 2012, 0, 0},
{"mel_sorter|ra|sorted|L", 1000, 2000, 2001, 0, 0},
{"mel_sorter|ra|sorted|short", 0, 0, 15, 0, 0},
{"mel_sorter|ra|sorted|short|L", 0, 0, 1, 0, 0},
{"merge_insertion_sorter|pt", 0, 0, 0, 60, 3136},
{"merge_insertion_sorter|pt|e", 0, 0, 0, 60, 0},
{"merge_insertion_sorter|pt|p", 0, 0, 0, 44, 0},
{"merge_insertion_sorter|ra", 887, 4500, 5584, 76, 5248},
{"merge_insertion_sorter|ra|e", 0, 0, 0, 76, 0},
{"merge_insertion_sorter|ra|p", 0, 0, 0, 60, 0},
{"merge_sorter|bi", 3107, 3454, 6609, 18, 5152},
{"merge_sorter|bi|e", 0, 0, 0, 18, 0},
{"merge_sorter|bi|p", 0, 0, 0, 6, 0},
{"merge_sorter|bi|short", 493, 911, 1214, 0, 0},
{"merge_sorter|fw", 1344, 5072, 3412, 19, 6128},
{"merge_sorter|fw|e", 0, 0, 0, 19, 0},
{"merge_sorter|fw|p", 0, 0, 0, 7, 0},
{"merge_sorter|fw|short", 201, 1627, 1188, 0, 0},
{"merge_sorter|pt", 3107, 3542, 0, 18, 2272},
{"merge_sorter|pt|e", 0, 0, 0, 18, 0},
{"merge_sorter|pt|p", 0, 0, 0, 6, 0},
{"merge_sorter|pt|short", 479, 761, 0, 0, 0},
{"merge_sorter|ra", 3107, 3542, 6472, 18, 5888},
{"merge_sorter|ra|e", 0, 0, 0, 18, 0},
{"merge_sorter|ra|p", 0, 0, 0, 6, 0},
{"merge_sorter|ra|short", 472, 854, 1032, 0, 0},
{"out_of_place<merge>|bi", 3078, 3388, 500, 42, 2608},
{"out_of_place<merge>|bi|e", 0, 0, 0, 42, 0},
{"out_of_place<merge>|bi|p", 0, 0, 0, 14, 0},
{"out_of_place<merge>|bi|short", 353, 818, 83, 0, 0},
{"out_of_place<merge>|fw", 2725, 3473, 497, 42, 2640},
{"out_of_place<merge>|fw|e", 0, 0, 0, 42, 0},
{"out_of_place<merge>|fw|p", 0, 0, 0, 14, 0},
{"out_of_place<merge>|fw|short", 336, 866, 76, 0, 0},
{"out_of_place<merge>|ra", 3046, 3678, 334, 42, 2560},
{"out_of_place<merge>|ra|e", 0, 0, 0, 42, 0},
{"out_of_place<merge>|ra|p", 0, 0, 0, 14, 0},
{"out_of_place<merge>|ra|short", 372, 751, 56, 0, 0},
{"out_of_place<pdq>|bi", 2029, 1880, 500, 24, 2432},
{"out_of_place<pdq>|bi|e", 0, 0, 0, 24, 0},
{"out_of_place<pdq>|bi|p", 0, 0, 0, 8, 0},
{"out_of_place<pdq>|fw", 2030, 1888, 500, 24, 3344},
{"out_of_place<pdq>|fw|e", 0, 0, 0, 24, 0},
{"out_of_place<pdq>|fw|p", 0, 0, 0, 8, 0},
{"out_of_place<pdq>|pt", 2030, 1889, 0, 24, 2272},
{"out_of_place<pdq>|pt|e", 0, 0, 0, 24, 0},
{"out_of_place<pdq>|pt|p", 0, 0, 0, 8, 0},
{"out_of_place<pdq>|ra", 2030, 2239, 334, 24, 2368},
{"out_of_place<pdq>|ra|e", 0, 0, 0, 24, 0},
{"out_of_place<pdq>|ra|p", 0, 0, 0, 8, 0},
{"pdq_sorter|pt", 2030, 1582, 0, 0, 2304},
{"pdq_sorter|pt|e", 0, 0, 0, 0, 0},
{"pdq_sorter|pt|equal", 2185, 354, 0, 0, 0},
{"pdq_sorter|pt|equal|L", 2010, 19, 0, 0, 0},
{"pdq_sorter|pt|p", 0, 0, 0, 0, 0},
{"pdq_sorter|pt|reversed", 3124, 3054, 0, 0, 0},
{"pdq_sorter|pt|reversed|L", 3013, 2533, 0, 0, 0},
{"pdq_sorter|pt|strictly_sorted", 2077, 120, 0, 0, 0},
{"pdq_sorter|pt|strictly_sorted|L", 2004, 4, 0, 0, 0},
{"pdq_sorter|ra", 2031, 2580, 3870, 0, 7488},
{"pdq_sorter|ra|e", 0, 0, 0, 0, 0},
{"pdq_sorter|ra|equal", 2185, 352, 2324, 0, 0},
{"pdq_sorter|ra|equal|L", 2010, 19, 2017, 0, 0},
{"pdq_sorter|ra|p", 0, 0, 0, 0, 0},
{"pdq_sorter|ra|reversed", 5008, 3772, 7961, 0, 0},
{"pdq_sorter|ra|reversed|L", 4102, 2604, 6194, 0, 0},
{"pdq_sorter|ra|strictly_sorted", 2078, 126, 3101, 0, 0},
{"pdq_sorter|ra|strictly_sorted|L", 2004, 4, 3006, 0, 0},
{"poplar_sorter|ra", 2423, 2760, 4626, 7, 2656},
{"poplar_sorter|ra|e", 0, 0, 0, 1, 0},
{"poplar_sorter|ra|p", 0, 0, 0, 1, 0},
{"probe::block|bi|m", 2141, 0, 489, 24000, 0},
{"probe::block|bi|mp", 2139, 3316, 491, 24000, 0},
{"probe::block|bi|mp|L", 2167, 3348, 300, 24000, 0},
{"probe::block|bi|m|L", 2169, 0, 300, 24000, 0},
{"probe::block|fw|m", 2132, 0, 488, 24000, 0},
{"probe::block|fw|mp", 2137, 3313, 498, 24000, 0},
{"probe::block|fw|mp|L", 2171, 3349, 298, 24000, 0},
{"probe::block|fw|m|L", 2165, 0, 300, 24000, 0},
{"probe::block|ra|m", 2140, 0, 328, 24000, 0},
{"probe::block|ra|mp", 2133, 3311, 326, 24000, 0},
{"probe::block|ra|mp|L", 2166, 3347, 200, 24000, 0},
{"probe::block|ra|m|L", 2170, 0, 200, 24000, 0},
{"probe::dis|bi|m", 4862, 0, 3000, 24000, 0},
{"probe::dis|bi|mp", 4535, 9070, 3000, 24000, 0},
{"probe::dis|bi|mp|L", 4594, 9187, 3000, 24000, 0},
{"probe::dis|bi|mp|short", 1959, 3918, 2244, 0, 0},
{"probe::dis|bi|mp|short|L", 1999, 3997, 2188, 0, 0},
{"probe::dis|bi|m|L", 4624, 0, 3000, 24000, 0},
{"probe::dis|bi|m|short", 1993, 0, 2312, 0, 0},
{"probe::dis|bi|m|short|L", 2000, 0, 2200, 0, 0},
{"probe::dis|fw|m", 1988, 0, 2318, 0, 0},
{"probe::dis|fw|mp", 1979, 3957, 2263, 0, 0},
{"probe::dis|fw|mp|L", 1998, 3996, 2198, 0, 0},
{"probe::dis|fw|m|L", 1999, 0, 2194, 0, 0},
{"probe::dis|ra|m", 4625, 0, 2000, 24000, 0},
{"probe::dis|ra|mp", 4534, 9067, 2000, 24000, 0},
{"probe::dis|ra|mp|L", 4487, 8974, 2000, 24000, 0},
{"probe::dis|ra|mp|short", 1991, 3982, 1995, 0, 0},
{"probe::dis|ra|mp|short|L", 1997, 3994, 1998, 0, 0},
{"probe::dis|ra|m|L", 4607, 0, 2000, 24000, 0},
{"probe::dis|ra|m|short", 1992, 0, 2001, 0, 0},
{"probe::dis|ra|m|short|L", 1998, 0, 1998, 0, 0},
{"probe::enc|bi|m", 643, 0, 169, 42276, 0},
{"probe::enc|bi|mp", 639, 756, 163, 41282, 0},
{"probe::enc|bi|mp|L", 643, 736, 100, 43129, 0},
{"probe::enc|bi|m|L", 643, 0, 101, 43562, 0},
{"probe::enc|fw|m", 643, 0, 168, 42866, 0},
{"probe::enc|fw|mp", 641, 786, 163, 41467, 0},
{"probe::enc|fw|mp|L", 643, 737, 101, 41561, 0},
{"probe::enc|fw|m|L", 643, 0, 101, 42324, 0},
{"probe::enc|ra|m", 641, 0, 169, 42276, 0},
{"probe::enc|ra|mp", 639, 786, 166, 42618, 0},
{"probe::enc|ra|mp|L", 643, 730, 100, 40577, 0},
{"probe::enc|ra|m|L", 643, 0, 100, 43294, 0},
{"probe::exc|bi|m", 2123, 0, 495, 32239, 0},
{"probe::exc|bi|mp", 2105, 3256, 475, 32200, 0},
{"probe::exc|bi|mp|L", 2151, 3308, 300, 32133, 0},
{"probe::exc|bi|m|L", 2143, 0, 300, 32132, 0},
{"probe::exc|fw|m", 2109, 0, 499, 32247, 0},
{"probe::exc|fw|mp", 2090, 3246, 500, 32217, 0},
{"probe::exc|fw|mp|L", 2147, 3305, 300, 32132, 0},
{"probe::exc|fw|m|L", 2148, 0, 300, 32133, 0},
{"probe::exc|ra|m", 2101, 0, 333, 32247, 0},
{"probe::exc|ra|mp", 2112, 3261, 334, 32223, 0},
{"probe::exc|ra|mp|L", 2150, 3306, 200, 32132, 0},
{"probe::exc|ra|m|L", 2149, 0, 200, 32133, 0},
{"probe::ham|bi|m", 2150, 0, 497, 24000, 0},
{"probe::ham|bi|mp", 2146, 3337, 499, 24000, 0},
{"probe::ham|bi|mp|L", 2184, 3379, 300, 24000, 0},
{"probe::ham|bi|m|L", 2186, 0, 300, 24000, 0},
{"probe::ham|fw|m", 2143, 0, 499, 24000, 0},
{"probe::ham|fw|mp", 2146, 3340, 499, 24000, 0},
{"probe::ham|fw|mp|L", 2184, 3379, 300, 24000, 0},
{"probe::ham|fw|m|L", 2179, 0, 300, 24000, 0},
{"probe::ham|ra|m", 2151, 0, 334, 24000, 0},
{"probe::ham|ra|mp", 2148, 3349, 333, 24000, 0},
{"probe::ham|ra|mp|L", 2183, 3378, 200, 24000, 0},
{"probe::ham|ra|m|L", 2185, 0, 200, 24000, 0},
{"probe::inv|bi|m", 1012, 0, 329, 48000, 0},
{"probe::inv|bi|mp", 1012, 2024, 330, 48000, 0},
{"probe::inv|bi|mp|L", 1009, 2017, 200, 48000, 0},
{"probe::inv|bi|m|L", 1009, 0, 200, 48000, 0},
{"probe::inv|fw|m", 1011, 0, 334, 48000, 0},
{"probe::inv|fw|mp", 1010, 2020, 326, 48000, 0},
{"probe::inv|fw|mp|L", 1008, 2016, 200, 48000, 0},
{"probe::inv|fw|m|L", 1009, 0, 200, 48000, 0},
{"probe::inv|ra|m", 1010, 0, 167, 48000, 0},
{"probe::inv|ra|mp", 1014, 2027, 164, 48000, 0},
{"probe::inv|ra|mp|L", 1008, 2016, 99, 48000, 0},
{"probe::inv|ra|m|L", 1009, 0, 100, 48000, 0},
{"probe::max|bi|m", 3602, 0, 488, 24000, 0},
{"probe::max|bi|mp", 3601, 4730, 500, 24000, 0},
{"probe::max|bi|mp|L", 3635, 4770, 300, 24000, 0},
{"probe::max|bi|m|L", 3635, 0, 300, 24000, 0},
{"probe::max|fw|m", 3605, 0, 493, 24000, 0},
{"probe::max|fw|mp", 3600, 4720, 465, 24000, 0},
{"probe::max|fw|mp|L", 3636, 4768, 299, 24000, 0},
{"probe::max|fw|m|L", 3634, 0, 300, 24000, 0},
{"probe::max|ra|m", 3602, 0, 334, 24000, 0},
{"probe::max|ra|mp", 3600, 4727, 324, 24000, 0},
{"probe::max|ra|mp|L", 3635, 4768, 200, 24000, 0},
{"probe::max|ra|m|L", 3636, 0, 200, 24000, 0},
{"probe::mono|bi|m", 1999, 0, 1016, 0, 0},
{"probe::mono|bi|mp", 1998, 3996, 1016, 0, 0},
{"probe::mono|bi|mp|L", 2000, 4000, 1001, 0, 0},
{"probe::mono|bi|m|L", 2000, 0, 1001, 0, 0},
{"probe::mono|fw|m", 1998, 0, 1016, 0, 0},
{"probe::mono|fw|mp", 1998, 3996, 1016, 0, 0},
{"probe::mono|fw|mp|L", 2000, 4000, 1001, 0, 0},
{"probe::mono|fw|m|L", 2000, 0, 1001, 0, 0},
{"probe::mono|ra|m", 1999, 0, 1016, 0, 0},
{"probe::mono|ra|mp", 1999, 3997, 1015, 0, 0},
{"probe::mono|ra|mp|L", 2000, 4000, 1001, 0, 0},
{"probe::mono|ra|m|L", 2000, 0, 1001, 0, 0},
{"probe::osc|bi|m", 3772, 0, 660, 32000, 0},
{"probe::osc|bi|mp", 3780, 5116, 657, 32000, 0},
{"probe::osc|bi|mp|L", 3767, 5040, 400, 32000, 0},
{"probe::osc|bi|mp|short", 3349, 3387, 2010, 24000, 0},
{"probe::osc|bi|mp|short|L", 3498, 3498, 2002, 24000, 0},
{"probe::osc|bi|m|L", 3765, 0, 400, 32000, 0},
{"probe::osc|bi|m|short", 3519, 0, 2020, 24000, 0},
{"probe::osc|bi|m|short|L", 3498, 0, 2002, 24000, 0},
{"probe::osc|fw|m", 3767, 0, 651, 32000, 0},
{"probe::osc|fw|mp", 3780, 5122, 643, 32000, 0},
{"probe::osc|fw|mp|L", 3765, 5038, 400, 32000, 0},
{"probe::osc|fw|mp|short", 3496, 3497, 2015, 24000, 0},
{"probe::osc|fw|mp|short|L", 3497, 3497, 2002, 24000, 0},
{"probe::osc|fw|m|L", 3764, 0, 400, 32000, 0},
{"probe::osc|fw|m|short", 3511, 0, 2029, 24000, 0},
{"probe::osc|fw|m|short|L", 3498, 0, 2002, 24000, 0},
{"probe::osc|ra|m", 3761, 0, 493, 32000, 0},
{"probe::osc|ra|mp", 3756, 5076, 498, 32000, 0},
{"probe::osc|ra|mp|L", 3764, 5036, 300, 32000, 0},
{"probe::osc|ra|mp|short", 3398, 3410, 2009, 24000, 0},
{"probe::osc|ra|mp|short|L", 3497, 3498, 2001, 24000, 0},
{"probe::osc|ra|m|L", 3766, 0, 300, 32000, 0},
{"probe::osc|ra|m|short", 3335, 0, 2014, 24000, 0},
{"probe::osc|ra|m|short|L", 3498, 0, 2001, 24000, 0},
{"probe::rem|bi|m", 816, 0, 170, 70084, 0},
{"probe::rem|bi|mp", 803, 906, 167, 58515, 0},
{"probe::rem|bi|mp|L", 842, 925, 101, 71860, 0},
{"probe::rem|bi|m|L", 850, 0, 101, 71598, 0},
{"probe::rem|fw|m", 815, 0, 170, 71442, 0},
{"probe::rem|fw|mp", 803, 909, 164, 64674, 0},
{"probe::rem|fw|mp|L", 843, 928, 100, 71983, 0},
{"probe::rem|fw|m|L", 849, 0, 100, 71149, 0},
{"probe::rem|ra|m", 816, 0, 169, 71720, 0},
{"probe::rem|ra|mp", 803, 906, 162, 71860, 0},
{"probe::rem|ra|mp|L", 844, 927, 100, 71581, 0},
{"probe::rem|ra|m|L", 848, 0, 101, 70893, 0},
{"probe::runs|bi|m", 1000, 0, 2000, 0, 0},
{"probe::runs|bi|mp", 1000, 1999, 2000, 0, 0},
{"probe::runs|bi|mp|L", 1000, 2000, 2000, 0, 0},
{"probe::runs|bi|m|L", 1000, 0, 2000, 0, 0},
{"probe::runs|fw|m", 1000, 0, 2000, 0, 0},
{"probe::runs|fw|mp", 1000, 1999, 2000, 0, 0},
{"probe::runs|fw|mp|L", 1000, 2000, 2000, 0, 0},
{"probe::runs|fw|m|L", 1000, 0, 2000, 0, 0},
{"probe::runs|ra|m", 1000, 0, 2000, 0, 0},
{"probe::runs|ra|mp", 1000, 1999, 2000, 0, 0},
{"probe::runs|ra|mp|L", 1000, 2000, 2000, 0, 0},
{"probe::runs|ra|m|L", 1000, 0, 2000, 0, 0},
{"probe::sus|bi|m", 809, 0, 170, 67271, 0},
{"probe::sus|bi|mp", 800, 905, 168, 69034, 0},
{"probe::sus|bi|mp|L", 836, 922, 100, 67209, 0},
{"probe::sus|bi|m|L", 840, 0, 101, 71930, 0},
{"probe::sus|fw|m", 803, 0, 167, 71442, 0},
{"probe::sus|fw|mp", 809, 913, 166, 68267, 0},
{"probe::sus|fw|mp|L", 844, 925, 101, 67641, 0},
{"probe::sus|fw|m|L", 844, 0, 101, 71651, 0},
{"probe::sus|ra|m", 803, 0, 170, 66303, 0},
{"probe::sus|ra|mp", 803, 911, 166, 69294, 0},
{"probe::sus|ra|mp|L", 850, 933, 100, 69852, 0},
{"probe::sus|ra|m|L", 845, 0, 101, 68521, 0},
{"quick_merge_sorter|bi", 4704, 5110, 8021, 0, 5152},
{"quick_merge_sorter|bi|e", 0, 0, 0, 0, 0},
{"quick_merge_sorter|bi|equal", 6645, 218, 15097, 0, 0},
{"quick_merge_sorter|bi|equal|L", 7524, 20, 16886, 0, 0},
{"quick_merge_sorter|bi|p", 0, 0, 0, 0, 0},
{"quick_merge_sorter|bi|reversed", 8768, 15641, 21552, 0, 0},
{"quick_merge_sorter|bi|reversed|L", 9493, 16401, 23450, 0, 0},
{"quick_merge_sorter|bi|strictly_sorted", 8114, 323, 16754, 0, 0},
{"quick_merge_sorter|bi|strictly_sorted|L", 9013, 76, 18635, 0, 0},
{"quick_merge_sorter|fw", 5394, 10315, 8956, 0, 5072},
{"quick_merge_sorter|fw|e", 0, 0, 0, 0, 0},
{"quick_merge_sorter|fw|equal", 19157, 5218, 28276, 0, 0},
{"quick_merge_sorter|fw|equal|L", 20176, 5020, 30337, 0, 0},
{"quick_merge_sorter|fw|p", 0, 0, 0, 0, 0},
{"quick_merge_sorter|fw|reversed", 22970, 49786, 43528, 0, 0},
{"quick_merge_sorter|fw|reversed|L", 23161, 57096, 49786, 0, 0},
{"quick_merge_sorter|fw|strictly_sorted", 21636, 7579, 30898, 0, 0},
{"quick_merge_sorter|fw|strictly_sorted|L", 21864, 5279, 32471, 0, 0},
{"quick_merge_sorter|pt", 2290, 4609, 0, 0, 1568},
{"quick_merge_sorter|pt|e", 0, 0, 0, 0, 0},
{"quick_merge_sorter|pt|equal", 9306, 3226, 0, 0, 0},
{"quick_merge_sorter|pt|equal|L", 8767, 340, 0, 0, 0},
{"quick_merge_sorter|pt|p", 0, 0, 0, 0, 0},
{"quick_merge_sorter|pt|reversed", 9014, 4124, 0, 0, 0},
{"quick_merge_sorter|pt|reversed|L", 8724, 2904, 0, 0, 0},
{"quick_merge_sorter|pt|strictly_sorted", 8885, 758, 0, 0, 0},
{"quick_merge_sorter|pt|strictly_sorted|L", 8712, 150, 0, 0, 0},
{"quick_merge_sorter|ra", 2285, 4621, 3424, 0, 5136},
{"quick_merge_sorter|ra|e", 0, 0, 0, 0, 0},
{"quick_merge_sorter|ra|equal", 9306, 3230, 5678, 0, 0},
{"quick_merge_sorter|ra|equal|L", 8769, 362, 5729, 0, 0},
{"quick_merge_sorter|ra|p", 0, 0, 0, 0, 0},
{"quick_merge_sorter|ra|reversed", 9014, 4137, 5867, 0, 0},
{"quick_merge_sorter|ra|reversed|L", 8723, 2904, 6752, 0, 0},
{"quick_merge_sorter|ra|strictly_sorted", 8883, 834, 4800, 0, 0},
{"quick_merge_sorter|ra|strictly_sorted|L", 8712, 151, 5616, 0, 0},
{"quick_sorter|bi", 7206, 4391, 10895, 0, 17408},
{"quick_sorter|bi|e", 0, 0, 0, 0, 0},
{"quick_sorter|bi|equal", 2157, 157, 4876, 0, 0},
{"quick_sorter|bi|equal|L", 2004, 4, 4876, 0, 0},
{"quick_sorter|bi|p", 0, 0, 0, 0, 0},
{"quick_sorter|fw", 7492, 15899, 13989, 0, 19680},
{"quick_sorter|fw|e", 0, 0, 0, 0, 0},
{"quick_sorter|fw|equal", 2157, 157, 5000, 0, 0},
{"quick_sorter|fw|equal|L", 2004, 4, 5000, 0, 0},
{"quick_sorter|fw|p", 0, 0, 0, 0, 0},
{"quick_sorter|pt", 7206, 4393, 0, 0, 6160},
{"quick_sorter|pt|e", 0, 0, 0, 0, 0},
{"quick_sorter|pt|equal", 2157, 157, 0, 0, 0},
{"quick_sorter|pt|equal|L", 2004, 4, 0, 0, 0},
{"quick_sorter|pt|p", 0, 0, 0, 0, 0},
{"quick_sorter|ra", 7176, 4424, 8292, 0, 17216},
{"quick_sorter|ra|e", 0, 0, 0, 0, 0},
{"quick_sorter|ra|equal", 2157, 154, 2110, 0, 0},
{"quick_sorter|ra|equal|L", 2004, 4, 2003, 0, 0},
{"quick_sorter|ra|p", 0, 0, 0, 0, 0},
{"schwartz<heap>|ra", 1136, 2419, 167, 32, 720},
{"schwartz<heap>|ra|e", 0, 0, 0, 32, 0},
{"schwartz<heap>|ra|p", 0, 0, 0, 32, 0},
{"schwartz<insertion>|bi", 0, 0, 0, 32, 352},
{"schwartz<insertion>|ra", 0, 0, 0, 32, 288},
{"schwartz<merge>|bi", 3107, 5631, 331, 56, 2896},
{"schwartz<merge>|bi|e", 0, 0, 0, 56, 0},
{"schwartz<merge>|bi|p", 0, 0, 0, 42, 0},
{"schwartz<merge>|bi|short", 335, 709, 54, 0, 0},
{"schwartz<merge>|fw", 2982, 6434, 334, 56, 3008},
{"schwartz<merge>|fw|e", 0, 0, 0, 56, 0},
{"schwartz<merge>|fw|p", 0, 0, 0, 42, 0},
{"schwartz<merge>|fw|short", 314, 865, 56, 0, 0},
{"schwartz<merge>|ra", 3017, 6187, 167, 56, 2832},
{"schwartz<merge>|ra|e", 0, 0, 0, 56, 0},
{"schwartz<merge>|ra|p", 0, 0, 0, 42, 0},
{"schwartz<merge>|ra|short", 292, 854, 28, 0, 0},
{"schwartz<pdq>|ra", 2029, 2377, 167, 32, 2480},
{"schwartz<pdq>|ra|e", 0, 0, 0, 32, 0},
{"schwartz<pdq>|ra|p", 0, 0, 0, 32, 0},
{"schwartz<poplar>|ra", 2409, 4334, 167, 35, 1104},
{"schwartz<poplar>|ra|e", 0, 0, 0, 33, 0},
{"schwartz<poplar>|ra|p", 0, 0, 0, 33, 0},
{"schwartz<quick>|bi", 7162, 5285, 334, 32, 6144},
{"schwartz<quick>|bi|e", 0, 0, 0, 32, 0},
{"schwartz<quick>|bi|p", 0, 0, 0, 32, 0},
{"schwartz<quick>|fw", 7147, 5285, 333, 32, 6448},
{"schwartz<quick>|fw|e", 0, 0, 0, 32, 0},
{"schwartz<quick>|fw|p", 0, 0, 0, 32, 0},
{"schwartz<quick>|ra", 7171, 5240, 166, 32, 6112},
{"schwartz<quick>|ra|e", 0, 0, 0, 32, 0},
{"schwartz<quick>|ra|p", 0, 0, 0, 32, 0},
{"schwartz<tim>|ra", 892, 7395, 167, 49, 1232},
{"schwartz<tim>|ra|e", 0, 0, 0, 49, 0},
{"schwartz<tim>|ra|p", 0, 0, 0, 39, 0},
{"selection_sorter|bi", 0, 0, 0, 0, 336},
{"selection_sorter|fw", 0, 0, 0, 0, 688},
{"selection_sorter|ra", 0, 0, 0, 0, 336},
{"self_sort<quick_merge>|bi", 4686, 5040, 7997, 0, 4816},
{"self_sort<quick_merge>|bi|e", 0, 0, 0, 0, 0},
{"self_sort<quick_merge>|bi|p", 0, 0, 0, 0, 0},
{"self_sort<quick_merge>|fw", 5397, 10263, 8827, 0, 4784},
{"self_sort<quick_merge>|fw|e", 0, 0, 0, 0, 0},
{"self_sort<quick_merge>|fw|p", 0, 0, 0, 0, 0},
{"self_sort<quick_merge>|ra", 2273, 4580, 3414, 0, 4736},
{"self_sort<quick_merge>|ra|e", 0, 0, 0, 0, 0},
{"self_sort<quick_merge>|ra|p", 0, 0, 0, 0, 0},
{"ska_sorter|ra", 0, 0, 0, 0, 19152},
{"ska_sorter|ra|e", 0, 0, 0, 0, 0},
{"ska_sorter|ra|p", 0, 0, 0, 0, 0},
{"slab_sorter|bi", 4026, 10036, 8099, 88, 5584},
{"slab_sorter|bi|e", 0, 0, 0, 88, 0},
{"slab_sorter|bi|encroaching", 3091, 2000, 3000, 0, 0},
{"slab_sorter|bi|encroaching|L", 3031, 2000, 3000, 0, 0},
{"slab_sorter|bi|equal", 1000, 2000, 3000, 0, 0},
{"slab_sorter|bi|equal|L", 1000, 2000, 3000, 0, 0},
{"slab_sorter|bi|equal|short", 0, 0, 1000, 0, 0},
{"slab_sorter|bi|equal|short|L", 0, 0, 1000, 0, 0},
{"slab_sorter|bi|p", 0, 0, 0, 72, 0},
{"slab_sorter|bi|reversed", 2000, 2000, 3000, 0, 0},
{"slab_sorter|bi|reversed|L", 2000, 2000, 3000, 0, 0},
{"slab_sorter|bi|reversed|short", 0, 0, 1000, 0, 0},
{"slab_sorter|bi|reversed|short|L", 0, 0, 1000, 0, 0},
{"slab_sorter|bi|sorted", 1000, 2000, 3000, 0, 0},
{"slab_sorter|bi|sorted|L", 1000, 2000, 3000, 0, 0},
{"slab_sorter|bi|sorted|short", 0, 0, 1000, 0, 0},
{"slab_sorter|bi|sorted|short|L", 0, 0, 1000, 0, 0},
{"slab_sorter|pt", 3959, 9331, 0, 72, 2624},
{"slab_sorter|pt|e", 0, 0, 0, 72, 0},
{"slab_sorter|pt|encroaching", 3048, 2000, 0, 0, 0},
{"slab_sorter|pt|encroaching|L", 3021, 2000, 0, 0, 0},
{"slab_sorter|pt|equal", 1000, 2000, 0, 0, 0},
{"slab_sorter|pt|equal|L", 1000, 2000, 0, 0, 0},
{"slab_sorter|pt|equal|short", 0, 0, 0, 0, 0},
{"slab_sorter|pt|equal|short|L", 0, 0, 0, 0, 0},
{"slab_sorter|pt|p", 0, 0, 0, 40, 0},
{"slab_sorter|pt|reversed", 2000, 2000, 0, 0, 0},
{"slab_sorter|pt|reversed|L", 2000, 2000, 0, 0, 0},
{"slab_sorter|pt|reversed|short", 0, 0, 0, 0, 0},
{"slab_sorter|pt|reversed|short|L", 0, 0, 0, 0, 0},
{"slab_sorter|pt|sorted", 1000, 2000, 0, 0, 0},
{"slab_sorter|pt|sorted|L", 1000, 2000, 0, 0, 0},
{"slab_sorter|pt|sorted|short", 0, 0, 0, 0, 0},
{"slab_sorter|pt|sorted|short|L", 0, 0, 0, 0, 0},
{"slab_sorter|ra", 4000, 9948, 5965, 88, 5440},
{"slab_sorter|ra|e", 0, 0, 0, 88, 0},
{"slab_sorter|ra|encroaching", 3097, 2000, 2000, 0, 0},
{"slab_sorter|ra|encroaching|L", 3033, 2000, 2000, 0, 0},
{"slab_sorter|ra|equal", 1000, 2000, 2000, 0, 0},
{"slab_sorter|ra|equal|L", 1000, 2000, 2000, 0, 0},
{"slab_sorter|ra|equal|short", 0, 0, 0, 0, 0},
{"slab_sorter|ra|equal|short|L", 0, 0, 0, 0, 0},
{"slab_sorter|ra|p", 0, 0, 0, 72, 0},
{"slab_sorter|ra|reversed", 2000, 2000, 2000, 0, 0},
{"slab_sorter|ra|reversed|L", 2000, 2000, 2000, 0, 0},
{"slab_sorter|ra|reversed|short", 0, 0, 0, 0, 0},
{"slab_sorter|ra|reversed|short|L", 0, 0, 0, 0, 0},
{"slab_sorter|ra|sorted", 1000, 2000, 2000, 0, 0},
{"slab_sorter|ra|sorted|L", 1000, 2000, 2000, 0, 0},
{"slab_sorter|ra|sorted|short", 0, 0, 0, 0, 0},
{"slab_sorter|ra|sorted|short|L", 0, 0, 0, 0, 0},
{"smooth_sorter|pt", 2955, 6015, 0, 0, 496},
{"smooth_sorter|pt|e", 0, 0, 0, 0, 0},
{"smooth_sorter|pt|equal", 3984, 0, 0, 0, 0},
{"smooth_sorter|pt|equal|L", 3996, 0, 0, 0, 0},
{"smooth_sorter|pt|p", 0, 0, 0, 0, 0},
{"smooth_sorter|pt|sorted", 3984, 0, 0, 0, 0},
{"smooth_sorter|pt|sorted|L", 3995, 0, 0, 0, 0},
{"smooth_sorter|ra", 2755, 6143, 4661, 0, 1424},
{"smooth_sorter|ra|e", 0, 0, 0, 0, 0},
{"smooth_sorter|ra|equal", 3984, 0, 13291, 0, 0},
{"smooth_sorter|ra|equal|L", 3996, 0, 13304, 0, 0},
{"smooth_sorter|ra|p", 0, 0, 0, 0, 0},
{"smooth_sorter|ra|sorted", 3984, 0, 13291, 0, 0},
{"smooth_sorter|ra|sorted|L", 3996, 0, 13304, 0, 0},
{"sorted_indices<heap>|ra|m", 1177, 0, 0, 8000, 0},
{"sorted_indices<heap>|ra|mp", 1384, 2521, 0, 8000, 0},
{"sorted_indices<heap>|ra|mp|L", 1154, 2269, 0, 8000, 0},
{"sorted_indices<heap>|ra|m|L", 1145, 0, 0, 8000, 0},
{"sorted_indices<merge>|ra|m", 2751, 0, 0, 14000, 0},
{"sorted_indices<merge>|ra|mp", 2922, 3321, 0, 14000, 0},
{"sorted_indices<merge>|ra|mp|L", 2151, 2623, 0, 14000, 0},
{"sorted_indices<merge>|ra|mp|short", 2734, 3181, 0, 14000, 0},
{"sorted_indices<merge>|ra|mp|short|L", 1964, 2449, 0, 14000, 0},
{"sorted_indices<merge>|ra|m|L", 2078, 0, 0, 14000, 0},
{"sorted_indices<merge>|ra|m|short", 2481, 0, 0, 13998, 0},
{"sorted_indices<merge>|ra|m|short|L", 1926, 0, 0, 14000, 0},
{"sorted_indices<pdq>|ra|m", 1969, 0, 0, 8000, 0},
{"sorted_indices<pdq>|ra|mp", 1968, 2979, 0, 8000, 0},
{"sorted_indices<pdq>|ra|mp|L", 2039, 3085, 0, 8000, 0},
{"sorted_indices<pdq>|ra|m|L", 2041, 0, 0, 8000, 0},
{"sorted_indices<spin>|ra|m", 5566, 0, 0, 12054, 0},
{"sorted_indices<spin>|ra|mp", 2889, 3129, 0, 12054, 0},
{"sorted_indices<spin>|ra|mp|L", 1977, 2643, 0, 12365, 0},
{"sorted_indices<spin>|ra|m|L", 1916, 0, 0, 12447, 0},
{"sorted_indices<stable<heap>>|ra|m", 2205, 0, 0, 24000, 0},
{"sorted_indices<stable<heap>>|ra|mp", 2205, 4410, 0, 24000, 0},
{"sorted_indices<stable<heap>>|ra|mp|L", 2190, 4379, 0, 24000, 0},
{"sorted_indices<stable<heap>>|ra|m|L", 2192, 0, 0, 24000, 0},
{"sorted_indices<tim>|ra|m", 870, 0, 0, 12325, 0},
{"sorted_indices<tim>|ra|mp", 867, 1359, 0, 12471, 0},
{"sorted_indices<tim>|ra|mp|L", 896, 1521, 0, 12072, 0},
{"sorted_indices<tim>|ra|m|L", 898, 0, 0, 12076, 0},
{"sorted_iterators<heap>|bi|mp", 1145, 2282, 334, 24000, 0},
{"sorted_iterators<heap>|bi|mp|L", 1104, 2206, 200, 24000, 0},
{"sorted_iterators<heap>|fw|m", 1242, 0, 334, 24000, 0},
{"sorted_iterators<heap>|fw|m|L", 1169, 0, 200, 24000, 0},
{"sorted_iterators<heap>|ra|m", 1139, 0, 165, 24000, 0},
{"sorted_iterators<heap>|ra|m|L", 1126, 0, 100, 24000, 0},
{"sorted_iterators<merge>|bi|mp", 3105, 3497, 334, 42000, 0},
{"sorted_iterators<merge>|bi|mp|L", 2044, 2522, 200, 42000, 0},
{"sorted_iterators<merge>|bi|mp|short", 2748, 3166, 331, 41988, 0},
{"sorted_iterators<merge>|bi|mp|short|L", 1880, 2409, 200, 42000, 0},
{"sorted_iterators<merge>|fw|m", 2629, 0, 330, 42000, 0},
{"sorted_iterators<merge>|fw|m|L", 2054, 0, 200, 42000, 0},
{"sorted_iterators<merge>|fw|m|short", 2774, 0, 328, 42000, 0},
{"sorted_iterators<merge>|fw|m|short|L", 1979, 0, 200, 42000, 0},
{"sorted_iterators<merge>|ra|m", 2831, 0, 165, 42000, 0},
{"sorted_iterators<merge>|ra|m|L", 2038, 0, 100, 42000, 0},
{"sorted_iterators<merge>|ra|m|short", 2470, 0, 159, 42000, 0},
{"sorted_iterators<merge>|ra|m|short|L", 1873, 0, 99, 42000, 0},
{"sorted_iterators<pdq>|bi|mp", 1962, 2978, 331, 24000, 0},
{"sorted_iterators<pdq>|bi|mp|L", 2041, 3087, 200, 24000, 0},
{"sorted_iterators<pdq>|fw|m", 1967, 0, 333, 24000, 0},
{"sorted_iterators<pdq>|fw|m|L", 2040, 0, 200, 24000, 0},
{"sorted_iterators<pdq>|ra|m", 1965, 0, 167, 24000, 0},
{"sorted_iterators<pdq>|ra|m|L", 2039, 0, 100, 24000, 0},
{"sorted_iterators<spin>|bi|mp", 2456, 2872, 323, 36152, 0},
{"sorted_iterators<spin>|bi|mp|L", 1894, 2355, 200, 36406, 0},
{"sorted_iterators<spin>|fw|m", 2417, 0, 333, 36156, 0},
{"sorted_iterators<spin>|fw|m|L", 1930, 0, 200, 36114, 0},
{"sorted_iterators<spin>|ra|m", 4336, 0, 167, 36156, 0},
{"sorted_iterators<spin>|ra|m|L", 1879, 0, 100, 36310, 0},
{"sorted_iterators<stable<heap>>|bi|mp", 2213, 4425, 333, 40000, 0},
{"sorted_iterators<stable<heap>>|bi|mp|L", 2190, 4379, 200, 40000, 0},
{"sorted_iterators<stable<heap>>|fw|m", 2210, 0, 334, 40000, 0},
{"sorted_iterators<stable<heap>>|fw|m|L", 2192, 0, 200, 40000, 0},
{"sorted_iterators<stable<heap>>|ra|m", 2203, 0, 167, 40000, 0},
{"sorted_iterators<stable<heap>>|ra|m|L", 2193, 0, 100, 40000, 0},
{"sorted_iterators<tim>|bi|mp", 867, 1369, 330, 36225, 0},
{"sorted_iterators<tim>|bi|mp|L", 898, 1524, 200, 36086, 0},
{"sorted_iterators<tim>|fw|m", 872, 0, 334, 36216, 0},
{"sorted_iterators<tim>|fw|m|L", 897, 0, 200, 36030, 0},
{"sorted_iterators<tim>|ra|m", 870, 0, 166, 36341, 0},
{"sorted_iterators<tim>|ra|m|L", 897, 0, 100, 36021, 0},
{"spin_sorter|pt", 5754, 5916, 0, 13, 1536},
{"spin_sorter|pt|e", 0, 0, 0, 13, 0},
{"spin_sorter|pt|equal", 3480, 6000, 0, 0, 0},
{"spin_sorter|pt|equal|L", 1000, 2000, 0, 0, 0},
{"spin_sorter|pt|equal|short", 0, 0, 0, 0, 0},
{"spin_sorter|pt|equal|short|L", 0, 0, 0, 0, 0},
{"spin_sorter|pt|p", 0, 0, 0, 5, 0},
{"spin_sorter|pt|reversed", 35500, 35972, 0, 0, 0},
{"spin_sorter|pt|reversed|L", 1001, 5000, 0, 0, 0},
{"spin_sorter|pt|reversed|short", 0, 0, 0, 0, 0},
{"spin_sorter|pt|reversed|short|L", 0, 0, 0, 0, 0},
{"spin_sorter|pt|sorted", 3480, 6000, 0, 0, 0},
{"spin_sorter|pt|sorted|L", 1000, 2000, 0, 0, 0},
{"spin_sorter|pt|sorted|short", 0, 0, 0, 0, 0},
{"spin_sorter|pt|sorted|short|L", 0, 0, 0, 0, 0},
{"spin_sorter|ra", 5754, 5916, 11512, 14, 4624},
{"spin_sorter|ra|e", 0, 0, 0, 13, 0},
{"spin_sorter|ra|equal", 3480, 6000, 8078, 0, 0},
{"spin_sorter|ra|equal|L", 1000, 2000, 2501, 0, 0},
{"spin_sorter|ra|equal|short", 0, 0, 0, 0, 0},
{"spin_sorter|ra|equal|short|L", 0, 0, 0, 0, 0},
{"spin_sorter|ra|p", 0, 0, 0, 5, 0},
{"spin_sorter|ra|reversed", 35500, 37473, 72000, 0, 0},
{"spin_sorter|ra|reversed|L", 1001, 5000, 4002, 0, 0},
{"spin_sorter|ra|reversed|short", 0, 0, 0, 0, 0},
{"spin_sorter|ra|reversed|short|L", 0, 0, 0, 0, 0},
{"spin_sorter|ra|sorted", 3480, 6000, 8078, 0, 0},
{"spin_sorter|ra|sorted|L", 1000, 2000, 2501, 0, 0},
{"spin_sorter|ra|sorted|short", 0, 0, 0, 0, 0},
{"spin_sorter|ra|sorted|short|L", 0, 0, 0, 0, 0},
{"splay_sorter|bi", 1200, 334, 500, 48, 560},
{"splay_sorter|bi|e", 0, 0, 0, 48, 0},
{"splay_sorter|bi|equal", 1000, 2000, 3000, 0, 0},
{"splay_sorter|bi|equal|L", 1000, 2000, 3000, 0, 0},
{"splay_sorter|bi|equal|short", 0, 0, 1000, 0, 0},
{"splay_sorter|bi|equal|short|L", 0, 0, 1000, 0, 0},
{"splay_sorter|bi|p", 0, 0, 0, 32, 0},
{"splay_sorter|bi|reversed", 1000, 2000, 3000, 0, 0},
{"splay_sorter|bi|reversed|L", 1000, 2000, 3000, 0, 0},
{"splay_sorter|bi|reversed|short", 0, 0, 1000, 0, 0},
{"splay_sorter|bi|reversed|short|L", 0, 0, 1000, 0, 0},
{"splay_sorter|bi|sorted", 1000, 2000, 3000, 0, 0},
{"splay_sorter|bi|sorted|L", 1000, 2000, 3000, 0, 0},
{"splay_sorter|bi|sorted|short", 0, 0, 1000, 0, 0},
{"splay_sorter|bi|sorted|short|L", 0, 0, 1000, 0, 0},
{"splay_sorter|fw", 1199, 334, 500, 48, 800},
{"splay_sorter|fw|e", 0, 0, 0, 48, 0},
{"splay_sorter|fw|equal", 1000, 2000, 3000, 0, 0},
{"splay_sorter|fw|equal|L", 1000, 2000, 3000, 0, 0},
{"splay_sorter|fw|equal|short", 0, 0, 1000, 0, 0},
{"splay_sorter|fw|equal|short|L", 0, 0, 1000, 0, 0},
{"splay_sorter|fw|p", 0, 0, 0, 32, 0},
{"splay_sorter|fw|reversed", 1000, 2000, 3000, 0, 0},
{"splay_sorter|fw|reversed|L", 1000, 2000, 3000, 0, 0},
{"splay_sorter|fw|reversed|short", 0, 0, 1000, 0, 0},
{"splay_sorter|fw|reversed|short|L", 0, 0, 1000, 0, 0},
{"splay_sorter|fw|sorted", 1000, 2000, 3000, 0, 0},
{"splay_sorter|fw|sorted|L", 1000, 2000, 3000, 0, 0},
{"splay_sorter|fw|sorted|short", 0, 0, 1000, 0, 0},
{"splay_sorter|fw|sorted|short|L", 0, 0, 1000, 0, 0},
{"splay_sorter|ra", 1205, 334, 334, 48, 512},
{"splay_sorter|ra|e", 0, 0, 0, 48, 0},
{"splay_sorter|ra|equal", 1000, 2000, 2000, 0, 0},
{"splay_sorter|ra|equal|L", 1000, 2000, 2000, 0, 0},
{"splay_sorter|ra|equal|short", 0, 0, 0, 0, 0},
{"splay_sorter|ra|equal|short|L", 0, 0, 0, 0, 0},
{"splay_sorter|ra|p", 0, 0, 0, 32, 0},
{"splay_sorter|ra|reversed", 1000, 2000, 2000, 0, 0},
{"splay_sorter|ra|reversed|L", 1000, 2000, 2000, 0, 0},
{"splay_sorter|ra|reversed|short", 0, 0, 0, 0, 0},
{"splay_sorter|ra|reversed|short|L", 0, 0, 0, 0, 0},
{"splay_sorter|ra|sorted", 1000, 2000, 2000, 0, 0},
{"splay_sorter|ra|sorted|L", 1000, 2000, 2000, 0, 0},
{"splay_sorter|ra|sorted|short", 0, 0, 0, 0, 0},
{"splay_sorter|ra|sorted|short|L", 0, 0, 0, 0, 0},
{"split<heap>|ra", 1358, 1881, 3139, 12, 5200},
{"split<heap>|ra|e", 0, 0, 0, 12, 0},
{"split<heap>|ra|equal", 2000, 4998, 3000, 0, 0},
{"split<heap>|ra|equal|L", 2000, 5000, 3000, 0, 0},
{"split<heap>|ra|p", 0, 0, 0, 4, 0},
{"split<heap>|ra|short", 166, 391, 464, 0, 0},
{"split<heap>|ra|sorted", 2000, 4998, 3000, 0, 0},
{"split<heap>|ra|sorted|L", 2000, 5000, 3000, 0, 0},
{"split<pdq>|ra", 2120, 1791, 3761, 12, 7936},
{"split<pdq>|ra|e", 0, 0, 0, 12, 0},
{"split<pdq>|ra|equal", 2000, 4998, 3000, 0, 0},
{"split<pdq>|ra|equal|L", 2000, 5000, 3000, 0, 0},
{"split<pdq>|ra|p", 0, 0, 0, 4, 0},
{"split<pdq>|ra|short", 197, 387, 456, 0, 0},
{"split<pdq>|ra|sorted", 2000, 4998, 3000, 0, 0},
{"split<pdq>|ra|sorted|L", 2000, 5000, 3000, 0, 0},
{"split<quick_merge>|bi", 3596, 4971, 7352, 12, 4976},
{"split<quick_merge>|bi|e", 0, 0, 0, 12, 0},
{"split<quick_merge>|bi|equal", 2000, 4998, 3016, 0, 0},
{"split<quick_merge>|bi|equal|L", 2000, 5000, 3001, 0, 0},
{"split<quick_merge>|bi|p", 0, 0, 0, 4, 0},
{"split<quick_merge>|bi|short", 246, 427, 592, 0, 0},
{"split<quick_merge>|bi|sorted", 2000, 4998, 3016, 0, 0},
{"split<quick_merge>|bi|sorted|L", 2000, 5000, 3001, 0, 0},
{"split<quick_merge>|ra", 2210, 4613, 3505, 12, 6448},
{"split<quick_merge>|ra|e", 0, 0, 0, 12, 0},
{"split<quick_merge>|ra|equal", 2000, 4998, 3000, 0, 0},
{"split<quick_merge>|ra|equal|L", 2000, 5000, 3000, 0, 0},
{"split<quick_merge>|ra|p", 0, 0, 0, 4, 0},
{"split<quick_merge>|ra|short", 208, 459, 338, 0, 0},
{"split<quick_merge>|ra|sorted", 2000, 4998, 3000, 0, 0},
{"split<quick_merge>|ra|sorted|L", 2000, 5000, 3000, 0, 0},
{"split<tim>|ra", 1071, 4438, 9119, 14, 5072},
{"split<tim>|ra|e", 0, 0, 0, 13, 0},
{"split<tim>|ra|equal", 2000, 4998, 3000, 0, 0},
{"split<tim>|ra|equal|L", 2000, 5000, 3000, 0, 0},
{"split<tim>|ra|p", 0, 0, 0, 5, 0},
{"split<tim>|ra|short", 141, 443, 980, 0, 0},
{"split<tim>|ra|sorted", 2000, 4998, 3000, 0, 0},
{"split<tim>|ra|sorted|L", 2000, 5000, 3000, 0, 0},
{"split_sorter|pt", 2121, 1767, 0, 12, 2256},
{"split_sorter|pt|e", 0, 0, 0, 12, 0},
{"split_sorter|pt|equal", 2000, 4998, 0, 0, 0},
{"split_sorter|pt|equal|L", 2000, 5000, 0, 0, 0},
{"split_sorter|pt|p", 0, 0, 0, 4, 0},
{"split_sorter|pt|short", 257, 293, 0, 0, 0},
{"split_sorter|pt|sorted", 2000, 4998, 0, 0, 0},
{"split_sorter|pt|sorted|L", 2000, 5000, 0, 0, 0},
{"split_sorter|ra", 2122, 2569, 3994, 12, 7936},
{"split_sorter|ra|e", 0, 0, 0, 12, 0},
{"split_sorter|ra|equal", 2000, 4998, 3000, 0, 0},
{"split_sorter|ra|equal|L", 2000, 5000, 3000, 0, 0},
{"split_sorter|ra|p", 0, 0, 0, 4, 0},
{"split_sorter|ra|short", 195, 396, 413, 0, 0},
{"split_sorter|ra|sorted", 2000, 4998, 3000, 0, 0},
{"split_sorter|ra|sorted|L", 2000, 5000, 3000, 0, 0},
{"spread_sorter|ra", 0, 0, 0, 35, 34368},
{"spread_sorter|ra|e", 0, 0, 0, 35, 0},
{"spread_sorter|ra|p", 0, 0, 0, 31, 0},
{"stable<cartesian_tree>|bi", 2571, 500, 334, 100, 752},
{"stable<cartesian_tree>|bi|e", 0, 0, 0, 100, 0},
{"stable<cartesian_tree>|bi|p", 0, 0, 0, 82, 0},
{"stable<cartesian_tree>|fw", 2480, 500, 334, 100, 752},
{"stable<cartesian_tree>|fw|e", 0, 0, 0, 100, 0},
{"stable<cartesian_tree>|fw|p", 0, 0, 0, 84, 0},
{"stable<cartesian_tree>|ra", 2476, 497, 167, 100, 688},
{"stable<cartesian_tree>|ra|e", 0, 0, 0, 100, 0},
{"stable<cartesian_tree>|ra|p", 0, 0, 0, 83, 0},
{"stable<default>|bi", 0, 0, 0, 18, 4224},
{"stable<default>|bi|e", 0, 0, 0, 18, 0},
{"stable<default>|bi|p", 0, 0, 0, 6, 0},
{"stable<default>|fw", 0, 0, 0, 19, 5056},
{"stable<default>|fw|e", 0, 0, 0, 19, 0},
{"stable<default>|fw|p", 0, 0, 0, 7, 0},
{"stable<default>|ra", 0, 0, 0, 18, 5072},
{"stable<default>|ra|e", 0, 0, 0, 18, 0},
{"stable<default>|ra|p", 0, 0, 0, 6, 0},
{"stable<drop_merge>|bi", 3416, 4873, 334, 128, 3248},
{"stable<drop_merge>|bi|e", 0, 0, 0, 128, 0},
{"stable<drop_merge>|bi|p", 0, 0, 0, 80, 0},
{"stable<drop_merge>|ra", 3604, 4873, 167, 128, 3024},
{"stable<drop_merge>|ra|e", 0, 0, 0, 128, 0},
{"stable<drop_merge>|ra|p", 0, 0, 0, 80, 0},
{"stable<heap>|pt", 2217, 2480, 0, 16, 544},
{"stable<heap>|pt|e", 0, 0, 0, 16, 0},
{"stable<heap>|pt|p", 0, 0, 0, 16, 0},
{"stable<heap>|ra", 2220, 2456, 167, 32, 720},
{"stable<heap>|ra|e", 0, 0, 0, 32, 0},
{"stable<heap>|ra|p", 0, 0, 0, 32, 0},
{"stable<hybrid<quick,heap>>|bi", 10180, 5267, 331, 32, 6992},
{"stable<hybrid<quick,heap>>|bi|e", 0, 0, 0, 32, 0},
{"stable<hybrid<quick,heap>>|bi|p", 0, 0, 0, 32, 0},
{"stable<hybrid<quick,heap>>|fw", 10208, 5261, 334, 32, 6992},
{"stable<hybrid<quick,heap>>|fw|e", 0, 0, 0, 32, 0},
{"stable<hybrid<quick,heap>>|fw|p", 0, 0, 0, 32, 0},
{"stable<hybrid<quick,heap>>|ra", 2210, 2408, 167, 32, 720},
{"stable<hybrid<quick,heap>>|ra|e", 0, 0, 0, 32, 0},
{"stable<hybrid<quick,heap>>|ra|p", 0, 0, 0, 32, 0},
{"stable<merge_insertion>|ra", 1676, 4496, 167, 100, 3664},
{"stable<merge_insertion>|ra|e", 0, 0, 0, 100, 0},
{"stable<merge_insertion>|ra|p", 0, 0, 0, 84, 0},
{"stable<pdq>|ra", 3485, 2637, 167, 32, 3984},
{"stable<pdq>|ra|e", 0, 0, 0, 32, 0},
{"stable<pdq>|ra|p", 0, 0, 0, 32, 0},
{"stable<poplar>|ra", 3562, 4320, 167, 35, 1376},
{"stable<poplar>|ra|e", 0, 0, 0, 33, 0},
{"stable<poplar>|ra|p", 0, 0, 0, 33, 0},
{"stable<quick>|bi", 10190, 5327, 334, 32, 7152},
{"stable<quick>|bi|e", 0, 0, 0, 32, 0},
{"stable<quick>|bi|p", 0, 0, 0, 32, 0},
{"stable<quick>|fw", 10168, 5294, 334, 32, 7056},
{"stable<quick>|fw|e", 0, 0, 0, 32, 0},
{"stable<quick>|fw|p", 0, 0, 0, 32, 0},
{"stable<quick>|ra", 10232, 5293, 167, 32, 6928},
{"stable<quick>|ra|e", 0, 0, 0, 32, 0},
{"stable<quick>|ra|p", 0, 0, 0, 32, 0},
{"stable<quick_merge>|bi", 3120, 5505, 334, 32, 1952},
{"stable<quick_merge>|bi|e", 0, 0, 0, 32, 0},
{"stable<quick_merge>|bi|p", 0, 0, 0, 32, 0},
{"stable<quick_merge>|fw", 3231, 5514, 334, 32, 2016},
{"stable<quick_merge>|fw|e", 0, 0, 0, 32, 0},
{"stable<quick_merge>|fw|p", 0, 0, 0, 32, 0},
{"stable<quick_merge>|ra", 3109, 5490, 167, 32, 1888},
{"stable<quick_merge>|ra|e", 0, 0, 0, 32, 0},
{"stable<quick_merge>|ra|p", 0, 0, 0, 32, 0},
{"stable<schwartz<quick>>|bi", 10163, 5269, 333, 32, 7056},
{"stable<schwartz<quick>>|bi|e", 0, 0, 0, 32, 0},
{"stable<schwartz<quick>>|bi|p", 0, 0, 0, 32, 0},
{"stable<schwartz<quick>>|fw", 10178, 5287, 334, 32, 6992},
{"stable<schwartz<quick>>|fw|e", 0, 0, 0, 32, 0},
{"stable<schwartz<quick>>|fw|p", 0, 0, 0, 32, 0},
{"stable<schwartz<quick>>|ra", 10180, 5283, 165, 32, 7072},
{"stable<schwartz<quick>>|ra|e", 0, 0, 0, 32, 0},
{"stable<schwartz<quick>>|ra|p", 0, 0, 0, 32, 0},
{"stable<selection>|bi", 0, 0, 0, 32, 480},
{"stable<selection>|fw", 0, 0, 0, 32, 480},
{"stable<selection>|ra", 0, 0, 0, 32, 416},
{"stable<smooth>|ra", 4476, 5969, 167, 32, 704},
{"stable<smooth>|ra|e", 0, 0, 0, 32, 0},
{"stable<smooth>|ra|p", 0, 0, 0, 32, 0},
{"stable<split>|bi", 3324, 2438, 334, 48, 3200},
{"stable<split>|bi|e", 0, 0, 0, 48, 0},
{"stable<split>|bi|p", 0, 0, 0, 40, 0},
{"stable<split>|bi|short", 276, 430, 49, 0, 0},
{"stable<split>|ra", 3282, 2469, 167, 48, 3376},
{"stable<split>|ra|e", 0, 0, 0, 48, 0},
{"stable<split>|ra|p", 0, 0, 0, 40, 0},
{"stable<split>|ra|short", 322, 328, 26, 0, 0},
{"stable<verge>|bi", 3234, 4801, 2062, 32, 5008},
{"stable<verge>|bi|e", 0, 0, 0, 32, 0},
{"stable<verge>|bi|p", 0, 0, 0, 32, 0},
{"stable<verge>|bi|short", 329, 481, 552, 0, 0},
{"stable<verge>|ra", 3224, 2287, 1697, 32, 5760},
{"stable<verge>|ra|e", 0, 0, 0, 32, 0},
{"stable<verge>|ra|p", 0, 0, 0, 32, 0},
{"stable<verge>|ra|short", 375, 529, 345, 0, 0},
{"stable<verge_adapter<heap>>|ra", 2220, 2450, 1811, 32, 5808},
{"stable<verge_adapter<heap>>|ra|e", 0, 0, 0, 32, 0},
{"stable<verge_adapter<heap>>|ra|p", 0, 0, 0, 32, 0},
{"stable<verge_adapter<heap>>|ra|short", 242, 564, 378, 0, 0},
{"stable_adapter<std_sorter>|ra", 1052, 1753, 2366, 13, 7664},
{"stable_adapter<std_sorter>|ra|e", 0, 0, 0, 13, 0},
{"stable_adapter<std_sorter>|ra|p", 0, 0, 0, 5, 0},
{"stable_adapter<std_sorter>|ra|short", 187, 972, 769, 0, 0},
{"std_sorter|ra", 0, 0, 0, 0, 7600},
{"std_sorter|ra|e", 0, 0, 0, 0, 0},
{"std_sorter|ra|p", 0, 0, 0, 0, 0},
{"tim_sorter|pt", 893, 4112, 0, 13, 816},
{"tim_sorter|pt|e", 0, 0, 0, 13, 0},
{"tim_sorter|pt|equal", 1000, 0, 0, 0, 0},
{"tim_sorter|pt|equal|L", 1000, 0, 0, 0, 0},
{"tim_sorter|pt|equal|short", 1000, 0, 0, 0, 0},
{"tim_sorter|pt|equal|short|L", 1000, 0, 0, 0, 0},
{"tim_sorter|pt|p", 0, 0, 0, 5, 0},
{"tim_sorter|pt|reversed", 1000, 2500, 0, 0, 0},
{"tim_sorter|pt|reversed|L", 1000, 2500, 0, 0, 0},
{"tim_sorter|pt|reversed|short", 1000, 2500, 0, 0, 0},
{"tim_sorter|pt|reversed|short|L", 1000, 2500, 0, 0, 0},
{"tim_sorter|pt|runs", 4337, 17102, 0, 0, 0},
{"tim_sorter|pt|runs|L", 2880, 4796, 0, 0, 0},
{"tim_sorter|pt|sorted", 1000, 0, 0, 0, 0},
{"tim_sorter|pt|sorted|L", 1000, 0, 0, 0, 0},
{"tim_sorter|pt|sorted|short", 1000, 0, 0, 0, 0},
{"tim_sorter|pt|sorted|short|L", 1000, 0, 0, 0, 0},
{"tim_sorter|ra", 892, 4719, 9749, 14, 2512},
{"tim_sorter|ra|e", 0, 0, 0, 13, 0},
{"tim_sorter|ra|equal", 1000, 0, 2000, 0, 0},
{"tim_sorter|ra|equal|L", 1000, 0, 2000, 0, 0},
{"tim_sorter|ra|equal|short", 1000, 0, 2000, 0, 0},
{"tim_sorter|ra|equal|short|L", 1000, 0, 2000, 0, 0},
{"tim_sorter|ra|p", 0, 0, 0, 5, 0},
{"tim_sorter|ra|reversed", 1000, 2500, 3000, 0, 0},
{"tim_sorter|ra|reversed|L", 1000, 2500, 3000, 0, 0},
{"tim_sorter|ra|reversed|short", 1000, 2500, 3000, 0, 0},
{"tim_sorter|ra|reversed|short|L", 1000, 2500, 3000, 0, 0},
{"tim_sorter|ra|runs", 4417, 15216, 34400, 0, 0},
{"tim_sorter|ra|runs|L", 2903, 5073, 7545, 0, 0},
{"tim_sorter|ra|sorted", 1000, 0, 2000, 0, 0},
{"tim_sorter|ra|sorted|L", 1000, 0, 2000, 0, 0},
{"tim_sorter|ra|sorted|short", 1000, 0, 2000, 0, 0},
{"tim_sorter|ra|sorted|short|L", 1000, 0, 2000, 0, 0},
{"verge<heap>|ra", 1166, 1486, 3343, 13, 7232},
{"verge<heap>|ra|e", 0, 0, 0, 13, 0},
{"verge<heap>|ra|equal", 7843, 9929, 17268, 0, 0},
{"verge<heap>|ra|equal|L", 1000, 0, 2001, 0, 0},
{"verge<heap>|ra|equal|short", 1000, 0, 2008, 0, 0},
{"verge<heap>|ra|equal|short|L", 1000, 0, 2001, 0, 0},
{"verge<heap>|ra|p", 0, 0, 0, 5, 0},
{"verge<heap>|ra|reversed", 6659, 7977, 17638, 0, 0},
{"verge<heap>|ra|reversed|L", 1000, 2500, 3001, 0, 0},
{"verge<heap>|ra|reversed|short", 1000, 2500, 3016, 0, 0},
{"verge<heap>|ra|reversed|short|L", 1000, 2500, 3001, 0, 0},
{"verge<heap>|ra|runs", 7753, 10083, 19530, 0, 0},
{"verge<heap>|ra|runs|L", 3396, 5326, 12589, 0, 0},
{"verge<heap>|ra|short", 157, 568, 400, 0, 0},
{"verge<heap>|ra|sorted", 8320, 10477, 19533, 0, 0},
{"verge<heap>|ra|sorted|L", 1000, 0, 2001, 0, 0},
{"verge<heap>|ra|sorted|short", 1000, 0, 2008, 0, 0},
{"verge<heap>|ra|sorted|short|L", 1000, 0, 2001, 0, 0},
{"verge<quick_merge>|bi", 3100, 4174, 6294, 13, 5088},
{"verge<quick_merge>|bi|e", 0, 0, 0, 13, 0},
{"verge<quick_merge>|bi|equal", 4491, 225, 10349, 0, 0},
{"verge<quick_merge>|bi|equal|L", 1000, 0, 3000, 0, 0},
{"verge<quick_merge>|bi|equal|short", 1000, 0, 3000, 0, 0},
{"verge<quick_merge>|bi|equal|short|L", 1000, 0, 3000, 0, 0},
{"verge<quick_merge>|bi|p", 0, 0, 0, 5, 0},
{"verge<quick_merge>|bi|reversed", 6712, 9347, 14916, 0, 0},
{"verge<quick_merge>|bi|reversed|L", 1000, 2500, 4000, 0, 0},
{"verge<quick_merge>|bi|reversed|short", 1000, 2500, 4000, 0, 0},
{"verge<quick_merge>|bi|reversed|short|L", 1000, 2500, 4000, 0, 0},
{"verge<quick_merge>|bi|runs", 12577, 18886, 27238, 0, 0},
{"verge<quick_merge>|bi|runs|L", 3124, 5131, 12971, 0, 0},
{"verge<quick_merge>|bi|short", 248, 496, 528, 0, 0},
{"verge<quick_merge>|bi|sorted", 5648, 446, 10877, 0, 0},
{"verge<quick_merge>|bi|sorted|L", 1000, 0, 3000, 0, 0},
{"verge<quick_merge>|bi|sorted|short", 1000, 0, 3000, 0, 0},
{"verge<quick_merge>|bi|sorted|short|L", 1000, 0, 3000, 0, 0},
{"verge<quick_merge>|ra", 2022, 4433, 3326, 13, 5792},
{"verge<quick_merge>|ra|e", 0, 0, 0, 13, 0},
{"verge<quick_merge>|ra|equal", 7439, 2437, 5678, 0, 0},
{"verge<quick_merge>|ra|equal|L", 1000, 0, 2001, 0, 0},
{"verge<quick_merge>|ra|equal|short", 1000, 0, 2008, 0, 0},
{"verge<quick_merge>|ra|equal|short|L", 1000, 0, 2001, 0, 0},
{"verge<quick_merge>|ra|p", 0, 0, 0, 5, 0},
{"verge<quick_merge>|ra|reversed", 6206, 3743, 4456, 0, 0},
{"verge<quick_merge>|ra|reversed|L", 1000, 2500, 3001, 0, 0},
{"verge<quick_merge>|ra|reversed|short", 1000, 2500, 3016, 0, 0},
{"verge<quick_merge>|ra|reversed|short|L", 1000, 2500, 3001, 0, 0},
{"verge<quick_merge>|ra|runs", 11938, 16778, 20389, 0, 0},
{"verge<quick_merge>|ra|runs|L", 3159, 4919, 11720, 0, 0},
{"verge<quick_merge>|ra|short", 250, 488, 406, 0, 0},
{"verge<quick_merge>|ra|sorted", 7312, 2308, 4992, 0, 0},
{"verge<quick_merge>|ra|sorted|L", 1000, 0, 2001, 0, 0},
{"verge<quick_merge>|ra|sorted|short", 1000, 0, 2008, 0, 0},
{"verge<quick_merge>|ra|sorted|short|L", 1000, 0, 2001, 0, 0},
{"verge_sorter|bi", 3100, 4263, 6294, 13, 5600},
{"verge_sorter|bi|e", 0, 0, 0, 13, 0},
{"verge_sorter|bi|equal", 4496, 225, 10337, 0, 0},
{"verge_sorter|bi|equal|L", 1000, 0, 3000, 0, 0},
{"verge_sorter|bi|equal|short", 1000, 0, 3000, 0, 0},
{"verge_sorter|bi|equal|short|L", 1000, 0, 3000, 0, 0},
{"verge_sorter|bi|p", 0, 0, 0, 5, 0},
{"verge_sorter|bi|reversed", 6712, 9631, 14890, 0, 0},
{"verge_sorter|bi|reversed|L", 1000, 2500, 4000, 0, 0},
{"verge_sorter|bi|reversed|short", 1000, 2500, 4000, 0, 0},
{"verge_sorter|bi|reversed|short|L", 1000, 2500, 4000, 0, 0},
{"verge_sorter|bi|runs", 12470, 17568, 25618, 0, 0},
{"verge_sorter|bi|runs|L", 4056, 5238, 15165, 0, 0},
{"verge_sorter|bi|short", 256, 598, 632, 0, 0},
{"verge_sorter|bi|sorted", 5308, 390, 10764, 0, 0},
{"verge_sorter|bi|sorted|L", 1000, 0, 3000, 0, 0},
{"verge_sorter|bi|sorted|short", 1000, 0, 3000, 0, 0},
{"verge_sorter|bi|sorted|short|L", 1000, 0, 3000, 0, 0},
{"verge_sorter|pt", 2014, 1538, 0, 13, 2288},
{"verge_sorter|pt|e", 0, 0, 0, 13, 0},
{"verge_sorter|pt|equal", 2094, 226, 0, 0, 0},
{"verge_sorter|pt|equal|L", 1000, 0, 0, 0, 0},
{"verge_sorter|pt|equal|short", 1000, 0, 0, 0, 0},
{"verge_sorter|pt|equal|short|L", 1000, 0, 0, 0, 0},
{"verge_sorter|pt|p", 0, 0, 0, 5, 0},
{"verge_sorter|pt|reversed", 3066, 2793, 0, 0, 0},
{"verge_sorter|pt|reversed|L", 1000, 2500, 0, 0, 0},
{"verge_sorter|pt|reversed|short", 1000, 2500, 0, 0, 0},
{"verge_sorter|pt|reversed|short|L", 1000, 2500, 0, 0, 0},
{"verge_sorter|pt|runs", 9643, 5364, 0, 0, 0},
{"verge_sorter|pt|runs|L", 2967, 4916, 0, 0, 0},
{"verge_sorter|pt|short", 241, 252, 0, 0, 0},
{"verge_sorter|pt|sorted", 3287, 505, 0, 0, 0},
{"verge_sorter|pt|sorted|L", 1000, 0, 0, 0, 0},
{"verge_sorter|pt|sorted|short", 1000, 0, 0, 0, 0},
{"verge_sorter|pt|sorted|short|L", 1000, 0, 0, 0, 0},
{"verge_sorter|ra", 2014, 2951, 3739, 13, 8048},
{"verge_sorter|ra|e", 0, 0, 0, 13, 0},
{"verge_sorter|ra|equal", 2094, 247, 2219, 0, 0},
{"verge_sorter|ra|equal|L", 1000, 0, 2001, 0, 0},
{"verge_sorter|ra|equal|short", 1000, 0, 2008, 0, 0},
{"verge_sorter|ra|equal|short|L", 1000, 0, 2001, 0, 0},
{"verge_sorter|ra|p", 0, 0, 0, 5, 0},
{"verge_sorter|ra|reversed", 4761, 3414, 7629, 0, 0},
{"verge_sorter|ra|reversed|L", 1000, 2500, 3001, 0, 0},
{"verge_sorter|ra|reversed|short", 1000, 2500, 3016, 0, 0},
{"verge_sorter|ra|reversed|short|L", 1000, 2500, 3001, 0, 0},
{"verge_sorter|ra|runs", 9450, 9550, 16812, 0, 0},
{"verge_sorter|ra|runs|L", 3000, 5202, 11643, 0, 0},
{"verge_sorter|ra|short", 267, 516, 498, 0, 0},
{"verge_sorter|ra|sorted", 4238, 1633, 5356, 0, 0},
{"verge_sorter|ra|sorted|L", 1000, 0, 2001, 0, 0},
{"verge_sorter|ra|sorted|short", 1000, 0, 2008, 0, 0},
{"verge_sorter|ra|sorted|short|L", 1000, 0, 2001, 0, 0},
{"wiki_sorter<>|pt", 1051, 3348, 0, 0, 13120},
{"wiki_sorter<>|pt|e", 0, 0, 0, 0, 0},
{"wiki_sorter<>|pt|equal", 2577, 0, 0, 0, 0},
{"wiki_sorter<>|pt|equal|L", 2619, 0, 0, 0, 0},
{"wiki_sorter<>|pt|p", 0, 0, 0, 0, 0},
{"wiki_sorter<>|pt|reversed", 3658, 31626, 0, 0, 0},
{"wiki_sorter<>|pt|reversed|L", 3722, 37096, 0, 0, 0},
{"wiki_sorter<>|pt|strictly_sorted", 2826, 0, 0, 0, 0},
{"wiki_sorter<>|pt|strictly_sorted|L", 2889, 0, 0, 0, 0},
{"wiki_sorter<>|ra", 1051, 3360, 2383, 0, 14752},
{"wiki_sorter<>|ra|e", 0, 0, 0, 0, 0},
{"wiki_sorter<>|ra|equal", 2577, 0, 1756, 0, 0},
{"wiki_sorter<>|ra|equal|L", 2620, 0, 1880, 0, 0},
{"wiki_sorter<>|ra|p", 0, 0, 0, 0, 0},
{"wiki_sorter<>|ra|reversed", 3656, 31787, 18304, 0, 0},
{"wiki_sorter<>|ra|reversed|L", 3722, 37105, 20337, 0, 0},
{"wiki_sorter<>|ra|strictly_sorted", 2826, 0, 2354, 0, 0},
{"wiki_sorter<>|ra|strictly_sorted|L", 2890, 0, 2293, 0, 0},
{"wiki_sorter<fixed0>|ra", 2188, 14845, 10627, 0, 2016},
{"wiki_sorter<fixed0>|ra|e", 0, 0, 0, 0, 0},
{"wiki_sorter<fixed0>|ra|equal", 6177, 0, 14733, 0, 0},
{"wiki_sorter<fixed0>|ra|equal|L", 6270, 0, 14969, 0, 0},
{"wiki_sorter<fixed0>|ra|p", 0, 0, 0, 0, 0},
{"wiki_sorter<fixed0>|ra|reversed", 7363, 50835, 28500, 0, 0},
{"wiki_sorter<fixed0>|ra|reversed|L", 4508, 55896, 25844, 0, 0},
{"wiki_sorter<fixed0>|ra|strictly_sorted", 6511, 0, 15563, 0, 0},
{"wiki_sorter<fixed0>|ra|strictly_sorted|L", 3760, 0, 4420, 0, 0},
{"wiki_sorter<half>|ra", 1150, 3523, 3093, 13, 2144},
{"wiki_sorter<half>|ra|e", 0, 0, 0, 13, 0},
{"wiki_sorter<half>|ra|equal", 2723, 0, 2243, 0, 0},
{"wiki_sorter<half>|ra|equal|L", 2567, 0, 1572, 0, 0},
{"wiki_sorter<half>|ra|equal|short", 0, 0, 0, 0, 0},
{"wiki_sorter<half>|ra|equal|short|L", 0, 0, 0, 0, 0},
{"wiki_sorter<half>|ra|p", 0, 0, 0, 4, 0},
{"wiki_sorter<half>|ra|reversed", 4260, 29894, 17226, 0, 0},
{"wiki_sorter<half>|ra|reversed|L", 3580, 31521, 17683, 0, 0},
{"wiki_sorter<half>|ra|reversed|short", 0, 0, 0, 0, 0},
{"wiki_sorter<half>|ra|reversed|short|L", 0, 0, 0, 0, 0},
{"wiki_sorter<half>|ra|strictly_sorted", 3453, 0, 4126, 0, 0},
{"wiki_sorter<half>|ra|strictly_sorted|L", 2749, 0, 1862, 0, 0},
{"wiki_sorter<half>|ra|strictly_sorted|short", 0, 0, 0, 0, 0},
{"wiki_sorter<half>|ra|strictly_sorted|short|L", 0, 0, 0, 0, 0},
{"wiki_sorter<simbuf>|ra", 0, 0, 0, 49, 2112},
{"wiki_sorter<simbuf>|ra|e", 0, 0, 0, 48, 0},
{"wiki_sorter<simbuf>|ra|p", 0, 0, 0, 16, 0},
{"wiki_sorter<sqrt>|ra", 1528, 6480, 6084, 4, 2176},
{"wiki_sorter<sqrt>|ra|e", 0, 0, 0, 1, 0},
{"wiki_sorter<sqrt>|ra|equal", 3646, 0, 6688, 0, 0},
{"wiki_sorter<sqrt>|ra|equal|L", 3036, 0, 2981, 0, 0},
{"wiki_sorter<sqrt>|ra|equal|short", 0, 0, 0, 0, 0},
{"wiki_sorter<sqrt>|ra|equal|short|L", 0, 0, 0, 0, 0},
{"wiki_sorter<sqrt>|ra|p", 0, 0, 0, 1, 0},
{"wiki_sorter<sqrt>|ra|reversed", 5245, 45580, 22016, 0, 0},
{"wiki_sorter<sqrt>|ra|reversed|L", 3946, 50156, 23476, 0, 0},
{"wiki_sorter<sqrt>|ra|reversed|short", 0, 0, 0, 0, 0},
{"wiki_sorter<sqrt>|ra|reversed|short|L", 0, 0, 0, 0, 0},
{"wiki_sorter<sqrt>|ra|strictly_sorted", 4477, 0, 7750, 0, 0},
{"wiki_sorter<sqrt>|ra|strictly_sorted|L", 3132, 0, 2662, 0, 0},
{"wiki_sorter<sqrt>|ra|strictly_sorted|short", 0, 0, 0, 0, 0},
{"wiki_sorter<sqrt>|ra|strictly_sorted|short|L", 0, 0, 0, 0, 0},
{"wrap<heap>|ra", 0, 0, 0, 0, 608},
{"wrap<heap>|ra|e", 0, 0, 0, 0, 0},
{"wrap<insertion>|bi", 0, 0, 0, 0, 352},
{"wrap<insertion>|bi|e", 0, 0, 0, 0, 0},
{"wrap<merge>|fw", 0, 0, 0, 19, 8048},
{"wrap<merge>|fw|e", 0, 0, 0, 19, 0},
{"wrap<pdq>|ra", 0, 0, 0, 0, 8144},
{"wrap<pdq>|ra|e", 0, 0, 0, 0, 0},
{"wrap<smooth>|ra", 0, 0, 0, 0, 1376},
{"wrap<smooth>|ra|e", 0, 0, 0, 0, 0},
{"wrap<spin>|ra", 0, 0, 0, 13, 11328},
{"wrap<spin>|ra|e", 0, 0, 0, 13, 0},
