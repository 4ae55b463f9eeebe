// Analysis translation unit: one boundary index; linked (as IR) with its support library.  Never linked or run.
#ifdef VF_INT
#include "wh_int.c"
#else
#include "wh.c"
#endif
#include <stddef.h>
#define O(n, t, f) extern const unsigned long vf_##n; const unsigned long vf_##n = offsetof(struct t, f);
O(kv_klen, kv, klen) O(kv_kv, kv, kv) O(kv_vlen, kv, vlen) O(kv_hash, kv, hash)
O(kref_len, kref, len) O(kref_ptr, kref, ptr)
O(hmap_hv, wormhmap, hv) O(kvref_kptr, kvref, kptr) O(kvref_klen, kvref, hdr.klen)
#ifdef VF_INT
O(iter_leaf, wormhole_int_iter, leaf) O(iter_map, wormhole_int_iter, map) O(iter_ref, wormhole_int_iter, ref) O(ref_map, wormref_int, map) O(leaf_lock, wormleaf_int, leaflock) O(leaf_lv, wormleaf_int, lv)
O(map_meta, wormhole_int, metalock) O(map_hmap, wormhole_int, hmap_ptr) O(map_hmap2, wormhole_int, hmap2)
O(isp_key, int_store_pair, key) O(isp_len, int_store_pair, key_size)
#else
O(iter_leaf, wormhole_iter, leaf) O(iter_map, wormhole_iter, map) O(iter_ref, wormhole_iter, ref) O(ref_map, wormref, map) O(leaf_lock, wormleaf, leaflock) O(leaf_lv, wormleaf, lv)
O(map_meta, wormhole, metalock) O(map_hmap, wormhole, hmap_ptr) O(map_hmap2, wormhole, hmap2)
O(leaf_hs, wormleaf, hs)
extern const unsigned long vf_entry_size; const unsigned long vf_entry_size = sizeof(((struct wormleaf *)0)->hs[0]);
#endif
extern const unsigned long vf_hmap_size; const unsigned long vf_hmap_size = sizeof(struct wormhmap);
O(kref_hash, kref, hash32) O(kv_refcnt, kv, refcnt)
#ifdef VF_INT
O(mm_in, wormhole_int, mm.in) O(mm_free, wormhole_int, mm.free) O(leaf_nr, wormleaf_int, nr_keys) O(leaf_ns, wormleaf_int, nr_sorted)
#else
O(mm_in, wormhole, mm.in) O(mm_free, wormhole, mm.free) O(leaf_nr, wormleaf, nr_keys) O(leaf_ns, wormleaf, nr_sorted)
#endif
#define S(f) O(slot_##f, kvmap_api, f)
S(put) S(get) S(probe) S(del) S(inpr) S(inpw) S(merge) S(delr) S(iter_create) S(iter_seek) S(iter_valid) S(iter_peek)
S(iter_kref) S(iter_kvref) S(iter_skip1) S(iter_skip) S(iter_skip1_rev) S(iter_next) S(iter_inp) S(iter_park) S(iter_destroy)
S(ref) S(unref) S(park) S(resume) S(clean) S(destroy) S(fprint)
O(flag_hashkey, kvmap_api, hashkey) O(flag_ordered, kvmap_api, ordered) O(flag_threadsafe, kvmap_api, threadsafe)
O(flag_unique, kvmap_api, unique) O(flag_refpark, kvmap_api, refpark)
