#include "btree_driver.hpp"
using namespace vt;
#ifndef PART
#define PART 0
#endif
template<class K, class V, class C = Cmp<1>> using BM = gtl::btree_map<K, V, C, std::allocator<std::pair<const K, V>>>;
template<class K, class V, class C = Cmp<1>> using BMM = gtl::btree_multimap<K, V, C, std::allocator<std::pair<const K, V>>>;
template<class K, class C = Cmp<1>> using BS = gtl::btree_set<K, C, std::allocator<K>>;
template<class K, class C = Cmp<1>> using BMS = gtl::btree_multiset<K, C, std::allocator<K>>;
int main(int argc, char** argv) {
    Args a = parse(argc, argv);
#if PART == 0                      // maps and sets
    run_btree<BM<int, int, std::less<int>>>("bmap_int_int", a, 101);
    run_btree<BS<El<int>, Cmp<2>>>("bset_el_coarse", a, 102);
    run_btree<BM<BObj, Obj>>("bmap_bigobj_obj", a, 103);
    run_btree<gtl::btree_map<int, Obj, Cmp<1>, TAlloc<std::pair<const int, Obj>, A_POCCA>>>("bmap_int_obj_pocca", a, 114);
#elif PART == 1
    run_btree<BM<int, Obj, CmpDyn>>("bmap_int_obj_dynamic", a, 115);
    run_btree<gtl::btree_set<El<int>, CmpDyn3, TAlloc<El<int>, 0>>>("bset_el_dynamic3_alloc", a, 116);
    run_btree<BS<El<BObj>, Cmp3<-1>>>("bset_bigobj_desc3", a, 104);
    run_btree<BM<std::string, std::string, std::less<std::string>>>("bmap_str_str", a, 105);
    run_btree<BM<int, std::unique_ptr<int>, std::greater<int>>>("bmap_int_uptr_greater", a, 106);
    run_btree<gtl::btree_map<Obj, int, Cmp<1>, TAlloc<std::pair<const Obj, int>, A_POCMA | A_POCS>>>("bmap_obj_alloc", a, 107);
#elif PART == 2                    // multimaps and multisets
    run_btree<BMM<int, int, std::less<int>>>("bmmap_int_int", a, 108);
    run_btree<BMS<El<BObj>, Cmp<1>>>("bmset_bigobj", a, 109);
    run_btree<BMM<std::string, int, std::less<std::string>>>("bmmap_str_int", a, 110);
#elif PART == 3
    run_btree<gtl::btree_multimap<int, int, CmpDyn3, TAlloc<std::pair<const int, int>, A_POCCA | A_POCMA | A_POCS>>>("bmmap_int_int_dynamic3", a, 117);
    run_btree<gtl::btree_multiset<El<int>, CmpDyn, TAlloc<El<int>, 0>>>("bmset_el_dynamic_alloc", a, 118);
    run_btree<BMS<El<Obj>, Cmp3<2>>>("bmset_obj_coarse3", a, 111);
    run_btree<BMM<BObj, BObj, Cmp<-1>>>("bmmap_bigobj_desc", a, 112);
    run_btree<gtl::btree_multiset<El<int>, Cmp<1>, TAlloc<El<int>, 0>>>("bmset_el_alloc", a, 113);
#endif
}
