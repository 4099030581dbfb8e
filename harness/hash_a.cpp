#include "hash_driver.hpp"
using namespace vt;
#ifndef PART
#define PART 0
#endif
template<class K, class V> using FM = gtl::flat_hash_map<K, V, HashFn<K>, EqFn<K>>;
template<class K, class V> using NM = gtl::node_hash_map<K, V, HashFn<K>, EqFn<K>>;
template<class K> using FS = gtl::flat_hash_set<K, HashFn<K>, EqFn<K>>;
template<class K> using NS = gtl::node_hash_set<K, HashFn<K>, EqFn<K>>;
template<class K, class V, int P> using FMA = gtl::flat_hash_map<K, V, HashFn<K>, EqFn<K>, TAlloc<std::pair<const K, V>, P>>;
template<class K, class V, int P> using NMA = gtl::node_hash_map<K, V, HashFn<K>, EqFn<K>, TAlloc<std::pair<const K, V>, P>>;
template<class K, int P> using FSA = gtl::flat_hash_set<K, HashFn<K>, EqFn<K>, TAlloc<K, P>>;
template<class K, int P> using NSA = gtl::node_hash_set<K, HashFn<K>, EqFn<K>, TAlloc<K, P>>;
int main(int argc, char** argv) {
    Args a = parse(argc, argv);
#if PART == 0
    run_hash<FM<int, int>>("flat_map_int", false, a, 1);
    run_hash<FS<std::string>>("flat_set_str", false, a, 2);
    run_hash<NM<Obj, Obj>>("node_map_obj", true, a, 3);
#elif PART == 1
    run_hash<FM<Obj, std::string>>("flat_map_obj_str", false, a, 4);
    run_hash<NS<int>>("node_set_int", true, a, 5);
    run_hash<FM<std::string, std::unique_ptr<int>>>("flat_map_str_uptr", false, a, 6);
#elif PART == 2
    run_hash<FSA<Obj, 0>>("flat_set_obj_alloc", false, a, 7);
    run_hash<FMA<int, Obj, A_POCMA | A_POCS>>("flat_map_int_obj_alloc", false, a, 8);
    run_hash<FSA<std::string, A_POCCA>>("flat_set_str_pocca", false, a, 14);
    run_hash<gtl::flat_hash_map<int, int, SaltHash<int>, SaltEq<int>>>("flat_map_salted", false, a, 9);
    run_hash<gtl::node_hash_set<int, FnHash<int>, SaltEq<int>>>("node_set_fnhash", true, a, 13);
#elif PART == 3
    run_hash<NMA<std::string, Obj, A_POCCA | A_POCMA | A_POCS>>("node_map_str_obj_alloc", true, a, 10);
    run_hash<NMA<int, Obj, A_POCMA>>("node_map_int_obj_pocma", true, a, 15);
    run_hash<NS<MObj>>("node_set_moveonly", true, a, 11);
    run_hash<FM<uint64_t, Ovr>>("flat_map_u64_aligned", false, a, 12);
#endif
}
