// parallel containers used from one thread
#include "hash_driver.hpp"
#include <mutex>
#include <shared_mutex>
using namespace vt;
#ifndef PART
#define PART 0
#endif
template<class K, class V> using Al = std::allocator<std::pair<const K, V>>;
template<class K, class V, size_t N, class M> using PFM = gtl::parallel_flat_hash_map<K, V, HashFn<K>, EqFn<K>, Al<K, V>, N, M>;
template<class K, class V, size_t N, class M> using PNM = gtl::parallel_node_hash_map<K, V, HashFn<K>, EqFn<K>, Al<K, V>, N, M>;
template<class K, size_t N, class M> using PFS = gtl::parallel_flat_hash_set<K, HashFn<K>, EqFn<K>, std::allocator<K>, N, M>;
template<class K, size_t N, class M> using PNS = gtl::parallel_node_hash_set<K, HashFn<K>, EqFn<K>, std::allocator<K>, N, M>;
int main(int argc, char** argv) {
    Args a = parse(argc, argv);
#if PART == 0
    run_hash<PFM<int, int, 2, std::mutex>>("par_flat_map_int_mutex", false, a, 21);
    run_hash<PFS<std::string, 4, gtl::NullMutex>>("par_flat_set_str_null", false, a, 22);
#elif PART == 1
    run_hash<PNM<Obj, Obj, 3, std::shared_mutex>>("par_node_map_obj_shared", true, a, 23);
    run_hash<PFM<std::string, Obj, 0, std::shared_mutex>>("par_flat_map_str_n0", false, a, 24);
#elif PART == 2
    run_hash<PNS<int, 1, std::shared_mutex>>("par_node_set_int_shared", true, a, 25);
    run_hash<gtl::parallel_flat_hash_map<int, Obj, HashFn<int>, EqFn<int>, TAlloc<std::pair<const int, Obj>, A_POCMA | A_POCS>, 2, std::mutex>>("par_flat_map_alloc", false, a, 26);
    run_hash<gtl::parallel_node_hash_map<int, Obj, HashFn<int>, EqFn<int>, TAlloc<std::pair<const int, Obj>, 0>, 1, gtl::NullMutex>>("par_node_map_alloc0", true, a, 31);
#elif PART == 3
    run_hash<PFS<Obj, 2, gtl::NullMutex>>("par_flat_set_obj_null", false, a, 27);
    run_hash<PNM<uint64_t, std::string, 6, std::mutex>>("par_node_map_u64_str_mutex", true, a, 28);
    run_hash<gtl::parallel_flat_hash_map<int, int, SaltHash<int>, SaltEq<int>, Al<int, int>, 4, std::mutex>>("par_flat_map_salted", false, a, 29);
    run_hash<gtl::parallel_node_hash_set<int, FnHash<int>, SaltEq<int>, std::allocator<int>, 2, gtl::NullMutex>>("par_node_set_fnhash", true, a, 30);
#endif
}
