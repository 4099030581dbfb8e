// dump and load of flat containers, plain and parallel
#define VT_DUMP 1
#include "hash_driver.hpp"
#include <mutex>
#include <shared_mutex>
#ifndef PART
#define PART 0
#endif
namespace vt {
using PI = std::pair<int, short>;
template<class K, class V> using Al = std::allocator<std::pair<const K, V>>;
template<class K, class V> using FM = gtl::flat_hash_map<K, V, HashFn<K>, EqFn<K>>;
template<class K> using FS = gtl::flat_hash_set<K, HashFn<K>, EqFn<K>>;
template<class K, class V, size_t N, class M> using PFM = gtl::parallel_flat_hash_map<K, V, HashFn<K>, EqFn<K>, Al<K, V>, N, M>;
template<class K, size_t N, class M> using PFS = gtl::parallel_flat_hash_set<K, HashFn<K>, EqFn<K>, std::allocator<K>, N, M>;
template<class K, class V, size_t N, class M> struct other_subs<PFM<K, V, N, M>> { using type = PFM<K, V, N + 1, M>; };
template<class K, size_t N, class M> struct other_subs<PFS<K, N, M>> { using type = PFS<K, N == 0 ? 3 : N - 1, M>; };
}
using namespace vt;
int main(int argc, char** argv) {
    Args a = parse(argc, argv);
#if PART == 0
    run_hash<FM<int, int>>("dump_map_int", false, a, 31);
    run_hash<FS<uint64_t>>("dump_set_u64", false, a, 32);
    run_hash<FM<Triv3, Triv24>>("dump_map_triv", false, a, 33);
#elif PART == 1
    run_hash<gtl::flat_hash_map<int, uint64_t, SaltHash<int>, SaltEq<int>>>("dump_map_salted", false, a, 34);
    run_hash<gtl::flat_hash_set<PI, HashFn<PI>, EqFn<PI>, TAlloc<PI, 0>>>("dump_set_alloc", false, a, 35);
    run_hash<gtl::flat_hash_map<int, int, HashFn<int>, EqFn<int>, TAlloc<std::pair<const int, int>, A_POCMA | A_POCS>>>("dump_map_alloc", false, a, 36);
#elif PART == 2
    run_hash<PFM<int, int, 2, std::mutex>>("dump_par_map_int_mutex", false, a, 37);
    run_hash<PFS<uint64_t, 4, gtl::NullMutex>>("dump_par_set_u64_null", false, a, 38);
    run_hash<PFM<uint64_t, Triv24, 0, std::shared_mutex>>("dump_par_map_triv_n0", false, a, 39);
#endif
}
