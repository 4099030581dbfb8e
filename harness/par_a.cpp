// parallel containers used by several threads
#include "par_driver.hpp"
using namespace vt;
#ifndef PART
#define PART 0
#endif
template<class K, class V> using Al = std::allocator<std::pair<const K, V>>;
template<class K, class V, size_t N, class M> using PFM = gtl::parallel_flat_hash_map<K, V, HashFn<K>, EqFn<K>, Al<K, V>, N, M>;
template<class K, class V, size_t N, class M> using PNM = gtl::parallel_node_hash_map<K, V, HashFn<K>, EqFn<K>, Al<K, V>, N, M>;
template<class K, size_t N, class M> using PFS = gtl::parallel_flat_hash_set<K, HashFn<K>, EqFn<K>, std::allocator<K>, N, M>;
template<class K, size_t N, class M> using PNS = gtl::parallel_node_hash_set<K, HashFn<K>, EqFn<K>, std::allocator<K>, N, M>;
int main(int argc, char** argv) {
    Args a = parse(argc, argv);
#if PART == 0
    run_par<PFM<int, int, 1, std::mutex>, 2>("mt_flat_map_int_mutex", a, 201);
    run_par<PNS<Obj, 1, std::shared_mutex>, 2>("mt_node_set_obj_shared", a, 202);
#elif PART == 1
    run_par<PFM<int, Obj, 1, std::shared_mutex>, 2>("mt_flat_map_obj_shared", a, 203);
    run_par<PFS<std::string, 2, std::mutex>, 4>("mt_flat_set_str_mutex", a, 204);
#elif PART == 2
    run_par<PNM<Obj, Obj, 0, std::shared_mutex>, 1>("mt_node_map_obj_shared_n0", a, 205);
    run_par<PFS<Obj, 1, std::shared_mutex>, 2>("mt_flat_set_obj_shared", a, 206);
#elif PART == 3
    run_par<PNM<std::string, int, 2, std::mutex>, 4>("mt_node_map_str_mutex", a, 207);
    run_par<PFM<Obj, int, 2, std::shared_mutex>, 4>("mt_flat_map_objkey_shared", a, 208);
#endif
}
