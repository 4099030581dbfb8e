// lru_cache (PART 0) and the memoize family (PART 1)
#include "cache_driver.hpp"
using namespace vt;
#ifndef PART
#define PART 0
#endif
template<class K, class V, size_t N, class M> using Lru = gtl::lru_cache_impl<K, V, N, HashFn<K>, EqFn<K>, M>;
#define LRU(NAME, IDX, MT, ...) run_cache<LruAd<__VA_ARGS__>>(NAME, a, IDX, MT, false, [](int n) { return new LruAd<__VA_ARGS__>(n); })
template<class Ad, class F>
void memo(const char* name, const Args& a, int idx, bool mt, bool rec, F f) {
    run_cache<Ad>(name, a, idx, mt, rec, [f](int n) { F g = f; return (n & 1) ? new Ad(g, n) : new Ad(std::move(g), n); });
}
int main(int argc, char** argv) {
    Args a = parse(argc, argv);
    using NM = gtl::NullMutex;
#if PART == 0
    LRU("lru_int", 301, false, gtl::lru_cache<int, int>);
    LRU("lru_str", 302, false, gtl::lru_cache<std::string, std::string>);
    LRU("lru_obj_n2", 303, false, Lru<Obj, Obj, 2, NM>);
    LRU("lru_impl_default", 304, true, gtl::lru_cache_impl<int, std::string>);
    LRU("mt_lru_int", 305, true, gtl::mt_lru_cache<int, int>);
    LRU("mt_lru_obj_n0", 306, true, Lru<int, Obj, 0, std::mutex>);
    LRU("mt_lru_obj_n1_shared", 307, true, Lru<Obj, Obj, 1, std::shared_mutex>);
#else
    using F1 = Fn<int, int>;
    using F2 = Fn<std::string, int, std::string>;
    using F3 = Fn<Obj, std::string>;
    using F4 = Fn<int, short, std::string, int>;
    memo<MemoAd<gtl::memoize<F1>, false, false>>("memo_int", a, 311, false, true, F1());
    memo<MemoAd<gtl::memoize<F2, 0>, false, false>>("memo_int_str_n0", a, 312, false, true, F2());
    memo<MemoAd<gtl::memoize<int (*)(int)>, false, false>>("memo_fnptr", a, 313, false, true, &plain_fn);
    memo<MemoAd<gtl::mt_memoize<F4, true, 2, std::mutex>, false, false>>("mt_memo_three_args", a, 314, true, true, F4());
    memo<MemoAd<gtl::mt_memoize<F3, true, 1, std::shared_mutex>, false, false>>("mt_memo_obj_shared", a, 315, true, true, F3());
    memo<MemoAd<gtl::mt_memoize<F1, false>, true, false>>("mt_once_int", a, 316, true, false, F1());
    memo<MemoAd<gtl::mt_memoize<F2, false, 0, std::shared_mutex>, true, false>>("mt_once_str_n0", a, 317, true, false, F2());
    memo<MemoAd<gtl::mt_memoize<F3, false, 1, std::mutex>, true, false>>("mt_once_obj_n1", a, 318, true, false, F3());
    memo<MemoAd<gtl::memoize_lru<F1>, true, true>>("mlru_int", a, 319, false, false, F1());
    memo<MemoAd<gtl::memoize_lru<F2, 0>, true, true>>("mlru_str_n0", a, 320, false, false, F2());
    memo<MemoAd<gtl::mt_memoize_lru<F3, 1>, true, true>>("mt_mlru_obj_n1", a, 321, true, false, F3());
    memo<MemoAd<gtl::mt_memoize_lru<F4, 0, std::shared_mutex>, true, true>>("mt_mlru_three_n0", a, 322, true, false, F4());
    memo<MemoAd<gtl::mt_memoize_lru<F1>, true, true>>("mt_mlru_default", a, 323, true, false, F1());
#endif
}
