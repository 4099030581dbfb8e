#include "vec_driver.hpp"
using namespace vt;
#ifndef PART
#define PART 0
#endif
template<class E, int P> using VA = gtl::vector<E, TAlloc<E, P>>;
int main(int argc, char** argv) {
    Args a = parse(argc, argv);
#if PART == 0
    run_vec<gtl::vector<int>>("vec_int", a, 201);
    run_vec<gtl::vector<Obj>>("vec_obj", a, 202);
    run_vec<gtl::vector<MObj>>("vec_moveonly", a, 203);
    run_vec<gtl::vector<Triv24>>("vec_triv24", a, 204);
    run_vec<VA<Obj, 0>>("vec_obj_alloc0", a, 205);
    run_vec<gtl::vector<Triv3>>("vec_triv3", a, 206);
#else
    run_vec<gtl::vector<CObj>>("vec_copyonly", a, 207);
    run_vec<gtl::vector<TObj>>("vec_throwmove", a, 208);
    run_vec<gtl::vector<std::string>>("vec_str", a, 209);
    run_vec<gtl::vector<Ovr>>("vec_over", a, 210);
    run_vec<VA<TObj, A_POCMA | A_POCS>>("vec_throwmove_alloc", a, 211);
    run_vec<VA<int, A_POCCA>>("vec_int_alloc", a, 212);
    run_vec<VA<std::string, A_POCMA>>("vec_str_pocma", a, 214);
    run_vec<gtl::vector<BObj>>("vec_big", a, 213);
#endif
}
