#include "heap.hpp"
#include "bit_driver.hpp"
int main(int argc, char** argv) {
    auto a = vt::parse(argc, argv);
    vt::run_bits(a.profile == "p16" ? "bit_view" : "bit_vector", a, 301);
}
