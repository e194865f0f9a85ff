#define VPBT_MAIN
#include "vpbt.hpp"
namespace vp {
    void __attribute__((weak)) startup(); // once, before anything runs
}
int main(int argc, char** argv) {
    if (vp::startup) {
        vp::startup();
    }
    return vp::run_main(argc, argv);
}
