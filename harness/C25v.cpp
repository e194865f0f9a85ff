// The library's own version numbers, unmodified.
#include <edsp/core/library_info.hpp>
#include <string>
int c25_real_version(int which) {
    return which == 0 ? edsp::library_info::major_version() : which == 1 ? edsp::library_info::minor_version() : edsp::library_info::patch_version();
}
std::string c25_real_string() {
    return edsp::library_info::version();
}
extern const int c25_variant_0[3];
extern const int c25_variant_1[3];
extern const int c25_variant_2[3];
extern const int c25_variant_3[3];
extern const int c25_variant_4[3];
extern const int c25_variant_5[3];
extern const int c25_variant_6[3];
extern const int c25_variant_7[3];
int c25_backend(int variant, int kind) {
    static const int* all[8] = {c25_variant_0, c25_variant_1, c25_variant_2, c25_variant_3, c25_variant_4, c25_variant_5, c25_variant_6, c25_variant_7};
    return all[variant][kind];
}
