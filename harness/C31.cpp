// C31: generated lists of public headers, compiled as translation units of their own and linked together
#include "common.hpp"
#include <dirent.h>
#include <fstream>
#include <map>
#include <set>
#include <sys/stat.h>
#include <unistd.h>
using namespace vp;

namespace {
    std::string root() {
        const char* r = std::getenv("VERIF_REPO");
        return std::string(r && *r ? r : "/repo") + "/include";
    }
    void scan_dir(const std::string& dir, const std::string& prefix, const std::string& ending, std::vector<std::string>& out) {
        if (DIR* d = opendir(dir.c_str())) {
            while (const dirent* e = readdir(d)) {
                const std::string n = e->d_name;
                if (n[0] == '.') {
                    continue;
                }
                struct stat st{};
                if (stat((dir + "/" + n).c_str(), &st) == 0 && S_ISDIR(st.st_mode)) {
                    if (n != "internal" && n != "thirdparty") { // reached through the public headers
                        scan_dir(dir + "/" + n, prefix + n + "/", ending, out);
                    }
                } else if (n.size() > ending.size() && n.compare(n.size() - ending.size(), ending.size(), ending) == 0) {
                    out.push_back(prefix + n);
                }
            }
            closedir(d);
        }
    }
    const std::vector<std::string>& headers() {
        static const std::vector<std::string> all = [] {
            std::vector<std::string> h;
            scan_dir(root() + "/edsp", "edsp/", ".hpp", h);
            std::sort(h.begin(), h.end());
            return h;
        }();
        return all;
    }

    // a scratch directory that is gone with the case
    struct Scratch {
        char path[64] = "/tmp/vp-c31-XXXXXX";
        std::vector<std::string> files;
        Scratch() { VP_CHECK(mkdtemp(path) != nullptr, "no scratch directory"); }
        ~Scratch() {
            for (const auto& f : files) {
                unlink(f.c_str());
            }
            rmdir(path);
        }
        std::string file(const std::string& name) {
            files.push_back(std::string(path) + "/" + name);
            return files.back();
        }
        std::string text(const std::string& f) {
            std::ifstream in(f);
            std::string line, first;
            while (std::getline(in, line)) {
                if (line.find("error") != std::string::npos || line.find("multiple definition") != std::string::npos) {
                    return line.substr(0, 300);
                }
                if (first.empty()) {
                    first = line;
                }
            }
            return first.substr(0, 300);
        }
    };
#include "C31uses.inc"
    const char* compilers[] = {"g++", "clang++"};
    const int standards[]   = {14, 17};

    // the files that have a line of their own in a preprocessed unit
    std::set<std::string> contributors(const std::string& unit) {
        std::set<std::string> r;
        std::ifstream in(unit);
        std::string line, current;
        while (std::getline(in, line)) {
            if (line.compare(0, 2, "# ") == 0) {
                const auto p = line.find('"'), q = line.rfind('"');
                if (p != std::string::npos && q > p) {
                    current = line.substr(p + 1, q - p - 1);
                }
            } else if (line.find_first_not_of(" \t\r") != std::string::npos && (r.empty() || !r.count(current))) {
                r.insert(current);
            }
        }
        return r;
    }
    // whether a public header has declarations of its own
    bool declares(const std::string& h) {
        std::ifstream in(root() + "/" + h);
        const std::string text((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
        return text.find("\nnamespace edsp") != std::string::npos;
    }

    // compiles a unit of these headers; an empty string, or what the compiler says
    std::string compile(Scratch& dir, const std::string& name, const std::vector<std::string>& list, int compiler, int standard, const std::string& how, bool used) {
        const auto src = dir.file(name + ".cpp"), err = dir.file(name + ".err");
        {
            std::ofstream o(src);
            for (const auto& h : list) {
                o << "#include <" << h << ">\n";
            }
            if (used) {
                std::set<std::string> done;
                for (const auto& h : list) {
                    const auto u = uses.find(h);
                    if (u != uses.end() && done.insert(h).second) {
                        o << "double use_" << name << "_" << done.size() << "(double (&x)[64], double (&y)[64], double (&o)[256]) {\n"
                          << "    (void) x, (void) y;\n    { " << u->second << " }\n    return o[0];\n}\n";
                    }
                }
            }
        }
        const auto ii = dir.file(name + ".ii");
        const std::string front = std::string(compilers[compiler]) + " -std=c++" + std::to_string(standards[standard]) + " -w ";
        const auto run = [&](const std::string& cmd) -> std::string {
            if (std::system((cmd + " >" + err + " 2>&1 </dev/null").c_str()) == 0) {
                return "";
            }
            const auto said = dir.text(err);
            return said.empty() ? "the compiler failed" : said;
        };
        auto said = run(front + "-include cstdint -DUSE_LIBFFTW -DUSE_LIBSAMPLERATE -DUSE_LIBSNDFILE -DUSE_TAGLIB -I" + root() + " -E -o " + ii + " " + src);
        if (!said.empty()) {
            return said;
        }
        const auto seen = contributors(ii);
        for (const auto& h : list) {
            if (declares(h) && !seen.count(root() + "/" + h)) {
                return h + " is included but none of its declarations are there";
            }
        }
        return run(front + how + " " + ii);
    }
    std::string join(const std::vector<std::string>& l) {
        std::string r;
        for (const auto& h : l) {
            r += (r.empty() ? "" : ", ") + h;
        }
        return r;
    }
} // namespace

VP_FAMILY("unit", 700, 8000, "one to four public headers, in any order, as a unit of its own; g++ and clang++, C++14 and C++17; non-trivial: always") {
    const auto& all = headers();
    VP_CHECK(all.size() > 20, "the public headers are not where they should be: " << root());
    const int compiler = s.one_in(4) ? 1 : 0, standard = s.one_in(3) ? 1 : 0;
    std::vector<std::string> list;
    const auto n = 1 + s.draw(3);
    for (std::size_t i = 0; i < n; ++i) {
        list.push_back(all[s.draw(all.size() - 1)]);
    }
    const bool used = s.draw(3) > 0;
    c.label(used ? "used" : "included");
    c.label(std::string(compilers[compiler]) + " C++" + std::to_string(standards[standard]));
    c.label(list.size() == 1 ? "one header" : "several headers");
    c.describe([&](auto& o) { o << compilers[compiler] << " -std=c++" << standards[standard] << ": " << join(list); });
    c.nontrivial();
    Scratch dir;
    const auto said = compile(dir, "unit", list, compiler, standard, used ? "-O0 -S -o /dev/null" : "-fsyntax-only", used);
    VP_CHECK(said.empty(), "does not compile: " << said);
}

VP_FAMILY("program", 24, 300, "two units of the same random set of public headers, each in its own order, linked together; non-trivial: two headers or more") {
    const auto& all = headers();
    VP_CHECK(all.size() > 20, "the public headers are not where they should be: " << root());
    const int compiler = s.one_in(4) ? 1 : 0, standard = s.flip() ? 1 : 0;
    std::vector<std::string> a;
    for (const auto& h : all) {
        if (s.draw(9) > 5) {
            a.push_back(h);
        }
    }
    auto shuffled = [&] {
        auto l = a;
        for (std::size_t i = l.size(); i > 1; --i) {
            std::swap(l[i - 1], l[i - 1 - s.draw(i - 1)]);
        }
        return l;
    };
    const auto x = shuffled(), y = shuffled();
    const bool used = s.draw(3) > 0;
    c.label(used ? "used" : "included");
    c.label(std::string(compilers[compiler]) + " C++" + std::to_string(standards[standard]));
    c.describe([&](auto& o) { o << compilers[compiler] << " -std=c++" << standards[standard] << ": " << join(x) << " | " << join(y); });
    c.nontrivial(a.size() > 1);
    Scratch dir;
    const auto ox = dir.file("x.o"), oy = dir.file("y.o"), both = dir.file("both.o"), err = dir.file("link.err");
    auto said = compile(dir, "x", x, compiler, standard, "-O0 -c -o " + ox, used);
    VP_CHECK(said.empty(), "the first unit does not compile: " << said);
    said = compile(dir, "y", y, compiler, standard, "-O0 -c -o " + oy, used);
    VP_CHECK(said.empty(), "the second unit does not compile: " << said);
    const int rc = std::system(("ld -r -o " + both + " " + ox + " " + oy + " >" + err + " 2>&1").c_str());
    VP_CHECK(rc == 0, "the two units do not link: " << dir.text(err));
}

VP_FAMILY("c", 120, 3000, "headers of the C interface, in any order, in two units linked together; C99, C11, C17 and C++14, gcc and clang; non-trivial: always") {
    static const std::vector<std::string> all = [] {
        std::vector<std::string> h;
        scan_dir(root() + "/../bindings/c/include/cedsp", "cedsp/", ".h", h);
        std::sort(h.begin(), h.end());
        return h;
    }();
    VP_CHECK(all.size() > 3, "the headers of the C interface are not where they should be");
    const char* modes[] = {"gcc -std=c99 -x c", "gcc -std=c11 -x c", "clang -std=c99 -x c", "clang -std=c17 -x c", "g++ -std=c++14 -x c++", "clang++ -std=c++14 -x c++"};
    Scratch dir;
    std::string units[2];
    std::string log;
    for (int u = 0; u < 2; ++u) {
        const std::string mode = modes[s.draw(5)];
        std::vector<std::string> list;
        const auto n = 1 + s.draw(3);
        for (std::size_t i = 0; i < n; ++i) {
            list.push_back(all[s.draw(all.size() - 1)]);
        }
        c.label(mode);
        log += (u ? " | " : "") + mode + ": " + join(list);
        const std::string name = u ? "d" : "c";
        const auto src = dir.file(name + ".src"), obj = dir.file(name + ".o"), err = dir.file(name + ".err");
        {
            std::ofstream o(src);
            for (const auto& h : list) {
                o << "#include <" << h << ">\n";
            }
            o << "int unit_" << name << "(void) { return 0; }\n";
        }
        units[u]     = obj;
        const int rc = std::system((mode + " -w -c -I" + root() + "/../bindings/c/include -o " + obj + " " + src + " >" + err + " 2>&1 </dev/null").c_str());
        VP_CHECK(rc == 0, log << " does not compile: " << dir.text(err));
    }
    c.describe([&](auto& o) { o << log; });
    c.nontrivial();
    const auto both = dir.file("both.o"), err = dir.file("link.err");
    const int rc    = std::system(("ld -r -o " + both + " " + units[0] + " " + units[1] + " >" + err + " 2>&1").c_str());
    VP_CHECK(rc == 0, "the two units do not link: " << log << ": " << dir.text(err));
}
