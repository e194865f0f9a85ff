// C27: the Python module. Its functions are decided by the families of C03, C05, C07, C08, C16, C18 and C26 compiled with VP_PYTHON;
// here: starting the interpreter, strings, the environment, and arguments the module cannot process.
#include "pyapi.hpp"
#include <cstdlib>
#include <unistd.h>
using namespace vp;

extern "C" PyObject* PyInit_pedsp();
namespace vp {
    void startup();
    void startup() {
        ::setenv("OPENBLAS_NUM_THREADS", "1", 1);
        ::setenv("PYTHONMALLOC", "malloc", 1); // every block on its own, for AddressSanitizer
        ::setenv("PYTHONDONTWRITEBYTECODE", "1", 1);
        ::setenv("PYTHONHASHSEED", "0", 1);
        PyImport_AppendInittab("pedsp", &PyInit_pedsp);
        Py_InitializeEx(0);
        PyRun_SimpleString("import sys; sys.path.insert(0, '/opt/vp/venv/lib/python3.12/site-packages')");
        try {
            bn::initialize();
            for (auto* m : {"numpy", "pedsp"}) {
                py::module(m);
            }
        } catch (const bp::error_already_set&) {
            std::fprintf(stderr, "the interpreter does not start: %s\n", py::error_text().c_str());
            std::_Exit(2);
        } catch (const Failure& f) {
            std::fprintf(stderr, "the interpreter does not start: %s\n", f.msg.c_str());
            std::_Exit(2);
        }
    }
} // namespace vp

namespace {
    void utf8(std::string& o, unsigned p) {
        if (p < 0x80) {
            o += static_cast<char>(p);
        } else if (p < 0x800) {
            o += static_cast<char>(0xC0 | p >> 6);
            o += static_cast<char>(0x80 | (p & 63));
        } else if (p < 0x10000) {
            o += static_cast<char>(0xE0 | p >> 12);
            o += static_cast<char>(0x80 | (p >> 6 & 63));
            o += static_cast<char>(0x80 | (p & 63));
        } else {
            o += static_cast<char>(0xF0 | p >> 18);
            o += static_cast<char>(0x80 | (p >> 12 & 63));
            o += static_cast<char>(0x80 | (p >> 6 & 63));
            o += static_cast<char>(0x80 | (p & 63));
        }
    }
    bp::object str(const std::string& t) {
        return bp::object(bp::handle<>(PyUnicode_DecodeUTF8(t.data(), static_cast<Py_ssize_t>(t.size()), "strict")));
    }
    std::string shown(const std::string& t) {
        std::ostringstream o;
        o << '"';
        for (unsigned char ch : t) {
            if (ch < 32 || ch > 126) {
                o << "\\x" << std::hex << static_cast<int>(ch) << std::dec << ";";
            } else {
                o << ch;
            }
        }
        o << '"';
        return o.str();
    }
    // text of any planes, with many delimiters and blanks
    std::string words(Src& s, char delimiter, long most) {
        static const char blanks[] = " \t\n\v\f\r";
        std::string t;
        const auto n = s.size(0, most);
        for (long i = 0; i < n; ++i) {
            switch (s.draw(4)) {
                case 0: t += delimiter; break;
                case 1: t += blanks[s.draw(5)]; break;
                case 2: t += static_cast<char>(s.flip() ? s.range<int>('A', 'Z') : s.range<int>('a', 'z')); break;
                case 3: t += static_cast<char>(s.range<int>(1, 127)); break;
                default: utf8(t, s.pick({0x80u, 0x85u, 0xa0u, 0xc9u, 0xe9u, 0x130u, 0x7ffu, 0x800u, 0x2003u, 0x20acu, 0x4e2du, 0xfffdu, 0x1F600u, 0x10ffffu}));
            }
        }
        return t;
    }
    bool space(unsigned char u) { return u == ' ' || (u >= 9 && u <= 13); }

    void strings(Src& s, Ctx& c) {
        const char d = s.one_in(3) ? ' ' : static_cast<char>(s.range<int>(1, 127));
        const auto x = words(s, d, 60);
        c.describe([&](auto& o) { o << "string functions of " << shown(x) << " with " << shown(std::string(1, d)); });
        size_label(c, x.size());
        std::size_t a = 0, b = x.size();
        while (a < b && space(static_cast<unsigned char>(x[a]))) ++a;
        while (b > a && space(static_cast<unsigned char>(x[b - 1]))) --b;
        const auto one = [&](const char* name, const std::string& want) {
            const auto got = py::text(name, py::call("string", name, str(x)));
            VP_CHECK(got == want, name << " gives " << shown(got) << ", expected " << shown(want));
        };
        one("ltrim", x.substr(a));
        one("rtrim", x.substr(0, b > a ? b : 0));
        one("trim", x.substr(a, b - a));
        std::string low = x, up = x;
        for (auto& ch : low) if (ch >= 'A' && ch <= 'Z') ch = static_cast<char>(ch + 32);
        for (auto& ch : up) if (ch >= 'a' && ch <= 'z') ch = static_cast<char>(ch - 32);
        one("to_lower", low);
        one("to_upper", up);
        std::vector<std::string> want;
        std::string cur;
        for (auto ch : x) {
            if (ch == d) {
                if (!cur.empty()) want.push_back(cur);
                cur.clear();
            } else {
                cur += ch;
            }
        }
        if (!cur.empty()) want.push_back(cur);
        c.nontrivial(want.size() > 1);
        const auto delimiter = str(std::string(1, d));
        const auto got       = py::call("string", "split", str(x), delimiter);
        VP_CHECK(PyList_CheckExact(got.ptr()), "split returned no list");
        VP_CHECK(PyList_GET_SIZE(got.ptr()) == static_cast<Py_ssize_t>(want.size()), "split gives " << PyList_GET_SIZE(got.ptr()) << " pieces, expected " << want.size());
        for (std::size_t i = 0; i < want.size(); ++i) {
            const auto piece = py::text("split", bp::object(got[i]));
            VP_CHECK(piece == want[i], "piece " << i << " is " << shown(piece) << ", expected " << shown(want[i]));
        }
        bp::list any;
        std::string joined;
        const auto n = s.draw(5);
        for (std::uint64_t i = 0; i < n; ++i) {
            const auto w = words(s, d, 8);
            any.append(str(w));
            joined += (i ? std::string(1, d) : std::string()) + w;
        }
        const auto j = py::text("join", py::call("string", "join", any, delimiter));
        VP_CHECK(j == joined, "join gives " << shown(j) << ", expected " << shown(joined));
    }

    void core(Src& s, Ctx& c) {
        History history(c);
        const auto name_of = [&](int k) { return k == 0 ? std::string("VP27_A") : k == 1 ? std::string("VP27_AB") : std::string("VP27_\xc3\xa9"); };
        for (int k = 0; k < 3; ++k) {
            ::unsetenv(name_of(k).c_str());
        }
        std::map<std::string, std::string> model;
        int live = 0;
        if (s.one_in(20)) {
            history += "information";
            const auto number = [&](const char* f) { return std::to_string(py::integer(f, py::call("core", f))); };
            const auto string = [&](const char* f) { return py::text(f, py::call("core", f)); };
            const auto v = number("get_major_version") + "." + number("get_minor_version") + "." + number("get_patch_version");
            VP_CHECK(string("get_version") == v, "get_version is " << string("get_version") << ", the parts give " << v);
            const auto d = string("get_build_date"), t = string("get_build_time");
            VP_CHECK(d.size() == 11 && d[3] == ' ', "get_build_date is " << d);
            VP_CHECK(t.size() == 8 && t[2] == ':' && t[5] == ':', "get_build_time is " << t);
            VP_CHECK(string("get_fft_library") == "fftw" && string("get_codec_library") == "sndfile" && string("get_resample_library") == "samplerate", "a back end is called " << string("get_fft_library") << ", " << string("get_codec_library") << ", " << string("get_resample_library"));
            return;
        }
        for (auto ops = s.range<int>(1, 12); ops > 0; --ops) {
            const auto name = name_of(s.range<int>(0, 2));
            switch (s.draw(2)) {
                case 0: {
                    const auto value = words(s, ';', 40);
                    history += "set " + name + " ";
                    VP_CHECK(py::integer("set_environment", py::call("core", "set_environment", str(name), str(value))) == 0, "set_environment fails");
                    model[name] = value;
                    break;
                }
                case 1:
                    history += "unset " + name + " ";
                    ::unsetenv(name.c_str());
                    model.erase(name);
                    break;
                default: {
                    history += "get " + name + " ";
                    const auto r = py::call("core", "get_environment", str(name));
                    VP_CHECK(PyTuple_CheckExact(r.ptr()) && PyTuple_GET_SIZE(r.ptr()) == 2, "get_environment returned no pair");
                    const auto value = py::text("get_environment", bp::object(r[0]));
                    const auto error = py::integer("get_environment", bp::object(r[1]));
                    const auto it    = model.find(name);
                    VP_CHECK((error == 0) == (it != model.end()), "get_environment of a " << (it != model.end() ? "set" : "missing") << " variable reports " << error);
                    VP_CHECK(value == (it != model.end() ? it->second : std::string()), "get_environment gives " << shown(value));
                    live += it != model.end();
                }
            }
            for (int k = 0; k < 3; ++k) {
                const auto r  = py::call("core", "exist_environment", str(name_of(k)));
                const bool is = PyObject_IsTrue(r.ptr()) == 1;
                VP_CHECK(is == (model.count(name_of(k)) == 1), "exist_environment(" << name_of(k) << ") is " << is);
                const char* raw = ::getenv(name_of(k).c_str());
                VP_CHECK((raw != nullptr) == (model.count(name_of(k)) == 1) && (!raw || model[name_of(k)] == raw), "the process environment is wrong for " << name_of(k));
            }
        }
        for (int k = 0; k < 3; ++k) {
            ::unsetenv(name_of(k).c_str());
        }
        c.nontrivial(live > 0);
    }

    // every function of arrays, sizes and numbers; a: real array, b: real array of the same length, z: complex array, x: number, k: whole number, n: size
    // e: raises on empty arrays rather than making a number up
    struct Function {
        const char* module;
        const char* name;
        const char* arguments;
        bool empty;
    };
    const Function table[] = {
        {"algorithm", "scale", "ax", true}, {"algorithm", "scale_clip", "axxx", true}, {"algorithm", "ceil", "a", true}, {"algorithm", "floor", "a", true},
        {"algorithm", "round", "a", true}, {"algorithm", "clip", "axx", true}, {"algorithm", "trunc", "a", true}, {"algorithm", "abs", "a", true},
        {"algorithm", "logspace", "xxn", true}, {"algorithm", "linspace", "xxn", true}, {"algorithm", "normalize", "a", true}, {"algorithm", "pad", "aN", true},
        {"algorithm", "linear_search", "ax", true}, {"algorithm", "binary_search", "ax", true}, {"algorithm", "index_of", "ax", true}, {"algorithm", "equal", "ab", true},
        {"algorithm", "concatenate", "ab", true},
        {"windowing", "bartlett", "n", true}, {"windowing", "blackman", "n", true}, {"windowing", "blackman_harris", "n", true}, {"windowing", "blackman_nutall", "n", true},
        {"windowing", "boxcar", "n", true}, {"windowing", "flattop", "n", true}, {"windowing", "hamming", "n", true}, {"windowing", "hanning", "n", true},
        {"windowing", "triangular", "n", true}, {"windowing", "welch", "n", true}, {"windowing", "rectangular", "n", true},
        {"statistics", "kurtosis", "a", false}, {"statistics", "skewness", "a", false}, {"statistics", "moment", "ak", false}, {"statistics", "geometric_mean", "a", false},
        {"statistics", "generalized_mean", "ak", false}, {"statistics", "harmonic_mean", "a", false}, {"statistics", "max", "a", false}, {"statistics", "max_abs", "a", false},
        {"statistics", "min", "a", false}, {"statistics", "min_abs", "a", false}, {"statistics", "peak", "a", false}, {"statistics", "peak_abs", "a", false},
        {"statistics", "mean", "a", false}, {"statistics", "median", "a", false}, {"statistics", "variance", "a", false}, {"statistics", "standard_deviation", "a", false},
        {"statistics", "norm", "a", true}, {"statistics", "centroid", "a", false}, {"statistics", "weighted_centroid", "ab", false}, {"statistics", "crest", "a", false},
        {"statistics", "decrease", "a", false}, {"statistics", "entropy", "a", false}, {"statistics", "flatness", "a", false}, {"statistics", "flux", "ab", false},
        {"statistics", "rolloff", "ax", false}, {"statistics", "slope", "ab", false}, {"statistics", "spread", "a", false}, {"statistics", "weighted_spread", "ab", false},
        {"spectral", "conv", "ab", false}, {"spectral", "xcorr", "ab", false}, {"spectral", "cepstrum", "a", false}, {"spectral", "dct", "a", false},
        {"spectral", "idct", "a", false}, {"spectral", "spectrum", "a", false}, {"spectral", "hilbert", "a", false}, {"spectral", "hartley", "a", false},
        {"spectral", "rfft", "a", false}, {"spectral", "irfft", "z", false}, {"spectral", "fft", "z", false}, {"spectral", "ifft", "z", false},
        {"spectral", "spectral_centroid", "ab", false}, {"spectral", "spectral_crest", "a", false}, {"spectral", "spectral_decrease", "a", false},
        {"spectral", "spectral_entropy", "a", false}, {"spectral", "spectral_flatness", "a", false}, {"spectral", "spectral_flux", "ab", false},
        {"spectral", "spectral_irregularity", "a", false}, {"spectral", "spectral_kurtosis", "a", false}, {"spectral", "spectral_rolloff", "ax", false},
        {"spectral", "spectral_skewness", "a", false}, {"spectral", "spectral_slope", "ab", false}, {"spectral", "spectral_spread", "ab", false},
        {"spectral", "spectral_variation", "ab", false},
        {"temporal", "duration", "ax", true}, {"temporal", "effective_duration", "axx", false}, {"temporal", "amdf", "a", true}, {"temporal", "asdf", "a", true},
        {"temporal", "azcr", "a", false}, {"temporal", "energy", "a", true}, {"temporal", "power", "a", false}, {"temporal", "rms", "a", false},
        {"temporal", "rssq", "a", true}, {"temporal", "leq", "a", false},
        {"converter", "db2mag", "x", true}, {"converter", "db2pow", "x", true}, {"converter", "deg2rad", "x", true}, {"converter", "mag2db", "x", true},
        {"converter", "pow2db", "x", true}, {"converter", "rad2deg", "x", true}, {"converter", "peak2peak", "a", false}, {"converter", "peak2rms", "a", false},
        {"converter", "complex2real", "z", true}, {"converter", "real2complex", "a", true}, {"converter", "ri2complex", "ab", true},
        {"auditory", "hertz2mel", "x", true}, {"auditory", "hertz2bark", "x", true}, {"auditory", "hertz2cent", "x", true}, {"auditory", "hertz2erb", "x", true},
        {"auditory", "mel2hertz", "x", true}, {"auditory", "bark2hertz", "x", true}, {"auditory", "cent2hertz", "x", true}, {"auditory", "erb2hertz", "x", true},
        {"auditory", "erbspace", "xxn", true}, {"auditory", "barkspace", "xxn", true}, {"auditory", "centspace", "xxn", true}, {"auditory", "melspace", "xxn", true},
    };
    constexpr std::size_t functions = sizeof table / sizeof *table;

    bp::object evaluate(const std::string& expression) {
        static PyObject* names = nullptr;
        if (!names) {
            names = PyDict_New();
            PyDict_SetItemString(names, "np", py::module("numpy").ptr());
        }
        return py::guarded(expression, [&] {
            return bp::object(bp::handle<>(PyRun_String(expression.c_str(), Py_eval_input, names, names)));
        });
    }

    // one argument is what the function cannot take: an exception, nothing else
    void refused(Src& s, Ctx& c) {
        const auto& f = table[s.draw(functions - 1)];
        const std::string args = f.arguments;
        const auto n   = s.size(1, 20);
        const auto bad = s.draw(args.size() - 1);
        const char k   = args[bad];
        std::vector<std::string> text;
        const auto count = std::to_string(n);
        for (char a : args) {
            text.push_back(a == 'a' || a == 'b' ? "np.arange(1.0, " + count + " + 1.0)" : a == 'z' ? "np.arange(1.0, " + count + " + 1.0) * (1 + 2j)" : a == 'x' ? "0.5" : a == 'k' ? "2" : a == 'n' ? count : std::to_string(n + 3));
        }
        std::string wrong;
        if (k == 'a' || k == 'b' || k == 'z') {
            const auto other = std::to_string(s.flip() ? n + s.range<long>(1, 9) : s.range<long>(0, n - 1));
            const bool pair  = args.find('b') != std::string::npos && std::string(f.name) != "equal" && std::string(f.name) != "concatenate";
            switch (s.draw(k == 'z' ? 7 : 9)) {
                case 0: wrong = "np.ones((" + count + ", 2))"; break;
                case 1: wrong = "np.ones((1, " + count + "))"; break;
                case 2: wrong = "np.array(1.5)"; break;
                case 3: wrong = "np.ones((2, 2, 2))"; break;
                case 4: wrong = "np.array(['a'] * " + count + ")"; break;
                case 5: wrong = "np.array([None] * " + count + ")"; break;
                case 6: wrong = s.pick({std::string("None"), std::string("'text'"), std::string("1.5"), std::string("{}"), std::string("object()")}); break;
                case 7: wrong = pair ? "np.ones(" + other + ")" : "np.zeros(" + count + ", dtype=[('x', 'f8'), ('y', 'f8')])"; break;
                case 8: wrong = "np.ones(" + count + ") * (1 + 1j)"; break;
                default: wrong = "np.zeros(" + count + ", dtype='M8[s]')";
            }
        } else if (k == 'x' || k == 'k') {
            wrong = s.pick({std::string("None"), std::string("'1'"), std::string("[1.0]"), std::string("1j"), std::string("np.ones(2)")});
        } else if (k == 'n' || (k == 'N' && s.flip())) {
            wrong = s.pick({std::string("-1"), std::string("-2147483648"), std::string("-9223372036854775808"), std::string("2**63"), std::string("None"), std::string("'3'"), std::string("1 << 60"), std::string("2.5")});
        } else {
            wrong = std::to_string(s.range<long>(0, n - 1)); // padding to less
        }
        const bool count_wrong = s.one_in(8);
        if (count_wrong) {
            s.flip() ? text.push_back("1") : text.pop_back();
        } else {
            text[bad] = wrong;
        }
        std::string call = std::string(f.module) + "." + f.name + "(";
        for (std::size_t i = 0; i < text.size(); ++i) {
            call += (i ? ", " : "") + text[i];
        }
        call += ")";
        c.describe([&](auto& o) { o << call; });
        c.label(f.module);
        c.label(count_wrong ? "number of arguments" : std::string("argument ") + k);
        c.nontrivial();
        bp::list values;
        for (auto& t : text) {
            values.append(evaluate(t));
        }
        const auto before = std::string(bp::extract<std::string>(bp::str(values)));
        bp::object result;
        const auto error = py::raised([&] { result = py::fn(f.module, f.name)(*bp::tuple(values)); });
        VP_CHECK(!error.empty(), call << " returned " << std::string(bp::extract<std::string>(bp::str(result))) << ", expected an exception");
        VP_CHECK(error.find("SystemError") == std::string::npos, call << " raised " << error);
        VP_CHECK(before == std::string(bp::extract<std::string>(bp::str(values))), call << " raised " << error << " and changed its arguments");
    }

    // nothing in it, or a single element: an exception or a result that follows from it, never somebody else's memory
    void smallest(Src& s, Ctx& c) {
        const auto& f = table[s.draw(functions - 1)];
        const std::string args = f.arguments;
        const long n = s.one_in(3) ? 1 : 0;
        const auto v = s.real(-5, 5);
        std::vector<double> data(static_cast<std::size_t>(n), v);
        std::vector<py::complex> both(static_cast<std::size_t>(n), py::complex(v, 1));
        std::vector<std::unique_ptr<py::Array>> arrays;
        bp::list values;
        bool arrayed = false;
        for (char a : args) {
            if (a == 'a' || a == 'b') {
                arrays.push_back(std::make_unique<py::Array>(data.data(), data.size()));
                values.append(arrays.back()->a);
                arrayed = true;
            } else if (a == 'z') {
                arrays.push_back(std::make_unique<py::Array>(both.data(), both.size()));
                values.append(arrays.back()->a);
                arrayed = true;
            } else if (a == 'x') {
                values.append(0.5);
            } else if (a == 'k') {
                values.append(2);
            } else {
                values.append(n);
            }
        }
        c.describe([&](auto& o) { o << f.module << "." << f.name << " of " << n << " elements " << v; });
        c.label(n ? "one element" : "empty");
        c.nontrivial(arrayed);
        bp::object result;
        const auto error = py::raised([&] { result = py::fn(f.module, f.name)(*bp::tuple(values)); });
        if (n == 0 && arrayed && !f.empty) { // there is no such number
            bool number = false;
            if (PyFloat_Check(result.ptr())) {
                number = !std::isnan(PyFloat_AS_DOUBLE(result.ptr()));
            } else if (error.empty() && PyTuple_Check(result.ptr())) {
                number = true;
            }
            VP_CHECK(!number || PyFloat_AS_DOUBLE(result.ptr()) == 0, f.name << " of an empty array is " << std::string(bp::extract<std::string>(bp::str(result))));
        } else if (n == 0) {
            VP_CHECK(error.empty(), f.name << " of an empty array raised " << error);
        }
        VP_CHECK(error.find("SystemError") == std::string::npos, f.name << " raised " << error);
        values = bp::list();
        for (auto& a : arrays) {
            a->check(f.name);
        }
    }
} // namespace

VP_FAMILY("strings", 100000, 1000000, "string functions on text of any planes against a byte model; non-trivial: more than one piece") { strings(s, c); }
VP_FAMILY("core", 60000, 600000, "versions and environment histories; non-trivial: a set variable is read") { core(s, c); }
VP_FAMILY("refused", 200000, 2000000, "one argument of any function is of a wrong dimension, length, type or size: an exception, arguments unchanged; non-trivial: always") { refused(s, c); }
VP_FAMILY("smallest", 100000, 1000000, "no element or one, in any layout: an exception or a value, no foreign memory; non-trivial: arrays involved") { smallest(s, c); }
