// C27: Python embedded in the harness. Arrays of any layout over memory the harness owns, calls of the module, results taken apart.
#pragma once
#include <boost/python.hpp>
#include <boost/python/numpy.hpp>
#include "common.hpp"
#include <complex>
#include <map>
#include <memory>

namespace bp = boost::python;
namespace bn = boost::python::numpy;

namespace py {
    using vp::ld;
    using complex = std::complex<double>;

    // drawn at the start of every case: the layouts of the arrays of the case follow from it
    inline std::uint64_t& seed() {
        static std::uint64_t s = 0;
        return s;
    }
    inline std::uint64_t next() {
        auto z = (seed() += 0x9e3779b97f4a7c15ULL);
        z      = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z      = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    inline bool plain() { // 0: every array contiguous, of the sample type
        return seed() == 0;
    }
    inline vp::Ctx*& context() {
        static vp::Ctx* c = nullptr;
        return c;
    }

    // the pending Python exception as text, "TypeError: ..."
    inline std::string error_text() {
        PyObject *t = nullptr, *v = nullptr, *b = nullptr;
        PyErr_Fetch(&t, &v, &b);
        PyErr_NormalizeException(&t, &v, &b);
        std::string r = t ? reinterpret_cast<PyTypeObject*>(t)->tp_name : "no exception";
        if (v) {
            if (PyObject* s = PyObject_Str(v)) {
                const char* p = PyUnicode_AsUTF8(s);
                r += std::string(": ") + (p ? p : "?");
                Py_DECREF(s);
            }
        }
        PyErr_Clear();
        Py_XDECREF(t);
        Py_XDECREF(v);
        Py_XDECREF(b);
        return r;
    }
    // f(), its Python exceptions turned into failures of the case
    template <typename F>
    auto guarded(const std::string& what, F f) {
        try {
            return f();
        } catch (const bp::error_already_set&) {
            throw vp::Failure{what + " raised " + error_text()};
        }
    }
    // the exception f() raises, empty if none
    template <typename F>
    std::string raised(F f) {
        try {
            f();
        } catch (const bp::error_already_set&) {
            const auto t = error_text();
            return t.empty() ? "?" : t;
        }
        return "";
    }
    inline bp::object module(const std::string& name) {
        static std::map<std::string, PyObject*> cache;
        auto& m = cache[name];
        if (!m) {
            m = PyImport_ImportModule(name.c_str());
            if (!m) {
                throw vp::Failure{"import of " + name + " raised " + error_text()};
            }
        }
        return bp::object(bp::handle<>(bp::borrowed(m)));
    }
    inline bp::object fn(const std::string& mod, const std::string& name) {
        static std::map<std::string, PyObject*> cache;
        auto& f = cache[mod + "." + name];
        if (!f) {
            const bp::object package = module("pedsp");
            f                        = guarded("pedsp." + mod + "." + name, [&] { return bp::incref(bp::object(package.attr(mod.c_str()).attr(name.c_str())).ptr()); });
        }
        return bp::object(bp::handle<>(bp::borrowed(f)));
    }

    template <typename T>
    struct Traits;
    template <>
    struct Traits<double> {
        static constexpr const char* dtype = "f8";
        static constexpr const char* swapped = ">f8";
    };
    template <>
    struct Traits<float> {
        static constexpr const char* dtype = "f4";
        static constexpr const char* swapped = ">f4";
    };
    template <>
    struct Traits<complex> {
        static constexpr const char* dtype = "c16";
        static constexpr const char* swapped = ">c16";
    };

    inline bn::dtype dtype(const std::string& name) {
        static std::map<std::string, PyObject*> cache;
        auto& d = cache[name];
        if (!d) {
            d = bp::incref(bn::dtype(bp::object(name)).ptr());
        }
        return bn::dtype(bp::detail::borrowed_reference(d));
    }

    // a one-dimensional array of given values in some element type and memory layout; remembers every byte of its memory
    struct Array {
        unsigned char* memory;
        std::size_t bytes;
        std::vector<unsigned char> before;
        bp::object a;
        std::string layout;

        template <typename T>
        Array(const T* p, std::size_t n) {
            const auto kind = plain() ? 0 : next() % 10;
            std::string type = Traits<T>::dtype;
            std::size_t item = sizeof(T);
            std::ptrdiff_t stride = static_cast<std::ptrdiff_t>(sizeof(T)), offset = 0;
            bool readonly = false;
            layout        = "contiguous";
            switch (kind) {
                case 1:
                    stride *= static_cast<std::ptrdiff_t>(2 + next() % 3);
                    layout = "strided";
                    break;
                case 2:
                    stride = -stride;
                    layout = "reversed";
                    break;
                case 3:
                    offset = static_cast<std::ptrdiff_t>(1 + next() % (sizeof(T) - 1));
                    layout = "misaligned";
                    break;
                case 4:
                    type   = Traits<T>::swapped;
                    layout = "big-endian";
                    break;
                case 5:
                    readonly = true;
                    layout   = "read-only";
                    break;
                case 6:
                    stride = static_cast<std::ptrdiff_t>(sizeof(T)) + 3;
                    layout = "odd stride";
                    break;
                case 7:
                case 8:
                case 9: {
                    const char* narrow = narrower(p, n);
                    if (narrow) {
                        type   = narrow;
                        layout = type;
                        item   = static_cast<std::size_t>(dtype(type).get_itemsize());
                        stride = static_cast<std::ptrdiff_t>(item) * (next() % 3 ? 1 : -2);
                    }
                    break;
                }
                default:
                    break;
            }
            const auto span = static_cast<std::size_t>(std::abs(stride));
            bytes  = static_cast<std::size_t>(offset) + (n ? (n - 1) * span + item : 0);
            memory = static_cast<unsigned char*>(::malloc(bytes ? bytes : 1));
            for (std::size_t i = 0; i < bytes; ++i) {
                memory[i] = static_cast<unsigned char>(0xc1 + i * 7);
            }
            unsigned char* first = memory + offset + (stride < 0 && n ? (n - 1) * span : 0);
            for (std::size_t i = 0; i < n; ++i) {
                store(first + static_cast<std::ptrdiff_t>(i) * stride, p[i], type);
            }
            before.assign(memory, memory + bytes);
            guarded("building an array", [&] {
                a = bn::from_data(first, dtype(type), bp::make_tuple(n), bp::make_tuple(stride), bp::object());
                if (readonly) {
                    a.attr("setflags")(false);
                }
                return 0;
            });
            if (context()) {
                context()->label("array " + layout);
            }
        }
        Array(const Array&) = delete;
        ~Array() {
            a = bp::object();
            ::free(memory);
        }
        // as it was, and nobody kept it
        void check(const std::string& what) const {
            for (std::size_t i = 0; i < bytes; ++i) {
                VP_CHECK(memory[i] == before[i], what << " changed its argument (" << layout << "), at byte " << i);
            }
            VP_CHECK(a.ptr()->ob_refcnt == 1, what << " keeps " << a.ptr()->ob_refcnt - 1 << " references to its argument");
        }

    private:
        template <typename T>
        static const char* narrower(const T* p, std::size_t n) {
            static const char* wide[]  = {"f4", "i8", "i4", "i2", "u2", "u1", "i1", "?", "f2", "u4"};
            static const char* small[] = {"i2", "i1", "u1", "u2", "?", "f2"};
            const char* t = sizeof(T) == 4 ? small[next() % 6] : wide[next() % 10];
            for (std::size_t i = 0; i < n; ++i) {
                double v;
                if constexpr (std::is_same<T, complex>::value) {
                    if (p[i].imag() != 0 || std::signbit(p[i].imag())) {
                        return nullptr;
                    }
                    v = p[i].real();
                } else {
                    v = static_cast<double>(p[i]);
                }
                if (!holds(t, v)) {
                    return nullptr;
                }
            }
            return t;
        }
        static bool holds(const std::string& t, double v) {
            if (t == "f4") {
                return static_cast<double>(static_cast<float>(v)) == v;
            }
            if (t == "f2") {
                return static_cast<double>(static_cast<_Float16>(v)) == v;
            }
            if (v != std::floor(v) || (v == 0 && std::signbit(v))) {
                return false;
            }
            const double lo = t == "i8" ? -9007199254740992.0 : t == "i4" ? -2147483648.0 : t == "i2" ? -32768 : t == "i1" ? -128 : 0;
            const double hi = t == "i8" ? 9007199254740992.0 : t == "i4" ? 2147483647.0 : t == "i2" ? 32767 : t == "u2" ? 65535 : t == "i1" ? 127 : t == "u1" ? 255 : t == "u4" ? 4294967295.0 : 1;
            return v >= lo && v <= hi;
        }
        template <typename V>
        static void put(unsigned char* at, V v) {
            std::memcpy(at, &v, sizeof v);
        }
        template <typename V>
        static void put_swapped(unsigned char* at, V v) {
            unsigned char b[sizeof v];
            std::memcpy(b, &v, sizeof v);
            std::reverse(b, b + sizeof v);
            std::memcpy(at, b, sizeof v);
        }
        template <typename T>
        static void store(unsigned char* at, T v, const std::string& t) {
            if constexpr (std::is_same<T, complex>::value) {
                if (t == "c16") {
                    return put(at, v);
                }
                if (t == ">c16") {
                    put_swapped(at, v.real());
                    return put_swapped(at + 8, v.imag());
                }
                store_real(at, v.real(), t);
            } else {
                store_real(at, v, t);
            }
        }
        template <typename T>
        static void store_real(unsigned char* at, T v, const std::string& t) {
            t == "f8"    ? put(at, static_cast<double>(v))
            : t == ">f8" ? put_swapped(at, static_cast<double>(v))
            : t == "f4"  ? put(at, static_cast<float>(v))
            : t == ">f4" ? put_swapped(at, static_cast<float>(v))
            : t == "f2"  ? put(at, static_cast<_Float16>(v))
            : t == "i8"  ? put(at, static_cast<std::int64_t>(v))
            : t == "i4"  ? put(at, static_cast<std::int32_t>(v))
            : t == "u4"  ? put(at, static_cast<std::uint32_t>(v))
            : t == "i2"  ? put(at, static_cast<std::int16_t>(v))
            : t == "u2"  ? put(at, static_cast<std::uint16_t>(v))
            : t == "i1"  ? put(at, static_cast<std::int8_t>(v))
            : t == "u1"  ? put(at, static_cast<std::uint8_t>(v))
                         : put(at, static_cast<std::uint8_t>(v != 0));
        }
    };

    inline double number(const std::string& what, const bp::object& r) {
        VP_CHECK(PyFloat_CheckExact(r.ptr()), what << " returned a " << Py_TYPE(r.ptr())->tp_name << ", expected a float");
        return PyFloat_AS_DOUBLE(r.ptr());
    }
    inline long integer(const std::string& what, const bp::object& r) {
        VP_CHECK(PyLong_CheckExact(r.ptr()), what << " returned a " << Py_TYPE(r.ptr())->tp_name << ", expected an int");
        return PyLong_AsLong(r.ptr());
    }
    inline bool boolean(const std::string& what, const bp::object& r) {
        VP_CHECK(PyBool_Check(r.ptr()), what << " returned a " << Py_TYPE(r.ptr())->tp_name << ", expected a bool");
        return r.ptr() == Py_True;
    }
    inline std::string text(const std::string& what, const bp::object& r) {
        VP_CHECK(PyUnicode_CheckExact(r.ptr()), what << " returned a " << Py_TYPE(r.ptr())->tp_name << ", expected a str");
        Py_ssize_t n  = 0;
        const char* p = PyUnicode_AsUTF8AndSize(r.ptr(), &n);
        return std::string(p, static_cast<std::size_t>(n));
    }
    // the elements of a returned array, which must be one-dimensional, of the sample type, of the given length and on memory of its own
    template <typename T>
    std::vector<T> elements(const std::string& what, const bp::object& r, long n, std::initializer_list<const Array*> args = {}) {
        bp::extract<bn::ndarray> e(r);
        VP_CHECK(e.check(), what << " returned a " << Py_TYPE(r.ptr())->tp_name << ", expected an array");
        const bn::ndarray a = e();
        VP_CHECK(a.get_nd() == 1, what << " returned an array of " << a.get_nd() << " dimensions");
        VP_CHECK(bn::equivalent(a.get_dtype(), bn::dtype::get_builtin<T>()), what << " returned elements of type " << std::string(bp::extract<std::string>(bp::str(a.get_dtype()))) << ", expected " << Traits<T>::dtype);
        VP_CHECK(n < 0 || a.shape(0) == n, what << " returned " << a.shape(0) << " elements, expected " << n);
        const auto count = static_cast<std::size_t>(a.shape(0));
        std::vector<T> v(count);
        const char* p = a.get_data();
        for (std::size_t i = 0; i < count; ++i) {
            std::memcpy(&v[i], p + static_cast<std::ptrdiff_t>(i) * a.strides(0), sizeof(T));
        }
        for (auto* x : args) {
            const auto* q = reinterpret_cast<const char*>(x->memory);
            VP_CHECK(count == 0 || p + count * sizeof(T) <= q || p >= q + x->bytes, what << " returned its argument");
        }
        return v;
    }

    // module.name(arguments...)
    template <typename... A>
    bp::object call(const std::string& mod, const std::string& name, const A&... args) {
        return guarded(mod + "." + name, [&] { return fn(mod, name)(args...); });
    }
    // array to array
    template <typename T, typename... A>
    void map(const char* mod, const char* name, const double* x, long n, T* out, long size, const A&... rest) {
        Array a(x, static_cast<std::size_t>(n));
        const auto r = elements<T>(name, call(mod, name, a.a, rest...), size, {&a});
        a.check(name);
        std::copy(r.begin(), r.end(), out);
    }
    // array to number
    template <typename... A>
    double reduce(const char* mod, const char* name, const double* x, long n, const A&... rest) {
        Array a(x, static_cast<std::size_t>(n));
        const double r = number(name, call(mod, name, a.a, rest...));
        a.check(name);
        return r;
    }
    // two arrays to number
    inline double reduce2(const char* mod, const char* name, const double* x, const double* y, long n) {
        Array a(x, static_cast<std::size_t>(n)), b(y, static_cast<std::size_t>(n));
        const double r = number(name, call(mod, name, a.a, b.a));
        a.check(name);
        b.check(name);
        return r;
    }
    template <typename I>
    std::vector<double> gather(I b, I e) {
        return std::vector<double>(b, e);
    }
} // namespace py

// every case draws its layouts first; all arrays plain is the simplest
#define VP_PRELUDE(s, c)                                      \
    py::seed()    = s.one_in(5) ? 0 : s.draw(0xffffffffULL); \
    py::context() = &c
