// C17: ring buffers and the span underneath against a bounded double-ended queue
#undef NDEBUG
#include "common.hpp"
#include <edsp/types/fixed_ring_buffer.hpp>
#include <edsp/types/ring_buffer.hpp>
#include <memory>
using namespace vp;

namespace {
    template <typename E>
    E element(uint64_t k);
    template <>
    int element<int>(uint64_t k) {
        return static_cast<int>(k);
    }
    template <>
    double element<double>(uint64_t k) {
        return static_cast<double>(k) / 4;
    }
    template <>
    std::string element<std::string>(uint64_t k) {
        return std::string(k % 3 ? 1 : 40, 'a') + std::to_string(k);
    }

    template <typename E>
    struct Model {
        std::deque<E> q;
        std::size_t cap{0};
        void push_back(const E& e) {
            if (cap == 0) {
                return;
            }
            if (q.size() == cap) {
                q.pop_front();
            }
            q.push_back(e);
        }
        void push_front(const E& e) {
            if (cap == 0) {
                return;
            }
            if (q.size() == cap) {
                q.pop_back();
            }
            q.push_front(e);
        }
    };

    template <typename B, typename E>
    void compare(B& b, const Model<E>& m, bool subscripts) {
        const B& cb = b;
        VP_CHECK(cb.size() == m.q.size() && cb.capacity() == m.cap, "size " << cb.size() << " of " << cb.capacity() << ", expected " << m.q.size() << " of " << m.cap);
        VP_CHECK(cb.empty() == m.q.empty() && cb.full() == (m.q.size() == m.cap), "empty() = " << cb.empty() << ", full() = " << cb.full() << " with " << m.q.size() << " of " << m.cap);
        if (!m.q.empty()) {
            VP_CHECK(b.front() == m.q.front() && cb.front() == m.q.front() && b.back() == m.q.back() && cb.back() == m.q.back(), "front/back are " << cb.front() << "/" << cb.back() << ", expected " << m.q.front() << "/" << m.q.back());
        }
        const std::vector<E> want(m.q.begin(), m.q.end()), backwards(m.q.rbegin(), m.q.rend());
        VP_CHECK(std::vector<E>(b.begin(), b.end()) == want && std::vector<E>(cb.begin(), cb.end()) == want && std::vector<E>(cb.cbegin(), cb.cend()) == want, "iteration gives " << show(std::vector<E>(cb.begin(), cb.end())) << ", expected " << show(want));
        VP_CHECK(std::vector<E>(b.rbegin(), b.rend()) == backwards && std::vector<E>(cb.rbegin(), cb.rend()) == backwards && std::vector<E>(cb.crbegin(), cb.crend()) == backwards, "reverse iteration differs");
        VP_CHECK(b.end() - b.begin() == static_cast<std::ptrdiff_t>(want.size()), "end - begin = " << (b.end() - b.begin()));
        for (std::size_t i = 0; i < want.size(); ++i) {
            const auto it = b.begin() + static_cast<int>(i);
            VP_CHECK(*it == want[i] && *(b.end() - static_cast<int>(want.size() - i)) == want[i] && it < b.end() && it >= b.begin() && it != b.end() && !(it > b.end()), "iterator arithmetic at " << i);
        }
        (void) subscripts;
    }
    template <typename B, typename E>
    void compare_subscripts(B& b, const Model<E>& m) {
        const B& cb = b;
        for (std::size_t i = 0; i < m.q.size(); ++i) {
            VP_CHECK(b[i] == m.q[i] && cb[i] == m.q[i] && b.at(i) == m.q[i] && cb.at(i) == m.q[i], "element " << i << " is " << cb[i] << ", expected " << m.q[i]);
        }
        static unsigned turn = 0; // exceptions are slow
        if (++turn % 8 == 0) {
            const std::size_t past[] = {m.q.size(), m.q.size() + 1, m.cap, m.cap + 3, ~std::size_t(0)};
            const auto i             = past[(turn / 8) % 5];
            if (i >= m.q.size()) {
                int thrown = 0;
                try {
                    b.at(i);
                } catch (const std::out_of_range&) {
                    ++thrown;
                }
                try {
                    cb.at(i);
                } catch (const std::out_of_range&) {
                    ++thrown;
                }
                VP_CHECK(thrown == 2, "at(" << i << ") of " << m.q.size() << " elements did not throw");
            }
        }
    }

    // pushes, pops and writes common to all of them
    template <typename B, typename E>
    bool common(Src& s, Ctx& c, B& b, Model<E>& m, uint64_t& counter) {
        const auto op = s.draw(9);
        switch (op) {
            case 0:
            case 1:
            case 2: {
                const auto n = s.range<int>(1, 6);
                for (int i = 0; i < n; ++i) {
                    const auto e = element<E>(++counter);
                    b.push_back(e);
                    m.push_back(e);
                }
                c.describe([&](auto& o) { o << "push_back*" << n << " "; });
                return true;
            }
            case 3: {
                if (m.cap && s.one_in(1500)) { // a marathon: far more elements than any counter of 16 bits counts
                    const auto n     = s.range<int>(1000, 80000);
                    const auto drain = s.range<int>(1, 9);
                    c.describe([&](auto& o) { o << "(push_back, sometimes pop_front)*" << n << " "; });
                    c.label("marathon");
                    for (int i = 0; i < n; ++i) {
                        const auto e = element<E>(++counter);
                        b.push_back(e);
                        m.push_back(e);
                        VP_CHECK(b.front() == m.q.front() && b.back() == m.q.back(), "after " << i + 1 << " elements the ends differ from those expected");
                        if (drain < 6 && i % drain == 0 && i % 3) {
                            b.pop_front();
                            m.q.pop_front();
                        }
                    }
                    return true;
                }
                const auto e = element<E>(++counter);
                b.emplace_back(e);
                m.push_back(e);
                c.describe([&](auto& o) { o << "emplace_back "; });
                return true;
            }
            case 4: {
                const auto e = element<E>(++counter);
                b.emplace_front(e);
                m.push_front(e);
                c.describe([&](auto& o) { o << "emplace_front "; });
                return true;
            }
            case 5:
            case 6: {
                const auto n = s.range<int>(1, 4);
                for (int i = 0; i < n && !m.q.empty(); ++i) {
                    b.pop_front();
                    m.q.pop_front();
                }
                c.describe([&](auto& o) { o << "pop_front*" << n << " "; });
                return true;
            }
            case 7: {
                if (!m.q.empty()) {
                    b.pop_back();
                    m.q.pop_back();
                }
                c.describe([&](auto& o) { o << "pop_back "; });
                return true;
            }
            case 8: {
                if (!m.q.empty()) { // writes through references and iterators
                    const auto i = s.draw(m.q.size() - 1);
                    const auto e = element<E>(++counter);
                    *(b.begin() + static_cast<int>(i)) = e;
                    m.q[i]                             = e;
                    b.front() = m.q.front() = element<E>(++counter);
                    b.back() = m.q.back() = element<E>(++counter);
                }
                c.describe([&](auto& o) { o << "write "; });
                return true;
            }
            default: {
                if (!m.q.empty() && m.cap) { // push one of its own elements
                    const auto i = s.draw(m.q.size() - 1);
                    const auto e = m.q[i];
                    if (s.flip()) {
                        b.push_back(*(b.begin() + static_cast<int>(i)));
                        m.push_back(e);
                    } else {
                        b.push_back(b.front());
                        m.push_back(E(m.q.front()));
                    }
                }
                c.describe([&](auto& o) { o << "push own "; });
                return true;
            }
        }
    }

    template <typename E>
    void growable(Src& s, Ctx& c) {
        using B = edsp::ring_buffer<E>;
        std::vector<std::unique_ptr<B>> real;
        std::vector<Model<E>> model;
        uint64_t counter = 0;
        const auto cap   = [&] { return static_cast<std::size_t>(s.one_in(10) ? s.range<int>(0, 100) : s.range<int>(1, 8)); };
        const auto fresh = [&] {
            const auto n = cap();
            Model<E> m;
            m.cap = n;
            switch (s.draw(4)) {
                case 0: {
                    const auto e = element<E>(++counter);
                    real.push_back(std::make_unique<B>(n, e));
                    m.q.assign(n, e);
                    c.describe([&](auto& o) { o << "buffer(" << n << ", value) "; });
                    break;
                }
                case 1: {
                    real.push_back(std::make_unique<B>());
                    m.cap = 0;
                    if (s.flip()) {
                        real.back()->resize(n);
                        m.cap = n;
                    }
                    c.describe([&](auto& o) { o << "buffer()" << (m.cap ? ".resize " : " ") << m.cap << " "; });
                    break;
                }
                default:
                    real.push_back(std::make_unique<B>(n));
                    c.describe([&](auto& o) { o << "buffer(" << n << ") "; });
                    break;
            }
            model.push_back(m);
        };
        fresh();
        const auto steps = s.size(1, 40);
        std::size_t wraps = 0, specials = 0;
        for (long i = 0; i < steps; ++i) {
            const auto k = s.draw(real.size() - 1);
            auto& b      = *real[k];
            auto& m      = model[k];
            if (!s.one_in(4)) {
                common(s, c, b, m, counter);
                wraps += m.cap && m.q.size() == m.cap;
            } else {
                ++specials;
                switch (s.draw(6)) {
                    case 0:
                        b.clear();
                        m.q.clear();
                        c.label("clear");
                        c.describe([&](auto& o) { o << "clear "; });
                        break;
                    case 1: {
                        const auto n = cap();
                        b.resize(n);
                        m.q.clear();
                        m.cap = n;
                        c.label("resize");
                        c.describe([&](auto& o) { o << "resize " << n << " "; });
                        break;
                    }
                    case 2: { // copy construct
                        c.label("copy");
                        c.describe([&](auto& o) { o << "copy of " << k << " "; });
                        if (real.size() < 4) {
                            real.push_back(std::make_unique<B>(b));
                            model.push_back(Model<E>(m));
                        }
                        break;
                    }
                    case 3: { // move construct; the source is left empty and usable
                        c.label("move");
                        c.describe([&](auto& o) { o << "move of " << k << " "; });
                        if (real.size() < 4) {
                            real.push_back(std::make_unique<B>(std::move(b)));
                            Model<E> moved = m;
                            m.q.clear();
                            m.cap = b.capacity();
                            VP_CHECK(b.empty() && b.size() == 0, "a moved-from buffer has " << b.size() << " elements");
                            model.push_back(moved);
                        }
                        break;
                    }
                    case 4: { // assign from another or itself
                        const auto from = s.draw(real.size() - 1);
                        c.label(from == k ? "self assignment" : "assignment");
                        c.describe([&](auto& o) { o << "assign " << from << " to " << k << " "; });
                        if (from == k) {
                            auto& alias = *real[from];
                            b           = alias;
                        } else if (s.flip()) {
                            b = *real[from];
                            m = Model<E>(model[from]);
                        } else {
                            b = std::move(*real[from]);
                            m = Model<E>(model[from]);
                            VP_CHECK(real[from]->empty(), "a moved-from buffer is not empty");
                            model[from].q.clear();
                            model[from].cap = real[from]->capacity();
                        }
                        break;
                    }
                    case 5: {
                        const auto other = s.draw(real.size() - 1);
                        c.label("swap");
                        c.describe([&](auto& o) { o << "swap " << k << "," << other << " "; });
                        std::swap(b, *real[other]);
                        std::swap(m, model[other]);
                        break;
                    }
                    default: {
                        if (real.size() < 4) {
                            fresh();
                        } else { // destroy one
                            real.erase(real.begin() + static_cast<long>(k));
                            model.erase(model.begin() + static_cast<long>(k));
                            c.describe([&](auto& o) { o << "destroy " << k << " "; });
                        }
                        break;
                    }
                }
            }
            for (std::size_t j = 0; j < real.size(); ++j) {
                compare(*real[j], model[j], true);
                compare_subscripts(*real[j], model[j]);
                VP_CHECK(real[j]->buffer().size() == model[j].cap && (model[j].cap == 0 || real[j]->data() == real[j]->buffer().data()), "buffer() of " << real[j]->buffer().size() << " elements for a capacity of " << model[j].cap);
            }
        }
        c.nontrivial(wraps >= 1 && steps >= 5);
        c.label(specials ? "with clear, resize, copies or moves" : "plain");
    }

    template <typename E, std::size_t N>
    void fixed_of(Src& s, Ctx& c) {
        using B = edsp::fixed_ring_buffer<E, N>;
        std::vector<std::unique_ptr<B>> real;
        std::vector<Model<E>> model(1);
        model[0].cap = N;
        real.push_back(std::make_unique<B>());
        uint64_t counter = 0;
        c.describe([&](auto& o) { o << "fixed buffer of " << N << " "; });
        const auto steps = s.size(1, 40);
        std::size_t wraps = 0;
        for (long i = 0; i < steps; ++i) {
            const auto k = s.draw(real.size() - 1);
            auto& b      = *real[k];
            auto& m      = model[k];
            if (!s.one_in(5)) {
                common(s, c, b, m, counter);
                wraps += m.q.size() == N;
            } else {
                switch (s.draw(4)) {
                    case 0:
                        b.clear();
                        m.q.clear();
                        c.label("clear");
                        c.describe([&](auto& o) { o << "clear "; });
                        break;
                    case 1:
                        c.label("copy");
                        c.describe([&](auto& o) { o << "copy of " << k << " "; });
                        if (real.size() < 3) {
                            real.push_back(std::make_unique<B>(b));
                            model.push_back(Model<E>(m));
                        }
                        break;
                    case 2: {
                        const auto from = s.draw(real.size() - 1);
                        c.label(from == k ? "self assignment" : "assignment");
                        c.describe([&](auto& o) { o << "assign " << from << " to " << k << " "; });
                        auto& alias = *real[from];
                        b           = alias;
                        m           = Model<E>(model[from]);
                        break;
                    }
                    case 3: {
                        const auto other = s.draw(real.size() - 1);
                        c.label("swap");
                        c.describe([&](auto& o) { o << "swap " << k << "," << other << " "; });
                        std::swap(b, *real[other]);
                        std::swap(m, model[other]);
                        break;
                    }
                    default:
                        if (real.size() > 1) {
                            real.erase(real.begin() + static_cast<long>(k));
                            model.erase(model.begin() + static_cast<long>(k));
                            c.describe([&](auto& o) { o << "destroy " << k << " "; });
                        }
                        break;
                }
            }
            for (std::size_t j = 0; j < real.size(); ++j) {
                compare(*real[j], model[j], true);
                compare_subscripts(*real[j], model[j]);
                VP_CHECK(real[j]->max_size() == N && real[j]->buffer().size() == N && real[j]->data() == real[j]->buffer().data(), "max_size() = " << real[j]->max_size());
            }
        }
        c.nontrivial(wraps >= 1 && steps >= 5);
    }

    template <typename E>
    void fixed(Src& s, Ctx& c) {
        switch (s.draw(3)) {
            case 0: return fixed_of<E, 3>(s, c);
            case 1: return fixed_of<E, 1>(s, c);
            case 2: return fixed_of<E, 2>(s, c);
            default: return fixed_of<E, 7>(s, c);
        }
    }

    // a span over storage owned by somebody else: only its elements are written
    template <typename E>
    void span(Src& s, Ctx& c) {
        using B          = edsp::ring_span<E>;
        const auto cap   = static_cast<std::size_t>(s.range<int>(0, 9));
        uint64_t counter = 0;
        std::vector<E> storage(cap + 8, element<E>(999999)), other_storage(5, element<E>(999999));
        const auto base = storage.begin() + 4;
        Model<E> m, om;
        m.cap  = cap;
        om.cap = 3;
        std::unique_ptr<B> b;
        if (s.flip() || cap == 0) {
            b = std::make_unique<B>(base, base + static_cast<long>(cap));
        } else { // over existing elements
            const auto first = s.draw(cap - 1), size = s.draw(cap);
            for (std::size_t i = 0; i < size; ++i) {
                const auto e = element<E>(++counter);
                storage[4 + (first + i) % cap] = e;
                m.q.push_back(e);
            }
            b = std::make_unique<B>(base, base + static_cast<long>(cap), base + static_cast<long>(first), size);
            c.label("over existing elements");
        }
        B other(other_storage.begin() + 1, other_storage.begin() + 4);
        c.describe([&](auto& o) { o << "span of " << cap << " with " << m.q.size() << " "; });
        const auto steps  = s.size(1, 40);
        std::size_t wraps = 0;
        bool swapped = false;
        for (long i = 0; i < steps; ++i) {
            switch (s.draw(7)) {
                case 0: {
                    const auto e = element<E>(++counter);
                    auto moved   = e;
                    s.flip() ? b->push_front(std::move(moved)) : b->push_front(e);
                    m.push_front(e);
                    c.describe([&](auto& o) { o << "push_front "; });
                    break;
                }
                case 1: {
                    if (!m.q.empty()) {
                        const bool front = s.flip();
                        const E want     = front ? m.q.front() : m.q.back();
                        const E got      = front ? b->pop_front() : b->pop_back();
                        VP_CHECK(got == want, "pop returned " << got << ", expected " << want);
                        front ? m.q.pop_front() : m.q.pop_back();
                        c.describe([&](auto& o) { o << (front ? "pop_front " : "pop_back "); });
                    }
                    break;
                }
                case 2: {
                    if (s.one_in(3)) {
                        using std::swap;
                        s.flip() ? b->swap(other) : swap(*b, other);
                        std::swap(m, om);
                        swapped = true;
                        c.label("swap");
                        c.describe([&](auto& o) { o << "swap "; });
                    } else {
                        const auto e = element<E>(++counter);
                        auto moved = e;
                        b->push_back(std::move(moved));
                        m.push_back(e);
                        c.describe([&](auto& o) { o << "push_back(&&) "; });
                    }
                    break;
                }
                default: common(s, c, *b, m, counter); break;
            }
            wraps += m.cap && m.q.size() == m.cap;
            compare(*b, m, false);
            compare(other, om, false);
            const auto untouched = element<E>(999999);
            for (std::size_t j = 0; j < 4; ++j) {
                VP_CHECK(storage[j] == untouched && storage[cap + 4 + j] == untouched, "storage outside the span was written");
            }
            VP_CHECK(other_storage[0] == untouched && other_storage[4] == untouched, "storage outside the span was written");
        }
        c.label(swapped ? "swapped" : "own storage");
        c.nontrivial(wraps >= 1 && steps >= 5);
    }
#define EDSP_ELEMENT(body)                                                       \
    switch (s.draw(2)) {                                                         \
        case 0: c.label("int"); return body<int>(s, c);                          \
        case 1: c.label("double"); return body<double>(s, c);                    \
        default: c.label("string"); return body<std::string>(s, c);              \
    }
} // namespace

VP_FAMILY("ring_buffer", 25000, 1500000, "a history over up to 4 growable buffers; non-trivial: >=5 operations and at least once full") { EDSP_ELEMENT(growable); }
VP_FAMILY("fixed_ring_buffer", 25000, 1500000, "a history over up to 3 fixed buffers; non-trivial: >=5 operations and at least once full") { EDSP_ELEMENT(fixed); }
VP_FAMILY("ring_span", 20000, 1200000, "a history over two spans of foreign storage; non-trivial: >=5 operations and at least once full") { EDSP_ELEMENT(span); }
