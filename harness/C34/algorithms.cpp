// C34: element-wise operations, searches and conversions
#include "ranges.hpp"
#include <edsp/algorithm.hpp>
#include <edsp/algorithm/silence.hpp>
#include <edsp/algorithm/derivative.hpp>
#include <edsp/algorithm/linspace.hpp>
#include <edsp/algorithm/logspace.hpp>
#include <edsp/converter.hpp>
#include <edsp/experimental/quantizer/mu_law_compressor.hpp>
#include <edsp/meta/contains.hpp>
#include <edsp/string/to_lower.hpp>
#include <edsp/string/to_upper.hpp>

C34_OUT("algorithms", ceil, edsp::algorithm::ceil(x.begin(), x.end(), d.begin()))
C34_OUT("algorithms", fix, edsp::algorithm::fix(x.begin(), x.end(), d.begin()))
C34_OUT("algorithms", floor, edsp::algorithm::floor(x.begin(), x.end(), d.begin()))
C34_OUT("algorithms", round, edsp::algorithm::round(x.begin(), x.end(), d.begin()))
C34_OUT("algorithms", rectify, edsp::algorithm::rectify(x.begin(), x.end(), d.begin()))
C34_OUT("algorithms", normalize, edsp::algorithm::normalize(x.begin(), x.end(), d.begin()))
C34_OUT("algorithms", derivative, edsp::algorithm::derivative(x.begin(), x.end(), d.begin()))
C34_OUT("algorithms", amplifier, edsp::algorithm::amplifier(x.begin(), x.end(), d.begin(), c.factor))
C34_OUT("algorithms", amplifier_clip, edsp::algorithm::amplifier(x.begin(), x.end(), d.begin(), c.factor, T(-1), T(1)))
C34_OUT("algorithms", clipper, edsp::algorithm::clipper(x.begin(), x.end(), d.begin(), -c.pos[0], c.pos[1]))
C34_OUT("algorithms", normalize_rms, edsp::algorithm::normalize_rms(x.begin(), x.end(), d.begin()))
C34_OP("algorithms", padder, auto d = o(n + c.k); edsp::algorithm::padder(x.begin(), x.end(), d.begin(), d.end()); done(d);)
C34_OP("algorithms", concatenate, auto d = o(2 * n); edsp::algorithm::concatenate(x.begin(), x.end(), y.begin(), y.end(), d.begin()); done(d);)
C34_OUT("algorithms", linspace, edsp::algorithm::linspace(d.begin(), c.a[0], c.b[0], n))
C34_OUT("algorithms", logspace, edsp::algorithm::logspace(d.begin(), T(0), T(2), n))
C34_VAL("algorithms", silence, edsp::algorithm::silence(x.begin(), x.end(), c.factor))
C34_VAL("algorithms", equal, edsp::algorithm::equal(x.begin(), x.end(), y.begin(), y.end()))
C34_VAL("algorithms", equal_same, edsp::algorithm::equal(x.begin(), x.end(), x.begin(), x.end()))
C34_VAL("algorithms", linear_search, std::distance(x.begin(), edsp::algorithm::linear_search(x.begin(), x.end(), c.value)))
C34_VAL("algorithms", binary_search, std::distance(srt.begin(), edsp::algorithm::binary_search(srt.begin(), srt.end(), c.sorted[static_cast<std::size_t>(c.k) % c.sorted.size()])))
C34_VAL("algorithms", index_of, edsp::algorithm::index_of(x.begin(), x.end(), c.value))
C34_VAL("algorithms", contains, edsp::meta::contains(x.begin(), x.end(), c.value))
C34_OP("algorithms", complex2real, auto d = o(n); auto e = o(n); edsp::converter::complex2real(z.begin(), z.end(), d.begin(), e.begin()); done(d); done(e);)
C34_OP("algorithms", real2complex, auto d = oc(n); edsp::converter::real2complex(x.begin(), x.end(), d.begin()); done(d);)
C34_OP("algorithms", real2complex_pairs, auto d = oc(n); edsp::converter::real2complex(x.begin(), x.end(), y.begin(), d.begin()); done(d);)
C34_VAL("algorithms", peak2peak, edsp::converter::peak2peak(x.begin(), x.end()))
C34_VAL("algorithms", peak2rms, edsp::converter::peak2rms(x.begin(), x.end()))
C34_OUT("algorithms", mu_law_compression, edsp::quantizer::mu_law_compression(x.begin(), x.end(), d.begin(), T(4), 255))
C34_OUT("algorithms", inverse_mu_law_compression, edsp::quantizer::inverse_mu_law_compression(x.begin(), x.end(), d.begin(), T(4), 255))
C34_OP("algorithms", tolower, std::vector<char> t; for (auto e : c.a) { t.push_back(static_cast<char>(40 + static_cast<long>(e * 40) % 40)); }
       const typename In::template of<char> text(t); typename Out::template of<char> d(std::vector<char>(t.size())); edsp::string::tolower(text.begin(), text.end(), d.begin()); c34::put(v, d);)
C34_OP("algorithms", toupper, std::vector<char> t; for (auto e : c.a) { t.push_back(static_cast<char>(40 + static_cast<long>(e * 40) % 40)); }
       const typename In::template of<char> text(t); typename Out::template of<char> d(std::vector<char>(t.size())); edsp::string::toupper(text.begin(), text.end(), d.begin()); c34::put(v, d);)
