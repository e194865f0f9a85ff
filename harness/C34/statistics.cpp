// C34: statistics and temporal features
#include "ranges.hpp"
#include <edsp/statistics.hpp>
#include <edsp/feature/temporal/energy.hpp>
#include <edsp/feature/temporal/power.hpp>
#include <edsp/feature/temporal/rms.hpp>
#include <edsp/feature/temporal/rssq.hpp>
#include <edsp/feature/temporal/leq.hpp>
#include <edsp/feature/temporal/azcr.hpp>
#include <edsp/feature/temporal/duration.hpp>
#include <edsp/feature/temporal/snr.hpp>
#include <edsp/feature/temporal/amdf.hpp>
#include <edsp/feature/temporal/asdf.hpp>

C34_VAL("statistics", mean, edsp::statistics::mean(x.begin(), x.end()))
C34_VAL("statistics", median, edsp::statistics::median(x.begin(), x.end()))
C34_VAL("statistics", variance, edsp::statistics::variance(x.begin(), x.end()))
C34_VAL("statistics", standard_deviation, edsp::statistics::standard_deviation(x.begin(), x.end()))
C34_VAL("statistics", skewness, edsp::statistics::skewness(x.begin(), x.end()))
C34_VAL("statistics", kurtosis, edsp::statistics::kurtosis(x.begin(), x.end()))
C34_VAL("statistics", max, edsp::statistics::max(x.begin(), x.end()))
C34_VAL("statistics", maxabs, edsp::statistics::maxabs(x.begin(), x.end()))
C34_VAL("statistics", min, edsp::statistics::min(x.begin(), x.end()))
C34_VAL("statistics", minabs, edsp::statistics::minabs(x.begin(), x.end()))
C34_VAL("statistics", norm, edsp::statistics::norm(x.begin(), x.end()))
C34_VAL("statistics", geometric_mean, edsp::statistics::geometric_mean(pos.begin(), pos.end()))
C34_VAL("statistics", harmonic_mean, edsp::statistics::harmonic_mean(pos.begin(), pos.end()))
C34_VAL("statistics", generalized_mean, edsp::statistics::generalized_mean(pos.begin(), pos.end(), 3))
C34_VAL("statistics", moment, edsp::statistics::moment<3>(x.begin(), x.end()))
C34_VAL("statistics", moment_about, edsp::statistics::moment<3>(x.begin(), x.end(), c.value))
C34_OP("statistics", peak, const auto p = edsp::statistics::peak(x.begin(), x.end()); c34::put(v, static_cast<double>(p.first)); c34::put(v, static_cast<double>(p.second));)
C34_OP("statistics", peakabs, const auto p = edsp::statistics::peakabs(x.begin(), x.end()); c34::put(v, static_cast<double>(p.first)); c34::put(v, static_cast<double>(p.second));)
C34_VAL("features", energy, edsp::feature::temporal::energy(x.begin(), x.end()))
C34_VAL("features", power, edsp::feature::temporal::power(x.begin(), x.end()))
C34_VAL("features", rms, edsp::feature::temporal::rms(x.begin(), x.end()))
C34_VAL("features", rssq, edsp::feature::temporal::rssq(x.begin(), x.end()))
C34_VAL("features", leq, edsp::feature::temporal::leq(x.begin(), x.end()))
C34_VAL("features", azcr, edsp::feature::temporal::azcr(x.begin(), x.end()))
C34_VAL("features", duration, edsp::feature::temporal::duration(x.begin(), x.end(), T(100)))
C34_VAL("features", effective_duration, edsp::feature::temporal::effective_duration(x.begin(), x.end(), T(100), T(0.4)))
C34_VAL("features", snr, edsp::feature::temporal::snr(x.begin(), x.end(), y.begin()))
C34_OUT("features", amdf, edsp::feature::temporal::amdf(x.begin(), x.end(), d.begin()))
C34_OUT("features", asdf, edsp::feature::temporal::asdf(x.begin(), x.end(), d.begin()))
