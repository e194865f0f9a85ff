// C34: features
#include "ranges.hpp"
#include <edsp/feature/perceptual/loudness.hpp>
#include <edsp/feature/spectral/spectral_crest.hpp>
#include <edsp/feature/spectral/spectral_decrease.hpp>
#include <edsp/feature/spectral/spectral_entropy.hpp>
#include <edsp/feature/spectral/spectral_flatness.hpp>
#include <edsp/feature/spectral/spectral_irregularity.hpp>
#include <edsp/feature/spectral/spectral_kurtosis.hpp>
#include <edsp/feature/spectral/spectral_rolloff.hpp>
#include <edsp/feature/spectral/spectral_skewness.hpp>
#include <edsp/feature/spectral/spectral_flux.hpp>
#include <edsp/feature/spectral/spectral_slope.hpp>
#include <edsp/feature/spectral/spectral_spread.hpp>
#include <edsp/feature/spectral/spectral_variation.hpp>
#include <edsp/feature/spectral/spectral_centroid.hpp>
#include <edsp/feature/statistics/flux.hpp>
#include <edsp/feature/statistics/rolloff.hpp>

C34_VAL("features", spectral_crest, edsp::feature::spectral::spectral_crest(pos.begin(), pos.end()))
C34_VAL("features", spectral_decrease, edsp::feature::spectral::spectral_decrease(pos.begin(), pos.end()))
C34_VAL("features", spectral_entropy, edsp::feature::spectral::spectral_entropy(pos.begin(), pos.end()))
C34_VAL("features", spectral_flatness, edsp::feature::spectral::spectral_flatness(pos.begin(), pos.end()))
C34_VAL("features", spectral_irregularity, edsp::feature::spectral::spectral_irregularity(pos.begin(), pos.end()))
C34_VAL("features", spectral_kurtosis, edsp::feature::spectral::spectral_kurtosis(pos.begin(), pos.end()))
C34_VAL("features", spectral_rolloff, edsp::feature::spectral::spectral_rolloff(pos.begin(), pos.end()))
C34_VAL("features", spectral_skewness, edsp::feature::spectral::spectral_skewness(pos.begin(), pos.end()))
C34_VAL("features", spectral_flux, edsp::feature::spectral::spectral_flux(pos.begin(), pos.end(), srt.begin()))
C34_VAL("features", spectral_slope, edsp::feature::spectral::spectral_slope(pos.begin(), pos.end(), srt.begin()))
C34_VAL("features", spectral_spread, edsp::feature::spectral::spectral_spread(pos.begin(), pos.end(), srt.begin()))
C34_VAL("features", spectral_variation, edsp::feature::spectral::spectral_variation(pos.begin(), pos.end(), srt.begin()))
C34_VAL("features", spectral_centroid, edsp::feature::spectral::spectral_centroid(pos.begin(), pos.end(), srt.begin()))
C34_VAL("features", of_crest, edsp::feature::statistics::crest(pos.begin(), pos.end()))
C34_VAL("features", of_decrease, edsp::feature::statistics::decrease(pos.begin(), pos.end()))
C34_VAL("features", of_entropy, edsp::feature::statistics::entropy(pos.begin(), pos.end()))
C34_VAL("features", of_flatness, edsp::feature::statistics::flatness(pos.begin(), pos.end()))
C34_VAL("features", of_centroid, edsp::feature::statistics::centroid(pos.begin(), pos.end()))
C34_VAL("features", of_spread, edsp::feature::statistics::spread(pos.begin(), pos.end()))
C34_VAL("features", of_slope, edsp::feature::statistics::slope(pos.begin(), pos.end(), srt.begin()))
C34_VAL("features", of_variation, edsp::feature::statistics::variation(pos.begin(), pos.end(), srt.begin()))
C34_VAL("features", of_weighted_centroid, edsp::feature::statistics::weighted_centroid(pos.begin(), pos.end(), srt.begin()))
C34_VAL("features", of_weighted_spread, edsp::feature::statistics::weighted_spread(pos.begin(), pos.end(), srt.begin()))
C34_VAL("features", flux_euclidean, edsp::feature::statistics::flux<edsp::math::distances::euclidean>(pos.begin(), pos.end(), srt.begin()))
C34_VAL("features", flux_manhattan, edsp::feature::statistics::flux<edsp::math::distances::manhattan>(pos.begin(), pos.end(), srt.begin()))
C34_VAL("features", rolloff, edsp::feature::statistics::rolloff(pos.begin(), pos.end(), T(0.8)))
C34_VAL("features", loudness, edsp::feature::perceptual::loudness(pos.begin(), pos.end()))
