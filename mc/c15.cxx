// C15: names select schemes, whatever their letter case; anything else is refused.
#include "routes.hpp"
using namespace mc;

namespace {
long long n_calls = 0, n_refused = 0;
template <class E> void names(const char* kind, const std::map<std::string, E>& table, E (*from)(std::string)) {
  const std::string K = kind;
  for (auto& [name, value] : table) {
    if (!begin(cat("case/", K, "/", name))) continue;
    for (unsigned mask = 0; mask < (1u << name.size()); ++mask) {
      std::string s = name;
      for (size_t i = 0; i < s.size(); ++i) if (mask >> i & 1) s[i] = char(std::tolower((unsigned char)s[i]));
      ++n_calls; E got{};
      const auto how = outcome([&] { got = from(s); });
      MC_CHECK(how.empty() && got == value, K, " name '", s, "' ", how.empty() ? "selects another scheme" : how);
    }
  }
  auto refused = [&](const std::string& s) {
    std::string up = s; for (auto& c : up) c = char(std::toupper((unsigned char)c));
    if (table.count(up)) return;
    ++n_calls; ++n_refused;
    MC_CHECK(!outcome([&] { from(s); }).empty(), K, " name '", s, "' is accepted");
  };
  const std::string letters = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_- .";
  if (begin("short/" + K)) {
    refused("");
    for (char a : letters) { refused({a}); for (char b : letters) { refused({a, b}); for (char c : letters) refused({a, b, c}); } }
  }
  if (begin("bytes/" + K)) for (int a = 0; a < 256; ++a) { refused({char(a)}); for (int b = 0; b < 256; ++b) refused({char(a), char(b)}); }
  if (begin("edits/" + K)) for (auto& [name, value] : table) {
    for (size_t i = 0; i <= name.size(); ++i) {
      if (i < name.size()) refused(name.substr(0, i) + name.substr(i + 1));          // deletion
      for (int c = 0; c < 256; ++c) {
        refused(name.substr(0, i) + char(c) + name.substr(i));                       // insertion
        if (i < name.size()) { auto s = name; s[i] = char(c); refused(s); }          // substitution
      }
      if (i + 1 < name.size()) { auto s = name; std::swap(s[i], s[i + 1]); refused(s); }
    }
    for (auto& [other, v] : table) { refused(name + other); refused(name + " " + other); refused(name + name); (void)v; }
    for (const char* ws : {" ", "\t", "\n", "\r\n"}) { refused(name + ws); refused(ws + name); }
    refused(name + std::string(1, '\0')); refused(name + std::string(1, '\0') + "X"); refused(name + std::string(5000, 'A'));
    std::string rev(name.rbegin(), name.rend()); refused(rev);
  }
}
}  // namespace

int main(int argc, char** argv) {
  init(argc, argv);
  using RQ = RadialQuad; using AQ = AngularQuad;
  const std::map<std::string, RQ> rt_ = {{"BECKE", RQ::Becke}, {"MURAKNOWLES", RQ::MuraKnowles}, {"MK", RQ::MuraKnowles}, {"MURRAYHANDYLAMING", RQ::MurrayHandyLaming},
    {"MHL", RQ::MurrayHandyLaming}, {"TREUTLERAHLRICHS", RQ::TreutlerAhlrichs}, {"TA", RQ::TreutlerAhlrichs}};
  const std::map<std::string, AQ> at_ = {{"AHRENSBEYLKIN", AQ::AhrensBeylkin}, {"AB", AQ::AhrensBeylkin}, {"DELLEY", AQ::Delley}, {"LEBEDEVLAIKOV", AQ::LebedevLaikov},
    {"LEBEDEV", AQ::LebedevLaikov}, {"LL", AQ::LebedevLaikov}, {"WOMERSLEY", AQ::Womersley}};
  names<RQ>("radial", rt_, radial_from_string);
  names<AQ>("angular", at_, angular_from_string);
  // names of the other kind
  if (begin("crossed")) { for (auto& [n, v] : at_) { (void)v; ++n_calls; MC_CHECK(!outcome([&, s = n] { radial_from_string(s); }).empty(), "angular name ", n, " selects a radial scheme"); }
    for (auto& [n, v] : rt_) { (void)v; ++n_calls; MC_CHECK(!outcome([&, s = n] { angular_from_string(s); }).empty(), "radial name ", n, " selects an angular family"); } }
  // types and kinds name each other
  if (begin("types")) {
    MC_CHECK((radial_from_type<Becke<double, double>>() == RQ::Becke && radial_from_type<MuraKnowles<double, double>>() == RQ::MuraKnowles &&
              radial_from_type<MurrayHandyLaming<double, double>>() == RQ::MurrayHandyLaming && radial_from_type<TreutlerAhlrichs<double, double>>() == RQ::TreutlerAhlrichs &&
              radial_from_type<Becke<float, float>>() == RQ::Becke && radial_from_type<MuraKnowles<float, float>>() == RQ::MuraKnowles &&
              radial_from_type<MurrayHandyLaming<long double, long double>>() == RQ::MurrayHandyLaming && radial_from_type<TreutlerAhlrichs<float, float>>() == RQ::TreutlerAhlrichs), "kind of a radial type");
    MC_CHECK((angular_from_type<LebedevLaikov<double>>() == AQ::LebedevLaikov && angular_from_type<Delley<double>>() == AQ::Delley &&
              angular_from_type<AhrensBeylkin<double>>() == AQ::AhrensBeylkin && angular_from_type<Womersley<double>>() == AQ::Womersley &&
              angular_from_type<LebedevLaikov<float>>() == AQ::LebedevLaikov && angular_from_type<Womersley<float>>() == AQ::Womersley), "kind of an angular type");
    MC_CHECK(!outcome([] { radial_from_type<GaussLegendre<double, double>>(); }).empty() && !outcome([] { radial_from_type<LebedevLaikov<double>>(); }).empty() == true, "a type which is not a radial scheme has a kind");
    MC_CHECK(!outcome([] { angular_from_type<Becke<double, double>>(); }).empty(), "a type which is not an angular family has a kind");
    MC_CHECK(std::set<uint32_t>({uint32_t(RQ::Becke), uint32_t(RQ::MurrayHandyLaming), uint32_t(RQ::MuraKnowles), uint32_t(RQ::TreutlerAhlrichs)}).size() == 4, "kinds are distinct");
    n_calls += 20;
  }
  count("states", n_calls - n_refused); count("transitions", n_calls); count("refused", n_refused);
  info("space", "all 2^k letter cases of all 14 names; all strings of up to 3 of 66 characters and up to 2 bytes; all single insertions, deletions, substitutions and transpositions of the names");
  sample("mUrRaYhAnDyLaMiNg selects MurrayHandyLaming; 'MK ' is refused");
  return finish();
}
