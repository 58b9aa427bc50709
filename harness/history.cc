// Runs the history functions on given records.
#include "base/history.h"
#include "common.h"
using namespace trader;
using verif::B;
using verif::ME;
namespace {
float Num(std::istream& is) { std::string s; is >> s; return std::strtof(s.c_str(), nullptr); }
template <typename T>
std::string Sel(const std::vector<T>& h, int64_t s, int64_t e) {
  const auto r = HistorySubset(h, s, e);
  const auto copy = HistorySubsetCopy(h, s, e);
  const long long from = r.first - h.begin(), n = r.second - r.first;
  bool same = n >= 0 && static_cast<long long>(copy.size()) == n;
  for (long long i = 0; same && i < n; ++i) same = copy[i].SerializeAsString() == h[from + i].SerializeAsString();
  return "{\"from\":" + std::to_string(from) + ",\"n\":" + std::to_string(n) + ",\"copy\":" + B(same) + "}";
}
std::string Run(const std::string&, std::istream& is) {
  std::string w;
  std::ostringstream o;
  PriceHistory h;
  o << "{\"k\":0";
  while (is >> w) {
    if (w == "r") {
      long long ts;
      is >> ts;
      PriceRecord r;
      r.set_timestamp_sec(ts);
      r.set_price(Num(is));
      r.set_volume(Num(is));
      h.push_back(r);
    } else if (w == "resample") {
      int rate;
      is >> rate;
      const OhlcHistory out = Resample(h.begin(), h.end(), rate);
      o << ",\"ticks\":[";
      for (size_t i = 0; i < out.size(); ++i)
        o << (i ? "," : "") << "[" << out[i].timestamp_sec() << "," << ME(out[i].open()) << "," << ME(out[i].high()) << ","
          << ME(out[i].low()) << "," << ME(out[i].close()) << "," << ME(out[i].volume()) << "]";
      o << "]";
    } else if (w == "outliers") {
      const float dev = Num(is);
      long long left, right, lastn;
      is >> left >> right >> lastn;
      std::vector<size_t> idx;
      const PriceHistory clean = RemoveOutliers(h.begin(), h.end(), dev, &idx);
      const PriceHistory again = RemoveOutliers(h.begin(), h.end(), dev, nullptr);
      bool agree = clean.size() == again.size();
      for (size_t i = 0; agree && i < clean.size(); ++i) agree = clean[i].SerializeAsString() == again[i].SerializeAsString();
      o << ",\"agree\":" << B(agree) << ",\"idx\":[";
      for (size_t i = 0; i < idx.size(); ++i) o << (i ? "," : "") << idx[i];
      o << "],\"clean\":[";
      for (size_t i = 0; i < clean.size(); ++i)
        o << (i ? "," : "") << "[" << clean[i].timestamp_sec() << "," << ME(clean[i].price()) << "," << ME(clean[i].volume()) << "]";
      o << "],\"ctx\":[";
      bool f = true;
      for (const auto& x : GetOutlierIndicesWithContext(idx, h.size(), left, right, lastn)) {
        o << (f ? "" : ",") << "[" << x.first << "," << x.second << "]";
        f = false;
      }
      o << "]";
    } else if (w == "gaps") {
      long long s, e, n;
      is >> s >> e >> n;
      o << ",\"gaps\":[";
      const auto g = GetPriceHistoryGaps(h.begin(), h.end(), s, e, n);
      for (size_t i = 0; i < g.size(); ++i) o << (i ? "," : "") << "[" << g[i].first << "," << g[i].second << "]";
      o << "]";
    } else if (w == "subset") {
      long long s, e;
      is >> s >> e;
      OhlcHistory oh;
      SideHistory sh;
      for (const PriceRecord& r : h) {
        OhlcTick t;
        t.set_timestamp_sec(r.timestamp_sec());
        t.set_close(r.price());
        oh.push_back(t);
        SideInputRecord x;
        x.set_timestamp_sec(r.timestamp_sec());
        x.add_signal(r.price());
        sh.push_back(x);
      }
      o << ",\"sel\":[" << Sel(h, s, e) << "," << Sel(oh, s, e) << "," << Sel(sh, s, e) << "]";
    }
  }
  return o.str() + "}";
}
}  // namespace
int main(int argc, char** argv) { return verif::Main(argc, argv, Run); }
