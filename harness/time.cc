// Calls the time functions: parse, format, add months.
#include "util/time.h"
#include "common.h"
using verif::B;
namespace {
std::string Pair(int64_t ts) {
  int64_t d = ts / 86400, s = ts % 86400;
  if (s < 0) { s += 86400; --d; }
  if (d > verif::kSentinel) d = verif::kSentinel;
  if (d < -verif::kSentinel) d = -verif::kSentinel;
  return "[" + std::to_string(d) + "," + std::to_string(s) + "]";
}
std::string Run(const std::string&, std::istream& is) {
  std::ostringstream out;
  std::string line;
  bool first = true;
  out << "{\"ev\":[";
  while (std::getline(is, line)) {
    if (line.empty()) continue;
    out << (first ? "" : ",");
    first = false;
    const std::string op = line.substr(0, 2), rest = line.substr(2);
    if (op == "p ") {
      const auto t = trader::ParseTime(rest);
      const int64_t ts = t.ok() ? absl::ToUnixSeconds(*t) : 0;
      out << "{\"ok\":" << B(t.ok()) << ",\"sub\":" << B(t.ok() && absl::FromUnixSeconds(ts) != *t) << ",\"t\":" << Pair(ts) << "}";
    } else if (op == "f ") {
      long long d, s, ns;
      std::istringstream(rest) >> d >> s >> ns;
      const absl::Time t = absl::FromUnixSeconds(d * 86400 + s);
      const std::string text = trader::FormatTimeUTC(t + absl::Nanoseconds(ns));
      const auto back = trader::ParseTime(text);
      out << "{\"text\":" << verif::Esc(text) << ",\"back\":" << B(back.ok() && *back == t) << "}";
    } else {
      long long d, s;
      int m;
      std::istringstream(rest) >> d >> s >> m;
      out << "{\"r\":" << Pair(trader::AddMonthsToTimestampSec(d * 86400 + s, m)) << ",\"r2\":"
          << Pair(absl::ToUnixSeconds(trader::AddMonthsToTime(absl::FromUnixSeconds(d * 86400 + s), m))) << "}";
    }
  }
  out << "]}";
  return out.str();
}
}  // namespace
int main(int argc, char** argv) { return verif::Main(argc, argv, Run); }
