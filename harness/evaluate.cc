// Runs EvaluateTrader and records windows, what was fed to the traders and
// how every period compares with running it alone.
#include "sim.h"
using namespace trader;
using verif::B;
using verif::HashTrader;
using verif::ME;
using verif::Sim;
namespace {
struct Rec : public Logger {
  explicit Rec(const std::vector<OhlcTick>& t) : ticks(t) {}
  void LogExchangeState(const OhlcTick& t, const Account&) override { rows.push_back(Index(t)); }
  void LogExchangeState(const OhlcTick&, const Account&, const Order&) override {}
  void LogTraderState(absl::string_view) override {}
  int Index(const OhlcTick& t) const {
    for (size_t i = 0; i < ticks.size(); ++i)
      if (ticks[i].timestamp_sec() == t.timestamp_sec()) return ticks[i].SerializeAsString() == t.SerializeAsString() ? i + 1 : 0;
    return 0;
  }
  const std::vector<OhlcTick>& ticks;
  std::vector<int> rows;
};
struct Emitter : public TraderEmitter {
  Emitter(const Sim& s, const Rec* r) : sim(s), rec(r) {}
  std::string GetName() const override { return "hash-trader[1.000|x]"; }
  std::unique_ptr<Trader> NewTrader() const override {
    fed.emplace_back(new std::vector<int>);
    std::vector<int>* f = fed.back().get();
    const Rec* r = rec;
    return std::unique_ptr<Trader>(new HashTrader(sim.pool, 1, r ? std::function<void(const OhlcTick&)>([f, r](const OhlcTick& t) { f->push_back(r->Index(t)); }) : nullptr));
  }
  const Sim& sim;
  const Rec* rec;
  mutable std::vector<std::unique_ptr<std::vector<int>>> fed;
};
std::string Json(const Sim& s, const EvaluationResult& r, const std::vector<OhlcTick>& ticks, const SideInput* side, bool alone) {
  std::ostringstream o;
  Emitter em(s, nullptr);
  o << "{\"periods\":[";
  for (int i = 0; i < r.period_size(); ++i) {
    const auto& p = r.period(i);
    const auto& x = p.result();
    bool a1 = true, a2 = true;
    if (alone) {
      std::vector<OhlcTick> in;
      for (const OhlcTick& t : ticks)
        if ((p.start_timestamp_sec() <= 0 || t.timestamp_sec() >= p.start_timestamp_sec()) &&
            (p.end_timestamp_sec() <= 0 || t.timestamp_sec() < p.end_timestamp_sec())) in.push_back(t);
      auto tr = em.NewTrader();
      const ExecutionResult e = ExecuteTrader(s.cfg, in.begin(), in.end(), side, s.ec.fast_eval(), *tr, nullptr);
      a1 = verif::ResultDigest(e) == verif::ResultDigest(x);
      EvaluationConfig c1 = s.ec;
      c1.clear_evaluation_period_months();
      c1.set_start_timestamp_sec(p.start_timestamp_sec());
      c1.set_end_timestamp_sec(p.end_timestamp_sec());
      const EvaluationResult e2 = EvaluateTrader(s.cfg, c1, ticks, side, em, nullptr);
      a2 = e2.period_size() == 1 && verif::ResultDigest(e2.period(0).result()) == verif::ResultDigest(x) &&
           e2.period(0).final_gain() == p.final_gain() && e2.period(0).base_final_gain() == p.base_final_gain();
    }
    auto rel = [&](int64_t t) { return std::max<int64_t>(-2000000000, std::min<int64_t>(2000000000, t - s.t0)); };
    o << (i ? "," : "") << "{\"s\":" << rel(p.start_timestamp_sec()) << ",\"e\":" << rel(p.end_timestamp_sec())
      << ",\"d\":" << verif::ResultDigest(x) << ",\"alone\":" << B(a1) << ",\"alone2\":" << B(a2)
      << ",\"v\":[" << ME(x.start_value()) << "," << ME(x.end_value()) << "],\"p\":[" << ME(x.start_price()) << ","
      << ME(x.end_price()) << "],\"g\":" << ME(p.final_gain()) << ",\"bg\":" << ME(p.base_final_gain())
      << ",\"orders\":" << x.total_executed_orders() << ",\"fee\":" << ME(x.total_fee()) << "}";
  }
  o << "],\"score\":" << ME(r.score()) << ",\"gain\":" << ME(r.avg_gain()) << ",\"bgain\":" << ME(r.avg_base_gain()) << ",\"orders\":"
    << ME(r.avg_total_executed_orders()) << ",\"fee\":" << ME(r.avg_total_fee()) << ",\"name\":" << B(r.name() == em.GetName())
    << ",\"config\":" << B(r.account_config().SerializeAsString() == s.cfg.SerializeAsString() && r.eval_config().SerializeAsString() == s.ec.SerializeAsString())
    << "}";
  return o.str();
}
std::string Run(const std::string&, std::istream& is) {
  Sim s;
  std::string w;
  while (is >> w) s.Word(w, is);
  std::unique_ptr<SideInput> side, side2;
  if (s.has_side) { side.reset(new SideInput(s.side)); side2.reset(new SideInput(s.side2)); }
  Rec rec(s.ticks);
  Emitter em(s, &rec);
  const EvaluationResult r = EvaluateTrader(s.cfg, s.ec, s.ticks, side.get(), em, &rec);
  std::ostringstream o;
  auto list = [&](const std::vector<int>& v) {
    o << "[";
    for (size_t i = 0; i < v.size(); ++i) o << (i ? "," : "") << v[i];
    o << "]";
  };
  o << "{\"rows\":";
  list(rec.rows);
  o << ",\"fed\":[";
  bool first = true;
  for (const auto& f : em.fed) {
    if (f->empty()) continue;
    o << (first ? "" : ",");
    first = false;
    list(*f);
  }
  o << "],\"res\":" << Json(s, r, s.ticks, side.get(), true);
  if (s.two) {
    Emitter em2(s, nullptr);
    o << ",\"res2\":" << Json(s, EvaluateTrader(s.cfg, s.ec, s.ticks2, side2.get(), em2, nullptr), s.ticks2, side2.get(), false);
  }
  o << "}";
  return o.str();
}
}  // namespace
int main(int argc, char** argv) { return verif::Main(argc, argv, Run); }
