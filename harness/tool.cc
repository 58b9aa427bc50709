// Evaluates the default traders on given records with the account the trader
// tool's flags denote: what the tool should report.
#include <memory>
#include "common.h"
#include "eval/eval.h"
#include "logging/csv_logger.h"
#include "traders/rebalancing_trader.h"
#include "traders/stop_trader.h"
using namespace trader;
using verif::ME;
namespace {
using Emitter = std::unique_ptr<TraderEmitter>;
Emitter Rebalancing(float a, float e) {
  RebalancingTraderConfig c;
  c.set_alpha(a);
  c.set_epsilon(e);
  return Emitter(new RebalancingTraderEmitter(c));
}
Emitter Stop(float m, float v, float i, float d) {
  StopTraderConfig c;
  c.set_stop_order_margin(m);
  c.set_stop_order_move_margin(v);
  c.set_stop_order_increase_per_day(i);
  c.set_stop_order_decrease_per_day(d);
  return Emitter(new StopTraderEmitter(c));
}
// The documented default traders and batches.
Emitter Default(const std::string& name) { return name == "stop" ? Stop(0.1f, 0.1f, 0.01f, 0.1f) : Rebalancing(0.7f, 0.05f); }
std::vector<Emitter> Batch(const std::string& name) {
  std::vector<Emitter> b;
  if (name == "stop") {
    for (float m : {0.05f, 0.1f, 0.15f, 0.2f})
      for (float v : {0.05f, 0.1f, 0.15f, 0.2f})
        for (float i : {0.01f, 0.05f, 0.1f})
          for (float d : {0.01f, 0.05f, 0.1f}) b.push_back(Stop(m, v, i, d));
  } else {
    for (float a : {0.1f, 0.3f, 0.5f, 0.7f, 0.9f})
      for (float e : {0.01f, 0.05f, 0.1f, 0.2f}) b.push_back(Rebalancing(a, e));
  }
  return b;
}
float Num(std::istream& is) {
  std::string w;
  is >> w;
  return std::strtof(w.c_str(), nullptr);
}
std::string Run(const std::string&, std::istream& is) {
  AccountConfig cfg;
  EvaluationConfig ec;
  std::vector<OhlcTick> ticks;
  SideHistory side;
  bool has_side = false, batch = false;
  long long t0 = 0;
  std::string w, name;
  while (is >> w) {
    if (w == "cfg") {
      cfg.set_start_base_balance(Num(is));
      cfg.set_start_quote_balance(Num(is));
      cfg.set_market_liquidity(Num(is));
      cfg.set_max_volume_ratio(Num(is));
      cfg.set_base_unit(0.00001f);
      cfg.set_quote_unit(0.01f);
      for (FeeConfig* f : {cfg.mutable_market_order_fee_config(), cfg.mutable_limit_order_fee_config(), cfg.mutable_stop_order_fee_config()}) {
        f->set_relative_fee(0.005f);
        f->set_fixed_fee(0);
        f->set_minimum_fee(0);
      }
    } else if (w == "eval") {
      long long s, e;
      int n, b;
      is >> t0 >> s >> e >> n >> name >> b;
      ec.set_start_timestamp_sec(s);
      ec.set_end_timestamp_sec(e);
      ec.set_evaluation_period_months(n);
      batch = b;
      ec.set_fast_eval(batch);
    } else if (w == "t") {
      long long t;
      is >> t;
      OhlcTick x;
      x.set_timestamp_sec(t);
      x.set_open(Num(is)); x.set_high(Num(is)); x.set_low(Num(is)); x.set_close(Num(is)); x.set_volume(Num(is));
      ticks.push_back(x);
    } else if (w == "side") {
      has_side = true;
    } else if (w == "s") {
      long long t;
      int n;
      is >> t >> n;
      SideInputRecord x;
      x.set_timestamp_sec(t);
      while (n--) x.add_signal(Num(is));
      side.push_back(x);
    }
  }
  std::unique_ptr<SideInput> si;
  if (has_side) si.reset(new SideInput(side));
  std::ostringstream o;
  if (batch) {
    o << "{\"batch\":[";
    bool first = true;
    for (const auto& em : Batch(name)) {
      const EvaluationResult r = EvaluateTrader(cfg, ec, ticks, si.get(), *em, nullptr);
      o << (first ? "" : ",") << "{\"name\":" << verif::Esc(em->GetName()) << ",\"score\":" << ME(r.score()) << "}";
      first = false;
    }
    o << "]}";
    return o.str();
  }
  std::ostringstream xs, ts;
  CsvLogger logger(&xs, &ts);
  const auto em = Default(name);
  const EvaluationResult r = EvaluateTrader(cfg, ec, ticks, si.get(), *em, &logger);
  o << "{\"name\":" << verif::Esc(em->GetName()) << ",\"periods\":[";
  for (int i = 0; i < r.period_size(); ++i) {
    const auto& p = r.period(i);
    auto rel = [&](long long t) { return std::max<long long>(-verif::kSentinel, std::min<long long>(verif::kSentinel, t - t0)); };
    o << (i ? "," : "") << "{\"s\":" << rel(p.start_timestamp_sec()) << ",\"e\":" << rel(p.end_timestamp_sec()) << ",\"g\":" << ME(p.final_gain())
      << ",\"bg\":" << ME(p.base_final_gain()) << ",\"tv\":" << ME(p.result().trader_volatility()) << ",\"bv\":" << ME(p.result().base_volatility()) << "}";
  }
  o << "],\"xlog\":" << verif::Esc(xs.str()) << ",\"tlog\":" << verif::Esc(ts.str()) << "}";
  return o.str();
}
}  // namespace
int main(int argc, char** argv) { return verif::Main(argc, argv, Run); }
