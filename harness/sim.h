// Input parsing and an input-dependent stateful trader for evaluation drivers.
#ifndef VERIF_SIM_H
#define VERIF_SIM_H
#include <atomic>
#include <functional>
#include <memory>
#include <mutex>
#include "base/account.h"
#include "base/side_input.h"
#include "base/trader.h"
#include "common.h"
#include "eval/eval.h"

namespace verif {
struct Sim {
  Scale sb, sq, sp, sv;
  int64_t t0 = 0;
  trader::AccountConfig cfg;
  trader::EvaluationConfig ec;
  std::vector<trader::OhlcTick> ticks, ticks2;
  trader::SideHistory side, side2;
  bool has_side = false, two = false;
  std::vector<trader::Order> pool;

  void ReadFee(std::istream& is, trader::FeeConfig* f) {
    long long r, d, x, m;
    is >> r >> d >> x >> m;
    f->set_relative_fee(static_cast<float>(static_cast<double>(r) / d));
    f->set_fixed_fee(sq.real(x));
    f->set_minimum_fee(sq.real(m));
  }
  trader::Order ReadOrder(std::istream& is) {
    using trader::Order;
    int ty, sd, kd;
    long long am, pr;
    is >> ty >> sd >> kd >> am >> pr;
    Order o;
    o.set_type(ty == 0 ? Order::MARKET : ty == 1 ? Order::STOP : Order::LIMIT);
    o.set_side(sd == 0 ? Order::BUY : Order::SELL);
    if (kd == 0) o.set_base_amount(sb.real(am)); else o.set_quote_amount(sq.real(am));
    if (pr != 0 || am % 2 == 0) o.set_price(sp.real(pr));  // no price, or an explicit zero
    return o;
  }
  // Handles one word; returns false if it is not known here.
  bool Word(const std::string& w, std::istream& is) {
    using namespace trader;
    if (w == "scale") {
      is >> sb.mul >> sb.div >> sq.mul >> sq.div >> sp.mul >> sp.div >> sv.mul >> sv.div >> t0;
    } else if (w == "cfg") {
      long long bu, qu, ln, ld, rn, rd, b0, q0;
      is >> bu >> qu >> ln >> ld >> rn >> rd >> b0 >> q0;
      cfg.set_start_base_balance(sb.real(b0));
      cfg.set_start_quote_balance(sq.real(q0));
      cfg.set_base_unit(sb.real(bu));
      cfg.set_quote_unit(sq.real(qu));
      cfg.set_market_liquidity(static_cast<float>(static_cast<double>(ln) / ld));
      cfg.set_max_volume_ratio(static_cast<float>(static_cast<double>(rn) / rd));
      ReadFee(is, cfg.mutable_market_order_fee_config());
      ReadFee(is, cfg.mutable_stop_order_fee_config());
      ReadFee(is, cfg.mutable_limit_order_fee_config());
    } else if (w == "eval") {  // absolute start, end, months, fast
      long long s, e;
      int n, f;
      is >> s >> e >> n >> f;
      ec.set_start_timestamp_sec(s);
      ec.set_end_timestamp_sec(e);
      if (n != 0) ec.set_evaluation_period_months(n);
      ec.set_fast_eval(f);
    } else if (w == "t" || w == "t2") {
      long long dt, o, h, l, c, v;
      is >> dt >> o >> h >> l >> c >> v;
      OhlcTick t;
      t.set_timestamp_sec(t0 + dt);
      t.set_open(sp.real(o)); t.set_high(sp.real(h)); t.set_low(sp.real(l)); t.set_close(sp.real(c)); t.set_volume(sb.real(v));
      (w == "t" ? ticks : ticks2).push_back(t);
      two = two || w == "t2";
    } else if (w == "s" || w == "s2") {
      long long dt, x;
      int n;
      is >> dt >> n;
      SideInputRecord s;
      s.set_timestamp_sec(t0 + dt);
      while (n--) { is >> x; s.add_signal(sv.real(x)); }
      (w == "s" ? side : side2).push_back(s);
    } else if (w == "side") {
      has_side = true;
    } else if (w == "two") {
      two = true;
    } else if (w == "p") {
      pool.push_back(ReadOrder(is));
    } else {
      return false;
    }
    return true;
  }
};
// Orders depend on everything the trader has been given so far and on its id.
class HashTrader : public trader::Trader {
 public:
  HashTrader(const std::vector<trader::Order>& pool, int id, std::function<void(const trader::OhlcTick&)> on)
      : pool_(pool), id_(id), on_(on) {}
  void Update(const trader::OhlcTick& t, const std::vector<float>& sig, float b, float q,
              std::vector<trader::Order>& orders) override {
    if (on_) on_(t);
    d_.i(id_); d_.i(t.timestamp_sec()); d_.f(t.open()); d_.f(t.high()); d_.f(t.low()); d_.f(t.close()); d_.f(t.volume());
    for (float s : sig) d_.f(s);
    d_.f(b); d_.f(q);
    const int h = d_.get();
    for (int k = 0; k < h % 4 && !pool_.empty(); ++k) orders.push_back(pool_[(h / 4 + 7 * k) % pool_.size()]);
  }
  std::string GetInternalState() const override { return std::to_string(d_.get()); }
 private:
  const std::vector<trader::Order>& pool_;
  int id_;
  std::function<void(const trader::OhlcTick&)> on_;
  Digest d_;
};
inline int ResultDigest(const trader::ExecutionResult& r) {
  Digest d;
  d.f(r.start_base_balance()); d.f(r.start_quote_balance()); d.f(r.end_base_balance()); d.f(r.end_quote_balance());
  d.f(r.start_price()); d.f(r.end_price()); d.f(r.start_value()); d.f(r.end_value());
  d.i(r.total_executed_orders()); d.f(r.total_fee()); d.f(r.base_volatility()); d.f(r.trader_volatility());
  return d.get();
}
}  // namespace verif
#endif
