// Executes orders on the real Account and records the account after each.
#include "base/account.h"
#include "common.h"
#include <cmath>
using namespace trader;
using verif::B;
using verif::Num;
using verif::Scale;

namespace {
Scale sb, sq, sp;
void ReadFee(std::istream& is, FeeConfig* f) {
  long long r, d, x, m;
  is >> r >> d >> x >> m;
  // Unset fields mean zero; leave zero fields unset in half of the cases.
  if (r != 0) f->set_relative_fee(static_cast<float>(static_cast<double>(r) / d));
  if (x != 0) f->set_fixed_fee(sq.real(x));
  if (m != 0) f->set_minimum_fee(sq.real(m));
}
OhlcTick ReadTick(std::istream& is) {
  long long o, h, l, c, v;
  is >> o >> h >> l >> c >> v;
  OhlcTick t;
  t.set_timestamp_sec(1500000000);
  t.set_open(sp.real(o)); t.set_high(sp.real(h)); t.set_low(sp.real(l));
  t.set_close(sp.real(c)); t.set_volume(sb.real(v));
  return t;
}
std::string Acct(const Account& a, const Account& before) {
  const Num b = sb.of(a.base_balance), q = sq.of(a.quote_balance), f = sq.of(a.total_fee);
  std::ostringstream o;
  o << "\"b\":" << b.n << ",\"q\":" << q.n << ",\"f\":" << f.n
    << ",\"ex\":" << B(b.exact && q.exact && f.exact) << ",\"nan\":" << B(b.nan || q.nan || f.nan)
    << ",\"g\":" << B(verif::OnGrid(a.base_balance, a.base_unit) && verif::OnGrid(a.quote_balance, a.quote_unit) &&
                      verif::OnGrid(a.total_fee, a.quote_unit))
    << ",\"ch\":" << B(verif::Bits(a.base_balance) != verif::Bits(before.base_balance) ||
                       verif::Bits(a.quote_balance) != verif::Bits(before.quote_balance) ||
                       verif::Bits(a.total_fee) != verif::Bits(before.total_fee));
  return o.str();
}
bool Direct(Account& a, const AccountConfig& c, int ty, bool buy, bool base, float am, float pr, const OhlcTick& t) {
  if (ty == 0) {
    const FeeConfig& f = c.market_order_fee_config();
    if (buy) return base ? a.MarketBuy(f, t, am) : a.MarketBuyAtQuote(f, t, am);
    return base ? a.MarketSell(f, t, am) : a.MarketSellAtQuote(f, t, am);
  }
  if (ty == 1) {
    const FeeConfig& f = c.stop_order_fee_config();
    if (buy) return base ? a.StopBuy(f, t, am, pr) : a.StopBuyAtQuote(f, t, am, pr);
    return base ? a.StopSell(f, t, am, pr) : a.StopSellAtQuote(f, t, am, pr);
  }
  const FeeConfig& f = c.limit_order_fee_config();
  if (buy) return base ? a.LimitBuy(f, t, am, pr) : a.LimitBuyAtQuote(f, t, am, pr);
  return base ? a.LimitSell(f, t, am, pr) : a.LimitSellAtQuote(f, t, am, pr);
}
AccountConfig cfg;  // the same object for all cases, with other contents
std::string Run(const std::string&, std::istream& is) {
  cfg.Clear();
  Account acct;
  std::ostringstream out;
  std::string w;
  double limb = 1e300, limq = 1e300;
  bool first = true;
  auto sep = [&]() { if (!first) out << ','; first = false; };
  out << "{\"ev\":[";
  long long bu = 0, qu = 0;
  int fineb = 0, fineq = 0;  // a unit is 2^-fine of what the specification calls one
  while (is >> w) {
    if (w == "scale") {
      is >> sb.mul >> sb.div >> sq.mul >> sq.div >> sp.mul >> sp.div;
    } else if (w == "fine") {
      is >> fineb >> fineq;
    } else if (w == "cfg") {
      long long ln, ld, rn, rd, b0, q0;
      is >> bu >> qu >> ln >> ld >> rn >> rd >> b0 >> q0 >> limb >> limq;
      cfg.set_start_base_balance(sb.real(b0));
      cfg.set_start_quote_balance(sq.real(q0));
      cfg.set_base_unit(static_cast<float>(std::ldexp(sb.real(bu), -fineb)));
      cfg.set_quote_unit(static_cast<float>(std::ldexp(sq.real(qu), -fineq)));
      cfg.set_market_liquidity(static_cast<float>(static_cast<double>(ln) / ld));
      if (rn != 0) cfg.set_max_volume_ratio(static_cast<float>(static_cast<double>(rn) / rd));
      ReadFee(is, cfg.mutable_market_order_fee_config());
      ReadFee(is, cfg.mutable_stop_order_fee_config());
      ReadFee(is, cfg.mutable_limit_order_fee_config());
      acct.InitAccount(cfg);
    } else if (w == "start") {
      sep();
      out << "{\"k\":\"set\"," << Acct(acct, acct) << "}";
    } else if (w == "set") {
      long long b, q, f;
      is >> b >> q >> f;
      acct.base_balance = sb.real(b); acct.quote_balance = sq.real(q); acct.total_fee = sq.real(f);
      sep();
      out << "{\"k\":\"set\"," << Acct(acct, acct) << "}";
    } else if (w == "o") {  // direct? type side kind amount price, tick
      int direct, ty, sd, kd;
      long long am, pr;
      is >> direct >> ty >> sd >> kd >> am >> pr;
      const OhlcTick t = ReadTick(is);
      if (acct.base_balance > sb.real(limb) || acct.quote_balance > sq.real(limq)) break;
      const float amount = kd == 0 ? sb.real(am) : sq.real(am);
      const float price = sp.real(pr);
      const Account before = acct;
      bool ok;
      if (direct) {
        ok = Direct(acct, cfg, ty, sd == 0, kd == 0, amount, price, t);
      } else {
        Order o;
        o.set_type(ty == 0 ? Order::MARKET : ty == 1 ? Order::STOP : Order::LIMIT);
        o.set_side(sd == 0 ? Order::BUY : Order::SELL);
        if (kd == 0) o.set_base_amount(amount); else o.set_quote_amount(amount);
        if (ty != 0 || pr != 0) o.set_price(price);
        ok = acct.ExecuteOrder(cfg, o, t);
      }
      sep();
      out << "{\"k\":\"order\",\"ok\":" << B(ok) << "," << Acct(acct, before) << "}";
    } else if (w == "fee") {  // which schedule, quote amount
      int which;
      long long qa;
      is >> which >> qa;
      const FeeConfig& f = which == 0 ? cfg.market_order_fee_config()
                           : which == 1 ? cfg.stop_order_fee_config() : cfg.limit_order_fee_config();
      sep();
      out << "{\"k\":\"fee\",\"r\":" << sq.of(acct.GetFee(f, sq.real(qa))).n << "}";
    } else if (w == "prices") {  // stop price, tick
      long long p, ld;
      is >> p >> ld;
      const OhlcTick t = ReadTick(is);
      const Scale x{sp.mul, sp.div * ld};
      sep();
      out << "{\"k\":\"prices\",\"r\":[" << x.of(acct.GetMarketBuyPrice(t)).n << "," << x.of(acct.GetMarketSellPrice(t)).n
          << "," << x.of(acct.GetStopBuyPrice(t, sp.real(p))).n << "," << x.of(acct.GetStopSellPrice(t, sp.real(p))).n << "]}";
    }
  }
  out << "]}";
  return out.str();
}
}  // namespace
int main(int argc, char** argv) { return verif::Main(argc, argv, Run); }
