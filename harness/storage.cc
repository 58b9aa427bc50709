// Writes and reads delimited messages: round trips, every cut of the file,
// flipped bits, failing devices; records what was delivered and reported.
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <zlib.h>
#include "base/base.pb.h"
#include "util/proto.h"
#include "common.h"
using namespace trader;
using verif::B;
namespace {
// Independent decompression: the plain bytes of a (damaged or cut) file, and
// whether the decompressor reports an error.
std::string Plain(const std::string& in, bool* error) {
  std::string out;
  *error = false;
  size_t at = 0;
  std::vector<unsigned char> buf(1 << 18);
  while (at < in.size() && !*error) {
    z_stream z{};
    if (inflateInit2(&z, 47) != Z_OK) std::abort();
    z.next_in = (Bytef*)(in.data() + at);
    z.avail_in = in.size() - at;
    int rc = Z_OK;
    while (true) {
      z.next_out = buf.data();
      z.avail_out = buf.size();
      rc = inflate(&z, Z_NO_FLUSH);
      out.append(reinterpret_cast<char*>(buf.data()), buf.size() - z.avail_out);
      if (rc == Z_OK && (z.avail_in > 0 || z.avail_out == 0)) continue;
      break;
    }
    at = in.size() - z.avail_in;
    inflateEnd(&z);
    if (rc == Z_STREAM_END) continue;
    if (rc != Z_OK && rc != Z_BUF_ERROR) *error = true;
    break;
  }
  return out;
}
std::string Zip(const std::string& in, bool compress) {
  z_stream z{};
  if (deflateInit2(&z, compress ? 6 : 0, Z_DEFLATED, 31, 8, Z_DEFAULT_STRATEGY) != Z_OK) std::abort();
  std::string out(deflateBound(&z, in.size()) + 64, 0);
  z.next_in = (Bytef*)in.data(); z.avail_in = in.size();
  z.next_out = (Bytef*)out.data(); z.avail_out = out.size();
  if (deflate(&z, Z_FINISH) != Z_STREAM_END) std::abort();
  out.resize(out.size() - z.avail_out);
  deflateEnd(&z);
  return out;
}
template <typename T>
struct Case {
  std::vector<T> msgs;
  std::vector<std::string> bodies;
  bool compress = false;
  std::string full;
  std::string file;

  // Frames of plain bytes that parse, and whether nothing is left over.
  std::vector<std::string> Frames(const std::string& p, bool* clean) const {
    std::vector<std::string> out;
    size_t at = 0;
    *clean = true;
    while (at < p.size()) {
      uint64_t n = 0;
      int shift = 0;
      bool ok = false;
      size_t i = at;
      for (; i < p.size() && shift < 64; ++i, shift += 7) {
        n |= uint64_t(p[i] & 127) << shift;
        if (!(p[i] & 128)) { ok = true; ++i; break; }
      }
      n &= 0xffffffffu;          // lengths have 32 bits; further bits are ignored by protobuf
      T m;
      if (!ok || n > 0x7fffffffu || n > p.size() - i || !m.ParseFromArray(p.data() + i, n)) { *clean = false; break; }
      out.push_back(m.SerializeAsString());
      at = i + n;
    }
    return out;
  }
  struct Got {
    std::vector<std::string> m;
    int code = 0;
    std::string msg;
  };
  static Got Read(std::function<absl::Status(std::function<ReaderStatus(const T&)>)> go, int stop) {
    Got g;
    const absl::Status s = go([&](const T& t) -> ReaderStatus {
      g.m.push_back(t.SerializeAsString());
      const int k = g.m.size();
      if (stop > 0 && k == stop) return ReaderSignal::kBreak;
      if (stop < 0 && k == -stop) return absl::OutOfRangeError("reader failed at " + std::to_string(k));
      return ReaderSignal::kContinue;
    });
    g.code = static_cast<int>(s.code());
    g.msg = std::string(s.message());
    return g;
  }
  static Got FromString(const std::string& bytes, int stop) {
    std::istringstream is(bytes);
    return Read([&](std::function<ReaderStatus(const T&)> f) { return ReadDelimitedMessagesFromIStream<T>(is, f); }, stop);
  }
  Got FromFile(int stop) const {
    return Read([&](std::function<ReaderStatus(const T&)> f) { return ReadDelimitedMessagesFromFile<T>(file, f); }, stop);
  }
  static bool Prefix(const std::vector<std::string>& a, const std::vector<std::string>& b) {
    if (a.size() > b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i) if (a[i] != b[i]) return false;
    return true;
  }
  std::string Ev(const char* kind, int64_t at, int stop, const Got& g, const std::vector<std::string>& want) const {
    std::ostringstream o;
    o << "{\"k\":\"" << kind << "\",\"at\":" << at << ",\"stop\":" << stop << ",\"n\":" << g.m.size() << ",\"same\":" << B(Prefix(g.m, want))
      << ",\"code\":" << g.code << ",\"why\":" << B(stop < 0 && g.msg.find("reader failed at " + std::to_string(-stop)) != std::string::npos);
    return o.str();
  }
  void Put(const std::string& bytes) const { std::ofstream f(file, std::ios::binary | std::ios::trunc); f << bytes; }
  std::string Get() const {
    std::ifstream f(file, std::ios::binary);
    return std::string(std::istreambuf_iterator<char>(f), {});
  }
};
// Takes `cap` bytes, then fails.
struct Device : std::streambuf {
  explicit Device(size_t c) : cap(c) {}
  int overflow(int ch) override {
    if (ch == EOF) return 0;
    if (got.size() >= cap) return EOF;
    got += static_cast<char>(ch);
    return ch;
  }
  std::streamsize xsputn(const char* p, std::streamsize n) override {
    const std::streamsize k = std::min<std::streamsize>(n, cap - got.size());
    got.append(p, k);
    return k;
  }
  size_t cap;
  std::string got;
};
void Fill(std::istream& is, int mask, int64_t ts, PriceRecord* m) {
  float p, v;
  is >> p >> v;
  if (mask & 1) m->set_timestamp_sec(ts);
  if (mask & 2) m->set_price(p);
  if (mask & 4) m->set_volume(v);
}
void Fill(std::istream& is, int mask, int64_t ts, OhlcTick* m) {
  float o, h, l, c, v;
  is >> o >> h >> l >> c >> v;
  if (mask & 1) m->set_timestamp_sec(ts);
  if (mask & 2) m->set_open(o);
  if (mask & 4) m->set_high(h);
  if (mask & 8) m->set_low(l);
  if (mask & 16) m->set_close(c);
  if (mask & 32) m->set_volume(v);
}
void Fill(std::istream& is, int mask, int64_t ts, SideInputRecord* m) {
  int n;
  uint32_t seed;
  is >> n >> seed;
  if (mask & 1) m->set_timestamp_sec(ts);
  for (int i = 0; i < n; ++i) {
    seed = seed * 1664525u + 1013904223u;
    m->add_signal(static_cast<float>(seed >> 8) / 4096);
  }
}
template <typename T>
std::string Run1(std::istream& is) {
  Case<T> c;
  c.file = "store-" + std::to_string(getpid()) + ".bin";
  std::string w;
  std::vector<int64_t> cuts, flips, caps;
  std::vector<int> stops;
  bool bulk = false, allcuts = false, extra = false, files = true;
  int flipstep = 0, flipfrom = 0;
  while (is >> w) {
    long long n, x;
    if (w == "m") {
      int mask;
      is >> mask >> x;
      c.msgs.emplace_back();
      Fill(is, mask, x, &c.msgs.back());
      continue;
    }
    is >> n;
    if (w == "bulk") {  // n records of one size
      for (x = 0; x < n; ++x) {
        std::istringstream v(std::to_string(1 + x % 9973) + " " + std::to_string(2 + x % 10007) + " 3 4 5");
        c.msgs.emplace_back();
        Fill(v, 7, 1500000000 + x, &c.msgs.back());
      }
      bulk = true;
      continue;
    }
    if (w == "compress") c.compress = n;
    else if (w == "allcuts") allcuts = n;
    else if (w == "extra") extra = n;
    else if (w == "flipstep") { flipstep = n; is >> flipfrom; }
    else if (w == "files") files = n;
    else while (n--) {
      is >> x;
      if (w == "cuts") cuts.push_back(x);
      else if (w == "stops") stops.push_back(x);
      else if (w == "caps") caps.push_back(x);
    }
  }
  for (const T& m : c.msgs) c.bodies.push_back(m.SerializeAsString());
  std::ostringstream os;
  const absl::Status ws = WriteDelimitedMessagesToOStream(c.msgs.begin(), c.msgs.end(), os, c.compress);
  c.full = os.str();
  const int64_t len = c.full.size();
  bool err, clean;
  const std::string whole = Plain(c.full, &err);
  std::ostringstream o;
  o << "{\"wcode\":" << static_cast<int>(ws.code()) << ",\"len\":" << len << ",\"plain\":" << Plain(c.full, &err).size() << ",\"zerr\":" << B(err)
    << ",\"uni\":[" << (bulk ? c.bodies.size() : 0) << "," << (bulk ? c.bodies[0].size() : 0) << "],\"sizes\":[";
  if (bulk) for (const auto& b : c.bodies) if (b.size() != c.bodies[0].size()) std::abort();
  for (size_t i = 0; i < (bulk ? 0 : c.bodies.size()); ++i) o << (i ? "," : "") << c.bodies[i].size();
  o << "],\"ev\":[";
  const char* sep = "";
  auto put = [&](const std::string& s) { o << sep << s; sep = ","; };
  // the whole file, through every interface
  for (int s : stops) put(c.Ev("stream", len, s, c.FromString(c.full, s), c.bodies) + "}");
  {
    std::istringstream is1(c.full);
    std::vector<T> v;
    typename Case<T>::Got g;
    const absl::Status st = ReadDelimitedMessagesFromIStream<T>(is1, v);
    for (const T& m : v) g.m.push_back(m.SerializeAsString());
    g.code = static_cast<int>(st.code());
    put(c.Ev("stream", len, 0, g, c.bodies) + "}");
  }
  if (files) {
    // over a longer file of other bytes
    c.Put(std::string(len + 1000, 'x'));
    const absl::Status fs = WriteDelimitedMessagesToFile(c.msgs.begin(), c.msgs.end(), c.file, c.compress);
    put("{\"k\":\"wfile\",\"code\":" + std::to_string(static_cast<int>(fs.code())) + ",\"same\":" + B(c.Get() == c.full) + "}");
    for (int s : stops) put(c.Ev("file", len, s, c.FromFile(s), c.bodies) + "}");
    std::vector<T> v(1);       // the records are appended
    typename Case<T>::Got g;
    const absl::Status st = ReadDelimitedMessagesFromFile<T>(c.file, v);
    for (size_t i = 1; i < v.size(); ++i) g.m.push_back(v[i].SerializeAsString());
    g.code = static_cast<int>(st.code());
    put(c.Ev("file", len, 0, g, c.bodies) + "}");
  }
  // cuts
  if (allcuts) for (int64_t i = 0; i <= len; ++i) cuts.push_back(i);
  for (int64_t at : cuts) {
    if (at > len) at = len;
    if (at < 0) at = std::max<int64_t>(0, len + at);
    const std::string part = c.full.substr(0, at);
    const std::string p = Plain(part, &err);
    const bool orig = whole.compare(0, p.size(), p) == 0;
    const int stop = stops.empty() || at % 3 ? 0 : stops[at % stops.size()];
    std::ostringstream e;
    typename Case<T>::Got g;
    if (files && at % 7 == 0) { c.Put(part); g = c.FromFile(stop); }
    else g = c.FromString(part, stop);
    e << c.Ev("cut", at, stop, g, c.bodies) << ",\"avail\":" << p.size() << ",\"zerr\":" << B(err) << ",\"orig\":" << B(orig) << "}";
    put(e.str());
  }
  // flipped bits
  for (int64_t bit = flipfrom; flipstep > 0 && bit < len * 8; bit += flipstep) {
    std::string bytes = c.full;
    bytes[bit / 8] ^= 1 << (bit % 8);
    const std::string p = Plain(bytes, &err);
    const std::vector<std::string> f = c.Frames(p, &clean);
    std::ostringstream e;
    e << c.Ev("flip", bit, 0, c.FromString(bytes, 0), f) << ",\"frames\":" << f.size() << ",\"clean\":" << B(clean) << ",\"zerr\":" << B(err)
      << ",\"whole\":" << B(f.size() == c.bodies.size() && Case<T>::Prefix(f, c.bodies)) << "}";
    put(e.str());
  }
  // devices that fill up
  for (int64_t cap : caps) {
    if (cap < 0) cap = std::max<int64_t>(0, len + cap);
    Device d(cap);
    std::ostream s(&d);
    const absl::Status st = WriteDelimitedMessagesToOStream(c.msgs.begin(), c.msgs.end(), s, c.compress);
    s.flush();
    std::ostringstream e;
    e << "{\"k\":\"device\",\"cap\":" << cap << ",\"code\":" << static_cast<int>(st.code()) << ",\"good\":" << B(s.good()) << ",\"len\":" << d.got.size()
      << ",\"same\":" << B(c.full.compare(0, d.got.size(), d.got) == 0) << "}";
    put(e.str());
    if (!files) continue;
    unlink(c.file.c_str());
    rlimit old, lim;
    getrlimit(RLIMIT_FSIZE, &old);
    lim = old;
    lim.rlim_cur = cap;
    setrlimit(RLIMIT_FSIZE, &lim);
    const absl::Status fs = WriteDelimitedMessagesToFile(c.msgs.begin(), c.msgs.end(), c.file, c.compress);
    setrlimit(RLIMIT_FSIZE, &old);
    const std::string got = c.Get();
    std::ostringstream e2;
    e2 << "{\"k\":\"full\",\"cap\":" << cap << ",\"code\":" << static_cast<int>(fs.code()) << ",\"good\":true,\"len\":" << got.size() << ",\"same\":"
       << B(c.full.compare(0, got.size(), got) == 0) << "}";
    put(e2.str());
  }
  if (extra) {   // intact compression, damage behind the stored records
    for (const char* unit : {"\xff", "\x80", "\x81\x80", "\x7f", "\x05\x08"}) {
      for (int k = 1; k <= 14; ++k) {
        std::string p = Plain(c.full, &err);
        for (int j = 0; j < k; ++j) p += unit;
        const auto f = c.Frames(p, &clean);
        put(c.Ev("flip", -k, 0, Case<T>::FromString(Zip(p, c.compress), 0), f) + ",\"frames\":" + std::to_string(f.size()) + ",\"clean\":" + B(clean) + ",\"zerr\":false,\"whole\":false}");
      }
    }
    const absl::Status dev = WriteDelimitedMessagesToFile(c.msgs.begin(), c.msgs.end(), "/dev/full", c.compress);
    put("{\"k\":\"refused\",\"what\":\"full device\",\"code\":" + std::to_string(static_cast<int>(dev.code())) + ",\"n\":0}");
    const absl::Status dir = WriteDelimitedMessagesToFile(c.msgs.begin(), c.msgs.end(), "no-such-directory/x", c.compress);
    put("{\"k\":\"refused\",\"what\":\"no such directory\",\"code\":" + std::to_string(static_cast<int>(dir.code())) + ",\"n\":0}");
    std::vector<T> v;
    const absl::Status mis = ReadDelimitedMessagesFromFile<T>(std::string("no-such-file"), v);
    put("{\"k\":\"refused\",\"what\":\"no such file\",\"code\":" + std::to_string(static_cast<int>(mis.code())) + ",\"n\":" + std::to_string(v.size()) + "}");
    for (const char* junk : {"timestamp,price,volume\n", "\x05hello", "\x1f\x8b", "\x1f\x8b\x08", "PK\x03\x04 archive"}) {
      const auto g = Case<T>::FromString(junk, 0);
      const std::string p = Plain(junk, &err);
      const auto f = c.Frames(p, &clean);
      put(c.Ev("flip", -1, 0, g, f) + ",\"frames\":" + std::to_string(f.size()) + ",\"clean\":" + B(clean) + ",\"zerr\":" + B(err) + ",\"whole\":false}");
    }
  }
  o << "]}";
  unlink(c.file.c_str());
  return o.str();
}
std::string Run(const std::string&, std::istream& is) {
  std::string kind;
  is >> kind;
  if (kind == "price") return Run1<PriceRecord>(is);
  if (kind == "ohlc") return Run1<OhlcTick>(is);
  return Run1<SideInputRecord>(is);
}
}  // namespace
int main(int argc, char** argv) {
  signal(SIGXFSZ, SIG_IGN);
  return verif::Main(argc, argv, Run);
}
