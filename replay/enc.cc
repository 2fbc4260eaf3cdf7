#include "common.hh"
#define private public
#include "netcode/encoder.hh"
#undef private
// C05, C11, C12, C13: random histories of an encoder against a reference window.
using bytes = std::vector<unsigned char>;
struct handler { std::vector<bytes>* out; bytes cur; void operator()(const char* p, std::size_t n) { cur.insert(cur.end(), p, p + n); } void operator()() { out->push_back(cur); cur.clear(); } };

static std::uint32_t be(const bytes& b, std::size_t o, int n) { std::uint32_t r = 0; for (int i = 0; i < n; ++i) { CK("C05 C06 C12", o + i < b.size(), "emitted packet is too short"); r = r * 256 + b[o + i]; } return r; }

static bytes mk_ack(std::uint16_t nb, const std::vector<std::uint32_t>& ids)
{
  bytes b{0, (unsigned char)(nb >> 8), (unsigned char)nb};
  auto p16 = [&](unsigned v) { b.push_back(v >> 8); b.push_back(v & 255); };
  if (ids.empty()) { p16(0); return b; }
  p16(unsigned(ids.size()));
  p16(ids[0] >> 16); p16(ids[0] & 0xffff);
  for (std::size_t i = 1; i < ids.size(); ++i) { b.push_back(1); p16(ids[i] - ids[i - 1]); }
  return b;
}

struct ref_source { std::uint32_t id; std::vector<char> d; };

int main(int argc, char** argv)
{
  init(argc, argv, "random histories of up to 120 operations, field sizes 4, 8, 16 (and 32 without sizes), data of 1 to 300 bytes, windows up to 40, rates 1 to 12; some histories of 1500 operations with windows of hundreds of data and acks far in the past, some with data of up to 65535 bytes");
  rng R(seed0);
  gf_t gfs[4]; const int ws[] = {4, 8, 16, 32};
  for (int k = 0; k < 4; ++k) gf_init_easy(&gfs[k], ws[k]);
  do try
  {
    const int wi = R(8) ? R(3) : 3; const int w = ws[wi]; const int word = w == 16 ? 2 : w == 32 ? 4 : 1;
    begin_case("seed " + std::to_string(R.s) + " w=" + std::to_string(w));
    std::vector<bytes> out;
    ntc::encoder<handler> enc(w, handler{&out, {}});
    ntc::detail::galois_field field(w);
    std::deque<ref_source> win;
    std::uint32_t next_src = 0, next_rep = 0;
    std::size_t rate = 5, wsize = std::numeric_limits<std::size_t>::max();
    bool sys = true, adaptive = false;
    unsigned long nsrc = 0, nrep = 0, nacks = 0; std::uint16_t since = 0;
    // start from a late identifier sometimes
    if (R.chance(30)) { next_src = std::uint32_t(R.chance(50) ? R(70000) : R(0xffff0000u)); enc.m_current_source_id = next_src; story << "first id " << next_src << "; "; }
    if (R.chance(30)) { next_rep = std::uint32_t(R(0xffff0000u)); enc.m_current_repair_id = next_rep; }
    if (R.chance(20)) { since = std::uint16_t(65500 + R(36)); enc.m_nb_sent_packets = since; }
    const int profile = R(10); const bool longh = profile == 0, bigd = profile == 1;   // long histories, big data
    if (longh) { rate = 200 + R(2000); enc.set_rate(rate); story << "rate(" << rate << ") "; }
    auto check_source = [&](const bytes& b, const ref_source& s) {
      CK("C12", b.size() == 7 + s.d.size(), "source packet of " << b.size() << " bytes for a datum of " << s.d.size());
      CK("C12", b[0] == 2, "source packet has type " << int(b[0]));
      CK("C12", be(b, 1, 4) == s.id, "source packet has identifier " << be(b, 1, 4) << " instead of " << s.id);
      CK("C12", be(b, 5, 2) == s.d.size(), "source packet has size " << be(b, 5, 2));
      CK("C12", std::memcmp(b.data() + 7, s.d.data(), s.d.size()) == 0, "source packet has other bytes than the datum");
    };
    auto check_repair = [&](const bytes& b, std::uint32_t id) {
      CK("C12", b.size() > 7 && b[0] == 1, "expected a repair, got type " << int(b[0]));
      CK("C12", be(b, 1, 4) == id, "repair has identifier " << be(b, 1, 4) << " instead of " << id);
      const std::size_t n = be(b, 5, 2);
      std::size_t longest = 0; for (auto& s : win) longest = std::max(longest, s.d.size());
      CK("C05", n == longest, "repair symbol has " << n << " bytes, the longest datum " << longest);
      std::size_t o = 7 + n;
      std::vector<std::uint32_t> ids; const auto ne = be(b, o, 2); o += 2;
      if (ne) { ids.push_back(be(b, o, 4)); o += 4; for (unsigned i = 1; i < ne; ++i) { unsigned r = be(b, o, 1), v = be(b, o + 1, 2); o += 3; while (r--) ids.push_back(ids.back() + v); } }
      const auto es = be(b, o, 2); o += 2;
      CK("C05", o == b.size(), "repair packet has " << b.size() << " bytes instead of " << o);
      std::vector<std::uint32_t> want; for (auto& s : win) want.push_back(s.id);
      CK("C05 C11", ids == want, "repair lists " << ids.size() << " identifiers, the window has " << want.size() << " (first " << (ids.empty() ? 0 : ids[0]) << " / " << want[0] << ")");
      std::vector<char, boost::alignment::aligned_allocator<char, 16>> sum(n, 0), x(n, 0);
      std::uint32_t sz = 0;
      for (auto& s : win)
      {
        const auto c = field.coefficient(id, s.id);
        std::fill(x.begin(), x.end(), 0); std::copy(s.d.begin(), s.d.end(), x.begin());
        gfs[wi].multiply_region.w32(&gfs[wi], x.data(), sum.data(), c, int(n), 1);
        const unsigned v = unsigned(s.d.size());
        if (w == 4) { unsigned q = 0; for (int k = 0; k < 4; ++k) q |= gfs[0].multiply.w32(&gfs[0], (v >> (4 * k)) & 15, c) << (4 * k); sz ^= q; }
        else if (w == 8) { sz ^= gfs[1].multiply.w32(&gfs[1], v & 255, c) | (gfs[1].multiply.w32(&gfs[1], v >> 8, c) << 8); }
        else sz ^= gfs[wi].multiply.w32(&gfs[wi], v, c) & 0xffff;
      }
      for (std::size_t k = 0; k < n; ++k) CK("C05", char(b[7 + k]) == sum[k], "repair " << id << " symbol byte " << k << " of " << n << " is not the combination of the " << win.size() << " data");
      if (w != 32) CK("C05", es == sz, "encoded size is " << es << " instead of " << sz);
    };
    const int steps = longh ? 1500 : bigd ? 1 + R(8) : 1 + R(120);
    for (int st = 0; st < steps; ++st)
    {
      out.clear();
      auto op = R(100);
      if (longh && !R.chance(2)) op = 0;
      if (longh && op >= 60 && op < 82 && R.chance(70)) op = 90;
      if (op < 60 || win.empty())
      {
        std::size_t n = longh ? 1 + R(3) : bigd ? (R(3) ? 1 + R(65535) : 65535 - R(20)) : R(4) ? 1 + R(24) : 1 + R(300);
        n = (n + word - 1) / word * word; if (n > 65535) n -= word;
        ref_source s; s.id = next_src; s.d.resize(n); const bool z = R.chance(8); for (auto& c : s.d) c = z ? 0 : char(R(256));
        story << "data(" << n << ") ";
        ntc::data d(s.d.begin(), s.d.end());
        if (R(2)) enc(std::move(d)); else { enc(static_cast<const ntc::data&>(d)); CK("C05", d.size() == n && std::equal(s.d.begin(), s.d.end(), d.begin()), "the caller's datum was modified"); }
        while (win.size() >= wsize) win.pop_front();
        win.push_back(s); ++next_src;
        std::size_t k = 0;
        const std::size_t expect = 1 + (next_src % rate == 0);
        CK("C12", out.size() == expect, out.size() << " packets emitted for datum " << s.id << " with rate " << rate << " instead of " << expect);
        if (sys) { check_source(out[k++], s); ++nsrc; } else { check_repair(out[k++], next_rep++); ++nrep; }
        if (expect == 2) { check_repair(out[k++], next_rep++); ++nrep; }
        since = std::uint16_t(since + expect);
      }
      else if (op < 68) { story << "generate_repair "; enc.generate_repair(); CK("C12", out.size() == 1, "generate_repair emitted " << out.size() << " packets"); check_repair(out[0], next_rep++); ++nrep; ++since; }
      else if (op < 73) { rate = longh ? 1 + R(2000) : 1 + R(12); story << "rate(" << rate << ") "; enc.set_rate(rate); }
      else if (op < 79) { wsize = R(6) ? 1 + R(longh ? 900 : R(2) ? 5 : 40) : std::numeric_limits<std::size_t>::max(); story << "window_size(" << wsize << ") "; enc.set_window_size(wsize); CK("C11", enc.window_size() == wsize, "window_size()"); }
      else if (op < 82) { sys = R(2); story << "systematic(" << sys << ") "; enc.set_code_type(sys ? ntc::systematic::yes : ntc::systematic::no); }
      else if (op < 85) { adaptive = R(2); story << "adaptive(" << adaptive << ") "; enc.set_adaptive(adaptive); }
      else if (op < 97)
      {
        std::vector<std::uint32_t> ids; const int style = R(5);
        const std::uint32_t lo = win.empty() ? 0 : win.front().id;
        const std::uint32_t back = R(3) ? 5 : longh ? R(1200) : R(300);
        std::uint32_t x0 = lo > back ? lo - back : 0; if (longh && R(2)) x0 += std::uint32_t(R(next_src - x0 + 1));
        const std::uint32_t step = longh && R(2) ? 1 + R(300) : 1;
        for (std::uint32_t x = x0; x < next_src + 3 && ids.size() < 2000; x += step) if (style == 0 ? false : style == 1 ? true : style == 2 ? R.chance(20) : style == 3 ? R.chance(80) : x % 2 == 0) ids.push_back(x);
        std::uint16_t nb = std::uint16_t(R(4) == 0 ? R(65536) : R(3) == 0 ? since : R(since + 2));
        if (R.chance(25) && since > 100) nb = std::uint16_t(since - since / 100 + R(3) - 1);
        story << "ack(nb=" << nb << "/" << since << ", " << ids.size() << " ids:"; for (std::size_t i = 0; i < ids.size() && i < 30; ++i) story << " " << ids[i]; story << ") ";
        auto b = mk_ack(nb, ids);
        ntc::packet p(reinterpret_cast<char*>(b.data()), reinterpret_cast<char*>(b.data()) + b.size());
        const auto r = R(2) ? enc(std::move(p)) : enc(static_cast<const ntc::packet&>(p));
        ++nacks;
        CK("C07", r == b.size(), "ack of " << b.size() << " bytes: " << r << " bytes reported as read");
        std::set<std::uint32_t> s(ids.begin(), ids.end());
        win.erase(std::remove_if(win.begin(), win.end(), [&](const ref_source& x) { return s.count(x.id) != 0; }), win.end());
        if (adaptive)
        {
          std::size_t want = 50, alt = 50;
          const long lost = long(since) - long(nb);
          if (since > 0 && lost * 100 >= long(since)) { want = (since + 2 * lost - 1) / (2 * lost); alt = (since == 98 * lost) ? want + 1 : want; }
          CK("C13", enc.rate() == want || enc.rate() == alt, "rate after an ack for " << nb << " of " << since << " packets is " << enc.rate() << " instead of " << want);
          CK("C13", enc.rate() >= 1 && enc.rate() <= 50, "rate is " << enc.rate());
          rate = enc.rate();
        }
        since = 0;
        CK("C12", out.empty(), "an ack made the encoder emit packets");
      }
      else
      {
        story << "bad-packet ";
        bytes b{(unsigned char)(1 + R(255)), 0, 0, 0, 0};
        ntc::packet p(reinterpret_cast<char*>(b.data()), reinterpret_cast<char*>(b.data()) + b.size());
        bool t = false; try { enc(std::move(p)); } catch (const ntc::packet_type_error&) { t = true; }
        CK("C18", t, "a packet of type " << int(b[0]) << " was not rejected");
      }
      CK("C13 C18", enc.rate() == rate, "rate is " << enc.rate() << " instead of " << rate);
      CK("C11", enc.window() == win.size(), "the window has " << enc.window() << " data instead of " << win.size());
      std::size_t k = 0;
      for (auto it = enc.m_sources.m_sources.begin(); it != enc.m_sources.m_sources.end(); ++it, ++k)
      {
        CK("C11", it->id() == win[k].id, "the window holds " << it->id() << " at position " << k << " instead of " << win[k].id);
        CK("C11", it->symbol().size() == win[k].d.size() && std::equal(win[k].d.begin(), win[k].d.end(), it->symbol().begin()), "the window holds other bytes for " << win[k].id);
      }
      CK("C12", enc.nb_sent_sources() == nsrc && enc.nb_sent_repairs() == nrep, "counters " << enc.nb_sent_sources() << "," << enc.nb_sent_repairs() << " instead of " << nsrc << "," << nrep);
      CK("C18", enc.nb_received_acks() == nacks, "nb_received_acks() is " << enc.nb_received_acks() << " instead of " << nacks);
      CK("C13", enc.code_type() == (sys ? ntc::systematic::yes : ntc::systematic::no) && enc.adaptive() == adaptive && enc.galois_field_size() == w, "a setting changed by itself");
      CK("C13", enc.m_nb_sent_packets == since, "packets sent since the last ack: " << enc.m_nb_sent_packets << " instead of " << since);
    }
  } catch (const desync&) {} while (elapsed() < budget);
  finish(0);
}
