#include "common.hh"
#include "stack.hh"
// C01..C04, C15: histories of source and repair packets with losses, duplicates and reordering.
static int words(int w) { return w == 16 ? 2 : w == 32 ? 4 : 1; }

static std::vector<char> mk_data(rng& R, int w, unsigned tag, bool tagged)
{
  std::size_t n = R(4) ? 1 + R(20) : 1 + R(120);
  if (tagged && n < 4) n = 4;
  n = (n + words(w) - 1) / words(w) * words(w);
  std::vector<char> d(n); const bool z = R.chance(6); for (auto& c : d) c = z ? 0 : char(R(256));
  if (tagged) for (int i = 0; i < 4; ++i) d[i] = char(tag >> (8 * i));
  return d;
}

// The whole library: ntc::encoder to ntc::decoder, acks fed back sometimes.
struct sink { std::function<void(const char*, std::size_t)> f; void operator()(const char* p, std::size_t n) { f(p, n); } };
static void whole(rng& R)
{
  const int w = (const int[]){4, 8, 16}[R(3)];
  const bool ordered = R(2);
  begin_case("library, seed " + std::to_string(R.s) + " w=" + std::to_string(w) + " ordered=" + std::to_string(ordered));
  std::vector<bytes> out, acks;
  ntc::encoder<collect> enc(w, collect{&out, {}});
  std::vector<std::vector<char>> sent; std::vector<bool> done; long last = -1;
  auto deliver = [&](const char* p, std::size_t n) {
    CK("C01", n >= 4, "a datum of " << n << " bytes was handed over, every one sent has at least 4");
    CK("C01", reinterpret_cast<std::size_t>(p) % 16 == 0 || true, "");
    unsigned t = 0; for (int i = 3; i >= 0; --i) t = t * 256 + (unsigned char)p[i];
    CK("C01", t < sent.size(), "a datum that was never sent was handed over (" << n << " bytes)");
    CK("C01", sent[t].size() == n, "datum " << t << " has size " << n << " instead of " << sent[t].size());
    CK("C01", std::equal(sent[t].begin(), sent[t].end(), p), "datum " << t << " was handed over with other bytes");
    CK("C02", !done[t], "datum " << t << " was handed over twice");
    CK("C03", !ordered || long(t) > last, "datum " << t << " was handed over after " << last);
    done[t] = true; last = std::max(last, long(t));
  };
  ntc::decoder<collect, sink> dec(w, ordered ? ntc::in_order::yes : ntc::in_order::no, collect{&acks, {}}, sink{deliver});
  dec.set_ack_period(std::chrono::milliseconds{0}); dec.set_ack_nb_packets(std::uint16_t(1 + R(60)));
  enc.set_rate(1 + R(6)); if (R(2)) enc.set_window_size(1 + R(20)); enc.set_code_type(R(3) ? ntc::systematic::yes : ntc::systematic::no);
  if (R(4) == 0) enc.set_adaptive(true);
  const int loss = R(60); std::vector<bytes> flight;
  const int steps = 5 + R(80);
  for (int k = 0; k < steps; ++k)
  {
    out.clear();
    if (R(6) || enc.window() == 0) { auto d = mk_data(R, w, unsigned(sent.size()), true); sent.push_back(d); done.push_back(false); enc(ntc::data(d.begin(), d.end())); }
    else enc.generate_repair();
    for (auto& b : out) if (!R.chance(loss)) flight.push_back(b);
    while (!flight.empty() && R(3))
    {
      const std::size_t i = R(3) ? 0 : R(std::min<std::size_t>(flight.size(), 6));
      const bytes b = flight[i]; if (!R.chance(8)) flight.erase(flight.begin() + i);
      story << (b[0] == 1 ? "r" : "s") << (b[1] * 16777216 + b[2] * 65536 + b[3] * 256 + b[4]) << " ";
      dec(pkt(b));
    }
    if (R(12) == 0) dec.generate_ack();
    if (!acks.empty() && R(3)) { if (R(3)) enc(pkt(acks.back())); acks.clear(); }
  }
}

// detail::decoder with chosen identifiers and windows, against a reference of what must be known.
static std::size_t rank_(refgf& g, std::vector<std::vector<std::uint32_t>> m)
{
  std::size_t r = 0; const std::size_t n = m.empty() ? 0 : m[0].size();
  for (std::size_t c = 0; c < n && r < m.size(); ++c)
  {
    std::size_t p = r; while (p < m.size() && m[p][c] == 0) ++p;
    if (p == m.size()) continue;
    std::swap(m[p], m[r]);
    const auto inv = g.g.divide.w32(&g.g, 1, m[r][c]);
    for (auto& x : m[r]) x = g.mul(x, inv);
    for (std::size_t q = 0; q < m.size(); ++q) if (q != r && m[q][c]) { const auto f = m[q][c]; for (std::size_t k = 0; k < n; ++k) m[q][k] ^= g.mul(f, m[r][k]); }
    ++r;
  }
  return r;
}

static void parts(rng& R)
{
  const int w = (const int[]){4, 4, 8, 16}[R(4)];
  const bool ordered = R(2);
  begin_case("decoder, seed " + std::to_string(R.s) + " w=" + std::to_string(w) + " ordered=" + std::to_string(ordered));
  refgf g(w); ntc::detail::galois_field field(w);
  std::map<std::uint32_t, datum> sent;
  std::uint32_t next = R.chance(25) ? std::uint32_t(R(0xfffffff0u - 1000)) : std::uint32_t(R(3) ? 0 : R(300)), rid = R(2) ? 0 : std::uint32_t(R(0xfffffff0u));
  const std::uint32_t base = next;
  std::vector<std::uint32_t> win; std::vector<bytes> flight; std::map<std::uint32_t, std::vector<std::uint32_t>> rep_ids;
  std::set<std::uint32_t> done; long long last = -1; std::vector<std::uint32_t> now;
  bool have_n = false; std::uint32_t N = 0;
  auto deliver = [&](const ntc::detail::decoder_source& s) {
    const auto it = sent.find(s.id());
    story << "=>" << s.id() << " ";
    CK("C01", it != sent.end(), "source " << s.id() << " was never sent");
    CK("C01", s.symbol_size() == it->second.d.size(), "source " << s.id() << " has size " << s.symbol_size() << " instead of " << it->second.d.size());
    CK("C01", std::equal(it->second.d.begin(), it->second.d.end(), s.symbol()), "source " << s.id() << " was handed over with other bytes");
    CK("C16", reinterpret_cast<std::size_t>(s.symbol()) % 16 == 0, "source " << s.id() << " is not aligned");
    CK("C02", !done.count(s.id()), "source " << s.id() << " was handed over twice");
    CK("C03", !ordered || (long long)s.id() > last, "source " << s.id() << " was handed over after " << last);
    done.insert(s.id()); last = std::max(last, (long long)s.id()); now.push_back(s.id());
  };
  ntc::detail::decoder dec(w, deliver, ordered ? ntc::in_order::yes : ntc::in_order::no);
  std::vector<bytes> none; collect sinkh{&none, {}}; ntc::detail::packetizer<collect> pz(sinkh);
  const bool big = R.chance(4); const int loss = R(70), steps = big ? 250 : 5 + R(90), lag = big ? 30 + R(70) : 1 + R(25); const bool gaps = R(2);
  const bool jumps = R.chance(30); std::vector<bytes> past;
  for (int k = 0; k < steps; ++k)
  {
    // the sender
    const auto op = R(10);
    if (jumps && R.chance(6)) { const std::uint32_t by = 1 + std::uint32_t(R(3) ? R(600) : R(70000)); if (next < 0xfffffff0u - 200000) { win.clear(); next += by; } }
    if (jumps && !past.empty() && R.chance(30)) flight.insert(flight.begin(), past[R(past.size())]);
    if (op < 5 || win.empty()) { datum d{next, mk_data(R, w, 0, false)}; sent[next] = d; win.push_back(next); if (!R.chance(loss)) { flight.push_back(ref_source_packet(sent[next])); } ++next; }
    else if (op < 9)
    {
      std::vector<const datum*> s; for (auto x : win) s.push_back(&sent[x]);
      if (!R.chance(loss / 3)) flight.push_back(ref_repair_packet(g, field, rid, s));
      rep_ids[rid] = win; ++rid;
    }
    else if (gaps) { std::vector<std::uint32_t> keep; for (auto x : win) if (R.chance(75)) keep.push_back(x); win = keep; }
    while (win.size() > std::size_t(lag)) win.erase(win.begin());
    // the receiver
    while (!flight.empty() && R(3))
    {
      const std::size_t i = R(3) ? 0 : R(std::min<std::size_t>(flight.size(), 1 + lag));
      const bytes b = flight[i]; if (jumps) past.push_back(b); if (!R.chance(10)) flight.erase(flight.begin() + i);
      const std::uint32_t id = ((b[1] * 256u + b[2]) * 256u + b[3]) * 256u + b[4];
      // what is held before
      std::map<std::uint32_t, std::set<std::uint32_t>> R0; std::set<std::uint32_t> S0, M0;
      for (auto& r : dec.repairs()) R0[r.first] = std::set<std::uint32_t>(r.second.source_ids().begin(), r.second.source_ids().end());
      for (auto& s : dec.sources()) S0.insert(s.first);
      for (auto& m : dec.missing_sources()) M0.insert(m.first);
      now.clear(); const auto done0 = done; const auto last0 = last;
      story << (b[0] == 1 ? "r" : "s") << id << (b[0] == 1 ? "[" : " "); if (b[0] == 1) { for (auto x : rep_ids[id]) story << x << " "; story << "] "; }
      // expected
      auto E = R0; auto S = S0; std::set<std::uint32_t> want; bool exact = true; bool outdated = false;
      if (b[0] == 2) { if ((have_n && id < N) || S.count(id)) outdated = true; else { S.insert(id); want.insert(id); } }
      else
      {
        const auto& ids = rep_ids[id];
        if ((have_n && ids[0] < N) || E.count(id)) outdated = true;
        else
        {
          N = ids[0]; have_n = true;
          for (auto it = E.begin(); it != E.end();) if (*it->second.begin() < N) it = E.erase(it); else ++it;
          for (auto it = S.begin(); it != S.end();) if (*it < N) it = S.erase(it); else ++it;
          std::set<std::uint32_t> u; for (auto x : ids) if (!S.count(x)) u.insert(x);
          if (!u.empty()) E[id] = u;
        }
      }
      if (!outdated)
      {
        for (bool again = true; again;)
        {
          again = false;
          for (auto it = E.begin(); it != E.end();) { for (auto x : S) it->second.erase(x); if (it->second.empty()) it = E.erase(it); else { if (it->second.size() == 1) { S.insert(*it->second.begin()); want.insert(*it->second.begin()); again = true; } ++it; } }
        }
        std::set<std::uint32_t> U; for (auto& r : E) U.insert(r.second.begin(), r.second.end());
        if (!E.empty() && U.size() <= E.size())
        {
          exact = false;
          if (U.size() == E.size())
          {
            std::vector<std::vector<std::uint32_t>> m; for (auto& r : E) { std::vector<std::uint32_t> row; for (auto x : U) row.push_back(r.second.count(x) ? field.coefficient(r.first, x) : 0); m.push_back(row); }
            if (rank_(g, m) == U.size()) { exact = true; for (auto x : U) { S.insert(x); want.insert(x); } E.clear(); story << "(solve " << U.size() << ") "; }
          }
        }
      }
      if (b[0] == 2) { auto res = pz.read_source(pkt(b)); dec(std::move(res.first)); } else { auto res = pz.read_repair(pkt(b)); dec(std::move(res.first)); }
      // what is held after
      std::map<std::uint32_t, std::set<std::uint32_t>> R1; std::set<std::uint32_t> S1, M1;
      for (auto& r : dec.repairs()) R1[r.first] = std::set<std::uint32_t>(r.second.source_ids().begin(), r.second.source_ids().end());
      for (auto& s : dec.sources()) S1.insert(s.first);
      for (auto& m : dec.missing_sources()) M1.insert(m.first);
      // C15
      if (have_n)
      {
        CK("C15", S1.empty() || *S1.begin() >= N, "source " << *S1.begin() << " is retained although " << N << " is the oldest to keep");
        CK("C15", M1.empty() || *M1.begin() >= N, "unknown source " << *M1.begin() << " is retained although " << N << " is the oldest to keep");
        for (auto& r : R1) CK("C15", r.second.empty() || *r.second.begin() >= N, "repair " << r.first << " with source " << *r.second.begin() << " is retained although " << N << " is the oldest to keep");
      }
      if (outdated) CK("C15 C02", S1 == S0 && M1 == M0 && R1 == R0 && now.empty(), "an outdated or duplicate packet changed something");
      for (auto& r : R1)
      {
        CK("C15", !r.second.empty(), "repair " << r.first << " is held without sources");
        for (auto x : r.second)
        {
          CK("C15", !S1.count(x), "repair " << r.first << " lists the known source " << x);
          const auto it = dec.missing_sources().find(x);
          CK("C15", it != dec.missing_sources().end(), "repair " << r.first << " lists " << x << ", which is not registered as unknown");
          bool f = false; for (auto& c : it->second) f = f || c->first == r.first;
          CK("C15", f, "repair " << r.first << " is not registered with " << x);
        }
        CK("C04", r.second.size() != 1, "repair " << r.first << " is held with one unknown source");
      }
      for (auto& m : dec.missing_sources())
      {
        CK("C15", !S1.count(m.first), "source " << m.first << " is both known and unknown");
        CK("C15", !m.second.empty(), "unknown source " << m.first << " is kept without a repair");
        for (auto& c : m.second) { bool f = false; for (auto it = dec.repairs().begin(); it != dec.repairs().end(); ++it) f = f || &*it == &*c; CK("C15", f, "unknown source " << m.first << " is registered with a repair that is gone"); CK("C15", R1[c->first].count(m.first), "registration of " << m.first << " with repair " << c->first << " that does not list it"); }
      }
      CK("C04", M1.size() > R1.size() || (M1.empty() && R1.empty()), R1.size() << " repairs are held for " << M1.size() << " unknown sources");
      // C01: what is held is right
      for (auto& s : dec.sources()) CK("C01", sent.count(s.first) && sent[s.first].d.size() == s.second.symbol_size() && std::equal(sent[s.first].d.begin(), sent[s.first].d.end(), s.second.symbol()), "source " << s.first << " is held with other bytes");
      // C04
      for (auto x : want) CK("C04 C01", S1.count(x) || (have_n && x < N), "source " << x << " could be recovered and was not");
      if (exact) { CK("C04", R1 == E, "the held repairs are not the expected ones (" << R1.size() << " instead of " << E.size() << ")"); CK("C04 C15", S1 == S, "the held sources are not the expected ones (" << S1.size() << " instead of " << S.size() << ")"); }
      if (!ordered) { for (auto x : S1) CK("C04", done.count(x), "source " << x << " is known and was not handed over"); for (auto x : now) CK("C04", !done0.count(x), "twice"); }
      else
      {
        // fm: nothing below can be handed over any more
        long long fm = 0; for (auto x : done) fm = std::max(fm, (long long)x + 1); if (have_n) fm = std::max(fm, (long long)N);
        CK("C04 C03", !(fm <= 0xffffffffll && S1.count(std::uint32_t(fm))), "source " << fm << " is known, all older ones are done, and it was not handed over");
        for (auto x : S1) if (x < fm) CK("C04 C03", done.count(x), "source " << x << " is known and was skipped");
        for (auto x : S0) if (x < fm) CK("C04 C03", done.count(x), "source " << x << " was known and was skipped");
        // skipped only if a repair has shown that it is not covered any more
        long long prev = last0; bool cont = true; std::uint32_t firstd = 0;
        for (auto x : now) { for (long long y = prev + 1; y < (long long)x; ++y) { if (y < (long long)N) { y = std::min((long long)x, (long long)N) - 1; continue; } CK("C03", false, "source " << x << " was handed over although " << y << " is neither handed over nor given up"); } prev = x; }
      }
    }
  }
}

int main(int argc, char** argv)
{
  init(argc, argv, "random histories of up to 95 steps, fields 4, 8, 16, windows up to 25 with gaps, loss up to 70 %, duplicates and reordering up to 26 packets");
  rng R(seed0);
  do { try { if (R(3)) parts(R); else whole(R); } catch (const desync&) {} catch (const std::exception& e) { if (is("C08") || is("C01") || is("C04")) fail(std::string("unexpected exception ") + e.what()); } } while (elapsed() < budget);
  finish(0);
}
