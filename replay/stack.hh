// A little library to build histories: a reference sender which makes packets with chosen identifiers.
#pragma once
#include "netcode/decoder.hh"
#include "netcode/encoder.hh"
#include "netcode/detail/encoder.hh"
#include "netcode/detail/source_list.hh"
using bytes = std::vector<unsigned char>;
struct collect { std::vector<bytes>* out; bytes cur; void operator()(const char* p, std::size_t n) { cur.insert(cur.end(), p, p + n); } void operator()() { out->push_back(cur); cur.clear(); } };
inline ntc::packet pkt(const bytes& b) { return ntc::packet(reinterpret_cast<const char*>(b.data()), reinterpret_cast<const char*>(b.data()) + b.size()); }

static void put(bytes& b, std::uint32_t v, int n) { for (int i = n - 1; i >= 0; --i) b.push_back((unsigned char)(v >> (8 * i))); }
static void put_ids(bytes& b, const std::vector<std::uint32_t>& ids)
{
  if (ids.empty()) { put(b, 0, 2); return; }
  std::vector<std::pair<unsigned, unsigned>> rl;
  for (std::size_t i = 1; i < ids.size(); ++i) { const unsigned d = ids[i] - ids[i - 1]; if (!rl.empty() && rl.back().second == d && rl.back().first < 255) ++rl.back().first; else rl.emplace_back(1, d); }
  put(b, unsigned(rl.size() + 1), 2); put(b, ids[0], 4);
  for (auto& p : rl) { put(b, p.first, 1); put(b, p.second, 2); }
}

struct datum { std::uint32_t id; std::vector<char> d; };

// Independent arithmetic of the code, straight on gf_complete.
struct refgf
{
  gf_t g; int w;
  explicit refgf(int w_) : w(w_) { gf_init_easy(&g, w); }
  ~refgf() { gf_free(&g, 0); }
  std::uint32_t mul(std::uint32_t a, std::uint32_t b) { return g.multiply.w32(&g, a, b); }
  std::uint32_t size(unsigned v, std::uint32_t c)
  {
    if (w == 4) { unsigned q = 0; for (int k = 0; k < 4; ++k) q |= mul((v >> (4 * k)) & 15, c) << (4 * k); return q; }
    if (w == 8) return mul(v & 255, c) | (mul(v >> 8, c) << 8);
    return mul(v, c) & 0xffff;
  }
};

inline bytes ref_source_packet(const datum& s) { bytes b; put(b, 2, 1); put(b, s.id, 4); put(b, unsigned(s.d.size()), 2); b.insert(b.end(), s.d.begin(), s.d.end()); return b; }

inline bytes ref_repair_packet(refgf& g, const ntc::detail::galois_field& f, std::uint32_t id, const std::vector<const datum*>& win)
{
  std::size_t n = 0; for (auto s : win) n = std::max(n, s->d.size());
  std::vector<char, boost::alignment::aligned_allocator<char, 16>> sum(n, 0), x(n, 0);
  unsigned sz = 0; std::vector<std::uint32_t> ids;
  for (auto s : win)
  {
    const auto c = const_cast<ntc::detail::galois_field&>(f).coefficient(id, s->id);
    std::fill(x.begin(), x.end(), 0); std::copy(s->d.begin(), s->d.end(), x.begin());
    g.g.multiply_region.w32(&g.g, x.data(), sum.data(), c, int(n), 1);
    sz ^= g.size(unsigned(s->d.size()), c); ids.push_back(s->id);
  }
  bytes b; put(b, 1, 1); put(b, id, 4); put(b, unsigned(n), 2); b.insert(b.end(), sum.begin(), sum.end()); put_ids(b, ids); put(b, sz, 2);
  return b;
}
