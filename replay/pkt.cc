#include "common.hh"
#include "netcode/packet.hh"
using ntc::packet;
// C16: a packet against a std::vector<char> under random operations.
static void same(const packet& p, const std::vector<char>& m, const std::vector<bool>& known)
{
  CHECK(p.size() == m.size(), "size is " << p.size() << " instead of " << m.size());
  CHECK(p.empty() == m.empty(), "empty() is wrong");
  CHECK(std::size_t(p.end() - p.begin()) == m.size(), "end() - begin() is not the size");
  CHECK(p.cend() - p.cbegin() == p.end() - p.begin(), "cbegin()/cend() differ from begin()/end()");
  for (std::size_t i = 0; i < m.size(); ++i) if (known[i])
  {
    CHECK(p[i] == m[i], "byte " << i << " of " << m.size() << " is " << int(p[i]) << " instead of " << int(m[i]));
    CHECK(p.data()[i] == m[i], "data()[" << i << "] differs");
    CHECK(*(p.begin() + i) == m[i], "begin()[" << i << "] differs");
  }
  CHECK(reinterpret_cast<std::size_t>(p.symbol()) % 16 == 0, "symbol() is not on a 16-byte boundary");
  CHECK(p.symbol() == p.data() + 7, "symbol() is not the eighth byte");
  CHECK(p.capacity() >= p.size(), "capacity() is less than the size");
}

int main(int argc, char** argv)
{
  init(argc, argv, "random sequences of up to 40 operations on packets of up to 300 bytes (70000 occasionally)");
  rng R(seed0);
  auto len = [&]() -> std::size_t { switch (R(6)) { case 0: return R(3); case 1: return 5 + R(6); case 2: return 14 + R(6); case 3: return R(40) ? R(300) : R(70000); default: return R(64); } };
  auto bytes = [&](std::size_t n) { std::vector<char> v(n); for (auto& c : v) c = char(R(256)); return v; };
  do
  {
    begin_case("seed " + std::to_string(R.s));
    packet p; std::vector<char> m; std::vector<bool> k;
    const std::size_t n0 = len(); const char v0 = char(R(256));
    switch (R(7))
    {
      case 0: story << "packet() "; break;
      case 1: story << "packet(" << n0 << ") "; p = packet(n0); m.assign(n0, 0); k.assign(n0, false); break;
      case 2: story << "packet(" << n0 << "," << int(v0) << ") "; p = packet(n0, v0); m.assign(n0, v0); k.assign(n0, true); break;
      case 3: { story << "packet(first,last) of " << n0 << " "; m = bytes(n0); k.assign(n0, true); p = packet(m.begin(), m.end()); break; }
      case 4: { story << "packet{..8 bytes} "; m = bytes(8); k.assign(8, true); p = packet{m[0], m[1], m[2], m[3], m[4], m[5], m[6], m[7]}; break; }
      case 5: { story << "packet(byte_buffer of " << n0 << ") "; auto b = bytes(n0); ntc::detail::byte_buffer bb(b.begin(), b.end()); p = packet(bb); m.assign(7, 0); k.assign(7, false); m.insert(m.end(), b.begin(), b.end()); k.resize(m.size(), true); break; }
      default: { story << "packet(zero_byte_buffer of " << n0 << ") "; auto b = bytes(n0); ntc::detail::zero_byte_buffer bb(b.begin(), b.end()); p = packet(bb); m.assign(7, 0); k.assign(7, false); m.insert(m.end(), b.begin(), b.end()); k.resize(m.size(), true); break; }
    }
    same(p, m, k);
    for (int step = R(40); step > 0; --step)
    {
      const std::size_t n = len(); const char v = char(R(256));
      switch (R(13))
      {
        case 0: story << "push_back "; p.push_back(v); m.push_back(v); k.push_back(true); break;
        case 1: story << "resize(" << n << ") "; p.resize(n); m.resize(n); k.resize(n, false); break;
        case 2: story << "resize(" << n << ",v) "; p.resize(n, v); m.resize(n, v); k.resize(n, true); break;
        case 3: story << "clear "; p.clear(); m.clear(); k.clear(); break;
        case 4: story << "assign(" << n << ",v) "; p.assign(n, v); m.assign(n, v); k.assign(n, true); break;
        case 5: { story << "assign(first,last) of " << n << " "; m = bytes(n); k.assign(n, true); p.assign(m.begin(), m.end()); break; }
        case 6: { story << "assign{..3} "; m = bytes(3); k.assign(3, true); p.assign({m[0], m[1], m[2]}); break; }
        case 7: story << "reserve(" << n << ") "; p.reserve(n); break;
        case 8: story << "shrink_to_fit "; p.shrink_to_fit(); break;
        case 9: if (!m.empty()) { const auto i = R(m.size()); story << "[" << i << "]= "; p[i] = v; m[i] = v; k[i] = true; } break;
        case 10: { story << "copy "; packet q(p); same(q, m, k); packet r; r = q; q.push_back(1); same(p, m, k); same(r, m, k); p = r; break; }
        case 11: { story << "move "; packet q(std::move(p)); same(q, m, k); p = packet(); p = std::move(q); break; }
        default: if (!m.empty()) { const auto i = R(m.size()); story << "data()[" << i << "]= "; p.data()[i] = v; *(p.begin() + i) = v; m[i] = v; k[i] = true; if (i >= 7) CHECK(p.symbol()[i - 7] == v, "symbol() does not show byte " << i); } break;
      }
      same(p, m, k);
    }
  } while (elapsed() < budget);
  finish(0);
}
