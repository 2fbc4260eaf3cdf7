#include "common.hh"
#include "stack.hh"
// C06, C07: what the writers emit is what the readers read.
static std::vector<std::uint32_t> mk_ids(rng& R)
{
  std::vector<std::uint32_t> v; const int style = R(9);
  std::size_t n = style == 0 ? R(3) : style == 1 ? 250 + R(20) : style == 2 ? 500 + R(40) : style == 3 ? R(6) : style == 8 && R.chance(10) ? 60000 + R(8000) : R(300);
  std::uint64_t x = R(3) ? R(1000) : R(3) ? R(0xffffffffu) : 0;
  const int gap = R(6); unsigned d = 1;
  for (std::size_t i = 0; i < n; ++i)
  {
    v.push_back(std::uint32_t(x));
    if (gap == 0) d = 1; else if (gap == 1) d = 1 + R(3); else if (gap == 2) { if (R.chance(3)) d = 1 + R(65535); } else if (gap == 3) d = R(30) ? 1 : R.chance(50) ? 65535 : 256; else if (gap == 4) { if (R.chance(1)) d = 1 + R(300); } else d = 1 + unsigned(i % 2);
    x += d; if (x > 0xffffffffull) break;
  }
  return v;
}
static std::size_t runs(const std::vector<std::uint32_t>& v) { bytes b; put_ids(b, v); return b.size() <= 2 ? 0 : (b.size() - 6) / 3; }

int main(int argc, char** argv)
{
  init(argc, argv, "random sources up to 65535 bytes, random repairs, lists of up to 68000 identifiers with every kind of gap below 65536");
  rng R(seed0);
  std::vector<bytes> out; collect h{&out, {}}; ntc::detail::packetizer<collect> wr(h), rd(h);
  std::function<void(const char*, std::size_t)> nop = [](const char*, std::size_t) {};
  do try
  {
    begin_case("seed " + std::to_string(R.s)); out.clear(); h.cur.clear();
    std::size_t n = R(5) ? 1 + R(300) : R(3) ? 1 + R(65535) : 65500 + R(36);
    const std::uint32_t id = R(2) ? std::uint32_t(R(100000)) : std::uint32_t(R.next());
    std::vector<char> d(n); for (auto& c : d) c = char(R(256));
    const int kind = is("C07") ? 2 + 0 * R(3) : R(2);
    auto ids = mk_ids(R); if (kind != 2 && ids.size() > 3000) ids.resize(3000); while (runs(ids) >= 65535) ids.resize(ids.size() / 2);
    const std::uint16_t v = std::uint16_t(R(2) ? R(300) : R(65536));
    story << (kind == 0 ? "source" : kind == 1 ? "repair" : "ack") << " id=" << id << " n=" << n << " v=" << v << " ids(" << ids.size() << "):"; for (std::size_t i = 0; i < ids.size() && i < 40; ++i) story << " " << ids[i];
    ntc::detail::source_id_list l(ids.begin(), ids.end());
    bytes want;
    if (kind == 0)
    {
      ntc::detail::encoder_source s(id, ntc::detail::byte_buffer(d.begin(), d.end())); wr.write_source(s);
      CHECK(out.size() == 1, out.size() << " packets emitted for one source");
      auto r = rd.read_source(pkt(out[0]));
      CHECK(r.second == out[0].size(), r.second << " bytes reported as read, the packet has " << out[0].size());
      CHECK(r.first.id() == id && r.first.symbol_size() == n, "source " << id << " of " << n << " bytes is read as " << r.first.id() << " of " << r.first.symbol_size());
      CHECK(std::equal(d.begin(), d.end(), r.first.symbol()), "the source is read with other bytes");
      want = ref_source_packet(datum{id, d});
      CHECK(out[0] == want, "the source packet does not have the documented layout");
    }
    else if (kind == 1)
    {
      ntc::detail::encoder_repair s(id, v, ntc::detail::source_id_list(l), ntc::detail::zero_byte_buffer(d.begin(), d.end())); wr.write_repair(s);
      CHECK(out.size() == 1, out.size() << " packets emitted for one repair");
      auto r = rd.read_repair(pkt(out[0]));
      CHECK(r.second == out[0].size(), r.second << " bytes reported as read, the packet has " << out[0].size());
      CHECK(r.first.id() == id && r.first.symbol_size() == n && r.first.encoded_size() == v, "repair " << id << " of " << n << " bytes, size " << v << ", is read as " << r.first.id() << " of " << r.first.symbol_size() << ", size " << r.first.encoded_size());
      CHECK(std::equal(d.begin(), d.end(), r.first.symbol()), "the repair is read with another symbol");
      CHECK(r.first.source_ids() == l, "the repair's list of " << l.size() << " identifiers is read with " << r.first.source_ids().size());
    }
    else
    {
      ntc::detail::ack a(ntc::detail::source_id_list(l), v); wr.write_ack(a);
      CHECK(out.size() == 1, out.size() << " packets emitted for one ack");
      auto r = rd.read_ack(pkt(out[0]));
      CHECK(r.second == out[0].size(), r.second << " bytes reported as read, the packet has " << out[0].size());
      CHECK(r.first.nb_packets() == v, "the counter " << v << " is read as " << r.first.nb_packets());
      CHECK(r.first.source_ids() == l, "the list of " << l.size() << " identifiers is read with " << r.first.source_ids().size());
      // a repair with the same list
      out.clear(); ntc::detail::encoder_repair s(id, v, ntc::detail::source_id_list(l), ntc::detail::zero_byte_buffer(1, 'x')); wr.write_repair(s);
      CHECK(rd.read_repair(pkt(out[0])).first.source_ids() == l, "a repair with that list is read with another one");
    }
  } catch (const desync&) {} catch (const std::exception& e) { fail(std::string("a well-formed packet is rejected: ") + e.what()); } while (elapsed() < budget);
  finish(0);
}
