// Buffers: what was written is what is read back; every access stays inside the buffer; malformed input is refused.
#include "sym.h"
#include <array>
#include "tachyon/base/buffer/copyable.h"
#include "tachyon/base/buffer/vector_buffer.h"
using namespace tachyon::base;
template class tachyon::base::VectorBuffer<uint8_t>;
enum class E8 : uint8_t { A }; enum class E32 : int32_t { A };
template <class T> static void t_rt(const char* nm) {
  // fixed-size buffer, any offset: write succeeds iff it fits; the bytes are those of the requested byte order; nothing else changes
  uint8_t mem[24], before[24];
  for (int i = 0; i < 24; ++i) { mem[i] = sym_value<uint8_t>("m"); before[i] = mem[i]; }
  size_t len = sym_choose(21, "len");
  Buffer b(mem + 2, len);
  Endian en = (Endian)(sym_choose(3, "endian") == 0 ? (int)Endian::kNative : 0);
  switch (sym_choose(3, "e2")) { case 0: en = Endian::kNative; break; case 1: en = Endian::kBig; break; default: en = Endian::kLittle; }
  b.set_endian(en);
  size_t off = sym_value<size_t>("off");
  T v = sym_value<T>(nm);
  bool ok = b.WriteAt(off, v);
  bool fits = off <= len && len - off >= sizeof(T);
  sym_assert(ok == fits, "write succeeds exactly when it fits");
  uint64_t vv = 0; memcpy(&vv, &v, sizeof(T));
  if (ok) {
    off = sym_concretize(off);
    for (size_t i = 0; i < 24; ++i) {
      size_t k = i - 2 - off;
      uint8_t e = before[i];
      if (i >= 2 + off && k < sizeof(T)) { size_t bi = en == Endian::kBig ? sizeof(T) - 1 - k : k; e = (uint8_t)(vv >> (8 * bi)); }
      sym_assert(mem[i] == e, "exactly the value's bytes are written, in the requested order");
    }
    sym_assert(b.buffer_offset() == off + sizeof(T), "offset advances");
    T r = 0; sym_assert(b.ReadAt(off, &r) && r == v, "reads back the value");
    sym_assert(b.buffer_offset() == off + sizeof(T), "offset advances after read");
    sym_assert(b.Done() == (off + sizeof(T) == len), "Done");
  } else {
    for (int i = 0; i < 24; ++i) sym_assert(mem[i] == before[i], "a refused write changes nothing");
    T r = v; sym_assert(!b.ReadAt(off, &r), "read refused"); sym_assert(r == v, "a refused read stores nothing");
  }
  sym_reached("end");
}
SYM_HARNESS(scalar_u8) { t_rt<uint8_t>("v8"); }
SYM_HARNESS(scalar_u16) { t_rt<uint16_t>("v16"); }
SYM_HARNESS(scalar_i32) { t_rt<int32_t>("v32"); }
SYM_HARNESS(scalar_u64) { t_rt<uint64_t>("v64"); }
SYM_HARNESS(explicit_order) {
  uint8_t mem[8]; for (auto& m : mem) m = sym_value<uint8_t>("m");
  size_t len = sym_choose(9, "len"), off = sym_value<size_t>("off");
  ReadOnlyBuffer r(mem, len);
  uint64_t be = 0, le = 0;
  unsigned k = 1u << (1 + sym_choose(3, "k"));  // 2,4,8 bytes
  bool big = sym_choose(2, "big"); bool ok; uint64_t got = 0;
  uint16_t x16 = 0; uint32_t x32 = 0; uint64_t x64 = 0;
  if (k == 2) { ok = big ? r.Read16BEAt(off, &x16) : r.Read16LEAt(off, &x16); got = x16; }
  else if (k == 4) { ok = big ? r.Read32BEAt(off, &x32) : r.Read32LEAt(off, &x32); got = x32; }
  else { ok = big ? r.Read64BEAt(off, &x64) : r.Read64LEAt(off, &x64); got = x64; }
  sym_assert(ok == (off <= len && len - off >= k), "read succeeds exactly when the bytes exist");
  if (ok) {
    off = sym_concretize(off);
    for (unsigned i = 0; i < k; ++i) { be = be << 8 | mem[off + i]; le |= (uint64_t)mem[off + i] << (8 * i); }
    sym_assert(got == (big ? be : le), "byte order"); sym_assert(r.buffer_offset() == off + k, "offset");
    // and the writers are their inverse
    uint8_t out[8] = {0}; Buffer w(out, 8); bool wk;
    if (k == 2) wk = big ? w.Write16BE(x16) : w.Write16LE(x16); else if (k == 4) wk = big ? w.Write32BE(x32) : w.Write32LE(x32); else wk = big ? w.Write64BE(x64) : w.Write64LE(x64);
    sym_assert(wk && w.buffer_offset() == k, "explicit write");
    for (unsigned i = 0; i < k; ++i) sym_assert(out[i] == mem[off + i], "write is the inverse of read");
  } else sym_assert(r.buffer_offset() == 0 && got == 0, "refused read has no effect");
  sym_reached("end");
}
SYM_HARNESS(raw_bytes) {
  uint8_t mem[8]; for (auto& m : mem) m = sym_value<uint8_t>("m");
  size_t len = sym_choose(9, "len"), off = sym_value<size_t>("off"), sz = sym_value<size_t>("sz");
  ReadOnlyBuffer r(mem, len);
  uint8_t* p = nullptr;
  bool fits = off <= len && sz <= len - off;
  bool okp = r.ReadPtrAt(off, &p, sz);
  sym_assert(okp == fits, "ReadPtrAt succeeds exactly when the range is inside");
  if (okp) sym_assert(p == mem + off && r.buffer_offset() == off + sz, "ReadPtrAt points into the buffer");
  uint64_t* q = nullptr; size_t n = sym_value<size_t>("n");
  bool ok8 = ReadOnlyBuffer(mem, len).ReadPtrAt(off, &q, n);
  sym_assert(ok8 == (off <= len && n <= (len - off) / 8), "ReadPtrAt of wide elements stays inside the buffer");
  if (fits) {
    sz = sym_concretize(sz); off = sym_concretize(off);
    uint8_t out[8]; ReadOnlyBuffer s(mem, len);
    sym_assert(s.ReadAt(off, out, sz), "ReadAt in range");
    for (size_t i = 0; i < sz; ++i) sym_assert(out[i] == mem[off + i], "ReadAt bytes");
    uint8_t dst[8] = {0}; Buffer w(dst, len); sym_assert(w.WriteAt(off, mem, sz), "WriteAt in range");
    for (size_t i = 0; i < 8; ++i) sym_assert(dst[i] == (i >= off && i < off + sz ? mem[i - off] : 0), "WriteAt bytes");
  } else { uint8_t out[1]; ReadOnlyBuffer s(mem, len); sym_assert(!s.ReadAt(off, out, sz), "ReadAt out of range"); uint8_t dst[8]; Buffer w(dst, len); sym_assert(!w.WriteAt(off, mem, sz), "WriteAt out of range"); }
  sym_reached("end");
}
template <class T, class EQ> static void rt_vec(const T& in, EQ eq, Endian en) {
  Uint8VectorBuffer w; w.set_endian(en);
  sym_assert(w.Write(in), "growable write");
  sym_assert(w.buffer_offset() == EstimateSize(in) && w.buffer_len() == EstimateSize(in), "EstimateSize is the number of bytes written");
  T out{};
  w.set_buffer_offset(0);
  sym_assert(w.Read(&out), "read back"); sym_assert(eq(in, out), "round trip"); sym_assert(w.Done(), "consumed exactly");
  // every truncation is refused
  size_t cut = sym_choose(w.buffer_len(), "cut");
  ReadOnlyBuffer r(w.owned_buffer().data(), cut); r.set_endian(en); T o2{};
  sym_assert(!r.Read(&o2), "truncated input is refused");
  sym_reached("end");
}
static Endian pick() { switch (sym_choose(3, "endian")) { case 0: return Endian::kNative; case 1: return Endian::kBig; default: return Endian::kLittle; } }
SYM_HARNESS(vec_u32) { std::vector<uint32_t> v(sym_choose(4, "n")); for (auto& x : v) x = sym_value<uint32_t>("x"); rt_vec(v, [](auto& a, auto& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (a[i] != b[i]) return false; return true; }, pick()); }
SYM_HARNESS(vec_nested) { std::vector<std::vector<uint16_t>> v(sym_choose(3, "n")); for (auto& y : v) { y.resize(sym_choose(3, "k")); for (auto& x : y) x = sym_value<uint16_t>("x"); } rt_vec(v, [](auto& a, auto& b) { return a == b; }, pick()); }
SYM_HARNESS(str) { std::string s(sym_choose(5, "n"), 0); for (auto& c : s) c = sym_value<char>("c"); rt_vec(s, [](auto& a, auto& b) { return a.size() == b.size() && memcmp(a.data(), b.data(), a.size()) == 0; }, pick()); }
SYM_HARNESS(wstr) { std::u16string s(sym_choose(4, "n"), 0); for (auto& c : s) c = sym_value<char16_t>("c"); rt_vec(s, [](auto& a, auto& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (a[i] != b[i]) return false; return true; }, pick()); }
SYM_HARNESS(arr) { std::array<int64_t, 3> a; for (auto& x : a) x = sym_value<int64_t>("x"); rt_vec(a, [](auto& x, auto& y) { return x[0] == y[0] && x[1] == y[1] && x[2] == y[2]; }, pick()); }
SYM_HARNESS(enums) { E8 a = (E8)sym_value<uint8_t>("a"); rt_vec(a, [](auto& x, auto& y) { return x == y; }, pick()); }
SYM_HARNESS(enums32) { E32 a = (E32)sym_value<int32_t>("a"); rt_vec(a, [](auto& x, auto& y) { return x == y; }, pick()); }
SYM_HARNESS(strview) {  // the view, the C string and the string serialise to the same bytes
  std::string s(sym_choose(4, "n"), 'x'); for (auto& c : s) { c = sym_value<char>("c"); sym_assume(c != 0); }
  Uint8VectorBuffer a, b, c; std::string_view v(s); const char* cs = s.c_str();
  sym_assert(a.Write(s) && b.Write(v) && c.Write(cs), "write");
  sym_assert(a.buffer_len() == b.buffer_len() && a.buffer_len() == c.buffer_len() && EstimateSize(v) == a.buffer_len() && EstimateSize(cs) == a.buffer_len(), "sizes agree");
  for (size_t i = 0; i < a.buffer_len() && i < b.buffer_len() && i < c.buffer_len(); ++i) sym_assert(a.owned_buffer()[i] == b.owned_buffer()[i] && a.owned_buffer()[i] == c.owned_buffer()[i], "bytes agree");
  sym_reached("end");
}
SYM_HARNESS(many) {
  uint8_t a = sym_value<uint8_t>("a"); uint32_t b = sym_value<uint32_t>("b"); uint64_t c = sym_value<uint64_t>("c"); uint16_t d[2] = {sym_value<uint16_t>("d"), sym_value<uint16_t>("d")};
  Endian en = pick(); Uint8VectorBuffer w; w.set_endian(en);
  sym_assert(w.WriteMany(a, b, d, c), "WriteMany");
  sym_assert(w.buffer_len() == 17 && w.buffer_offset() == 17, "WriteMany size");
  uint8_t a2; uint32_t b2; uint64_t c2; uint16_t d2[2]; w.set_buffer_offset(0);
  sym_assert(w.ReadMany(&a2, &b2, d2, &c2), "ReadMany");
  sym_assert(a == a2 && b == b2 && c == c2 && d[0] == d2[0] && d[1] == d2[1], "ReadMany round trip");
  size_t cut = sym_choose(17, "cut"); ReadOnlyBuffer r(w.owned_buffer().data(), cut); r.set_endian(en); sym_assert(!r.ReadMany(&a2, &b2, d2, &c2), "truncated ReadMany is refused");
  Uint8VectorBuffer m(std::move(w)); sym_assert(m.buffer_len() == 17 && w.buffer_len() == 0, "move transfers the contents"); m.set_endian(en); m.set_buffer_offset(0);
  sym_assert(m.ReadMany(&a2, &b2, d2, &c2) && b == b2 && c == c2, "moved buffer reads back");
  sym_reached("end");
}
SYM_HARNESS(malformed_string) {
  // arbitrary bytes never crash the reader: it either fails or yields a value the buffer could hold
  uint8_t mem[12]; for (auto& m : mem) m = sym_value<uint8_t>("m");
  size_t len = 6 + sym_choose(7, "len"); ReadOnlyBuffer r(mem, len); std::string s;
  if (r.Read(&s)) sym_assert(s.size() + 8 == r.buffer_offset() && r.buffer_offset() <= len, "string length comes from the buffer");
  sym_reached("end");
}
SYM_HARNESS(malformed_vector) {
  uint8_t mem[12]; for (auto& m : mem) m = sym_value<uint8_t>("m");
  size_t len = 8 + sym_choose(5, "len"); ReadOnlyBuffer r(mem, len); std::vector<uint16_t> s;
  if (r.Read(&s)) sym_assert(2 * s.size() + 8 == r.buffer_offset() && r.buffer_offset() <= len, "vector length comes from the buffer");
  sym_reached("end");
}
