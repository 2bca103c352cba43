// V01: UUID values and their text form.
#include "Prefix/StdAfx.h"
#include "UUID.h"
#include "vp.h"
#include <algorithm>
using namespace VectorworksMVR;
typedef VWFC::Tools::VWUUID U;
using vp::str; using vp::fmt;

static std::vector<uint8_t> genBytes(vp::Src& s)
{
	std::vector<uint8_t> b(16);
	int mode = s.draw(4);
	for (auto& x : b) x = mode == 0 ? s.draw(256) : mode == 1 ? s.oneof<int>({0, 0xff, 0x80, 0x7f}) : mode == 2 ? (s.coin() ? 0 : s.draw(256)) : 0xF0 | s.draw(16);
	return b;
}
static str refText(const std::vector<uint8_t>& b, bool br)
{
	str o = br ? "{" : "";
	for (int i = 0; i < 16; i++) { if (i == 4 || i == 6 || i == 8 || i == 10) o += "-"; o += fmt("%02X", b[i]); }
	return o + (br ? "}" : "");
}
static std::vector<uint8_t> bytesOf(const U& u) { std::vector<uint8_t> v(16); u.GetUUID(v.data(), 16); return v; }
static str hex(const std::vector<uint8_t>& b) { str o; for (auto x : b) o += fmt("%02x", x); return o; }

static void roundTrip(vp::Src& s, vp::Ctx& c)
{
	auto b = genBytes(s);
	c.sample = hex(b); c.nontrivial = std::count(b.begin(), b.end(), 0) < 12;
	U u(b.data(), 16);
	c.eq(hex(bytesOf(u)), hex(b), "bytes", "bytes of a UUID made from bytes");
	for (int br = 0; br < 2; br++) {
		str t = (const char*) u.ToString(br);
		c.eq(t, refText(b, br), "text", "text form");
		str in = t; int how = s.draw(3);
		for (auto& ch : in) if (how == 1 || (how == 2 && s.coin())) ch = tolower(ch);
		U v; c.check(v.FromString(TXString(in.c_str()), br), "parse", "text form refused: " + in);
		c.eq(hex(bytesOf(v)), hex(b), "parse", "bytes parsed from " + in);
		c.check(v == u && !(v != u), "eq", "equal UUIDs compare unequal");
		U w; // the other bracket convention is not accepted silently
		c.check(!w.FromString(TXString(in.c_str()), !br), "parse", "wrong bracket form accepted: " + in);
	}
	c.eq(str((const char*)(TXString) u), refText(b, true), "text", "default text form");
	U viaStr((TXString(refText(b, true).c_str())));
	c.check(viaStr == u, "ctor-str", "UUID from text differs");
	U copy(u), asg; asg = u;
	c.check(copy == u && asg == u, "copy", "copy differs");
	Uint32 x[4]; u.GetUUID(x[0], x[1], x[2], x[3]);
	for (int i = 0; i < 4; i++) c.eq(x[i], (Uint32)(b[4*i] | b[4*i+1] << 8 | b[4*i+2] << 16 | (Uint32) b[4*i+3] << 24), "u32", "32-bit part");
	c.check(U(x[0], x[1], x[2], x[3]) == u, "u32", "UUID from its 32-bit parts differs");
	VWIID id; u.GetUUID(id);
	c.eq(id.data1, (uint32_t) b[0] << 24 | b[1] << 16 | b[2] << 8 | b[3], "iid", "iid.data1");
	c.eq(id.data2, (uint16_t)(b[4] << 8 | b[5]), "iid", "iid.data2");
	c.eq(id.data3, (uint16_t)(b[6] << 8 | b[7]), "iid", "iid.data3");
	c.check(std::equal(id.data4, id.data4 + 8, b.begin() + 8), "iid", "iid.data4");
	c.check(U(id) == u, "iid", "UUID from its interface id differs");
	size_t n = s.draw(24); std::vector<uint8_t> part(n + 1, 0xEE); u.GetUUID(part.data(), n);
	for (size_t i = 0; i < n; i++) c.eq((int) part[i], i < 16 ? (int) b[i] : 0, "bytes", "partial bytes");
	c.eq((int) part[n], 0xEE, "bytes", "byte after the asked range");
	size_t m = s.draw(17); U p(b.data(), m); auto pb = bytesOf(p);
	for (size_t i = 0; i < 16; i++) c.eq((int) pb[i], i < m ? (int) b[i] : 0, "bytes", "short bytes");
}
static void distinct(vp::Src& s, vp::Ctx& c)
{
	auto a = genBytes(s), b = a;
	int i = s.draw(16), bit = s.draw(8); b[i] ^= 1 << bit;
	c.sample = hex(a) + " vs " + hex(b); c.nontrivial = true;
	U x(a.data(), 16), y(b.data(), 16);
	c.check(x != y && !(x == y), "neq", "different UUIDs compare equal");
	c.check(str((const char*) x.ToString(false)) != str((const char*) y.ToString(false)), "neq", "different UUIDs have the same text");
	MvrUUID m, n; x.GetUUID(m.a, m.b, m.c, m.d); y.GetUUID(n.a, n.b, n.c, n.d);
	c.check(!(m == n) && (m < n) != (n < m) && !(m < m), "order", "ordering of UUIDs");
	auto d = genBytes(s); U z(d.data(), 16); MvrUUID o; z.GetUUID(o.a, o.b, o.c, o.d);
	if (m < n && n < o) c.check(m < o, "order", "ordering is not transitive");
	if (n < m && m < o) c.check(n < o, "order", "ordering is not transitive");
	c.eq(m.isEmpty(), a == std::vector<uint8_t>(16), "order", "emptiness");
}
static void malformed(vp::Src& s, vp::Ctx& c)
{
	auto b = genBytes(s); bool br = s.coin(); str t = refText(b, br);
	int how = s.draw(4);
	if (how == 0) { size_t p = s.draw(t.size()); t.erase(p, 1 + s.draw(3)); }
	else if (how == 1) t.insert(s.draw(t.size() + 1), 1 + s.draw(3), s.oneof<char>({'0', 'A', '-', '{', ' '}));
	else if (how == 2) { // a separator or bracket replaced
		std::vector<size_t> p; for (size_t i = 0; i < t.size(); i++) if (strchr("{}-", t[i])) p.push_back(i);
		t[s.pick(p)] = s.oneof<char>({'0', 'F', '_', ' ', ':'});
	}
	else { std::vector<size_t> p; for (size_t i = 0; i < t.size(); i++) if (isxdigit(t[i])) p.push_back(i);
		t[s.pick(p)] = s.oneof<char>({'g', 'G', 'x', ' ', '-', '{', '@', '`', '/', ':'}); }
	c.sample = t; c.nontrivial = true; c.label(fmt("how %d", how));
	U u; bool ok = true;
	try { ok = u.FromString(TXString(t.c_str()), br); } catch (...) { c.label("threw"); ok = false; }
	c.check(!ok, "malformed", "malformed UUID text accepted: " + t);
	if (how < 3) { // documented: text of the wrong shape gives the empty UUID
		U v((TXString(refText(b, true).substr(0, 37 - s.draw(37)).c_str())));
		c.eq(hex(bytesOf(v)), str(32, '0'), "malformed", "UUID of unusable text");
	}
}
static void fresh(vp::Src& s, vp::Ctx& c)
{
	std::set<str> seen; int n = 2 + s.draw(60); c.nontrivial = true; c.sample = fmt("%d new UUIDs", n);
	for (int i = 0; i < n; i++) { U u; c.eq(hex(bytesOf(u)), str(32, '0'), "new", "default UUID"); u.New(); c.check(seen.insert(hex(bytesOf(u))).second, "new", "New() repeated a UUID"); }
}
VP_SUITE
{
	s.property = "V01"; s.quickCases = 80000; s.thoroughCases = 3000000; s.batch = 1000;
	s.rule = "16 random bytes (uniform, boundary or sparse) with random letter case, one-bit-different pairs, and malformed texts; non-trivial: at least five non-zero bytes, or a pair / malformed text";
	s.props.push_back({"roundtrip", 5, roundTrip});
	s.props.push_back({"distinct", 2, distinct});
	s.props.push_back({"malformed", 3, malformed});
	s.props.push_back({"fresh", 1, fresh});
}
