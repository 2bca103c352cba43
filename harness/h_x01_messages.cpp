// X01: every message decodes on the receiving side to the values that were sent, in the documented JSON and packet form.
#include "xchange.h"
using namespace xch;

// every member of want is in got with the same value
static void holds(Ctx& c, const J& got, const J& want, const str& at)
{
	c.check(got.k == want.k, "json-kind", at + " has another kind of value: " + textOf(got).substr(0, 300));
	if (want.k == J::object) { for (auto& p : want.o) { const J* v = got.get(p.first); c.check(v != nullptr, "json-member", at + " lacks " + p.first); holds(c, *v, p.second, at + "." + p.first); } }
	else if (want.k == J::array) { c.eq(got.a.size(), want.a.size(), "json-length", "length of " + at); for (size_t i = 0; i < want.a.size(); i++) holds(c, got.a[i], want.a[i], at + fmt("[%zu]", i)); }
	else c.eq(textOf(got), textOf(want), "json-value", at);
}
static void packet(Ctx& c, const str& d, uint32_t type)
{
	c.check(d.size() >= kHead, "short", "the packet is shorter than a header"); c.eq(rdbe(d, 0, 4), kFlag, "flag", "flag"); c.eq(rdbe(d, 4, 4), 1, "version", "version"); c.eq(rdbe(d, 8, 4), 0, "number", "number of the packet"); c.eq(rdbe(d, 12, 4), 1, "count", "number of packets"); c.eq(rdbe(d, 16, 4), type, "kind", "kind of payload"); c.eq(rdbe(d, 20, 8), d.size() - kHead, "length", "payload length");
}
static void messages(Src& s, Ctx& c)
{
	// packets are used again for further messages
	size_t n = 1 + s.count(5); bool reuse = s.coin(); Packet out, in; str sizes;
	for (size_t i = 0; i < n; i++) {
		Msg m = genMsg(s), got; c.sample += show(m).substr(0, 1500) + "\n"; Packet o2, i2; Packet& o = reuse ? out : o2; Packet& r = reuse ? in : i2; o.FromExternalMessage(m); str d = bytesOf(o); packet(c, d, 0);
		J j = Parser(d.substr(kHead)).document(); holds(c, j, jsonOf(m), "the message");
		Packet copy(o); c.eq(bytesOf(copy), d, "copy", "a copy of the packet"); c.check(receive(r, d), "refused", "the header is refused"); c.eq((size_t) r.GetBodyLength(), d.size() - kHead, "length", "decoded payload length"); r.ToExternalMessage(got); same(c, got, m, "after decoding"); if (textOf(jsonOf(m)).size() > 150) c.nontrivial = true;
		got = Msg(); copy.ToExternalMessage(got); same(c, got, m, "decoding the copy");
	}
}
// an identifier has several spellings: lower case, and two digits at a time
static void respell(Src& s, J& j, bool id = false)
{
	if (id && j.k == J::text && j.s.size() == 36) {
		if (s.chance(25)) for (char& ch : j.s) ch = (char) tolower(ch);
		if (s.chance(20)) { str o; size_t n = 0; for (char ch : j.s) if (ch != '-') { if (n && n % 2 == 0) o += ' '; o += ch; n++; } j.s = o; }
	}
	for (auto& x : j.a) respell(s, x, id);
	for (auto& p : j.o) respell(s, p.second, p.first.size() > 4 && p.first.compare(p.first.size() - 4, 4, "UUID") == 0);
}
// any text of the same document: order, blanks, escapes, members that are not known
static void documents(Src& s, Ctx& c)
{
	Msg m = genMsg(s), got; J j = jsonOf(m);
	if (s.chance(40)) for (size_t i = 0, n = 1 + s.count(3); i < n; i++) { J v; switch (s.draw(5)) { case 0: break; case 1: v = J::of((uint64_t) 7); break; case 2: v = J::arr(); v.a.push_back(J::obj()); break; case 3: v = J::num("-1.5e10"); break; default: v = J::of(genUtf8(s, 40)); } j.set(s.oneof<const char*>({"Files", "x", "", "type", "FileUUID2", "OKAY"}), v); }
	bool join = m.Type == T::MVR_JOIN || m.Type == T::MVR_JOIN_RET;
	if (join) for (const char* k : {"verMajor", "verMinor"}) if (s.chance(30)) j.set(k, J::of(j.get(k)->s));
	if (j.get("OK") && s.chance(30)) j.set("OK", J::of(str(m.RetIsOK ? "true" : "false")));
	respell(s, j);
	str b = textOf(j, &s), d = head(0, b.size(), kFlag, num32(s), num32(s), num32(s)) + b; c.sample = b.substr(0, 3000); c.nontrivial = b.size() > 150; Packet r; c.check(receive(r, d), "refused", "the header is refused"); r.ToExternalMessage(got); same(c, got, m, "after decoding");
}
static void files(Src& s, Ctx& c)
{
	static const size_t lim = 30u << 20; size_t n; switch (s.draw(20)) { case 0: n = lim - 40 + s.draw(80); break; case 1: n = s.draw(lim * 2); break; case 2: case 3: case 4: n = 1 + s.draw(2000000); break; case 5: n = s.oneof<size_t>({512, 1024, 1448, 4096, 8192, 16384, 65536, 262144, 1048576}) * (1 + s.draw(3)) + s.draw(3) - 1; break; default: n = 1 + s.count(5000); } if (!n) n = 1;
	str f = fileBytes(n, s.draw(1000)); bool path = s.coin(); Msg m, got; m.Type = T::MVR_REQUEST_RET; m.RetIsOK = true; str p = c.scratch + "/f.mvr"; c.sample = fmt("%zu bytes from a %s", n, path ? "file" : "buffer"); c.nontrivial = n > 100;
	if (path) { vp::writeFile(p, f); m.PathToFile = p.c_str(); } else { m.BufferToFile = new char[n]; memcpy(m.BufferToFile, f.data(), n); m.BufferToFileLength = n; if (s.coin()) m.PathToFile = "/nonexistent"; }
	Packet o; o.FromExternalMessage(m); str d = bytesOf(o); packet(c, d, 1); c.check(d.compare(kHead, str::npos, f) == 0, "payload", "the payload is not the file");
	Packet r; c.check(receive(r, d), "refused", "the header is refused"); r.ToExternalMessage(got); c.eq(str(typeName(got.Type)), str("MVR_REQUEST_RET"), "type", "kind of message"); c.check(got.RetIsOK, "not-ok", "the answer is not marked OK"); c.eq(got.BufferToFileLength, n, "file-length", "length of the file"); c.check(got.BufferToFile && memcmp(got.BufferToFile, f.data(), n) == 0, "file", "the file differs"); delete[] got.BufferToFile;
	// the same packets carry another message afterwards
	if (s.chance(40)) { Msg k = genMsg(s), g2; o.FromExternalMessage(k); str e = bytesOf(o); packet(c, e, 0); c.check(receive(r, e), "refused", "the header is refused"); r.ToExternalMessage(g2); same(c, g2, k, "after a file"); }
}
VP_SUITE
{
	s.property = "X01"; s.rule = "the document has more than 150 bytes or the file more than 100"; s.quickCases = 20000; s.thoroughCases = 500000;
	s.props.push_back({"messages", 4, messages});
	s.props.push_back({"documents", 4, documents});
	s.props.push_back({"files", 1, files});
}
