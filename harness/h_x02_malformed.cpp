// X02: decoding any bytes received from another station ends with a message or a refusal.
#include "xchange.h"
#include "mutate.h"
#include "mvrxchange/CMVRxchangeService.h"
#include "mvrxchange/mvrxchange_server.h"
#include "mvrxchange/mvrxchange_client.h"
#include <arpa/inet.h>
#include <poll.h>
#include <sys/socket.h>
#include <thread>
#include <unistd.h>
using namespace xch;
extern "C" const char* vp_asan_more() { return "allocator_may_return_null=1"; }

static const size_t kMB = 1u << 20;
static void terminated(Ctx& c, const MVRxchangeString& t, const char* what) { c.check(memchr(t.fBuffer, 0, 1024) != nullptr, "unterminated", str(what) + " has no end"); }
// what came out is a message or a refusal, and can be used
static void judge(Ctx& c, Msg& m, bool reencode = true)
{
	terminated(c, m.JOIN.Provider, "Provider"); terminated(c, m.JOIN.StationName, "StationName"); terminated(c, m.COMMIT.FileName, "FileName"); terminated(c, m.COMMIT.Comment, "Comment"); terminated(c, m.RetError, "RetError");
	for (auto& k : m.JOIN.Commits) { terminated(c, k.FileName, "FileName"); terminated(c, k.Comment, "Comment"); }
	c.check(m.Type != T::MVR_UNDEFINED || !m.RetIsOK, "no-refusal", "neither a message nor a refusal"); c.label(m.Type == T::MVR_UNDEFINED ? "refused" : typeName(m.Type));
	if (reencode) { char* b = m.BufferToFile; if (b) { m.BufferToFile = new char[m.BufferToFileLength]; memcpy(m.BufferToFile, b, m.BufferToFileLength); } bool eaten = m.Type == T::MVR_REQUEST_RET && m.RetIsOK; Packet p; Msg k = m; if (eaten && !b) k.PathToFile = "/nonexistent"; p.FromExternalMessage(k); (void) bytesOf(p); m.BufferToFile = b; }
}
static void decode(Src& s, Ctx& c, uint32_t type, const str& body)
{
	Packet p; str d = head(type, body.size()) + body; c.check(receive(p, d), "sound-header", "a sound header is refused"); Msg m; p.ToExternalMessage(m); judge(c, m, s.coin()); delete[] m.BufferToFile;
	if (s.chance(20)) { Msg k = genMsg(s), g; Packet o; o.FromExternalMessage(k); c.check(receive(p, bytesOf(o)), "poisoned", "a sound header is refused afterwards"); p.ToExternalMessage(g); same(c, g, k, "a sound message on the same packet"); }
}
static J oddJson(Src& s, int depth = 0)
{
	switch (s.draw(12)) {
		case 0: return J(); case 1: return J::of(s.coin()); case 2: return J::num(s.oneof<const char*>({"0", "-1", "4294967296", "18446744073709551615", "18446744073709551616", "-9223372036854775808", "1e308", "1.5", "1e400", "-0", "99999999999999999999999999"}));
		case 3: return J::of(str(s.oneof<size_t>({1022, 1023, 1024, 1025, 5000, 200000}), (char) ('a' + s.draw(26)))); case 4: return J::of(genUtf8(s, 2000)); case 5: return J::of(str(s.oneof<const char*>({"", "-1", "x", "true", "MVR_JOIN", "99999999999", "99999999999999999999999", " ", "0x10", "{00000000-0000-0000-0000-000000000000}", "00000000-0000-0000-0000-00000000000", "                                               ", "00 000000 0000 0000 0000 0000 0000 0000 00000 "})));
		case 6: { str x; for (size_t i = 0, n = s.count(60); i < n; i++) x += (char) s.draw(256); return J::of(x); }
		case 7: { str x(1020, 'a'); for (int i = 0; i < 4; i++) x += s.oneof<const char*>({"\xe2\x82\xac", "\xf0\x9f\x92\xa1", "\xc3\xa9", "b"}); return J::of(x); }
		case 8: { J a = J::arr(); if (depth < 4) for (size_t i = 0, n = s.count(4); i < n; i++) a.a.push_back(oddJson(s, depth + 1)); return a; }
		case 9: { J o = J::obj(); if (depth < 4) for (size_t i = 0, n = s.count(4); i < n; i++) o.o.push_back({s.oneof<const char*>({"Type", "a", "", "FileUUID", "Commits"}), oddJson(s, depth + 1)}); return o; }
		case 10: return J::of(uuidText(genUuid(s)));
		default: { str x; size_t n = s.oneof<size_t>({35, 36, 37, 38, 46, 47, 48}); for (size_t i = 0; i < n; i++) x += s.oneof<char>({'0', 'f', 'G', '-', ' ', '{', '}', '\0'}); return J::of(x); }
	}
}
static void collect(J& j, std::vector<J*>& all) { all.push_back(&j); for (auto& x : j.a) collect(x, all); for (auto& p : j.o) collect(p.second, all); }
static void trees(Src& s, Ctx& c)
{
	J j = jsonOf(genMsg(s)); str before = textOf(j);
	for (size_t i = 0, n = 1 + s.count(4); i < n; i++) {
		std::vector<J*> all; collect(j, all); J* x = all[s.draw(all.size())];
		switch (s.draw(6)) {
			case 0: case 1: *x = oddJson(s); break;
			case 2: if (!x->o.empty()) x->o.erase(x->o.begin() + s.draw(x->o.size())); else if (!x->a.empty()) x->a.erase(x->a.begin() + s.draw(x->a.size())); else *x = oddJson(s); break;
			case 3: if (!x->o.empty()) { auto p = x->o[s.draw(x->o.size())]; p.second = oddJson(s); x->o.push_back(p); } else *x = oddJson(s); break;
			case 4: if (!x->o.empty()) x->o[s.draw(x->o.size())].first = s.oneof<const char*>({"Type", "type", "", "FileUUID", "StationUUID", "OK"}); break;
			default: if (x->k == J::object && x->get("Type")) x->set("Type", s.coin() ? oddJson(s) : J::of(str(typeName(kTypes[s.draw(8)])))); else *x = oddJson(s);
		}
	}
	str b = textOf(j, s.coin() ? &s : nullptr); c.sample = vp::quote(b).substr(0, 3000); c.nontrivial = b != before && b.size() > 20; decode(s, c, 0, b);
}
static void texts(Src& s, Ctx& c)
{
	static const std::vector<str> words = {"{", "}", "[", "]", ",", ":", "\"", "\\", "\\u", "\\ud800", "\\u0000", "null", "true", "1e999", "-", "//", "/*", "*/", "\xef\xbb\xbf", "\xff\xfe", str("\0", 1), "\xc0\x80", "\"Type\":", "[[[[[[[["};
	str t = textOf(jsonOf(genMsg(s)), s.coin() ? &s : nullptr), log, d;
	switch (s.draw(6)) { case 0: d = str(s.draw(200000), s.oneof<char>({'[', '{', ' ', '"', '1', '\\'})); if (s.coin()) d = "{\"Type\":\"MVR_JOIN\",\"x\":" + d; break; case 1: for (size_t i = 0, n = s.count(100); i < n; i++) d += (char) s.draw(256); break; default: d = mut::damage(t, s, {}, words, log); }
	c.sample = log + vp::quote(d).substr(0, 2000); c.nontrivial = d != t && d.size() > 20; uint32_t type = s.chance(90) ? 0 : (uint32_t) s.oneof<uint32_t>({1, 2, 0x1000000, 0xffffffffu}); decode(s, c, type, d);
}
static void headers(Src& s, Ctx& c)
{
	uint64_t len; switch (s.draw(6)) { case 0: len = s.oneof<uint64_t>({0, 1, ~0ull, ~0ull - 1, ~0ull - 27, ~0ull - 28, ~0ull - 29, 1ull << 63, (1ull << 63) - 1, 1ull << 62, 1ull << 48, 1ull << 40}); break; case 1: case 2: len = 30 * kMB - 64 + s.draw(128); break; case 3: len = s.draw(48 * kMB); break; case 4: len = ~0ull - s.draw(100); break; default: len = s.draw(5000); }
	bool bad = s.chance(15); uint32_t flag = bad ? s.oneof<uint32_t>({0, 0xffffffffu, kFlag + 1, 0xBAE10B00u, 0x000BE1BBu}) : kFlag; str h = head((uint32_t) s.oneof<uint32_t>({0, 1, 2, 0xffffffffu}), len, flag, num32(s), num32(s), num32(s)); c.sample = fmt("length %llu, flag %u", (unsigned long long) len, flag); c.nontrivial = true;
	Packet p; memcpy(p.GetData(), h.data(), kHead); bool ok = p.DecodeHeader(); if (bad) { c.check(!ok, "flag", "a packet with another flag is accepted"); return; }
	if (len > (1ull << 38)) { c.check(!ok, "huge", "a payload of that length is accepted"); return; }
	c.check(ok, "sound-header", "a sound header is refused"); c.eq((uint64_t) p.GetBodyLength(), len, "length", "payload length"); if (len > 64 * kMB) return;
	if (len > 4096) { memset(p.GetBody(), 'x', 2048); memset(p.GetBody() + len - 2048, 'y', 2048); p.GetBody()[len / 2] = 1; } else memset(p.GetBody(), '{', len);
	if (s.coin() || len < 4096) { Msg m; p.ToExternalMessage(m); judge(c, m, false); delete[] m.BufferToFile; }
}
// ---- over a connection
struct Sock {
	int fd = -1; ~Sock() { close(); } void close() { if (fd >= 0) ::close(fd); fd = -1; }
	static sockaddr_in to(int port) { sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons((uint16_t) port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); return a; }
	bool connect(int port) { fd = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a = to(port); return ::connect(fd, (sockaddr*) &a, sizeof a) == 0; }
	int listen() { fd = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a = to(0); if (bind(fd, (sockaddr*) &a, sizeof a) || ::listen(fd, 8)) return -1; socklen_t l = sizeof a; getsockname(fd, (sockaddr*) &a, &l); return ntohs(a.sin_port); }
	bool send(const str& d) { size_t o = 0; while (o < d.size()) { ssize_t k = ::send(fd, d.data() + o, d.size() - o, MSG_NOSIGNAL); if (k <= 0) return false; o += k; } return true; }
	// until n bytes or the end; n==0: until the end
	str recv(size_t n, int ms = 5000) { str o; char b[65536]; while (!n || o.size() < n) { pollfd q = {fd, POLLIN, 0}; if (poll(&q, 1, ms) <= 0) return o + "<timeout>"; ssize_t k = ::recv(fd, b, n ? std::min(n - o.size(), sizeof b) : sizeof b, 0); if (k <= 0) break; o.append(b, k); } return o; }
	void reset() { linger l = {1, 0}; setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); close(); }
};
static Msg answerOk(const Msg& m, void*) { Msg r; r.Type = m.Type == T::MVR_JOIN ? T::MVR_JOIN_RET : m.Type == T::MVR_LEAVE ? T::MVR_LEAVE_RET : m.Type == T::MVR_REQUEST ? T::MVR_REQUEST_RET : T::MVR_COMMIT_RET; r.RetIsOK = m.Type != T::MVR_REQUEST; r.RetError = "seen"; return r; }
static str damagedPacket(Src& s, str& log)
{
	str b = textOf(jsonOf(genMsg(s)), nullptr), d = head(0, b.size()) + b; static const std::vector<str> words = {"\"", "{", "\\u0000"};
	switch (s.draw(6)) {
		case 0: log += "garbage "; d.clear(); for (size_t i = 0, n = s.count(80); i < n; i++) d += (char) s.draw(256); break;
		case 1: log += "length "; d = head((uint32_t) s.draw(3), s.oneof<uint64_t>({0, 5, b.size() - 1, b.size() + 1, 30 * kMB, ~0ull, 1ull << 62})) + b; break;
		case 2: log += "body "; b = mut::damage(b, s, {}, words, log); d = head(0, b.size()) + b; break;
		case 3: log += "kind "; d = head(num32(s), b.size()) + b; break;
		case 4: log += "odd "; b = textOf(J::obj().set("Type", oddJson(s)).set("FromStationUUID", oddJson(s)).set("OK", oddJson(s)).set("Message", oddJson(s))); d = head(0, b.size()) + b; break;
		default: log += "sound "; }
	if (s.chance(25)) { d.resize(s.draw(d.size() + 1)); log += "cut "; } return d;
}
static void server(Src& s, Ctx& c)
{
	IMVRxchangeServicePtr hold; CMVRxchangeServiceImpl impl; bool cb = s.chance(80); if (cb) { X::OnMessageArgs a; a.IncomingCallback = answerOk; impl.OnMessage(a); }
	MVRxchangeNetwork::MVRxchangeServer sv(&impl); size_t n = 1 + s.count(6); c.nontrivial = true;
	for (size_t i = 0; i < n; i++) {
		Sock k; c.check(k.connect(sv.GetPort()), "dead", "the station no longer accepts connections"); str log, d = damagedPacket(s, log); c.sample += log + "\n";
		if (s.chance(30)) { size_t cut = s.draw(d.size() + 1); k.send(d.substr(0, cut)); usleep(500); k.send(d.substr(cut)); } else k.send(d);
		switch (s.draw(4)) { case 0: k.reset(); break; case 1: k.close(); break; case 2: shutdown(k.fd, SHUT_WR); k.recv(0, 3000); break; default: usleep((useconds_t) s.draw(3000)); k.reset(); }
	}
	Sock k; c.check(k.connect(sv.GetPort()), "dead", "the station no longer accepts connections"); Msg m = genMsg(s, T::MVR_COMMIT); str b = textOf(jsonOf(m)); k.send(head(0, b.size()) + b); str r = k.recv(kHead); c.check(r.size() == kHead, "no-answer", "a sound message gets no answer afterwards: " + vp::quote(r));
	str body = k.recv(rdbe(r, 20, 8)); if (cb) { Msg got; Packet p; c.check(receive(p, r + body), "answer", "the answer cannot be read"); p.ToExternalMessage(got); c.eq(str(typeName(got.Type)), str("MVR_COMMIT_RET"), "answer", "kind of answer"); c.check(got.RetIsOK && txt(got.RetError) == "seen", "answer", "content of the answer"); }
}
static void returned(const Msg&, const Msg& in, void* ctx) { auto& v = *(std::vector<str>*) ctx; v.push_back(str(typeName(in.Type)) + (in.RetIsOK ? " ok" : " refused")); }
static void client(Src& s, Ctx& c)
{
	Sock l; int port = l.listen(); c.check(port > 0, "setup", "no port"); str log, d = damagedPacket(s, log); int how = (int) s.draw(4); bool readAll = s.chance(80); c.sample = log + fmt(" close %d", how); c.nontrivial = true;
	std::thread t([&] { pollfd q = {l.fd, POLLIN, 0}; if (poll(&q, 1, 5000) <= 0) return; Sock k; k.fd = accept(l.fd, nullptr, nullptr); if (readAll) { str h = k.recv(kHead); if (h.size() == kHead) k.recv(rdbe(h, 20, 8)); } if (how != 1) k.send(d); if (how == 2) k.reset(); });
	CMVRxchangeServiceImpl impl; std::vector<str> got; X::OnMessageArgs a; a.ReturningCallback = returned; a.Context = &got; impl.OnMessage(a); MVRxchangeGroupMember g; g.IP.push_back("127.0.0.1"); g.Port = (uint16_t) port; impl.fMVRGroup.push_back(g);
	X::SendMessageArgs sm; sm.Message = genMsg(s); sm.Message.PathToFile = "/nonexistent"; sm.Message.RetIsOK = sm.Message.RetIsOK && sm.Message.Type != T::MVR_REQUEST_RET; int rc = (int) impl.Send_message(sm); t.join(); c.eq(rc, 0, "rc", "result of sending"); c.check(got.size() <= 1, "answers", "more than one answer"); for (auto& x : got) c.label(x);
}
VP_SUITE
{
	s.property = "X02"; s.rule = "the bytes differ from a sound message and are more than 20, or a header field or a connection is damaged"; s.quickCases = 20000; s.thoroughCases = 500000; s.cpuLimit = 30;
	s.props.push_back({"trees", 6, trees});
	s.props.push_back({"texts", 5, texts});
	s.props.push_back({"headers", 3, headers});
	s.props.push_back({"server", 1, server});
	s.props.push_back({"client", 1, client});
}
