// MVR-xchange: a JSON reader and writer of its own, the packet framing, and a model of the messages.
#pragma once
#include "Prefix/StdAfx.h"
#include "Include/VectorworksMVR.h"
#include "Include/IMediaRessourceVectorInterface.h"
#include "mvrxchange/mvrxchange_message.h"
#include "vp.h"
namespace xch {
using namespace VectorworksMVR;
using vp::Src; using vp::Ctx; using vp::str; using vp::fmt;
typedef IMVRxchangeService X; typedef X::MVRxchangeMessageType T; typedef X::IMVRxchangeMessage Msg; typedef X::MVR_COMMIT_MESSAGE Commit; typedef MVRxchangeNetwork::MVRxchangePacket Packet;

// ---- JSON
struct J {
	enum K { null, boolean, number, text, array, object } k = null; bool b = false; str s; std::vector<J> a; std::vector<std::pair<str, J>> o;
	static J of(const str& t) { J j; j.k = text; j.s = t; return j; }
	static J of(bool v) { J j; j.k = boolean; j.b = v; return j; }
	static J num(const str& t) { J j; j.k = number; j.s = t; return j; }
	static J of(uint64_t v) { return num(fmt("%llu", (unsigned long long) v)); }
	static J arr() { J j; j.k = array; return j; }
	static J obj() { J j; j.k = object; return j; }
	J& set(const str& n, J v) { for (auto& p : o) if (p.first == n) { p.second = std::move(v); return *this; } o.push_back({n, std::move(v)}); return *this; }
	const J* get(const str& n) const { for (auto& p : o) if (p.first == n) return &p.second; return nullptr; }
};
static inline void utf8(str& o, uint32_t c)
{
	if (c < 0x80) o += (char) c; else if (c < 0x800) { o += (char) (0xC0 | c >> 6); o += (char) (0x80 | (c & 63)); } else if (c < 0x10000) { o += (char) (0xE0 | c >> 12); o += (char) (0x80 | (c >> 6 & 63)); o += (char) (0x80 | (c & 63)); }
	else { o += (char) (0xF0 | c >> 18); o += (char) (0x80 | (c >> 12 & 63)); o += (char) (0x80 | (c >> 6 & 63)); o += (char) (0x80 | (c & 63)); }
}
// the code points of valid UTF-8; false when it is not
static inline bool points(const str& t, std::vector<uint32_t>& out)
{
	for (size_t i = 0; i < t.size();) {
		unsigned char c = t[i]; int n = c < 0x80 ? 0 : (c & 0xE0) == 0xC0 ? 1 : (c & 0xF0) == 0xE0 ? 2 : (c & 0xF8) == 0xF0 ? 3 : -1; if (n < 0 || i + n >= t.size() + (n == 0)) return false;
		uint32_t v = n == 0 ? c : c & (0x3F >> n); for (int k = 1; k <= n; k++) { unsigned char d = t[i + k]; if ((d & 0xC0) != 0x80) return false; v = v << 6 | (d & 63); }
		static const uint32_t low[] = {0, 0x80, 0x800, 0x10000}; if (v < low[n] || v > 0x10FFFF || (v >= 0xD800 && v < 0xE000)) return false; out.push_back(v); i += n + 1;
	}
	return true;
}
struct Parser {
	const str& t; size_t p = 0; explicit Parser(const str& x) : t(x) {}
	[[noreturn]] void bad(const char* w) { throw vp::Fail{"not-json", fmt("the body is not JSON (%s at %zu): ", w, p) + vp::quote(t).substr(0, 400)}; }
	void ws() { while (p < t.size() && (t[p] == ' ' || t[p] == '\n' || t[p] == '\t' || t[p] == '\r')) p++; }
	char at() { if (p >= t.size()) bad("end"); return t[p]; }
	uint32_t hex() { uint32_t v = 0; for (int i = 0; i < 4; i++) { char c = at(); p++; v = v * 16 + (c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : (bad("hex"), 0)); } return v; }
	str string()
	{
		str o; if (at() != '"') bad("quote"); p++;
		while (at() != '"') {
			unsigned char c = t[p++]; if (c < 0x20) bad("control character"); if (c != '\\') { o += (char) c; continue; }
			char e = at(); p++;
			switch (e) { case '"': case '\\': case '/': o += e; break; case 'b': o += '\b'; break; case 'f': o += '\f'; break; case 'n': o += '\n'; break; case 'r': o += '\r'; break; case 't': o += '\t'; break;
				case 'u': { uint32_t v = hex(); if (v >= 0xD800 && v < 0xDC00) { if (at() != '\\') bad("surrogate"); p++; if (at() != 'u') bad("surrogate"); p++; uint32_t w = hex(); if (w < 0xDC00 || w > 0xDFFF) bad("surrogate"); v = 0x10000 + ((v - 0xD800) << 10) + (w - 0xDC00); } utf8(o, v); break; }
				default: bad("escape"); }
		}
		p++; std::vector<uint32_t> q; if (!points(o, q)) bad("UTF-8"); return o;
	}
	J value(int depth = 0)
	{
		if (depth > 200) bad("depth"); ws(); char c = at(); J j;
		if (c == '"') return J::of(string());
		if (c == '{') { p++; j.k = J::object; ws(); if (at() == '}') { p++; return j; } for (;;) { ws(); str n = string(); if (j.get(n)) bad("duplicate name"); ws(); if (at() != ':') bad("colon"); p++; J v = value(depth + 1); j.o.push_back({n, v}); ws(); if (at() == ',') { p++; continue; } if (at() != '}') bad("brace"); p++; return j; } }
		if (c == '[') { p++; j.k = J::array; ws(); if (at() == ']') { p++; return j; } for (;;) { j.a.push_back(value(depth + 1)); ws(); if (at() == ',') { p++; continue; } if (at() != ']') bad("bracket"); p++; return j; } }
		for (const char* w : {"true", "false", "null"}) if (t.compare(p, strlen(w), w) == 0) { p += strlen(w); if (*w == 'n') return j; return J::of(*w == 't'); }
		size_t q = p; while (p < t.size() && strchr("+-.eE0123456789", t[p])) p++; if (p == q) bad("value"); return J::num(t.substr(q, p - q));
	}
	J document() { J j = value(); ws(); if (p != t.size()) bad("more after the value"); return j; }
};
// JSON text: compact when s is null, otherwise any form of the same value
static inline str quoteJ(const str& x, Src* s)
{
	std::vector<uint32_t> q; if (!points(x, q)) return "\"" + x + "\""; str o = "\"";
	for (uint32_t c : q) {
		bool esc = s && s->chance(6);
		if (c == '"' || c == '\\') { if (s && s->chance(20)) o += fmt("\\u%04x", c); else { o += '\\'; o += (char) c; } }
		else if (c == '\n' && !esc) o += "\\n"; else if (c == '\t' && !esc) o += "\\t"; else if (c == '\r' && !esc) o += "\\r"; else if (c == '\b' && !esc) o += "\\b"; else if (c == '\f' && !esc) o += "\\f";
		else if (c == '/' && s && s->coin()) o += "\\/";
		else if (c < 0x20 || esc) { if (c < 0x10000) o += fmt(s && s->coin() ? "\\u%04X" : "\\u%04x", c); else o += fmt("\\u%04x\\u%04x", 0xD800 + ((c - 0x10000) >> 10), 0xDC00 + ((c - 0x10000) & 0x3FF)); }
		else utf8(o, c);
	}
	return o + "\"";
}
static inline str sp(Src* s) { if (!s || !s->chance(15)) return ""; static const char* w[] = {" ", "\n", "\t", "  ", "\r\n"}; return w[s->draw(5)]; }
static inline str textOf(const J& j, Src* s = nullptr)
{
	str o = sp(s);
	switch (j.k) {
		case J::null: o += "null"; break; case J::boolean: o += j.b ? "true" : "false"; break; case J::number: o += j.s; break; case J::text: o += quoteJ(j.s, s); break;
		case J::array: o += "["; for (size_t i = 0; i < j.a.size(); i++) { if (i) o += ","; o += textOf(j.a[i], s); } o += sp(s) + "]"; break;
		case J::object: { std::vector<size_t> ix; for (size_t i = 0; i < j.o.size(); i++) ix.push_back(i); if (s) for (size_t i = ix.size(); i > 1; i--) std::swap(ix[i - 1], ix[s->draw(i)]); o += "{"; for (size_t i = 0; i < ix.size(); i++) { if (i) o += ","; o += sp(s) + quoteJ(j.o[ix[i]].first, s) + sp(s) + ":" + textOf(j.o[ix[i]].second, s); } o += sp(s) + "}"; }
	}
	return o + sp(s);
}
// ---- framing: six numbers, most significant byte first
static inline str be(uint64_t v, int n) { str o; for (int i = n - 1; i >= 0; i--) o += (char) (v >> (8 * i)); return o; }
static inline uint64_t rdbe(const str& d, size_t p, int n) { uint64_t v = 0; for (int i = 0; i < n; i++) v = v << 8 | (uint8_t) d[p + i]; return v; }
static const size_t kHead = 28; static const uint32_t kFlag = 778682;
static inline str head(uint32_t type, uint64_t length, uint32_t flag = kFlag, uint32_t version = 1, uint32_t number = 0, uint32_t count = 1) { return be(flag, 4) + be(version, 4) + be(number, 4) + be(count, 4) + be(type, 4) + be(length, 8); }
static inline str bytesOf(const Packet& p) { return str(p.GetData(), p.GetLength()); }
// ---- messages
static inline str uuidText(const MvrUUID& u)
{
	// the bytes of the numbers, least significant first
	str b; for (uint32_t x : {u.a, u.b, u.c, u.d}) for (int i = 0; i < 4; i++) b += (char) (x >> (8 * i));
	str o; for (int i = 0; i < 16; i++) { if (i == 4 || i == 6 || i == 8 || i == 10) o += "-"; o += fmt("%02X", (uint8_t) b[i]); } return o;
}
static inline str txt(const MVRxchangeString& x) { return str(x.fBuffer, strnlen(x.fBuffer, 1024)); }
static inline const char* typeName(T t)
{
	switch (t) { case T::MVR_JOIN: return "MVR_JOIN"; case T::MVR_LEAVE: return "MVR_LEAVE"; case T::MVR_COMMIT: return "MVR_COMMIT"; case T::MVR_REQUEST: return "MVR_REQUEST"; case T::MVR_JOIN_RET: return "MVR_JOIN_RET"; case T::MVR_LEAVE_RET: return "MVR_LEAVE_RET"; case T::MVR_COMMIT_RET: return "MVR_COMMIT_RET"; case T::MVR_REQUEST_RET: return "MVR_REQUEST_RET"; default: return "MVR_UNDEFINED"; }
}
static const T kTypes[] = {T::MVR_JOIN, T::MVR_LEAVE, T::MVR_COMMIT, T::MVR_REQUEST, T::MVR_JOIN_RET, T::MVR_LEAVE_RET, T::MVR_COMMIT_RET, T::MVR_REQUEST_RET};
static inline J uuids(const std::vector<MvrUUID>& v) { J a = J::arr(); for (auto& u : v) a.a.push_back(J::of(uuidText(u))); return a; }
static inline J jsonOf(const Commit& m)
{
	return J::obj().set("Type", J::of(str("MVR_COMMIT"))).set("FileName", J::of(txt(m.FileName))).set("Comment", J::of(txt(m.Comment))).set("FileSize", J::of((uint64_t) m.FileSize)).set("FileUUID", J::of(uuidText(m.FileUUID))).set("StationUUID", J::of(uuidText(m.StationUUID))).set("verMajor", J::of((uint64_t) m.VersionMajor)).set("verMinor", J::of((uint64_t) m.VersionMinor)).set("ForStationsUUID", uuids(m.ForStationsUUID));
}
// the message as a document; what its kind does not carry is left out
static inline J jsonOf(const Msg& m)
{
	J j = J::obj(); bool ret = m.Type == T::MVR_JOIN_RET || m.Type == T::MVR_LEAVE_RET || m.Type == T::MVR_COMMIT_RET || m.Type == T::MVR_REQUEST_RET;
	if (m.Type == T::MVR_COMMIT) return jsonOf(m.COMMIT);
	j.set("Type", J::of(str(typeName(m.Type))));
	if (m.Type == T::MVR_JOIN || m.Type == T::MVR_JOIN_RET) { J a = J::arr(); for (auto& x : m.JOIN.Commits) a.a.push_back(jsonOf(x)); j.set("Provider", J::of(txt(m.JOIN.Provider))).set("StationName", J::of(txt(m.JOIN.StationName))).set("StationUUID", J::of(uuidText(m.JOIN.StationUUID))).set("verMajor", J::of((uint64_t) m.JOIN.VersionMajor)).set("verMinor", J::of((uint64_t) m.JOIN.VersionMinor)).set("Commits", a); }
	if (m.Type == T::MVR_LEAVE) j.set("FromStationUUID", J::of(uuidText(m.LEAVE.FromStationUUID)));
	if (m.Type == T::MVR_REQUEST) j.set("FileUUID", J::of(uuidText(m.REQUEST.FileUUID))).set("FromStationUUID", uuids(m.REQUEST.FromStationUUID));
	if (ret) j.set("OK", J::of(m.RetIsOK)).set("Message", J::of(txt(m.RetError)));
	return j;
}
static inline str show(const Msg& m) { str o = textOf(jsonOf(m)); if (m.Type == T::MVR_REQUEST_RET && m.RetIsOK) o += fmt(" file of %zu bytes", m.BufferToFileLength); return o; }
// ---- generators
static inline str genUtf8(Src& s, size_t max)
{
	str o; size_t n = s.count(s.chance(10) ? max : std::min<size_t>(max, 24)); if (s.chance(2)) n = max;
	for (size_t i = 0; i < n; i++) { str c; switch (s.draw(8)) { case 0: utf8(c, s.oneof<uint32_t>({'"', '\\', '/', '\n', '\t', '\r', 8, 12, 1, 0x1f, 0x7f, '%', '{', '<', '\'', ':'})); break; case 1: utf8(c, s.oneof<uint32_t>({0x80, 0xe9, 0x7ff, 0x800, 0x20ac, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x1f4a1, 0x10ffff, 0x2028})); break; default: c = (char) ('a' + s.draw(26)); } if (o.size() + c.size() > max) break; o += c; }
	return o;
}
static inline uint32_t num32(Src& s) { switch (s.draw(4)) { case 0: return s.oneof<uint32_t>({0, 1, 2, 6, 255, 65535, 65536, 0x7fffffff, 0x80000000u, 0xffffffffu}); case 1: return (uint32_t) s.draw(0x100000000ull); default: return (uint32_t) s.draw(10); } }
static inline uint64_t num64(Src& s) { switch (s.draw(4)) { case 0: return s.oneof<uint64_t>({0, 1, 0xffffffffull, 0x100000000ull, (1ull << 53) - 1, 1ull << 53, (1ull << 53) + 1, 0x7fffffffffffffffull, 1ull << 63, ~0ull}); case 1: return ((uint64_t) s.draw(0x100000000ull) << 32) | s.draw(0x100000000ull); default: return s.draw(1000000); } }
static inline MvrUUID genUuid(Src& s) { if (s.chance(10)) return s.coin() ? MvrUUID(0, 0, 0, 0) : MvrUUID(~0u, ~0u, ~0u, ~0u); if (s.coin()) return MvrUUID((Uint32) s.draw(9), (Uint32) s.draw(9), (Uint32) s.draw(9), (Uint32) s.draw(9)); return MvrUUID((Uint32) s.draw(0x100000000ull), (Uint32) s.draw(0x100000000ull), (Uint32) s.draw(0x100000000ull), (Uint32) s.draw(0x100000000ull)); }
static inline std::vector<MvrUUID> genUuids(Src& s) { std::vector<MvrUUID> v; size_t n = s.count(s.chance(5) ? 200 : 4); for (size_t i = 0; i < n; i++) v.push_back(genUuid(s)); return v; }
static inline Commit genCommit(Src& s) { Commit m; m.FileName = genUtf8(s, 1023).c_str(); m.Comment = genUtf8(s, 1023).c_str(); m.VersionMajor = num32(s); m.VersionMinor = num32(s); m.FileSize = num64(s); m.FileUUID = genUuid(s); m.StationUUID = genUuid(s); m.ForStationsUUID = genUuids(s); return m; }
static inline Msg genMsg(Src& s, T t)
{
	Msg m; m.Type = t;
	if (t == T::MVR_JOIN || t == T::MVR_JOIN_RET) { m.JOIN.Provider = genUtf8(s, 1023).c_str(); m.JOIN.StationName = genUtf8(s, 1023).c_str(); m.JOIN.StationUUID = genUuid(s); m.JOIN.VersionMajor = num32(s); m.JOIN.VersionMinor = num32(s); for (size_t i = 0, n = s.count(s.chance(5) ? 60 : 3); i < n; i++) m.JOIN.Commits.push_back(genCommit(s)); }
	if (t == T::MVR_COMMIT) m.COMMIT = genCommit(s);
	if (t == T::MVR_LEAVE) m.LEAVE.FromStationUUID = genUuid(s);
	if (t == T::MVR_REQUEST) { m.REQUEST.FileUUID = genUuid(s); m.REQUEST.FromStationUUID = genUuids(s); }
	if (t == T::MVR_JOIN_RET || t == T::MVR_LEAVE_RET || t == T::MVR_COMMIT_RET || t == T::MVR_REQUEST_RET) { m.RetIsOK = t != T::MVR_REQUEST_RET && s.coin(); m.RetError = genUtf8(s, 1023).c_str(); }
	return m;
}
static inline Msg genMsg(Src& s) { return genMsg(s, kTypes[s.draw(8)]); }
static inline str fileBytes(size_t n, uint64_t seed) { str o(n, '\0'); uint64_t x = seed * 2654435761u + 1; for (size_t i = 0; i < n; i++) { if (i % 8 == 0) x = x * 6364136223846793005ull + 1442695040888963407ull; o[i] = (char) (x >> (8 * (i % 8))); } return o; }
// ---- receiving, as the sessions do it: header, then as many bytes as it says
static inline bool receive(Packet& p, const str& data)
{
	memcpy(p.GetData(), data.data(), kHead); if (!p.DecodeHeader()) return false;
	memcpy(p.GetBody(), data.data() + kHead, p.GetBodyLength()); return true;
}
static inline void same(Ctx& c, const Msg& got, const Msg& want, const str& what)
{
	c.eq(str(typeName(got.Type)), str(typeName(want.Type)), "type", what + ": kind of message"); c.eq(textOf(jsonOf(got)), textOf(jsonOf(want)), "content", what + ": content");
}
} // namespace xch
