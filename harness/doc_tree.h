// Documents as trees: the shape of a GDTF/MVR XML document with canonical values. One tree is
// (a) generated, (b) built through the public interface, (c) written by an independent XML and
// ZIP writer, (d) obtained from the getters of the library, (e) parsed from XML the library wrote.
#pragma once
#include "vp.h"
#include <algorithm>
#include <cmath>
#include <zlib.h>

namespace doc {
using vp::str; using vp::fmt;

struct E {
	str name;
	std::vector<std::pair<str, str>> at;
	std::vector<E> kids;
	str text;
	E() {}
	explicit E(str n) : name(std::move(n)) {}
	const str* get(const str& n) const { for (auto& a : at) if (a.first == n) return &a.second; return nullptr; }
	bool has(const str& n) const { return get(n) != nullptr; }
	str val(const str& n, const str& d = "") const { auto p = get(n); return p ? *p : d; }
	void set(const str& n, const str& v) { for (auto& a : at) if (a.first == n) { a.second = v; return; } at.push_back({n, v}); }
	void del(const str& n) { for (size_t i = 0; i < at.size(); i++) if (at[i].first == n) { at.erase(at.begin() + i); return; } }
	E& add(const str& n) { kids.emplace_back(n); return kids.back(); }
	E* kid(const str& n) { for (auto& k : kids) if (k.name == n) return &k; return nullptr; }
	const E* kid(const str& n) const { for (auto& k : kids) if (k.name == n) return &k; return nullptr; }
	E& need(const str& n) { if (auto k = kid(n)) return *k; return add(n); }
	size_t count(const str& n) const { size_t c = 0; for (auto& k : kids) if (k.name == n) c++; return c; }
	size_t total() const { size_t c = 1; for (auto& k : kids) c += k.total(); return c; }
};

// ---- numbers -------------------------------------------------------------------------------
static inline str dtext(double x)
{
	char b[400]; snprintf(b, sizeof b, "%.6f", x);
	if (strtod(b, nullptr) == x) { if (b[0] == '-' && strtod(b, nullptr) == 0) return "-0"; return b; }
	snprintf(b, sizeof b, "%.17g", x); return b;
}
static inline str dcanon(const str& t) { return dtext(strtod(t.c_str(), nullptr)); }
static inline double dval(const str& t) { return strtod(t.c_str(), nullptr); }
static inline str itext(long long v) { return fmt("%lld", v); }
static inline str utext(unsigned long long v) { return fmt("%llu", v); }
static inline long long ival(const str& t) { return strtoll(t.c_str(), nullptr, 10); }
static inline unsigned long long uval(const str& t) { return strtoull(t.c_str(), nullptr, 10); }

// a double the format's six decimals carry exactly
static inline str genDbl(vp::Src& s)
{
	switch (s.draw(8)) {
		case 0: return dtext(0);
		case 1: return dtext((double) s.range(-10, 10));
		case 2: return dtext((double) s.range(-100000, 100000));
		case 3: return dtext(s.range(-999999, 999999) / 1e6);
		case 4: return dtext(s.range(-2000, 2000) / 8.0);
		case 5: return dtext(s.range(-1000000000ll, 1000000000ll) / 1e6);
		case 6: return dtext(s.range(-1000000000000000ll, 1000000000000000ll) / 1e6);
		default: return dtext((double) s.range(-1000000000000000ll, 1000000000000000ll));
	}
}
// a finite double with any magnitude and mantissa
static inline double genAnyDbl(vp::Src& s)
{
	uint64_t b = s.draw(0); double d; memcpy(&d, &b, 8);
	if (!std::isfinite(d)) d = (double)(int64_t) b;
	return d;
}

// ---- text ------------------------------------------------------------------------------------
// characters a GDTF Name may hold (others are dropped when an object is created)
// names that look like each other, also across kinds of objects
static inline bool& confusing() { static bool b = false; return b; }
static inline str genNameRaw(vp::Src& s, bool dots)
{
	if (confusing()) { str o; size_t n = 1 + s.draw(4); for (size_t i = 0; i < n; i++) o += "abA "[s.draw(i && i + 1 < n ? 4 : 3)]; return o; }
	static const str chars = "abcXYZ019 _-+*/()%#=;:,@<>\"&'`";
	str o; size_t n = 1 + s.count(12);
	for (size_t i = 0; i < n; i++) {
		if (s.chance(70)) o += (char)('a' + s.draw(26));
		else o += chars[s.draw(chars.size())];
	}
	if (dots && s.chance(15)) o.insert(s.draw(o.size() + 1), ".");
	while (!o.empty() && o[0] == ' ') o.erase(0, 1);
	while (!o.empty() && o.back() == ' ') o.pop_back();
	if (o.empty()) o = "n";
	return o;
}
static inline str lower(str a) { for (auto& c : a) c = (char) tolower((unsigned char) c); return a; }
// unique names with look-alikes: prefixes, extensions, different case
struct Names {
	std::set<str> used; std::vector<str> all; bool caseless;
	explicit Names(bool cl = true) : caseless(cl) {}
	str key(const str& n) const { return caseless ? lower(n) : n; }
	str fresh(vp::Src& s, bool dots = false)
	{
		str n;
		if (!all.empty() && s.chance(30)) {
			n = all[s.draw(all.size())];
			switch (s.draw(4)) {
				case 0: n += (char)('a' + s.draw(26)); break;
				case 1: if (n.size() > 1) n.pop_back(); break;
				case 2: { size_t p = s.draw(n.size()); n[p] = isupper((unsigned char) n[p]) ? (char) tolower(n[p]) : (char) toupper(n[p]); } break;
				default: n = str(1, (char)('a' + s.draw(26))) + n;
			}
		}
		else n = genNameRaw(s, dots);
		while (!n.empty() && n.back() == ' ') n.pop_back();
		while (!n.empty() && n[0] == ' ') n.erase(0, 1);
		if (n.empty()) n = "x";
		while (used.count(key(n))) n += fmt("%d", (int) all.size());
		used.insert(key(n)); all.push_back(n); return n;
	}
};
// free text: UTF-8, XML specials, blanks, line breaks (no carriage return: XML folds it)
static inline str genText(vp::Src& s, size_t max = 30)
{
	static const std::vector<str> odd = {"&", "<", ">", "\"", "'", " ", "  ", "\n", "\t", "]]>", "&amp;", "<!--", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x92\xa1", "\xc3\x9f", "\xd0\x96", ",", ";", "{", "}", "\\", "%s", "."};
	str o; size_t n = s.count(max);
	for (size_t i = 0; i < n; i++) { if (s.chance(75)) o += (char)('a' + s.draw(26)); else o += s.pick(odd); }
	return o;
}
static inline str genLine(vp::Src& s, size_t max = 20) { str t = genText(s, max); for (auto& c : t) if (c == '\n' || c == '\t') c = ' '; return t; }

// ---- comparing -----------------------------------------------------------------------------
static inline str brief(const str& s) { str q = vp::quote(s); return q.size() > 160 ? q.substr(0, 160) + "..." : q; }
// first difference of two trees, "" if none. key receives a short stable name of the place.
static inline str diff(const E& got, const E& want, str& key, str path = "", const std::set<str>& ignore = {})
{
	path += "/" + got.name;
	if (auto n = got.get("Name")) path += "[" + *n + "]"; else if (auto m = got.get("name")) path += "[" + *m + "]";
	if (got.name != want.name) { key = want.name; return path + ": got element <" + got.name + "> expected <" + want.name + ">"; }
	for (auto& a : want.at) {
		if (ignore.count(got.name + "." + a.first) || ignore.count(a.first)) continue;
		auto g = got.get(a.first);
		if (!g) { key = got.name + "." + a.first; return path + "." + a.first + ": absent, expected " + brief(a.second); }
		if (*g != a.second) { key = got.name + "." + a.first; return path + "." + a.first + ": got " + brief(*g) + " expected " + brief(a.second); }
	}
	for (auto& a : got.at) {
		if (ignore.count(got.name + "." + a.first) || ignore.count(a.first)) continue;
		if (!want.has(a.first)) { key = got.name + "." + a.first; return path + "." + a.first + ": got " + brief(a.second) + ", expected absent"; }
	}
	if (got.text != want.text) { key = got.name + ".text"; return path + ": text " + brief(got.text) + " expected " + brief(want.text); }
	for (size_t i = 0; i < std::min(got.kids.size(), want.kids.size()); i++) {
		str d = diff(got.kids[i], want.kids[i], key, path, ignore);
		if (!d.empty()) return d;
	}
	if (got.kids.size() != want.kids.size()) {
		const E& big = got.kids.size() > want.kids.size() ? got : want; size_t n = std::min(got.kids.size(), want.kids.size());
		key = got.name + "/" + big.kids[n].name + ".count";
		return path + fmt(": %zu children, expected %zu (first %s <", got.kids.size(), want.kids.size(), got.kids.size() > want.kids.size() ? "extra" : "missing") + big.kids[n].name + " " + brief(big.kids[n].val("Name")) + ">)";
	}
	return "";
}
static inline str render(const E& e, int depth = 0)
{
	str o(depth, ' '); o += e.name;
	for (auto& a : e.at) o += " " + a.first + "=" + vp::quote(a.second);
	if (!e.text.empty()) o += " : " + vp::quote(e.text);
	o += "\n";
	for (auto& k : e.kids) o += render(k, depth + 1);
	return o;
}

// ---- independent XML writer ------------------------------------------------------------------
struct XmlStyle {
	bool shuffleAttrs = false, singleQuotes = false, comments = false, charRefs = false, longEmpty = false, indent = false, bom = false, noDecl = false, cdata = false;
};
static inline XmlStyle genStyle(vp::Src& s)
{
	XmlStyle x; x.shuffleAttrs = s.coin(); x.singleQuotes = s.coin(); x.comments = s.chance(30); x.charRefs = s.chance(30);
	x.longEmpty = s.chance(30); x.indent = s.coin(); x.bom = s.chance(10); x.noDecl = s.chance(10); x.cdata = s.chance(15);
	return x;
}
static inline void esc(str& o, const str& t, char q, const XmlStyle& st, vp::Src& s)
{
	for (unsigned char c : t) {
		if (c == '&') o += "&amp;"; else if (c == '<') o += "&lt;";
		else if (c == '>') o += (q && s.coin()) ? ">" : "&gt;";
		else if (c == '"') o += (q == '"' || s.coin()) ? "&quot;" : "\"";
		else if (c == '\'') o += (q == '\'' || s.coin()) ? "&apos;" : "'";
		else if ((c == '\n' || c == '\t') && q) o += fmt("&#%d;", c);
		else if (st.charRefs && c < 128 && s.chance(10)) o += s.coin() ? fmt("&#%d;", c) : fmt("&#x%x;", c);
		else o += (char) c;
	}
}
static inline void toXml(str& o, const E& e, const XmlStyle& st, vp::Src& s, int depth = 0)
{
	if (st.indent) { o += "\n"; o.append(depth, '\t'); }
	if (st.comments && s.chance(15)) o += s.coin() ? "<!-- note <x a=\"1\"> -->" : "<!---->";
	o += "<" + e.name;
	std::vector<std::pair<str, str>> at;
	for (auto& a : e.at) if (a.first[0] != '~') at.push_back(a);
	if (st.shuffleAttrs) for (size_t i = at.size(); i > 1; i--) std::swap(at[i - 1], at[s.draw(i)]);
	for (auto& a : at) {
		char q = st.singleQuotes && s.coin() ? '\'' : '"';
		o += (st.indent && s.chance(5)) ? "\n  " : " ";
		o += a.first; o += s.chance(5) ? " = " : "="; o += q; esc(o, a.second, q, st, s); o += q;
	}
	if (e.kids.empty() && e.text.empty() && !(st.longEmpty && s.coin())) { o += s.coin() ? "/>" : " />"; return; }
	o += ">";
	if (!e.text.empty()) {
		if (st.cdata && s.coin() && e.text.find("]]>") == str::npos) o += "<![CDATA[" + e.text + "]]>";
		else esc(o, e.text, 0, st, s);
	}
	for (auto& k : e.kids) toXml(o, k, st, s, depth + 1);
	if (st.indent && !e.kids.empty()) { o += "\n"; o.append(depth, '\t'); }
	if (st.comments && e.text.empty() && s.chance(5)) o += "<!-- end -->";
	o += "</" + e.name + ">";
}
static inline str xmlDoc(const E& e, const XmlStyle& st, vp::Src& s)
{
	str o; if (st.bom) o += "\xef\xbb\xbf";
	if (!st.noDecl) o += s.coin() ? "<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"no\" ?>" : "<?xml version='1.0' encoding='utf-8'?>";
	if (st.comments && s.coin()) o += "\n<!-- made elsewhere -->\n";
	toXml(o, e, st, s); if (s.coin()) o += "\n"; return o;
}

// ---- independent XML parser (well-formed input; throws vp::Fail on what is not) ------------------
struct XmlParser {
	const str& t; size_t p = 0;
	explicit XmlParser(const str& x) : t(x) {}
	[[noreturn]] void bad(const str& w) { throw vp::Fail{"written-xml", "the written XML is not well formed: " + w + fmt(" at %zu: ", p) + brief(t.substr(p > 40 ? p - 40 : 0, 100))}; }
	bool is(const char* s) { return t.compare(p, strlen(s), s) == 0; }
	void ws() { while (p < t.size() && isspace((unsigned char) t[p])) p++; }
	void misc() { for (;;) { ws(); if (is("<!--")) { p = t.find("-->", p); if (p == str::npos) { p = t.size(); bad("comment"); } p += 3; } else if (is("<?")) { p = t.find("?>", p); if (p == str::npos) { p = t.size(); bad("pi"); } p += 2; } else return; } }
	str nm() { size_t b = p; while (p < t.size() && (isalnum((unsigned char) t[p]) || strchr("_-.:", t[p]))) p++; if (b == p) bad("name"); return t.substr(b, p - b); }
	str ent(const str& s)
	{
		str o;
		for (size_t i = 0; i < s.size(); i++) {
			if (s[i] == '<') bad("'<' in text");
			if (s[i] != '&') { o += s[i]; continue; }
			size_t e = s.find(';', i); if (e == str::npos) bad("entity");
			str n = s.substr(i + 1, e - i - 1); i = e;
			if (n == "amp") o += '&'; else if (n == "lt") o += '<'; else if (n == "gt") o += '>'; else if (n == "quot") o += '"'; else if (n == "apos") o += '\'';
			else if (n.size() > 1 && n[0] == '#') {
				unsigned long c = n[1] == 'x' ? strtoul(n.c_str() + 2, nullptr, 16) : strtoul(n.c_str() + 1, nullptr, 10);
				if (c < 0x80) o += (char) c; else if (c < 0x800) { o += (char)(0xc0 | c >> 6); o += (char)(0x80 | (c & 63)); }
				else if (c < 0x10000) { o += (char)(0xe0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
				else { o += (char)(0xf0 | c >> 18); o += (char)(0x80 | (c >> 12 & 63)); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
			}
			else bad("entity " + n);
		}
		return o;
	}
	E elem()
	{
		if (!is("<")) bad("element expected"); p++;
		E e(nm());
		for (;;) {
			ws();
			if (is("/>")) { p += 2; return e; }
			if (is(">")) { p++; break; }
			str n = nm(); ws(); if (!is("=")) bad("="); p++; ws();
			char q = p < t.size() ? t[p] : 0; if (q != '"' && q != '\'') bad("quote"); p++;
			size_t b = p; p = t.find(q, p); if (p == str::npos) { p = b; bad("unterminated value"); }
			if (e.has(n)) bad("duplicate attribute " + n);
			e.at.push_back({n, ent(t.substr(b, p - b))}); p++;
		}
		str text;
		for (;;) {
			if (p >= t.size()) bad("unterminated element " + e.name);
			if (is("</")) { p += 2; str n = nm(); if (n != e.name) bad("closing tag " + n + " for " + e.name); ws(); if (!is(">")) bad(">"); p++; break; }
			if (is("<!--")) { p = t.find("-->", p); if (p == str::npos) { p = t.size(); bad("comment"); } p += 3; continue; }
			if (is("<![CDATA[")) { size_t b = p + 9; p = t.find("]]>", p); if (p == str::npos) { p = b; bad("cdata"); } text += t.substr(b, p - b); p += 3; continue; }
			if (is("<")) { e.kids.push_back(elem()); continue; }
			size_t b = p; p = t.find('<', p); if (p == str::npos) p = t.size(); text += ent(t.substr(b, p - b));
		}
		if (e.kids.empty()) e.text = text;
		else for (char c : text) if (!isspace((unsigned char) c)) bad("stray text");
		return e;
	}
	E parse() { if (is("\xef\xbb\xbf")) p = 3; misc(); E e = elem(); misc(); if (p != t.size()) bad("trailing data"); return e; }
};

// ---- independent ZIP -------------------------------------------------------------------------
struct Entry { str name, data; };
typedef std::vector<Entry> Entries;
static inline void le(str& o, uint64_t v, int n) { for (int i = 0; i < n; i++) o += (char)(v >> (8 * i)); }
static inline uint64_t rd(const str& d, size_t p, int n) { uint64_t v = 0; for (int i = 0; i < n; i++) v |= (uint64_t)(uint8_t) d[p + i] << (8 * i); return v; }
static inline str rawDeflate(const str& d, int level)
{
	z_stream z; memset(&z, 0, sizeof z); deflateInit2(&z, level, Z_DEFLATED, -15, 8, Z_DEFAULT_STRATEGY);
	str o(deflateBound(&z, d.size()) + 32, 0);
	z.next_in = (Bytef*) d.data(); z.avail_in = d.size(); z.next_out = (Bytef*) &o[0]; z.avail_out = o.size();
	deflate(&z, Z_FINISH); o.resize(z.total_out); deflateEnd(&z); return o;
}
struct ZipStyle { int mode = 0; bool comment = false, extra = false, prefix = false, dirs = false, utf8flag = false, descriptor = false, longExtra = false; int level = 6; };
static inline str zipWrite(const Entries& es, const ZipStyle& st, vp::Src* s = nullptr)
{
	str o, cd; size_t n = 0;
	if (st.prefix) o += "self extracting stub";
	auto put = [&](const str& name, const str& data, bool defl) {
		str body = defl ? rawDeflate(data, st.level) : data;
		uint32_t crc = crc32(0, (const Bytef*) data.data(), data.size());
		size_t off = o.size(); int method = defl ? 8 : 0; str extra; if (st.extra) { le(extra, 0x5455, 2); le(extra, 5, 2); extra += '\x01'; le(extra, 0x5f000000, 4); }
		// alignment and tool specific fields, of any length and different in both headers
		auto pad = [&](const str& e) { str x = e; if (st.longExtra && s && s->coin()) { size_t k = s->oneof({6, 250, 251, 252, 253, 300, 511, 4000, 60000}); le(x, 0xd935, 2); le(x, k, 2); x += str(k, 'p'); } return x; };
		str far = pad(extra); extra = pad(extra);
		int flag = (st.utf8flag ? 0x800 : 0) | (st.descriptor ? 8 : 0);
		le(o, 0x04034b50, 4); le(o, 20, 2); le(o, flag, 2); le(o, method, 2); le(o, 0x6000, 2); le(o, 0x5345, 2);
		le(o, st.descriptor ? 0 : crc, 4); le(o, st.descriptor ? 0 : body.size(), 4); le(o, st.descriptor ? 0 : data.size(), 4); le(o, name.size(), 2); le(o, extra.size(), 2); o += name; o += extra; o += body;
		if (st.descriptor) { le(o, 0x08074b50, 4); le(o, crc, 4); le(o, body.size(), 4); le(o, data.size(), 4); }
		str cm = st.comment && s && s->coin() ? "c" : ""; if (cm.size() && st.longExtra) cm = str(s->oneof({1, 255, 256, 300, 5000}), 'c');
		le(cd, 0x02014b50, 4); le(cd, 0x0314, 2); le(cd, 20, 2); le(cd, flag, 2); le(cd, method, 2); le(cd, 0x6000, 2); le(cd, 0x5345, 2); le(cd, crc, 4); le(cd, body.size(), 4); le(cd, data.size(), 4);
		le(cd, name.size(), 2); le(cd, far.size(), 2); le(cd, cm.size(), 2); le(cd, 0, 2); le(cd, 0, 2); le(cd, (name.size() && name.back() == '/' ? 0x10 : 0) | 0x81a40000u, 4); le(cd, off, 4); cd += name; cd += far; cd += cm; n++;
	};
	std::set<str> dirs;
	for (auto& e : es) {
		size_t sl = e.name.rfind('/');
		if (st.dirs && sl != str::npos && dirs.insert(e.name.substr(0, sl + 1)).second) put(e.name.substr(0, sl + 1), "", false);
		bool defl = st.mode == 1 || (st.mode == 2 && s && s->coin()); put(e.name, e.data, defl);
	}
	size_t cdo = o.size(); o += cd; str cm = st.comment ? "made elsewhere" : ""; if (st.comment && st.longExtra && s) cm = str(s->oneof({1, 255, 256, 4000, 65535}), '-');
	le(o, 0x06054b50, 4); le(o, 0, 2); le(o, 0, 2); le(o, n, 2); le(o, n, 2); le(o, cd.size(), 4); le(o, cdo, 4); le(o, cm.size(), 2); o += cm;
	return o;
}
// strict reader; throws vp::Fail if the archive is not what an independent tool accepts
static inline Entries zipRead(const str& d)
{
	auto bad = [&](const str& w) -> void { throw vp::Fail{"written-zip", "the written archive is not a valid ZIP: " + w}; };
	if (d.size() < 22) bad("too short");
	size_t e = str::npos; for (size_t i = d.size() - 22; ; i--) { if (rd(d, i, 4) == 0x06054b50 && rd(d, i + 20, 2) == d.size() - i - 22) { e = i; break; } if (!i) break; }
	if (e == str::npos) bad("no end record");
	size_t n = rd(d, e + 10, 2), p = rd(d, e + 16, 4), cs = rd(d, e + 12, 4); if (p + cs > e) bad("central directory outside"); if (rd(d, e + 8, 2) != n) bad("entry counts differ");
	Entries out; size_t cdStart = p;
	for (size_t i = 0; i < n; i++) {
		if (p + 46 > e || rd(d, p, 4) != 0x02014b50) bad("central entry");
		size_t m = rd(d, p + 10, 2), crc = rd(d, p + 16, 4), cz = rd(d, p + 20, 4), uz = rd(d, p + 24, 4), nl = rd(d, p + 28, 2), xl = rd(d, p + 30, 2), cl = rd(d, p + 32, 2), off = rd(d, p + 42, 4);
		if (p + 46 + nl + xl + cl > e) bad("central entry length");
		str name = d.substr(p + 46, nl); for (char c : name) if ((c & 0x80) && !(rd(d, p + 8, 2) & 0x800)) { bad("name " + name + " is not plain ASCII and not marked as UTF-8"); }
		p += 46 + nl + xl + cl;
		if (off + 30 > cdStart || rd(d, off, 4) != 0x04034b50) bad("local header of " + name);
		size_t lnl = rd(d, off + 26, 2), lxl = rd(d, off + 28, 2); if (d.substr(off + 30, lnl) != name) bad("local name of " + name);
		if (rd(d, off + 8, 2) != m) bad("local method of " + name);
		if (!(rd(d, off + 6, 2) & 8)) { if (rd(d, off + 14, 4) != crc) bad("local crc of " + name); if (rd(d, off + 18, 4) != cz || rd(d, off + 22, 4) != uz) bad("local sizes of " + name); }
		size_t b = off + 30 + lnl + lxl; if (b + cz > cdStart) bad("data of " + name);
		str body = d.substr(b, cz), data;
		if (m == 0) data = body;
		else if (m == 8) {
			data.resize(uz + 1); z_stream z; memset(&z, 0, sizeof z); inflateInit2(&z, -15); z.next_in = (Bytef*) body.data(); z.avail_in = body.size(); z.next_out = (Bytef*) &data[0]; z.avail_out = data.size();
			int rc = inflate(&z, Z_FINISH); size_t got = z.total_out; inflateEnd(&z); if (rc != Z_STREAM_END) bad("deflate stream of " + name); data.resize(got);
		}
		else bad("method");
		if (data.size() != uz) bad(fmt("size of %s: %zu, directory says %zu", name.c_str(), data.size(), uz));
		if (crc32(0, (const Bytef*) data.data(), data.size()) != crc) bad("checksum of " + name);
		out.push_back({name, data});
	}
	if (p != cdStart + cs) bad("central directory size");
	return out;
}
static inline const str* find(const Entries& es, const str& n) { for (auto& e : es) if (e.name == n) return &e.data; return nullptr; }

// ---- attribute tables: how one attribute is generated, set and read -----------------------------
enum Kind { K_DBL, K_INT, K_UINT, K_TEXT, K_ENUM, K_COL, K_BOOL };
template <class T> struct A {
	str name; Kind kind; str def; std::vector<str> vals;
	std::function<int(T*, const str&)> set;
	std::function<int(T*, str&)> get;
	long long lo = 0, hi = 0;
	str extra;                        // "text": may be absent in XML and then is empty
};
static inline str genCol(vp::Src& s)
{
	if (s.chance(20)) return "0.312700,0.329000,100.000000";
	return dtext(s.range(0, 1000000) / 1e6) + "," + dtext(s.range(0, 1000000) / 1e6) + "," + dtext(s.range(0, 100000000) / 1e6);
}
template <class T> static str genAttr(const A<T>& a, vp::Src& s)
{
	if (s.chance(25)) return a.def;
	switch (a.kind) {
		case K_DBL: return genDbl(s);
		case K_INT: return itext(s.coin() ? s.range(std::max<long long>(a.lo, -20), std::min<long long>(a.hi, 100)) : s.range(a.lo, a.hi));
		case K_UINT: return itext(s.coin() ? s.range(a.lo, std::min<long long>(a.hi, 100)) : s.range(a.lo, a.hi));
		case K_TEXT: return a.extra == "line" ? genLine(s) : genText(s);
		case K_COL: return genCol(s);
		case K_BOOL: case K_ENUM: return s.pick(a.vals);
	}
	return "";
}
template <class T> static void genAttrs(const std::vector<A<T>>& tab, E& e, vp::Src& s) { for (auto& a : tab) e.set(a.name, genAttr(a, s)); }
} // namespace doc
