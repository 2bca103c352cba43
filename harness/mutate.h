// Damage for byte strings: generic edits, and edits of the length, offset and count fields of a format.
#pragma once
#include "doc_tree.h"
namespace mut {
using vp::str; using vp::fmt;
static inline uint64_t edge(vp::Src& s, uint64_t now, size_t whole, int bytes)
{
	uint64_t top = bytes >= 8 ? ~0ull : (1ull << (8 * bytes)) - 1;
	switch (s.draw(9)) { case 0: return 0; case 1: return top; case 2: return top >> 1; case 3: return (top >> 1) + 1; case 4: return now + 1; case 5: return now - 1; case 6: return whole - s.draw(60); case 7: return s.draw(whole + 40); default: return s.draw(top ? top : 1); }
}
// fields: offsets (and widths) of the numbers of the format
static inline str damage(str d, vp::Src& s, const std::vector<std::pair<size_t, int>>& fields, const std::vector<str>& words, str& log)
{
	size_t n = 1 + s.count(6);
	for (size_t i = 0; i < n && !d.empty(); i++) switch (s.draw(9)) {
		default: { if (fields.empty()) break; auto f = s.pick(fields); if (f.first + f.second > d.size()) break; uint64_t v = 0; for (int b = f.second; b-- > 0;) v = v << 8 | (unsigned char) d[f.first + b]; uint64_t w = edge(s, v, d.size(), f.second); for (int b = 0; b < f.second; b++) d[f.first + b] = (char)(w >> (8 * b)); log += fmt("field@%zu:%llx->%llx ", f.first, (unsigned long long) v, (unsigned long long) w); break; }
		case 3: { size_t p = s.draw(d.size()); int v = s.draw(256); d[p] = (char) v; log += fmt("byte@%zu=%d ", p, v); break; }
		case 4: { size_t p = s.draw(d.size() + 1); d.resize(p); log += fmt("cut@%zu ", p); break; }
		case 5: { size_t a = s.draw(d.size()), l = std::min<size_t>(d.size() - a, 1 + s.draw(s.coin() ? 60 : d.size())); d.erase(a, l); log += fmt("erase@%zu+%zu ", a, l); break; }
		case 6: { size_t a = s.draw(d.size()), l = std::min<size_t>(d.size() - a, 1 + s.draw(s.coin() ? 60 : std::min<size_t>(d.size(), 4000))), p = s.draw(d.size() + 1); d.insert(p, d.substr(a, l)); log += fmt("copy@%zu+%zu->%zu ", a, l, p); break; }
		case 7: { const str& w = s.pick(words); size_t p = s.draw(d.size() + 1); if (s.coin()) d.insert(p, w); else d.replace(p, std::min(w.size(), d.size() - p), w); log += fmt("word@%zu ", p); break; }
		case 8: { size_t p = s.draw(d.size()), l = 1 + s.draw(8); for (size_t k = p; k < d.size() && k < p + l; k++) d[k] = (char) s.draw(256); log += fmt("noise@%zu+%zu ", p, l); break; }
	}
	return d;
}
// the number fields of a ZIP archive
static inline std::vector<std::pair<size_t, int>> zipFields(const str& d)
{
	std::vector<std::pair<size_t, int>> f;
	for (size_t i = 0; i + 4 <= d.size(); i++) {
		uint32_t sig = doc::rd(d, i, 4);
		if (sig == 0x04034b50) for (auto p : {std::make_pair(4, 2), std::make_pair(6, 2), std::make_pair(8, 2), std::make_pair(14, 4), std::make_pair(18, 4), std::make_pair(22, 4), std::make_pair(26, 2), std::make_pair(28, 2)}) f.push_back({i + p.first, p.second});
		else if (sig == 0x02014b50) for (auto p : {std::make_pair(8, 2), std::make_pair(10, 2), std::make_pair(16, 4), std::make_pair(20, 4), std::make_pair(24, 4), std::make_pair(28, 2), std::make_pair(30, 2), std::make_pair(32, 2), std::make_pair(42, 4), std::make_pair(42, 4)}) f.push_back({i + p.first, p.second});
		else if (sig == 0x06054b50) for (int k = 0; k < 3; k++) for (auto p : {std::make_pair(4, 2), std::make_pair(6, 2), std::make_pair(8, 2), std::make_pair(10, 2), std::make_pair(12, 4), std::make_pair(16, 4), std::make_pair(20, 2)}) f.push_back({i + p.first, p.second});
	}
	return f;
}
static inline str damageZip(const str& d, vp::Src& s, str& log)
{
	static const std::vector<str> words = {str("PK\x05\x06", 4), str("PK\x01\x02", 4), str("PK\x03\x04", 4), str("PK\x07\x08", 4), str("\0\0\0\0", 4), str("\xff\xff\xff\xff", 4), str("PK\5\6\0\0\0\0\1\0\1\0\x2e\0\0\0\1\0\0\0\0\0", 22)};
	return damage(d, s, zipFields(d), words, log);
}

// --- damage for documents ---------------------------------------------------------------------------
static inline str hostile(vp::Src& s)
{
	static const std::vector<str> v = {"", " ", "0", "-1", "1", "2", "127", "128", "255", "256", "511", "512", "513", "65535", "65536", "4294967295", "4294967296", "-2147483648", "99999999999999999999", "-9223372036854775808", "18446744073709551615", "1e400", "-1e400", "1e-400", "nan", "inf", "-inf", "0x", "0xFFFFFFFFF", "0x-1", "#", "true", "maybe",
		"0/0", "1/0", "/", "1/", "/1", "255/9", "1/-1", "-1/1", "65535/2", "4294967295/4", "99999999999/4", "1/1s", "300/1", "1/1/1", "s/s", "None", "Overwrite", "0/1", "1/2", "1,2", "1,2,3,4", "1,2,3,4,5,6,7", ",", ",,,,,,", "2,1", "1,1", "-1,-2", "512,513", "0,0", "0,1", "1.1", "1.512", "1.513", "300.600", "-1.-1", ".", "..", "x.", ".x", "a.b.c.d", "...",
		"{", "}", "{}", "{{{{", "}}}}", "{,}", "{1}{2}{3}", "{1,2,3,4", "{1,2,3,4}{1,2,3,4}{1,2,3,4}{0,0,0,1}{9}", "{a,b,c}{d,e,f}{g,h,i}{j,k,l}", "{1,0,0}{0,1,0}{0,0,1}{0,0,0}", "{0,0,0}{0,0,0}{0,0,0}{0,0,0}", "{1e999,0,0}{0,nan,0}{0,0,1}{0,0,0}", "%", "%s%n", "%2F", "../../../../tmp/x", "/", "\\", "//", "/etc/passwd", "a/b", "C:\\x", "..\\..\\x",
		"00000000-0000-0000-0000-000000000000", "8A1B2C3D-0000-1111-2222-3333444455556", "8A1B2C3D-0000-1111-2222-33334444555", "ZZZZZZZZ-ZZZZ-ZZZZ-ZZZZ-ZZZZZZZZZZZZ", "{8A1B2C3D-0000-1111-2222-333344445555}", "------------------------------------", "2020-01-01T00:00:00", "2020-13-45T99:99:99", "T", "-", "2020", "9999999999-1-1T1:1:1", "\xff\xfe", "\xc3", "\xed\xa0\x80", "\xf0\x9f\x92\xa9", "\xc3\xa4"};
	if (s.chance(4)) return str(1 + s.draw(s.coin() ? 300 : 6000), (char) s.oneof<int>({'A', '1', '.', ',', '{', ' ', '/', 0xc3}));
	if (s.chance(8)) { str r; size_t n = 1 + s.draw(4); for (size_t i = 0; i < n; i++) r += s.pick(v); return r; }
	return s.pick(v);
}
static inline void every(doc::E& e, std::vector<doc::E*>& out) { out.push_back(&e); for (auto& k : e.kids) every(k, out); }
static inline size_t sizeOf(const doc::E& e) { size_t n = 1; for (auto& k : e.kids) n += sizeOf(k); return n; }
static inline bool inside(doc::E* a, doc::E* b) { std::vector<doc::E*> v; every(*a, v); return std::find(v.begin(), v.end(), b) != v.end(); }
// edits of a document tree: values, names and structure
static inline void damageTree(doc::E& root, vp::Src& s, str& log)
{
	using doc::E; size_t n = 1 + s.count(8);
	for (size_t i = 0; i < n; i++) {
		std::vector<E*> all; every(root, all); E* e = s.pick(all); E* f = s.pick(all); if (all.size() > 8000) return;
		auto attr = [&](E* x) -> std::pair<str, str>* { return x->at.empty() ? nullptr : &x->at[s.draw(x->at.size())]; };
		// most edits concern values; look for a node that has some
		for (int k = 0; k < 4 && e->at.empty() && e->text.empty(); k++) e = s.pick(all); for (int k = 0; k < 4 && f->at.empty() && f->text.empty(); k++) f = s.pick(all);
		switch (s.draw(14)) {
			default: { auto a = attr(e); str v = hostile(s); if (a) { a->second = v; log += e->name + "." + a->first + "=" + vp::quote(v).substr(0, 40) + " "; } else { e->text = v; log += e->name + "#=" + vp::quote(v).substr(0, 40) + " "; } break; }
			case 3: { auto a = attr(e); auto b = attr(f); if (!b) break; str v = b->second; if (a) { a->second = v; log += e->name + "." + a->first + "<-" + f->name + "." + b->first + " "; } break; }
			case 4: { // a value of the same attribute of another node of this kind: references change
				std::vector<E*> same; auto a = attr(e); if (!a) break; for (auto x : all) if (x->has(a->first) && x != e) same.push_back(x); if (same.empty()) break; E* o = s.pick(same); a->second = o->val(a->first); log += e->name + "." + a->first + "<-other "; break; }
			case 5: if (!e->at.empty()) { size_t k = s.draw(e->at.size()); log += e->name + "-" + e->at[k].first + " "; e->at.erase(e->at.begin() + k); } break;
			case 6: if (e != &root) { for (auto x : all) for (size_t k = 0; k < x->kids.size(); k++) if (&x->kids[k] == e) { log += "-" + e->name + " "; x->kids.erase(x->kids.begin() + k); goto done; } } done: break;
			case 7: { E copy = *e; size_t sz = sizeOf(copy), times = s.chance(85) ? 1 + s.draw(3) : 1 + s.draw(std::max<size_t>(1, std::min<size_t>(150, 3000 / sz))); if (sz > 3000) break; for (auto x : all) for (size_t k = 0; k < x->kids.size(); k++) if (&x->kids[k] == e) { log += fmt("%s*%zu ", e->name.c_str(), times + 1); x->kids.insert(x->kids.begin() + k, times, copy); goto dup; } dup: break; }
			case 8: { E copy = *e; if (sizeOf(copy) > 1500 || inside(e, f)) break; log += e->name + ">" + f->name + " "; f->kids.insert(f->kids.begin() + s.draw(f->kids.size() + 1), copy); break; }
			case 9: { log += e->name + "!" + f->name + " "; e->name = f->name; break; }
			case 10: { if (inside(e, f) || inside(f, e)) break; log += e->name + "<>" + f->name + " "; std::swap(*e, *f); break; }
			case 11: { str v = hostile(s); e->text = v; log += e->name + "#=" + vp::quote(v).substr(0, 40) + " "; break; }
			case 12: { E copy = *e; size_t d = s.chance(80) ? 1 + s.draw(3) : 1 + s.draw(s.coin() ? 60 : 420); E w = *e; for (size_t k = 0; k < d; k++) { E o(copy.name); o.at = copy.at; o.kids.push_back(std::move(w)); w = std::move(o); } log += fmt("%s^%zu ", e->name.c_str(), d); *e = std::move(w); break; }
			case 13: { if (f->at.empty()) break; auto b = *attr(f); log += e->name + "+" + b.first + " "; e->set(b.first, s.coin() ? b.second : hostile(s)); break; }
		}
	}
}
} // namespace mut
