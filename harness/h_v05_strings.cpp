// V05: TXString behaves like a sequence of UTF-16 characters.
#include "Prefix/StdAfx.h"
#include "GSString.h"
#include "vp.h"
#include <algorithm>
#include <cstring>
#include <cmath>
#include <memory>
using namespace VectorworksMVR;
using vp::str; using vp::fmt; using vp::Src; using vp::Ctx;
typedef std::u16string M; typedef const TXString CT;

// ---- reference conversions
static bool hi(char16_t c) { return c >= 0xD800 && c < 0xDC00; }
static bool lo(char16_t c) { return c >= 0xDC00 && c < 0xE000; }
static void put16(M& m, uint32_t c) { if (c > 0x10FFFF || (c >= 0xD800 && c < 0xE000)) c = 0xFFFD; if (c > 0xFFFF) { m += (char16_t) (0xD7C0 + (c >> 10)); m += (char16_t) (0xDC00 + c % 1024); } else m += (char16_t) c; }
static std::u32string scalars(const M& m) { std::u32string r; for (size_t i = 0; i < m.size(); i++) { if (hi(m[i]) && i + 1 < m.size() && lo(m[i + 1])) { r += (char32_t) ((m[i] - 0xD800) * 1024 + (m[i + 1] - 0xDC00) + 0x10000); i++; } else r += hi(m[i]) || lo(m[i]) ? (char32_t) 0xFFFD : (char32_t) m[i]; } return r; }
static str utf8(const M& m)
{
	str o; for (char32_t c : scalars(m)) { if (!c) break; if (c < 128) o += (char) c; else { int n = c < 0x800 ? 1 : c < 0x10000 ? 2 : 3; o += (char) ((n == 1 ? 0xC0 : n == 2 ? 0xE0 : 0xF0) + (c >> (6 * n))); while (n--) o += (char) (0x80 + ((c >> (6 * n)) & 63)); } } return o;
}
// what is no character becomes U+FFFD, one for every maximal part of a character
static M fromUtf8(const str& s)
{
	M m; size_t i = 0;
	while (i < s.size()) {
		uint8_t b = s[i]; if (b < 128) { m += (char16_t) b; i++; continue; }
		size_t best = 0, len = b >= 0xC2 && b <= 0xDF ? 2 : b >= 0xE0 && b <= 0xEF ? 3 : b >= 0xF0 && b <= 0xF4 ? 4 : 0; uint32_t c = 0;
		if (len) { c = b & (0x7F >> len); best = 1; while (best < len && i + best < s.size()) { uint8_t k = s[i + best]; if ((k & 0xC0) != 0x80) break; if (best == 1) { uint32_t low = ((b & (0x7Fu >> len)) << 6) | (k & 63); if (len == 3 && (low < 0x20 || (low >= 0x360 && low < 0x380))) break; if (len == 4 && (low < 0x10 || low > 0x10F)) break; } c = c << 6 | (k & 63); best++; } }
		if (len && best == len) put16(m, c); else m += (char16_t) 0xFFFD; i += best ? best : 1;
	}
	return m;
}
static M fromWide(const std::wstring& w) { M m; for (wchar_t c : w) put16(m, (uint32_t) c); return m; }
static M fromWide1(const std::wstring& w) { return (uint32_t) w[0] < 0x10000 ? M(1, (char16_t) w[0]) : fromWide(w.substr(0, 1)); }
template <class S> static S cutNul(const S& s) { size_t p = s.find((typename S::value_type) 0); return p == S::npos ? s : s.substr(0, p); }
static M lower(M m) { for (auto& c : m) if (c >= 'A' && c <= 'Z') c += 32; return m; }
static M upper(M m) { for (auto& c : m) if (c >= 'a' && c <= 'z') c -= 32; return m; }
static int cmp(const M& a, const M& b) { size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++; if (i == a.size() || i == b.size()) return (a.size() > b.size()) - (a.size() < b.size()); return a[i] < b[i] ? -1 : 1; }
static int sign(long v) { return (v > 0) - (v < 0); }
static bool at(const M& s, size_t i, const M& t) { if (i + t.size() > s.size()) return false; for (size_t k = 0; k < t.size(); k++) if (s[i + k] != t[k]) return false; return true; }
static ptrdiff_t find(const M& s, const M& t, size_t from) { if (t.empty()) return -1; for (size_t i = from; i < s.size(); i++) if (at(s, i, t)) return (ptrdiff_t) i; return -1; }
static ptrdiff_t rfind(const M& s, const M& t, size_t from) { if (t.empty()) return -1; for (size_t i = s.size(); i-- > 0;) if (i <= from && at(s, i, t)) return (ptrdiff_t) i; return -1; }
static ptrdiff_t firstOf(const M& s, const M& set, size_t from, bool in, bool back) { ptrdiff_t r = -1; for (size_t i = 0; i < s.size(); i++) { if (back ? i > from : i < from) continue; bool is = false; for (auto c : set) is |= c == s[i]; if (is == in) { r = (ptrdiff_t) i; if (!back) break; } } return r; }
static M trimEnds(M m, bool left, bool right) { if (left && !m.empty() && lo(m[0])) m = m.substr(1); if (right && !m.empty() && hi(m[m.size() - 1])) m = m.substr(0, m.size() - 1); return m; }
static M replace(const M& s, const M& a, const M& b, bool ic) { if (a.empty()) return s; M k = ic ? lower(s) : s, f = ic ? lower(a) : a, o; for (size_t i = 0; i < s.size();) if (at(k, i, f)) { o += b; i += a.size(); } else o += s[i++]; return o; }
static std::vector<M> split(const M& s, const M& t) { std::vector<M> v(1); for (size_t i = 0; i < s.size();) if (!t.empty() && at(s, i, t)) { v.push_back(M()); i += t.size(); } else v.back() += s[i++]; if (v.size() > 1 && v.back().empty()) v.pop_back(); for (auto& x : v) x = trimEnds(x, true, true); return v; }
static str show(const M& m) { str o; for (auto c : m) o += c >= 32 && c < 127 ? str(1, (char) c) : fmt("\\%x.", (unsigned) c); return o; }

// ---- generators
static uint64_t bits(Src& s) { switch (s.draw(5)) { case 0: return s.draw(100); case 1: return (uint64_t) -(int64_t) s.draw(100); case 2: return (uint64_t) 1 << s.draw(64); case 3: return ((uint64_t) 1 << s.draw(64)) - 1; default: return s.draw(0x100000000ull) << 32 | s.draw(0x100000000ull); } }
static char16_t genChar(Src& s) { switch (s.draw(12)) { case 0: case 1: case 2: return s.oneof<char16_t>({'a', 'b'}); case 3: return s.oneof<char16_t>({'A', 'B'}); case 4: return s.oneof<char16_t>({' ', '\t', ',', ';'}); case 5: return s.oneof<char16_t>({'0', '9', '-', '.'}); case 6: return s.oneof<char16_t>({0xE9, 0xC9, 0xFF, 0xDF, 0xB5}); case 7: return s.oneof<char16_t>({0x20AC, 0x0130, 0xFFFD, 0xFEFF, 0xD7FF, 0xE000, 0xFFFF, 0x7FF, 0x800}); case 8: return (char16_t) (1 + s.draw(0xD7FF)); default: return (char16_t) (33 + s.draw(94)); } }
static M genM(Src& s, size_t most = 12, bool wild = true)
{
	M m; for (size_t i = 0, n = s.count(most); i < n; i++) { if (wild && s.chance(10)) { put16(m, 0x10000 + (uint32_t) s.draw(0x100000)); } else if (wild && s.chance(4)) m += (char16_t) (0xD800 + s.draw(0x800)); else m += genChar(s); } return m;
}
static str genBytes(Src& s) { str o = utf8(genM(s)); if (s.chance(30)) for (size_t i = 0, n = 1 + s.draw(3); i < n; i++) o.insert(o.begin() + (long) s.draw(o.size() + 1), (char) s.oneof<int>({0x80, 0xBF, 0xC0, 0xC3, 0xE0, 0xED, 0xEF, 0xF0, 0xF4, 0xF5, 0xFF, 'x'})); if (s.chance(15)) o.resize(s.draw(o.size() + 1)); return cutNul(o); }
static std::wstring genWide(Src& s) { std::wstring w; for (size_t i = 0, n = s.count(8); i < n; i++) w += s.chance(10) ? (wchar_t) s.oneof<uint32_t>({0xD800, 0xDFFF, 0x110000, 0x7FFFFFFF, 0xFFFF, 0x10000, 0x10FFFF}) : s.chance(20) ? (wchar_t) (0x10000 + s.draw(0x100000)) : (wchar_t) genChar(s); return w; }
static size_t genPos(Src& s, size_t len) { switch (s.draw(10)) { case 0: return len; case 1: return len + 1; case 2: return (size_t) -1; case 3: return 0; case 4: return s.oneof<size_t>({(size_t) -2, (size_t) 1 << 63, (size_t) 1 << 32, len + 7}); default: return s.draw(len + 1); } }
// copies that end exactly where they have to
template <class T> static std::unique_ptr<T[]> exact(const T* p, size_t n, bool nul = true) { std::unique_ptr<T[]> r(new T[n + (nul ? 1 : 0)]); memcpy((void*) r.get(), p, n * sizeof(T)); if (nul) r[n] = 0; return r; }
static TXString make(Src& s, const M& m) { switch (s.draw(3)) { case 0: { auto p = exact(m.data(), m.size()); if (m.find(u'\0') == M::npos) return TXString((const UCChar*) p.get()); break; } case 1: { if (m.find(u'\0') != M::npos) break; auto p = exact(m.data(), m.size(), false); return TXString((const UCChar*) p.get(), m.size()); } } return TXString(m); }

struct Pair { TXString t; M m; };
static void compare(Ctx& c, const TXString& t, const M& m, const str& key, const str& what)
{
	c.check(t.GetLength() == m.size() && memcmp(t.GetData(), m.data(), m.size() * 2) == 0, key, what + ": got " + show(M(t.GetData(), t.GetLength())) + " expected " + show(m));
}
static void change(Src& s, Ctx& c, Pair& p, const Pair& q)
{
	TXString& t = p.t; M& m = p.m; str key, what; M a = s.chance(25) ? q.m : genM(s, 5); TXString ta = s.chance(25) ? (a = q.m, q.t) : make(s, a); str b8; size_t pos = genPos(s, m.size()), len = genPos(s, m.size()); bool ret = true; TXString* r = &t;
	auto ins = [&](const M& x) { m.insert(std::min(pos, m.size()), x); };
	switch (s.draw(44)) {
	case 0: key = "assign"; r = &(t = ta); m = a; break;
	case 1: key = "assign-char*"; { str b = genBytes(s); auto e = exact(b.data(), b.size()); r = &(t = e.get()); m = fromUtf8(b); } break;
	case 2: key = "assign-std"; { str b = genBytes(s); r = &(t = b); m = fromUtf8(b); } break;
	case 3: key = "assign-wide"; { std::wstring w = cutNul(genWide(s)); auto e = exact(w.data(), w.size()); if (s.coin()) r = &(t = e.get()); else r = &(t = w); m = fromWide(w); } break;
	case 4: key = "assign-ucchar"; { M x = cutNul(a); auto e = exact(x.data(), x.size()); r = &(t = (const UCChar*) e.get()); m = x; } break;
	case 5: key = "assign-pascal"; { str b = genBytes(s).substr(0, 255); std::vector<unsigned char> v(1, (unsigned char) b.size()); v.insert(v.end(), b.begin(), b.end()); auto e = exact(v.data(), v.size(), false); r = &(t = e.get()); m = fromUtf8(b); } break;
	case 6: key = "assign-character"; switch (s.draw(4)) { case 0: { char x = (char) (1 + s.draw(255)); r = &(t = x); m = M(1, (unsigned char) x); break; } case 1: { unsigned char x = (unsigned char) (1 + s.draw(255)); r = &(t = x); m = M(1, x); break; } case 2: { char16_t x = genChar(s); r = &(t = (UCChar) x); m = M(1, x); break; } default: { std::wstring w = genWide(s); w = cutNul(w); if (w.empty()) w = L"z"; r = &(t = w[0]); m = fromWide1(w); } } break;
	case 7: key = "self"; switch (s.draw(6)) { case 0: r = &(t = *&t); break; case 1: m = fromUtf8(utf8(m)); r = &(t = t.GetCharPtr()); break; case 2: m = cutNul(m); if (true) { size_t k = s.draw(m.size() + 1); m = m.substr(k); r = &(t = t.GetUCCharPtr() + k); } break; case 3: r = &(t += t); m += M(m); break; case 4: r = &t.Insert(pos, t); ins(M(m)); break; default: { bool ic = s.coin(); M x = m; switch (s.draw(3)) { case 0: r = &t.Replace(t, ta, ic); m = replace(x, x, a, ic); break; case 1: r = &t.Replace(ta, t, ic); m = replace(x, a, x, ic); break; default: r = &t.Replace(t, t, ic); } } } break;
	case 8: key = "move"; { Pair z = {TXString(a), a}; if (s.coin()) { TXString u(std::move(z.t)); compare(c, u, a, "move", "moved"); r = &(t = std::move(u)); } else r = &(t = std::move(z.t)); m = a; } break;
	case 9: key = "swap"; { TXString z(a); if (s.coin()) t.swap(z); else swap(t, z); compare(c, z, m, "swap", "the other string after swapping"); c.eq(z.GetStdString(), utf8(m), "swap", "bytes of the other string after swapping"); m = a; } break;
	case 10: case 11: key = "append"; r = s.coin() ? &(t += ta) : &(t << ta); m += a; break;
	case 12: key = "append-char*"; { str b = genBytes(s); auto e = exact(b.data(), b.size()); r = s.coin() ? &(t += e.get()) : &(t << e.get()); m += fromUtf8(b); } break;
	case 13: key = "append-wide"; { std::wstring w = cutNul(genWide(s)); auto e = exact(w.data(), w.size()); r = s.coin() ? &(t += e.get()) : &(t << e.get()); m += fromWide(w); } break;
	case 14: key = "append-ucchar"; { M x = cutNul(a); auto e = exact(x.data(), x.size()); r = s.coin() ? &(t += (const UCChar*) e.get()) : &(t << (const UCChar*) e.get()); m += x; } break;
	case 15: key = "append-character"; { bool l = s.coin(); switch (s.draw(4)) { case 0: { char x = (char) (1 + s.draw(255)); r = l ? &(t += x) : &(t << x); m += (char16_t) (unsigned char) x; break; } case 1: { unsigned char x = (unsigned char) (1 + s.draw(255)); r = l ? &(t += x) : &(t << x); m += (char16_t) x; break; } case 2: { char16_t x = genChar(s); r = l ? &(t += (UCChar) x) : &(t << (UCChar) x); m += x; break; } default: { std::wstring w = cutNul(genWide(s)); if (w.empty()) w = L"z"; r = l ? &(t += w[0]) : &(t << w[0]); m += fromWide1(w); } } } break;
	case 16: key = "append-number"; switch (s.draw(5)) { case 0: { Sint32 v = (Sint32) bits(s); r = &(t << v); b8 = fmt("%d", v); break; } case 1: { Uint32 v = (Uint32) bits(s); r = &(t << v); b8 = fmt("%u", v); break; } case 2: { Sint64 v = (Sint64) bits(s); r = &(t << v); b8 = fmt("%lld", (long long) v); break; } case 3: { Uint64 v = bits(s); r = &(t << v); b8 = fmt("%llu", (unsigned long long) v); break; } default: { double v = (double) (int64_t) bits(s) / (double) (1 + s.draw(1000000)); r = &(t << v); b8 = fmt("%f", v); } } m += fromUtf8(b8); break;
	case 17: case 18: key = "insert"; r = &t.Insert(pos, ta); ins(a); break;
	case 19: key = "insert-char*"; { str b = genBytes(s); auto e = exact(b.data(), b.size()); r = &t.Insert(pos, e.get()); ins(fromUtf8(b)); } break;
	case 20: key = "insert-wide"; { std::wstring w = cutNul(genWide(s)); auto e = exact(w.data(), w.size()); r = &t.Insert(pos, e.get()); ins(fromWide(w)); } break;
	case 21: key = "insert-ucchar"; { M x = cutNul(a); auto e = exact(x.data(), x.size()); r = &t.Insert(pos, (const UCChar*) e.get()); ins(x); } break;
	case 22: key = "insert-character"; switch (s.draw(4)) { case 0: { char x = (char) (1 + s.draw(255)); r = &t.Insert(pos, x); ins(M(1, (unsigned char) x)); break; } case 1: { unsigned char x = (unsigned char) (1 + s.draw(255)); r = &t.Insert(pos, x); ins(M(1, x)); break; } case 2: { char16_t x = genChar(s); r = &t.Insert(pos, (UCChar) x); ins(M(1, x)); break; } default: { std::wstring w = cutNul(genWide(s)); if (w.empty()) w = L"z"; r = &t.Insert(pos, w[0]); ins(fromWide1(w)); } } break;
	case 23: case 24: key = "delete"; { bool all = s.chance(20); r = all ? &t.Delete(pos) : &t.Delete(pos, len); if (pos < m.size()) m.erase(pos, all ? M::npos : len); } break;
	case 25: key = "delete-last"; r = &t.DeleteLast(); if (!m.empty()) m.pop_back(); break;
	case 26: case 27: case 28: key = "trim"; { int k = (int) s.draw(3); r = k == 0 ? &t.TrimLeft() : k == 1 ? &t.TrimRight() : &t.Trim(); if (k != 1) while (!m.empty() && (m[0] == ' ' || m[0] == '\t')) m.erase(0, 1); if (k != 0) while (!m.empty() && (m.back() == ' ' || m.back() == '\t')) m.pop_back(); } break;
	case 29: key = "trim-invalid"; { int k = (int) s.draw(3); r = k == 0 ? &t.TrimLeftInvalidCharacter() : k == 1 ? &t.TrimRightInvalidCharacter() : &t.TrimInvalidCharacters(); m = trimEnds(m, k != 1, k != 0); } break;
	case 30: case 31: case 32: case 33: key = "replace"; { M f = m.empty() || s.chance(30) ? genM(s, 3) : m.substr(s.draw(m.size()), 1 + s.draw(2)); bool ic = s.coin(); if (ic && s.coin()) f = s.coin() ? upper(f) : lower(f); what = " " + show(f) + " with " + show(a) + (ic ? ", any case" : ""); TXString tf = make(s, f); r = ic || s.coin() ? &t.Replace(tf, ta, ic) : &t.Replace(tf, ta); m = replace(m, f, a, ic); } break;
	case 34: key = "case"; if (s.coin()) { r = &t.MakeUpper(); m = upper(m); } else { r = &t.MakeLower(); m = lower(m); } break;
	case 35: key = "reverse"; r = &t.MakeReverse(); std::reverse(m.begin(), m.end()); break;
	case 36: case 37: key = "length"; { size_t k = s.draw(m.size() + 4); switch (s.draw(4)) { case 0: r = &t.SetLength(k); if (k < m.size()) m = trimEnds(m.substr(0, k), false, true); else m.resize(k); break; case 1: { char16_t x = genChar(s); r = &t.SetLength(k, x); m.resize(k, x); break; } case 2: { size_t z = genPos(s, m.size()); r = &t.Truncate(z); if (z < m.size()) m = trimEnds(m.substr(0, z), false, true); break; } default: if (s.coin()) { r = &t.Clear(); m.clear(); } else { r = &t.SetLength(k); if (k < m.size()) m = trimEnds(m.substr(0, k), false, true); else m.resize(k); } } } break;
	case 38: key = "set-at"; { char16_t x = genChar(s); r = &t.SetAt(pos, x); if (pos < m.size()) m[pos] = x; } break;
	case 39: key = "reference"; { char16_t x = genChar(s); switch (s.draw(3)) { case 0: t.GetAt(pos) = x; break; case 1: t[(ptrdiff_t) pos] = x; break; default: t.GetLast() = x; pos = m.empty() ? 0 : m.size() - 1; } if (pos < m.size()) m[pos] = x; } break;
	case 40: key = "number"; switch (s.draw(4)) { case 0: { Sint64 v = (Sint64) bits(s); r = s.coin() ? &t.itoa(v) : &(t = TXString::ToStringInt(v)); b8 = fmt("%lld", (long long) v); break; } case 1: { double v = (double) (int64_t) bits(s) / (double) (1 + s.draw(1000000)); r = s.coin() ? &t.ftoa(v) : &(t = TXString::ToStringReal(v)); b8 = fmt("%f", v); break; } case 2: { double v = (double) (int64_t) bits(s) / (double) (1 + s.draw(1000000)); int pr = (int) s.draw(18); bool fx = s.coin(); if (fx && s.coin()) r = &t.ftoa(v, pr); else r = &(t = TXString::ToStringReal(v, pr, fx)); b8 = fx ? fmt("%.*f", pr, v) : fmt("%.*g", pr, v); break; } default: { Sint64 v = (Sint64) bits(s) >> s.draw(64); int w = (int) s.draw(24); wchar_t pad = (wchar_t) s.oneof<int>({' ', '0', '*', 0x20AC}); r = &(t = TXString::ToStringInt(v, w, pad)); str n = fmt("%lld", (long long) v); m = n.size() < (size_t) w ? M((size_t) w - n.size(), (char16_t) pad) : M(); m += fromUtf8(n); what = " width"; } } if (what.empty()) m = fromUtf8(b8); break;
	case 41: key = "plus"; { TXString x; switch (s.draw(5)) { case 0: x = t + ta; m = m + a; break; case 1: { char16_t k = genChar(s); x = t + k; m = m + k; break; } case 2: { char16_t k = genChar(s); x = k + t; m = k + m; break; } case 3: { M z = cutNul(a); auto e = exact(z.data(), z.size()); x = t + (const TXChar*) e.get(); m = m + z; break; } default: { M z = cutNul(a); auto e = exact(z.data(), z.size()); x = (const TXChar*) e.get() + t; m = z + m; } } r = &(t = x); } break;
	default: key = "construct"; switch (s.draw(8)) {
		case 0: { str b = genBytes(s); auto e = exact(b.data(), b.size()); TXString x(e.get()); m = fromUtf8(b); t = x; break; }
		case 1: { str b = genBytes(s); size_t k = s.draw(b.size() + 1); auto e = exact(b.data(), k, false); TXString x(e.get(), k); m = fromUtf8(b.substr(0, k)); t = x; break; }
		case 2: { str b = genBytes(s); auto e = exact(b.data(), b.size()); TXString x(e.get(), b.size() + 1 + s.draw(5)); m = fromUtf8(b); t = x; break; }
		case 3: { std::wstring w = cutNul(genWide(s)); size_t k = s.draw(w.size() + 1); auto e = exact(w.data(), k, false); TXString x(e.get(), k); m = fromWide(w.substr(0, k)); t = x; break; }
		case 4: { std::wstring w = cutNul(genWide(s)); auto e = exact(w.data(), w.size()); TXString x(e.get(), w.size() + 1 + s.draw(5)); m = fromWide(w); t = x; break; }
		case 5: { M z = cutNul(a); auto e = exact(z.data(), z.size()); TXString x((const UCChar*) e.get(), z.size() + 1 + s.draw(5)); m = z; t = x; break; }
		case 6: { size_t k = s.draw(5); switch (s.draw(4)) { case 0: { char x = (char) (1 + s.draw(255)); t = TXString(x, k); m = M(k, (unsigned char) x); break; } case 1: { unsigned char x = (unsigned char) (1 + s.draw(255)); t = TXString(x, k); m = M(k, x); break; } case 2: { char16_t x = genChar(s); t = TXString((UCChar) x, k); m = M(k, x); break; } default: { std::wstring w = cutNul(genWide(s)); if (w.empty()) w = L"z"; t = TXString(w[0], k); m.clear(); while (k--) m += fromWide1(w); } } break; }
		default: { str b = genBytes(s).substr(0, 255); std::vector<unsigned char> v(1, (unsigned char) b.size()); v.insert(v.end(), b.begin(), b.end()); auto e = exact(v.data(), v.size(), false); TXString x(e.get()); m = fromUtf8(b); t = x; }
		} break;
	}
	c.sample += key + what + fmt(" %zd %zd ", (ssize_t) pos, (ssize_t) len) + show(a).substr(0, 60) + " -> " + show(m).substr(0, 100) + "\n"; if (ret) c.check(r == &t, key, key + " does not return the string itself"); compare(c, t, m, key, key + what); if (m.size() > 300) { t.Clear(); m.clear(); }
}
static void ask(Src& s, Ctx& c, const Pair& p, const Pair& q)
{
	CT& t = p.t; const M& m = p.m; M a = s.chance(30) ? q.m : m.empty() || s.chance(30) ? genM(s, 3) : m.substr(s.draw(m.size()), 1 + s.draw(3)); bool ic = s.chance(40); if (ic && s.coin()) a = s.coin() ? upper(a) : lower(a); TXString ta = make(s, a); size_t pos = genPos(s, m.size()), len = genPos(s, m.size()); M mi = ic ? lower(m) : m, ai = ic ? lower(a) : a; str of = " of " + show(a) + fmt(" from %zd in ", (ssize_t) pos) + show(m) + (ic ? ", any case" : ""); M one = a.empty() ? M(1, genChar(s)) : a.substr(0, 1), oi = ic ? lower(one) : one; bool dflt = s.chance(20);
	auto num = [&](ptrdiff_t got, ptrdiff_t want, const char* key) { c.eq((long) got, (long) want, key, str(key) + of); };
	switch (s.draw(22)) {
	case 0: num(dflt && !ic ? t.Find(ta) : t.Find(ta, dflt ? 0 : pos, ic), find(mi, ai, dflt ? 0 : pos), "find"); break;
	case 1: num(dflt && !ic ? t.ReverseFind(ta) : t.ReverseFind(ta, dflt ? -1 : pos, ic), rfind(mi, ai, dflt ? -1 : pos), "reverse-find"); break;
	case 2: if (one[0] < 256 && s.coin()) num(dflt && !ic ? t.Find((char) one[0]) : t.Find((char) one[0], dflt ? 0 : pos, ic), find(mi, oi, dflt ? 0 : pos), "find-char"); else num(t.Find((int) one[0], pos, ic), find(mi, oi, pos), "find-character"); break;
	case 3: if (one[0] < 256 && s.coin()) num(dflt && !ic ? t.ReverseFind((char) one[0]) : t.ReverseFind((char) one[0], dflt ? -1 : pos, ic), rfind(mi, oi, dflt ? -1 : pos), "reverse-find-char"); else num(t.ReverseFind((int) one[0], pos, ic), rfind(mi, oi, pos), "reverse-find-character"); break;
	case 4: num(dflt ? t.FindOneOf(ta) : t.FindOneOf(ta, pos), firstOf(m, a, dflt ? 0 : pos, true, false), "find-one-of"); break;
	case 5: num(dflt ? t.ReverseFindOneOf(ta) : t.ReverseFindOneOf(ta, pos), firstOf(m, a, dflt ? -1 : pos, true, true), "reverse-find-one-of"); break;
	case 6: num(dflt ? t.FindNotOneOf(ta) : t.FindNotOneOf(ta, pos), firstOf(m, a, dflt ? 0 : pos, false, false), "find-not-one-of"); break;
	case 7: num(dflt ? t.ReverseFindNotOneOf(ta) : t.ReverseFindNotOneOf(ta, pos), firstOf(m, a, dflt ? -1 : pos, false, true), "reverse-find-not-one-of"); break;
	case 8: compare(c, dflt ? t.Mid(pos) : t.Mid(pos, len), pos < m.size() ? trimEnds(m.substr(pos, dflt ? M::npos : len), true, true) : M(), "mid", fmt("Mid(%zd,%zd) of ", (ssize_t) pos, (ssize_t) len) + show(m)); break;
	case 9: compare(c, t.Left(len), trimEnds(m.substr(0, len), false, true), "left", fmt("Left(%zd) of ", (ssize_t) len) + show(m)); break;
	case 10: compare(c, t.Right(len), len >= m.size() ? m : trimEnds(m.substr(m.size() - len), true, false), "right", fmt("Right(%zd) of ", (ssize_t) len) + show(m)); break;
	case 11: { bool ch = one[0] < 256 && s.coin(); M sep = ch ? one : a; std::vector<TXString> got = ch ? t.Split((char) one[0]) : t.Split(ta); auto want = split(m, sep); str w = "parts of " + show(m) + " at " + show(sep); c.eq(got.size(), want.size(), "split", "number of " + w); for (size_t i = 0; i < want.size(); i++) compare(c, got[i], want[i], "split", fmt("%zu of ", i) + w); break; }
	case 12: c.check(t.Equal(q.t) == (m == q.m), "equal", "Equal of " + show(m) + " and " + show(q.m)); c.eq(sign(t.Compare(q.t)), cmp(m, q.m), "compare", "Compare of " + show(m) + " and " + show(q.m)); if (m == q.m) c.check(t.hash() == q.t.hash() && std::hash<TXString>()(t) == std::hash<TXString>()(q.t), "hash", "equal strings have different hashes"); break;
	case 13: { const M& b = s.coin() ? q.m : a; TXString tb(b); int k = cmp(upper(m), upper(b)); str w = " of " + show(m) + " and " + show(b); c.eq(sign(t.CompareNoCase(tb)), k, "compare-no-case", "CompareNoCase" + w); c.check(t.EqualNoCase(tb) == (k == 0), "equal-no-case", "EqualNoCase" + w); c.check((t == tb) == (k == 0) && (t != tb) == (k != 0) && (t < tb) == (k < 0) && (t > tb) == (k > 0) && (t <= tb) == (k <= 0) && (t >= tb) == (k >= 0), "operators", "comparison operators" + w); M z = cutNul(b); int kz = cmp(upper(m), upper(z)); auto e = exact(z.data(), z.size()); const TXChar* pz = (const TXChar*) e.get(); c.check((t == pz) == (kz == 0) && (pz == t) == (kz == 0) && (t != pz) == (kz != 0) && (pz != t) == (kz != 0), "operators-ucchar", "comparison with characters" + w); str u = utf8(b); int k8 = cmp(upper(m), upper(fromUtf8(u))); c.check((t == u.c_str()) == (k8 == 0) && (u.c_str() == t) == (k8 == 0) && (t != u.c_str()) == (k8 != 0) && (u.c_str() != t) == (k8 != 0), "operators-char", "comparison with bytes" + w); break; }
	case 14: { M suf = s.coin() ? a : m.substr(std::min(pos, m.size())); c.check(t.EndsWith(TXString(suf)) == (suf.size() <= m.size() && at(m, m.size() - suf.size(), suf)), "ends-with", show(m) + " ends with " + show(suf)); break; }
	case 15: { str u = utf8(m); c.eq(str(t.GetCharPtr()), u, "utf8", "bytes of " + show(m)); c.eq(t.GetStdString(), u, "utf8", "string of " + show(m)); c.eq(t.GetEncodingLength(ETXEncoding::eUTF8), u.size(), "encoding-length", "bytes of " + show(m)); c.eq(t.GetEncodingLength(ETXEncoding::eUTF16), m.size(), "encoding-length", "characters of " + show(m)); c.eq(t.GetByteSize(), m.size() * 2, "byte-size", "bytes of the characters"); c.check(t.IsEmpty() == m.empty(), "empty", "IsEmpty"); const unsigned char* ps = t.GetUCharPtr(); size_t n = std::min<size_t>(u.size(), 255); c.check(ps[0] == n && memcmp(ps + 1, u.data(), n) == 0, "pascal", "length and bytes of " + show(m)); c.eq(str((const char*) t), u, "utf8", "bytes asked for again"); break; }
	case 16: { M z = m; const UCChar* u = t.GetUCCharPtr(); c.check(memcmp(u, z.c_str(), (z.size() + 1) * 2) == 0, "ucchar", "characters of " + show(m)); std::wstring w; for (char32_t x : scalars(m)) w += (wchar_t) x; std::wstring got = t.GetStdWString(); c.check(got == w, "wide", "wide characters of " + show(m)); const wchar_t* gp = t.GetWCharPtr(); c.check(memcmp(gp, w.c_str(), (w.size() + 1) * sizeof(wchar_t)) == 0, "wide", "wide characters of " + show(m)); break; }
	case 17: { size_t n = s.draw(m.size() + 6); str u = utf8(m); std::unique_ptr<char[]> d(new char[n + 1]); memset(d.get(), 0x55, n + 1); t.CopyInto(d.get(), n); if (n) c.eq(str(d.get()), u.substr(0, n - 1), "copy-char", fmt("copy into %zu bytes of ", n) + show(m)); c.eq((int) d[n], 0x55, "copy-char", "byte behind the buffer"); std::unique_ptr<unsigned char[]> ps(new unsigned char[n + 1]); memset(ps.get(), 0x55, n + 1); t.CopyInto(ps.get(), n); if (n) { size_t k = std::min<size_t>({u.size(), n - 1, 255}); c.check(ps[0] == k && memcmp(ps.get() + 1, u.data(), k) == 0, "copy-pascal", fmt("copy into %zu bytes of ", n) + show(m)); } c.eq((int) ps[n], 0x55, "copy-pascal", "byte behind the buffer"); break; }
	case 18: { size_t n = s.draw(m.size() + 4); std::unique_ptr<UCChar[]> d(new UCChar[n + 1]); for (size_t i = 0; i <= n; i++) d[i] = 0x5555; t.CopyInto(d.get(), n); if (n) { M w = m.substr(0, n - 1); c.check(memcmp(d.get(), w.c_str(), (w.size() + 1) * 2) == 0, "copy-ucchar", fmt("copy into %zu characters of ", n) + show(m)); } c.eq((int) d[n], 0x5555, "copy-ucchar", "character behind the buffer"); std::unique_ptr<wchar_t[]> e(new wchar_t[n + 1]); for (size_t i = 0; i <= n; i++) e[i] = 0x5555; t.CopyInto(e.get(), n); if (n) { std::u32string w = scalars(m).substr(0, n - 1); c.check(memcmp(e.get(), w.c_str(), (w.size() + 1) * 4) == 0, "copy-wide", fmt("copy into %zu wide characters of ", n) + show(m)); } c.eq((int) e[n], 0x5555, "copy-wide", "wide character behind the buffer"); break; }
	case 19: { Sint64 v = (Sint64) bits(s) >> s.draw(64); str pre = s.oneof<str>({"", " ", "\t"}), post = s.oneof<str>({"", " ", "x", ".5", "-1", "\xc3\xa9"}), n = pre + fmt("%lld", (long long) v) + post; TXString x(n.c_str()); c.eq((long long) x.atoi64(), (long long) v, "atoi64", "number in " + vp::quote(n)); if (v == (Sint32) v) c.eq((int) x.atoi(), (int) v, "atoi", "number in " + vp::quote(n)); double d = (double) (int64_t) bits(s) / (double) (1 + s.draw(1000000)); str dn = pre + fmt("%.*g", (int) s.range(1, 20), d) + s.oneof<str>({"", " ", "x", "\xc3\xa9"}); double got = TXString(dn.c_str()).atof(), want = strtod(dn.c_str(), nullptr); c.check(got == want, "atof", "number in " + vp::quote(dn)); break; }
	case 20: { M d; for (size_t i = 0, n = s.count(5); i < n; i++) d += s.chance(85) ? (char16_t) ('0' + s.draw(10)) : genChar(s); bool all = !d.empty(); for (auto x : d) all &= x >= '0' && x <= '9'; TXString x(d); c.check(x.IsCompleteNumber() == all, "complete-number", show(d) + " is a number"); char16_t k = s.coin() ? genChar(s) : (char16_t) s.draw(0x10000); bool ws = k == ' ' || (k >= 9 && k <= 13), pu = k > 32 && k < 127 && !isalnum(k); c.check(TXString::IsWhitespace(k) == ws, "whitespace", fmt("whether U+%04x is white space", (unsigned) k)); c.check(TXString::IsPunctuation(k) == pu, "punctuation", fmt("whether U+%04x is punctuation", (unsigned) k)); break; }
	default: c.eq((int) t.GetAt(pos), pos < m.size() ? (int) m[pos] : 0, "get-at", "character" + of); c.eq((int) t[(ptrdiff_t) pos], pos < m.size() ? (int) m[pos] : 0, "index", "character" + of); c.eq((int) t.GetLast(), m.empty() ? 0 : (int) m[m.size() - 1], "get-last", "last character of " + show(m)); c.eq((int) t[-1], 0, "index", "character before the first"); { TXString copy(t); compare(c, copy, m, "copy", "copy"); }
	}
	compare(c, t, m, "unchanged", "string after a question" + of);
}
static void history(Src& s, Ctx& c)
{
	Pair p[3]; for (auto& x : p) { x.m = genM(s); x.t = make(s, x.m); } size_t n = 1 + s.count(40), asked = 0;
	for (size_t i = 0; i < n; i++) { size_t a = s.draw(3), b = s.draw(3); if (s.chance(40)) change(s, c, p[a], p[(a + 1 + b % 2) % 3]); else { ask(s, c, p[a], p[b]); asked++; } for (auto& x : p) compare(c, x.t, x.m, "other", "a string after other operations"); }
	// ordering
	for (auto& x : p) for (auto& y : p) { c.check((x.t < y.t) + (x.t == y.t) + (x.t > y.t) == 1 && (x.t < y.t) == (y.t > x.t), "order", "exactly one of <, == and > for " + show(x.m) + " and " + show(y.m)); for (auto& z : p) c.check(!(x.t <= y.t && y.t <= z.t) || x.t <= z.t, "order", "order is not transitive: " + show(x.m) + " " + show(y.m) + " " + show(z.m)); }
	c.nontrivial = n >= 5 && asked >= 2;
}
VP_SUITE
{
	s.property = "V05"; s.rule = "at least 5 operations, 2 of them questions"; s.quickCases = 150000; s.thoroughCases = 5000000; s.batch = 200; s.cpuLimit = 20; s.wallLimit = 40;
	s.props.push_back({"history", 1, history});
}
