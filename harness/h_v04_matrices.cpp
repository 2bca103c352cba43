// V04: transform matrices and vectors obey their algebra.
#include "Prefix/StdAfx.h"
#include "Include/VectorworksMVR.h"
#include "vp.h"
#include <cmath>
#include <algorithm>
using namespace VectorworksMVR; using namespace VectorworksMVR::VWFC::Math;
using vp::str; using vp::fmt; using vp::Src; using vp::Ctx;
typedef long double L;
struct V { L x = 0, y = 0, z = 0; };
static V operator+(V a, V b) { return V{a.x + b.x, a.y + b.y, a.z + b.z}; }
static V operator-(V a, V b) { return V{a.x - b.x, a.y - b.y, a.z - b.z}; }
static V operator*(V a, L k) { return V{a.x * k, a.y * k, a.z * k}; }
static L dot(V a, V b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static V cross(V a, V b) { return V{a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
static L len(V a) { return sqrtl(dot(a, a)); }
// rows u, v, w, offset; a point is a row in front of the matrix
struct M { V r[4]; };
static M ident() { M m; m.r[0] = V{1, 0, 0}; m.r[1] = V{0, 1, 0}; m.r[2] = V{0, 0, 1}; return m; }
static V lin(V p, const M& m) { return m.r[0] * p.x + m.r[1] * p.y + m.r[2] * p.z; }
static V app(V p, const M& m) { return lin(p, m) + m.r[3]; }
static M mul(const M& a, const M& b) { M m; for (int i = 0; i < 3; i++) m.r[i] = lin(a.r[i], b); m.r[3] = app(a.r[3], b); return m; }   // a, then b
static L det(const M& m) { return dot(m.r[0], cross(m.r[1], m.r[2])); }
static M inv(const M& m)
{
	L d = det(m); V a = cross(m.r[1], m.r[2]) * (1 / d), b = cross(m.r[2], m.r[0]) * (1 / d), c = cross(m.r[0], m.r[1]) * (1 / d); M r;
	r.r[0] = V{a.x, b.x, c.x}; r.r[1] = V{a.y, b.y, c.y}; r.r[2] = V{a.z, b.z, c.z}; r.r[3] = lin(m.r[3], r) * -1; return r;
}
static M move(V o) { M m = ident(); m.r[3] = o; return m; }
static M scale(V k) { M m = ident(); m.r[0].x = k.x; m.r[1].y = k.y; m.r[2].z = k.z; return m; }
static const L kPi = 3.14159265358979323846264338327950288L;
// right-handed rotation about an axis
static M turn(V a, L deg)
{
	a = a * (1 / len(a)); L t = deg * kPi / 180, c = cosl(t), s = sinl(t); M m = ident();
	for (int i = 0; i < 3; i++) { V p = ident().r[i]; m.r[i] = p * c + cross(a, p) * s + a * (dot(a, p) * (1 - c)); } return m;
}
static const V X{1, 0, 0}, Y{0, 1, 0}, Z{0, 0, 1};
static L norm(const M& m) { L n = 0; for (int i = 0; i < 3; i++) n = std::max({n, fabsl(m.r[i].x), fabsl(m.r[i].y), fabsl(m.r[i].z)}); return n; }
static VWPoint3D P(V v) { return VWPoint3D((double) v.x, (double) v.y, (double) v.z); }
static V from(const VWPoint3D& p) { return V{p.x, p.y, p.z}; }
static M from(const VWTransformMatrix& m) { M r; r.r[0] = from(m.GetUVector()); r.r[1] = from(m.GetVVector()); r.r[2] = from(m.GetWVector()); r.r[3] = from(m.GetOffset()); return r; }
static str show(V v) { return fmt("(%.9Lg, %.9Lg, %.9Lg)", v.x, v.y, v.z); }
static str show(const M& m) { return show(m.r[0]) + show(m.r[1]) + show(m.r[2]) + show(m.r[3]); }

// ---- generators; all values are doubles
static L num(Src& s) { switch (s.draw(5)) { case 0: return s.oneof<double>({0, 1, -1, 2, 0.5}); case 1: return (double) ((int) s.draw(201) - 100); case 2: return ((double) s.draw(2000001) - 1000000) / 16; default: return (double) (((double) s.draw(20001) - 10000) / 1000); } }
static V vec(Src& s) { L x = num(s), y = num(s), z = num(s); return V{x, y, z}; }
static V away(Src& s) { V v = vec(s); while (len(v) < 0.01L) { v = v + V{0, (L) 0.25, 1}; } return v; }
static L ang(Src& s) { return s.chance(40) ? (double) s.oneof<int>({0, 30, 45, 90, -90, 180, 360, 270, -180}) : (double) (((double) s.draw(144001) - 72000) / 100); }
static L factor(Src& s) { L k = s.chance(25) ? (double) s.oneof<double>({1, 2, -1, 0.5, 0.125}) : (double) ((double) (1 + s.draw(4000)) / 1000); return s.chance(10) ? -k : k; }
static V factors(Src& s) { if (s.coin()) { L k = factor(s); return V{k, k, k}; } L a = factor(s), b = factor(s), c = factor(s); return V{a, b, c}; }
static M whole(Src& s) { M m; for (auto& r : m.r) r = vec(s); return m; }
static VWTransformMatrix made(const M& m, Src& s)
{
	switch (s.draw(5)) {
		case 0: return VWTransformMatrix(P(m.r[0]), P(m.r[1]), P(m.r[2]), P(m.r[3]));
		case 1: { M t = m; t.r[0] = V{m.r[0].x, m.r[1].x, m.r[2].x}; t.r[1] = V{m.r[0].y, m.r[1].y, m.r[2].y}; t.r[2] = V{m.r[0].z, m.r[1].z, m.r[2].z}; return VWTransformMatrix(P(t.r[0]), P(t.r[1]), P(t.r[2]), P(m.r[3]), true); }
		case 2: { VWTransformMatrix r(P(m.r[0]), P(m.r[1]), P(m.r[2])); r.SetOffset(P(m.r[3])); return r; }
		case 3: { VWTransformMatrix r; r.SetUVector((double) m.r[0].x, (double) m.r[0].y, (double) m.r[0].z); r.SetVVector(P(m.r[1])); r.SetWVector((double) m.r[2].x, (double) m.r[2].y, (double) m.r[2].z); r.SetTranslation((double) m.r[3].x, (double) m.r[3].y, (double) m.r[3].z); return r; }
		default: { VWTransformMatrix r; r.SetMatrix(P(m.r[0]), P(m.r[1]), P(m.r[2]), P(m.r[3])); VWTransformMatrix k; k = r; return VWTransformMatrix((const TransformMatrix&) k); }
	}
}
struct Run {
	Src& s; Ctx& c; VWTransformMatrix m; M r = ident(); L big = 1;   // big bounds the size of everything that went into r
	void near(V g, V w, L tol, const str& key, const str& what) { L d = std::max({fabsl(g.x - w.x), fabsl(g.y - w.y), fabsl(g.z - w.z)}); if (!(d <= tol)) c.fail(key, what + " is " + show(g) + ", should be " + show(w)); }
	void state(const str& what) { L o = std::max({(L) 1, len(r.r[3]), norm(r), big}); big = o; M g = from(m); for (int i = 0; i < 4; i++) near(g.r[i], r.r[i], 1e-11L * o, "state", fmt("row %d after ", i) + what); 
		const TransformMatrix& t = m; for (int i = 0; i < 4; i++) near(V{t.mat[i][0], t.mat[i][1], t.mat[i][2]}, g.r[i], 0, "data", fmt("row %d of the data after ", i) + what); r = g; }
	void op()
	{
		str w; auto say = [&](const str& t) { w = t; c.sample += t + "; "; }; V v; L a; double x, y, z; auto xyz = [&](V q) { x = (double) q.x; y = (double) q.y; z = (double) q.z; };
		switch (s.draw(19)) {
			case 0: v = vec(s); say("TranslateAfter" + show(v)); xyz(v); if (s.coin()) m.TranslateAfter(x, y, z); else m.TranslateAfter(P(v)); r = mul(r, move(v)); break;
			case 1: v = vec(s); say("TranslateBefore" + show(v)); xyz(v); if (s.coin()) m.TranslateBefore(x, y, z); else m.TranslateBefore(P(v)); r = mul(move(v), r); break;
			case 2: a = ang(s); say(fmt("RotateXAfter(%Lg)", a)); m.RotateXAfter((double) a); r = mul(r, turn(X, a)); break;
			case 3: a = ang(s); say(fmt("RotateYAfter(%Lg)", a)); m.RotateYAfter((double) a); r = mul(r, turn(Y, a)); break;
			case 4: a = ang(s); say(fmt("RotateZAfter(%Lg)", a)); m.RotateZAfter((double) a); r = mul(r, turn(Z, a)); break;
			case 5: a = ang(s); say(fmt("RotateXBefore(%Lg)", a)); m.RotateXBefore((double) a); r = mul(turn(X, a), r); break;
			case 6: a = ang(s); say(fmt("RotateYBefore(%Lg)", a)); m.RotateYBefore((double) a); r = mul(turn(Y, a), r); break;
			case 7: a = ang(s); say(fmt("RotateZBefore(%Lg)", a)); m.RotateZBefore((double) a); r = mul(turn(Z, a), r); break;
			case 8: v = factors(s); say("ScaleAfter" + show(v)); m.ScaleAfter((double) v.x, (double) v.y, (double) v.z); r = mul(r, scale(v)); break;
			case 9: { V p = vec(s); v = factors(s); say("ScaleWithCenter" + show(p) + show(v)); big = std::max(big, len(p) * 4); m.ScaleWithCenter(P(p), (double) v.x, (double) v.y, (double) v.z); r = mul(mul(mul(r, move(p * -1)), scale(v)), move(p)); break; }
			case 10: { V p = vec(s); L b = ang(s), d = ang(s); a = ang(s); say("RotateRoundPoint" + show(p) + show(V{a, b, d})); big = std::max(big, len(p) * 4); m.RotateRoundPoint(P(p), (double) a, (double) b, (double) d); r = mul(mul(mul(mul(mul(r, move(p * -1)), turn(X, a)), turn(Y, b)), turn(Z, d)), move(p)); break; }
			case 11: { M o = whole(s); say("times " + show(o)); VWTransformMatrix k = made(o, s); big = std::max({big, norm(o) * norm(r) * 3, norm(o) * len(r.r[3]) * 3 + len(o.r[3])}); if (s.coin()) m *= k; else m = m * k; r = mul(r, o); break; }
			case 12: { if (s.coin()) { say("squared"); big = std::max(big, norm(r) * norm(r) * 3 + norm(r) * len(r.r[3]) * 3); m *= m; r = mul(r, r); } else { M o = whole(s); say("put behind " + show(o)); big = std::max({big, norm(o) * norm(r) * 3, norm(r) * len(o.r[3]) * 3 + len(r.r[3])}); m = made(o, s) * m; r = mul(o, r); } break; }
			case 13: say("flip"); m.FlipMatrix(); std::swap(r.r[0], r.r[1]); break;
			case 14: { L n = norm(r), d = fabsl(det(r)); if (d < 1e-5L * n * n * n || n < 1e-5L || n > 1e5L || len(r.r[3]) > 1e7L) return; say("invert"); M i = inv(r); big = norm(i) * n * n * n / d * std::max((L) 10, 10 * len(r.r[3]));
				int k = (int) s.draw(3); if (k == 0) m.Invert(); else if (k == 1) m = ((const VWTransformMatrix&) m).Invert(); else m = m.GetInverted(); r = i; break; }
			case 15: a = ang(s); v = away(s); say("SetRotation" + show(v) + fmt("(%Lg)", a)); m.SetRotation((double) a, P(v)); r = turn(v, -a); big = 1; break;
			case 16: { v = away(s); if (s.chance(20)) v = V{0, 0, s.coin() ? 1.0L : -1.0L}; say("SetRotation" + show(v)); V u = v * (1 / len(v)), h = cross(Z, u); bool up = h.x == 0 && h.y == 0; if (!up && len(h) < 1e-5L) return; m.SetIdentity(); m.SetRotation(P(v)); r = ident(); r.r[0] = u; r.r[1] = up ? Y : h * (1 / len(h)); r.r[2] = cross(u, r.r[1]); big = 10; if (!up) big = std::max(big, 10 / len(h)); break; }
			case 17: { big = 1; int k = (int) s.draw(4); if (k == 0) { say("identity"); m.SetIdentity(); r = ident(); } else if (k == 1) { v = vec(s); say("SetMatrix offset"); m.SetMatrix(P(v)); r = move(v); } else if (k == 2) { v = factors(s); say("SetMatrix scale"); m.SetMatrix((double) v.x, (double) v.y, (double) v.z); r = scale(v); } else { r = whole(s); say("made " + show(r)); m = made(r, s); } break; }
			default: { int k = (int) s.draw(4); v = vec(s); say(fmt("set row %d", k) + show(v)); if (k == 0) m.SetUVector(P(v)); else if (k == 1) m.SetVVector((double) v.x, (double) v.y, (double) v.z); else if (k == 2) m.SetWVector(P(v)); else if (s.coin()) m.SetTranslation(P(v)); else m.SetOffset((double) v.x, (double) v.y, (double) v.z); r.r[k] = v; }
		}
		if (!w.empty()) state(w);
		if (norm(r) > 1e8L || len(r.r[3]) > 1e9L || norm(r) < 1e-6L) { m.SetIdentity(); r = ident(); big = 1; c.sample += "too large, identity; "; }
	}
	void ask()
	{
		std::vector<V> pts; for (size_t i = 0, n = s.count(4) + 1; i < n; i++) pts.push_back(vec(s)); TSTLPoints3DArray a3, b3; TSTLPoints2DArray a2, b2; L n = norm(r), d = det(r);
		bool good = fabsl(d) >= 1e-5L * n * n * n && n >= 1e-5L && n < 1e5L && len(r.r[3]) < 1e7L; M i; if (good) i = inv(r);
		for (V p : pts) {
			L tol = 1e-12L * (1 + n * len(p) * 4 + len(r.r[3]) * 2); V w = app(p, r), w2 = app(V{p.x, p.y, 0}, r); VWPoint3D q = P(p); near(from(m.PointTransform(q)), w, tol, "point", "PointTransform of " + show(p)); near(from(m * q), w, tol, "point", "matrix times " + show(p)); m.TransformPoint(q); near(from(q), w, tol, "point", "TransformPoint of " + show(p));
			VWPoint2D f((double) p.x, (double) p.y); auto flat = [&](VWPoint2D g, V e, L t, const str& what) { near(V{g.x, g.y, 0}, V{e.x, e.y, 0}, t, "flat-point", what + show(p)); }; flat(m.PointTransform(f), w2, tol, "2D PointTransform of "); flat(m * f, w2, tol, "matrix times 2D "); VWPoint2D g = f; m.TransformPoint(g); flat(g, w2, tol, "2D TransformPoint of ");
			a3.push_back(P(p)); a2.push_back(f);
			if (good) { L t = 1e-11L * (1 + norm(i) * (len(p) + len(r.r[3])) * (n * n * n / fabsl(d)) * 10); V k = app(p, i), k2 = app(V{p.x, p.y, 0}, i); VWPoint3D h = P(p); near(from(m.InversePointTransform(h)), k, t, "inverse-point", "InversePointTransform of " + show(p) + " by " + show(r)); m.InverseTransformPoint(h); near(from(h), k, t, "inverse-point", "InverseTransformPoint of " + show(p) + " by " + show(r));
				near(from(m.PointTransform(m.InversePointTransform(P(p)))), p, 1e-11L * (1 + n * norm(i) * (len(p) + len(r.r[3])) * (n * n * n / fabsl(d)) * 30), "undo", "point moved back and forth " + show(p));
				flat(m.InversePointTransform(f), k2, t, "2D InversePointTransform of "); VWPoint2D e = f; m.InverseTransformPoint(e); flat(e, k2, t, "2D InverseTransformPoint of "); }
		}
		b3 = a3; b2 = a2; m.PointsTransform(a3); m.PointsTransform(a2); if (a3.size() != pts.size() || a2.size() != pts.size()) c.fail("points", "number of points changed");
		for (size_t k = 0; k < pts.size(); k++) { VWPoint3D q = m.PointTransform(b3[k]); VWPoint2D f = m.PointTransform(b2[k]); near(from(a3[k]), from(q), 0, "points", fmt("point %zu of many", k)); near(V{a2[k].x, a2[k].y, 0}, V{f.x, f.y, 0}, 0, "points", fmt("2D point %zu of many", k)); }
		if (good) { a3 = b3; a2 = b2; m.InversePointsTransform(a3); m.InversePointsTransform(a2); for (size_t k = 0; k < pts.size(); k++) { VWPoint3D q = m.InversePointTransform(b3[k]); VWPoint2D f = m.InversePointTransform(b2[k]); near(from(a3[k]), from(q), 0, "points", fmt("point %zu of many moved back", k)); near(V{a2[k].x, a2[k].y, 0}, V{f.x, f.y, 0}, 0, "points", fmt("2D point %zu of many moved back", k)); }
			VWTransformMatrix e = m * m.GetInverted(); L t = n * norm(i) * n * n * n / fabsl(d) * (1 + len(r.r[3])); if (t < 1e6L) { if (!e.IsIdentity() || !(e == VWTransformMatrix())) c.fail("inverse", "matrix times its inverse is no identity: " + show(from(e))); } }
		if (fabsl(d) > 1e-9L * n * n * n && m.IsFlipped() != (d < 0)) c.fail("flipped", fmt("IsFlipped is %d with determinant %Lg", (int) m.IsFlipped(), d));
		for (int k = 0; k < 4; k++) { size_t r0 = s.draw(4), r1 = s.draw(4), c0 = s.draw(3), c1 = s.draw(3); auto e = [&](size_t a, size_t b) { V v = r.r[a]; return b == 0 ? v.x : b == 1 ? v.y : v.z; }; L w = e(r0, c0) * e(r1, c1) - e(r0, c1) * e(r1, c0), g = m.GetMinor2x2(r0, r1, c0, c1); if (!(fabsl(g - w) <= 1e-12L * (1 + std::max(n, len(r.r[3])) * std::max(n, len(r.r[3])) * 4))) c.fail("minor", fmt("minor %zu %zu %zu %zu is %Lg, should be %Lg", r0, r1, c0, c1, g, w)); }
		// equality notices any entry that differs clearly, and none that does not
		VWTransformMatrix o = m; if (!(o == m) || !m.IsEqual(o)) c.fail("equal", "matrix differs from its copy"); M q = r; size_t row = s.draw(4), col = s.draw(3); V& v = q.r[row]; L& e = col == 0 ? v.x : col == 1 ? v.y : v.z; bool much = s.coin(); e += (s.coin() ? 1 : -1) * (much ? 0.001L : 0.00001L); if (n < 1e6L && len(r.r[3]) < 1e6L) { VWTransformMatrix x = made(q, s); if ((x == m) == much || (m == x) == much) c.fail("equal", fmt("matrices that differ by %s in entry %zu,%zu", much ? "0.001" : "0.00001", row, col)); }
		M id = ident(); V& iv = id.r[row]; L& ie = col == 0 ? iv.x : col == 1 ? iv.y : iv.z; ie += much ? 0.001L : 0.00001L; if (made(id, s).IsIdentity() == much) c.fail("identity", fmt("IsIdentity for a matrix that differs by %s in entry %zu,%zu", much ? "0.001" : "0.00001", row, col));
	}
};
static void matrices(Src& s, Ctx& c)
{
	Run r{s, c, VWTransformMatrix(), ident(), 1}; r.state("construction"); size_t n = 1 + s.count(12); for (size_t i = 0; i < n; i++) { r.op(); if (s.chance(40)) r.ask(); } r.ask(); c.nontrivial = n >= 3;
}
static void vectors(Src& s, Ctx& c)
{
	V a = vec(s), b = vec(s), d = vec(s); L k = num(s); c.sample = show(a) + show(b) + show(d); c.nontrivial = len(a) > 0 && len(b) > 0; L z = 1 + len(a) + len(b) + len(d) + fabsl(k); VWPoint3D A = P(a), B = P(b), D = P(d);
	auto near = [&](const VWPoint3D& g, V w, L t, const str& what) { V q = from(g); L e = std::max({fabsl(q.x - w.x), fabsl(q.y - w.y), fabsl(q.z - w.z)}); if (!(e <= t)) c.fail("vector", what + " is " + show(q) + ", should be " + show(w)); };
	auto one = [&](L g, L w, L t, const str& what) { if (!(fabsl(g - w) <= t)) c.fail("vector", what + fmt(" is %.12Lg, should be %.12Lg", g, w)); };
	L e1 = 1e-14L * z, e2 = 1e-14L * z * z; near(A + B, a + b, e1, "sum"); near(A - B, a - b, e1, "difference"); near(-A, a * -1, 0, "negative"); near(A * (double) k, a * k, e2, "multiple"); if (fabsl(k) > 1e-3L) near(A / (double) k, a * (1 / k), 1e-11L * z, "quotient");
	VWPoint3D t = A; t += B; near(t, a + b, e1, "+="); t = A; t -= B; near(t, a - b, e1, "-="); t = A; t *= (double) k; near(t, a * k, e2, "*="); t = A; if (fabsl(k) > 1e-3L) { t /= (double) k; near(t, a * (1 / k), 1e-11L * z, "/="); } t = A; t *= B; near(t, cross(a, b), e2, "*= with a vector");
	near(A * B, cross(a, b), e2, "cross product"); near(A.Cross(B), cross(a, b), e2, "Cross"); one(A % B, dot(a, b), e2, "dot product"); one(A.DotProduct(B), dot(a, b), e2, "DotProduct"); one(A.Magnitude(), len(a), e1, "Magnitude"); one(A.MagnitudeSquared(), dot(a, a), e2, "MagnitudeSquared");
	one(A.DistanceTo(B), len(a - b), e1, "DistanceTo"); one(A.DistanceTo(B.x, B.y, B.z), len(a - b), e1, "DistanceTo by parts"); one(A.DistanceSquaredTo(B), dot(a - b, a - b), e2, "DistanceSquaredTo"); one(A.DistanceSquaredTo(B.x, B.y, B.z), dot(a - b, a - b), e2, "DistanceSquaredTo by parts");
	if (len(a) > 1e-3L) { near(A.GetNormalized(), a * (1 / len(a)), 1e-12L, "GetNormalized"); t = A; near(t.Normalize(), a * (1 / len(a)), 1e-12L, "Normalize"); near(t, a * (1 / len(a)), 1e-12L, "normalized vector"); } else if (len(a) == 0) near(A.GetNormalized(), a, 0, "normalized zero");
	L area = len(cross(b - a, d - a)) / 2; one(VWPoint3D::TriArea(A, B, D), area, e2, "TriArea"); one(fabs(VWPoint3D::TriArea(A.x, A.y, A.z, B.x, B.y, B.z, D.x, D.y, D.z)), area, e2, "TriArea by parts");
	double eps = s.oneof<double>({0.001, 0.5, 2}); L gap = len(a - b); if (fabsl(gap - eps) > 1e-6L) c.check(A.Equal(B, eps) == (gap < eps), "vector", fmt("Equal within %g with distance %Lg", eps, gap)); VWPoint3D n = A; n.x += s.coin() ? 1e-3 : 0; n.z += s.coin() ? 1e-3 : 0; bool moved = n.x != A.x || n.z != A.z; c.check((A == n) == !moved && (A != n) == moved, "vector", "== and != of close points");
	VWPoint3D cen; double sq = 0; if (area > 0.5L && z < 200) { if (!VWPoint3D::GetTriCircumCircle(A, B, D, cen, sq)) c.fail("circle", "a triangle has no circumcircle"); for (V p : {a, b, d}) one(dot(from(cen) - p, from(cen) - p), sq, 1e-8L * (1 + sq) * z, "squared distance of a corner from the centre"); }
	WorldPt3 w = (const WorldPt3&) A; near(VWPoint3D(w), a, 0, "world point"); t.SetPoint(w); near(t, a, 0, "SetPoint"); VWPoint2D f = A; c.check(f.x == A.x && f.y == A.y, "vector", "flat point"); near(VWPoint3D(f, B.z), V{a.x, a.y, b.z}, 0, "raised point");
}
VP_SUITE
{
	s.property = "V04"; s.rule = "histories of at least three operations; vectors that are not zero"; s.quickCases = 150000; s.thoroughCases = 5000000; s.batch = 200; s.cpuLimit = 20; s.wallLimit = 40;
	s.props = {{"matrices", 3, matrices}, {"vectors", 1, vectors}};
}
