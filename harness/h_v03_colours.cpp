// V03: colour conversions agree with the sRGB transformation, stay in range and undo each other;
// colours survive being written to and read from documents.
#include "Prefix/StdAfx.h"
#include "Include/VectorworksMVR.h"
#include "Include/IMediaRessourceVectorInterface.h"
#include "RGBColor.h"
#include "vp.h"
#include <cmath>
#include <limits>
using namespace VectorworksMVR; using namespace VectorworksMVR::GdtfDefines;
using vp::str; using vp::fmt; using vp::Src; using vp::Ctx;
typedef long double L;
static void must(int rc, const str& what) { if (rc) throw vp::Fail{"call:" + what, what + fmt(" returned error %d", rc)}; }
static IIUtilityPtr util() { IIUtilityPtr u(IID_IUtility); if (!u) throw vp::Fail{"create", "no utility object"}; return u; }

// ---- reference: sRGB primaries, D65 white, matrix made from the chromaticities
struct M3 { L a[3][3]; };
static M3 inverse(const M3& m)
{
	M3 r; auto& a = m.a; L d = 0;
	for (int i = 0; i < 3; i++) d += a[0][i] * (a[1][(i + 1) % 3] * a[2][(i + 2) % 3] - a[1][(i + 2) % 3] * a[2][(i + 1) % 3]);
	for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r.a[j][i] = (a[(i + 1) % 3][(j + 1) % 3] * a[(i + 2) % 3][(j + 2) % 3] - a[(i + 1) % 3][(j + 2) % 3] * a[(i + 2) % 3][(j + 1) % 3]) / d;
	return r;
}
static M3 toXyz()
{
	const L x[3] = {0.64L, 0.30L, 0.15L}, y[3] = {0.33L, 0.60L, 0.06L}, W[3] = {0.95047L, 1.0L, 1.08883L}; M3 m;
	for (int i = 0; i < 3; i++) { m.a[0][i] = x[i] / y[i]; m.a[1][i] = 1; m.a[2][i] = (1 - x[i] - y[i]) / y[i]; }
	M3 inv = inverse(m); for (int i = 0; i < 3; i++) { L s = 0; for (int k = 0; k < 3; k++) s += inv.a[i][k] * W[k]; for (int k = 0; k < 3; k++) m.a[k][i] *= s; }
	return m;
}
static const M3& fwd() { static M3 m = toXyz(); return m; }
static const M3& back() { static M3 m = inverse(fwd()); return m; }
static L linear(L v) { return v <= 0.04045L ? v / 12.92L : powl((v + 0.055L) / 1.055L, 2.4L); }
static L gamma(L v) { return v <= 0.0031308L ? v * 12.92L : 1.055L * powl(v, 1 / 2.4L) - 0.055L; }
static void refRgb(const CieColor& c, L out[3])
{
	L X = 0, Y = 0, Z = 0; if (fabs(c.fy) >= 0.000001) { Y = (L) c.f_Y / 100; X = (L) c.fx * Y / c.fy; Z = (1 - (L) c.fx - c.fy) * Y / c.fy; }
	for (int i = 0; i < 3; i++) { L v = gamma(back().a[i][0] * X + back().a[i][1] * Y + back().a[i][2] * Z); out[i] = 255 * (v < 0 ? 0 : v > 1 ? 1 : v); }
}
static void refCie(int r, int g, int b, L out[3])
{
	L v[3] = {linear(r / 255.0L), linear(g / 255.0L), linear(b / 255.0L)}, x[3]; for (int i = 0; i < 3; i++) { x[i] = 0; for (int k = 0; k < 3; k++) x[i] += fwd().a[i][k] * v[k]; }
	L s = x[0] + x[1] + x[2]; out[0] = s > 0 ? x[0] / s : 0; out[1] = s > 0 ? x[1] / s : 0; out[2] = x[1] * 100;
}
static str show(const CieColor& c) { return fmt("(%.9g, %.9g, %.9g)", c.fx, c.fy, c.f_Y); }
static str show(const RGBColor& c) { return fmt("(%d, %d, %d)", (int) c.r, (int) c.g, (int) c.b); }
static CieColor cie(double x, double y, double Y) { CieColor c; c.fx = x; c.fy = y; c.f_Y = Y; return c; }

// ---- generators
static double wild(Src& s)
{
	switch (s.draw(9)) {
		case 0: return s.oneof<double>({0, -0.0, 1, 100, 1e-6, 9.99e-7, 1.1e-6, 0.5});
		case 1: return s.oneof<double>({1e308, -1e308, 1e-308, 5e-324, 1e100, -1e100, 1e15});
		case 2: return s.oneof<double>({std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity()});
		case 3: return -(double) s.draw(100000) / 1000;
		default: return (double) s.draw(1000001) / 1e6 * (s.chance(30) ? 1000 : 1);
	}
}
// a colour from mixing the primaries: inside or on the border of what RGB can show
static CieColor inside(Src& s)
{
	L v[3], x[3]; for (int i = 0; i < 3; i++) { v[i] = s.chance(25) ? (s.coin() ? 1 : 0) : (L) s.draw(1000001) / 1e6L; if (s.chance(15)) v[i] *= 0.002L; }
	for (int i = 0; i < 3; i++) { x[i] = 0; for (int k = 0; k < 3; k++) x[i] += fwd().a[i][k] * v[k]; }
	L t = x[0] + x[1] + x[2]; if (t <= 0) return cie(0, 0, 0);
	return cie((double) (x[0] / t), (double) (x[1] / t), (double) (x[1] * 100));
}
static bool finite3(const CieColor& c) { return std::isfinite(c.fx) && std::isfinite(c.fy) && std::isfinite(c.f_Y); }

static void toRgb(Src& s, Ctx& c)
{
	int kind = (int) s.draw(3); CieColor in = kind == 0 ? cie(wild(s), wild(s), wild(s)) : inside(s);
	if (kind == 2) { in.fx += ((double) s.draw(2001) - 1000) / 2000; in.fy += ((double) s.draw(2001) - 1000) / 2000; in.f_Y *= (double) s.draw(4000) / 1000; }
	c.sample = "CIE " + show(in); c.label(kind == 0 ? "any" : kind == 1 ? "within RGB" : "around RGB");
	RGBColor out; out.r = out.g = out.b = -77; must(util()->CieToRgb(in, out), "CieToRgb");
	Sint32 got[3] = {out.r, out.g, out.b};
	for (int v : got) if (v < 0 || v > 255) c.fail("range", "CIE " + show(in) + " becomes RGB " + show(out));
	c.nontrivial = kind != 0 || finite3(in);
	double big = std::max(std::max(fabs(in.fx), fabs(in.fy)), fabs(in.f_Y));
	if (!finite3(in) || big > 1e4 || fabs(fabs(in.fy) - 1e-6) < 1e-9) return;
	L want[3]; refRgb(in, want);
	L size = 1; if (fabs(in.fy) >= 1e-6) { L k = fabsl((L) in.f_Y / 100 / in.fy); size = 1 + k * (1 + fabsl(in.fx) + fabsl(in.fy)); }
	if (size > 20) return;   // rounding of the factors decides
	L tol = 1.05L + size * 0.2L * (size > 4 ? 1 : 0);
	for (int i = 0; i < 3; i++) if (fabsl(got[i] - want[i]) > tol) c.fail("to-rgb", "CIE " + show(in) + " becomes RGB " + show(out) + fmt(", part %d should be %.3Lf", i, want[i]));
}
static void lines(Src& s, Ctx& c)
{
	int which = (int) s.draw(3), p = (int) s.draw(256), q = (int) s.draw(256); c.sample = fmt("all of part %d, others %d %d", which, p, q); c.nontrivial = true; IIUtilityPtr u = util();
	for (int v = 0; v < 256; v++) {
		RGBColor in; in.r = which == 0 ? v : p; in.g = which == 1 ? v : which == 0 ? p : q; in.b = which == 2 ? v : q;
		CieColor out = cie(-7, -7, -7); must(u->RgBToCie(in, out), "RgBToCie"); L want[3]; refCie(in.r, in.g, in.b, want);
		L got[3] = {out.fx, out.fy, out.f_Y}; for (int i = 0; i < 3; i++) if (!(fabsl(got[i] - want[i]) <= (i == 2 ? 0.002L : 0.0002L))) c.fail("to-cie", "RGB " + show(in) + " becomes CIE " + show(out) + fmt(", should be (%.6Lf, %.6Lf, %.6Lf)", want[0], want[1], want[2]));
		RGBColor b; b.r = b.g = b.b = -77; must(u->CieToRgb(out, b), "CieToRgb");
		if (abs(b.r - in.r) > 1 || abs(b.g - in.g) > 1 || abs(b.b - in.b) > 1) c.fail("round-trip", "RGB " + show(in) + " becomes CIE " + show(out) + " and back RGB " + show(b));
	}
}
// CRGBColor keeps what is set and mixes in a straight line
static void parts(Src& s, Ctx& c)
{
	Sint32 m[3]; for (auto& v : m) v = (Sint32) s.draw(256); CRGBColor a(m[0], m[1], m[2]); size_t n = 1 + s.draw(6); c.nontrivial = true; str log = fmt("(%d, %d, %d)", m[0], m[1], m[2]);
	auto look = [&](const str& what) { Sint32 r = -1, g = -1, b = -1; a.GetColor(r, g, b); log += "; " + what; c.sample = log;
		if (r != m[0] || g != m[1] || b != m[2] || a.GetRed() != m[0] || a.GetGreen() != m[1] || a.GetBlue() != m[2]) c.fail("parts", log + fmt(": colour is (%d, %d, %d), should be (%d, %d, %d)", r, g, b, m[0], m[1], m[2])); };
	look("made");
	for (size_t i = 0; i < n; i++) {
		Sint32 v = (Sint32) s.draw(256), w = (Sint32) s.draw(256), x = (Sint32) s.draw(256);
		switch (s.draw(7)) {
			case 0: a.SetRed(v); m[0] = v; look(fmt("red %d", v)); break;
			case 1: a.SetGreen(v); m[1] = v; look(fmt("green %d", v)); break;
			case 2: a.SetBlue(v); m[2] = v; look(fmt("blue %d", v)); break;
			case 3: a.SetColor(v, w, x); m[0] = v; m[1] = w; m[2] = x; look("all"); break;
			case 4: { CRGBColor o(v, w, x); a = o; m[0] = v; m[1] = w; m[2] = x; look("assigned"); if (!(a == o) || a != o) c.fail("equal", log + ": differs from what was assigned"); break; }
			case 5: { CRGBColor o(v, w, x); bool same = v == m[0] && w == m[1] && x == m[2]; if ((a == o) != same || (a != o) == same) c.fail("equal", log + fmt(": compared with (%d, %d, %d)", v, w, x)); CRGBColor k(a); a = k; look("copied"); break; }
			default: { CRGBColor o(v, w, x); double p = (double) s.draw(101); Sint32 t[3] = {v, w, x}; CRGBColor k(a, o, p); Sint32 g[3]; k.GetColor(g[0], g[1], g[2]);
				for (int j = 0; j < 3; j++) if (fabs(g[j] - (m[j] + (t[j] - m[j]) * p / 100)) > 1.0001) c.fail("gradient", log + fmt(": part %d of %g%% to %d is %d", j, p, t[j], g[j]));
				if (p == 0 && !(k == a)) c.fail("gradient", "0% is not the first colour"); if (p == 100 && !(k == o)) c.fail("gradient", "100% is not the second colour"); }
		}
	}
}
// ---- documents
static double comp(Src& s)
{
	switch (s.draw(6)) {
		case 0: return s.oneof<double>({0, 1, 100, 0.000001, 0.0000005, 0.9999995, 123456789.125, 1e15, 1e-9});
		case 1: return -(double) s.draw(1000000) / 1000;
		case 2: return (double) s.draw(1000000000) / 997;
		default: return (double) s.draw(100000001) / 1e8;
	}
}
static CieColor colour(Src& s) { CieColor r; r.fx = comp(s); r.fy = comp(s); r.f_Y = comp(s); return r; }
static void same(Ctx& c, const str& what, const CieColor& got, const CieColor& want, bool exact)
{
	const double g[3] = {got.fx, got.fy, got.f_Y}, w[3] = {want.fx, want.fy, want.f_Y};
	for (int i = 0; i < 3; i++) if (!(fabs(g[i] - w[i]) <= (exact ? 0 : 5.1e-7 + fabs(w[i]) * 4e-16))) c.fail("document", what + " is " + show(got) + ", was set to " + show(want));
}
struct Gdtf { std::vector<CieColor> want; std::vector<str> name; };
static std::vector<CieColor> colours(IGdtfFixturePtr& f)
{
	std::vector<CieColor> v; auto put = [&](CieColor x) { v.push_back(x); };
	CieColor x; IGdtfAttributePtr a; must(f->GetAttributeAt(0, &a), "GetAttributeAt"); must(a->GetColor(x), "attribute colour"); put(x);
	IGdtfWheelPtr w; must(f->GetWheelAt(0, &w), "GetWheelAt"); IGdtfWheelSlotPtr sl; must(w->GetWheelSlotAt(0, &sl), "GetWheelSlotAt"); must(sl->GetColor(x), "slot colour"); put(x);
	IGdtfPhysicalEmitterPtr e; must(f->GetEmitterAt(0, &e), "GetEmitterAt"); must(e->GetColor(x), "emitter colour"); put(x);
	IGdtfFilterPtr fi; must(f->GetFilterAt(0, &fi), "GetFilterAt"); must(fi->GetColor(x), "filter colour"); put(x);
	IGdtfColorSpacePtr cs; must(f->GetAdditionalColorSpaceAt(0, &cs), "GetAdditionalColorSpaceAt"); must(cs->GetRed(x), "red"); put(x); must(cs->GetGreen(x), "green"); put(x); must(cs->GetBlue(x), "blue"); put(x); must(cs->GetWhite(x), "white"); put(x);
	IGdtfGamutPtr g; must(f->GetGamutAt(0, &g), "GetGamutAt"); size_t n = 0; must(g->GetPointCount(n), "GetPointCount"); for (size_t i = 0; i < n; i++) { must(g->GetPointAt(i, x), "GetPointAt"); put(x); }
	return v;
}
static const char* kNames[] = {"attribute", "wheel slot", "emitter", "filter", "red", "green", "blue", "white", "gamut point 0", "gamut point 1", "gamut point 2"};
static void gdtfDoc(Src& s, Ctx& c)
{
	size_t pts = 1 + s.draw(3); std::vector<CieColor> want; for (size_t i = 0; i < 8 + pts; i++) want.push_back(colour(s)); c.nontrivial = true; str log; for (auto& k : want) log += show(k) + " "; c.sample = log;
	IGdtfFixturePtr f(IID_IGdtfFixture); must(f->OpenForWrite("Name", "Maker", MvrUUID(1, 2, 3, 4)), "OpenForWrite");
	IGdtfAttributePtr a; must(f->CreateAttribute("Dimmer", "Dimmer", &a), "CreateAttribute"); must(a->SetColor(want[0]), "SetColor");
	IGdtfWheelPtr w; must(f->CreateWheel("Wheel", &w), "CreateWheel"); IGdtfWheelSlotPtr sl; must(w->CreateWheelSlot("Slot", &sl), "CreateWheelSlot"); must(sl->SetColor(want[1]), "SetColor");
	IGdtfPhysicalEmitterPtr e; if (s.coin()) must(f->CreateEmitter("Emitter", want[2], &e), "CreateEmitter"); else { must(f->CreateEmitter("Emitter", colour(s), &e), "CreateEmitter"); must(e->SetColor(want[2]), "SetColor"); }
	IGdtfFilterPtr fi; if (s.coin()) must(f->CreateFilter("Filter", want[3], &fi), "CreateFilter"); else { must(f->CreateFilter("Filter", colour(s), &fi), "CreateFilter"); must(fi->SetColor(want[3]), "SetColor"); }
	IGdtfColorSpacePtr cs; must(f->CreateAdditionalColorSpace("Space", EGdtfColorSpace::Custom, &cs), "CreateAdditionalColorSpace");
	must(cs->SetRed(want[4]), "SetRed"); must(cs->SetGreen(want[5]), "SetGreen"); must(cs->SetBlue(want[6]), "SetBlue"); must(cs->SetWhite(want[7]), "SetWhite");
	IGdtfGamutPtr g; must(f->CreateGamut("Gamut", want[8], &g), "CreateGamut"); size_t n = 0; must(g->GetPointCount(n), "GetPointCount"); if (n == 0) must(g->CreatePoint(want[8]), "CreatePoint");
	for (size_t i = 9; i < want.size(); i++) must(g->CreatePoint(want[i]), "CreatePoint");
	std::vector<CieColor> got = colours(f); c.eq(got.size(), want.size(), "document", "number of colours"); for (size_t i = 0; i < want.size(); i++) same(c, str(kNames[i]) + " as set", got[i], want[i], true);
	must(f->Close(), "Close"); size_t len = 0; must(f->GetBufferLength(len), "GetBufferLength"); std::vector<char> buf(len); must(f->ToBuffer(buf.data()), "ToBuffer");
	IGdtfFixturePtr r(IID_IGdtfFixture); must(r->FromBuffer(buf.data(), len), "FromBuffer"); got = colours(r); c.eq(got.size(), want.size(), "document", "number of colours read"); for (size_t i = 0; i < want.size(); i++) same(c, str(kNames[i]) + " as read", got[i], want[i], false);
}
static void mvrDoc(Src& s, Ctx& c)
{
	size_t n = 1 + s.draw(4); std::vector<CieColor> want; str log; for (size_t i = 0; i < n; i++) { want.push_back(colour(s)); log += show(want[i]) + " "; } c.nontrivial = true; c.sample = log;
	typedef IMediaRessourceVectorInterfacePtr Mvr; str path = c.scratch + "/c.mvr";
	Mvr m(IID_MediaRessourceVectorInterface); must(m->OpenForWrite(path.c_str()), "OpenForWrite"); ISceneObjPtr l; must(m->CreateLayerObject(MvrUUID(9, 9, 9, 9), "Layer", &l), "CreateLayerObject");
	for (size_t i = 0; i < n; i++) { STransformMatrix t{}; t.ux = t.vy = t.wz = 1; ISceneObjPtr f; must(m->CreateFixture(MvrUUID(1, 2, 3, (Uint32) i), t, "F", l, &f), "CreateFixture"); must(f->SetColor(want[i]), "SetColor"); CieColor x; must(f->GetColor(x), "GetColor"); same(c, fmt("fixture %zu as set", i), x, want[i], true); }
	must(m->Close(), "Close"); Mvr r(IID_MediaRessourceVectorInterface); must(r->OpenForRead(path.c_str()), "OpenForRead");
	ISceneObjPtr q; must(r->GetFirstLayer(&q), "GetFirstLayer"); ISceneObjPtr o; must(r->GetFirstChild(q, &o), "GetFirstChild");
	for (size_t i = 0; i < n; i++) { CieColor x; must(o->GetColor(x), "GetColor"); same(c, fmt("fixture %zu as read", i), x, want[i], false); if (i + 1 < n) { ISceneObjPtr k; must(r->GetNextObject(o, &k), "GetNextObject"); o = k; } }
}
VP_SUITE {
	s.property = "V03"; s.rule = "conversions of finite colours, whole lines of RGB colours, colour objects with at least one operation, documents with colours";
	s.quickCases = 60000; s.thoroughCases = 3000000; s.batch = 100; s.cpuLimit = 20; s.wallLimit = 60;
	s.props = {{"to-rgb", 40, toRgb}, {"to-cie-and-back", 20, lines}, {"rgb-object", 20, parts}, {"gdtf-document", 10, gdtfDoc}, {"mvr-document", 10, mvrDoc}};
}
