// G04: DMX values scale exactly between resolutions.
#include "gdtf_file.h"
#include "Include/IMediaRessourceVectorInterface.h"
#include "XmlFileHelper.h"
using namespace gdtf;
typedef unsigned __int128 u128;

// what the format says the text v/n (shift: v/ns) is on a channel of r bytes
static uint64_t model(uint64_t v, int n, bool shift, int r)
{
	if (n == r) return v;
	if (shift) return r > n ? v << (8 * (r - n)) : v >> (8 * (n - r));
	if (r % n == 0) { uint64_t o = 0; for (int i = 0; i < r / n; i++) o = (o << (8 * n)) | v; return o; }   // the byte pattern repeated
	u128 num = (u128) v * maxFor(r) * 2 + maxFor(n); return (uint64_t) (num / ((u128) maxFor(n) * 2));     // proportional, to the nearest
}
// the two nearest values if the proportional value lies in the middle of them (within the precision of the division)
static bool accepts(uint64_t got, uint64_t v, int n, bool shift, int r)
{
	if (shift || n == r || r % n == 0) return got == model(v, n, shift, r);
	long double x = (long double) v * maxFor(r) / maxFor(n), d = (long double) got - x; return (d < 0 ? -d : d) <= 0.5L + 1e-6L;
}
static uint64_t genVal(vp::Src& s, int n)
{
	uint64_t m = maxFor(n);
	switch (s.draw(8)) { case 0: return 0; case 1: return m; case 2: return s.draw(std::min<uint64_t>(m, 300) + 1); case 3: return m - s.draw(std::min<uint64_t>(m, 300) + 1); case 4: return 1ull << s.draw(8 * n); case 5: return (1ull << s.draw(8 * n)) - 1; case 6: { uint64_t b = s.draw(256), o = 0; for (int i = 0; i < n; i++) o = (o << 8) | b; if (s.coin()) o = s.coin() ? std::min(m, o + 1) : o ? o - 1 : 0; return o; } default: return s.draw(m + 1); }
}
static str form(uint64_t v, int n, bool shift) { return utext(v) + "/" + fmt("%d", n) + (shift ? "s" : ""); }
static uint64_t conv(vp::Ctx& c, uint64_t v, int n, bool shift, int r)
{
	DmxValue o = 0xABABABABABull; str t = form(v, n, shift); bool ok = SceneData::GdtfConverter::ConvertDMXValue_UnitTest(t.c_str(), (EGdtfChannelBitResolution) r, o);
	c.check(ok, "refused", t + fmt(" refused for %d bytes", r)); return (uint64_t) o;
}
static void one(vp::Ctx& c, uint64_t v, int n, bool shift, int r)
{
	uint64_t g = conv(c, v, n, shift, r); str t = form(v, n, shift);
	if (!accepts(g, v, n, shift, r)) c.fail(n == r ? "same" : shift ? "shifted" : r % n == 0 ? "repeated" : "scaled", fmt("%s on %d bytes: got %llu, expected %llu", t.c_str(), r, (unsigned long long) g, (unsigned long long) model(v, n, shift, r)));
	c.check(g <= maxFor(r), "range", fmt("%s on %d bytes: %llu exceeds the channel", t.c_str(), r, (unsigned long long) g));
}
static void values(vp::Src& s, vp::Ctx& c)
{
	int n = (int) s.range(1, 4), r = (int) s.range(1, 4); bool shift = s.coin(); c.nontrivial = n != r; size_t k = 50 + s.draw(100); std::vector<uint64_t> vs;
	for (size_t i = 0; i < k; i++) vs.push_back(genVal(s, n));
	c.sample = fmt("%d to %d bytes%s, %zu values: ", n, r, shift ? " shifted" : "", k); for (size_t i = 0; i < k && i < 8; i++) c.sample += utext(vs[i]) + " ";
	std::sort(vs.begin(), vs.end()); uint64_t last = 0;
	for (uint64_t v : vs) { one(c, v, n, shift, r); uint64_t g = conv(c, v, n, shift, r); c.check(g >= last, "monotonic", fmt("%s gives less than a smaller value", form(v, n, shift).c_str())); last = g; if (r >= n) c.eq(conv(c, g, r, shift, n), v, "there-and-back", fmt("%s to %d bytes and back", form(v, n, shift).c_str(), r)); }
}
// every value of one and two bytes, in blocks
static void block(vp::Src& s, vp::Ctx& c)
{
	int n = s.chance(70) ? 2 : 1, r = (int) s.range(1, 4); bool shift = s.coin(); uint64_t a = n == 1 ? 0 : s.draw(64) * 1024, b = n == 1 ? 255 : a + 1023, last = 0; c.sample = fmt("%llu to %llu of %d on %d bytes%s", (unsigned long long) a, (unsigned long long) b, n, r, shift ? " shifted" : ""); c.nontrivial = n != r;
	for (uint64_t v = a; v <= b; v++) { one(c, v, n, shift, r); uint64_t g = conv(c, v, n, shift, r); c.check(g >= last, "monotonic", "not monotonic at " + form(v, n, shift)); last = g; }
}

struct Slot { E* e; str attr; int res; str want; };
// a fixture with two channels; the places a DMX value can stand in
static E fixture(vp::Src& s, int r1, int r2)
{
	GenOpt o; o.size = 0; o.wheels = o.physical = o.geometry = o.protocols = false; Gen g(s, o); E t = g.run();
	E ad("AttributeDefinitions"), fg("FeatureGroups"), at("Attributes"); E& grp = fg.add("FeatureGroup"); grp.set("Name", "F"); grp.set("Pretty", "F"); grp.add("Feature").set("Name", "F");
	for (const char* n : {"A", "B"}) { E& a = at.add("Attribute"); a.set("Name", n); a.set("Pretty", n); a.set("Feature", "F.F"); a.set("PhysicalUnit", "None"); }
	ad.kids = {E("ActivationGroups"), fg, at}; *t.kid("AttributeDefinitions") = ad;
	E ge("Geometries"); E& ge1 = ge.add("Geometry"); ge1.set("Name", "G"); ge1.set("~Position", kIdent); *t.kid("Geometries") = ge;
	E ms("DMXModes"); E& m = ms.add("DMXMode"); m.set("Name", "M"); m.set("Description", ""); m.set("Geometry", "G"); E& ch = m.add("DMXChannels");
	int next = 1;
	for (int i = 0; i < 2; i++) {
		int r = i ? r2 : r1; E& c = ch.add("DMXChannel"); c.set("DMXBreak", "1"); str off; for (int j = 0; j < r; j++) off += (j ? "," : "") + itext(next++); c.set("Offset", off); c.set("Highlight", "None"); c.set("Geometry", "G");
		E& l = c.add("LogicalChannel"); l.set("Attribute", i ? "B" : "A"); for (auto& a : logTab()) l.set(a.name, a.def);
		for (int q = 0; q < 2; q++) { E& f = l.add("ChannelFunction"); f.set("Name", q ? "f2" : "f1"); f.set("Attribute", i ? "B" : "A"); f.set("DMXFrom", dmxText(0, r)); f.set("Default", dmxText(0, r)); for (auto& a : funTab()) f.set(a.name, a.def); }
		c.set("InitialFunction", chanName(c) + "." + (i ? "B" : "A") + ".f1");
	}
	m.add("Relations"); E& mac = m.add("FTMacros").add("FTMacro"); mac.set("Name", "X"); E& st = mac.add("MacroDMX").add("MacroDMXStep"); st.set("Duration", "1"); E& v1 = st.add("MacroDMXValue"); v1.set("DMXChannel", "G_A"); v1.set("Value", "0/1");
	E& vs = mac.add("MacroVisual").add("MacroVisualStep"); for (auto& a : visStepTab()) vs.set(a.name, a.def); E& v2 = vs.add("MacroVisualValue"); v2.set("ChannelFunction", "G_B.B.f2"); v2.set("Value", "0/1");
	*t.kid("DMXModes") = ms; return t;
}
static std::pair<str, uint64_t> genText(vp::Src& s, int r)
{
	int n = (int) s.range(1, 4); bool sh = s.coin(); uint64_t v = genVal(s, n), m = model(v, n, sh, r);
	if (accepts(m + 1, v, n, sh, r) || (m && accepts(m - 1, v, n, sh, r))) { v = 0; m = 0; }   // too close to the middle of two values
	return {form(v, n, sh), m};
}
static void inFile(vp::Src& s, vp::Ctx& c)
{
	int r1 = (int) s.range(1, 4), r2 = (int) s.range(1, 4); E t = fixture(s, r1, r2); E root = toFile(t, nullptr); E& m = root.kids[0].kid("DMXModes")->kids[0]; E* ch[2] = {&m.kid("DMXChannels")->kids[0], &m.kid("DMXChannels")->kids[1]}; int rr[2] = {r1, r2};
	uint64_t hl[2], def[2][2], from[2], set[2] = {0, 0}, mf[2], mt[2], mv, vv; bool sets[2], master = s.chance(70), byFun = s.coin();
	for (int i = 0; i < 2; i++) {
		auto p = genText(s, rr[i]); ch[i]->set("Highlight", p.first); hl[i] = p.second; E& l = ch[i]->kids[0];
		for (int q = 0; q < 2; q++) { p = genText(s, rr[i]); l.kids[q].set("Default", p.first); def[i][q] = p.second; l.kids[q].kids.clear(); }
		do p = genText(s, rr[i]); while (p.second < 2 && !s.chance(5)); if (p.second < 2) p = {form(2, 1, true), model(2, 1, true, rr[i])};
		l.kids[1].set("DMXFrom", p.first); from[i] = p.second; l.kids[0].set("DMXFrom", s.oneof<const char*>({"0/1", "0/2", "0/4s", "0/3"}));
		sets[i] = s.coin(); if (sets[i]) { p = genText(s, rr[i]); if (p.second < from[i] + 2) p = {l.kids[1].val("DMXFrom"), from[i]}; set[i] = p.second; E& cs = l.kids[1].add("ChannelSet"); cs.set("Name", "s"); cs.set("DMXFrom", p.first); cs.set("WheelSlotIndex", "0"); }
	}
	str mm = byFun ? "G_A.A.f2" : "G_A"; auto a = genText(s, r1), b = genText(s, r1); mf[0] = a.second; mt[0] = b.second; if (master) { E& f = ch[1]->kids[0].kids[1]; f.set("ModeMaster", mm); f.set("ModeFrom", a.first); f.set("ModeTo", b.first); }
	E& mac = m.kid("FTMacros")->kids[0]; auto x = genText(s, r1), y = genText(s, r2); mac.kid("MacroDMX")->kids[0].kids[0].set("Value", x.first); mac.kid("MacroVisual")->kids[0].kids[0].set("Value", y.first); mv = x.second; vv = y.second;
	c.sample = doc::render(m); c.nontrivial = true;
	IGdtfFixturePtr f = newFixture(); readFrom(f, container(root, s), s.coin(), c); noErrors(f);
	auto cmp = [&](DmxValue got, uint64_t want, const char* what) { if (got != want) c.fail(str("file-") + what, fmt("%s: got %llu, expected %llu", what, (unsigned long long) got, (unsigned long long) want)); };
	IGdtfDmxModePtr md; must(f->GetDmxModeAt(0, &md), "GetDmxModeAt"); IGdtfDmxChannelPtr c0;
	for (int i = 0; i < 2; i++) {
		IGdtfDmxChannelPtr d; must(md->GetDmxChannelAt(i, &d), "GetDmxChannelAt"); if (!i) c0 = d; DmxValue v = 7; must(d->GetHighlight(v), "GetHighlight"); cmp(v, hl[i], "Highlight"); IGdtfDmxLogicalChannelPtr l; must(d->GetLogicalChannelAt(0, &l), "GetLogicalChannelAt");
		for (int q = 0; q < 2; q++) {
			IGdtfDmxChannelFunctionPtr fn; must(l->GetDmxFunctionAt(q, &fn), "GetDmxFunctionAt"); must(fn->GetDefaultValue(v), "GetDefaultValue"); cmp(v, def[i][q], "Default"); must(fn->GetStartAddress(v), "GetStartAddress"); cmp(v, q ? from[i] : 0, "DMXFrom"); must(fn->GetEndAddress(v), "GetEndAddress");
			if (q) c.eq((uint64_t) v, maxFor(rr[i]), "file-end", "end of the last function"); else cmp(v, from[i] - 1, "first-end");
			if (q && sets[i]) { IGdtfDmxChannelSetPtr z; must(fn->GetDmxChannelSetAt(0, &z), "GetDmxChannelSetAt"); must(z->GetDmxStartAddress(v), "GetDmxStartAddress"); cmp(v, set[i], "ChannelSet"); }
			if (q && i && master) { DmxValue p = 7, w = 7; IGdtfDmxChannelPtr mc; IGdtfDmxChannelFunctionPtr mfu; if (byFun) must(fn->GetModeMasterFunction(&mfu, p, w), "GetModeMasterFunction"); else must(fn->GetModeMasterChannel(&mc, p, w), "GetModeMasterChannel"); cmp(p, mf[0], "ModeFrom"); cmp(w, mt[0], "ModeTo"); }
		}
	}
	IGdtfMacroPtr mp; must(md->GetDmxMacroAt(0, &mp), "GetDmxMacroAt"); DmxValue v = 7; { IGdtfMacroDMXPtr d; IGdtfMacroDMXStepPtr st; IGdtfMacroDMXValuePtr q; must(mp->GetMacroDMX(&d), "GetMacroDMX"); must(d->GetStepAt(0, &st), "GetStepAt"); must(st->GetDMXValueAt(0, &q), "GetDMXValueAt"); must(q->GetDmxValue(v), "GetDmxValue"); cmp(v, mv, "MacroDMXValue"); }
	{ IGdtfMacroVisualPtr d; IGdtfMacroVisualStepPtr st; IGdtfMacroVisualValuePtr q; must(mp->GetMacroVisual(&d), "GetMacroVisual"); must(d->GetVisualStepAt(0, &st), "GetVisualStepAt"); must(st->GetVisualValueAt(0, &q), "GetVisualValueAt"); must(q->GetDmxValue(v), "GetDmxValue"); cmp(v, vv, "MacroVisualValue"); }
	// saved again, the values stay what they are
	E d1 = dump(f); must(f->RefreshBuffer(), "RefreshBuffer"); size_t n = 0; must(f->GetBufferLength(n), "GetBufferLength"); str out(n, 0); must(f->ToBuffer(&out[0]), "ToBuffer"); IGdtfFixturePtr g = newFixture(); must(g->FromBuffer(out.data(), n), "FromBuffer"); noErrors(g); same(dump(g), normalise(d1, true), "saved again");
}
// text that is no DMX value is reported; nothing out of the channel's range is taken without a report
static void malformed(vp::Src& s, vp::Ctx& c)
{
	int r = (int) s.range(1, 4), n = (int) s.range(1, 4); E t = fixture(s, r, 1); E root = toFile(t, nullptr); E& m = root.kids[0].kid("DMXModes")->kids[0]; E& ch = m.kid("DMXChannels")->kids[0];
	str v = utext(genVal(s, n)); bool must_report = true; str x;
	switch (s.draw(10)) {
		case 0: x = v; break; case 1: x = "/" + itext(n); break; case 2: x = v + "/"; break; case 3: x = v + "/" + s.oneof<const char*>({"0", "5", "6", "9", "10", "200"}) + (s.coin() ? "s" : ""); must_report = false; break;   // no such resolution: tolerated, the value stays in range
		case 4: x = "-" + v + "/" + itext(n); break;
		case 5: x = v + "/" + s.oneof<const char*>({"x", "s", "1x", "ss", "1ss", "-1", " 1", "1/1", "S"}); break; case 6: x = s.oneof<const char*>({"a", "0x10", "1e2", "None ", "1.5", " 1", "+1", "\xc3\xa9"}); x += "/" + itext(n); break;
		case 7: x = v + "/" + itext(n) + s.oneof<const char*>({"x", " ", "S", "s ", "."}); break;
		case 8: x = utext(maxFor(r) + 1 + s.draw(1000000)) + "/" + itext(r) + (s.coin() ? "s" : ""); break;
		default: { uint64_t over = maxFor(n) + 1 + s.draw(s.coin() ? 100 : 100000000000ull); x = utext(over) + "/" + itext(n) + (s.coin() ? "s" : ""); must_report = false; }
	}
	int where = (int) s.draw(3); if (where == 0) ch.set("Highlight", x); else if (where == 1) ch.kids[0].kids[0].set("Default", x); else ch.kids[0].kids[1].set("DMXFrom", x); if (where != 2) ch.kids[0].kids[1].set("DMXFrom", dmxText(maxFor(r), r));
	c.sample = fmt("%d bytes, place %d: ", r, where) + vp::quote(x); c.nontrivial = true;
	IGdtfFixturePtr f = newFixture(); readFrom(f, container(root, s), s.coin(), c); auto er = errors(f); IGdtfDmxModePtr md; must(f->GetDmxModeAt(0, &md), "GetDmxModeAt"); IGdtfDmxChannelPtr d; must(md->GetDmxChannelAt(0, &d), "GetDmxChannelAt"); IGdtfDmxLogicalChannelPtr l; must(d->GetLogicalChannelAt(0, &l), "GetLogicalChannelAt"); IGdtfDmxChannelFunctionPtr fn; must(l->GetDmxFunctionAt(where == 2, &fn), "GetDmxFunctionAt");
	DmxValue got = 0; if (where == 0) { bool has = false; must(d->HasHighlight(has), "HasHighlight"); must(d->GetHighlight(got), "GetHighlight"); } else if (where == 1) must(fn->GetDefaultValue(got), "GetDefaultValue"); else must(fn->GetStartAddress(got), "GetStartAddress");
	bool reported = false; for (auto& e : er) if (atoi(e.c_str()) == (int) EGdtfParsingError::eValueError_DmxValueHasWrongValue) reported = true;
	c.check(reported || !must_report, "not-reported", vp::quote(x) + " is no DMX value of the channel and was not reported"); c.check(reported || (uint64_t) got <= maxFor(r), "over-range", fmt("%s on %d bytes gives %llu without a parsing error", x.c_str(), r, (unsigned long long) got));
	auto other = [&](size_t i) { IGdtfDmxChannelPtr q; must(md->GetDmxChannelAt(i, &q), "GetDmxChannelAt"); }; other(1); dump(f);
}
VP_SUITE
{
	s.property = "G04"; s.rule = "the value is given in another resolution than the channel's, or in a file"; s.quickCases = 20000; s.thoroughCases = 200000;
	s.props.push_back({"values", 3, values});
	s.props.push_back({"every-value", 3, block});
	s.props.push_back({"in-file", 4, inFile});
	s.props.push_back({"malformed", 2, malformed});
}
