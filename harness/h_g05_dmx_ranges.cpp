// G05: channel functions and channel sets tile the DMX range of their channel, at every moment of building, after saving and after reading.
#include "gdtf_file.h"
#include "Include/IMediaRessourceVectorInterface.h"
using namespace gdtf;
typedef uint64_t u64;

struct Set { str name; u64 from, to; IGdtfDmxChannelSetPtr p; };
struct Fun { str name; u64 from = 0, def = 0; std::vector<Set> sets; IGdtfDmxChannelFunctionPtr p; u64 planFrom = 0, planDef = 0; std::vector<Set> plan; bool placed = false, deflt = false; };
struct Log { str attr; std::vector<Fun> funs; IGdtfDmxLogicalChannelPtr p; size_t made = 0; bool created = false; };
struct Chan { int off[4] = {0, 0, 0, 0}, planOff[4] = {0, 0, 0, 0}; std::vector<Log> logs; IGdtfDmxChannelPtr p; bool created = false; };
static int resOfOffsets(const int* o) { return !o[0] ? 2 : !o[1] ? 1 : !o[2] ? 2 : !o[3] ? 3 : 4; }
static u64 endOf(const std::vector<u64>& starts, size_t i, int res) { return i + 1 < starts.size() && starts[i + 1] > starts[i] ? starts[i + 1] - 1 : maxFor(res); }

// n increasing starts beginning at 0 with room for sets
static std::vector<u64> genStarts(vp::Src& s, size_t n, int res, bool equal)
{
	u64 mx = maxFor(res); std::set<u64> o = {0}; for (size_t k = 0; o.size() < n && k < 4 * n; k++) switch (s.draw(4)) { case 0: o.insert(s.draw(std::min<u64>(mx, 2 * n + 4) + 1)); break; case 1: o.insert(mx - s.draw(std::min<u64>(mx, n + 4))); break; case 2: o.insert(std::min<u64>(mx, (1ull << s.draw(8 * res)) + s.draw(3))); break; default: o.insert(s.draw(mx + 1)); }
	std::vector<u64> v(o.begin(), o.end()); if (equal) for (size_t i = 1; i < v.size(); i++) if (s.chance(30)) v[i] = v[i - 1]; return v;
}
// ordered sets within [a,b], with gaps between them
static std::vector<Set> genSets(vp::Src& s, u64 a, u64 b, size_t most)
{
	std::vector<Set> o; u64 at = a; size_t n = s.draw(most + 1);
	for (size_t i = 0; i < n && at <= b; i++) { u64 room = b - at, gap = s.chance(60) ? 0 : s.draw(std::min<u64>(room, s.coin() ? 3 : room / 2 + 1) + 1), from = at + gap; u64 left = b - from, len = s.chance(20) ? left : s.draw(std::min<u64>(left, s.coin() ? 4 : left / (n - i) + 1) + 1); o.push_back({fmt("s%zu", i), from, from + len, {}}); at = from + len + 1; if (!at) break; }
	return o;
}
static const char* kAttr[] = {"A0", "A1", "A2", "A3", "A4", "A5", "A6", "A7", "A8"};

static u64 val(IGdtfDmxChannelFunction* f, int what) { DmxValue v = 0xABABABABABull; int rc = what == 0 ? f->GetStartAddress(v) : what == 1 ? f->GetEndAddress(v) : f->GetDefaultValue(v); must(rc, "address getter"); return v; }
static u64 setFrom(IGdtfDmxChannelSet* z) { DmxValue v = 0xABABABABABull; must(z->GetDmxStartAddress(v), "GetDmxStartAddress"); return v; }
static u64 setTo(IGdtfDmxChannelSet* z) { DmxValue v = 0xABABABABABull; must(z->GetDmxEndAddress(v), "GetDmxEndAddress"); return v; }
static str setText(const std::vector<Set>& v) { str o; for (auto& x : v) o += fmt(" %s[%llu-%llu]", x.name.c_str(), (unsigned long long) x.from, (unsigned long long) x.to); return o; }
static std::vector<Set> setsOf(IGdtfDmxChannelFunction* f)
{
	std::vector<Set> o; size_t n = 0; must(f->GetDmxChannelSetCount(n), "GetDmxChannelSetCount");
	for (size_t i = 0; i < n; i++) { IGdtfDmxChannelSetPtr z; must(f->GetDmxChannelSetAt(i, &z), "GetDmxChannelSetAt"); o.push_back({S(z->GetName()), setFrom(z), setTo(z), {}}); }
	return o;
}
static bool equalSets(const std::vector<Set>& a, const std::vector<Set>& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (a[i].name != b[i].name || a[i].from != b[i].from || a[i].to != b[i].to) return false; return true; }
// the given sets with the gaps of [a,b] covered
static std::vector<Set> covered(std::vector<Set> v, u64 a, u64 b)
{
	if (v.empty()) return v; std::sort(v.begin(), v.end(), [](const Set& x, const Set& y) { return x.from < y.from; }); std::vector<Set> o; u64 at = a;
	for (auto& x : v) { if (x.from > at) o.push_back({"", at, x.from - 1, {}}); o.push_back({x.name, x.from, x.to, {}}); at = x.to + 1; }
	if (at <= b) o.push_back({"", at, b, {}}); return o;
}
struct Model {
	std::vector<Chan> ch; vp::Ctx& c; str log;
	explicit Model(vp::Ctx& c) : c(c) {}
	std::vector<u64> starts(const Log& l) { std::vector<u64> o; for (size_t i = 0; i < l.made; i++) o.push_back(l.funs[i].from); return o; }
	// everything the interface says about what is built so far
	void now(IGdtfDmxMode* m, bool saved, const str& when)
	{
		size_t n = 0, made = 0; for (auto& x : ch) made += x.created; must(m->GetDmxChannelCount(n), "GetDmxChannelCount"); c.eq(n, made, "count", "number of channels " + when); size_t ci = 0;
		for (auto& x : ch) if (x.created) {
			IGdtfDmxChannelPtr d; must(m->GetDmxChannelAt(ci, &d), "GetDmxChannelAt"); size_t li = 0, ln = 0; must(d->GetLogicalChannelCount(ln), "GetLogicalChannelCount"); int res = resOfOffsets(x.off); size_t want = 0; for (auto& l : x.logs) want += l.created; c.eq(ln, want, "count", "number of logical channels " + when);
			for (auto& l : x.logs) if (l.created) {
				IGdtfDmxLogicalChannelPtr lp; must(d->GetLogicalChannelAt(li, &lp), "GetLogicalChannelAt"); size_t fn = 0; must(lp->GetDmxFunctionCount(fn), "GetDmxFunctionCount"); c.eq(fn, l.made, "count", "number of functions " + when); std::vector<u64> st = starts(l);
				for (size_t i = 0; i < l.made; i++) {
					Fun& f = l.funs[i]; IGdtfDmxChannelFunctionPtr fp; must(lp->GetDmxFunctionAt(i, &fp), "GetDmxFunctionAt"); str at = fmt("function %zu of channel %zu, logical channel %zu (%d bytes) ", i, ci, li, res) + when; u64 e = endOf(st, i, res);
					c.eq(val(fp, 0), f.from, "start", "start of " + at); c.eq(val(fp, 1), e, "end", "end of " + at); c.eq(val(fp, 2), f.def, "default", "default of " + at); if (f.p) c.eq(val(f.p, 1), e, "end", "end (kept object) of " + at);
					EGdtfChannelBitResolution r = (EGdtfChannelBitResolution) 0; must(fp->GetResolution(r), "GetResolution"); c.eq((int) r, res, "resolution", "resolution of " + at);
					std::vector<Set> w; for (auto& z : f.sets) w.push_back({z.name, z.from, z.to, {}}); if (saved) w = covered(w, f.from, e); std::vector<Set> g = setsOf(fp); if (!equalSets(g, w)) c.fail(saved ? "sets-saved" : "sets", "channel sets of " + at + ":" + setText(g) + ", expected" + setText(w));
					for (auto& z : f.sets) if (z.p) { c.eq(setFrom(z.p), z.from, "set-start", "start of a kept set of " + at); c.eq(setTo(z.p), z.to, "set-end", "end of a kept set of " + at); }
				}
				li++;
			}
			ci++;
		}
	}
};
static void build(vp::Src& s, vp::Ctx& c)
{
	Model M(c); size_t nc = 1 + s.draw(3); bool equal = s.chance(25), multi = false; size_t nextAttr = 0; int nextOff = 1;
	for (size_t i = 0; i < nc; i++) {
		M.ch.emplace_back(); Chan& x = M.ch.back(); int res = (int) s.draw(5); for (int k = 0; k < res; k++) x.planOff[k] = nextOff++; int r = resOfOffsets(x.planOff); size_t nl = 1 + s.draw(3);
		for (size_t j = 0; j < nl && nextAttr < 9; j++) {
			x.logs.emplace_back(); Log& l = x.logs.back(); l.attr = kAttr[nextAttr++]; size_t nf = s.chance(5) ? 20 + s.draw(20) : 1 + s.draw(6); std::vector<u64> st = nf ? genStarts(s, nf, r, equal) : std::vector<u64>(); multi |= st.size() > 1;
			for (size_t q = 0; q < st.size(); q++) { Fun f; f.name = fmt("f%zu", q); f.planFrom = st[q]; f.planDef = s.draw(maxFor(r) + 1); f.plan = genSets(s, st[q], endOf(st, q, r), s.chance(3) ? 140 : 5); l.funs.push_back(f); }
		}
	}
	IGdtfFixturePtr f = newFixture(); MvrUUID id(1, 2, 3, 4); str path = c.scratch + "/o.gdtf"; must(f->OpenForWrite(path.c_str(), "F", "M", id), "OpenForWrite");
	IGdtfFeatureGroupPtr fg; must(f->CreateFeatureGroup("F", "F", &fg), "CreateFeatureGroup"); IGdtfFeaturePtr fe; must(fg->CreateFeature("F", &fe), "CreateFeature"); std::map<str, IGdtfAttributePtr> at; for (auto a : kAttr) { IGdtfAttributePtr p; must(f->CreateAttribute(a, a, &p), "CreateAttribute"); must(p->SetFeature(fe), "SetFeature"); at[a] = p; }
	IGdtfGeometryPtr g; STransformMatrix mat = toMat(kIdent); must(f->CreateGeometry((EGdtfObjectType) 9, "G", nullptr, mat, &g), "CreateGeometry"); IGdtfDmxModePtr m; must(f->CreateDmxMode("M", &m), "CreateDmxMode"); must(m->SetGeometry(g), "SetGeometry");
	// the planned steps in any order their dependencies allow, with passing values in between
	size_t steps = 0;
	while (true) {
		std::vector<std::pair<int, std::vector<size_t>>> todo;
		for (size_t i = 0; i < M.ch.size(); i++) {
			Chan& x = M.ch[i]; if (!x.created) { todo.push_back({0, {i, 0, 0, 0}}); break; } for (size_t k = 0; k < 4; k++) if (x.off[k] != x.planOff[k]) todo.push_back({1, {i, k, 0, 0}});
			for (size_t j = 0; j < x.logs.size(); j++) {
				Log& l = x.logs[j]; if (!l.created) { todo.push_back({2, {i, j, 0, 0}}); break; } if (l.made < l.funs.size()) todo.push_back({3, {i, j, l.made, 0}});
				for (size_t q = 0; q < l.made; q++) { Fun& u = l.funs[q]; if (!u.placed) todo.push_back({4, {i, j, q, 0}}); if (!u.deflt) todo.push_back({5, {i, j, q, 0}}); if (u.sets.size() < u.plan.size()) todo.push_back({6, {i, j, q, 0}}); }
			}
		}
		if (todo.empty()) break;
		auto t = todo[s.draw(todo.size())]; size_t i = t.second[0], j = t.second[1], q = t.second[2]; Chan& x = M.ch[i]; steps++;
		switch (t.first) {
			case 0: must(m->CreateDmxChannel(g, &x.p), "CreateDmxChannel"); x.created = true; break;
			case 1: { int v = s.chance(20) ? (int) s.draw(3) : x.planOff[j]; int rc = j == 0 ? x.p->SetCoarse(v) : j == 1 ? x.p->SetFine(v) : j == 2 ? x.p->SetUltra(v) : x.p->SetUber(v); must(rc, "offset setter"); x.off[j] = v; break; }
			case 2: must(x.p->CreateLogicalChannel(at[x.logs[j].attr], &x.logs[j].p), "CreateLogicalChannel"); x.logs[j].created = true; break;
			case 3: { Fun& u = x.logs[j].funs[q]; must(x.logs[j].p->CreateDmxFunction(u.name.c_str(), &u.p), "CreateDmxFunction"); must(u.p->SetAttribute(at[x.logs[j].attr]), "SetAttribute"); x.logs[j].made++; break; }
			case 4: { Fun& u = x.logs[j].funs[q]; u.placed = !s.chance(20); u.from = u.placed ? u.planFrom : s.draw(maxFor(4) + 1); must(u.p->SetStartAddress(u.from), "SetStartAddress"); break; }
			case 5: { Fun& u = x.logs[j].funs[q]; u.deflt = !s.chance(10); u.def = u.deflt ? u.planDef : s.draw(1000); must(u.p->SetDefaultValue(u.def), "SetDefaultValue"); break; }
			case 6: { Fun& u = x.logs[j].funs[q]; std::vector<size_t> left; for (size_t k = 0; k < u.plan.size(); k++) { bool done = false; for (auto& z : u.sets) done |= z.name == u.plan[k].name; if (!done) left.push_back(k); } Set z = u.plan[left[s.chance(70) ? 0 : s.draw(left.size())]]; must(u.p->CreateDmxChannelSet(z.name.c_str(), z.from, z.to, &z.p), "CreateDmxChannelSet"); u.sets.push_back(z); break; }
		}
		if (steps < 60 || s.chance(5)) M.now(m, false, "while building");
	}
	M.now(m, false, "when built"); c.nontrivial = multi; str sm; for (auto& x : M.ch) { sm += fmt("%d bytes:", resOfOffsets(x.off)); for (auto& l : x.logs) { sm += " ("; for (auto& u : l.funs) sm += fmt(" %llu", (unsigned long long) u.from) + setText(u.sets); sm += ")"; } sm += "; "; } c.sample = sm;
	must(f->Close(), "Close"); M.now(m, true, "of the saved object");
	for (auto& x : M.ch) { x.p = nullptr; for (auto& l : x.logs) { l.p = nullptr; for (auto& u : l.funs) { u.p = nullptr; for (auto& z : u.sets) z.p = nullptr; } } }
	IGdtfFixturePtr r = newFixture(); must(r->ReadFromFile(path.c_str()), "ReadFromFile"); if (!equal) noErrors(r); IGdtfDmxModePtr rm; must(r->GetDmxModeAt(0, &rm), "GetDmxModeAt"); M.now(rm, true, "after reading");
}
// --------------------------------------------------------------------------------------------------------------------------------------------------------
static E mini(vp::Src& s)
{
	GenOpt o; o.size = 0; o.wheels = o.physical = o.geometry = o.protocols = false; Gen g(s, o); E t = g.run();
	E ad("AttributeDefinitions"), fg("FeatureGroups"), at("Attributes"); E& grp = fg.add("FeatureGroup"); grp.set("Name", "F"); grp.set("Pretty", "F"); grp.add("Feature").set("Name", "F");
	for (const char* n : kAttr) { E& a = at.add("Attribute"); a.set("Name", n); a.set("Pretty", n); a.set("Feature", "F.F"); a.set("PhysicalUnit", "None"); }
	ad.kids = {E("ActivationGroups"), fg, at}; *t.kid("AttributeDefinitions") = ad; E ge("Geometries"); E& ge1 = ge.add("Geometry"); ge1.set("Name", "G"); ge1.set("~Position", kIdent); *t.kid("Geometries") = ge;
	E ms("DMXModes"); E& m = ms.add("DMXMode"); m.set("Name", "M"); m.set("Description", ""); m.set("Geometry", "G"); m.add("DMXChannels"); m.add("Relations"); m.add("FTMacros"); *t.kid("DMXModes") = ms; return t;
}
static void readProp(vp::Src& s, vp::Ctx& c)
{
	E t = mini(s); E root = toFile(t, &s); E* m = nullptr; for (auto& k : root.kids[0].kids) if (k.name == "DMXModes") m = &k.kids[0]; E* dc = m ? m->kid("DMXChannels") : nullptr; if (!dc) { dc = &m->add("DMXChannels"); }
	Model M(c); size_t nc = 1 + s.draw(3), nextAttr = 0; int nextOff = 1; size_t wrongStart = 0, wrongSet = 0; bool odd = false, multi = false; dc->kids.clear();
	for (size_t i = 0; i < nc; i++) {
		M.ch.emplace_back(); Chan& x = M.ch.back(); x.created = true; int res = (int) s.draw(5); str off; for (int k = 0; k < res; k++) { x.off[k] = nextOff++; off += (k ? "," : "") + itext(x.off[k]); } int r = resOfOffsets(x.off); size_t nl = 1 + s.draw(2);
		E& ce = dc->add("DMXChannel"); ce.set("DMXBreak", "1"); ce.set("Offset", off); ce.set("Highlight", "None"); ce.set("Geometry", "G"); bool squeeze = !res && s.chance(60);
		for (size_t j = 0; j < nl && nextAttr < 9; j++) {
			x.logs.emplace_back(); Log& l = x.logs.back(); l.created = true; l.attr = kAttr[nextAttr++]; E& le = ce.add("LogicalChannel"); le.set("Attribute", l.attr); size_t nf = s.chance(3) ? 130 + s.draw(20) : 1 + s.draw(5); std::vector<u64> st = genStarts(s, nf, r, false); multi |= st.size() > 1;
			if (s.chance(12)) { wrongStart++; odd = true; }; bool wrong = odd && wrongStart && s.coin(); (void) wrong;
			for (size_t q = 0; q < st.size(); q++) {
				Fun u; u.name = fmt("f%zu", q); u.from = st[q]; u.def = s.draw(maxFor(r) + 1); E fe("ChannelFunction"); fe.set("Name", u.name); fe.set("Attribute", l.attr); fe.set("DMXFrom", dmxText(u.from, r)); fe.set("Default", dmxText(u.def, r)); u64 e = endOf(st, q, r);
				std::vector<Set> v = genSets(s, u.from, e, s.chance(2) ? 200 : 6), kept;
				if (squeeze) {
					// a virtual channel of the old format: four bytes, several sets on one value of two bytes
					std::vector<u64> w; u64 at = s.chance(30) ? 65520 + s.draw(16) : u.from + s.draw(std::max<u64>(1, std::min<u64>(e - u.from, 400))); size_t n = s.draw(s.chance(10) ? 60 : 8);
					for (size_t k = 0; k < n; k++) { u64 val4 = std::min<u64>(at, 65535) << 16 | s.draw(65536); w.push_back(val4 >> 16); E& z = fe.add("ChannelSet"); z.set("Name", fmt("s%zu", k)); z.set("DMXFrom", fmt("%llu/4s", (unsigned long long) val4)); z.set("WheelSlotIndex", "0"); at += s.chance(60) ? 0 : s.draw(3); }
					for (size_t k = 1; k < n; k++) w[k] = std::max(w[k], w[k - 1] + 1);
					for (size_t k = n; k-- > 0; ) w[k] = std::min<u64>(w[k], k + 1 < n ? w[k + 1] - 1 : 65535);
					for (size_t k = 0; k < n; k++) kept.push_back({fmt("s%zu", k), w[k], 0, {}}); odd = true;
				} else {
					std::vector<Set> file = v; size_t bad = s.chance(20) && file.size() ? 1 + s.draw(2) : 0; for (size_t k = 0; k < bad; k++) { size_t a = s.draw(file.size()); Set z = file[a]; z.name = fmt("x%zu", k); if (s.coin() && z.from) z.from -= std::min<u64>(z.from, s.draw(3)); file.insert(file.begin() + a + 1 + s.draw(file.size() - a), z); }
					u64 last = 0; for (size_t k = 0; k < file.size(); k++) {
						Set& z = file[k]; bool drop = !kept.empty() && z.from <= last;
						if (!res && k) { bool dup = false; for (auto& y : kept) dup |= y.from == z.from; if (dup) { file.erase(file.begin() + k); k--; continue; } }   // duplicates on a virtual channel are moved, see above
						if (drop) { wrongSet++; odd = true; } else { kept.push_back(z); last = z.from; } E& ze = fe.add("ChannelSet"); ze.set("Name", z.name); ze.set("DMXFrom", dmxText(z.from, r)); ze.set("WheelSlotIndex", "0");
					}
				}
				for (size_t k = 0; k < kept.size(); k++) kept[k].to = k + 1 < kept.size() ? kept[k + 1].from - 1 : e; u.sets = kept; le.kids.push_back(fe); l.funs.push_back(u);
			}
			l.made = l.funs.size();
		}
	}
	// a first function that does not start at 0 is reported and starts at 0
	size_t expect = 0; for (size_t i = 0; i < M.ch.size(); i++) for (size_t j = 0; j < M.ch[i].logs.size(); j++) if (s.chance(12)) { Log& l = M.ch[i].logs[j]; u64 lim = l.made > 1 ? l.funs[1].from - 1 : maxFor(resOfOffsets(M.ch[i].off)); if (!lim) continue; dc->kids[i].kids[j].kids[0].set("DMXFrom", dmxText(1 + s.draw(lim), resOfOffsets(M.ch[i].off))); expect++; odd = true; }
	c.sample = doc::render(*dc).substr(0, 1500); c.nontrivial = multi; IGdtfFixturePtr f = newFixture(); readFrom(f, container(root, s), s.coin(), c);
	size_t zero = 0, wrong = 0; for (auto& e : errors(f)) { if (atoi(e.c_str()) == 63) zero++; else if (atoi(e.c_str()) == 21) wrong++; else c.fail("other-error", "parsing error " + e); }
	c.eq(zero, expect, "zero-report", "number of functions reported as not starting with zero"); c.eq(wrong, wrongSet, "set-report", "number of channel sets reported as having a wrong value");
	IGdtfDmxModePtr dm; must(f->GetDmxModeAt(0, &dm), "GetDmxModeAt"); M.now(dm, false, "after reading");
	if (expect || s.coin()) return;
	// saved again, the ranges are the same and the gaps before the first set are covered
	must(f->RefreshBuffer(), "RefreshBuffer"); size_t n = 0; must(f->GetBufferLength(n), "GetBufferLength"); str out(n, 0); must(f->ToBuffer(&out[0]), "ToBuffer"); IGdtfFixturePtr g = newFixture(); must(g->FromBuffer(out.data(), n), "FromBuffer"); noErrors(g);
	IGdtfDmxModePtr gm; must(g->GetDmxModeAt(0, &gm), "GetDmxModeAt"); M.now(gm, true, "after saving again");
}
VP_SUITE
{
	s.property = "G05"; s.rule = "some logical channel has at least two functions"; s.quickCases = 20000; s.thoroughCases = 400000; s.batch = 20;
	s.props.push_back({"build", 3, build});
	s.props.push_back({"read", 3, readProp});
}
