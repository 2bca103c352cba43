// Z04: a save that reports success has written everything; a failure of the file system is reported. The same for opening, which extracts files.
#include "gdtf_file.h"
#include "mvr_file.h"
#include "zip_util.h"
#include <sys/resource.h>
#include <sys/stat.h>
#include <signal.h>
#include <unistd.h>
using vp::Src; using vp::Ctx; using doc::E;

// no file may grow beyond n bytes
struct Limit {
	rlimit old; void (*sig)(int);
	Limit(bool on, size_t n) { getrlimit(RLIMIT_FSIZE, &old); sig = signal(SIGXFSZ, SIG_IGN); if (on) { rlimit r = old; r.rlim_cur = n; setrlimit(RLIMIT_FSIZE, &r); } }
	~Limit() { setrlimit(RLIMIT_FSIZE, &old); signal(SIGXFSZ, sig); }
};
struct Target {
	enum Kind { Plain, Over, Small, NoDir, IsDir, ReadOnly, LockedDir, Full } kind = Plain; str path, dir; size_t limit = 0; str log;
	Target(Src& s, Ctx& c, const str& ext, size_t about)
	{
		kind = (Kind) s.oneof<int>({Plain, Over, Small, Small, Small, NoDir, IsDir, ReadOnly, LockedDir, Full}); path = c.scratch + "/t" + ext;
		switch (kind) {
			case Over: case ReadOnly: vp::writeFile(path, str(s.draw(3) * about, 'o')); if (kind == ReadOnly) chmod(path.c_str(), 0444); break;
			case Small: limit = s.coin() ? s.draw(about + about / 4 + 40) : about - std::min<size_t>(about, s.draw(70)); break;
			case NoDir: path = c.scratch + "/none/t" + ext; break;
			case IsDir: mkdir(path.c_str(), 0777); break;
			case LockedDir: dir = c.scratch + "/locked"; mkdir(dir.c_str(), 0777); path = dir + "/t" + ext; chmod(dir.c_str(), 0555); break;
			case Full: if (symlink("/dev/full", path.c_str())) throw vp::Discard{}; break;
			default: break;
		}
		static const char* n[] = {"plain", "overwrite", "limit", "no folder", "is a folder", "read only", "locked folder", "full device"}; log = n[kind]; if (kind == Small) log += fmt(" %zu of about %zu", limit, about); c.label(n[kind]);
	}
	~Target() { if (!dir.empty()) chmod(dir.c_str(), 0777); }
	bool sound() const { return kind == Plain || kind == Over; }
};
static str fileOrNothing(const str& p) { struct stat st; return stat(p.c_str(), &st) == 0 && S_ISREG(st.st_mode) ? vp::readFile(p) : str("\x01nothing"); }
// what a save left, given what it reported
static void judge(Ctx& c, const Target& t, bool success, size_t need, const std::function<str(const str&)>& complete)
{
	c.label(success ? "success" : "failure");
	if (success) { str d = fileOrNothing(t.path); str why = d == str("\x01nothing") ? "there is no file" : complete(d); c.check(why.empty(), "silent-loss", "saving (" + t.log + ") reports success, but " + why); }
	else c.check(!(t.sound() || (t.kind == Target::Small && t.limit >= need)), "false-failure", "saving (" + t.log + ") reports a failure although nothing stands in its way");
}
static str entriesDiffer(const str& data, const doc::Entries& want, const str& ignore = "")
{
	doc::Entries got; try { got = doc::zipRead(data); } catch (vp::Fail& f) { return "the container is damaged: " + f.msg; }
	std::map<str, str> g; for (auto& e : got) g[e.name] = e.data; for (auto& e : want) { if (!g.count(e.name)) return "entry " + vp::quote(e.name) + " is missing"; if (g[e.name] != e.data) return fmt("entry %s holds %zu bytes, not the %zu given", vp::quote(e.name).c_str(), g[e.name].size(), e.data.size()); g.erase(e.name); }
	g.erase(ignore); return g.empty() ? str() : "there is an entry " + vp::quote(g.begin()->first) + " too many";
}
static doc::Entries genEntries(Src& s, size_t most) { doc::Entries es; std::set<str> seen; size_t n = 1 + s.count(5); for (size_t i = 0; i < n; i++) { str nm = genEntryName(s, (int) i); if (seen.insert(nm).second) es.push_back({nm, genBytes(s, most)}); } return es; }

static void zipSave(Src& s, Ctx& c)
{
	doc::Entries es = genEntries(s, 3000); bool pack = s.coin(); size_t need = 0;
	auto write = [&](const str& path) { bool ok = true; IZIPFilePtr z(IID_ZIPFile); ok &= z->OpenNewWrite(fileAt(path), pack) == 0; for (auto& e : es) { CZIPFileIOBufferImpl b; b.SetData((void*) e.data.data(), e.data.size()); ok &= z->AddFile(TXString(e.name.c_str()), &b) == 0; } ok &= z->Close() == 0; return ok; };
	str probe = c.scratch + "/probe.zip"; c.check(write(probe), "false-failure", "writing a container fails"); need = vp::readFile(probe).size();
	Target t(s, c, ".zip", need); c.sample = fmt("%zu entries, %s", es.size(), t.log.c_str()); c.nontrivial = !t.sound(); bool ok;
	{ Limit l(t.kind == Target::Small, t.limit); ok = write(t.path); }
	judge(c, t, ok, need, [&](const str& d) { return entriesDiffer(d, es); });
}
static void gdtfSave(Src& s, Ctx& c)
{
	gdtf::GenOpt o = gdtf::genOpt(s); o.size = (int) s.draw(2); o.manyChannels = o.manyElements = false; gdtf::Gen g(s, o); E t = g.run(); doc::Entries res; size_t n = s.count(4); for (size_t i = 0; i < n; i++) res.push_back({fmt("f%zu", i), genBytes(s, 2500)});
	bool files = s.coin(), gone = files && n && s.chance(25); size_t which = n ? s.draw(n) : 0, need = 0; int how = (int) s.draw(3);
	auto write = [&](const str& path, bool fault) {
		bool ok = true; IGdtfFixturePtr f = gdtf::newFixture(); MvrUUID id(1, 2, 3, 4); ok &= f->OpenForWrite(path.c_str(), t.val("Name").c_str(), t.val("Manufacturer").c_str(), id) == 0; if (!ok) return false; gdtf::Build b; b.f = f; b.run(t);
		for (size_t i = 0; i < n; i++) {
			if (files) { str p = c.scratch + "/" + res[i].name; if (fault && gone && i == which) { unlink(p.c_str()); rmdir(p.c_str()); if (how == 1) mkdir(p.c_str(), 0777); if (how == 2) { vp::writeFile(p, "q"); chmod(p.c_str(), 0); } } ok &= f->AddFileToGdtfFile(p.c_str(), gdtf::ERessourceType::ImageWheel, "") == 0; }
			else ok &= f->AddBufferToGdtfFile(res[i].name.c_str(), res[i].data.data(), res[i].data.size(), gdtf::ERessourceType::ImageWheel) == 0;
		}
		ok &= f->Close() == 0; return ok;
	};
	if (files) for (auto& e : res) vp::writeFile(c.scratch + "/" + e.name, e.data);
	str probe = c.scratch + "/probe.gdtf"; c.check(write(probe, false), "false-failure", "writing a fixture fails"); str whole = vp::readFile(probe); need = whole.size(); doc::Entries all = doc::zipRead(whole);
	for (auto& e : res) { const str* d = doc::find(all, "wheels/" + e.name); c.check(d && *d == e.data, "silent-loss", "saving a fixture reports success, but " + vp::quote(e.name) + " is missing or different"); }
	if (gone) { bool ok = write(c.scratch + "/gone.gdtf", true); c.sample = fmt("%zu files, file %zu unreadable (%d)", n, which, how); c.nontrivial = true; c.label("source unreadable"); c.check(!ok, "silent-loss", "a file that cannot be read is added to a fixture without an error"); return; }
	Target tg(s, c, ".gdtf", need); c.sample = fmt("%zu resources, %s", n, tg.log.c_str()); c.nontrivial = !tg.sound(); bool ok;
	{ Limit l(tg.kind == Target::Small, tg.limit); ok = write(tg.path, false); }
	judge(c, tg, ok, need, [&](const str& d) { return entriesDiffer(d, all); });
}
static void mvrSave(Src& s, Ctx& c)
{
	mvr::Gen g(s, (int) s.draw(3)); E t = g.run(); size_t n = s.count(4); doc::Entries res; for (size_t i = 0; i < n; i++) res.push_back({fmt("f%zu.bin", i), genBytes(s, 2500)}); bool files = s.coin(), gone = files && n && s.chance(30); size_t which = n ? s.draw(n) : 0; int how = (int) s.draw(3);
	bool limited = false; size_t lim = 0;
	if (!files) for (auto& e : res) if (e.data.empty()) e.data = "x";
	auto write = [&](const str& path, bool fault) {
		bool ok = true; if (files) for (auto& e : res) vp::writeFile(c.scratch + "/" + e.name, e.data);
		mvr::Mvr m = mvr::newMvr(); ok &= m->OpenForWrite(path.c_str()) == 0; if (!ok) return false;
		for (auto& e : res) if (files) ok &= m->AddFileToMvrFile((c.scratch + "/" + e.name).c_str()) == 0; else { std::vector<char> b(e.data.begin(), e.data.end()); ok &= m->AddBufferToMvrFile(e.name.c_str(), b.data(), b.size()) == 0; }
		mvr::Build b{m, nullptr}; b.run(t);
		if (fault && gone) { str p = c.scratch + "/" + res[which].name; unlink(p.c_str()); if (how == 1) mkdir(p.c_str(), 0777); if (how == 2) { vp::writeFile(p, "q"); chmod(p.c_str(), 0); } }
		Limit l(fault && !gone && limited, lim); ok &= m->Close() == 0; return ok;
	};
	str probe = c.scratch + "/probe.mvr"; c.check(write(probe, false), "false-failure", "writing an MVR fails"); str whole = vp::readFile(probe); size_t need = whole.size(); doc::Entries all = doc::zipRead(whole);
	for (auto& e : res) { const str* d = doc::find(all, e.name); c.check(d && *d == e.data, "silent-loss", "saving an MVR reports success, but " + vp::quote(e.name) + " is missing or different"); }
	if (gone) { bool ok = write(c.scratch + "/gone.mvr", true); c.sample = fmt("%zu files, file %zu lost before closing (%d)", n, which, how); c.nontrivial = true; c.label("source lost"); c.check(!ok, "silent-loss", "an attached file that is lost before closing is left out without an error"); return; }
	Target tg(s, c, ".mvr", need); c.sample = fmt("%zu files, %s", n, tg.log.c_str()); c.nontrivial = !tg.sound(); limited = tg.kind == Target::Small; lim = tg.limit;
	bool ok = write(tg.path, true); limited = false;
	judge(c, tg, ok, need, [&](const str& d) { return entriesDiffer(d, all); });
}
// opening extracts the attached files; an open that reports success has extracted them whole
static void extract(Src& s, Ctx& c)
{
	bool isMvr = s.coin(); doc::Entries res; size_t n = 1 + s.count(4), most = 0; for (size_t i = 0; i < n; i++) { str d = genBytes(s, 2500) + "x"; most = std::max(most, d.size()); res.push_back({(isMvr ? "" : "wheels/") + fmt("f%zu.png", i), d}); }
	size_t lim = s.chance(80) ? s.draw(most + 20) : most + 1000; c.sample = fmt("%s, %zu files, largest %zu bytes, limit %zu", isMvr ? "MVR" : "GDTF", n, most, lim); c.nontrivial = lim < most;
	// a file that is there is whole, and only one that does not fit may be missing
	auto whole = [&](const str& path, const str& want) { str got = fileOrNothing(path); c.check(got == want || (got == "\x01nothing" && want.size() > lim), "extract-loss", fmt("after opening (limit %zu) %s of the %zu bytes of a file", lim, got == "\x01nothing" ? "there are none" : fmt("there are %zu", got.size()).c_str(), want.size())); };
	if (isMvr) {
		mvr::Gen g(s, 1); E t = g.run(); E root = mvr::toFile(t, s); vp::writeFile(c.scratch + "/in.mvr", mvr::container(root, s, res)); mvr::Mvr m = mvr::newMvr(); int rc;
		{ Limit l(true, lim); rc = m->OpenForRead((c.scratch + "/in.mvr").c_str()); } c.label(rc ? "refused" : "opened");
		c.check(!rc, "false-failure", "opening fails although the description can be read");
		size_t k = 0; mvr::must(m->GetAttachedFileCount(k), "GetAttachedFileCount"); size_t fit = 0; for (auto& e : res) fit += e.data.size() <= lim; c.check(k >= fit && k <= n, "extract-loss", fmt("%zu attached files reported, %zu of %zu fit", k, fit, n)); for (size_t i = 0; i < k; i++) { str p = m->GetAttachedFileCountAt(i), b = p.substr(p.rfind('/') + 1); const str* d = doc::find(res, b); c.check(d, "extract-loss", "unknown file " + p); c.check(fileOrNothing(p) == *d, "extract-loss", fmt("opening (limit %zu) lists a file of which %zu of %zu bytes are there", lim, fileOrNothing(p).size(), d->size())); }
	} else {
		E t = gdtf::Gen(s, [&] { auto o = gdtf::genOpt(s); o.size = 0; o.manyChannels = o.manyElements = false; return o; }()).run(); E* ws = t.kid("Wheels"); if (!ws) ws = &t.add("Wheels"); ws->kids.clear();
		E root = gdtf::toFile(t, &s); for (auto& k : root.kids[0].kids) if (k.name == "Wheels") k.kids.clear(); E* w = root.kids[0].kid("Wheels"); if (!w) w = &root.kids[0].add("Wheels"); E& wh = w->add("Wheel"); wh.set("Name", "Gobos"); for (size_t i = 0; i < n; i++) { E& sl = wh.add("Slot"); sl.set("Name", fmt("s%zu", i)); sl.set("MediaFileName", fmt("f%zu", i)); }
		vp::writeFile(c.scratch + "/in.gdtf", gdtf::container(root, s, res)); IGdtfFixturePtr f = gdtf::newFixture(); int rc;
		{ Limit l(true, lim); rc = f->ReadFromFile((c.scratch + "/in.gdtf").c_str()); } size_t errs = 0; f->GetParsingErrorCount(errs); c.label(rc ? "refused" : "opened");
		c.check(!rc, "false-failure", "opening fails although the description can be read");
		IGdtfWheelPtr wp; gdtf::must(f->GetWheelAt(0, &wp), "GetWheelAt"); for (size_t i = 0; i < n; i++) { IGdtfWheelSlotPtr sp; gdtf::must(wp->GetWheelSlotAt(i, &sp), "GetWheelSlotAt"); whole(sp->GetGoboFileFullPath(), res[i].data); }
	}
}
// something that is no readable file is not opened, attached or extracted from
static void noInput(Src& s, Ctx& c)
{
	str p = c.scratch + "/in"; const char* kind = ""; switch (s.draw(7)) {
		case 0: kind = "missing"; break; case 1: kind = "folder"; mkdir(p.c_str(), 0777); break; case 2: kind = "unreadable"; vp::writeFile(p, genBytes(s, 100)); chmod(p.c_str(), 0); break;
		case 3: kind = "missing folder"; p += "/x"; break; case 4: kind = "dangling link"; if (symlink("nothing", p.c_str())) throw vp::Discard{}; break; case 5: kind = "link to itself"; if (symlink("in", p.c_str())) throw vp::Discard{}; break;
		default: kind = "long name"; p += str(300, 'n'); break; }
	if (s.chance(10)) p = ""; str ext = s.oneof<const char*>({"", ".gdtf", ".mvr"}); int what = (int) s.draw(4); c.sample = fmt("%s, %d", p.empty() ? "empty path" : kind, what); c.nontrivial = true; (void) ext;
	int rc = 0; switch (what) {
		case 0: { mvr::Mvr m = mvr::newMvr(); rc = m->OpenForRead(p.c_str()); break; }
		case 1: { IGdtfFixturePtr f = gdtf::newFixture(); rc = f->ReadFromFile(p.c_str()); break; }
		case 2: { mvr::Mvr m = mvr::newMvr(); mvr::must(m->OpenForWrite((c.scratch + "/o.mvr").c_str()), "OpenForWrite"); rc = m->AddFileToMvrFile(p.c_str()); if (!rc) rc = m->Close(); break; }
		default: { IGdtfFixturePtr f = gdtf::newFixture(); MvrUUID id(1, 2, 3, 4); gdtf::must(f->OpenForWrite((c.scratch + "/o.gdtf").c_str(), "n", "m", id), "OpenForWrite"); rc = f->AddFileToGdtfFile(p.c_str(), gdtf::ERessourceType::ImageWheel, "x.png"); break; }
	}
	c.check(rc != 0, "no-input", fmt("%s reports success for: ", what == 0 ? "OpenForRead" : what == 1 ? "ReadFromFile" : what == 2 ? "attaching to an MVR" : "AddFileToGdtfFile") + (p.empty() ? "empty path" : kind));
}
VP_SUITE
{
	s.property = "Z04"; s.rule = "the file system refuses something: a size limit below what is needed, a missing, locked or full target, or a source that cannot be read"; s.quickCases = 8000; s.thoroughCases = 200000;
	s.props.push_back({"zip-save", 3, zipSave});
	s.props.push_back({"gdtf-save", 3, gdtfSave});
	s.props.push_back({"mvr-save", 3, mvrSave});
	s.props.push_back({"extract", 2, extract});
	s.props.push_back({"no-input", 1, noInput});
}
