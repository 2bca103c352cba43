// X03: messages between stations arrive once and intact, answers and files come back.
// Real connections over the loopback interface; the search for stations by multicast is replaced by a registry in this file.
#include "xchange.h"
#include "mvrxchange/CMVRxchangeService.h"
#include "mvrxchange/mvrxchange_server.h"
#include "mvrxchange/mvrxchange_client.h"
#include <thread>
#include <unistd.h>
using namespace xch;

// ---- stand-in for the multicast search: what is announced is found by everybody
struct Announced { str host, txt; uint16_t port; const void* by; };
static std::mutex gMx; static std::vector<Announced> gNet; static std::vector<mdns_cpp::Query_result> gStrange; static size_t gQueries = 0;
namespace mdns_cpp {
mDNS::~mDNS() { stopService(); }
void mDNS::startService() { std::lock_guard<std::mutex> l(gMx); gNet.push_back({hostname_, txt_record_, port_, this}); }
void mDNS::stopService() { std::lock_guard<std::mutex> l(gMx); for (size_t i = 0; i < gNet.size();) if (gNet[i].by == this) gNet.erase(gNet.begin() + i); else i++; }
bool mDNS::isServiceRunning() { return true; }
void mDNS::setServiceHostname(const std::string& h) { hostname_ = h; }
void mDNS::setServicePort(std::uint16_t p) { port_ = p; }
std::uint16_t mDNS::getServicePort() { return port_; }
void mDNS::setServiceIP(std::uint32_t ip) { service_address_ipv4_ = ip; }
std::uint32_t mDNS::getServiceIP() { return service_address_ipv4_; }
std::string mDNS::getServiceIPPort() { return "127.0.0.1:" + std::to_string(port_); }
void mDNS::setServiceName(const std::string& n) { name_ = n; }
void mDNS::setServiceTxtRecord(const std::string& t) { txt_record_ = t; }
std::vector<std::pair<std::string, uint32_t>> mDNS::getInterfaces() { return {{"eth0", 0x0100000a}}; }
QueryResList mDNS::executeQuery2(const std::string& service)
{
	std::lock_guard<std::mutex> l(gMx); gQueries++; QueryResList r = gStrange; for (auto& a : gNet) { Query_result q; q.service_name = a.host + "." + service; q.canonical_hostname = q.service_name; q.mdnsAddress = "127.0.0.1"; q.txt = a.txt; q.port = a.port; q.ipV4_address.insert("127.0.0.1"); r.push_back(q); } return r;
}
void mDNS::executeDiscovery() {}
} // namespace mdns_cpp

struct Answer { Msg m; str file, path; };
struct Heard { str text; };
struct Back { str sent, got; };
struct Station {
	MvrUUID id; str name; CMVRxchangeServiceImpl impl; std::unique_ptr<MVRxchangeNetwork::MVRxchangeServer> server; std::mutex mx; std::vector<str> heard; std::vector<Back> back; std::vector<Answer>* pool = nullptr; bool slow = false; uint16_t port = 0;
};
static size_t pick(const str& text, size_t n) { uint64_t h = 1469598103934665603ull; for (char c : text) h = (h ^ (uint8_t) c) * 1099511628211ull; return (size_t) (h % n); }
static str seen(const Msg& m)
{
	str o = show(m).substr(0); if (m.Type == T::MVR_REQUEST_RET && m.RetIsOK) { o = fmt("MVR_REQUEST_RET file %zu ", m.BufferToFileLength); if (m.BufferToFile) { uint64_t h = 7; for (size_t i = 0; i < m.BufferToFileLength; i++) h = h * 31 + (uint8_t) m.BufferToFile[i]; o += fmt("%016llx", (unsigned long long) h); } } else if (!m.RetIsOK && m.Type == T::MVR_UNDEFINED) o = "refused: " + txt(m.RetError); return o;
}
static str seenFile(const str& f) { Msg m; m.Type = T::MVR_REQUEST_RET; m.BufferToFile = (char*) f.data(); m.BufferToFileLength = f.size(); return seen(m); }
static str answerText(const Answer& a) { return a.file.empty() ? seen(a.m) : seenFile(a.file); }
static Msg incoming(const Msg& m, void* ctx)
{
	Station& s = *(Station*) ctx; str t = seen(m); if (s.slow) usleep(2000); Msg r; { std::lock_guard<std::mutex> l(s.mx); s.heard.push_back(t); }
	const Answer& a = (*s.pool)[pick(t + s.name, s.pool->size())]; r = a.m; if (!a.file.empty() && a.path.empty()) { r.BufferToFile = new char[a.file.size()]; memcpy(r.BufferToFile, a.file.data(), a.file.size()); r.BufferToFileLength = a.file.size(); } return r;
}
static void returning(const Msg& sent, const Msg& in, void* ctx) { Station& s = *(Station*) ctx; std::lock_guard<std::mutex> l(s.mx); s.back.push_back({seen(sent), seen(in)}); }
struct Custom { std::mutex mx; std::vector<Back> back; };
static void customReturning(const Msg& sent, const Msg& in, void* ctx) { Custom& k = *(Custom*) ctx; std::lock_guard<std::mutex> l(k.mx); k.back.push_back({seen(sent), seen(in)}); }
static std::vector<Answer> genAnswers(Src& s, Ctx& c)
{
	std::vector<Answer> v; size_t n = 1 + s.count(5);
	for (size_t i = 0; i < n; i++) {
		Answer a; if (s.chance(40)) { a.m.Type = T::MVR_REQUEST_RET; a.m.RetIsOK = true; size_t z; switch (s.draw(30)) { case 0: z = (30u << 20) - 40 + s.draw(80); break; case 1: case 2: z = 1 + s.draw(3000000); break; case 3: case 4: case 5: z = 1 + s.draw(200000); break; default: z = 1 + s.count(3000); } a.file = fileBytes(z, s.draw(100)); if (s.coin()) { a.path = c.scratch + fmt("/file%zu", i); vp::writeFile(a.path, a.file); a.m.PathToFile = a.path.c_str(); } }
		else a.m = genMsg(s, s.oneof<T>({T::MVR_JOIN_RET, T::MVR_LEAVE_RET, T::MVR_COMMIT_RET, T::MVR_REQUEST_RET}));
		c.sample += "answer " + (a.file.empty() ? answerText(a).substr(0, 200) : fmt("file %zu ", a.file.size()) + (a.path.empty() ? "buffer" : "path")) + "\n"; v.push_back(a);
	}
	return v;
}
static std::vector<str> sorted(std::vector<str> v) { std::sort(v.begin(), v.end()); return v; }
static str join(const std::vector<str>& v) { str o; for (auto& x : v) o += x.substr(0, 300) + "\n"; return o; }
static void callbacks(Station& s, bool returningToo) { X::OnMessageArgs a; a.IncomingCallback = incoming; a.ReturningCallback = returningToo ? returning : nullptr; a.Context = &s; s.impl.OnMessage(a); }
// sends and checks what everybody heard and what came back; to: expected receivers
static void sendAndCheck(Ctx& c, std::vector<std::unique_ptr<Station>>& st, size_t from, const Msg& m, const std::set<size_t>& to, bool custom, const str& what)
{
	for (auto& x : st) { std::lock_guard<std::mutex> l(x->mx); x->heard.clear(); x->back.clear(); }
	X::SendMessageArgs a; a.Message = m; Custom k; if (custom) { a.CustomReturnCallback = customReturning; a.CustomReturnContext = &k; } c.eq((int) st[from]->impl.Send_message(a), 0, "rc", what + ": result of sending"); str t = seen(m); std::vector<str> want, got;
	for (size_t i = 0; i < st.size(); i++) { std::lock_guard<std::mutex> l(st[i]->mx); std::vector<str> w; if (to.count(i)) w.push_back(t); c.eq(join(st[i]->heard), join(w), "heard", what + fmt(": what station %zu hears from station %zu", i, from)); }
	for (size_t i : to) want.push_back(answerText((*st[i]->pool)[pick(t + st[i]->name, st[i]->pool->size())]));
	auto& back = custom ? k.back : st[from]->back; for (auto& b : back) { c.eq(b.sent, t, "sent", what + ": the message given with the answer"); got.push_back(b.got); } if (custom) c.eq(st[from]->back.size(), (size_t) 0, "custom", "answers to the other callback"); c.eq(join(sorted(got)), join(sorted(want)), "answers", what + ": answers that came back");
}
static Msg genSend(Src& s, const std::vector<std::unique_ptr<Station>>& st, size_t from, std::set<size_t>& to)
{
	Msg m = genMsg(s, s.oneof<T>({T::MVR_COMMIT, T::MVR_REQUEST, T::MVR_COMMIT, T::MVR_REQUEST, T::MVR_JOIN})); std::vector<MvrUUID>* f = m.Type == T::MVR_COMMIT ? &m.COMMIT.ForStationsUUID : m.Type == T::MVR_REQUEST ? &m.REQUEST.FromStationUUID : nullptr; if (m.Type == T::MVR_JOIN) m.JOIN.StationUUID = st[from]->id;
	if (f) { f->clear(); if (s.coin()) { std::set<size_t> keep; for (size_t i = 0; i < st.size(); i++) if (s.coin()) { f->push_back(st[i]->id); keep.insert(i); } if (s.chance(30)) f->push_back(MvrUUID(77, 77, 77, (Uint32) s.draw(9))); if (!f->empty()) for (size_t i = 0; i < st.size(); i++) if (!keep.count(i)) to.erase(i); } }
	return m;
}
static MVRxchangeGroupMember member(const Station& x) { MVRxchangeGroupMember g; g.IP.push_back("127.0.0.1"); g.Port = x.port; g.Name = TXString(x.name.c_str()); g.stationUUID = x.id; return g; }
// stations that know each other
static void exchange(Src& s, Ctx& c)
{
	size_t n = 2 + s.draw(3); auto pool = genAnswers(s, c); std::vector<std::unique_ptr<Station>> st; std::vector<std::set<size_t>> knows(n);
	for (size_t i = 0; i < n; i++) { st.emplace_back(new Station); Station& x = *st[i]; x.id = MvrUUID((Uint32) i + 1, (Uint32) s.draw(5), 3, 4); x.name = fmt("S%zu", i); x.pool = &pool; callbacks(x, true); x.server.reset(new MVRxchangeNetwork::MVRxchangeServer(&x.impl)); x.port = x.server->GetPort(); }
	for (size_t i = 0; i < n; i++) for (size_t k = 0; k < n; k++) if (i != k && s.chance(85)) { st[i]->impl.fMVRGroup.push_back(member(*st[k])); knows[i].insert(k); }
	size_t steps = 1 + s.count(10), heard = 0; std::set<size_t> gone;
	for (size_t q = 0; q < steps; q++) {
		size_t from = s.draw(n); if (gone.count(from)) continue; std::set<size_t> to = knows[from]; str what = fmt("step %zu", q);
		if (s.chance(12)) {
			Msg m; m.Type = T::MVR_LEAVE; m.LEAVE.FromStationUUID = st[from]->id; c.sample += fmt("%zu leaves\n", from); sendAndCheck(c, st, from, m, to, s.coin(), what + ", leaving"); for (size_t k : to) knows[k].erase(from); if (s.coin()) { gone.insert(from); } heard += to.size();
		} else if (s.chance(12)) {
			// several at once; everybody hears everything that is meant for it once
			std::vector<std::pair<size_t, Msg>> jobs; std::vector<std::vector<str>> want(n); std::vector<std::vector<str>> answers(n); for (auto& x : st) { x->heard.clear(); x->back.clear(); }
			for (size_t i = 0, k = 2 + s.draw(3); i < k; i++) { size_t f = s.draw(n); if (gone.count(f)) continue; std::set<size_t> t2 = knows[f]; Msg m = genSend(s, st, f, t2); if (m.Type == T::MVR_JOIN) continue; str t = seen(m); for (size_t r : t2) { want[r].push_back(t); answers[f].push_back(answerText(pool[pick(t + st[r]->name, pool.size())])); } jobs.push_back({f, m}); }
			c.sample += fmt("%zu at once\n", jobs.size()); std::vector<std::thread> th; for (auto& j : jobs) th.emplace_back([&st, &j] { X::SendMessageArgs a; a.Message = j.second; st[j.first]->impl.Send_message(a); }); for (auto& t : th) t.join();
			for (size_t i = 0; i < n; i++) { std::lock_guard<std::mutex> l(st[i]->mx); c.eq(join(sorted(st[i]->heard)), join(sorted(want[i])), "heard", what + fmt(": what station %zu hears of messages sent at once", i)); std::vector<str> got; for (auto& b : st[i]->back) got.push_back(b.got); c.eq(join(sorted(got)), join(sorted(answers[i])), "answers", what + fmt(": answers for station %zu, messages sent at once", i)); heard += want[i].size(); }
		} else { Msg m = genSend(s, st, from, to); c.sample += fmt("%zu sends ", from) + show(m).substr(0, 300) + "\n"; sendAndCheck(c, st, from, m, to, s.chance(30), what); heard += to.size(); }
	}
	c.nontrivial = heard >= 3;
}
static bool eventually(const std::function<bool()>& f) { for (int i = 0; i < 2500; i++) { if (f()) return true; usleep(2000); } return false; }
static std::set<size_t> group(Station& x, std::vector<std::unique_ptr<Station>>& st, size_t* entries = nullptr)
{
	std::lock_guard<std::mutex> l(x.impl.fMvrGroupMutex); std::set<size_t> r; if (entries) *entries = x.impl.fMVRGroup.size(); for (auto& g : x.impl.fMVRGroup) for (size_t i = 0; i < st.size(); i++) if (st[i]->id == g.stationUUID) r.insert(i); return r;
}
static str show(const std::set<size_t>& v) { str o; for (size_t x : v) o += fmt("%zu ", x); return o; }
// stations that join and leave groups through the interface
static void groups(Src& s, Ctx& c)
{
	{ std::lock_guard<std::mutex> l(gMx); gNet.clear(); gStrange.clear(); }
	size_t n = 2 + s.draw(2); auto pool = genAnswers(s, c); std::vector<std::unique_ptr<Station>> st; std::vector<int> in(n, -1); std::vector<str> nameOf(n); static const char* groupsAre[] = {"Group", "Other_1"};
	for (size_t i = 0; i < n; i++) { st.emplace_back(new Station); Station& x = *st[i]; x.id = MvrUUID((Uint32) i + 1, (Uint32) s.draw(5), 3, 4); x.name = fmt("S%zu", i); x.pool = &pool; callbacks(x, true); }
	size_t steps = 2 + s.count(6), heard = 0;
	auto mates = [&](size_t i) { std::set<size_t> r; for (size_t k = 0; k < n; k++) if (k != i && in[i] >= 0 && in[k] == in[i]) r.insert(k); return r; };
	auto settle = [&](const str& what) { for (size_t i = 0; i < n; i++) if (in[i] >= 0) { size_t e = 0; bool ok = eventually([&] { return group(*st[i], st, &e) == mates(i) && e == mates(i).size(); }); c.check(ok, "members", what + fmt(": station %zu knows {", i) + show(group(*st[i], st, &e)) + fmt("} in %zu entries, the group has {", e) + show(mates(i)) + "}"); } };
	// searches that were started have ended
	auto idle = [&] { for (size_t i = 0; i < n; i++) if (in[i] >= 0) { size_t k = 0; st[i]->impl.QueryLocalServices(k); } };
	for (size_t q = 0; q < steps; q++) {
		size_t i = s.draw(n); str what = fmt("step %zu", q);
		if (in[i] < 0) {
			size_t k = 0; st[i]->impl.QueryLocalServices(k); size_t online = 0; for (size_t z = 0; z < n; z++) online += z != i && in[z] >= 0; c.eq(k, online, "query", what + ": number of stations found");
			for (size_t z = 0; z < k + 2; z++) { X::ConnectToLocalServiceArgs a; int rc = (int) st[i]->impl.GetLocalServiceAt(z, a); c.check((rc == 0) == (z < k), "index", what + fmt(": station %zu of %zu gives %d", z, k, rc)); if (rc) continue; bool known = false; for (size_t y = 0; y < n; y++) if (in[y] >= 0 && st[y]->id == a.StationUUID) { known = true; str got = txt(a.StationName); if (nameOf[y].size() <= 243) c.eq(got, nameOf[y], "station-name", what + ": name of a found station"); else c.check(got.size() < 250 && got.compare(0, 239, nameOf[y], 0, 239) == 0, "station-name", what + ": a long name of a found station does not begin like the name: " + vp::quote(got)); c.eq(txt(a.Service), str(groupsAre[in[y]]) + "." + MVRXChange_Service, "service", what + ": service of a found station"); c.check(a.IPv4_list.size() == 1 && txt(a.IPv4_list[0]) == "127.0.0.1", "address", "address of a found station"); } c.check(known, "station", what + ": an unknown station is found"); }
			// only one group at a time has to be joined in one step: the members are the stations found
			int g = (int) s.draw(2); X::ConnectToLocalServiceArgs a; a.Service = groupsAre[g]; a.StationUUID = st[i]->id; nameOf[i] = genUtf8(s, s.chance(20) ? 900 : 240); a.StationName = nameOf[i].c_str(); nameOf[i] = txt(a.StationName); a.Provider = "P"; a.VersionMajor = 1; a.VersionMinor = 6; a.Port = 0; for (size_t z = 0, y = s.count(3); z < y; z++) a.InitialFiles.push_back(genCommit(s));
			for (auto& x : st) { std::lock_guard<std::mutex> l(x->mx); x->heard.clear(); x->back.clear(); } c.sample += fmt("%zu joins %d\n", i, g); c.eq((int) st[i]->impl.ConnectToLocalService(a), 0, "rc", "result of joining"); in[i] = g;
			Msg jm; jm.Type = T::MVR_JOIN; jm.JOIN.Provider = a.Provider; jm.JOIN.StationName = a.StationName; jm.JOIN.StationUUID = a.StationUUID; jm.JOIN.VersionMajor = 1; jm.JOIN.VersionMinor = 6; jm.JOIN.Commits = a.InitialFiles; str t = seen(jm);
			for (size_t z = 0; z < n; z++) { std::vector<str> w; if (mates(i).count(z)) w.push_back(t); std::lock_guard<std::mutex> l(st[z]->mx); c.eq(join(st[z]->heard), join(w), "heard", what + fmt(": what station %zu hears of station %zu joining", z, i)); heard += w.size(); } settle(what + ", after joining"); idle();
		} else if (s.chance(35)) {
			auto to = mates(i); for (auto& x : st) { std::lock_guard<std::mutex> l(x->mx); x->heard.clear(); x->back.clear(); } c.sample += fmt("%zu leaves\n", i); c.eq((int) st[i]->impl.LeaveLocalService(), 0, "rc", "result of leaving"); in[i] = -1; Msg m; m.Type = T::MVR_LEAVE; m.LEAVE.FromStationUUID = st[i]->id;
			for (size_t z = 0; z < n; z++) { std::vector<str> w; if (to.count(z)) w.push_back(seen(m)); std::lock_guard<std::mutex> l(st[z]->mx); c.eq(join(st[z]->heard), join(w), "heard", what + fmt(": what station %zu hears of station %zu leaving", z, i)); heard += w.size(); } settle(what + ", after leaving");
		} else { auto to = mates(i); Msg m = genSend(s, st, i, to); if (m.Type == T::MVR_JOIN) { m.JOIN.StationUUID = st[i]->id; } c.sample += fmt("%zu sends ", i) + show(m).substr(0, 200) + "\n"; sendAndCheck(c, st, i, m, to, s.chance(30), what); heard += to.size(); settle(what + ", after sending"); if (s.chance(30)) { idle(); } }
	}
	c.nontrivial = heard >= 2;
	std::vector<std::thread> th; for (auto& x : st) th.emplace_back([&x] { x->impl.LeaveLocalService(); }); for (auto& t : th) t.join();
}
// the group as one station sees it, while others (only announced here, they do not answer) come, change and go
static void members(Src& s, Ctx& c)
{
	{ std::lock_guard<std::mutex> l(gMx); gNet.clear(); gStrange.clear(); }
	struct Ghost { MvrUUID id; str name, group; std::vector<str> ips; uint16_t port = 0; bool on = false; str text() const { std::set<str> i(ips.begin(), ips.end()); str o = uuidText(id) + " " + vp::quote(name) + fmt(" :%u", port); for (auto& x : i) o += " " + x; return o; } };
	std::vector<Answer> pool(1); pool[0].m.Type = T::MVR_JOIN_RET; pool[0].m.RetIsOK = true; Station x; x.id = MvrUUID(99, 1, 2, 3); x.name = "me"; x.pool = &pool; callbacks(x, true);
	X::ConnectToLocalServiceArgs a; a.Service = "Group"; a.StationUUID = x.id; a.StationName = "me"; a.Provider = "P"; a.VersionMajor = 1; a.VersionMinor = 6; c.eq((int) x.impl.ConnectToLocalService(a), 0, "rc", "result of joining"); uint16_t own = 0; { std::lock_guard<std::mutex> l(gMx); c.check(!gNet.empty(), "announced", "a station that joined is not announced"); own = gNet[0].port; }
	size_t n = 2 + s.draw(4), joins = 0, most = 0; std::vector<Ghost> g(n); std::set<std::pair<str, uint16_t>> used; std::map<str, str> group;
	auto show2 = [](const std::set<str>& v) { str o; for (auto& t : v) o += t + "\n"; return o; };
	auto place = [&](Ghost& h) { do { h.port = (uint16_t) s.oneof<int>({(int) own, 5, 6, 5}); h.ips.clear(); for (size_t k = 1 + (s.chance(25) ? 1 : 0); k > 0; k--) { str ip = fmt("127.0.0.%d", (int) (2 + s.draw(40))); if (std::find(h.ips.begin(), h.ips.end(), ip) == h.ips.end()) h.ips.push_back(ip); } } while ([&] { for (auto& ip : h.ips) if (used.count({ip, h.port})) return true; return false; }()); for (auto& ip : h.ips) used.insert({ip, h.port}); };
	auto publish = [&] { std::lock_guard<std::mutex> l(gMx); gStrange.clear(); for (auto& h : g) if (h.on) { mdns_cpp::Query_result q; q.service_name = q.canonical_hostname = h.group + "." + MVRXChange_Service; q.port = h.port; for (auto& ip : h.ips) q.ipV4_address.insert(ip); for (auto& i : {"StationName=" + h.name, "StationUUID=" + uuidText(h.id)}) { q.txt += (char) i.size(); q.txt += i; } gStrange.push_back(q); } };
	auto settle = [&](const str& what) { size_t k = 0; c.eq((int) x.impl.QueryLocalServices(k), 0, "rc", what + ": result of the query"); std::set<str> want, got; for (auto& h : g) if (h.on) want.insert(h.text()); for (size_t i = 0; i < k; i++) { X::ConnectToLocalServiceArgs o; c.eq((int) x.impl.GetLocalServiceAt(i, o), 0, "index", "station below the count"); Ghost h; h.id = o.StationUUID; h.name = txt(o.StationName); h.port = (uint16_t) o.Port; for (auto& ip : o.IPv4_list) h.ips.push_back(ip.fBuffer); got.insert(h.text()); } c.eq(show2(got), show2(want), "query", what + ": the stations found"); };
	auto send = [&](Ghost& h, T t) { Msg m; m.Type = t; if (t == T::MVR_JOIN) { m.JOIN.StationUUID = h.id; m.JOIN.StationName = h.name.c_str(); m.JOIN.VersionMajor = 1; m.JOIN.VersionMinor = 6; } else m.LEAVE.FromStationUUID = h.id; { std::lock_guard<std::mutex> l(x.mx); x.heard.clear(); } MVRxchangeNetwork::TCPMessageInfo info{}; x.impl.TCP_OnIncommingMessage(m, info); std::lock_guard<std::mutex> l(x.mx); c.eq(x.heard.size(), (size_t) 1, "heard", "messages given to the program"); };
	for (size_t i = 0; i < n; i++) { g[i].id = MvrUUID((Uint32) i + 1, (Uint32) s.draw(3), 3, 4); g[i].name = genUtf8(s, 60); g[i].group = s.chance(85) ? "Group" : "Other"; }
	for (size_t q = 0, steps = 2 + s.count(14); q < steps; q++) {
		Ghost& h = g[s.draw(g.size())]; str what = fmt("step %zu", q), key = uuidText(h.id);
		if (!h.on) { if (s.coin()) place(h); if (h.ips.empty()) place(h); h.on = true; publish(); c.sample += "announced " + h.text() + "\n"; if (s.coin()) settle(what); if (h.group == "Group") { send(h, T::MVR_JOIN); group[key] = h.text(); joins++; } settle(what + ", after joining"); }
		else switch (s.draw(4)) {
			case 0: if (s.coin()) h.name = genUtf8(s, 60); else place(h); publish(); c.sample += "changed " + h.text() + "\n"; if (s.coin()) settle(what); if (h.group == "Group") { send(h, T::MVR_JOIN); group[key] = h.text(); joins++; } settle(what + ", after joining again"); break;
			case 1: h.on = false; publish(); c.sample += "gone " + h.text() + "\n"; if (group.count(key) || s.coin()) { send(h, T::MVR_LEAVE); group.erase(key); } settle(what + ", after leaving"); break;
			case 2: if (group.count(key)) { send(h, T::MVR_LEAVE); group.erase(key); c.sample += "left, still announced " + key + "\n"; } settle(what + ", after leaving"); break;
			default: if (h.group == "Group") { send(h, T::MVR_JOIN); group[key] = h.text(); c.sample += "joins again " + key + "\n"; joins++; } settle(what + ", after joining twice"); }
		std::multiset<str> got, want; { std::lock_guard<std::mutex> l(x.impl.fMvrGroupMutex); for (auto& m : x.impl.fMVRGroup) { Ghost k; k.id = m.stationUUID; k.name = m.Name.GetCharPtr(); k.port = m.Port; for (auto& ip : m.IP) k.ips.push_back(ip.GetCharPtr()); got.insert(k.text()); } } for (auto& m : group) want.insert(m.second); most = std::max(most, group.size());
		str o, w; for (auto& t : got) o += t + "\n"; for (auto& t : want) w += t + "\n"; c.eq(o, w, "members", what + ": the group");
	}
	{ std::lock_guard<std::mutex> l(x.impl.fMvrGroupMutex); x.impl.fMVRGroup.clear(); } x.impl.LeaveLocalService(); c.nontrivial = joins >= 2 && most >= 2;
}
// what other programs announce
static void announcements(Src& s, Ctx& c)
{
	{ std::lock_guard<std::mutex> l(gMx); gNet.clear(); gStrange.clear(); } struct Want { str service, name, uuid; uint16_t port; std::set<str> ips; bool judged; }; std::vector<Want> want; size_t n = 1 + s.count(4);
	for (size_t i = 0; i < n; i++) {
		mdns_cpp::Query_result q; Want w; w.service = genUtf8(s, 60) + "." + MVRXChange_Service; w.port = (uint16_t) (1000 + i); w.judged = true; q.service_name = w.service; q.canonical_hostname = w.service; q.port = w.port; for (size_t k = 0, m = 1 + s.draw(3); k < m; k++) w.ips.insert(fmt("10.0.%zu.%zu", i, k)); q.ipV4_address = w.ips; if (s.coin()) q.ipV6_address.insert("fe80::1");
		w.name = genUtf8(s, 200); w.uuid = uuidText(genUuid(s)); std::vector<str> items = {"StationName=" + w.name, "StationUUID=" + w.uuid}; if (s.coin()) std::swap(items[0], items[1]);
		for (size_t k = 0, m = s.draw(4); k < m; k++) items.insert(items.begin() + s.draw(items.size() + 1), s.oneof<str>({"x=1", "", "flag", "=", "=x", "a=b=c", "stationname=x", "StationUUIDs=1", str(255, 'y'), str("\0\0", 2)}));
		for (auto& x : items) { q.txt += (char) x.size(); q.txt += x; }
		if (s.chance(30)) { w.judged = false; switch (s.draw(4)) { case 0: q.txt.clear(); break; case 1: q.txt.resize(s.draw(q.txt.size() + 1)); break; case 2: q.txt[s.draw(q.txt.size())] = (char) s.draw(256); break; default: for (size_t k = 0, m = s.count(30); k < m; k++) q.txt += (char) s.draw(256); } }
		c.sample += vp::quote(q.txt).substr(0, 400) + "\n"; gStrange.push_back(q); want.push_back(w);
		// not for us, or seen before
		if (s.chance(30)) { mdns_cpp::Query_result o = q; if (s.coin()) gStrange.push_back(o); else { o.service_name = s.oneof<str>({"", "x._http._tcp.local.", "_mvrxchange._tcp.local", ".local."}); o.port = (uint16_t) (5000 + i); gStrange.push_back(o); } }
		if (s.chance(10)) { mdns_cpp::Query_result o = q; o.ipV4_address.clear(); o.port = (uint16_t) (6000 + i); gStrange.push_back(o); }
	}
	c.nontrivial = true; CMVRxchangeServiceImpl impl; size_t k = 0; X::ConnectToLocalServiceArgs none; c.check((int) impl.GetLocalServiceAt(0, none) != 0, "index", "a station is given before any was looked for"); c.eq((int) impl.QueryLocalServices(k), 0, "rc", "result of the query"); c.eq(k, want.size(), "query", "number of stations found");
	for (size_t i = 0; i < k; i++) { X::ConnectToLocalServiceArgs a; c.eq((int) impl.GetLocalServiceAt(i, a), 0, "index", "station below the count"); const Want& w = want[i]; c.eq((int) a.Port, (int) w.port, "port", "port of a found station"); c.eq(txt(a.Service), w.service, "service", "service of a found station"); std::set<str> ips; for (auto& x : a.IPv4_list) ips.insert(txt(x)); c.check(ips == w.ips, "address", "addresses of a found station"); if (!w.judged) continue; c.eq(txt(a.StationName), w.name, "station-name", "name of a found station"); c.eq(uuidText(a.StationUUID), w.uuid, "station-uuid", "identifier of a found station"); }
	for (size_t i : {k, k + 1, (size_t) -1}) { X::ConnectToLocalServiceArgs a; c.check((int) impl.GetLocalServiceAt(i, a) != 0, "index", "a station is given for an index that does not exist"); }
}
VP_SUITE
{
	s.property = "X03"; s.rule = "at least 3 messages are heard (2 for groups)"; s.quickCases = 1500; s.thoroughCases = 20000; s.batch = 4; s.cpuLimit = 60; s.wallLimit = 120;
	s.props.push_back({"exchange", 6, exchange});
	s.props.push_back({"groups", 2, groups});
	s.props.push_back({"members", 4, members});
	s.props.push_back({"announcements", 4, announcements});
}
