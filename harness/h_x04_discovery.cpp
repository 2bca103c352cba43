// X04: stations are found with what they announce; no packet from the network harms the search or the announcements.
// The real mDNS code runs on a network inside the process: the calls that open, fill and read datagram sockets are replaced (link option --wrap).
#include "xchange.h"
#include "mvrxchange/CMVRxchangeService.h"
#include <arpa/inet.h>
#include <condition_variable>
#include <deque>
#include <ifaddrs.h>
#include <net/if.h>
#include <netinet/in.h>
#include <sanitizer/asan_interface.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <thread>
#include <unistd.h>
using namespace xch;

// ---------------------------------------------------------------- the network
namespace net {
struct Addr { bool v6 = false; str bytes; uint16_t port = 5353; bool operator<(const Addr& o) const { return std::tie(v6, bytes, port) < std::tie(o.v6, o.bytes, o.port); } };
struct Packet { str data; Addr from; };
struct Sock { bool v6 = false, bound = false, client = false, service = false, busy = false; uint16_t port = 0; size_t machine = 0; str iface; std::deque<Packet> q; };
struct Machine { std::vector<str> v4, v6; };
static std::mutex mx; static std::condition_variable cv; static std::map<int, Sock> socks; static std::vector<Machine> machines; static size_t current = 0; static int nextFd = 600; static bool on = false;
static std::vector<std::pair<str, Addr>> sent;     // everything the library sent, with where it went
static std::deque<Packet> scripted;                // what others answer to the next query
static size_t opened = 0;
static sockaddr_storage sa(const Addr& a, socklen_t& n)
{
	sockaddr_storage s; memset(&s, 0, sizeof s); if (a.v6) { auto* p = (sockaddr_in6*) &s; p->sin6_family = AF_INET6; p->sin6_port = htons(a.port); memcpy(&p->sin6_addr, a.bytes.data(), 16); n = sizeof *p; } else { auto* p = (sockaddr_in*) &s; p->sin_family = AF_INET; p->sin_port = htons(a.port); memcpy(&p->sin_addr, a.bytes.data(), 4); n = sizeof *p; } return s;
}
static str text(const str& b) { char o[64] = {0}; inet_ntop(b.size() == 4 ? AF_INET : AF_INET6, b.data(), o, sizeof o); return o; }
static void multicast(const str& d, const Addr& from) { for (auto& s : socks) if (s.second.bound && s.second.port == 5353 && s.second.v6 == from.v6 && (!from.v6 || !machines[s.second.machine].v6.empty())) s.second.q.push_back({d, from}); cv.notify_all(); }
static void reset(std::vector<Machine> m) { std::lock_guard<std::mutex> l(mx); machines = std::move(m); current = 0; sent.clear(); scripted.clear(); socks.clear(); on = true; }
static size_t services() { size_t n = 0; for (auto& s : socks) n += s.second.service; return n; }
// waits until n sockets of services listen
static bool waitServices(size_t n) { std::unique_lock<std::mutex> l(mx); return cv.wait_for(l, std::chrono::seconds(10), [&] { return services() == n; }); }
static bool quiet() { for (auto& s : socks) if (s.second.service && (s.second.busy || !s.second.q.empty())) return false; return true; }
static bool waitQuiet() { std::unique_lock<std::mutex> l(mx); return cv.wait_for(l, std::chrono::seconds(10), [&] { return quiet(); }); }
} // namespace net
#define REAL(name) __real_##name
extern "C" {
int __real_getifaddrs(ifaddrs**); void __real_freeifaddrs(ifaddrs*); int __real_socket(int, int, int); int __real_setsockopt(int, int, int, const void*, socklen_t); int __real_bind(int, const sockaddr*, socklen_t); int __real_getsockname(int, sockaddr*, socklen_t*);
int __real_select(int, fd_set*, fd_set*, fd_set*, timeval*); ssize_t __real_recvfrom(int, void*, size_t, int, sockaddr*, socklen_t*); ssize_t __real_sendto(int, const void*, size_t, int, const sockaddr*, socklen_t); int __real_close(int); int __real_connect(int, const sockaddr*, socklen_t);
int __wrap_getifaddrs(ifaddrs** out)
{
	if (!net::on) return REAL(getifaddrs)(out);
	std::lock_guard<std::mutex> l(net::mx); ifaddrs *first = nullptr, **at = &first; auto add = [&](const str& name, const str& b) { auto* i = (ifaddrs*) calloc(1, sizeof(ifaddrs)); i->ifa_name = strdup(name.c_str()); if (!b.empty()) { socklen_t n; net::Addr a; a.v6 = b.size() == 16; a.bytes = b; a.port = 0; auto s = net::sa(a, n); i->ifa_addr = (sockaddr*) calloc(1, sizeof s); memcpy(i->ifa_addr, &s, sizeof s); } i->ifa_flags = IFF_UP; *at = i; at = &i->ifa_next; };
	add("lo", str("\x7f\0\0\1", 4)); add("tun0", ""); add("lo", str(15, 0) + "\1"); const auto& m = net::machines.at(net::current); for (size_t i = 0; i < m.v4.size(); i++) add(fmt("eth%zu", i), m.v4[i]); for (size_t i = 0; i < m.v6.size(); i++) add(fmt("eth%zu", i), m.v6[i]);
	*out = first; return 0;
}
void __wrap_freeifaddrs(ifaddrs* p) { if (!net::on) return REAL(freeifaddrs)(p); while (p) { ifaddrs* n = p->ifa_next; free(p->ifa_name); free(p->ifa_addr); free(p); p = n; } }
int __wrap_socket(int d, int t, int p)
{
	if (!net::on || (t & 0xff) != SOCK_DGRAM) return REAL(socket)(d, t, p);
	std::lock_guard<std::mutex> l(net::mx); for (int k = 0; k < 400; k++) { int fd = net::nextFd; net::nextFd = fd + 1 >= 1000 ? 600 : fd + 1; if (net::socks.count(fd)) continue; auto& s = net::socks[fd]; s.v6 = d == AF_INET6; s.machine = net::current; net::opened++; return fd; } return -1;
}
static bool ours(int fd) { return net::on && fd >= 600 && fd < 1000 && net::socks.count(fd); }
int __wrap_setsockopt(int fd, int a, int b, const void* v, socklen_t n) { { std::lock_guard<std::mutex> l(net::mx); if (ours(fd)) { if (a == IPPROTO_IP && b == IP_MULTICAST_IF) net::socks[fd].iface = str((const char*) v, n); return 0; } } return REAL(setsockopt)(fd, a, b, v, n); }
int __wrap_bind(int fd, const sockaddr* a, socklen_t n) { { std::lock_guard<std::mutex> l(net::mx); if (ours(fd)) { auto& s = net::socks[fd]; s.bound = true; uint16_t p = ntohs(s.v6 ? ((const sockaddr_in6*) a)->sin6_port : ((const sockaddr_in*) a)->sin_port); s.port = p ? p : 40000 + fd; return 0; } } return REAL(bind)(fd, a, n); }
int __wrap_getsockname(int fd, sockaddr* a, socklen_t* n) { { std::lock_guard<std::mutex> l(net::mx); if (ours(fd)) { auto& s = net::socks[fd]; net::Addr x; x.v6 = s.v6; x.bytes = str(s.v6 ? 16 : 4, 0); x.port = s.port; socklen_t m; auto st = net::sa(x, m); memcpy(a, &st, std::min(*n, m)); *n = m; return 0; } } return REAL(getsockname)(fd, a, n); }
int __wrap_close(int fd) { if (net::on && fd >= 600 && fd < 1000) { std::lock_guard<std::mutex> l(net::mx); if (net::socks.erase(fd)) { net::cv.notify_all(); return 0; } } return REAL(close)(fd); }
int __wrap_select(int n, fd_set* r, fd_set* w, fd_set* e, timeval* t)
{
	if (!net::on || !r) return REAL(select)(n, r, w, e, t);
	std::unique_lock<std::mutex> l(net::mx); std::vector<int> f; for (int i = 600; i < n; i++) if (FD_ISSET(i, r) && net::socks.count(i)) f.push_back(i); if (f.empty()) { l.unlock(); return REAL(select)(n, r, w, e, t); }
	bool client = false; for (int i : f) client |= net::socks[i].client; auto any = [&] { for (int i : f) if (!net::socks[i].q.empty()) return true; return false; };
	if (!client) for (int i : f) { net::socks[i].service = true; net::socks[i].busy = false; } net::cv.notify_all();
	// a search goes on until nobody has anything left to answer, an announcement until something comes
	if (client) net::cv.wait_for(l, std::chrono::seconds(10), [&] { return any() || net::quiet(); }); else net::cv.wait_for(l, std::chrono::milliseconds(3), any);
	FD_ZERO(r); int k = 0; for (int i : f) if (!net::socks[i].q.empty()) { FD_SET(i, r); k++; if (!client) net::socks[i].busy = true; } return k;
}
ssize_t __wrap_recvfrom(int fd, void* b, size_t n, int fl, sockaddr* a, socklen_t* al)
{
	{ std::lock_guard<std::mutex> l(net::mx); if (ours(fd)) {
		auto& s = net::socks[fd]; if (s.q.empty()) { errno = EAGAIN; return -1; } net::Packet p = s.q.front(); s.q.pop_front(); __asan_unpoison_memory_region(b, n); size_t k = std::min(n, p.data.size()); memcpy(b, p.data.data(), k); __asan_poison_memory_region((char*) b + k, n - k); // nothing behind the packet belongs to it
		socklen_t m; auto st = net::sa(p.from, m); memcpy(a, &st, std::min(*al, m)); *al = m; return k;
	} }
	return REAL(recvfrom)(fd, b, n, fl, a, al);
}
ssize_t __wrap_sendto(int fd, const void* b, size_t n, int fl, const sockaddr* a, socklen_t al)
{
	{ std::lock_guard<std::mutex> l(net::mx); if (ours(fd)) {
		auto& s = net::socks[fd]; str d((const char*) b, n); auto& m = net::machines[s.machine]; if (s.v6 && m.v6.empty()) { errno = ENETUNREACH; return -1; } net::Addr from; from.v6 = s.v6; from.bytes = s.v6 ? (m.v6.empty() ? str(15, 0) + "\1" : m.v6[0]) : !s.iface.empty() && s.iface != str(4, 0) ? s.iface : m.v4.empty() ? str("\x7f\0\0\1", 4) : m.v4[0]; from.port = s.port;
		net::Addr to; to.v6 = s.v6; to.bytes = s.v6 ? str((const char*) &((const sockaddr_in6*) a)->sin6_addr, 16) : str((const char*) &((const sockaddr_in*) a)->sin_addr, 4); to.port = ntohs(s.v6 ? ((const sockaddr_in6*) a)->sin6_port : ((const sockaddr_in*) a)->sin_port); net::sent.push_back({d, to});
		bool query = n > 3 && !(d[2] & 0x80); if (query && !s.service) s.client = true; bool multi = s.v6 ? (unsigned char) to.bytes[0] == 0xff : (unsigned char) to.bytes[0] == 224; if (multi) net::multicast(d, from);
		if (query && multi && !s.v6) { for (auto& p : net::scripted) net::multicast(p.data, p.from); net::scripted.clear(); } return n;
	} }
	return REAL(sendto)(fd, b, n, fl, a, al);
}
int __wrap_connect(int fd, const sockaddr* a, socklen_t n) { if (net::on && a->sa_family == AF_INET) { sockaddr_in s = *(const sockaddr_in*) a; s.sin_addr.s_addr = htonl(INADDR_LOOPBACK); return REAL(connect)(fd, (sockaddr*) &s, sizeof s); } return REAL(connect)(fd, a, n); }
}

// ---------------------------------------------------------------- DNS messages, written and read independently
typedef std::vector<str> Name;
static Name nameOf(const str& dotted) { Name n; size_t p = 0; while (p < dotted.size()) { size_t q = dotted.find('.', p); if (q == str::npos) q = dotted.size(); n.push_back(dotted.substr(p, q - p)); p = q + 1; } return n; }
static str dotted(const Name& n) { str o; for (auto& l : n) o += l + "."; return o; }
static void u16(str& o, unsigned v) { o += (char) (v >> 8); o += (char) v; }
struct Writer {
	str o; std::map<Name, size_t> at; Src& s; int mode; Writer(Src& x, int m) : s(x), mode(m) {}
	void name(const Name& n) { for (size_t i = 0; i < n.size(); i++) { Name rest(n.begin() + i, n.end()); auto f = at.find(rest); if (f != at.end() && (mode == 1 || (mode == 2 && s.coin()))) { u16(o, 0xC000 | f->second); return; } if (o.size() < 0x3000 && f == at.end()) at[rest] = o.size(); o += (char) n[i].size(); o += n[i]; } o += '\0'; }
	template<class F> void record(const Name& n, int type, int cls, F data) { name(n); u16(o, type); u16(o, cls); u16(o, 0); u16(o, 120); size_t l = o.size(); u16(o, 0); data(); size_t k = o.size() - l - 2; o[l] = (char) (k >> 8); o[l + 1] = (char) k; }
};
struct Rec { Name name; int type, cls; str data; Name target; int port = 0; size_t section; };
struct Reader {
	const str& d; size_t p = 0; explicit Reader(const str& x) : d(x) {}
	unsigned u8() { if (p >= d.size()) throw str("end of the packet"); return (unsigned char) d[p++]; }
	unsigned v16() { unsigned a = u8(); return a << 8 | u8(); }
	Name name() { Name n; size_t q = p; bool jumped = false; size_t limit = p, total = 0; for (;;) { if (q >= d.size()) throw str("name leaves the packet"); unsigned k = (unsigned char) d[q]; if ((k & 0xC0) == 0xC0) { if (q + 1 >= d.size()) throw str("half a pointer"); size_t t = (k & 0x3F) << 8 | (unsigned char) d[q + 1]; if (!jumped) p = q + 2; jumped = true; if (t >= limit) throw str("pointer not backwards"); limit = t; q = t; continue; } if (k & 0xC0) throw fmt("label length %u", k); q++; if (!k) break; if (q + k > d.size()) throw str("label leaves the packet"); n.push_back(d.substr(q, k)); q += k; total += k + 1; if (total > 255) throw str("name too long"); } if (!jumped) p = q; return n; }
	std::vector<Rec> all(unsigned& flags, std::vector<Rec>& questions)
	{
		v16(); flags = v16(); unsigned n[4]; for (auto& x : n) x = v16(); std::vector<Rec> v; for (unsigned i = 0; i < n[0]; i++) { Rec r; r.name = name(); r.type = v16(); r.cls = v16(); questions.push_back(r); }
		for (size_t k = 1; k < 4; k++) for (unsigned i = 0; i < n[k]; i++) { Rec r; r.section = k; r.name = name(); r.type = v16(); r.cls = v16(); v16(); v16(); size_t l = v16(), e = p + l; if (e > d.size()) throw str("record leaves the packet"); r.data = d.substr(p, l); if (r.type == 33) { v16(); v16(); r.port = v16(); r.target = name(); if (p != e) throw str("length of an SRV record"); } else if (r.type == 12) { r.target = name(); if (p != e) throw str("length of a PTR record"); } p = e; v.push_back(r); }
		return v;
	}
};
static const str kService = MVRXChange_Service;
static const int PTR = 12, TXT = 16, SRV = 33, A4 = 1, A6 = 28;

// ---------------------------------------------------------------- what is announced and found
struct Found { str host; unsigned port; std::set<str> v4, v6; str txt; bool operator<(const Found& o) const { return std::tie(host, port, v4, v6, txt) < std::tie(o.host, o.port, o.v4, o.v6, o.txt); } };
static str show(const Found& f) { str o = vp::quote(f.host) + fmt(":%u", f.port); for (auto& i : f.v4) o += " " + i; for (auto& i : f.v6) o += " " + i; return o + " " + vp::quote(f.txt); }
static str show(const std::set<Found>& v) { str o; for (auto& f : v) o += show(f) + "\n"; return o; }
static str genIp4(Src& s) { str b; switch (s.draw(3)) { case 0: b = "\x0a"; break; case 1: b = "\xc0\xa8"; break; default: b = "\xa9\xfe"; } while (b.size() < 3) b += (char) s.draw(4); b += (char) s.oneof<int>({1, 2, 7, 77, 127, 126, 128, 254}); return b; }
static str genIp6(Src& s) { str b = s.coin() ? str("\xfe\x80\0\0\0\0\0\0", 8) : str("\x20\x01\x0d\xb8\0\0\0\1", 8); for (int i = 0; i < 8; i++) b += (char) (s.coin() ? 0 : s.draw(256)); b[15] = (char) (1 + s.draw(200)); return b; }
static std::vector<net::Machine> genMachines(Src& s, size_t n)
{
	std::vector<net::Machine> v(n); std::set<str> used; auto fresh = [&](bool six) { for (;;) { str b = six ? genIp6(s) : genIp4(s); while (!used.insert(b).second) b[six ? 14 : 2]++; return b; } };
	for (auto& m : v) { for (size_t i = 0, k = 1 + (s.chance(30) ? s.draw(3) : 0); i < k; i++) m.v4.push_back(fresh(false)); if (s.chance(30)) for (size_t i = 0, k = 1 + s.draw(2); i < k; i++) m.v6.push_back(fresh(true)); } return v;
}
static str genGroup(Src& s) { static const std::vector<str> w = {"Default", "Def", "default", "D", "DefaultGroup", "Stage", "Stage-2", "Stage_2", "Stage2", "a", "_mvrxchange", "local", "0"}; if (s.chance(15)) return str(s.oneof<size_t>({1, 2, 62, 63}), s.oneof<char>({'x', 'Y', '-'})); return s.pick(w); }
static str genStationName(Src& s) { if (s.chance(15)) return str(s.oneof<size_t>({100, 190, 191, 192, 193, 194, 195, 196, 242, 243}), s.oneof<char>({'n', ' ', '='})); return s.chance(20) ? str(genUtf8(s, 60).c_str()) : s.chance(30) ? str() + s.oneof<const char*>({"K\xc3\xb6ln", "\xe6\x97\xa5\xe6\x9c\xac", "a=b", "", "x", "StationUUID=1"}) : fmt("S%d", (int) s.draw(9)); }
static void wellFormed(Ctx& c)
{
	std::vector<std::pair<str, net::Addr>> v; { std::lock_guard<std::mutex> l(net::mx); v.swap(net::sent); }
	for (auto& p : v) { str why; try { Reader r(p.first); unsigned fl; std::vector<Rec> q; r.all(fl, q); if (r.p + 1 < p.first.size()) why = "bytes left over"; } catch (str& e) { why = e; } if (!why.empty()) c.fail("sent-malformed", "a packet that is not a DNS message was sent (" + why + "): " + vp::quote(p.first)); }
}
static std::set<Found> search(Ctx& c, bool multi = true)
{
	mdns_cpp::mDNS m; auto r = m.executeQuery2(kService); std::set<Found> v; for (auto& q : r) { Found f; f.host = q.canonical_hostname; f.port = q.port; f.v4 = q.ipV4_address; f.v6 = q.ipV6_address; f.txt = q.txt; v.insert(f); if (!q.service_name.empty()) c.eq(q.service_name, q.canonical_hostname, "service-name", "the name of the service found"); } return v;
}

// ---------------------------------------------------------------- hostile packets
static str soundQuery(Src& s, bool unicast) { Writer w(s, 1); u16(w.o, 0); u16(w.o, 0); size_t n = s.chance(20) ? 2 : 1; u16(w.o, n); u16(w.o, 0); u16(w.o, 0); u16(w.o, 0); for (size_t i = 0; i < n; i++) { w.name(nameOf(s.chance(80) ? kService : s.coin() ? "_services._dns-sd._udp.local." : "_http._tcp.local.")); u16(w.o, s.chance(90) ? PTR : (int) s.oneof<int>({SRV, TXT, A4, 255})); u16(w.o, 1 | (unicast ? 0x8000 : 0)); } return w.o; }
struct Host { Name name; str v4, v6; std::vector<std::pair<Name, std::pair<int, str>>> inst; };
static Name join(Name a, const Name& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
static std::vector<str> soundAnswer(Src& s, const Host& h, size_t limit = 2000)
{
	struct Job { int k; size_t i; }; std::vector<std::vector<Job>> packets(1 + (s.chance(20) ? 1 : 0)); auto put = [&](Job j) { packets[s.draw(packets.size())].push_back(j); };
	for (size_t i = 0; i < h.inst.size(); i++) { put({PTR, i}); put({SRV, i}); if (!h.inst[i].second.second.empty()) put({TXT, i}); } if (!h.v4.empty()) put({A4, 0}); if (!h.v6.empty()) put({A6, 0}); std::vector<str> out;
	for (auto& jobs : packets) {
		for (size_t i = s.draw(3); i > 0; i--) jobs.push_back({0, 0}); for (size_t i = jobs.size(); i > 1; i--) std::swap(jobs[i - 1], jobs[s.draw(i)]); size_t cut1 = jobs.empty() ? 0 : s.draw(jobs.size() + 1), cut2 = cut1 + s.draw(jobs.size() - cut1 + 1); bool question = s.chance(20);
		Writer w(s, (int) s.draw(3)); u16(w.o, 0); u16(w.o, 0x8400); u16(w.o, question); u16(w.o, cut1); u16(w.o, cut2 - cut1); u16(w.o, jobs.size() - cut2); if (question) { w.name(nameOf(kService)); u16(w.o, PTR); u16(w.o, 1); }
		for (auto& j : jobs) { int cls = s.coin() ? 1 : 0x8001; switch (j.k) {
			case 12: { auto& n = h.inst[j.i].first; w.record(Name(n.begin() + 1, n.end()), PTR, 1, [&] { w.name(n); }); break; }
			case 33: w.record(h.inst[j.i].first, SRV, cls, [&] { u16(w.o, s.draw(3)); u16(w.o, 0); u16(w.o, h.inst[j.i].second.first); w.name(h.name); }); break;
			case 16: w.record(h.inst[j.i].first, TXT, cls, [&] { w.o += h.inst[j.i].second.second; }); break;
			case 1: w.record(h.name, A4, cls, [&] { w.o += h.v4; }); break;
			case 28: w.record(h.name, A6, cls, [&] { w.o += h.v6; }); break;
			default: w.record(s.coin() ? h.name : nameOf("x.local."), (int) s.oneof<int>({47, 13, 41, 5, 255}), cls, [&] { for (size_t i = s.draw(20); i > 0; i--) w.o += (char) s.draw(256); }); } }
		if (w.o.size() > limit) throw vp::Discard{}; out.push_back(w.o);
	}
	return out;
}
static str damage(Src& s, str d)
{
	size_t n = 1 + s.count(4);
	for (size_t i = 0; i < n; i++) {
		size_t p = d.empty() ? 0 : s.draw(d.size());
		switch (s.draw(9)) {
			case 0: d.resize(p); break;
			case 1: if (!d.empty()) d[p] = (char) s.draw(256); break;
			case 2: if (d.size() > p + 1) { unsigned t = (unsigned) (s.coin() ? p : s.draw(d.size() + 4)); d[p] = (char) (0xC0 | t >> 8); d[p + 1] = (char) t; } break;
			case 3: if (d.size() >= 12) { size_t q = 4 + 2 * s.draw(4); unsigned v = (unsigned) s.oneof<int>({0, 1, 2, 3, 9, 255, 65535}); d[q] = (char) (v >> 8); d[q + 1] = (char) v; } break;
			case 4: d.insert(p, str(1 + s.draw(4), (char) s.draw(256))); break;
			case 5: d.erase(p, 1 + s.draw(4)); break;
			case 6: if (d.size() > p + 1) { unsigned v = (unsigned) s.oneof<int>({0, 1, 3, 5, 7, 8, 15, 17, 255, 1000, 65535}); d[p] = (char) (v >> 8); d[p + 1] = (char) v; } break;
			case 7: d += str(s.draw(40), (char) s.oneof<int>({0, 1, 63, 0xC0, 0xFF})); break;
			default: if (!d.empty()) d[p] = (char) s.oneof<int>({0, 1, 63, 64, 0x80, 0xC0, 0xFF}); } }
	if (d.size() > 2048) d.resize(2048); return d;
}
static Host genHost(Src& s, const str& ip, size_t i)
{
	Host h; h.name = nameOf(fmt("%s%zu.local.", s.oneof<const char*>({"host", "my computer", "Default", "K\xc3\xb6ln"}), i)); h.v4 = ip; if (s.chance(30)) h.v6 = genIp6(s); std::set<str> used;
	for (size_t k = 0, n = 1 + s.draw(3); k < n; k++) { str g = s.chance(80) ? genGroup(s) : s.oneof<const char*>({"with blank", "\xe6\x97\xa5"}); str low = g; for (char& x : low) x = (char) tolower(x); if (!used.insert(low).second) continue; str t; for (size_t q = s.draw(4); q > 0; q--) { str x = s.coin() ? "StationName=" + genStationName(s).substr(0, 243) : fmt("k%d=v", (int) s.draw(9)); t += (char) x.size(); t += x; } if (t.empty()) t = str(1, 0); h.inst.push_back({join({g}, nameOf(s.chance(80) ? kService : "_http._tcp.local.")), {(int) s.draw(65536), t}}); }
	return h;
}
static Found foundOf(const Host& h, size_t k) { Found f; f.host = dotted(h.inst[k].first); f.port = h.inst[k].second.first; if (!h.v4.empty()) f.v4.insert(net::text(h.v4)); if (!h.v6.empty()) f.v6.insert(net::text(h.v6)); f.txt = h.inst[k].second.second; return f; }
static str noise(Src& s) { str d; for (size_t i = s.coin() ? s.draw(64) : s.draw(2048); i > 0; i--) d += (char) s.oneof<int>({0, 1, 12, 33, 16, 5, 0xC0, (int) s.draw(256)}); return d; }
static str hostilePacket(Src& s) { switch (s.draw(4)) { case 0: return damage(s, soundQuery(s, s.coin())); case 1: return noise(s); default: { Host h = genHost(s, genIp4(s), 99); return damage(s, s.pick(soundAnswer(s, h))); } } }

// ---------------------------------------------------------------- properties
struct Station { size_t machine; str host; uint16_t port; str txt; std::vector<std::unique_ptr<mdns_cpp::mDNS>> m; };
static void injected(Src& s, const str& d) { std::lock_guard<std::mutex> l(net::mx); net::Addr a; a.v6 = s.chance(10); a.bytes = a.v6 ? genIp6(s) : str("\x0a\x63\x63\x63", 4); net::multicast(d, a); }
typedef std::set<std::pair<size_t, unsigned>> Ports;
static std::unique_ptr<Station> announce(Src& s, Ctx& c, const std::vector<net::Machine>& ms, Ports& ports, size_t& socks)
{
	std::unique_ptr<Station> x(new Station); x->machine = s.draw(ms.size()); x->host = genGroup(s); if (s.chance(6)) x->host = str(s.oneof<size_t>({64, 65, 192, 200, 255, 256, 257, 300, 430, 500, 1000}), 'x'); do x->port = (uint16_t) (s.coin() ? s.draw(65536) : 50000 + s.draw(5)); while (!ports.insert({x->machine, x->port}).second); str n = "StationName=" + genStationName(s), u = "StationUUID=01234567-89ab-cdef-0123-456789abcdef"; n.resize(std::min<size_t>(n.size(), 255)); x->txt += (char) n.size(); x->txt += n; x->txt += (char) u.size(); x->txt += u;
	{ std::lock_guard<std::mutex> l(net::mx); net::current = x->machine; }
	for (auto& ip : ms[x->machine].v4) { uint32_t v; memcpy(&v, ip.data(), 4); x->m.emplace_back(new mdns_cpp::mDNS); auto& m = *x->m.back(); m.setServiceHostname(x->host); m.setServicePort(x->port); m.setServiceIP(v); m.setServiceName(kService); m.setServiceTxtRecord(x->txt); m.startService(); socks += 2; c.check(net::waitServices(socks), "not-listening", "a service does not listen"); }
	c.sample += fmt("machine %zu announces ", x->machine) + vp::quote(x->host) + fmt(":%u %zu bytes of text\n", x->port, x->txt.size()); return x;
}
// what the library announces is found, beside any packets
static void announced(Src& s, Ctx& c)
{
	size_t nm = 1 + s.draw(3); auto ms = genMachines(s, nm); net::reset(ms); std::vector<std::unique_ptr<Station>> st; size_t steps = 2 + s.draw(6), socks = 0; Ports ports; size_t most = 0, bad = 0;
	auto stop = [&](size_t i) { for (auto& m : st[i]->m) m->stopService(); socks -= 2 * st[i]->m.size(); st.erase(st.begin() + i); };
	for (size_t q = 0; q < steps; q++) {
		if (st.empty() || s.chance(65)) {
			st.push_back(announce(s, c, ms, ports, socks));
		} else if (s.chance(40)) { size_t i = s.draw(st.size()); c.sample += "stop " + vp::quote(st[i]->host) + fmt(":%u\n", st[i]->port); stop(i); c.check(net::waitServices(socks), "still-listening", "a stopped service still listens"); }
		else { size_t n = 1 + s.count(4); for (size_t i = 0; i < n; i++) { str d = s.chance(20) ? soundQuery(s, s.coin()) : hostilePacket(s); c.sample += "packet " + vp::quote(d).substr(0, 300) + "\n"; injected(s, d); bad++; } c.check(net::waitQuiet(), "stuck", "a service does not come back from a packet"); }
		most = std::max(most, st.size()); std::set<Found> want; for (auto& x : st) { if (x->host.size() > 63) continue; Found f; f.host = x->host + "." + kService; f.port = x->port; for (auto& ip : ms[x->machine].v4) f.v4.insert(net::text(ip)); if (!ms[x->machine].v6.empty()) f.v6.insert(net::text(ms[x->machine].v6[0])); f.txt = x->txt; want.insert(f); }
		{ std::lock_guard<std::mutex> l(net::mx); net::current = s.draw(nm); } auto got = search(c); c.eq(show(got), show(want), "found", fmt("step %zu: what is found", q)); wellFormed(c);
	}
	while (!st.empty()) stop(0); { std::lock_guard<std::mutex> l(net::mx); c.eq(net::socks.size(), (size_t) 0, "sockets-left", "sockets left open"); } c.nontrivial = most >= 2 || bad >= 1;
}
// every question gets its answer, where the asker wants it, and nothing else is answered
static str showAddr(const net::Addr& a) { return net::text(a.bytes) + fmt(":%u", a.port); }
static str answerOf(const str& d)
{
	Reader r(d); unsigned fl; std::vector<Rec> q; auto v = r.all(fl, q); str o = fl == 0x8400 ? "" : fmt("flags %x ", fl); std::set<str> parts; for (auto& x : v) { str p = dotted(x.name); switch (x.type) { case PTR: p += " ptr " + dotted(x.target); break; case SRV: p += " srv " + dotted(x.target) + fmt(" %d", x.port); break; case A4: case A6: p += " at " + net::text(x.data); break; case TXT: p += " txt " + vp::quote(x.data); break; default: p += fmt(" type %d", x.type); } parts.insert(p); }
	for (auto& p : parts) o += p + "; "; for (auto& x : q) o += "asked " + dotted(x.name) + fmt(" %d", x.type); return o;
}
static void questions(Src& s, Ctx& c)
{
	size_t nm = 1 + s.draw(2); auto ms = genMachines(s, nm); net::reset(ms); std::vector<std::unique_ptr<Station>> st; Ports ports; size_t socks = 0, asked = 0; for (size_t i = 1 + s.draw(2); i > 0; i--) st.push_back(announce(s, c, ms, ports, socks));
	static const str kAll = "_services._dns-sd._udp.local."; static const std::vector<str> other = {"_http._tcp.local.", "_mvrxchange._udp.local.", "_mvrxchange._tcp.", "_mvrxchange.local.", "_mvrxchange._tcp.local.local.", "x._mvrxchange._tcp.local.", "_services._dns-sd._tcp.local.", "_mvrxchang._tcp.local.", "_mvrxchange2._tcp.local.", "local.", "."};
	for (size_t k = 1 + s.draw(3); k > 0; k--) {
		{ std::lock_guard<std::mutex> l(net::mx); net::sent.clear(); }
		net::Addr from; from.v6 = s.chance(30); from.bytes = from.v6 ? genIp6(s) : str("\x0a\x63\x63\x63", 4); from.port = s.coin() ? 5353 : (uint16_t) (1024 + s.draw(60000)); unsigned id = s.coin() ? 0 : (unsigned) s.draw(65536);
		struct Q { str name; int type; bool uni; }; std::vector<Q> qs(1 + (s.chance(30) ? 1 + s.draw(2) : 0)); bool all = qs.size() == 1 && s.chance(25); for (auto& q : qs) { q.name = all ? kAll : s.chance(75) ? kService : s.pick(other); q.type = s.chance(85) ? PTR : (int) s.oneof<int>({SRV, TXT, A4, A6, 255}); q.uni = s.coin(); }
		Writer w(s, (int) s.draw(3)); u16(w.o, id); u16(w.o, 0); u16(w.o, qs.size()); u16(w.o, 0); u16(w.o, 0); u16(w.o, 0); c.sample += fmt("asked by %s id %u:", showAddr(from).c_str(), id); for (auto& q : qs) { w.name(q.name == "." ? Name() : nameOf(q.name)); u16(w.o, q.type); u16(w.o, q.uni ? 0x8001 : 1); c.sample += fmt(" %s %d%s", q.name.c_str(), q.type, q.uni ? " unicast" : ""); } c.sample += "\n";
		std::multiset<str> want, got; net::Addr mc; mc.v6 = from.v6; mc.bytes = from.v6 ? str("\xff\2", 2) + str(13, 0) + "\xfb" : str("\xe0\0\0\xfb", 4);
		for (auto& x : st) { auto& m = ms[x->machine]; if (from.v6 && m.v6.empty()) continue; for (auto& ip : m.v4) for (auto& q : qs) { if (q.type != PTR) continue;
			if (q.name == kAll) { want.insert(showAddr(from) + " " + kAll + " ptr " + kService + "; asked " + kAll + fmt(" %d", PTR)); continue; }
			if (q.name != kService || x->host.size() > 63) continue; str full = x->host + "." + kService, srv; std::set<str> parts = {kService + " ptr " + full, full + " srv @" + fmt(" %d", x->port), "@ at " + net::text(ip), full + " txt " + vp::quote(x->txt)}; if (!m.v6.empty()) parts.insert("@ at " + net::text(m.v6[0]));
			str o = showAddr(q.uni ? from : mc) + " "; for (auto& p : parts) o += p + "; "; if (q.uni) o += "asked " + kService + fmt(" %d", PTR); want.insert(o); } }
		{ std::lock_guard<std::mutex> l(net::mx); net::multicast(w.o, from); } c.check(net::waitQuiet(), "stuck", "a service does not come back from a question");
		std::vector<std::pair<str, net::Addr>> v; { std::lock_guard<std::mutex> l(net::mx); v.swap(net::sent); }
		for (auto& p : v) { str a; try { a = answerOf(p.first); } catch (str& e) { c.fail("sent-malformed", "the answer is not a DNS message (" + e + "): " + vp::quote(p.first)); }
			// the name of the host is the station's choice, it has only to be the same one everywhere
			size_t k1 = a.find(" srv "); if (k1 != str::npos) { k1 += 5; size_t k2 = a.find(' ', k1); str h = a.substr(k1, k2 - k1); std::set<str> parts; str head, tail; size_t i = 0; while (i < a.size()) { size_t j = a.find("; ", i); if (j == str::npos) { tail = a.substr(i); break; } str p = a.substr(i, j - i); i = j + 2; size_t at = p.find(" srv " + h + " "); if (at != str::npos) p = p.substr(0, at + 5) + "@" + p.substr(at + 5 + h.size()); else if (p.compare(0, h.size() + 4, h + " at ") == 0) p = "@" + p.substr(h.size()); parts.insert(p); } a.clear(); for (auto& p : parts) a += p + "; "; a += tail; }
			got.insert(showAddr(p.second) + " " + a); if (p.second.bytes == from.bytes && p.first.size() > 2 && a.find(kAll) == str::npos) c.eq((unsigned) ((unsigned char) p.first[0] << 8 | (unsigned char) p.first[1]), id, "id", "the id of the answer to the asker"); }
		str g, x; for (auto& o : got) g += o + "\n"; for (auto& o : want) x += o + "\n"; c.eq(g, x, "answers", "what is sent to answer"); asked += !want.empty();
	}
	for (auto& x : st) for (auto& m : x->m) m->stopService(); st.clear(); { std::lock_guard<std::mutex> l(net::mx); c.eq(net::socks.size(), (size_t) 0, "sockets-left", "sockets left open"); } c.nontrivial = asked > 0;
}
// answers of other implementations are understood, beside any packets
static void answered(Src& s, Ctx& c)
{
	net::reset(genMachines(s, 1)); std::set<Found> want; size_t n = s.count(4), bad = 0; std::vector<net::Packet> v; std::set<str> ips;
	for (size_t i = 0; i < n; i++) { str ip = genIp4(s); while (!ips.insert(ip).second) ip[2]++; Host h = genHost(s, s.chance(92) ? ip : str(), i); net::Addr a; a.bytes = ip; for (auto& d : soundAnswer(s, h)) { v.push_back({d, a}); c.sample += "answer " + vp::quote(d) + "\n"; if (s.chance(15)) v.push_back({d, a}); } for (size_t k = 0; k < h.inst.size(); k++) want.insert(foundOf(h, k)); }
	size_t nb = s.chance(60) ? 1 + s.count(5) : 0; str evil("\x0a\x63\x63\x63", 4); for (size_t i = 0; i < nb; i++) { net::Addr a; a.bytes = evil; str d = hostilePacket(s); v.insert(v.begin() + s.draw(v.size() + 1), {d, a}); c.sample += "packet " + vp::quote(d) + "\n"; bad++; }
	{ std::lock_guard<std::mutex> l(net::mx); for (auto& p : v) net::scripted.push_back(p); }
	mdns_cpp::mDNS m; auto r = m.executeQuery2(kService); std::set<Found> got; for (auto& q : r) { if (q.mdnsAddress.compare(0, 11, "10.99.99.99") == 0) continue; Found f; f.host = q.canonical_hostname; f.port = q.port; f.v4 = q.ipV4_address; f.v6 = q.ipV6_address; f.txt = q.txt; got.insert(f); c.eq(q.service_name, q.canonical_hostname, "service-name", "the name of the service found"); }
	c.eq(show(got), show(want), "found", "what is found"); wellFormed(c); { std::lock_guard<std::mutex> l(net::mx); c.eq(net::socks.size(), (size_t) 0, "sockets-left", "sockets left open"); } c.nontrivial = want.size() >= 2 || bad >= 1;
}
// whole stations: join, leave, search
static str filtered(const str& g) { str o; for (char x : g) if (isalnum((unsigned char) x) || x == '-' || x == '_') o += x; return o; }
static Msg silent(const Msg&, void*) { Msg m; m.Type = T::MVR_JOIN_RET; m.RetIsOK = true; return m; }
static void stations(Src& s, Ctx& c)
{
	size_t nm = 1 + s.draw(3), n = 2 + s.draw(2); auto ms = genMachines(s, nm); net::reset(ms); struct One { std::unique_ptr<CMVRxchangeServiceImpl> impl; size_t machine; bool in = false; str group, name; MvrUUID id; unsigned port = 0; }; std::vector<One> st(n); size_t socks = 0, most = 0;
	for (size_t i = 0; i < n; i++) { st[i].impl.reset(new CMVRxchangeServiceImpl); st[i].machine = s.draw(nm); st[i].id = genUuid(s); st[i].id.a = (Uint32) i + 1; X::OnMessageArgs a; a.IncomingCallback = silent; a.ReturningCallback = nullptr; a.Context = nullptr; st[i].impl->OnMessage(a); }
	auto use = [&](size_t i) { std::lock_guard<std::mutex> l(net::mx); net::current = st[i].machine; };
	auto leave = [&](size_t i) { use(i); st[i].impl->LeaveLocalService(); if (st[i].in) socks -= 2 * ms[st[i].machine].v4.size(); st[i].in = false; c.check(net::waitServices(socks), "still-listening", "a station that left is still announced"); };
	size_t steps = 2 + s.draw(4);
	for (size_t q = 0; q < steps; q++) {
		size_t i = s.draw(n); One& x = st[i];
		if (!x.in || s.chance(30)) {
			if (x.in && s.coin()) leave(i); use(i); X::ConnectToLocalServiceArgs a; x.group = genGroup(s); x.name = genStationName(s); str g = x.group; if (s.chance(30)) g.insert(s.draw(g.size() + 1), s.oneof<const char*>({" ", ".", "\xc3\xa4", "/", "!"})); a.Service = g.c_str(); a.StationName = x.name.c_str(); a.StationUUID = x.id; a.Provider = "P"; a.VersionMajor = 1; a.VersionMinor = 6; size_t before = x.in ? 2 * ms[x.machine].v4.size() : 0;
			c.sample += fmt("station %zu on machine %zu (%s) joins ", i, x.machine, net::text(ms[x.machine].v4[0]).c_str()) + vp::quote(g) + " as " + vp::quote(x.name) + "\n"; c.eq((int) x.impl->ConnectToLocalService(a), 0, "rc", "ConnectToLocalService"); socks += 2 * ms[x.machine].v4.size() - before; x.in = true; c.check(net::waitServices(socks), "not-listening", "a station that joined is not announced"); size_t k; x.impl->QueryLocalServices(k);
		} else if (s.coin()) { c.sample += fmt("station %zu leaves\n", i); leave(i); }
		size_t in = 0; for (auto& y : st) in += y.in; most = std::max(most, in); size_t by = s.draw(n); use(by); size_t k = 0; c.eq((int) st[by].impl->QueryLocalServices(k), 0, "rc", "QueryLocalServices"); std::set<str> want, got; size_t expect = 0;
		for (size_t j = 0; j < n; j++) if (st[j].in && j != by) { expect++; str o = st[j].group + "." + kService + " "; std::set<str> v4; for (auto& ip : ms[st[j].machine].v4) v4.insert(net::text(ip)); for (auto& t : v4) o += t + " "; if (!ms[st[j].machine].v6.empty()) o += net::text(ms[st[j].machine].v6[0]) + " "; want.insert(o + vp::quote(st[j].name) + " " + uuidText(st[j].id)); }
		c.eq(k, expect, "count", fmt("step %zu: number of stations station %zu finds", q, by)); std::map<str, std::set<unsigned>> ports;
		for (size_t j = 0; j < k; j++) { X::ConnectToLocalServiceArgs a; c.eq((int) st[by].impl->GetLocalServiceAt(j, a), 0, "rc", "GetLocalServiceAt"); str o = str(a.Service.fBuffer) + " "; for (auto& ip : a.IPv4_list) o += str(ip.fBuffer) + " "; for (auto& ip : a.IPv6_list) o += str(ip.fBuffer) + " "; got.insert(o + vp::quote(a.StationName.fBuffer) + " " + uuidText(a.StationUUID)); c.check(a.Port != 0, "port", "a station without a port"); }
		str w, g; for (auto& o : want) w += o + "\n"; for (auto& o : got) g += o + "\n"; c.eq(g, w, "stations", fmt("step %zu: what station %zu finds", q, by)); X::ConnectToLocalServiceArgs a; c.check(st[by].impl->GetLocalServiceAt(k, a) != 0, "beyond", "a station beyond the last one"); wellFormed(c);
	}
	for (size_t i = 0; i < n; i++) { leave(i); use(i); st[i].impl.reset(); } c.nontrivial = most >= 2;
}
VP_SUITE
{
	s.property = "X04"; s.rule = "at least two stations are there, or at least one damaged packet, or a question that has an answer"; s.quickCases = 12000; s.thoroughCases = 200000; s.cpuLimit = 20; s.wallLimit = 60;
	s.props = {{"announced", 30, announced}, {"answered", 60, answered}, {"questions", 15, questions}, {"stations", 1, stations}};
}
