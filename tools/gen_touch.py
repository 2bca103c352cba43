#!/usr/bin/env python3
"""Writes harness/touch.h: a walker that calls every observer (Get*, Is*, Has*) of every public interface.

The interfaces are taken from IMediaRessourceVectorInterface.h. Run it again when that header changes; the result is committed.
"""
import os, re, sys
repo = os.environ.get('VP_REPO', '/repo')
src = open(repo + '/src/Include/IMediaRessourceVectorInterface.h', encoding='latin1').read()
src = re.sub(r'/\*.*?\*/', '', re.sub(r'//.*', '', src), flags=re.S)
# called with conditions of their own, by hand
skip = {'IGdtfCRI.GetColorSample', 'IGdtfFixture.GetBuffer'}
out, decl, bodies = [], [], []
kinds = []
classes = list(re.finditer(r'class\s+DYNAMIC_ATTRIBUTE\s+(\w+)\s*:\s*public\s+\w+\s*\{(.*?)\n\s*\};', src, re.S))
known = {m.group(1) for m in classes}
unhandled = []
for m in classes:
    c, b = m.group(1), []
    fs = []
    for f in re.finditer(r'virtual\s+([\w:\s\*]+?)\s+VCOM_CALLTYPE\s+(\w+)\s*\(([^;]*)\)\s*=\s*0', m.group(2)):
        r, n, a = f.groups()
        if re.match(r'(Get|Is|Has)', n): fs.append((r, n, [re.sub(r'\s+', ' ', x.strip()) for x in a.split(',')] if a.strip() else []))
    counts = {n for r, n, a in fs if len(a) == 1 and re.match(r'size_t ?&', a[0])}
    def ty(x): return re.sub(r'\s*(const|VectorworksMVR::)\s*', '', re.match(r'(.*?[&\*\s])\w+$', x).group(1)).replace(' ', '')
    def count_for(n):
        s = n[3:-2]
        al = {'GetAttachedFileCountAt': 'GetAttachedFileCount', 'GetValueAt': 'GetKeyValueCount', 'GetKeyAt': 'GetKeyValueCount', 'GetAdressAt': 'GetAdressCount', 'GetDMXComponentAt': 'GetDMXComponentCount'}
        for k in (al.get(n, ''), 'Get' + s + 'Count', 'Get' + s + 'sCount', 'GetCount' + s, 'GetCount' + s + 's', 'Get' + s[:-1] + 'Count' if s.endswith('s') else ''):
            if k in counts: return k
        return ''
    used = set()
    for r, n, a in fs:
        full = c + '.' + n
        if full in skip: continue
        b.append('w.now("%s");' % full)
        t = [ty(x) for x in a]
        obj = [re.match(r'(I\w+)\*\*$', x) for x in t]
        if 'void*' in r and not a: b.append('w.bound(p, "%s");' % c); continue
        if r == 'MvrString' and not a: b.append('w.text(p->%s());' % n); continue
        if r == 'MvrString' and t == ['size_t']:
            k = count_for(n); used.add(k)
            b.append('{ %s for (size_t i : w.indices(n, ok)) w.text(p->%s(i)); }' % ('size_t n = 0; bool ok = w.rc(p->%s(n)) == 0;' % k if k else 'size_t n = 0; bool ok = false;', n)); continue
        if 'VCOMError' not in r: unhandled.append(full + ' ' + r); continue
        if full in ('IMediaRessourceVectorInterface.GetFirstChild', 'IMediaRessourceVectorInterface.GetNextObject'): continue
        if full == 'IGdtfGeometry.GetCountLinkedDmxChannel':
            b.append('for (auto m : w.modes) { size_t n = 0; w.rc(p->GetCountLinkedDmxChannel(n, m)); }'); continue
        if full == 'IGdtfGeometry.GetLinkedDmxChannelAt':
            b.append('for (auto m : w.modes) { size_t n = 0; bool ok = w.rc(p->GetCountLinkedDmxChannel(n, m)) == 0; for (size_t i : w.indices(n, ok)) { VCOMPtr<IGdtfDmxChannel> o; w.at("%s", i, n, ok, w.rc(p->%s(i, &o, m)), o); w.child(o); } }' % (full, n)); continue
        if t and t[0] in ('size_t', 'size_t&') and n.endswith('At') or n == 'GetFootprintForBreak' :
            k = count_for(n)
            used.add(k)
            pre = 'size_t n = 0; bool ok = w.rc(p->%s(n)) == 0;' % k if k else 'size_t n = 0; bool ok = false;'
            if not k: unhandled.append('no count: ' + full)
            if len(t) == 2 and obj[1]:
                if t[1] in ('SProtocol**',): pass
                b.append('{ %s for (size_t i : w.indices(n, ok)) { size_t j = i; VCOMPtr<%s> o; w.at("%s", i, n, ok, w.rc(p->%s(j, &o)), o); w.child(o); } }' % (pre, obj[1].group(1), full, n)); continue
            if len(t) == 2 and t[1] == 'SProtocol**':
                b.append('{ %s for (size_t i : w.indices(n, ok)) { SProtocol* o = nullptr; int e = w.rc(p->%s(i, &o)); w.at("%s", i, n, ok, e, true); if (e == 0 && o) { w.text(o->fGeometry); w.text(o->fName); w.text(o->fType); w.text(o->fVersion); w.v(o->fTransmision); } delete o; } }' % (pre, n, full)); continue
            if len(t) == 2 and t[1].endswith('&'):
                b.append('{ %s for (size_t i : w.indices(n, ok)) { %s o{}; int e = w.rc(p->%s(i, o)); w.at("%s", i, n, ok, e, true); if (e == 0) w.v(o, "%s"); } }' % (pre, t[1][:-1], n, full, full)); continue
        if len(t) == 2 and t == ['void**', 'size_t&']:
            b.append('{ void* q = nullptr; size_t n = 0; if (w.rc(p->%s(&q, n)) == 0 && q) delete[] (char*) q; }' % n); continue
        if t and obj[0] and all(x.endswith('&') for x in t[1:]):
            b.append('{ VCOMPtr<%s> o; %s if (w.rc(p->%s(&o%s)) == 0) { w.v((bool) o);%s } w.%s(o); }' % (obj[0].group(1), ' '.join('%s v%d{};' % (x[:-1], i) for i, x in enumerate(t[1:])), n, ''.join(', v%d' % i for i in range(len(t) - 1)), ''.join(' w.v(v%d, "%s");' % (i, full) for i in range(len(t) - 1)), 'child' if n in ('GetArtNet', 'GetRDM', 'GetSACN', 'GetMacroDMX', 'GetMacroVisual', 'GetAnimationSystem') else 'ref')); continue
        if t and all(x.endswith('&') for x in t):
            b.append('{ %s if (w.rc(p->%s(%s)) == 0) {%s } }' % (' '.join('%s v%d{};' % (x[:-1], i) for i, x in enumerate(t)), n, ', '.join('v%d' % i for i in range(len(t))), ''.join(' w.v(v%d, "%s");' % (i, full) for i in range(len(t))))); continue
        unhandled.append(full + ' ' + ','.join(t))
    decl.append('\tvoid walk(%s* p);' % c)
    bodies.append('inline void Walk::walk(%s* p)\n{\n\tauto& w = *this; (void) w;\n%s}\n' % (c, ''.join('\t' + x + '\n' for x in b)))
for u in unhandled: print(u, file=sys.stderr)
h = '''// Generated by tools/gen_touch.py from IMediaRessourceVectorInterface.h: calls every observer of every public interface.
// Error codes are not judged here, except (in problems) that an index below the reported count succeeds and any other fails.
#pragma once
#include "doc_tree.h"
namespace touch {
using namespace VectorworksMVR;
using vp::str; using vp::fmt;
struct Walk {
	size_t left = 20000, most = 40; int hops = 0, maxHops = 2, depth = 0; std::vector<IGdtfDmxMode*> modes; std::vector<str> problems; size_t objects = 0, calls = 0, okCalls = 0, bytes = 0;
	uint64_t digest = 1469598103934665603ull; bool wide = false;
	// which getter is being called, and what the digest was before it
	const char* cur = ""; std::vector<std::pair<const char*, uint64_t>> trace;
	void now(const char* n) { cur = n; if (trace.size() < 60000) trace.push_back({n, digest}); }
	void mix(const void* p, size_t n) { for (size_t i = 0; i < n; i++) digest = (digest ^ ((const unsigned char*) p)[i]) * 1099511628211ull; }
	// what a getter gave, without padding
	template <class T> void v(const T& x, const char* what = "") { mix(&x, sizeof x); bool un = sizeof x >= 4; for (size_t i = 0; i < sizeof x; i++) un = un && ((const unsigned char*) &x)[i] == 0xbe; if (un) problems.push_back(str(what) + " gives memory that nobody wrote"); }
	void v(const SDmxAdress& x, const char* = "") { v(x.fBreakId); v(x.fAbsuluteAdress); }
	void v(const STime& x, const char* = "") { v(x.fYear); v(x.fMonth); v(x.fDay); v(x.fHour); v(x.fMinute); v(x.fSecond); }
	int rc(VCOMError e) { calls++; okCalls += e == 0; int k = (int) e; mix(&k, sizeof k); return k; }
	void text(MvrString t) { calls++; if (t) { bytes += strlen(t); mix(t, strlen(t) + 1); } else mix("\\0", 2); }
	// what an application hung on the objects: 1 hangs a mark of its own on every object that has none, 2 other marks, else the marks are only read
	int hang = 0; std::vector<size_t> marks; std::map<size_t, str> owner;
	template <class P> static auto nameOf(P* p, int) -> decltype(str(p->GetName())) { MvrString n = p->GetName(); return n ? n : ""; }
	template <class P> static str nameOf(P*, long) { return ""; }
	template <class P> void bound(P* p, const char* cls)
	{
		size_t m = (size_t) p->GetBoundObject(); if (!hang || (hang != 1 && !m)) return;
		str me = str(cls) + " " + nameOf(p, 0);
		if (hang == 1 && m == 0) { m = 1000 + owner.size(); if (p->BindToObject((void*) m) != kVCOMError_NoError) return; owner[m] = me; if ((size_t) p->GetBoundObject() != m) problems.push_back(me + " does not give its mark back"); }
		else { auto o = owner.find(m % 1000000); if (o == owner.end()) { if (m || hang == 1) problems.push_back(me + fmt(" bears a mark that nobody gave it: %zu", m)); } else if (o->second != me) problems.push_back(me + " bears the mark of " + o->second); }
		if (hang == 2 && m < 1000000) { m += 1000000; p->BindToObject((void*) m); }
		marks.push_back(m % 1000000);
	}
	std::vector<size_t> indices(size_t n, bool known)
	{
		std::vector<size_t> r; size_t k = known ? std::min(n, most) : 3; for (size_t i = 0; i < k; i++) r.push_back(i);
		if (known && n > most) r.push_back(n - 1);
		if (known) { r.push_back(n); r.push_back(n + 1); }
		// what 32 or 31 bits of these leave of the index is inside
		if (wide) for (size_t b : {(size_t) 1 << 31, (size_t) 1 << 32, ((size_t) 1 << 32) + (n ? n - 1 : 0), (size_t) 1 << 63, ((size_t) 1 << 63) + (n ? n - 1 : 0), (size_t) 255, (size_t) 256, (size_t) 65536}) if (b > n + 1) r.push_back(b);
		r.push_back((size_t) -1); return r;
	}
	template <class O> void at(const char* what, size_t i, size_t n, bool known, int e, const O& o) { bool got = e == 0 && (bool) o; if (known && got != (i < n)) problems.push_back(fmt("%s(%zd) of %zu gives code %d and %s object", what, (ssize_t) i, n, e, (bool) o ? "an" : "no")); }
	template <class T> void go(VCOMPtr<T>& o, int h) { T* p = o; if (!p || hops + h > maxHops || depth > 40 || !left) return; left--; objects++; hops += h; depth++; walk(p); hops -= h; depth--; }
	template <class T> void child(VCOMPtr<T>& o) { if (hops == 0) go(o, 0); }
	template <class T> void ref(VCOMPtr<T>& o) { go(o, 1); }
''' + '\n'.join(decl) + '\n};\n' + '\n'.join(bodies) + '} // namespace touch\n'
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness', 'touch.h'), 'w').write(h)
