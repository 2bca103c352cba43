// Generated by tools/gen_touch.py from IMediaRessourceVectorInterface.h: calls every observer of every public interface.
// Error codes are not judged here, except (in problems) that an index below the reported count succeeds and any other fails.
#pragma once
#include "doc_tree.h"
namespace touch {
using namespace VectorworksMVR;
using vp::str; using vp::fmt;
struct Walk {
	size_t left = 20000, most = 40; int hops = 0, maxHops = 2, depth = 0; std::vector<IGdtfDmxMode*> modes; std::vector<str> problems; size_t objects = 0, calls = 0, okCalls = 0, bytes = 0;
	uint64_t digest = 1469598103934665603ull; bool wide = false;
	// which getter is being called, and what the digest was before it
	const char* cur = ""; std::vector<std::pair<const char*, uint64_t>> trace;
	void now(const char* n) { cur = n; if (trace.size() < 60000) trace.push_back({n, digest}); }
	void mix(const void* p, size_t n) { for (size_t i = 0; i < n; i++) digest = (digest ^ ((const unsigned char*) p)[i]) * 1099511628211ull; }
	// what a getter gave, without padding
	template <class T> void v(const T& x, const char* what = "") { mix(&x, sizeof x); bool un = sizeof x >= 4; for (size_t i = 0; i < sizeof x; i++) un = un && ((const unsigned char*) &x)[i] == 0xbe; if (un) problems.push_back(str(what) + " gives memory that nobody wrote"); }
	void v(const SDmxAdress& x, const char* = "") { v(x.fBreakId); v(x.fAbsuluteAdress); }
	void v(const STime& x, const char* = "") { v(x.fYear); v(x.fMonth); v(x.fDay); v(x.fHour); v(x.fMinute); v(x.fSecond); }
	int rc(VCOMError e) { calls++; okCalls += e == 0; int k = (int) e; mix(&k, sizeof k); return k; }
	void text(MvrString t) { calls++; if (t) { bytes += strlen(t); mix(t, strlen(t) + 1); } else mix("\0", 2); }
	// what an application hung on the objects: 1 hangs a mark of its own on every object that has none, 2 other marks, else the marks are only read
	int hang = 0; std::vector<size_t> marks; std::map<size_t, str> owner;
	template <class P> static auto nameOf(P* p, int) -> decltype(str(p->GetName())) { MvrString n = p->GetName(); return n ? n : ""; }
	template <class P> static str nameOf(P*, long) { return ""; }
	template <class P> void bound(P* p, const char* cls)
	{
		size_t m = (size_t) p->GetBoundObject(); if (!hang || (hang != 1 && !m)) return;
		str me = str(cls) + " " + nameOf(p, 0);
		if (hang == 1 && m == 0) { m = 1000 + owner.size(); if (p->BindToObject((void*) m) != kVCOMError_NoError) return; owner[m] = me; if ((size_t) p->GetBoundObject() != m) problems.push_back(me + " does not give its mark back"); }
		else { auto o = owner.find(m % 1000000); if (o == owner.end()) { if (m || hang == 1) problems.push_back(me + fmt(" bears a mark that nobody gave it: %zu", m)); } else if (o->second != me) problems.push_back(me + " bears the mark of " + o->second); }
		if (hang == 2 && m < 1000000) { m += 1000000; p->BindToObject((void*) m); }
		marks.push_back(m % 1000000);
	}
	std::vector<size_t> indices(size_t n, bool known)
	{
		std::vector<size_t> r; size_t k = known ? std::min(n, most) : 3; for (size_t i = 0; i < k; i++) r.push_back(i);
		if (known && n > most) r.push_back(n - 1);
		if (known) { r.push_back(n); r.push_back(n + 1); }
		// what 32 or 31 bits of these leave of the index is inside
		if (wide) for (size_t b : {(size_t) 1 << 31, (size_t) 1 << 32, ((size_t) 1 << 32) + (n ? n - 1 : 0), (size_t) 1 << 63, ((size_t) 1 << 63) + (n ? n - 1 : 0), (size_t) 255, (size_t) 256, (size_t) 65536}) if (b > n + 1) r.push_back(b);
		r.push_back((size_t) -1); return r;
	}
	template <class O> void at(const char* what, size_t i, size_t n, bool known, int e, const O& o) { bool got = e == 0 && (bool) o; if (known && got != (i < n)) problems.push_back(fmt("%s(%zd) of %zu gives code %d and %s object", what, (ssize_t) i, n, e, (bool) o ? "an" : "no")); }
	template <class T> void go(VCOMPtr<T>& o, int h) { T* p = o; if (!p || hops + h > maxHops || depth > 40 || !left) return; left--; objects++; hops += h; depth++; walk(p); hops -= h; depth--; }
	template <class T> void child(VCOMPtr<T>& o) { if (hops == 0) go(o, 0); }
	template <class T> void ref(VCOMPtr<T>& o) { go(o, 1); }
	void walk(ISceneDataProvider* p);
	void walk(IPosition* p);
	void walk(IClass* p);
	void walk(IGeometryReference* p);
	void walk(ISymDef* p);
	void walk(ISource* p);
	void walk(IMappingDefinition* p);
	void walk(IMapping* p);
	void walk(IConnection* p);
	void walk(ICustomCommand* p);
	void walk(IAlignment* p);
	void walk(IOverwrite* p);
	void walk(ISceneObj* p);
	void walk(IMediaRessourceVectorInterface* p);
	void walk(IGdtfActivationGroup* p);
	void walk(IGdtfFeature* p);
	void walk(IGdtfFeatureGroup* p);
	void walk(IGdtfSubPhysicalUnit* p);
	void walk(IGdtfAttribute* p);
	void walk(IGdtfWheelSlotPrismFacet* p);
	void walk(IGdtfWheelSlotAnimationSystem* p);
	void walk(IGdtfWheelSlot* p);
	void walk(IGdtfWheel* p);
	void walk(IGdtfModel* p);
	void walk(IGdtfBreak* p);
	void walk(IGdtfLaserProtocol* p);
	void walk(IGdtfPinPatch* p);
	void walk(IGdtfGeometry* p);
	void walk(IGdtfDmxChannelSet* p);
	void walk(IGdtfDmxSubChannelSet* p);
	void walk(IGdtfDmxChannelFunction* p);
	void walk(IGdtfDmxLogicalChannel* p);
	void walk(IGdtfDmxChannel* p);
	void walk(IGdtfDmxRelation* p);
	void walk(IGdtfMacro* p);
	void walk(IGdtfMacroDMX* p);
	void walk(IGdtfMacroDMXStep* p);
	void walk(IGdtfMacroDMXValue* p);
	void walk(IGdtfMacroVisual* p);
	void walk(IGdtfMacroVisualStep* p);
	void walk(IGdtfMacroVisualValue* p);
	void walk(IGdtfDmxMode* p);
	void walk(IGdtfRevision* p);
	void walk(IGdtfUserPreset* p);
	void walk(IGdtfMeasurementPoint* p);
	void walk(IGdtfMeasurement* p);
	void walk(IGdtfFilter* p);
	void walk(IGdtfPhysicalEmitter* p);
	void walk(IGdtfColorSpace* p);
	void walk(IGdtfGamut* p);
	void walk(IGdtfCRI* p);
	void walk(IGdtfCRIGroup* p);
	void walk(IGdtfPoint* p);
	void walk(IGdtfDMXProfile* p);
	void walk(IGdtfConnector* p);
	void walk(IGdtfFixture* p);
	void walk(IGdtf_FTRDM* p);
	void walk(IGdtfMap* p);
	void walk(IGdtfArtNet* p);
	void walk(IGdtfSACN* p);
	void walk(IGdtfDMXPersonality* p);
	void walk(IGdtfSoftwareVersionID* p);
	void walk(IGdtfXmlParsingError* p);
	void walk(IUtility* p);
	void walk(IMVRxchangeService* p);
};
inline void Walk::walk(ISceneDataProvider* p)
{
	auto& w = *this; (void) w;
	w.now("ISceneDataProvider.GetKeyValueCount");
	{ size_t v0{}; if (w.rc(p->GetKeyValueCount(v0)) == 0) { w.v(v0, "ISceneDataProvider.GetKeyValueCount"); } }
	w.now("ISceneDataProvider.GetKeyAt");
	{ size_t n = 0; bool ok = w.rc(p->GetKeyValueCount(n)) == 0; for (size_t i : w.indices(n, ok)) w.text(p->GetKeyAt(i)); }
	w.now("ISceneDataProvider.GetValueAt");
	{ size_t n = 0; bool ok = w.rc(p->GetKeyValueCount(n)) == 0; for (size_t i : w.indices(n, ok)) w.text(p->GetValueAt(i)); }
	w.now("ISceneDataProvider.GetProviderName");
	w.text(p->GetProviderName());
	w.now("ISceneDataProvider.GetVersion");
	w.text(p->GetVersion());
}

inline void Walk::walk(IPosition* p)
{
	auto& w = *this; (void) w;
	w.now("IPosition.GetName");
	w.text(p->GetName());
	w.now("IPosition.GetGuid");
	{ MvrUUID v0{}; if (w.rc(p->GetGuid(v0)) == 0) { w.v(v0, "IPosition.GetGuid"); } }
}

inline void Walk::walk(IClass* p)
{
	auto& w = *this; (void) w;
	w.now("IClass.GetName");
	w.text(p->GetName());
	w.now("IClass.GetGuid");
	{ MvrUUID v0{}; if (w.rc(p->GetGuid(v0)) == 0) { w.v(v0, "IClass.GetGuid"); } }
}

inline void Walk::walk(IGeometryReference* p)
{
	auto& w = *this; (void) w;
	w.now("IGeometryReference.GetIsSymbol");
	{ bool v0{}; if (w.rc(p->GetIsSymbol(v0)) == 0) { w.v(v0, "IGeometryReference.GetIsSymbol"); } }
	w.now("IGeometryReference.GetFileForGeometry");
	w.text(p->GetFileForGeometry());
	w.now("IGeometryReference.GetSymDef");
	{ VCOMPtr<ISymDef> o;  if (w.rc(p->GetSymDef(&o)) == 0) { w.v((bool) o); } w.ref(o); }
	w.now("IGeometryReference.GetTransfromMatrix");
	{ STransformMatrix v0{}; if (w.rc(p->GetTransfromMatrix(v0)) == 0) { w.v(v0, "IGeometryReference.GetTransfromMatrix"); } }
}

inline void Walk::walk(ISymDef* p)
{
	auto& w = *this; (void) w;
	w.now("ISymDef.GetGuid");
	{ MvrUUID v0{}; if (w.rc(p->GetGuid(v0)) == 0) { w.v(v0, "ISymDef.GetGuid"); } }
	w.now("ISymDef.GetName");
	w.text(p->GetName());
	w.now("ISymDef.GetGeometryCount");
	{ size_t v0{}; if (w.rc(p->GetGeometryCount(v0)) == 0) { w.v(v0, "ISymDef.GetGeometryCount"); } }
	w.now("ISymDef.GetGeometryAt");
	{ size_t n = 0; bool ok = w.rc(p->GetGeometryCount(n)) == 0; for (size_t i : w.indices(n, ok)) { size_t j = i; VCOMPtr<IGeometryReference> o; w.at("ISymDef.GetGeometryAt", i, n, ok, w.rc(p->GetGeometryAt(j, &o)), o); w.child(o); } }
	w.now("ISymDef.GetIsContaingSymbolGeomtery");
	{ bool v0{}; if (w.rc(p->GetIsContaingSymbolGeomtery(v0)) == 0) { w.v(v0, "ISymDef.GetIsContaingSymbolGeomtery"); } }
}

inline void Walk::walk(ISource* p)
{
	auto& w = *this; (void) w;
	w.now("ISource.GetValue");
	w.text(p->GetValue());
	w.now("ISource.GetLinkedGeometry");
	w.text(p->GetLinkedGeometry());
	w.now("ISource.GetType");
	{ GdtfDefines::ESourceType v0{}; if (w.rc(p->GetType(v0)) == 0) { w.v(v0, "ISource.GetType"); } }
}

inline void Walk::walk(IMappingDefinition* p)
{
	auto& w = *this; (void) w;
	w.now("IMappingDefinition.GetName");
	w.text(p->GetName());
	w.now("IMappingDefinition.GetGuid");
	{ MvrUUID v0{}; if (w.rc(p->GetGuid(v0)) == 0) { w.v(v0, "IMappingDefinition.GetGuid"); } }
	w.now("IMappingDefinition.GetSizeX");
	{ Uint32 v0{}; if (w.rc(p->GetSizeX(v0)) == 0) { w.v(v0, "IMappingDefinition.GetSizeX"); } }
	w.now("IMappingDefinition.GetSizeY");
	{ Uint32 v0{}; if (w.rc(p->GetSizeY(v0)) == 0) { w.v(v0, "IMappingDefinition.GetSizeY"); } }
	w.now("IMappingDefinition.GetSource");
	{ VCOMPtr<ISource> o;  if (w.rc(p->GetSource(&o)) == 0) { w.v((bool) o); } w.ref(o); }
	w.now("IMappingDefinition.GetScaleHandling");
	{ GdtfDefines::EScaleHandlingType v0{}; if (w.rc(p->GetScaleHandling(v0)) == 0) { w.v(v0, "IMappingDefinition.GetScaleHandling"); } }
}

inline void Walk::walk(IMapping* p)
{
	auto& w = *this; (void) w;
	w.now("IMapping.GetLinkedDefUuid");
	{ MvrUUID v0{}; if (w.rc(p->GetLinkedDefUuid(v0)) == 0) { w.v(v0, "IMapping.GetLinkedDefUuid"); } }
	w.now("IMapping.GetUx");
	{ Uint32 v0{}; if (w.rc(p->GetUx(v0)) == 0) { w.v(v0, "IMapping.GetUx"); } }
	w.now("IMapping.GetUy");
	{ Uint32 v0{}; if (w.rc(p->GetUy(v0)) == 0) { w.v(v0, "IMapping.GetUy"); } }
	w.now("IMapping.GetOx");
	{ Uint32 v0{}; if (w.rc(p->GetOx(v0)) == 0) { w.v(v0, "IMapping.GetOx"); } }
	w.now("IMapping.GetOy");
	{ Uint32 v0{}; if (w.rc(p->GetOy(v0)) == 0) { w.v(v0, "IMapping.GetOy"); } }
	w.now("IMapping.GetRz");
	{ double v0{}; if (w.rc(p->GetRz(v0)) == 0) { w.v(v0, "IMapping.GetRz"); } }
}

inline void Walk::walk(IConnection* p)
{
	auto& w = *this; (void) w;
	w.now("IConnection.GetToObject");
	{ MvrUUID v0{}; if (w.rc(p->GetToObject(v0)) == 0) { w.v(v0, "IConnection.GetToObject"); } }
	w.now("IConnection.GetOwn");
	w.text(p->GetOwn());
	w.now("IConnection.GetOther");
	w.text(p->GetOther());
}

inline void Walk::walk(ICustomCommand* p)
{
	auto& w = *this; (void) w;
	w.now("ICustomCommand.GetChannelFunction");
	w.text(p->GetChannelFunction());
	w.now("ICustomCommand.IsPercentage");
	{ bool v0{}; if (w.rc(p->IsPercentage(v0)) == 0) { w.v(v0, "ICustomCommand.IsPercentage"); } }
	w.now("ICustomCommand.GetValue");
	{ double v0{}; if (w.rc(p->GetValue(v0)) == 0) { w.v(v0, "ICustomCommand.GetValue"); } }
}

inline void Walk::walk(IAlignment* p)
{
	auto& w = *this; (void) w;
	w.now("IAlignment.GetBeamGeometry");
	w.text(p->GetBeamGeometry());
	w.now("IAlignment.GetUpVector");
	{ SVector3 v0{}; if (w.rc(p->GetUpVector(v0)) == 0) { w.v(v0, "IAlignment.GetUpVector"); } }
	w.now("IAlignment.GetDirection");
	{ SVector3 v0{}; if (w.rc(p->GetDirection(v0)) == 0) { w.v(v0, "IAlignment.GetDirection"); } }
}

inline void Walk::walk(IOverwrite* p)
{
	auto& w = *this; (void) w;
	w.now("IOverwrite.GetUniversal");
	w.text(p->GetUniversal());
	w.now("IOverwrite.GetTarget");
	w.text(p->GetTarget());
}

inline void Walk::walk(ISceneObj* p)
{
	auto& w = *this; (void) w;
	w.now("ISceneObj.GetType");
	{ ESceneObjType v0{}; if (w.rc(p->GetType(v0)) == 0) { w.v(v0, "ISceneObj.GetType"); } }
	w.now("ISceneObj.GetName");
	w.text(p->GetName());
	w.now("ISceneObj.GetGuid");
	{ MvrUUID v0{}; if (w.rc(p->GetGuid(v0)) == 0) { w.v(v0, "ISceneObj.GetGuid"); } }
	w.now("ISceneObj.GetTransfromMatrix");
	{ STransformMatrix v0{}; if (w.rc(p->GetTransfromMatrix(v0)) == 0) { w.v(v0, "ISceneObj.GetTransfromMatrix"); } }
	w.now("ISceneObj.GetGeometryCount");
	{ size_t v0{}; if (w.rc(p->GetGeometryCount(v0)) == 0) { w.v(v0, "ISceneObj.GetGeometryCount"); } }
	w.now("ISceneObj.GetGeometryAt");
	{ size_t n = 0; bool ok = w.rc(p->GetGeometryCount(n)) == 0; for (size_t i : w.indices(n, ok)) { size_t j = i; VCOMPtr<IGeometryReference> o; w.at("ISceneObj.GetGeometryAt", i, n, ok, w.rc(p->GetGeometryAt(j, &o)), o); w.child(o); } }
	w.now("ISceneObj.GetMultipatchParent");
	{ VCOMPtr<ISceneObj> o;  if (w.rc(p->GetMultipatchParent(&o)) == 0) { w.v((bool) o); } w.ref(o); }
	w.now("ISceneObj.GetClass");
	{ VCOMPtr<IClass> o;  if (w.rc(p->GetClass(&o)) == 0) { w.v((bool) o); } w.ref(o); }
	w.now("ISceneObj.GetGdtfName");
	w.text(p->GetGdtfName());
	w.now("ISceneObj.GetGdtfFixture");
	{ VCOMPtr<IGdtfFixture> o;  if (w.rc(p->GetGdtfFixture(&o)) == 0) { w.v((bool) o); } w.ref(o); }
	w.now("ISceneObj.GetGdtfMode");
	w.text(p->GetGdtfMode());
	w.now("ISceneObj.GetFunction");
	w.text(p->GetFunction());
	w.now("ISceneObj.GetFocusPoint");
	{ VCOMPtr<ISceneObj> o;  if (w.rc(p->GetFocusPoint(&o)) == 0) { w.v((bool) o); } w.ref(o); }
	w.now("ISceneObj.GetPosition");
	{ VCOMPtr<IPosition> o;  if (w.rc(p->GetPosition(&o)) == 0) { w.v((bool) o); } w.ref(o); }
	w.now("ISceneObj.GetAdressCount");
	{ size_t v0{}; if (w.rc(p->GetAdressCount(v0)) == 0) { w.v(v0, "ISceneObj.GetAdressCount"); } }
	w.now("ISceneObj.GetAdressAt");
	{ size_t n = 0; bool ok = w.rc(p->GetAdressCount(n)) == 0; for (size_t i : w.indices(n, ok)) { SDmxAdress o{}; int e = w.rc(p->GetAdressAt(i, o)); w.at("ISceneObj.GetAdressAt", i, n, ok, e, true); if (e == 0) w.v(o, "ISceneObj.GetAdressAt"); } }
	w.now("ISceneObj.GetUnitNumber");
	{ Sint32 v0{}; if (w.rc(p->GetUnitNumber(v0)) == 0) { w.v(v0, "ISceneObj.GetUnitNumber"); } }
	w.now("ISceneObj.GetFixtureId");
	w.text(p->GetFixtureId());
	w.now("ISceneObj.GetFixtureIdNumeric");
	{ size_t v0{}; if (w.rc(p->GetFixtureIdNumeric(v0)) == 0) { w.v(v0, "ISceneObj.GetFixtureIdNumeric"); } }
	w.now("ISceneObj.GetColor");
	{ CieColor v0{}; if (w.rc(p->GetColor(v0)) == 0) { w.v(v0, "ISceneObj.GetColor"); } }
	w.now("ISceneObj.GetFixtureTypeId");
	{ Sint8 v0{}; if (w.rc(p->GetFixtureTypeId(v0)) == 0) { w.v(v0, "ISceneObj.GetFixtureTypeId"); } }
	w.now("ISceneObj.GetCustomId");
	{ size_t v0{}; if (w.rc(p->GetCustomId(v0)) == 0) { w.v(v0, "ISceneObj.GetCustomId"); } }
	w.now("ISceneObj.GetGobo");
	w.text(p->GetGobo());
	w.now("ISceneObj.GetGoboRotation");
	{ double v0{}; if (w.rc(p->GetGoboRotation(v0)) == 0) { w.v(v0, "ISceneObj.GetGoboRotation"); } }
	w.now("ISceneObj.GetGoboFullPath");
	w.text(p->GetGoboFullPath());
	w.now("ISceneObj.GetCastShadow");
	{ bool v0{}; if (w.rc(p->GetCastShadow(v0)) == 0) { w.v(v0, "ISceneObj.GetCastShadow"); } }
	w.now("ISceneObj.GetMappingCount");
	{ size_t v0{}; if (w.rc(p->GetMappingCount(v0)) == 0) { w.v(v0, "ISceneObj.GetMappingCount"); } }
	w.now("ISceneObj.GetMappingAt");
	{ size_t n = 0; bool ok = w.rc(p->GetMappingCount(n)) == 0; for (size_t i : w.indices(n, ok)) { size_t j = i; VCOMPtr<IMapping> o; w.at("ISceneObj.GetMappingAt", i, n, ok, w.rc(p->GetMappingAt(j, &o)), o); w.child(o); } }
	w.now("ISceneObj.GetDMXInvertPan");
	{ bool v0{}; if (w.rc(p->GetDMXInvertPan(v0)) == 0) { w.v(v0, "ISceneObj.GetDMXInvertPan"); } }
	w.now("ISceneObj.GetDMXInvertTilt");
	{ bool v0{}; if (w.rc(p->GetDMXInvertTilt(v0)) == 0) { w.v(v0, "ISceneObj.GetDMXInvertTilt"); } }
	w.now("ISceneObj.GetProtocolsCount");
	{ size_t v0{}; if (w.rc(p->GetProtocolsCount(v0)) == 0) { w.v(v0, "ISceneObj.GetProtocolsCount"); } }
	w.now("ISceneObj.GetProtocolAt");
	{ size_t n = 0; bool ok = w.rc(p->GetProtocolsCount(n)) == 0; for (size_t i : w.indices(n, ok)) { SProtocol* o = nullptr; int e = w.rc(p->GetProtocolAt(i, &o)); w.at("ISceneObj.GetProtocolAt", i, n, ok, e, true); if (e == 0 && o) { w.text(o->fGeometry); w.text(o->fName); w.text(o->fType); w.text(o->fVersion); w.v(o->fTransmision); } delete o; } }
	w.now("ISceneObj.GetVideoScreenSource");
	{ VCOMPtr<ISource> o;  if (w.rc(p->GetVideoScreenSource(&o)) == 0) { w.v((bool) o); } w.ref(o); }
	w.now("ISceneObj.GetProjectorSource");
	{ VCOMPtr<ISource> o;  if (w.rc(p->GetProjectorSource(&o)) == 0) { w.v((bool) o); } w.ref(o); }
	w.now("ISceneObj.GetScaleHandling");
	{ GdtfDefines::EScaleHandlingType v0{}; if (w.rc(p->GetScaleHandling(v0)) == 0) { w.v(v0, "ISceneObj.GetScaleHandling"); } }
	w.now("ISceneObj.GetConnectionCount");
	{ size_t v0{}; if (w.rc(p->GetConnectionCount(v0)) == 0) { w.v(v0, "ISceneObj.GetConnectionCount"); } }
	w.now("ISceneObj.GetConnectionAt");
	{ size_t n = 0; bool ok = w.rc(p->GetConnectionCount(n)) == 0; for (size_t i : w.indices(n, ok)) { size_t j = i; VCOMPtr<IConnection> o; w.at("ISceneObj.GetConnectionAt", i, n, ok, w.rc(p->GetConnectionAt(j, &o)), o); w.child(o); } }
	w.now("ISceneObj.GetCustomCommandCount");
	{ size_t v0{}; if (w.rc(p->GetCustomCommandCount(v0)) == 0) { w.v(v0, "ISceneObj.GetCustomCommandCount"); } }
	w.now("ISceneObj.GetCustomCommandAt");
	{ size_t n = 0; bool ok = w.rc(p->GetCustomCommandCount(n)) == 0; for (size_t i : w.indices(n, ok)) { size_t j = i; VCOMPtr<ICustomCommand> o; w.at("ISceneObj.GetCustomCommandAt", i, n, ok, w.rc(p->GetCustomCommandAt(j, &o)), o); w.child(o); } }
	w.now("ISceneObj.GetAlignmentCount");
	{ size_t v0{}; if (w.rc(p->GetAlignmentCount(v0)) == 0) { w.v(v0, "ISceneObj.GetAlignmentCount"); } }
	w.now("ISceneObj.GetAlignmentAt");
	{ size_t n = 0; bool ok = w.rc(p->GetAlignmentCount(n)) == 0; for (size_t i : w.indices(n, ok)) { size_t j = i; VCOMPtr<IAlignment> o; w.at("ISceneObj.GetAlignmentAt", i, n, ok, w.rc(p->GetAlignmentAt(j, &o)), o); w.child(o); } }
	w.now("ISceneObj.GetOverwriteCount");
	{ size_t v0{}; if (w.rc(p->GetOverwriteCount(v0)) == 0) { w.v(v0, "ISceneObj.GetOverwriteCount"); } }
	w.now("ISceneObj.GetOverwriteAt");
	{ size_t n = 0; bool ok = w.rc(p->GetOverwriteCount(n)) == 0; for (size_t i : w.indices(n, ok)) { size_t j = i; VCOMPtr<IOverwrite> o; w.at("ISceneObj.GetOverwriteAt", i, n, ok, w.rc(p->GetOverwriteAt(j, &o)), o); w.child(o); } }
}

inline void Walk::walk(IMediaRessourceVectorInterface* p)
{
	auto& w = *this; (void) w;
	w.now("IMediaRessourceVectorInterface.GetDataProviderObjectCount");
	{ size_t v0{}; if (w.rc(p->GetDataProviderObjectCount(v0)) == 0) { w.v(v0, "IMediaRessourceVectorInterface.GetDataProviderObjectCount"); } }
	w.now("IMediaRessourceVectorInterface.GetDataProviderObjectAt");
	{ size_t n = 0; bool ok = w.rc(p->GetDataProviderObjectCount(n)) == 0; for (size_t i : w.indices(n, ok)) { size_t j = i; VCOMPtr<ISceneDataProvider> o; w.at("IMediaRessourceVectorInterface.GetDataProviderObjectAt", i, n, ok, w.rc(p->GetDataProviderObjectAt(j, &o)), o); w.child(o); } }
	w.now("IMediaRessourceVectorInterface.GetPositionObjectCount");
	{ size_t v0{}; if (w.rc(p->GetPositionObjectCount(v0)) == 0) { w.v(v0, "IMediaRessourceVectorInterface.GetPositionObjectCount"); } }
	w.now("IMediaRessourceVectorInterface.GetPositionObjectAt");
	{ size_t n = 0; bool ok = w.rc(p->GetPositionObjectCount(n)) == 0; for (size_t i : w.indices(n, ok)) { size_t j = i; VCOMPtr<IPosition> o; w.at("IMediaRessourceVectorInterface.GetPositionObjectAt", i, n, ok, w.rc(p->GetPositionObjectAt(j, &o)), o); w.child(o); } }
	w.now("IMediaRessourceVectorInterface.GetSymDefCount");
	{ size_t v0{}; if (w.rc(p->GetSymDefCount(v0)) == 0) { w.v(v0, "IMediaRessourceVectorInterface.GetSymDefCount"); } }
	w.now("IMediaRessourceVectorInterface.GetSymDefAt");
	{ size_t n = 0; bool ok = w.rc(p->GetSymDefCount(n)) == 0; for (size_t i : w.indices(n, ok)) { size_t j = i; VCOMPtr<ISymDef> o; w.at("IMediaRessourceVectorInterface.GetSymDefAt", i, n, ok, w.rc(p->GetSymDefAt(j, &o)), o); w.child(o); } }
	w.now("IMediaRessourceVectorInterface.GetClassCount");
	{ size_t v0{}; if (w.rc(p->GetClassCount(v0)) == 0) { w.v(v0, "IMediaRessourceVectorInterface.GetClassCount"); } }
	w.now("IMediaRessourceVectorInterface.GetClassAt");
	{ size_t n = 0; bool ok = w.rc(p->GetClassCount(n)) == 0; for (size_t i : w.indices(n, ok)) { size_t j = i; VCOMPtr<IClass> o; w.at("IMediaRessourceVectorInterface.GetClassAt", i, n, ok, w.rc(p->GetClassAt(j, &o)), o); w.child(o); } }
	w.now("IMediaRessourceVectorInterface.GetMappingDefinitionCount");
	{ size_t v0{}; if (w.rc(p->GetMappingDefinitionCount(v0)) == 0) { w.v(v0, "IMediaRessourceVectorInterface.GetMappingDefinitionCount"); } }
	w.now("IMediaRessourceVectorInterface.GetMappingDefinitionAt");
	{ size_t n = 0; bool ok = w.rc(p->GetMappingDefinitionCount(n)) == 0; for (size_t i : w.indices(n, ok)) { size_t j = i; VCOMPtr<IMappingDefinition> o; w.at("IMediaRessourceVectorInterface.GetMappingDefinitionAt", i, n, ok, w.rc(p->GetMappingDefinitionAt(j, &o)), o); w.child(o); } }
	w.now("IMediaRessourceVectorInterface.GetAttachedFileCount");
	{ size_t v0{}; if (w.rc(p->GetAttachedFileCount(v0)) == 0) { w.v(v0, "IMediaRessourceVectorInterface.GetAttachedFileCount"); } }
	w.now("IMediaRessourceVectorInterface.GetAttachedFileCountAt");
	{ size_t n = 0; bool ok = w.rc(p->GetAttachedFileCount(n)) == 0; for (size_t i : w.indices(n, ok)) w.text(p->GetAttachedFileCountAt(i)); }
	w.now("IMediaRessourceVectorInterface.GetFirstLayer");
	{ VCOMPtr<ISceneObj> o;  if (w.rc(p->GetFirstLayer(&o)) == 0) { w.v((bool) o); } w.ref(o); }
	w.now("IMediaRessourceVectorInterface.GetFirstChild");
	w.now("IMediaRessourceVectorInterface.GetNextObject");
	w.now("IMediaRessourceVectorInterface.GetSceneObjectCount");
	{ size_t v0{}; if (w.rc(p->GetSceneObjectCount(v0)) == 0) { w.v(v0, "IMediaRessourceVectorInterface.GetSceneObjectCount"); } }
	w.now("IMediaRessourceVectorInterface.GetDuplicatedUuids");
	{ bool v0{}; if (w.rc(p->GetDuplicatedUuids(v0)) == 0) { w.v(v0, "IMediaRessourceVectorInterface.GetDuplicatedUuids"); } }
	w.now("IMediaRessourceVectorInterface.GetMVRVersion");
	{ Sint32 v0{}; Sint32 v1{}; if (w.rc(p->GetMVRVersion(v0, v1)) == 0) { w.v(v0, "IMediaRessourceVectorInterface.GetMVRVersion"); w.v(v1, "IMediaRessourceVectorInterface.GetMVRVersion"); } }
	w.now("IMediaRessourceVectorInterface.GetLatestMVRSupoortedVersion");
	{ Sint32 v0{}; Sint32 v1{}; if (w.rc(p->GetLatestMVRSupoortedVersion(v0, v1)) == 0) { w.v(v0, "IMediaRessourceVectorInterface.GetLatestMVRSupoortedVersion"); w.v(v1, "IMediaRessourceVectorInterface.GetLatestMVRSupoortedVersion"); } }
	w.now("IMediaRessourceVectorInterface.GetLatestGDTFSupoortedVersion");
	{ Sint32 v0{}; Sint32 v1{}; if (w.rc(p->GetLatestGDTFSupoortedVersion(v0, v1)) == 0) { w.v(v0, "IMediaRessourceVectorInterface.GetLatestGDTFSupoortedVersion"); w.v(v1, "IMediaRessourceVectorInterface.GetLatestGDTFSupoortedVersion"); } }
	w.now("IMediaRessourceVectorInterface.GetLibVersion");
	{ size_t v0{}; size_t v1{}; if (w.rc(p->GetLibVersion(v0, v1)) == 0) { w.v(v0, "IMediaRessourceVectorInterface.GetLibVersion"); w.v(v1, "IMediaRessourceVectorInterface.GetLibVersion"); } }
}

inline void Walk::walk(IGdtfActivationGroup* p)
{
	auto& w = *this; (void) w;
	w.now("IGdtfActivationGroup.GetName");
	w.text(p->GetName());
	w.now("IGdtfActivationGroup.GetAttributeCount");
	{ size_t v0{}; if (w.rc(p->GetAttributeCount(v0)) == 0) { w.v(v0, "IGdtfActivationGroup.GetAttributeCount"); } }
	w.now("IGdtfActivationGroup.GetAttributeAt");
	{ size_t n = 0; bool ok = w.rc(p->GetAttributeCount(n)) == 0; for (size_t i : w.indices(n, ok)) { size_t j = i; VCOMPtr<IGdtfAttribute> o; w.at("IGdtfActivationGroup.GetAttributeAt", i, n, ok, w.rc(p->GetAttributeAt(j, &o)), o); w.child(o); } }
	w.now("IGdtfActivationGroup.GetBoundObject");
	w.bound(p, "IGdtfActivationGroup");
}

inline void Walk::walk(IGdtfFeature* p)
{
	auto& w = *this; (void) w;
	w.now("IGdtfFeature.GetName");
	w.text(p->GetName());
	w.now("IGdtfFeature.GetAttributeCount");
	{ size_t v0{}; if (w.rc(p->GetAttributeCount(v0)) == 0) { w.v(v0, "IGdtfFeature.GetAttributeCount"); } }
	w.now("IGdtfFeature.GetAttributeAt");
	{ size_t n = 0; bool ok = w.rc(p->GetAttributeCount(n)) == 0; for (size_t i : w.indices(n, ok)) { size_t j = i; VCOMPtr<IGdtfAttribute> o; w.at("IGdtfFeature.GetAttributeAt", i, n, ok, w.rc(p->GetAttributeAt(j, &o)), o); w.child(o); } }
	w.now("IGdtfFeature.GetFeatureGroup");
	{ VCOMPtr<IGdtfFeatureGroup> o;  if (w.rc(p->GetFeatureGroup(&o)) == 0) { w.v((bool) o); } w.ref(o); }
	w.now("IGdtfFeature.GetBoundObject");
	w.bound(p, "IGdtfFeature");
}

inline void Walk::walk(IGdtfFeatureGroup* p)
{
	auto& w = *this; (void) w;
	w.now("IGdtfFeatureGroup.GetName");
	w.text(p->GetName());
	w.now("IGdtfFeatureGroup.GetPrettyName");
	w.text(p->GetPrettyName());
	w.now("IGdtfFeatureGroup.GetFeatureCount");
	{ size_t v0{}; if (w.rc(p->GetFeatureCount(v0)) == 0) { w.v(v0, "IGdtfFeatureGroup.GetFeatureCount"); } }
	w.now("IGdtfFeatureGroup.GetFeatureAt");
	{ size_t n = 0; bool ok = w.rc(p->GetFeatureCount(n)) == 0; for (size_t i : w.indices(n, ok)) { size_t j = i; VCOMPtr<IGdtfFeature> o; w.at("IGdtfFeatureGroup.GetFeatureAt", i, n, ok, w.rc(p->GetFeatureAt(j, &o)), o); w.child(o); } }
	w.now("IGdtfFeatureGroup.GetBoundObject");
	w.bound(p, "IGdtfFeatureGroup");
}

inline void Walk::walk(IGdtfSubPhysicalUnit* p)
{
	auto& w = *this; (void) w;
	w.now("IGdtfSubPhysicalUnit.GetType");
	{ GdtfDefines::EGdtfSubPhysicalUnitType v0{}; if (w.rc(p->GetType(v0)) == 0) { w.v(v0, "IGdtfSubPhysicalUnit.GetType"); } }
	w.now("IGdtfSubPhysicalUnit.GetPhysicalFrom");
	{ double v0{}; if (w.rc(p->GetPhysicalFrom(v0)) == 0) { w.v(v0, "IGdtfSubPhysicalUnit.GetPhysicalFrom"); } }
	w.now("IGdtfSubPhysicalUnit.GetPhysicalTo");
	{ double v0{}; if (w.rc(p->GetPhysicalTo(v0)) == 0) { w.v(v0, "IGdtfSubPhysicalUnit.GetPhysicalTo"); } }
	w.now("IGdtfSubPhysicalUnit.GetPhysicalUnit");
	{ GdtfDefines::EGdtfPhysicalUnit v0{}; if (w.rc(p->GetPhysicalUnit(v0)) == 0) { w.v(v0, "IGdtfSubPhysicalUnit.GetPhysicalUnit"); } }
	w.now("IGdtfSubPhysicalUnit.GetBoundObject");
	w.bound(p, "IGdtfSubPhysicalUnit");
}

inline void Walk::walk(IGdtfAttribute* p)
{
	auto& w = *this; (void) w;
	w.now("IGdtfAttribute.GetName");
	w.text(p->GetName());
	w.now("IGdtfAttribute.GetPrettyName");
	w.text(p->GetPrettyName());
	w.now("IGdtfAttribute.GetActivationGroup");
	{ VCOMPtr<IGdtfActivationGroup> o;  if (w.rc(p->GetActivationGroup(&o)) == 0) { w.v((bool) o); } w.ref(o); }
	w.now("IGdtfAttribute.GetFeature");
	{ VCOMPtr<IGdtfFeature> o;  if (w.rc(p->GetFeature(&o)) == 0) { w.v((bool) o); } w.ref(o); }
	w.now("IGdtfAttribute.GetMainAttribute");
	{ VCOMPtr<IGdtfAttribute> o;  if (w.rc(p->GetMainAttribute(&o)) == 0) { w.v((bool) o); } w.ref(o); }
	w.now("IGdtfAttribute.GetPhysicalUnit");
	{ GdtfDefines::EGdtfPhysicalUnit v0{}; if (w.rc(p->GetPhysicalUnit(v0)) == 0) { w.v(v0, "IGdtfAttribute.GetPhysicalUnit"); } }
	w.now("IGdtfAttribute.GetColor");
	{ CieColor v0{}; if (w.rc(p->GetColor(v0)) == 0) { w.v(v0, "IGdtfAttribute.GetColor"); } }
	w.now("IGdtfAttribute.GetBoundObject");
	w.bound(p, "IGdtfAttribute");
	w.now("IGdtfAttribute.GetSubPhysicalUnitCount");
	{ size_t v0{}; if (w.rc(p->GetSubPhysicalUnitCount(v0)) == 0) { w.v(v0, "IGdtfAttribute.GetSubPhysicalUnitCount"); } }
	w.now("IGdtfAttribute.GetSubPhysicalUnitAt");
	{ size_t n = 0; bool ok = w.rc(p->GetSubPhysicalUnitCount(n)) == 0; for (size_t i : w.indices(n, ok)) { size_t j = i; VCOMPtr<IGdtfSubPhysicalUnit> o; w.at("IGdtfAttribute.GetSubPhysicalUnitAt", i, n, ok, w.rc(p->GetSubPhysicalUnitAt(j, &o)), o); w.child(o); } }
}

inline void Walk::walk(IGdtfWheelSlotPrismFacet* p)
{
	auto& w = *this; (void) w;
	w.now("IGdtfWheelSlotPrismFacet.GetColor");
	{ CieColor v0{}; if (w.rc(p->GetColor(v0)) == 0) { w.v(v0, "IGdtfWheelSlotPrismFacet.GetColor"); } }
	w.now("IGdtfWheelSlotPrismFacet.GetTransformMatrix");
	{ STransformMatrix v0{}; if (w.rc(p->GetTransformMatrix(v0)) == 0) { w.v(v0, "IGdtfWheelSlotPrismFacet.GetTransformMatrix"); } }
	w.now("IGdtfWheelSlotPrismFacet.GetBoundObject");
	w.bound(p, "IGdtfWheelSlotPrismFacet");
}

inline void Walk::walk(IGdtfWheelSlotAnimationSystem* p)
{
	auto& w = *this; (void) w;
	w.now("IGdtfWheelSlotAnimationSystem.GetP1_X");
	{ double v0{}; if (w.rc(p->GetP1_X(v0)) == 0) { w.v(v0, "IGdtfWheelSlotAnimationSystem.GetP1_X"); } }
	w.now("IGdtfWheelSlotAnimationSystem.GetP1_Y");
	{ double v0{}; if (w.rc(p->GetP1_Y(v0)) == 0) { w.v(v0, "IGdtfWheelSlotAnimationSystem.GetP1_Y"); } }
	w.now("IGdtfWheelSlotAnimationSystem.GetP2_X");
	{ double v0{}; if (w.rc(p->GetP2_X(v0)) == 0) { w.v(v0, "IGdtfWheelSlotAnimationSystem.GetP2_X"); } }
	w.now("IGdtfWheelSlotAnimationSystem.GetP2_Y");
	{ double v0{}; if (w.rc(p->GetP2_Y(v0)) == 0) { w.v(v0, "IGdtfWheelSlotAnimationSystem.GetP2_Y"); } }
	w.now("IGdtfWheelSlotAnimationSystem.GetP3_X");
	{ double v0{}; if (w.rc(p->GetP3_X(v0)) == 0) { w.v(v0, "IGdtfWheelSlotAnimationSystem.GetP3_X"); } }
	w.now("IGdtfWheelSlotAnimationSystem.GetP3_Y");
	{ double v0{}; if (w.rc(p->GetP3_Y(v0)) == 0) { w.v(v0, "IGdtfWheelSlotAnimationSystem.GetP3_Y"); } }
	w.now("IGdtfWheelSlotAnimationSystem.GetRadius");
	{ double v0{}; if (w.rc(p->GetRadius(v0)) == 0) { w.v(v0, "IGdtfWheelSlotAnimationSystem.GetRadius"); } }
	w.now("IGdtfWheelSlotAnimationSystem.GetBoundObject");
	w.bound(p, "IGdtfWheelSlotAnimationSystem");
}

inline void Walk::walk(IGdtfWheelSlot* p)
{
	auto& w = *this; (void) w;
	w.now("IGdtfWheelSlot.GetName");
	w.text(p->GetName());
	w.now("IGdtfWheelSlot.GetColor");
	{ CieColor v0{}; if (w.rc(p->GetColor(v0)) == 0) { w.v(v0, "IGdtfWheelSlot.GetColor"); } }
	w.now("IGdtfWheelSlot.GetGobo");
	w.text(p->GetGobo());
	w.now("IGdtfWheelSlot.GetGoboFileFullPath");
	w.text(p->GetGoboFileFullPath());
	w.now("IGdtfWheelSlot.GetPrismFacetCount");
	{ size_t v0{}; if (w.rc(p->GetPrismFacetCount(v0)) == 0) { w.v(v0, "IGdtfWheelSlot.GetPrismFacetCount"); } }
	w.now("IGdtfWheelSlot.GetPrismFacetAt");
	{ size_t n = 0; bool ok = w.rc(p->GetPrismFacetCount(n)) == 0; for (size_t i : w.indices(n, ok)) { size_t j = i; VCOMPtr<IGdtfWheelSlotPrismFacet> o; w.at("IGdtfWheelSlot.GetPrismFacetAt", i, n, ok, w.rc(p->GetPrismFacetAt(j, &o)), o); w.child(o); } }
	w.now("IGdtfWheelSlot.GetBoundObject");
	w.bound(p, "IGdtfWheelSlot");
	w.now("IGdtfWheelSlot.GetFilter");
	{ VCOMPtr<IGdtfFilter> o;  if (w.rc(p->GetFilter(&o)) == 0) { w.v((bool) o); } w.ref(o); }
	w.now("IGdtfWheelSlot.GetAnimationSystem");
	{ VCOMPtr<IGdtfWheelSlotAnimationSystem> o;  if (w.rc(p->GetAnimationSystem(&o)) == 0) { w.v((bool) o); } w.child(o); }
	w.now("IGdtfWheelSlot.GetDuration");
	{ double v0{}; if (w.rc(p->GetDuration(v0)) == 0) { w.v(v0, "IGdtfWheelSlot.GetDuration"); } }
	w.now("IGdtfWheelSlot.GetWidth");
	{ size_t v0{}; if (w.rc(p->GetWidth(v0)) == 0) { w.v(v0, "IGdtfWheelSlot.GetWidth"); } }
	w.now("IGdtfWheelSlot.GetHeight");
	{ size_t v0{}; if (w.rc(p->GetHeight(v0)) == 0) { w.v(v0, "IGdtfWheelSlot.GetHeight"); } }
	w.now("IGdtfWheelSlot.GetFPS");
	{ size_t v0{}; if (w.rc(p->GetFPS(v0)) == 0) { w.v(v0, "IGdtfWheelSlot.GetFPS"); } }
}

inline void Walk::walk(IGdtfWheel* p)
{
	auto& w = *this; (void) w;
	w.now("IGdtfWheel.GetName");
	w.text(p->GetName());
	w.now("IGdtfWheel.GetWheelSlotCount");
	{ size_t v0{}; if (w.rc(p->GetWheelSlotCount(v0)) == 0) { w.v(v0, "IGdtfWheel.GetWheelSlotCount"); } }
	w.now("IGdtfWheel.GetWheelSlotAt");
	{ size_t n = 0; bool ok = w.rc(p->GetWheelSlotCount(n)) == 0; for (size_t i : w.indices(n, ok)) { size_t j = i; VCOMPtr<IGdtfWheelSlot> o; w.at("IGdtfWheel.GetWheelSlotAt", i, n, ok, w.rc(p->GetWheelSlotAt(j, &o)), o); w.child(o); } }
	w.now("IGdtfWheel.GetBoundObject");
	w.bound(p, "IGdtfWheel");
}

inline void Walk::walk(IGdtfModel* p)
{
	auto& w = *this; (void) w;
	w.now("IGdtfModel.GetName");
	w.text(p->GetName());
	w.now("IGdtfModel.GetLength");
	{ double v0{}; if (w.rc(p->GetLength(v0)) == 0) { w.v(v0, "IGdtfModel.GetLength"); } }
	w.now("IGdtfModel.GetWidth");
	{ double v0{}; if (w.rc(p->GetWidth(v0)) == 0) { w.v(v0, "IGdtfModel.GetWidth"); } }
	w.now("IGdtfModel.GetHeight");
	{ double v0{}; if (w.rc(p->GetHeight(v0)) == 0) { w.v(v0, "IGdtfModel.GetHeight"); } }
	w.now("IGdtfModel.GetPrimitiveType");
	{ GdtfDefines::EGdtfModel_PrimitiveType v0{}; if (w.rc(p->GetPrimitiveType(v0)) == 0) { w.v(v0, "IGdtfModel.GetPrimitiveType"); } }
	w.now("IGdtfModel.GetGeometryFileName");
	w.text(p->GetGeometryFileName());
	w.now("IGdtfModel.GetGeometryFile_3DS_FullPath");
	w.text(p->GetGeometryFile_3DS_FullPath());
	w.now("IGdtfModel.GetGeometryFile_SVG_FullPath");
	w.text(p->GetGeometryFile_SVG_FullPath());
	w.now("IGdtfModel.GetGeometryFile_GLTF_FullPath");
	w.text(p->GetGeometryFile_GLTF_FullPath());
	w.now("IGdtfModel.GetBuffer3DS");
	{ void* q = nullptr; size_t n = 0; if (w.rc(p->GetBuffer3DS(&q, n)) == 0 && q) delete[] (char*) q; }
	w.now("IGdtfModel.GetBufferSVG");
	{ void* q = nullptr; size_t n = 0; if (w.rc(p->GetBufferSVG(&q, n)) == 0 && q) delete[] (char*) q; }
	w.now("IGdtfModel.GetBufferGLTF");
	{ void* q = nullptr; size_t n = 0; if (w.rc(p->GetBufferGLTF(&q, n)) == 0 && q) delete[] (char*) q; }
	w.now("IGdtfModel.GetBoundObject");
	w.bound(p, "IGdtfModel");
	w.now("IGdtfModel.GetSVGOffsetX");
	{ double v0{}; if (w.rc(p->GetSVGOffsetX(v0)) == 0) { w.v(v0, "IGdtfModel.GetSVGOffsetX"); } }
	w.now("IGdtfModel.GetSVGOffsetY");
	{ double v0{}; if (w.rc(p->GetSVGOffsetY(v0)) == 0) { w.v(v0, "IGdtfModel.GetSVGOffsetY"); } }
	w.now("IGdtfModel.GetSVGSideOffsetX");
	{ double v0{}; if (w.rc(p->GetSVGSideOffsetX(v0)) == 0) { w.v(v0, "IGdtfModel.GetSVGSideOffsetX"); } }
	w.now("IGdtfModel.GetSVGSideOffsetY");
	{ double v0{}; if (w.rc(p->GetSVGSideOffsetY(v0)) == 0) { w.v(v0, "IGdtfModel.GetSVGSideOffsetY"); } }
	w.now("IGdtfModel.GetSVGFrontOffsetX");
	{ double v0{}; if (w.rc(p->GetSVGFrontOffsetX(v0)) == 0) { w.v(v0, "IGdtfModel.GetSVGFrontOffsetX"); } }
	w.now("IGdtfModel.GetSVGFrontOffsetY");
	{ double v0{}; if (w.rc(p->GetSVGFrontOffsetY(v0)) == 0) { w.v(v0, "IGdtfModel.GetSVGFrontOffsetY"); } }
	w.now("IGdtfModel.GetGeometryFile_3DSLow_FullPath");
	w.text(p->GetGeometryFile_3DSLow_FullPath());
	w.now("IGdtfModel.GetGeometryFile_3DSHigh_FullPath");
	w.text(p->GetGeometryFile_3DSHigh_FullPath());
	w.now("IGdtfModel.GetGeometryFile_GLTFLow_FullPath");
	w.text(p->GetGeometryFile_GLTFLow_FullPath());
	w.now("IGdtfModel.GetGeometryFile_GLTFHigh_FullPath");
	w.text(p->GetGeometryFile_GLTFHigh_FullPath());
	w.now("IGdtfModel.GetGeometryFile_SVGSide_FullPath");
	w.text(p->GetGeometryFile_SVGSide_FullPath());
	w.now("IGdtfModel.GetGeometryFile_SVGFront_FullPath");
	w.text(p->GetGeometryFile_SVGFront_FullPath());
}

inline void Walk::walk(IGdtfBreak* p)
{
	auto& w = *this; (void) w;
	w.now("IGdtfBreak.GetDmxBreak");
	{ Sint32 v0{}; if (w.rc(p->GetDmxBreak(v0)) == 0) { w.v(v0, "IGdtfBreak.GetDmxBreak"); } }
	w.now("IGdtfBreak.GetDmxAddress");
	{ GdtfDefines::DMXAddress v0{}; if (w.rc(p->GetDmxAddress(v0)) == 0) { w.v(v0, "IGdtfBreak.GetDmxAddress"); } }
	w.now("IGdtfBreak.GetBoundObject");
	w.bound(p, "IGdtfBreak");
}

inline void Walk::walk(IGdtfLaserProtocol* p)
{
	auto& w = *this; (void) w;
	w.now("IGdtfLaserProtocol.GetName");
	w.text(p->GetName());
	w.now("IGdtfLaserProtocol.GetBoundObject");
	w.bound(p, "IGdtfLaserProtocol");
}

inline void Walk::walk(IGdtfPinPatch* p)
{
	auto& w = *this; (void) w;
	w.now("IGdtfPinPatch.GetLinkedWiringObject");
	{ VCOMPtr<IGdtfGeometry> o;  if (w.rc(p->GetLinkedWiringObject(&o)) == 0) { w.v((bool) o); } w.ref(o); }
	w.now("IGdtfPinPatch.GetFromPin");
	{ size_t v0{}; if (w.rc(p->GetFromPin(v0)) == 0) { w.v(v0, "IGdtfPinPatch.GetFromPin"); } }
	w.now("IGdtfPinPatch.GetToPin");
	{ size_t v0{}; if (w.rc(p->GetToPin(v0)) == 0) { w.v(v0, "IGdtfPinPatch.GetToPin"); } }
	w.now("IGdtfPinPatch.GetBoundObject");
	w.bound(p, "IGdtfPinPatch");
}

inline void Walk::walk(IGdtfGeometry* p)
{
	auto& w = *this; (void) w;
	w.now("IGdtfGeometry.GetGeometryType");
	{ GdtfDefines::EGdtfObjectType v0{}; if (w.rc(p->GetGeometryType(v0)) == 0) { w.v(v0, "IGdtfGeometry.GetGeometryType"); } }
	w.now("IGdtfGeometry.GetName");
	w.text(p->GetName());
	w.now("IGdtfGeometry.GetModel");
	{ VCOMPtr<IGdtfModel> o;  if (w.rc(p->GetModel(&o)) == 0) { w.v((bool) o); } w.ref(o); }
	w.now("IGdtfGeometry.GetTransformMatrix");
	{ STransformMatrix v0{}; if (w.rc(p->GetTransformMatrix(v0)) == 0) { w.v(v0, "IGdtfGeometry.GetTransformMatrix"); } }
	w.now("IGdtfGeometry.GetInternalGeometryCount");
	{ size_t v0{}; if (w.rc(p->GetInternalGeometryCount(v0)) == 0) { w.v(v0, "IGdtfGeometry.GetInternalGeometryCount"); } }
	w.now("IGdtfGeometry.GetInternalGeometryAt");
	{ size_t n = 0; bool ok = w.rc(p->GetInternalGeometryCount(n)) == 0; for (size_t i : w.indices(n, ok)) { size_t j = i; VCOMPtr<IGdtfGeometry> o; w.at("IGdtfGeometry.GetInternalGeometryAt", i, n, ok, w.rc(p->GetInternalGeometryAt(j, &o)), o); w.child(o); } }
	w.now("IGdtfGeometry.GetLampType");
	{ GdtfDefines::EGdtfLampType v0{}; if (w.rc(p->GetLampType(v0)) == 0) { w.v(v0, "IGdtfGeometry.GetLampType"); } }
	w.now("IGdtfGeometry.GetPowerConsumption");
	{ double v0{}; if (w.rc(p->GetPowerConsumption(v0)) == 0) { w.v(v0, "IGdtfGeometry.GetPowerConsumption"); } }
	w.now("IGdtfGeometry.GetLuminousIntensity");
	{ double v0{}; if (w.rc(p->GetLuminousIntensity(v0)) == 0) { w.v(v0, "IGdtfGeometry.GetLuminousIntensity"); } }
	w.now("IGdtfGeometry.GetColorTemperature");
	{ double v0{}; if (w.rc(p->GetColorTemperature(v0)) == 0) { w.v(v0, "IGdtfGeometry.GetColorTemperature"); } }
	w.now("IGdtfGeometry.GetBeamAngle");
	{ double v0{}; if (w.rc(p->GetBeamAngle(v0)) == 0) { w.v(v0, "IGdtfGeometry.GetBeamAngle"); } }
	w.now("IGdtfGeometry.GetFieldAngle");
	{ double v0{}; if (w.rc(p->GetFieldAngle(v0)) == 0) { w.v(v0, "IGdtfGeometry.GetFieldAngle"); } }
	w.now("IGdtfGeometry.GetBeamRadius");
	{ double v0{}; if (w.rc(p->GetBeamRadius(v0)) == 0) { w.v(v0, "IGdtfGeometry.GetBeamRadius"); } }
	w.now("IGdtfGeometry.GetThrowRatio");
	{ double v0{}; if (w.rc(p->GetThrowRatio(v0)) == 0) { w.v(v0, "IGdtfGeometry.GetThrowRatio"); } }
	w.now("IGdtfGeometry.GetRectangleRatio");
	{ double v0{}; if (w.rc(p->GetRectangleRatio(v0)) == 0) { w.v(v0, "IGdtfGeometry.GetRectangleRatio"); } }
	w.now("IGdtfGeometry.GetBeamType");
	{ GdtfDefines::EGdtfBeamType v0{}; if (w.rc(p->GetBeamType(v0)) == 0) { w.v(v0, "IGdtfGeometry.GetBeamType"); } }
	w.now("IGdtfGeometry.GetColorIndex");
	{ Sint32 v0{}; if (w.rc(p->GetColorIndex(v0)) == 0) { w.v(v0, "IGdtfGeometry.GetColorIndex"); } }
	w.now("IGdtfGeometry.GetBreakCount");
	{ size_t v0{}; if (w.rc(p->GetBreakCount(v0)) == 0) { w.v(v0, "IGdtfGeometry.GetBreakCount"); } }
	w.now("IGdtfGeometry.GetBreakAt");
	{ size_t n = 0; bool ok = w.rc(p->GetBreakCount(n)) == 0; for (size_t i : w.indices(n, ok)) { size_t j = i; VCOMPtr<IGdtfBreak> o; w.at("IGdtfGeometry.GetBreakAt", i, n, ok, w.rc(p->GetBreakAt(j, &o)), o); w.child(o); } }
	w.now("IGdtfGeometry.GetGeometryReference");
	{ VCOMPtr<IGdtfGeometry> o;  if (w.rc(p->GetGeometryReference(&o)) == 0) { w.v((bool) o); } w.ref(o); }
	w.now("IGdtfGeometry.GetBoundObject");
	w.bound(p, "IGdtfGeometry");
	w.now("IGdtfGeometry.GetCountLinkedDmxChannel");
	for (auto m : w.modes) { size_t n = 0; w.rc(p->GetCountLinkedDmxChannel(n, m)); }
	w.now("IGdtfGeometry.GetLinkedDmxChannelAt");
	for (auto m : w.modes) { size_t n = 0; bool ok = w.rc(p->GetCountLinkedDmxChannel(n, m)) == 0; for (size_t i : w.indices(n, ok)) { VCOMPtr<IGdtfDmxChannel> o; w.at("IGdtfGeometry.GetLinkedDmxChannelAt", i, n, ok, w.rc(p->GetLinkedDmxChannelAt(i, &o, m)), o); w.child(o); } }
	w.now("IGdtfGeometry.GetParent");
	{ VCOMPtr<IGdtfGeometry> o;  if (w.rc(p->GetParent(&o)) == 0) { w.v((bool) o); } w.ref(o); }
	w.now("IGdtfGeometry.GetTexture");
	w.text(p->GetTexture());
	w.now("IGdtfGeometry.GetWidth");
	{ size_t v0{}; if (w.rc(p->GetWidth(v0)) == 0) { w.v(v0, "IGdtfGeometry.GetWidth"); } }
	w.now("IGdtfGeometry.GetHeight");
	{ size_t v0{}; if (w.rc(p->GetHeight(v0)) == 0) { w.v(v0, "IGdtfGeometry.GetHeight"); } }
	w.now("IGdtfGeometry.GetIsCurved");
	{ bool v0{}; if (w.rc(p->GetIsCurved(v0)) == 0) { w.v(v0, "IGdtfGeometry.GetIsCurved"); } }
	w.now("IGdtfGeometry.GetEmitterSpectrum");
	{ VCOMPtr<IGdtfPhysicalEmitter> o;  if (w.rc(p->GetEmitterSpectrum(&o)) == 0) { w.v((bool) o); } w.ref(o); }
	w.now("IGdtfGeometry.GetColorType");
	{ GdtfDefines::EGdtfLaserColorType v0{}; if (w.rc(p->GetColorType(v0)) == 0) { w.v(v0, "IGdtfGeometry.GetColorType"); } }
	w.now("IGdtfGeometry.GetLaserColor");
	{ double v0{}; if (w.rc(p->GetLaserColor(v0)) == 0) { w.v(v0, "IGdtfGeometry.GetLaserColor"); } }
	w.now("IGdtfGeometry.GetOutputStrength");
	{ double v0{}; if (w.rc(p->GetOutputStrength(v0)) == 0) { w.v(v0, "IGdtfGeometry.GetOutputStrength"); } }
	w.now("IGdtfGeometry.GetEmitter");
	{ VCOMPtr<IGdtfPhysicalEmitter> o;  if (w.rc(p->GetEmitter(&o)) == 0) { w.v((bool) o); } w.ref(o); }
	w.now("IGdtfGeometry.GetBeamDiameter");
	{ double v0{}; if (w.rc(p->GetBeamDiameter(v0)) == 0) { w.v(v0, "IGdtfGeometry.GetBeamDiameter"); } }
	w.now("IGdtfGeometry.GetBeamDivergenceMin");
	{ double v0{}; if (w.rc(p->GetBeamDivergenceMin(v0)) == 0) { w.v(v0, "IGdtfGeometry.GetBeamDivergenceMin"); } }
	w.now("IGdtfGeometry.GetBeamDivergenceMax");
	{ double v0{}; if (w.rc(p->GetBeamDivergenceMax(v0)) == 0) { w.v(v0, "IGdtfGeometry.GetBeamDivergenceMax"); } }
	w.now("IGdtfGeometry.GetScanAnglePan");
	{ double v0{}; if (w.rc(p->GetScanAnglePan(v0)) == 0) { w.v(v0, "IGdtfGeometry.GetScanAnglePan"); } }
	w.now("IGdtfGeometry.GetScanAngleTilt");
	{ double v0{}; if (w.rc(p->GetScanAngleTilt(v0)) == 0) { w.v(v0, "IGdtfGeometry.GetScanAngleTilt"); } }
	w.now("IGdtfGeometry.GetScanSpeed");
	{ double v0{}; if (w.rc(p->GetScanSpeed(v0)) == 0) { w.v(v0, "IGdtfGeometry.GetScanSpeed"); } }
	w.now("IGdtfGeometry.GetLaserProtocolCount");
	{ size_t v0{}; if (w.rc(p->GetLaserProtocolCount(v0)) == 0) { w.v(v0, "IGdtfGeometry.GetLaserProtocolCount"); } }
	w.now("IGdtfGeometry.GetLaserProtocolAt");
	{ size_t n = 0; bool ok = w.rc(p->GetLaserProtocolCount(n)) == 0; for (size_t i : w.indices(n, ok)) { size_t j = i; VCOMPtr<IGdtfLaserProtocol> o; w.at("IGdtfGeometry.GetLaserProtocolAt", i, n, ok, w.rc(p->GetLaserProtocolAt(j, &o)), o); w.child(o); } }
	w.now("IGdtfGeometry.GetConnectorType");
	w.text(p->GetConnectorType());
	w.now("IGdtfGeometry.GetComponentType");
	{ GdtfDefines::EGdtfComponentType v0{}; if (w.rc(p->GetComponentType(v0)) == 0) { w.v(v0, "IGdtfGeometry.GetComponentType"); } }
	w.now("IGdtfGeometry.GetSignalType");
	w.text(p->GetSignalType());
	w.now("IGdtfGeometry.GetPinCount");
	{ size_t v0{}; if (w.rc(p->GetPinCount(v0)) == 0) { w.v(v0, "IGdtfGeometry.GetPinCount"); } }
	w.now("IGdtfGeometry.GetSignalLayer");
	{ size_t v0{}; if (w.rc(p->GetSignalLayer(v0)) == 0) { w.v(v0, "IGdtfGeometry.GetSignalLayer"); } }
	w.now("IGdtfGeometry.GetOrientation");
	{ GdtfDefines::EGdtfOrientation v0{}; if (w.rc(p->GetOrientation(v0)) == 0) { w.v(v0, "IGdtfGeometry.GetOrientation"); } }
	w.now("IGdtfGeometry.GetWireGroup");
	w.text(p->GetWireGroup());
	w.now("IGdtfGeometry.GetElectricalPayLoad");
	{ double v0{}; if (w.rc(p->GetElectricalPayLoad(v0)) == 0) { w.v(v0, "IGdtfGeometry.GetElectricalPayLoad"); } }
	w.now("IGdtfGeometry.GetVoltageRangeMin");
	{ double v0{}; if (w.rc(p->GetVoltageRangeMin(v0)) == 0) { w.v(v0, "IGdtfGeometry.GetVoltageRangeMin"); } }
	w.now("IGdtfGeometry.GetVoltageRangeMax");
	{ double v0{}; if (w.rc(p->GetVoltageRangeMax(v0)) == 0) { w.v(v0, "IGdtfGeometry.GetVoltageRangeMax"); } }
	w.now("IGdtfGeometry.GetFrequencyRangeMin");
	{ double v0{}; if (w.rc(p->GetFrequencyRangeMin(v0)) == 0) { w.v(v0, "IGdtfGeometry.GetFrequencyRangeMin"); } }
	w.now("IGdtfGeometry.GetFrequencyRangeMax");
	{ double v0{}; if (w.rc(p->GetFrequencyRangeMax(v0)) == 0) { w.v(v0, "IGdtfGeometry.GetFrequencyRangeMax"); } }
	w.now("IGdtfGeometry.GetCosPhi");
	{ double v0{}; if (w.rc(p->GetCosPhi(v0)) == 0) { w.v(v0, "IGdtfGeometry.GetCosPhi"); } }
	w.now("IGdtfGeometry.GetMaxPayLoad");
	{ double v0{}; if (w.rc(p->GetMaxPayLoad(v0)) == 0) { w.v(v0, "IGdtfGeometry.GetMaxPayLoad"); } }
	w.now("IGdtfGeometry.GetVoltage");
	{ double v0{}; if (w.rc(p->GetVoltage(v0)) == 0) { w.v(v0, "IGdtfGeometry.GetVoltage"); } }
	w.now("IGdtfGeometry.GetFuseCurrent");
	{ double v0{}; if (w.rc(p->GetFuseCurrent(v0)) == 0) { w.v(v0, "IGdtfGeometry.GetFuseCurrent"); } }
	w.now("IGdtfGeometry.GetFuseRating");
	{ GdtfDefines::EGdtfFuseRating v0{}; if (w.rc(p->GetFuseRating(v0)) == 0) { w.v(v0, "IGdtfGeometry.GetFuseRating"); } }
	w.now("IGdtfGeometry.GetPinPatchCount");
	{ size_t v0{}; if (w.rc(p->GetPinPatchCount(v0)) == 0) { w.v(v0, "IGdtfGeometry.GetPinPatchCount"); } }
	w.now("IGdtfGeometry.GetPinPatchAt");
	{ size_t n = 0; bool ok = w.rc(p->GetPinPatchCount(n)) == 0; for (size_t i : w.indices(n, ok)) { size_t j = i; VCOMPtr<IGdtfPinPatch> o; w.at("IGdtfGeometry.GetPinPatchAt", i, n, ok, w.rc(p->GetPinPatchAt(j, &o)), o); w.child(o); } }
	w.now("IGdtfGeometry.GetInventoryCount");
	{ size_t v0{}; if (w.rc(p->GetInventoryCount(v0)) == 0) { w.v(v0, "IGdtfGeometry.GetInventoryCount"); } }
	w.now("IGdtfGeometry.GetStructureLinkedGeometry");
	{ VCOMPtr<IGdtfGeometry> o;  if (w.rc(p->GetStructureLinkedGeometry(&o)) == 0) { w.v((bool) o); } w.ref(o); }
	w.now("IGdtfGeometry.GetStructureType");
	{ GdtfDefines::EGdtfStructureType v0{}; if (w.rc(p->GetStructureType(v0)) == 0) { w.v(v0, "IGdtfGeometry.GetStructureType"); } }
	w.now("IGdtfGeometry.GetCrossSectionType");
	{ GdtfDefines::EGdtfCrossSectionType v0{}; if (w.rc(p->GetCrossSectionType(v0)) == 0) { w.v(v0, "IGdtfGeometry.GetCrossSectionType"); } }
	w.now("IGdtfGeometry.GetCrossSectionHeight");
	{ double v0{}; if (w.rc(p->GetCrossSectionHeight(v0)) == 0) { w.v(v0, "IGdtfGeometry.GetCrossSectionHeight"); } }
	w.now("IGdtfGeometry.GetCrossSectionWallThickness");
	{ double v0{}; if (w.rc(p->GetCrossSectionWallThickness(v0)) == 0) { w.v(v0, "IGdtfGeometry.GetCrossSectionWallThickness"); } }
	w.now("IGdtfGeometry.GetTrussCrossSection");
	w.text(p->GetTrussCrossSection());
	w.now("IGdtfGeometry.GetSupportType");
	{ GdtfDefines::EGdtfSupportType v0{}; if (w.rc(p->GetSupportType(v0)) == 0) { w.v(v0, "IGdtfGeometry.GetSupportType"); } }
	w.now("IGdtfGeometry.GetCapacityX");
	{ double v0{}; if (w.rc(p->GetCapacityX(v0)) == 0) { w.v(v0, "IGdtfGeometry.GetCapacityX"); } }
	w.now("IGdtfGeometry.GetCapacityY");
	{ double v0{}; if (w.rc(p->GetCapacityY(v0)) == 0) { w.v(v0, "IGdtfGeometry.GetCapacityY"); } }
	w.now("IGdtfGeometry.GetCapacityZ");
	{ double v0{}; if (w.rc(p->GetCapacityZ(v0)) == 0) { w.v(v0, "IGdtfGeometry.GetCapacityZ"); } }
	w.now("IGdtfGeometry.GetCapacityXX");
	{ double v0{}; if (w.rc(p->GetCapacityXX(v0)) == 0) { w.v(v0, "IGdtfGeometry.GetCapacityXX"); } }
	w.now("IGdtfGeometry.GetCapacityYY");
	{ double v0{}; if (w.rc(p->GetCapacityYY(v0)) == 0) { w.v(v0, "IGdtfGeometry.GetCapacityYY"); } }
	w.now("IGdtfGeometry.GetCapacityZZ");
	{ double v0{}; if (w.rc(p->GetCapacityZZ(v0)) == 0) { w.v(v0, "IGdtfGeometry.GetCapacityZZ"); } }
	w.now("IGdtfGeometry.GetRopeCrossSection");
	w.text(p->GetRopeCrossSection());
	w.now("IGdtfGeometry.GetRopeOffset");
	{ SVector3 v0{}; if (w.rc(p->GetRopeOffset(v0)) == 0) { w.v(v0, "IGdtfGeometry.GetRopeOffset"); } }
	w.now("IGdtfGeometry.GetResistanceX");
	{ double v0{}; if (w.rc(p->GetResistanceX(v0)) == 0) { w.v(v0, "IGdtfGeometry.GetResistanceX"); } }
	w.now("IGdtfGeometry.GetResistanceY");
	{ double v0{}; if (w.rc(p->GetResistanceY(v0)) == 0) { w.v(v0, "IGdtfGeometry.GetResistanceY"); } }
	w.now("IGdtfGeometry.GetResistanceZ");
	{ double v0{}; if (w.rc(p->GetResistanceZ(v0)) == 0) { w.v(v0, "IGdtfGeometry.GetResistanceZ"); } }
	w.now("IGdtfGeometry.GetResistanceXX");
	{ double v0{}; if (w.rc(p->GetResistanceXX(v0)) == 0) { w.v(v0, "IGdtfGeometry.GetResistanceXX"); } }
	w.now("IGdtfGeometry.GetResistanceYY");
	{ double v0{}; if (w.rc(p->GetResistanceYY(v0)) == 0) { w.v(v0, "IGdtfGeometry.GetResistanceYY"); } }
	w.now("IGdtfGeometry.GetResistanceZZ");
	{ double v0{}; if (w.rc(p->GetResistanceZZ(v0)) == 0) { w.v(v0, "IGdtfGeometry.GetResistanceZZ"); } }
}

inline void Walk::walk(IGdtfDmxChannelSet* p)
{
	auto& w = *this; (void) w;
	w.now("IGdtfDmxChannelSet.GetName");
	w.text(p->GetName());
	w.now("IGdtfDmxChannelSet.GetDmxStartAddress");
	{ GdtfDefines::DmxValue v0{}; if (w.rc(p->GetDmxStartAddress(v0)) == 0) { w.v(v0, "IGdtfDmxChannelSet.GetDmxStartAddress"); } }
	w.now("IGdtfDmxChannelSet.GetDmxEndAddress");
	{ GdtfDefines::DmxValue v0{}; if (w.rc(p->GetDmxEndAddress(v0)) == 0) { w.v(v0, "IGdtfDmxChannelSet.GetDmxEndAddress"); } }
	w.now("IGdtfDmxChannelSet.GetPhysicalStart");
	{ double v0{}; if (w.rc(p->GetPhysicalStart(v0)) == 0) { w.v(v0, "IGdtfDmxChannelSet.GetPhysicalStart"); } }
	w.now("IGdtfDmxChannelSet.GetPhysicalEnd");
	{ double v0{}; if (w.rc(p->GetPhysicalEnd(v0)) == 0) { w.v(v0, "IGdtfDmxChannelSet.GetPhysicalEnd"); } }
	w.now("IGdtfDmxChannelSet.GetWheelSlot");
	{ Sint32 v0{}; if (w.rc(p->GetWheelSlot(v0)) == 0) { w.v(v0, "IGdtfDmxChannelSet.GetWheelSlot"); } }
	w.now("IGdtfDmxChannelSet.GetUsePhysicalFromParent");
	{ bool v0{}; if (w.rc(p->GetUsePhysicalFromParent(v0)) == 0) { w.v(v0, "IGdtfDmxChannelSet.GetUsePhysicalFromParent"); } }
	w.now("IGdtfDmxChannelSet.GetBoundObject");
	w.bound(p, "IGdtfDmxChannelSet");
}

inline void Walk::walk(IGdtfDmxSubChannelSet* p)
{
	auto& w = *this; (void) w;
	w.now("IGdtfDmxSubChannelSet.GetName");
	w.text(p->GetName());
	w.now("IGdtfDmxSubChannelSet.GetPhysicalFrom");
	{ double v0{}; if (w.rc(p->GetPhysicalFrom(v0)) == 0) { w.v(v0, "IGdtfDmxSubChannelSet.GetPhysicalFrom"); } }
	w.now("IGdtfDmxSubChannelSet.GetPhysicalTo");
	{ double v0{}; if (w.rc(p->GetPhysicalTo(v0)) == 0) { w.v(v0, "IGdtfDmxSubChannelSet.GetPhysicalTo"); } }
	w.now("IGdtfDmxSubChannelSet.GetSubPhysicalUnit");
	{ VCOMPtr<IGdtfSubPhysicalUnit> o;  if (w.rc(p->GetSubPhysicalUnit(&o)) == 0) { w.v((bool) o); } w.ref(o); }
	w.now("IGdtfDmxSubChannelSet.GetDMXProfile");
	{ VCOMPtr<IGdtfDMXProfile> o;  if (w.rc(p->GetDMXProfile(&o)) == 0) { w.v((bool) o); } w.ref(o); }
	w.now("IGdtfDmxSubChannelSet.GetBoundObject");
	w.bound(p, "IGdtfDmxSubChannelSet");
}

inline void Walk::walk(IGdtfDmxChannelFunction* p)
{
	auto& w = *this; (void) w;
	w.now("IGdtfDmxChannelFunction.GetName");
	w.text(p->GetName());
	w.now("IGdtfDmxChannelFunction.GetAttribute");
	{ VCOMPtr<IGdtfAttribute> o;  if (w.rc(p->GetAttribute(&o)) == 0) { w.v((bool) o); } w.ref(o); }
	w.now("IGdtfDmxChannelFunction.GetOriginalAttribute");
	w.text(p->GetOriginalAttribute());
	w.now("IGdtfDmxChannelFunction.GetStartAddress");
	{ GdtfDefines::DmxValue v0{}; if (w.rc(p->GetStartAddress(v0)) == 0) { w.v(v0, "IGdtfDmxChannelFunction.GetStartAddress"); } }
	w.now("IGdtfDmxChannelFunction.GetEndAddress");
	{ GdtfDefines::DmxValue v0{}; if (w.rc(p->GetEndAddress(v0)) == 0) { w.v(v0, "IGdtfDmxChannelFunction.GetEndAddress"); } }
	w.now("IGdtfDmxChannelFunction.GetPhysicalStart");
	{ double v0{}; if (w.rc(p->GetPhysicalStart(v0)) == 0) { w.v(v0, "IGdtfDmxChannelFunction.GetPhysicalStart"); } }
	w.now("IGdtfDmxChannelFunction.GetPhysicalEnd");
	{ double v0{}; if (w.rc(p->GetPhysicalEnd(v0)) == 0) { w.v(v0, "IGdtfDmxChannelFunction.GetPhysicalEnd"); } }
	w.now("IGdtfDmxChannelFunction.GetRealFade");
	{ double v0{}; if (w.rc(p->GetRealFade(v0)) == 0) { w.v(v0, "IGdtfDmxChannelFunction.GetRealFade"); } }
	w.now("IGdtfDmxChannelFunction.GetOnWheel");
	{ VCOMPtr<IGdtfWheel> o;  if (w.rc(p->GetOnWheel(&o)) == 0) { w.v((bool) o); } w.ref(o); }
	w.now("IGdtfDmxChannelFunction.GetEmitter");
	{ VCOMPtr<IGdtfPhysicalEmitter> o;  if (w.rc(p->GetEmitter(&o)) == 0) { w.v((bool) o); } w.ref(o); }
	w.now("IGdtfDmxChannelFunction.GetFilter");
	{ VCOMPtr<IGdtfFilter> o;  if (w.rc(p->GetFilter(&o)) == 0) { w.v((bool) o); } w.ref(o); }
	w.now("IGdtfDmxChannelFunction.GetDmxChannelSetCount");
	{ size_t v0{}; if (w.rc(p->GetDmxChannelSetCount(v0)) == 0) { w.v(v0, "IGdtfDmxChannelFunction.GetDmxChannelSetCount"); } }
	w.now("IGdtfDmxChannelFunction.GetDmxChannelSetAt");
	{ size_t n = 0; bool ok = w.rc(p->GetDmxChannelSetCount(n)) == 0; for (size_t i : w.indices(n, ok)) { size_t j = i; VCOMPtr<IGdtfDmxChannelSet> o; w.at("IGdtfDmxChannelFunction.GetDmxChannelSetAt", i, n, ok, w.rc(p->GetDmxChannelSetAt(j, &o)), o); w.child(o); } }
	w.now("IGdtfDmxChannelFunction.GetModeMasterChannel");
	{ VCOMPtr<IGdtfDmxChannel> o; GdtfDefines::DmxValue v0{}; GdtfDefines::DmxValue v1{}; if (w.rc(p->GetModeMasterChannel(&o, v0, v1)) == 0) { w.v((bool) o); w.v(v0, "IGdtfDmxChannelFunction.GetModeMasterChannel"); w.v(v1, "IGdtfDmxChannelFunction.GetModeMasterChannel"); } w.ref(o); }
	w.now("IGdtfDmxChannelFunction.GetModeMasterFunction");
	{ VCOMPtr<IGdtfDmxChannelFunction> o; GdtfDefines::DmxValue v0{}; GdtfDefines::DmxValue v1{}; if (w.rc(p->GetModeMasterFunction(&o, v0, v1)) == 0) { w.v((bool) o); w.v(v0, "IGdtfDmxChannelFunction.GetModeMasterFunction"); w.v(v1, "IGdtfDmxChannelFunction.GetModeMasterFunction"); } w.ref(o); }
	w.now("IGdtfDmxChannelFunction.GetParentLogicalChannel");
	{ VCOMPtr<IGdtfDmxLogicalChannel> o;  if (w.rc(p->GetParentLogicalChannel(&o)) == 0) { w.v((bool) o); } w.ref(o); }
	w.now("IGdtfDmxChannelFunction.GetBoundObject");
	w.bound(p, "IGdtfDmxChannelFunction");
	w.now("IGdtfDmxChannelFunction.GetResolution");
	{ GdtfDefines::EGdtfChannelBitResolution v0{}; if (w.rc(p->GetResolution(v0)) == 0) { w.v(v0, "IGdtfDmxChannelFunction.GetResolution"); } }
	w.now("IGdtfDmxChannelFunction.GetRealAcceleration");
	{ double v0{}; if (w.rc(p->GetRealAcceleration(v0)) == 0) { w.v(v0, "IGdtfDmxChannelFunction.GetRealAcceleration"); } }
	w.now("IGdtfDmxChannelFunction.GetDefaultValue");
	{ GdtfDefines::DmxValue v0{}; if (w.rc(p->GetDefaultValue(v0)) == 0) { w.v(v0, "IGdtfDmxChannelFunction.GetDefaultValue"); } }
	w.now("IGdtfDmxChannelFunction.GetColorSpace");
	{ VCOMPtr<IGdtfColorSpace> o;  if (w.rc(p->GetColorSpace(&o)) == 0) { w.v((bool) o); } w.ref(o); }
	w.now("IGdtfDmxChannelFunction.GetGamut");
	{ VCOMPtr<IGdtfGamut> o;  if (w.rc(p->GetGamut(&o)) == 0) { w.v((bool) o); } w.ref(o); }
	w.now("IGdtfDmxChannelFunction.GetDMXProfile");
	{ VCOMPtr<IGdtfDMXProfile> o;  if (w.rc(p->GetDMXProfile(&o)) == 0) { w.v((bool) o); } w.ref(o); }
	w.now("IGdtfDmxChannelFunction.GetMin");
	{ double v0{}; if (w.rc(p->GetMin(v0)) == 0) { w.v(v0, "IGdtfDmxChannelFunction.GetMin"); } }
	w.now("IGdtfDmxChannelFunction.GetMax");
	{ double v0{}; if (w.rc(p->GetMax(v0)) == 0) { w.v(v0, "IGdtfDmxChannelFunction.GetMax"); } }
	w.now("IGdtfDmxChannelFunction.GetCustomName");
	w.text(p->GetCustomName());
	w.now("IGdtfDmxChannelFunction.GetDmxSubChannelSetCount");
	{ size_t v0{}; if (w.rc(p->GetDmxSubChannelSetCount(v0)) == 0) { w.v(v0, "IGdtfDmxChannelFunction.GetDmxSubChannelSetCount"); } }
	w.now("IGdtfDmxChannelFunction.GetDmxSubChannelSetAt");
	{ size_t n = 0; bool ok = w.rc(p->GetDmxSubChannelSetCount(n)) == 0; for (size_t i : w.indices(n, ok)) { size_t j = i; VCOMPtr<IGdtfDmxSubChannelSet> o; w.at("IGdtfDmxChannelFunction.GetDmxSubChannelSetAt", i, n, ok, w.rc(p->GetDmxSubChannelSetAt(j, &o)), o); w.child(o); } }
}

inline void Walk::walk(IGdtfDmxLogicalChannel* p)
{
	auto& w = *this; (void) w;
	w.now("IGdtfDmxLogicalChannel.GetName");
	w.text(p->GetName());
	w.now("IGdtfDmxLogicalChannel.GetAttribute");
	{ VCOMPtr<IGdtfAttribute> o;  if (w.rc(p->GetAttribute(&o)) == 0) { w.v((bool) o); } w.ref(o); }
	w.now("IGdtfDmxLogicalChannel.GetDmxSnap");
	{ GdtfDefines::EGdtfDmxSnap v0{}; if (w.rc(p->GetDmxSnap(v0)) == 0) { w.v(v0, "IGdtfDmxLogicalChannel.GetDmxSnap"); } }
	w.now("IGdtfDmxLogicalChannel.GetDmxMaster");
	{ GdtfDefines::EGdtfDmxMaster v0{}; if (w.rc(p->GetDmxMaster(v0)) == 0) { w.v(v0, "IGdtfDmxLogicalChannel.GetDmxMaster"); } }
	w.now("IGdtfDmxLogicalChannel.GetMoveInBlackFrames");
	{ double v0{}; if (w.rc(p->GetMoveInBlackFrames(v0)) == 0) { w.v(v0, "IGdtfDmxLogicalChannel.GetMoveInBlackFrames"); } }
	w.now("IGdtfDmxLogicalChannel.GetDmxChangeTimeLimit");
	{ double v0{}; if (w.rc(p->GetDmxChangeTimeLimit(v0)) == 0) { w.v(v0, "IGdtfDmxLogicalChannel.GetDmxChangeTimeLimit"); } }
	w.now("IGdtfDmxLogicalChannel.GetDmxFunctionCount");
	{ size_t v0{}; if (w.rc(p->GetDmxFunctionCount(v0)) == 0) { w.v(v0, "IGdtfDmxLogicalChannel.GetDmxFunctionCount"); } }
	w.now("IGdtfDmxLogicalChannel.GetDmxFunctionAt");
	{ size_t n = 0; bool ok = w.rc(p->GetDmxFunctionCount(n)) == 0; for (size_t i : w.indices(n, ok)) { size_t j = i; VCOMPtr<IGdtfDmxChannelFunction> o; w.at("IGdtfDmxLogicalChannel.GetDmxFunctionAt", i, n, ok, w.rc(p->GetDmxFunctionAt(j, &o)), o); w.child(o); } }
	w.now("IGdtfDmxLogicalChannel.GetParentDmxChannel");
	{ VCOMPtr<IGdtfDmxChannel> o;  if (w.rc(p->GetParentDmxChannel(&o)) == 0) { w.v((bool) o); } w.ref(o); }
	w.now("IGdtfDmxLogicalChannel.GetBoundObject");
	w.bound(p, "IGdtfDmxLogicalChannel");
}

inline void Walk::walk(IGdtfDmxChannel* p)
{
	auto& w = *this; (void) w;
	w.now("IGdtfDmxChannel.GetName");
	w.text(p->GetName());
	w.now("IGdtfDmxChannel.GetDmxBreak");
	{ Sint32 v0{}; if (w.rc(p->GetDmxBreak(v0)) == 0) { w.v(v0, "IGdtfDmxChannel.GetDmxBreak"); } }
	w.now("IGdtfDmxChannel.GetCoarse");
	{ Sint32 v0{}; if (w.rc(p->GetCoarse(v0)) == 0) { w.v(v0, "IGdtfDmxChannel.GetCoarse"); } }
	w.now("IGdtfDmxChannel.GetFine");
	{ Sint32 v0{}; if (w.rc(p->GetFine(v0)) == 0) { w.v(v0, "IGdtfDmxChannel.GetFine"); } }
	w.now("IGdtfDmxChannel.GetUltra");
	{ Sint32 v0{}; if (w.rc(p->GetUltra(v0)) == 0) { w.v(v0, "IGdtfDmxChannel.GetUltra"); } }
	w.now("IGdtfDmxChannel.GetUber");
	{ Sint32 v0{}; if (w.rc(p->GetUber(v0)) == 0) { w.v(v0, "IGdtfDmxChannel.GetUber"); } }
	w.now("IGdtfDmxChannel.GetHighlight");
	{ GdtfDefines::DmxValue v0{}; if (w.rc(p->GetHighlight(v0)) == 0) { w.v(v0, "IGdtfDmxChannel.GetHighlight"); } }
	w.now("IGdtfDmxChannel.HasHighlight");
	{ bool v0{}; if (w.rc(p->HasHighlight(v0)) == 0) { w.v(v0, "IGdtfDmxChannel.HasHighlight"); } }
	w.now("IGdtfDmxChannel.GetGeometry");
	{ VCOMPtr<IGdtfGeometry> o;  if (w.rc(p->GetGeometry(&o)) == 0) { w.v((bool) o); } w.ref(o); }
	w.now("IGdtfDmxChannel.GetLogicalChannelCount");
	{ size_t v0{}; if (w.rc(p->GetLogicalChannelCount(v0)) == 0) { w.v(v0, "IGdtfDmxChannel.GetLogicalChannelCount"); } }
	w.now("IGdtfDmxChannel.GetLogicalChannelAt");
	{ size_t n = 0; bool ok = w.rc(p->GetLogicalChannelCount(n)) == 0; for (size_t i : w.indices(n, ok)) { size_t j = i; VCOMPtr<IGdtfDmxLogicalChannel> o; w.at("IGdtfDmxChannel.GetLogicalChannelAt", i, n, ok, w.rc(p->GetLogicalChannelAt(j, &o)), o); w.child(o); } }
	w.now("IGdtfDmxChannel.GetBoundObject");
	w.bound(p, "IGdtfDmxChannel");
	w.now("IGdtfDmxChannel.GetResolution");
	{ GdtfDefines::EGdtfChannelBitResolution v0{}; if (w.rc(p->GetResolution(v0)) == 0) { w.v(v0, "IGdtfDmxChannel.GetResolution"); } }
	w.now("IGdtfDmxChannel.GetInitialFunction");
	{ VCOMPtr<IGdtfDmxChannelFunction> o;  if (w.rc(p->GetInitialFunction(&o)) == 0) { w.v((bool) o); } w.ref(o); }
}

inline void Walk::walk(IGdtfDmxRelation* p)
{
	auto& w = *this; (void) w;
	w.now("IGdtfDmxRelation.GetName");
	w.text(p->GetName());
	w.now("IGdtfDmxRelation.GetMasterChannel");
	{ VCOMPtr<IGdtfDmxChannel> o;  if (w.rc(p->GetMasterChannel(&o)) == 0) { w.v((bool) o); } w.ref(o); }
	w.now("IGdtfDmxRelation.GetSlaveChannel");
	{ VCOMPtr<IGdtfDmxChannelFunction> o;  if (w.rc(p->GetSlaveChannel(&o)) == 0) { w.v((bool) o); } w.ref(o); }
	w.now("IGdtfDmxRelation.GetRelationType");
	{ GdtfDefines::EGdtfDmxRelationType v0{}; if (w.rc(p->GetRelationType(v0)) == 0) { w.v(v0, "IGdtfDmxRelation.GetRelationType"); } }
	w.now("IGdtfDmxRelation.GetBoundObject");
	w.bound(p, "IGdtfDmxRelation");
}

inline void Walk::walk(IGdtfMacro* p)
{
	auto& w = *this; (void) w;
	w.now("IGdtfMacro.GetName");
	w.text(p->GetName());
	w.now("IGdtfMacro.GetMacroDMX");
	{ VCOMPtr<IGdtfMacroDMX> o;  if (w.rc(p->GetMacroDMX(&o)) == 0) { w.v((bool) o); } w.child(o); }
	w.now("IGdtfMacro.GetMacroVisual");
	{ VCOMPtr<IGdtfMacroVisual> o;  if (w.rc(p->GetMacroVisual(&o)) == 0) { w.v((bool) o); } w.child(o); }
	w.now("IGdtfMacro.GetChannelFunction");
	{ VCOMPtr<IGdtfDmxChannelFunction> o;  if (w.rc(p->GetChannelFunction(&o)) == 0) { w.v((bool) o); } w.ref(o); }
}

inline void Walk::walk(IGdtfMacroDMX* p)
{
	auto& w = *this; (void) w;
	w.now("IGdtfMacroDMX.GetStepCount");
	{ size_t v0{}; if (w.rc(p->GetStepCount(v0)) == 0) { w.v(v0, "IGdtfMacroDMX.GetStepCount"); } }
	w.now("IGdtfMacroDMX.GetStepAt");
	{ size_t n = 0; bool ok = w.rc(p->GetStepCount(n)) == 0; for (size_t i : w.indices(n, ok)) { size_t j = i; VCOMPtr<IGdtfMacroDMXStep> o; w.at("IGdtfMacroDMX.GetStepAt", i, n, ok, w.rc(p->GetStepAt(j, &o)), o); w.child(o); } }
	w.now("IGdtfMacroDMX.GetBoundObject");
	w.bound(p, "IGdtfMacroDMX");
}

inline void Walk::walk(IGdtfMacroDMXStep* p)
{
	auto& w = *this; (void) w;
	w.now("IGdtfMacroDMXStep.GetDuration");
	{ double v0{}; if (w.rc(p->GetDuration(v0)) == 0) { w.v(v0, "IGdtfMacroDMXStep.GetDuration"); } }
	w.now("IGdtfMacroDMXStep.GetDMXValueCount");
	{ size_t v0{}; if (w.rc(p->GetDMXValueCount(v0)) == 0) { w.v(v0, "IGdtfMacroDMXStep.GetDMXValueCount"); } }
	w.now("IGdtfMacroDMXStep.GetDMXValueAt");
	{ size_t n = 0; bool ok = w.rc(p->GetDMXValueCount(n)) == 0; for (size_t i : w.indices(n, ok)) { size_t j = i; VCOMPtr<IGdtfMacroDMXValue> o; w.at("IGdtfMacroDMXStep.GetDMXValueAt", i, n, ok, w.rc(p->GetDMXValueAt(j, &o)), o); w.child(o); } }
	w.now("IGdtfMacroDMXStep.GetBoundObject");
	w.bound(p, "IGdtfMacroDMXStep");
}

inline void Walk::walk(IGdtfMacroDMXValue* p)
{
	auto& w = *this; (void) w;
	w.now("IGdtfMacroDMXValue.GetDmxValue");
	{ GdtfDefines::DmxValue v0{}; if (w.rc(p->GetDmxValue(v0)) == 0) { w.v(v0, "IGdtfMacroDMXValue.GetDmxValue"); } }
	w.now("IGdtfMacroDMXValue.GetDmxChannel");
	{ VCOMPtr<IGdtfDmxChannel> o;  if (w.rc(p->GetDmxChannel(&o)) == 0) { w.v((bool) o); } w.ref(o); }
	w.now("IGdtfMacroDMXValue.GetBoundObject");
	w.bound(p, "IGdtfMacroDMXValue");
}

inline void Walk::walk(IGdtfMacroVisual* p)
{
	auto& w = *this; (void) w;
	w.now("IGdtfMacroVisual.GetVisualStepCount");
	{ size_t v0{}; if (w.rc(p->GetVisualStepCount(v0)) == 0) { w.v(v0, "IGdtfMacroVisual.GetVisualStepCount"); } }
	w.now("IGdtfMacroVisual.GetVisualStepAt");
	{ size_t n = 0; bool ok = w.rc(p->GetVisualStepCount(n)) == 0; for (size_t i : w.indices(n, ok)) { size_t j = i; VCOMPtr<IGdtfMacroVisualStep> o; w.at("IGdtfMacroVisual.GetVisualStepAt", i, n, ok, w.rc(p->GetVisualStepAt(j, &o)), o); w.child(o); } }
	w.now("IGdtfMacroVisual.GetBoundObject");
	w.bound(p, "IGdtfMacroVisual");
}

inline void Walk::walk(IGdtfMacroVisualStep* p)
{
	auto& w = *this; (void) w;
	w.now("IGdtfMacroVisualStep.GetDuration");
	{ double v0{}; if (w.rc(p->GetDuration(v0)) == 0) { w.v(v0, "IGdtfMacroVisualStep.GetDuration"); } }
	w.now("IGdtfMacroVisualStep.GetFade");
	{ double v0{}; if (w.rc(p->GetFade(v0)) == 0) { w.v(v0, "IGdtfMacroVisualStep.GetFade"); } }
	w.now("IGdtfMacroVisualStep.GetDelay");
	{ double v0{}; if (w.rc(p->GetDelay(v0)) == 0) { w.v(v0, "IGdtfMacroVisualStep.GetDelay"); } }
	w.now("IGdtfMacroVisualStep.GetVisualValueCount");
	{ size_t v0{}; if (w.rc(p->GetVisualValueCount(v0)) == 0) { w.v(v0, "IGdtfMacroVisualStep.GetVisualValueCount"); } }
	w.now("IGdtfMacroVisualStep.GetVisualValueAt");
	{ size_t n = 0; bool ok = w.rc(p->GetVisualValueCount(n)) == 0; for (size_t i : w.indices(n, ok)) { size_t j = i; VCOMPtr<IGdtfMacroVisualValue> o; w.at("IGdtfMacroVisualStep.GetVisualValueAt", i, n, ok, w.rc(p->GetVisualValueAt(j, &o)), o); w.child(o); } }
	w.now("IGdtfMacroVisualStep.GetBoundObject");
	w.bound(p, "IGdtfMacroVisualStep");
}

inline void Walk::walk(IGdtfMacroVisualValue* p)
{
	auto& w = *this; (void) w;
	w.now("IGdtfMacroVisualValue.GetDmxValue");
	{ GdtfDefines::DmxValue v0{}; if (w.rc(p->GetDmxValue(v0)) == 0) { w.v(v0, "IGdtfMacroVisualValue.GetDmxValue"); } }
	w.now("IGdtfMacroVisualValue.GetDmxChannel");
	{ VCOMPtr<IGdtfDmxChannelFunction> o;  if (w.rc(p->GetDmxChannel(&o)) == 0) { w.v((bool) o); } w.ref(o); }
	w.now("IGdtfMacroVisualValue.GetBoundObject");
	w.bound(p, "IGdtfMacroVisualValue");
}

inline void Walk::walk(IGdtfDmxMode* p)
{
	auto& w = *this; (void) w;
	w.now("IGdtfDmxMode.GetName");
	w.text(p->GetName());
	w.now("IGdtfDmxMode.GetGeometry");
	{ VCOMPtr<IGdtfGeometry> o;  if (w.rc(p->GetGeometry(&o)) == 0) { w.v((bool) o); } w.ref(o); }
	w.now("IGdtfDmxMode.GetDmxChannelCount");
	{ size_t v0{}; if (w.rc(p->GetDmxChannelCount(v0)) == 0) { w.v(v0, "IGdtfDmxMode.GetDmxChannelCount"); } }
	w.now("IGdtfDmxMode.GetDmxChannelAt");
	{ size_t n = 0; bool ok = w.rc(p->GetDmxChannelCount(n)) == 0; for (size_t i : w.indices(n, ok)) { size_t j = i; VCOMPtr<IGdtfDmxChannel> o; w.at("IGdtfDmxMode.GetDmxChannelAt", i, n, ok, w.rc(p->GetDmxChannelAt(j, &o)), o); w.child(o); } }
	w.now("IGdtfDmxMode.GetDmxRelationCount");
	{ size_t v0{}; if (w.rc(p->GetDmxRelationCount(v0)) == 0) { w.v(v0, "IGdtfDmxMode.GetDmxRelationCount"); } }
	w.now("IGdtfDmxMode.GetDmxRelationAt");
	{ size_t n = 0; bool ok = w.rc(p->GetDmxRelationCount(n)) == 0; for (size_t i : w.indices(n, ok)) { size_t j = i; VCOMPtr<IGdtfDmxRelation> o; w.at("IGdtfDmxMode.GetDmxRelationAt", i, n, ok, w.rc(p->GetDmxRelationAt(j, &o)), o); w.child(o); } }
	w.now("IGdtfDmxMode.GetDmxMacroCount");
	{ size_t v0{}; if (w.rc(p->GetDmxMacroCount(v0)) == 0) { w.v(v0, "IGdtfDmxMode.GetDmxMacroCount"); } }
	w.now("IGdtfDmxMode.GetDmxMacroAt");
	{ size_t n = 0; bool ok = w.rc(p->GetDmxMacroCount(n)) == 0; for (size_t i : w.indices(n, ok)) { size_t j = i; VCOMPtr<IGdtfMacro> o; w.at("IGdtfDmxMode.GetDmxMacroAt", i, n, ok, w.rc(p->GetDmxMacroAt(j, &o)), o); w.child(o); } }
	w.now("IGdtfDmxMode.GetBoundObject");
	w.bound(p, "IGdtfDmxMode");
	w.now("IGdtfDmxMode.GetBreakCount");
	{ size_t v0{}; if (w.rc(p->GetBreakCount(v0)) == 0) { w.v(v0, "IGdtfDmxMode.GetBreakCount"); } }
	w.now("IGdtfDmxMode.GetFootprintForBreak");
	{ size_t n = 0; bool ok = false; for (size_t i : w.indices(n, ok)) { size_t o{}; int e = w.rc(p->GetFootprintForBreak(i, o)); w.at("IGdtfDmxMode.GetFootprintForBreak", i, n, ok, e, true); if (e == 0) w.v(o, "IGdtfDmxMode.GetFootprintForBreak"); } }
	w.now("IGdtfDmxMode.GetBreakAt");
	{ size_t n = 0; bool ok = w.rc(p->GetBreakCount(n)) == 0; for (size_t i : w.indices(n, ok)) { size_t o{}; int e = w.rc(p->GetBreakAt(i, o)); w.at("IGdtfDmxMode.GetBreakAt", i, n, ok, e, true); if (e == 0) w.v(o, "IGdtfDmxMode.GetBreakAt"); } }
	w.now("IGdtfDmxMode.GetDescription");
	w.text(p->GetDescription());
}

inline void Walk::walk(IGdtfRevision* p)
{
	auto& w = *this; (void) w;
	w.now("IGdtfRevision.GetText");
	w.text(p->GetText());
	w.now("IGdtfRevision.GetDate");
	{ STime v0{}; if (w.rc(p->GetDate(v0)) == 0) { w.v(v0, "IGdtfRevision.GetDate"); } }
	w.now("IGdtfRevision.GetUserId");
	{ size_t v0{}; if (w.rc(p->GetUserId(v0)) == 0) { w.v(v0, "IGdtfRevision.GetUserId"); } }
	w.now("IGdtfRevision.GetModifiedBy");
	w.text(p->GetModifiedBy());
}

inline void Walk::walk(IGdtfUserPreset* p)
{
	auto& w = *this; (void) w;
}

inline void Walk::walk(IGdtfMeasurementPoint* p)
{
	auto& w = *this; (void) w;
	w.now("IGdtfMeasurementPoint.GetWaveLength");
	{ double v0{}; if (w.rc(p->GetWaveLength(v0)) == 0) { w.v(v0, "IGdtfMeasurementPoint.GetWaveLength"); } }
	w.now("IGdtfMeasurementPoint.GetEnergy");
	{ double v0{}; if (w.rc(p->GetEnergy(v0)) == 0) { w.v(v0, "IGdtfMeasurementPoint.GetEnergy"); } }
	w.now("IGdtfMeasurementPoint.GetBoundObject");
	w.bound(p, "IGdtfMeasurementPoint");
}

inline void Walk::walk(IGdtfMeasurement* p)
{
	auto& w = *this; (void) w;
	w.now("IGdtfMeasurement.GetPhysical");
	{ double v0{}; if (w.rc(p->GetPhysical(v0)) == 0) { w.v(v0, "IGdtfMeasurement.GetPhysical"); } }
	w.now("IGdtfMeasurement.GetLuminousIntensity");
	{ double v0{}; if (w.rc(p->GetLuminousIntensity(v0)) == 0) { w.v(v0, "IGdtfMeasurement.GetLuminousIntensity"); } }
	w.now("IGdtfMeasurement.GetTransmission");
	{ double v0{}; if (w.rc(p->GetTransmission(v0)) == 0) { w.v(v0, "IGdtfMeasurement.GetTransmission"); } }
	w.now("IGdtfMeasurement.GetInterpolationTo");
	{ GdtfDefines::EGdtfInterpolationTo v0{}; if (w.rc(p->GetInterpolationTo(v0)) == 0) { w.v(v0, "IGdtfMeasurement.GetInterpolationTo"); } }
	w.now("IGdtfMeasurement.GetMeasurementPointCount");
	{ size_t v0{}; if (w.rc(p->GetMeasurementPointCount(v0)) == 0) { w.v(v0, "IGdtfMeasurement.GetMeasurementPointCount"); } }
	w.now("IGdtfMeasurement.GetMeasurementPointAt");
	{ size_t n = 0; bool ok = w.rc(p->GetMeasurementPointCount(n)) == 0; for (size_t i : w.indices(n, ok)) { size_t j = i; VCOMPtr<IGdtfMeasurementPoint> o; w.at("IGdtfMeasurement.GetMeasurementPointAt", i, n, ok, w.rc(p->GetMeasurementPointAt(j, &o)), o); w.child(o); } }
	w.now("IGdtfMeasurement.GetBoundObject");
	w.bound(p, "IGdtfMeasurement");
}

inline void Walk::walk(IGdtfFilter* p)
{
	auto& w = *this; (void) w;
	w.now("IGdtfFilter.GetName");
	w.text(p->GetName());
	w.now("IGdtfFilter.GetColor");
	{ CieColor v0{}; if (w.rc(p->GetColor(v0)) == 0) { w.v(v0, "IGdtfFilter.GetColor"); } }
	w.now("IGdtfFilter.GetMeasurementCount");
	{ size_t v0{}; if (w.rc(p->GetMeasurementCount(v0)) == 0) { w.v(v0, "IGdtfFilter.GetMeasurementCount"); } }
	w.now("IGdtfFilter.GetMeasurementAt");
	{ size_t n = 0; bool ok = w.rc(p->GetMeasurementCount(n)) == 0; for (size_t i : w.indices(n, ok)) { size_t j = i; VCOMPtr<IGdtfMeasurement> o; w.at("IGdtfFilter.GetMeasurementAt", i, n, ok, w.rc(p->GetMeasurementAt(j, &o)), o); w.child(o); } }
	w.now("IGdtfFilter.GetBoundObject");
	w.bound(p, "IGdtfFilter");
}

inline void Walk::walk(IGdtfPhysicalEmitter* p)
{
	auto& w = *this; (void) w;
	w.now("IGdtfPhysicalEmitter.GetName");
	w.text(p->GetName());
	w.now("IGdtfPhysicalEmitter.GetColor");
	{ CieColor v0{}; if (w.rc(p->GetColor(v0)) == 0) { w.v(v0, "IGdtfPhysicalEmitter.GetColor"); } }
	w.now("IGdtfPhysicalEmitter.GetMeasurementCount");
	{ size_t v0{}; if (w.rc(p->GetMeasurementCount(v0)) == 0) { w.v(v0, "IGdtfPhysicalEmitter.GetMeasurementCount"); } }
	w.now("IGdtfPhysicalEmitter.GetMeasurementAt");
	{ size_t n = 0; bool ok = w.rc(p->GetMeasurementCount(n)) == 0; for (size_t i : w.indices(n, ok)) { size_t j = i; VCOMPtr<IGdtfMeasurement> o; w.at("IGdtfPhysicalEmitter.GetMeasurementAt", i, n, ok, w.rc(p->GetMeasurementAt(j, &o)), o); w.child(o); } }
	w.now("IGdtfPhysicalEmitter.GetDiodePart");
	w.text(p->GetDiodePart());
	w.now("IGdtfPhysicalEmitter.GetDominantWaveLength");
	{ double v0{}; if (w.rc(p->GetDominantWaveLength(v0)) == 0) { w.v(v0, "IGdtfPhysicalEmitter.GetDominantWaveLength"); } }
	w.now("IGdtfPhysicalEmitter.GetBoundObject");
	w.bound(p, "IGdtfPhysicalEmitter");
}

inline void Walk::walk(IGdtfColorSpace* p)
{
	auto& w = *this; (void) w;
	w.now("IGdtfColorSpace.GetColorSpace");
	{ GdtfDefines::EGdtfColorSpace v0{}; if (w.rc(p->GetColorSpace(v0)) == 0) { w.v(v0, "IGdtfColorSpace.GetColorSpace"); } }
	w.now("IGdtfColorSpace.GetRed");
	{ CieColor v0{}; if (w.rc(p->GetRed(v0)) == 0) { w.v(v0, "IGdtfColorSpace.GetRed"); } }
	w.now("IGdtfColorSpace.GetGreen");
	{ CieColor v0{}; if (w.rc(p->GetGreen(v0)) == 0) { w.v(v0, "IGdtfColorSpace.GetGreen"); } }
	w.now("IGdtfColorSpace.GetBlue");
	{ CieColor v0{}; if (w.rc(p->GetBlue(v0)) == 0) { w.v(v0, "IGdtfColorSpace.GetBlue"); } }
	w.now("IGdtfColorSpace.GetWhite");
	{ CieColor v0{}; if (w.rc(p->GetWhite(v0)) == 0) { w.v(v0, "IGdtfColorSpace.GetWhite"); } }
	w.now("IGdtfColorSpace.GetBoundObject");
	w.bound(p, "IGdtfColorSpace");
	w.now("IGdtfColorSpace.GetName");
	w.text(p->GetName());
}

inline void Walk::walk(IGdtfGamut* p)
{
	auto& w = *this; (void) w;
	w.now("IGdtfGamut.GetName");
	w.text(p->GetName());
	w.now("IGdtfGamut.GetPointCount");
	{ size_t v0{}; if (w.rc(p->GetPointCount(v0)) == 0) { w.v(v0, "IGdtfGamut.GetPointCount"); } }
	w.now("IGdtfGamut.GetPointAt");
	{ size_t n = 0; bool ok = w.rc(p->GetPointCount(n)) == 0; for (size_t i : w.indices(n, ok)) { CieColor o{}; int e = w.rc(p->GetPointAt(i, o)); w.at("IGdtfGamut.GetPointAt", i, n, ok, e, true); if (e == 0) w.v(o, "IGdtfGamut.GetPointAt"); } }
	w.now("IGdtfGamut.GetBoundObject");
	w.bound(p, "IGdtfGamut");
}

inline void Walk::walk(IGdtfCRI* p)
{
	auto& w = *this; (void) w;
	w.now("IGdtfCRI.GetColorRenderingIndex");
	{ Uint8 v0{}; if (w.rc(p->GetColorRenderingIndex(v0)) == 0) { w.v(v0, "IGdtfCRI.GetColorRenderingIndex"); } }
	w.now("IGdtfCRI.GetBoundObject");
	w.bound(p, "IGdtfCRI");
}

inline void Walk::walk(IGdtfCRIGroup* p)
{
	auto& w = *this; (void) w;
	w.now("IGdtfCRIGroup.GetColorTemperature");
	{ double v0{}; if (w.rc(p->GetColorTemperature(v0)) == 0) { w.v(v0, "IGdtfCRIGroup.GetColorTemperature"); } }
	w.now("IGdtfCRIGroup.GetCRICount");
	{ size_t v0{}; if (w.rc(p->GetCRICount(v0)) == 0) { w.v(v0, "IGdtfCRIGroup.GetCRICount"); } }
	w.now("IGdtfCRIGroup.GetCRIAt");
	{ size_t n = 0; bool ok = w.rc(p->GetCRICount(n)) == 0; for (size_t i : w.indices(n, ok)) { size_t j = i; VCOMPtr<IGdtfCRI> o; w.at("IGdtfCRIGroup.GetCRIAt", i, n, ok, w.rc(p->GetCRIAt(j, &o)), o); w.child(o); } }
	w.now("IGdtfCRIGroup.GetBoundObject");
	w.bound(p, "IGdtfCRIGroup");
}

inline void Walk::walk(IGdtfPoint* p)
{
	auto& w = *this; (void) w;
	w.now("IGdtfPoint.GetDMXPercentage");
	{ double v0{}; if (w.rc(p->GetDMXPercentage(v0)) == 0) { w.v(v0, "IGdtfPoint.GetDMXPercentage"); } }
	w.now("IGdtfPoint.GetCFC3");
	{ double v0{}; if (w.rc(p->GetCFC3(v0)) == 0) { w.v(v0, "IGdtfPoint.GetCFC3"); } }
	w.now("IGdtfPoint.GetCFC2");
	{ double v0{}; if (w.rc(p->GetCFC2(v0)) == 0) { w.v(v0, "IGdtfPoint.GetCFC2"); } }
	w.now("IGdtfPoint.GetCFC1");
	{ double v0{}; if (w.rc(p->GetCFC1(v0)) == 0) { w.v(v0, "IGdtfPoint.GetCFC1"); } }
	w.now("IGdtfPoint.GetCFC0");
	{ double v0{}; if (w.rc(p->GetCFC0(v0)) == 0) { w.v(v0, "IGdtfPoint.GetCFC0"); } }
	w.now("IGdtfPoint.GetBoundObject");
	w.bound(p, "IGdtfPoint");
}

inline void Walk::walk(IGdtfDMXProfile* p)
{
	auto& w = *this; (void) w;
	w.now("IGdtfDMXProfile.GetName");
	w.text(p->GetName());
	w.now("IGdtfDMXProfile.GetBoundObject");
	w.bound(p, "IGdtfDMXProfile");
	w.now("IGdtfDMXProfile.GetPointCount");
	{ size_t v0{}; if (w.rc(p->GetPointCount(v0)) == 0) { w.v(v0, "IGdtfDMXProfile.GetPointCount"); } }
	w.now("IGdtfDMXProfile.GetPointAt");
	{ size_t n = 0; bool ok = w.rc(p->GetPointCount(n)) == 0; for (size_t i : w.indices(n, ok)) { size_t j = i; VCOMPtr<IGdtfPoint> o; w.at("IGdtfDMXProfile.GetPointAt", i, n, ok, w.rc(p->GetPointAt(j, &o)), o); w.child(o); } }
}

inline void Walk::walk(IGdtfConnector* p)
{
	auto& w = *this; (void) w;
	w.now("IGdtfConnector.GetName");
	w.text(p->GetName());
	w.now("IGdtfConnector.GetType");
	w.text(p->GetType());
	w.now("IGdtfConnector.GetDmxBreak");
	{ Uint32 v0{}; if (w.rc(p->GetDmxBreak(v0)) == 0) { w.v(v0, "IGdtfConnector.GetDmxBreak"); } }
	w.now("IGdtfConnector.GetGender");
	{ Sint32 v0{}; if (w.rc(p->GetGender(v0)) == 0) { w.v(v0, "IGdtfConnector.GetGender"); } }
	w.now("IGdtfConnector.GetLength");
	{ double v0{}; if (w.rc(p->GetLength(v0)) == 0) { w.v(v0, "IGdtfConnector.GetLength"); } }
	w.now("IGdtfConnector.GetBoundObject");
	w.bound(p, "IGdtfConnector");
}

inline void Walk::walk(IGdtfFixture* p)
{
	auto& w = *this; (void) w;
	w.now("IGdtfFixture.GetGDTFVersion");
	{ Sint32 v0{}; Sint32 v1{}; if (w.rc(p->GetGDTFVersion(v0, v1)) == 0) { w.v(v0, "IGdtfFixture.GetGDTFVersion"); w.v(v1, "IGdtfFixture.GetGDTFVersion"); } }
	w.now("IGdtfFixture.GetName");
	w.text(p->GetName());
	w.now("IGdtfFixture.GetManufacturer");
	w.text(p->GetManufacturer());
	w.now("IGdtfFixture.GetFixtureGUID");
	{ MvrUUID v0{}; if (w.rc(p->GetFixtureGUID(v0)) == 0) { w.v(v0, "IGdtfFixture.GetFixtureGUID"); } }
	w.now("IGdtfFixture.GetLinkedFixtureGUID");
	{ MvrUUID v0{}; if (w.rc(p->GetLinkedFixtureGUID(v0)) == 0) { w.v(v0, "IGdtfFixture.GetLinkedFixtureGUID"); } }
	w.now("IGdtfFixture.HasLinkedFixtureGUID");
	{ bool v0{}; if (w.rc(p->HasLinkedFixtureGUID(v0)) == 0) { w.v(v0, "IGdtfFixture.HasLinkedFixtureGUID"); } }
	w.now("IGdtfFixture.GetFixtureTypeDescription");
	w.text(p->GetFixtureTypeDescription());
	w.now("IGdtfFixture.GetShortName");
	w.text(p->GetShortName());
	w.now("IGdtfFixture.GetFixtureThumbnail");
	w.text(p->GetFixtureThumbnail());
	w.now("IGdtfFixture.GetFixtureThumbnail_PNG_FullPath");
	w.text(p->GetFixtureThumbnail_PNG_FullPath());
	w.now("IGdtfFixture.GetFixtureThumbnail_SVG_FullPath");
	w.text(p->GetFixtureThumbnail_SVG_FullPath());
	w.now("IGdtfFixture.GetActivationGroupCount");
	{ size_t v0{}; if (w.rc(p->GetActivationGroupCount(v0)) == 0) { w.v(v0, "IGdtfFixture.GetActivationGroupCount"); } }
	w.now("IGdtfFixture.GetActivationGroupAt");
	{ size_t n = 0; bool ok = w.rc(p->GetActivationGroupCount(n)) == 0; for (size_t i : w.indices(n, ok)) { size_t j = i; VCOMPtr<IGdtfActivationGroup> o; w.at("IGdtfFixture.GetActivationGroupAt", i, n, ok, w.rc(p->GetActivationGroupAt(j, &o)), o); w.child(o); } }
	w.now("IGdtfFixture.GetFeatureGroupCount");
	{ size_t v0{}; if (w.rc(p->GetFeatureGroupCount(v0)) == 0) { w.v(v0, "IGdtfFixture.GetFeatureGroupCount"); } }
	w.now("IGdtfFixture.GetFeatureGroupAt");
	{ size_t n = 0; bool ok = w.rc(p->GetFeatureGroupCount(n)) == 0; for (size_t i : w.indices(n, ok)) { size_t j = i; VCOMPtr<IGdtfFeatureGroup> o; w.at("IGdtfFixture.GetFeatureGroupAt", i, n, ok, w.rc(p->GetFeatureGroupAt(j, &o)), o); w.child(o); } }
	w.now("IGdtfFixture.GetAttributeCount");
	{ size_t v0{}; if (w.rc(p->GetAttributeCount(v0)) == 0) { w.v(v0, "IGdtfFixture.GetAttributeCount"); } }
	w.now("IGdtfFixture.GetAttributeAt");
	{ size_t n = 0; bool ok = w.rc(p->GetAttributeCount(n)) == 0; for (size_t i : w.indices(n, ok)) { size_t j = i; VCOMPtr<IGdtfAttribute> o; w.at("IGdtfFixture.GetAttributeAt", i, n, ok, w.rc(p->GetAttributeAt(j, &o)), o); w.child(o); } }
	w.now("IGdtfFixture.GetWheelCount");
	{ size_t v0{}; if (w.rc(p->GetWheelCount(v0)) == 0) { w.v(v0, "IGdtfFixture.GetWheelCount"); } }
	w.now("IGdtfFixture.GetWheelAt");
	{ size_t n = 0; bool ok = w.rc(p->GetWheelCount(n)) == 0; for (size_t i : w.indices(n, ok)) { size_t j = i; VCOMPtr<IGdtfWheel> o; w.at("IGdtfFixture.GetWheelAt", i, n, ok, w.rc(p->GetWheelAt(j, &o)), o); w.child(o); } }
	w.now("IGdtfFixture.GetModelCount");
	{ size_t v0{}; if (w.rc(p->GetModelCount(v0)) == 0) { w.v(v0, "IGdtfFixture.GetModelCount"); } }
	w.now("IGdtfFixture.GetModelAt");
	{ size_t n = 0; bool ok = w.rc(p->GetModelCount(n)) == 0; for (size_t i : w.indices(n, ok)) { size_t j = i; VCOMPtr<IGdtfModel> o; w.at("IGdtfFixture.GetModelAt", i, n, ok, w.rc(p->GetModelAt(j, &o)), o); w.child(o); } }
	w.now("IGdtfFixture.GetGeometryCount");
	{ size_t v0{}; if (w.rc(p->GetGeometryCount(v0)) == 0) { w.v(v0, "IGdtfFixture.GetGeometryCount"); } }
	w.now("IGdtfFixture.GetGeometryAt");
	{ size_t n = 0; bool ok = w.rc(p->GetGeometryCount(n)) == 0; for (size_t i : w.indices(n, ok)) { size_t j = i; VCOMPtr<IGdtfGeometry> o; w.at("IGdtfFixture.GetGeometryAt", i, n, ok, w.rc(p->GetGeometryAt(j, &o)), o); w.child(o); } }
	w.now("IGdtfFixture.GetDmxModeCount");
	{ size_t v0{}; if (w.rc(p->GetDmxModeCount(v0)) == 0) { w.v(v0, "IGdtfFixture.GetDmxModeCount"); } }
	w.now("IGdtfFixture.GetDmxModeAt");
	{ size_t n = 0; bool ok = w.rc(p->GetDmxModeCount(n)) == 0; for (size_t i : w.indices(n, ok)) { size_t j = i; VCOMPtr<IGdtfDmxMode> o; w.at("IGdtfFixture.GetDmxModeAt", i, n, ok, w.rc(p->GetDmxModeAt(j, &o)), o); w.child(o); } }
	w.now("IGdtfFixture.GetRevisionCount");
	{ size_t v0{}; if (w.rc(p->GetRevisionCount(v0)) == 0) { w.v(v0, "IGdtfFixture.GetRevisionCount"); } }
	w.now("IGdtfFixture.GetRevisionAt");
	{ size_t n = 0; bool ok = w.rc(p->GetRevisionCount(n)) == 0; for (size_t i : w.indices(n, ok)) { size_t j = i; VCOMPtr<IGdtfRevision> o; w.at("IGdtfFixture.GetRevisionAt", i, n, ok, w.rc(p->GetRevisionAt(j, &o)), o); w.child(o); } }
	w.now("IGdtfFixture.GetPresetCount");
	{ size_t v0{}; if (w.rc(p->GetPresetCount(v0)) == 0) { w.v(v0, "IGdtfFixture.GetPresetCount"); } }
	w.now("IGdtfFixture.GetPresetAt");
	{ size_t n = 0; bool ok = w.rc(p->GetPresetCount(n)) == 0; for (size_t i : w.indices(n, ok)) { size_t j = i; VCOMPtr<IGdtfUserPreset> o; w.at("IGdtfFixture.GetPresetAt", i, n, ok, w.rc(p->GetPresetAt(j, &o)), o); w.child(o); } }
	w.now("IGdtfFixture.GetRDM");
	{ VCOMPtr<IGdtf_FTRDM> o;  if (w.rc(p->GetRDM(&o)) == 0) { w.v((bool) o); } w.child(o); }
	w.now("IGdtfFixture.GetEmitterCount");
	{ size_t v0{}; if (w.rc(p->GetEmitterCount(v0)) == 0) { w.v(v0, "IGdtfFixture.GetEmitterCount"); } }
	w.now("IGdtfFixture.GetEmitterAt");
	{ size_t n = 0; bool ok = w.rc(p->GetEmitterCount(n)) == 0; for (size_t i : w.indices(n, ok)) { size_t j = i; VCOMPtr<IGdtfPhysicalEmitter> o; w.at("IGdtfFixture.GetEmitterAt", i, n, ok, w.rc(p->GetEmitterAt(j, &o)), o); w.child(o); } }
	w.now("IGdtfFixture.GetFilterCount");
	{ size_t v0{}; if (w.rc(p->GetFilterCount(v0)) == 0) { w.v(v0, "IGdtfFixture.GetFilterCount"); } }
	w.now("IGdtfFixture.GetFilterAt");
	{ size_t n = 0; bool ok = w.rc(p->GetFilterCount(n)) == 0; for (size_t i : w.indices(n, ok)) { size_t j = i; VCOMPtr<IGdtfFilter> o; w.at("IGdtfFixture.GetFilterAt", i, n, ok, w.rc(p->GetFilterAt(j, &o)), o); w.child(o); } }
	w.now("IGdtfFixture.GetDMXProfileCount");
	{ size_t v0{}; if (w.rc(p->GetDMXProfileCount(v0)) == 0) { w.v(v0, "IGdtfFixture.GetDMXProfileCount"); } }
	w.now("IGdtfFixture.GetDMXProfileAt");
	{ size_t n = 0; bool ok = w.rc(p->GetDMXProfileCount(n)) == 0; for (size_t i : w.indices(n, ok)) { size_t j = i; VCOMPtr<IGdtfDMXProfile> o; w.at("IGdtfFixture.GetDMXProfileAt", i, n, ok, w.rc(p->GetDMXProfileAt(j, &o)), o); w.child(o); } }
	w.now("IGdtfFixture.GetCRIGroupCount");
	{ size_t v0{}; if (w.rc(p->GetCRIGroupCount(v0)) == 0) { w.v(v0, "IGdtfFixture.GetCRIGroupCount"); } }
	w.now("IGdtfFixture.GetCRIGroupAt");
	{ size_t n = 0; bool ok = w.rc(p->GetCRIGroupCount(n)) == 0; for (size_t i : w.indices(n, ok)) { size_t j = i; VCOMPtr<IGdtfCRIGroup> o; w.at("IGdtfFixture.GetCRIGroupAt", i, n, ok, w.rc(p->GetCRIGroupAt(j, &o)), o); w.child(o); } }
	w.now("IGdtfFixture.GetParsingErrorCount");
	{ size_t v0{}; if (w.rc(p->GetParsingErrorCount(v0)) == 0) { w.v(v0, "IGdtfFixture.GetParsingErrorCount"); } }
	w.now("IGdtfFixture.GetParsingErrorAt");
	{ size_t n = 0; bool ok = w.rc(p->GetParsingErrorCount(n)) == 0; for (size_t i : w.indices(n, ok)) { size_t j = i; VCOMPtr<IGdtfXmlParsingError> o; w.at("IGdtfFixture.GetParsingErrorAt", i, n, ok, w.rc(p->GetParsingErrorAt(j, &o)), o); w.child(o); } }
	w.now("IGdtfFixture.GetLongName");
	w.text(p->GetLongName());
	w.now("IGdtfFixture.GetImageRessourcesCount");
	{ size_t v0{}; if (w.rc(p->GetImageRessourcesCount(v0)) == 0) { w.v(v0, "IGdtfFixture.GetImageRessourcesCount"); } }
	w.now("IGdtfFixture.GetImageRessourcesPathAt");
	{ size_t n = 0; bool ok = false; for (size_t i : w.indices(n, ok)) w.text(p->GetImageRessourcesPathAt(i)); }
	w.now("IGdtfFixture.GetBufferLength");
	{ size_t v0{}; if (w.rc(p->GetBufferLength(v0)) == 0) { w.v(v0, "IGdtfFixture.GetBufferLength"); } }
	w.now("IGdtfFixture.GetCanHaveChildren");
	{ bool v0{}; if (w.rc(p->GetCanHaveChildren(v0)) == 0) { w.v(v0, "IGdtfFixture.GetCanHaveChildren"); } }
	w.now("IGdtfFixture.GetConnectorCount");
	{ size_t v0{}; if (w.rc(p->GetConnectorCount(v0)) == 0) { w.v(v0, "IGdtfFixture.GetConnectorCount"); } }
	w.now("IGdtfFixture.GetConnectorAt");
	{ size_t n = 0; bool ok = w.rc(p->GetConnectorCount(n)) == 0; for (size_t i : w.indices(n, ok)) { size_t j = i; VCOMPtr<IGdtfConnector> o; w.at("IGdtfFixture.GetConnectorAt", i, n, ok, w.rc(p->GetConnectorAt(j, &o)), o); w.child(o); } }
	w.now("IGdtfFixture.GetOperatingTemperatureLow");
	{ double v0{}; if (w.rc(p->GetOperatingTemperatureLow(v0)) == 0) { w.v(v0, "IGdtfFixture.GetOperatingTemperatureLow"); } }
	w.now("IGdtfFixture.GetOperatingTemperatureHigh");
	{ double v0{}; if (w.rc(p->GetOperatingTemperatureHigh(v0)) == 0) { w.v(v0, "IGdtfFixture.GetOperatingTemperatureHigh"); } }
	w.now("IGdtfFixture.GetWeight");
	{ double v0{}; if (w.rc(p->GetWeight(v0)) == 0) { w.v(v0, "IGdtfFixture.GetWeight"); } }
	w.now("IGdtfFixture.GetLegHeight");
	{ double v0{}; if (w.rc(p->GetLegHeight(v0)) == 0) { w.v(v0, "IGdtfFixture.GetLegHeight"); } }
	w.now("IGdtfFixture.GetArtNet");
	{ VCOMPtr<IGdtfArtNet> o;  if (w.rc(p->GetArtNet(&o)) == 0) { w.v((bool) o); } w.child(o); }
	w.now("IGdtfFixture.GetSACN");
	{ VCOMPtr<IGdtfSACN> o;  if (w.rc(p->GetSACN(&o)) == 0) { w.v((bool) o); } w.child(o); }
	w.now("IGdtfFixture.GetAdditionalColorSpaceCount");
	{ size_t v0{}; if (w.rc(p->GetAdditionalColorSpaceCount(v0)) == 0) { w.v(v0, "IGdtfFixture.GetAdditionalColorSpaceCount"); } }
	w.now("IGdtfFixture.GetAdditionalColorSpaceAt");
	{ size_t n = 0; bool ok = w.rc(p->GetAdditionalColorSpaceCount(n)) == 0; for (size_t i : w.indices(n, ok)) { size_t j = i; VCOMPtr<IGdtfColorSpace> o; w.at("IGdtfFixture.GetAdditionalColorSpaceAt", i, n, ok, w.rc(p->GetAdditionalColorSpaceAt(j, &o)), o); w.child(o); } }
	w.now("IGdtfFixture.GetGamutCount");
	{ size_t v0{}; if (w.rc(p->GetGamutCount(v0)) == 0) { w.v(v0, "IGdtfFixture.GetGamutCount"); } }
	w.now("IGdtfFixture.GetGamutAt");
	{ size_t n = 0; bool ok = w.rc(p->GetGamutCount(n)) == 0; for (size_t i : w.indices(n, ok)) { size_t j = i; VCOMPtr<IGdtfGamut> o; w.at("IGdtfFixture.GetGamutAt", i, n, ok, w.rc(p->GetGamutAt(j, &o)), o); w.child(o); } }
	w.now("IGdtfFixture.GetThumbnailOffsetX");
	{ Sint32 v0{}; if (w.rc(p->GetThumbnailOffsetX(v0)) == 0) { w.v(v0, "IGdtfFixture.GetThumbnailOffsetX"); } }
	w.now("IGdtfFixture.GetThumbnailOffsetY");
	{ Sint32 v0{}; if (w.rc(p->GetThumbnailOffsetY(v0)) == 0) { w.v(v0, "IGdtfFixture.GetThumbnailOffsetY"); } }
}

inline void Walk::walk(IGdtf_FTRDM* p)
{
	auto& w = *this; (void) w;
	w.now("IGdtf_FTRDM.GetManufacturerID");
	{ size_t v0{}; if (w.rc(p->GetManufacturerID(v0)) == 0) { w.v(v0, "IGdtf_FTRDM.GetManufacturerID"); } }
	w.now("IGdtf_FTRDM.GetDeviceModelID");
	{ size_t v0{}; if (w.rc(p->GetDeviceModelID(v0)) == 0) { w.v(v0, "IGdtf_FTRDM.GetDeviceModelID"); } }
	w.now("IGdtf_FTRDM.GetSoftwareVersionIDCount");
	{ size_t v0{}; if (w.rc(p->GetSoftwareVersionIDCount(v0)) == 0) { w.v(v0, "IGdtf_FTRDM.GetSoftwareVersionIDCount"); } }
	w.now("IGdtf_FTRDM.GetSoftwareVersionIDAt");
	{ size_t n = 0; bool ok = w.rc(p->GetSoftwareVersionIDCount(n)) == 0; for (size_t i : w.indices(n, ok)) { size_t j = i; VCOMPtr<IGdtfSoftwareVersionID> o; w.at("IGdtf_FTRDM.GetSoftwareVersionIDAt", i, n, ok, w.rc(p->GetSoftwareVersionIDAt(j, &o)), o); w.child(o); } }
	w.now("IGdtf_FTRDM.GetBoundObject");
	w.bound(p, "IGdtf_FTRDM");
}

inline void Walk::walk(IGdtfMap* p)
{
	auto& w = *this; (void) w;
	w.now("IGdtfMap.GetKey");
	{ Uint32 v0{}; if (w.rc(p->GetKey(v0)) == 0) { w.v(v0, "IGdtfMap.GetKey"); } }
	w.now("IGdtfMap.GetValue");
	{ Uint32 v0{}; if (w.rc(p->GetValue(v0)) == 0) { w.v(v0, "IGdtfMap.GetValue"); } }
	w.now("IGdtfMap.GetBoundObject");
	w.bound(p, "IGdtfMap");
}

inline void Walk::walk(IGdtfArtNet* p)
{
	auto& w = *this; (void) w;
	w.now("IGdtfArtNet.GetMapCount");
	{ size_t v0{}; if (w.rc(p->GetMapCount(v0)) == 0) { w.v(v0, "IGdtfArtNet.GetMapCount"); } }
	w.now("IGdtfArtNet.GetMapAt");
	{ size_t n = 0; bool ok = w.rc(p->GetMapCount(n)) == 0; for (size_t i : w.indices(n, ok)) { size_t j = i; VCOMPtr<IGdtfMap> o; w.at("IGdtfArtNet.GetMapAt", i, n, ok, w.rc(p->GetMapAt(j, &o)), o); w.child(o); } }
	w.now("IGdtfArtNet.GetBoundObject");
	w.bound(p, "IGdtfArtNet");
}

inline void Walk::walk(IGdtfSACN* p)
{
	auto& w = *this; (void) w;
	w.now("IGdtfSACN.GetMapCount");
	{ size_t v0{}; if (w.rc(p->GetMapCount(v0)) == 0) { w.v(v0, "IGdtfSACN.GetMapCount"); } }
	w.now("IGdtfSACN.GetMapAt");
	{ size_t n = 0; bool ok = w.rc(p->GetMapCount(n)) == 0; for (size_t i : w.indices(n, ok)) { size_t j = i; VCOMPtr<IGdtfMap> o; w.at("IGdtfSACN.GetMapAt", i, n, ok, w.rc(p->GetMapAt(j, &o)), o); w.child(o); } }
	w.now("IGdtfSACN.GetBoundObject");
	w.bound(p, "IGdtfSACN");
}

inline void Walk::walk(IGdtfDMXPersonality* p)
{
	auto& w = *this; (void) w;
	w.now("IGdtfDMXPersonality.GetDmxMode");
	{ VCOMPtr<IGdtfDmxMode> o;  if (w.rc(p->GetDmxMode(&o)) == 0) { w.v((bool) o); } w.ref(o); }
	w.now("IGdtfDMXPersonality.GetBoundObject");
	w.bound(p, "IGdtfDMXPersonality");
}

inline void Walk::walk(IGdtfSoftwareVersionID* p)
{
	auto& w = *this; (void) w;
	w.now("IGdtfSoftwareVersionID.GetValue");
	{ size_t v0{}; if (w.rc(p->GetValue(v0)) == 0) { w.v(v0, "IGdtfSoftwareVersionID.GetValue"); } }
	w.now("IGdtfSoftwareVersionID.GetDMXPersonalityCount");
	{ size_t v0{}; if (w.rc(p->GetDMXPersonalityCount(v0)) == 0) { w.v(v0, "IGdtfSoftwareVersionID.GetDMXPersonalityCount"); } }
	w.now("IGdtfSoftwareVersionID.GetDMXPersonalityAt");
	{ size_t n = 0; bool ok = w.rc(p->GetDMXPersonalityCount(n)) == 0; for (size_t i : w.indices(n, ok)) { size_t j = i; VCOMPtr<IGdtfDMXPersonality> o; w.at("IGdtfSoftwareVersionID.GetDMXPersonalityAt", i, n, ok, w.rc(p->GetDMXPersonalityAt(j, &o)), o); w.child(o); } }
	w.now("IGdtfSoftwareVersionID.GetBoundObject");
	w.bound(p, "IGdtfSoftwareVersionID");
}

inline void Walk::walk(IGdtfXmlParsingError* p)
{
	auto& w = *this; (void) w;
	w.now("IGdtfXmlParsingError.GetErrorType");
	{ GdtfDefines::EGdtfParsingError v0{}; if (w.rc(p->GetErrorType(v0)) == 0) { w.v(v0, "IGdtfXmlParsingError.GetErrorType"); } }
	w.now("IGdtfXmlParsingError.GetErrorMessage");
	w.text(p->GetErrorMessage());
	w.now("IGdtfXmlParsingError.GetNodeName");
	w.text(p->GetNodeName());
	w.now("IGdtfXmlParsingError.GetLineAndColumnNumber");
	{ size_t v0{}; size_t v1{}; if (w.rc(p->GetLineAndColumnNumber(v0, v1)) == 0) { w.v(v0, "IGdtfXmlParsingError.GetLineAndColumnNumber"); w.v(v1, "IGdtfXmlParsingError.GetLineAndColumnNumber"); } }
	w.now("IGdtfXmlParsingError.GetObjectName");
	w.text(p->GetObjectName());
}

inline void Walk::walk(IUtility* p)
{
	auto& w = *this; (void) w;
}

inline void Walk::walk(IMVRxchangeService* p)
{
	auto& w = *this; (void) w;
}
} // namespace touch
