// MVR through the public interface: building a scene from a tree, dumping a scene into a tree.
#pragma once
#include "gdtf_gen.h"

namespace mvr {
using namespace VectorworksMVR;
using namespace VectorworksMVR::GdtfDefines;
using doc::E; using doc::A; using doc::dtext; using doc::dval; using doc::ival; using doc::uval; using doc::itext; using doc::utext;
using vp::str; using vp::fmt;
using gdtf::must; using gdtf::S; using gdtf::toCol; using gdtf::colText; using gdtf::matNums; using gdtf::toMat; using gdtf::matText; using gdtf::kIdent; using gdtf::kI32; using gdtf::kPoison; using gdtf::Enum; using gdtf::enumOf; using gdtf::enumText; using gdtf::texts; using gdtf::uuidText; using gdtf::genUuid; using gdtf::genMat;

static inline MvrUUID uuidOf(const str& t) { return gdtf::Build::uuidOf(t); }
typedef IMediaRessourceVectorInterfacePtr Mvr;
static inline Mvr newMvr() { Mvr m(IID_MediaRessourceVectorInterface); if (!m) throw vp::Fail{"harness", "no MVR interface"}; return m; }

static const Enum eKind = {{"Layer",(int)ESceneObjType::Layer},{"GroupObject",(int)ESceneObjType::Group},{"SceneObject",(int)ESceneObjType::SceneObj},{"FocusPoint",(int)ESceneObjType::FocusPoint},{"Truss",(int)ESceneObjType::Truss},{"VideoScreen",(int)ESceneObjType::VideoScreen},{"Fixture",(int)ESceneObjType::Fixture},{"Projector",(int)ESceneObjType::Projector},{"Support",(int)ESceneObjType::Support}};
static const Enum eSource = {{"NDI",0},{"File",1},{"CITP",3},{"CaptureDevice",4}};
static const Enum eScale = {{"ScaleKeepRatio",0},{"ScaleIgnoreRatio",1},{"KeepSizeCenter",2}};
static const Enum eTrans = {{"Unicast",0},{"Multicast",1},{"Broadcast",2},{"Anycast",3}};
static const str kMvrColor = "0.312712,0.329008,100.000000";

static inline bool hasSpec(const str& k) { return k != "Layer" && k != "GroupObject" && k != "FocusPoint"; }
static inline bool hasPatch(const str& k) { return k != "Layer" && k != "GroupObject"; }

static const std::vector<A<ISceneObj>>& fixTab()
{
	typedef ISceneObj T;
	static std::vector<A<T>> t = {T_TXT(T,"FixtureID",FixtureId), T_INT(T,"FixtureIDNumeric",FixtureIdNumeric,size_t,0,0,kI32), T_INT(T,"UnitNumber",UnitNumber,Sint32,0,-kI32,kI32), T_COL(T,"Color",Color,kMvrColor), T_INT(T,"FixtureTypeId",FixtureTypeId,Sint8,0,-128,127), T_INT(T,"CustomId",CustomId,size_t,0,0,kI32), T_TXT(T,"Gobo",Gobo), T_DBL(T,"GoboRotation",GoboRotation,0), T_TXT(T,"Function",Function), T_BOOL(T,"CastShadow",CastShadow,"true","false"), T_BOOL(T,"DMXInvertPan",DMXInvertPan,"true","false"), T_BOOL(T,"DMXInvertTilt",DMXInvertTilt,"true","false")};
	return t;
}
static inline str vecText(const SVector3& v) { return dtext(v.x) + " " + dtext(v.y) + " " + dtext(v.z); }
static inline SVector3 toVec(const str& t) { double v[16] = {0}; matNums(t, v); SVector3 r; r.x = v[0]; r.y = v[1]; r.z = v[2]; return r; }
static const str kZero = "0.000000 0.000000 0.000000";
static inline str low(const str& u) { return doc::lower(u); }
template <class T> static str guidOf(T& o, const str& what) { MvrUUID u; u.a = u.b = u.c = u.d = 0x5a5a5a5a; must(o->GetGuid(u), what + ".GetGuid"); return uuidText(u); }

// the file name of a geometry; the interface gives the path in the working folder
static inline str plainFile(const str& p) { size_t i = p.rfind("/MVR_Export"); if (i != str::npos) i = p.find('/', i + 1); return i == str::npos ? "?" + p : p.substr(i + 1); }

// --- building -------------------------------------------------------------------------------------
struct Build {
	Mvr m; vp::Src* s = nullptr;
	std::map<str, ISymDefPtr> symdefs; std::map<str, IClassPtr> classes; std::map<str, IPositionPtr> positions; std::map<str, ISceneObjPtr> objs;
	bool coin() { return s && s->coin(); }
	void userData(const E& t)
	{
		for (auto& d : t.kids) {
			ISceneDataProviderPtr p; must(m->CreateDataProviderObject(d.val("provider").c_str(), d.val("ver").c_str(), &p), "CreateDataProviderObject");
			for (auto& e : d.kids) must(p->AddKeyValue(e.val("key").c_str(), e.text.c_str()), "AddKeyValue");
		}
	}
	void klass(const E& e) { IClassPtr c; must(m->CreateClassObject(uuidOf(e.val("uuid")), e.val("name").c_str(), &c), "CreateClassObject"); classes[e.val("uuid")] = c; }
	void position(const E& e) { IPositionPtr c; must(m->CreatePositionObject(uuidOf(e.val("uuid")), e.val("name").c_str(), &c), "CreatePositionObject"); positions[e.val("uuid")] = c; }
	void symdef(const E& e) { ISymDefPtr c; must(m->CreateSymDefObject(uuidOf(e.val("uuid")), e.val("name").c_str(), &c), "CreateSymDefObject"); symdefs[e.val("uuid")] = c; }
	void mapdef(const E& e)
	{
		IMappingDefinitionPtr d; must(m->CreateMappingDefinitionObject(uuidOf(e.val("uuid")), e.val("name").c_str(), &d), "CreateMappingDefinitionObject");
		must(d->SetSizeX((Uint32) uval(e.val("SizeX"))), "SetSizeX"); must(d->SetSizeY((Uint32) uval(e.val("SizeY"))), "SetSizeY"); must(d->SetScaleHandling((EScaleHandlingType) enumOf(eScale, e.val("ScaleHandling"))), "SetScaleHandling");
		if (auto q = e.kid("Source")) must(d->SetSource(q->text.c_str(), q->val("linkedGeometry").c_str(), (ESourceType) enumOf(eSource, q->val("type"))), "SetSource");
	}
	template <class P> void geometries(P& o, const E& list)
	{
		for (auto& g : list.kids) {
			if (g.name == "Geometry3D") must(o->AddGeometry(toMat(g.val("~m")), g.val("fileName").c_str()), "AddGeometry");
			else must(o->AddSymbol(uuidOf(g.val("~uuid")), toMat(g.val("~m")), symdefs[g.val("symdef")]), "AddSymbol");
		}
	}
	ISceneObjPtr create(const E& e, ISceneObj* into)
	{
		ISceneObjPtr o; MvrUUID u = uuidOf(e.val("uuid")); STransformMatrix x = toMat(e.val("~m")); str n = e.val("name"); const char* c = n.c_str(); const str& k = e.name;
		if (k == "Layer") must(m->CreateLayerObject(u, c, &o), "CreateLayerObject");
		else if (k == "GroupObject") { if (n.empty() && coin()) must(m->CreateGroupObject(u, x, into, &o), "CreateGroupObject"); else must(m->CreateGroupObject(u, x, c, into, &o), "CreateGroupObject"); }
		else if (k == "Fixture") must(m->CreateFixture(u, x, c, into, &o), "CreateFixture");
		else if (k == "SceneObject") must(m->CreateSceneObject(u, x, c, into, &o), "CreateSceneObject");
		else if (k == "FocusPoint") must(m->CreateFocusPoint(u, x, c, into, &o), "CreateFocusPoint");
		else if (k == "VideoScreen") must(m->CreateVideoScreen(u, x, c, into, &o), "CreateVideoScreen");
		else if (k == "Truss") must(m->CreateTruss(u, x, c, into, &o), "CreateTruss");
		else if (k == "Support") must(m->CreateSupport(u, x, c, into, &o), "CreateSupport");
		else must(m->CreateProjector(u, x, c, into, &o), "CreateProjector");
		objs[e.val("uuid")] = o; return o;
	}
	void attributes(const E& e, ISceneObjPtr& o)
	{
		if (hasSpec(e.name)) { must(o->SetGdtfName(e.val("GDTFSpec").c_str()), "SetGdtfName"); must(o->SetGdtfMode(e.val("GDTFMode").c_str()), "SetGdtfMode"); }
		if (e.name == "Fixture") {
			gdtf::setAll(fixTab(), (ISceneObj*) o, e, coin());
			for (auto& a : e.kid("Addresses")->kids) must(o->AddAdress(uval(a.text), uval(a.val("break"))), "AddAdress");
			size_t i = 0;
			for (auto& a : e.kid("Mappings")->kids) {
				must(o->AddMapping(uuidOf(a.val("linkedDef"))), "AddMapping"); IMappingPtr p; must(o->GetMappingAt(i++, &p), "GetMappingAt");
				must(p->SetUx((Uint32) uval(a.val("ux"))), "SetUx"); must(p->SetUy((Uint32) uval(a.val("uy"))), "SetUy"); must(p->SetOx((Uint32) uval(a.val("ox"))), "SetOx"); must(p->SetOy((Uint32) uval(a.val("oy"))), "SetOy"); must(p->SetRz(dval(a.val("rz"))), "SetRz");
			}
			for (auto& a : e.kid("Protocols")->kids) {
				SProtocol p; str g = a.val("geometry"), n = a.val("name"), t = a.val("type"), v = a.val("version"); p.fGeometry = g.c_str(); p.fName = n.c_str(); p.fType = t.c_str(); p.fVersion = v.c_str(); p.fTransmision = (ETransmissionType) enumOf(eTrans, a.val("transmission"));
				must(o->AddProtocol(p), "AddProtocol");
			}
		}
		for (auto& a : e.kid("Connections")->kids) { IConnectionPtr p; must(o->CreateConnection(a.val("own").c_str(), a.val("other").c_str(), uuidOf(a.val("toObject")), &p), "CreateConnection"); }
		if (auto q = e.kid("Source")) {
			ESourceType t = (ESourceType) enumOf(eSource, q->val("type"));
			if (e.name == "Projector") must(o->SetProjectorSource(q->text.c_str(), q->val("linkedGeometry").c_str(), t), "SetProjectorSource"); else must(o->SetVideoScreenSource(q->text.c_str(), q->val("linkedGeometry").c_str(), t), "SetVideoScreenSource");
		}
		if (e.has("ScaleHandling")) must(o->SetScaleHandling((EScaleHandlingType) enumOf(eScale, e.val("ScaleHandling"))), "SetScaleHandling");
		for (auto& a : e.kid("CustomCommands")->kids) { ICustomCommandPtr p; must(o->CreateCustomCommand(a.val("function").c_str(), a.val("percent") == "true", dval(a.val("value")), &p), "CreateCustomCommand"); }
		for (auto& a : e.kid("Alignments")->kids) { IAlignmentPtr p; must(o->CreateAlignment(a.val("geometry").c_str(), toVec(a.val("up")), toVec(a.val("direction")), &p), "CreateAlignment"); }
		for (auto& a : e.kid("Overwrites")->kids) { IOverwritePtr p; must(o->CreateOverwrite(a.val("universal").c_str(), a.val("target").c_str(), &p), "CreateOverwrite"); }
	}
	void references(const E& e)
	{
		ISceneObjPtr& o = objs[e.val("uuid")]; geometries(o, *e.kid("Geometries"));
		if (e.has("Classing")) must(o->SetClass(classes[e.val("Classing")]), "SetClass");
		if (e.has("multipatch")) must(o->SetMultipatchParent(objs[e.val("multipatch")]), "SetMultipatchParent");
		if (e.has("Position")) must(o->SetPosition(positions[e.val("Position")]), "SetPosition");
		if (e.has("Focus")) must(o->SetFocusPoint(objs[e.val("Focus")]), "SetFocusPoint");
		if (auto l = e.kid("ChildList")) for (auto& k : l->kids) references(k);
	}
	void tree(const E& e, ISceneObj* into, bool late)
	{
		ISceneObjPtr o = create(e, into); if (!late) attributes(e, o);
		if (auto l = e.kid("ChildList")) for (auto& k : l->kids) tree(k, o, late);
		if (late) attributes(e, o);
	}
	void aux(const E& t)
	{
		// kinds may be interleaved; within a kind the order counts
		std::vector<std::pair<const E*, size_t>> q; for (auto n : {"Classes", "Positions", "Symdefs", "MappingDefinitions"}) q.push_back({t.kid(n), 0});
		for (;;) {
			std::vector<size_t> open; for (size_t i = 0; i < q.size(); i++) if (q[i].second < q[i].first->kids.size()) open.push_back(i);
			if (open.empty()) break;
			auto& p = q[open[s ? s->draw(open.size()) : 0]]; const E& e = p.first->kids[p.second++];
			if (e.name == "Class") klass(e); else if (e.name == "Position") position(e); else if (e.name == "Symdef") symdef(e); else mapdef(e);
		}
	}
	void run(const E& t)
	{
		bool first = coin(); if (first) userData(*t.kid("UserData"));
		bool auxLate = coin(); if (!auxLate) aux(t);
		// layers may be filled one after the other or level by level
		auto& ls = t.kid("Layers")->kids;
		if (coin()) {
			std::vector<std::pair<const E*, ISceneObj*>> q; for (auto& l : ls) q.push_back({&l, nullptr});
			std::vector<std::pair<const E*, ISceneObjPtr>> made;
			for (size_t i = 0; i < q.size(); i++) { ISceneObjPtr o = create(*q[i].first, q[i].second); made.push_back({q[i].first, o}); if (auto l = q[i].first->kid("ChildList")) for (auto& k : l->kids) q.push_back({&k, (ISceneObj*) o}); }
			for (auto& p : made) attributes(*p.first, p.second);
		}
		else { bool late = coin(); for (auto& l : ls) tree(l, nullptr, late); }
		if (auxLate) aux(t);
		for (auto& e : t.kid("Symdefs")->kids) geometries(symdefs[e.val("uuid")], e);
		for (auto& l : ls) references(l);
		if (!first) userData(*t.kid("UserData"));
	}
};

// --- dumping ----------------------------------------------------------------------------------------
struct Dump {
	Mvr m; size_t objects = 0;
	E source(ISourcePtr& q)
	{
		E x("Source"); ESourceType t = (ESourceType) 77; int rc = q->GetType(t); if (rc == 4) return E(); must(rc, "Source.GetType");
		x.set("linkedGeometry", S(q->GetLinkedGeometry())); x.set("type", enumText(eSource, (int) t)); x.text = S(q->GetValue()); return x;
	}
	template <class P> void geometries(P& o, E& out, const str& what)
	{
		size_t n = 99; must(o->GetGeometryCount(n), what + ".GetGeometryCount");
		for (size_t i = 0; i < n; i++) {
			IGeometryReferencePtr g; must(o->GetGeometryAt(i, &g), what + ".GetGeometryAt"); bool sym = false; must(g->GetIsSymbol(sym), "GetIsSymbol");
			STransformMatrix x; memset(&x, 0x7f, sizeof x); must(g->GetTransfromMatrix(x), "Geometry.GetTransfromMatrix");
			E& e = out.add(sym ? "Symbol" : "Geometry3D");
			if (sym) { ISymDefPtr d; int rc = g->GetSymDef(&d); e.set("symdef", rc ? fmt("error %d", rc) : guidOf(d, "ISymDef")); if (!rc) S(d->GetName()); }
			else e.set("fileName", plainFile(S(g->GetFileForGeometry())));
			e.set("~m", matText(x));
		}
		IGeometryReferencePtr g; if (!o->GetGeometryAt(n, &g)) throw vp::Fail{"range-geometry", "GetGeometryAt accepts the index after the last"};
	}
	E obj(ISceneObjPtr& o)
	{
		objects++; ESceneObjType t = (ESceneObjType) 99; must(o->GetType(t), "GetType"); str k = enumText(eKind, (int) t); E e(k);
		e.set("name", S(o->GetName())); e.set("uuid", guidOf(o, k)); STransformMatrix x; memset(&x, 0x7f, sizeof x); must(o->GetTransfromMatrix(x), k + ".GetTransfromMatrix"); e.set("~m", matText(x));
		if (hasSpec(k)) { e.set("GDTFSpec", S(o->GetGdtfName())); e.set("GDTFMode", S(o->GetGdtfMode())); }
		if (hasPatch(k)) {
			IClassPtr c; int rc = o->GetClass(&c); if (!rc) { e.set("Classing", guidOf(c, "IClass")); S(c->GetName()); } else if (rc != 461) must(rc, "GetClass");
			ISceneObjPtr p; rc = o->GetMultipatchParent(&p); if (!rc) e.set("multipatch", guidOf(p, "multipatch parent")); else if (rc != 461) must(rc, "GetMultipatchParent");
		}
		E con;
		if (k == "Fixture") {
			ISceneObjPtr p; int rc = o->GetFocusPoint(&p); if (!rc) { e.set("Focus", guidOf(p, "focus")); ESceneObjType ft; must(p->GetType(ft), "GetType"); if (ft != ESceneObjType::FocusPoint) throw vp::Fail{"focus-type", "the focus point of a fixture is not a focus point"}; } else if (rc != 461) must(rc, "GetFocusPoint");
			IPositionPtr q; must(o->GetPosition(&q), "GetPosition"); MvrUUID u; rc = q->GetGuid(u); if (!rc) e.set("Position", uuidText(u)); else if (rc != 4) must(rc, "Position.GetGuid");
			gdtf::getAll(fixTab(), (ISceneObj*) o, e);
		}
		if (k == "Projector") { EScaleHandlingType h = (EScaleHandlingType) 99; must(o->GetScaleHandling(h), "GetScaleHandling"); e.set("ScaleHandling", enumText(eScale, (int) h)); }
		if (k == "Fixture") {
			size_t n = 99; E& a = e.add("Addresses"); must(o->GetAdressCount(n), "GetAdressCount");
			for (size_t i = 0; i < n; i++) { SDmxAdress d; d.fBreakId = d.fAbsuluteAdress = 7777; must(o->GetAdressAt(i, d), "GetAdressAt"); E& x = a.add("Address"); x.set("break", utext(d.fBreakId)); x.text = utext(d.fAbsuluteAdress); }
			{ SDmxAdress d; if (!o->GetAdressAt(n, d)) throw vp::Fail{"range-address", "GetAdressAt accepts the index after the last"}; }
			E& mp = e.add("Mappings"); n = 99; must(o->GetMappingCount(n), "GetMappingCount");
			for (size_t i = 0; i < n; i++) {
				IMappingPtr p; must(o->GetMappingAt(i, &p), "GetMappingAt"); E& x = mp.add("Mapping"); MvrUUID u; must(p->GetLinkedDefUuid(u), "GetLinkedDefUuid"); x.set("linkedDef", uuidText(u)); Uint32 v = 77; double r = kPoison;
				must(p->GetUx(v), "GetUx"); x.set("ux", utext(v)); must(p->GetUy(v), "GetUy"); x.set("uy", utext(v)); must(p->GetOx(v), "GetOx"); x.set("ox", utext(v)); must(p->GetOy(v), "GetOy"); x.set("oy", utext(v)); must(p->GetRz(r), "GetRz"); x.set("rz", dtext(r));
			}
			E& pr = e.add("Protocols"); n = 99; must(o->GetProtocolsCount(n), "GetProtocolsCount");
			for (size_t i = 0; i < n; i++) {
				SProtocol* p = nullptr; must(o->GetProtocolAt(i, &p), "GetProtocolAt"); if (!p) throw vp::Fail{"protocol-null", "GetProtocolAt succeeds without giving a protocol"};
				E& x = pr.add("Protocol"); x.set("geometry", S(p->fGeometry)); x.set("name", S(p->fName)); x.set("type", S(p->fType)); x.set("version", S(p->fVersion)); x.set("transmission", enumText(eTrans, (int) p->fTransmision)); delete p;
			}
			{ SProtocol* p = nullptr; if (!o->GetProtocolAt(n, &p)) throw vp::Fail{"range-protocol", "GetProtocolAt accepts the index after the last"}; }
		}
		{
			E& cn = e.add("Connections"); size_t n = 99; must(o->GetConnectionCount(n), "GetConnectionCount");
			for (size_t i = 0; i < n; i++) { IConnectionPtr p; must(o->GetConnectionAt(i, &p), "GetConnectionAt"); E& x = cn.add("Connection"); x.set("own", S(p->GetOwn())); x.set("other", S(p->GetOther())); MvrUUID u; must(p->GetToObject(u), "GetToObject"); x.set("toObject", uuidText(u)); }
		}
		if (k == "Projector" || k == "VideoScreen") { ISourcePtr q; must(k == "Projector" ? o->GetProjectorSource(&q) : o->GetVideoScreenSource(&q), "source of " + k); E x = source(q); if (!x.name.empty()) e.kids.push_back(x); }
		geometries(o, e.add("Geometries"), k);
		size_t n = 99; E& cc = e.add("CustomCommands"); must(o->GetCustomCommandCount(n), "GetCustomCommandCount");
		for (size_t i = 0; i < n; i++) { ICustomCommandPtr p; must(o->GetCustomCommandAt(i, &p), "GetCustomCommandAt"); E& x = cc.add("CustomCommand"); x.set("function", S(p->GetChannelFunction())); bool b = false; must(p->IsPercentage(b), "IsPercentage"); x.set("percent", b ? "true" : "false"); double v = kPoison; must(p->GetValue(v), "GetValue"); x.set("value", dtext(v)); }
		E& al = e.add("Alignments"); n = 99; must(o->GetAlignmentCount(n), "GetAlignmentCount");
		for (size_t i = 0; i < n; i++) { IAlignmentPtr p; must(o->GetAlignmentAt(i, &p), "GetAlignmentAt"); E& x = al.add("Alignment"); x.set("geometry", S(p->GetBeamGeometry())); SVector3 v; v.x = v.y = v.z = kPoison; must(p->GetUpVector(v), "GetUpVector"); x.set("up", vecText(v)); v.x = v.y = v.z = kPoison; must(p->GetDirection(v), "GetDirection"); x.set("direction", vecText(v)); }
		E& ow = e.add("Overwrites"); n = 99; must(o->GetOverwriteCount(n), "GetOverwriteCount");
		for (size_t i = 0; i < n; i++) { IOverwritePtr p; must(o->GetOverwriteAt(i, &p), "GetOverwriteAt"); E& x = ow.add("Overwrite"); x.set("universal", S(p->GetUniversal())); x.set("target", S(p->GetTarget())); }
		E& l = e.add("ChildList"); ISceneObjPtr c; int rc = m->GetFirstChild(o, &c);
		if (rc && rc != 465) must(rc, "GetFirstChild");
		if (!rc) chain(c, l);
		return e;
	}
	void chain(ISceneObjPtr c, E& out)
	{
		for (size_t i = 0; c; i++) {
			if (i > 5000) throw vp::Fail{"traversal-endless", "the chain of objects does not end"};
			out.kids.push_back(obj(c)); ISceneObjPtr nx; int rc = m->GetNextObject(c, &nx);
			if (rc) { if (rc != 461) must(rc, "GetNextObject"); break; }
			c = nx;
		}
	}
	E run()
	{
		E t("MVR"); size_t n = 0;
		E& ud = t.add("UserData"); must(m->GetDataProviderObjectCount(n), "GetDataProviderObjectCount");
		for (size_t i = 0; i < n; i++) {
			ISceneDataProviderPtr p; must(m->GetDataProviderObjectAt(i, &p), "GetDataProviderObjectAt"); E& d = ud.add("Data"); d.set("provider", S(p->GetProviderName())); d.set("ver", S(p->GetVersion())); size_t k = 99; must(p->GetKeyValueCount(k), "GetKeyValueCount");
			for (size_t j = 0; j < k; j++) { E& x = d.add("VWEntry"); x.set("key", S(p->GetKeyAt(j))); x.text = S(p->GetValueAt(j)); }
		}
		E& cl = t.add("Classes"); must(m->GetClassCount(n), "GetClassCount");
		for (size_t i = 0; i < n; i++) { IClassPtr p; must(m->GetClassAt(i, &p), "GetClassAt"); E& x = cl.add("Class"); x.set("uuid", guidOf(p, "IClass")); x.set("name", S(p->GetName())); }
		E& po = t.add("Positions"); must(m->GetPositionObjectCount(n), "GetPositionObjectCount");
		for (size_t i = 0; i < n; i++) { IPositionPtr p; must(m->GetPositionObjectAt(i, &p), "GetPositionObjectAt"); E& x = po.add("Position"); x.set("uuid", guidOf(p, "IPosition")); x.set("name", S(p->GetName())); }
		E& sy = t.add("Symdefs"); must(m->GetSymDefCount(n), "GetSymDefCount");
		for (size_t i = 0; i < n; i++) { ISymDefPtr p; must(m->GetSymDefAt(i, &p), "GetSymDefAt"); E& x = sy.add("Symdef"); x.set("uuid", guidOf(p, "ISymDef")); x.set("name", S(p->GetName())); bool b = false; must(p->GetIsContaingSymbolGeomtery(b), "GetIsContaingSymbolGeomtery"); x.set("~contains", b ? "true" : "false"); geometries(p, x, "ISymDef"); }
		E& md = t.add("MappingDefinitions"); must(m->GetMappingDefinitionCount(n), "GetMappingDefinitionCount");
		for (size_t i = 0; i < n; i++) {
			IMappingDefinitionPtr p; must(m->GetMappingDefinitionAt(i, &p), "GetMappingDefinitionAt"); E& x = md.add("MappingDefinition"); x.set("uuid", guidOf(p, "IMappingDefinition")); x.set("name", S(p->GetName())); Uint32 v = 77; must(p->GetSizeX(v), "GetSizeX"); x.set("SizeX", utext(v)); must(p->GetSizeY(v), "GetSizeY"); x.set("SizeY", utext(v));
			EScaleHandlingType h = (EScaleHandlingType) 99; must(p->GetScaleHandling(h), "GetScaleHandling"); x.set("ScaleHandling", enumText(eScale, (int) h)); ISourcePtr q; must(p->GetSource(&q), "GetSource"); E y = source(q); if (!y.name.empty()) x.kids.push_back(y);
		}
		range();
		E& la = t.add("Layers"); ISceneObjPtr o; int rc = m->GetFirstLayer(&o); if (rc && rc != 458) must(rc, "GetFirstLayer"); if (!rc) chain(o, la);
		return t;
	}
	void range()
	{
		size_t n; auto no = [&](int rc, const str& w) { if (!rc) throw vp::Fail{"range-" + w, w + " accepts the index after the last"}; };
		{ ISceneDataProviderPtr p; m->GetDataProviderObjectCount(n); no(m->GetDataProviderObjectAt(n, &p), "GetDataProviderObjectAt"); }
		{ IClassPtr p; m->GetClassCount(n); no(m->GetClassAt(n, &p), "GetClassAt"); }
		{ IPositionPtr p; m->GetPositionObjectCount(n); no(m->GetPositionObjectAt(n, &p), "GetPositionObjectAt"); }
		{ ISymDefPtr p; m->GetSymDefCount(n); no(m->GetSymDefAt(n, &p), "GetSymDefAt"); }
		{ IMappingDefinitionPtr p; m->GetMappingDefinitionCount(n); no(m->GetMappingDefinitionAt(n, &p), "GetMappingDefinitionAt"); }
	}
};
static inline E dump(Mvr m) { Dump d; d.m = m; return d.run(); }
static inline void same(const E& got, const E& want, const str& key) { str k, d = doc::diff(got, want, k); if (!d.empty()) throw vp::Fail{key + ":" + k, key + ": " + d}; }
static inline void each(E& e, const std::function<void(E&)>& f) { f(e); for (auto& k : e.kids) each(k, f); }
static inline bool isObj(const E& e) { return e.has("uuid") && e.kid("ChildList") != nullptr; }
} // namespace mvr
