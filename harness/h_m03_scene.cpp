// M03: a scene built by any history of operations is at every moment, and after saving, the scene of
// the model; references resolve to the object they name; wrong arguments are refused.
#include "mvr_file.h"
using namespace mvr;

struct History {
	vp::Src& s; vp::Ctx& c; Mvr m; Gen g; E t{"MVR"};
	std::map<str, ISceneObjPtr> obj; std::map<str, ISymDefPtr> sym; std::map<str, IClassPtr> cls; std::map<str, IPositionPtr> pos; std::map<str, IMappingDefinitionPtr> map; std::vector<ISceneDataProviderPtr> prov;
	std::vector<str> order;     // uuids of all objects
	size_t refused = 0;
	History(vp::Src& src, vp::Ctx& ctx) : s(src), c(ctx), m(newMvr()), g(src, 2) { for (auto n : {"UserData", "Classes", "Positions", "Symdefs", "MappingDefinitions", "Layers"}) t.add(n); }
	static E* find(E& e, const str& u) { if (e.kid("ChildList") && e.val("uuid") == u) return &e; for (auto& k : e.kids) if (E* r = find(k, u)) return r; return nullptr; }
	E& at(const str& u) { E* e = find(*t.kid("Layers"), u); if (!e) throw vp::Fail{"harness", "model lost an object"}; return *e; }
	str some() { return s.pick(order); }
	void no(int rc, const str& what, const str& key) { refused++; if (!rc) throw vp::Fail{"accepts-" + key, what + " is accepted"}; }
	void create()
	{
		static const std::vector<str> kinds = {"Fixture", "Fixture", "GroupObject", "SceneObject", "FocusPoint", "Truss", "Support", "VideoScreen", "Projector"};
		E e(order.empty() || s.chance(15) ? str("Layer") : s.pick(kinds)); const str k = e.name; bool layer = k == "Layer";
		e.set("name", s.chance(20) ? str() : doc::genText(s, 12)); e.set("uuid", g.uuid()); e.set("~m", layer ? kIdent : genMat(s, true));
		if (hasSpec(k)) { e.set("GDTFSpec", ""); e.set("GDTFMode", ""); }
		if (k == "Fixture") { for (auto& a : fixTab()) e.set(a.name, a.def); e.add("Addresses"); e.add("Mappings"); e.add("Protocols"); }
		if (k == "Projector") e.set("ScaleHandling", "ScaleKeepRatio");
		for (auto n : {"Connections", "Geometries", "CustomCommands", "Alignments", "Overwrites", "ChildList"}) e.add(n);
		Build b; b.m = m; b.s = &s;
		if (layer) { obj[e.val("uuid")] = b.create(e, nullptr); order.push_back(e.val("uuid")); t.kid("Layers")->kids.push_back(e); return; }
		str u = some(); obj[e.val("uuid")] = b.create(e, handle(u)); order.push_back(e.val("uuid")); at(u).kid("ChildList")->kids.push_back(e);
	}
	// a handle of an object: the one from its creation, or one obtained by walking
	ISceneObjPtr handle(const str& u)
	{
		if (s.chance(70)) return obj[u];
		ISceneObjPtr o; int rc = m->GetFirstLayer(&o); must(rc, "GetFirstLayer"); return walk(o, *t.kid("Layers"), u);
	}
	ISceneObjPtr walk(ISceneObjPtr o, E& l, const str& u)
	{
		for (size_t i = 0; i < l.kids.size(); i++) {
			E& k = l.kids[i]; c.eq(guidOf(o, "walk"), k.val("uuid"), "walk", "object reached by walking");
			if (k.val("uuid") == u) return o;
			if (find(k, u)) { ISceneObjPtr ch; must(m->GetFirstChild(o, &ch), "GetFirstChild"); return walk(ch, *k.kid("ChildList"), u); }
			if (i + 1 < l.kids.size()) { ISceneObjPtr n; must(m->GetNextObject(o, &n), "GetNextObject"); o = n; }
		}
		throw vp::Fail{"walk", "an object is not reached by walking"};
	}
	void define()
	{
		switch (s.draw(5)) {
			case 0: { E& l = *t.kid("Classes"); if (!l.kids.empty() && s.chance(30)) { again(s.pick(l.kids)); return; } doc::Names nm; for (auto& k : l.kids) nm.used.insert(doc::lower(k.val("name"))); E e("Class"); e.set("uuid", g.uuid()); e.set("name", nm.fresh(s, true)); IClassPtr p; must(m->CreateClassObject(uuidOf(e.val("uuid")), e.val("name").c_str(), &p), "CreateClassObject"); cls[e.val("uuid")] = p; l.kids.push_back(e); break; }
			case 1: { E& l = *t.kid("Positions"); if (!l.kids.empty() && s.chance(30)) { again(s.pick(l.kids)); return; } doc::Names nm; for (auto& k : l.kids) nm.used.insert(doc::lower(k.val("name"))); E e("Position"); e.set("uuid", g.uuid()); e.set("name", nm.fresh(s, true)); IPositionPtr p; must(m->CreatePositionObject(uuidOf(e.val("uuid")), e.val("name").c_str(), &p), "CreatePositionObject"); pos[e.val("uuid")] = p; l.kids.push_back(e); break; }
			case 2: { E& l = *t.kid("Symdefs"); if (!l.kids.empty() && s.chance(30)) { again(s.pick(l.kids)); return; } E e("Symdef"); e.set("uuid", g.uuid()); e.set("name", doc::genText(s, 8)); e.set("~contains", "false"); ISymDefPtr p; must(m->CreateSymDefObject(uuidOf(e.val("uuid")), e.val("name").c_str(), &p), "CreateSymDefObject"); sym[e.val("uuid")] = p; l.kids.push_back(e); break; }
			case 3: { E& l = *t.kid("MappingDefinitions"); if (!l.kids.empty() && s.chance(30)) { again(s.pick(l.kids)); return; } E e("MappingDefinition"); e.set("uuid", g.uuid()); e.set("name", doc::genText(s, 8)); e.set("SizeX", "0"); e.set("SizeY", "0"); e.set("ScaleHandling", "ScaleKeepRatio"); IMappingDefinitionPtr p; must(m->CreateMappingDefinitionObject(uuidOf(e.val("uuid")), e.val("name").c_str(), &p), "CreateMappingDefinitionObject"); map[e.val("uuid")] = p; l.kids.push_back(e); break; }
			default: { E& l = *t.kid("UserData"); E e("Data"); e.set("provider", doc::genText(s, 8)); e.set("ver", doc::genText(s, 8)); ISceneDataProviderPtr p; must(m->CreateDataProviderObject(e.val("provider").c_str(), e.val("ver").c_str(), &p), "CreateDataProviderObject"); prov.push_back(p); l.kids.push_back(e); }
		}
	}
	// creating a definition again gives the one there is
	void again(const E& e)
	{
		str u = e.val("uuid"), n = e.val("name"), gu, gn;
		if (e.name == "Class") { IClassPtr p; must(m->CreateClassObject(uuidOf(u), n.c_str(), &p), "CreateClassObject"); gu = guidOf(p, "class"); gn = S(p->GetName()); cls[u] = p; }
		else if (e.name == "Position") { IPositionPtr p; must(m->CreatePositionObject(uuidOf(u), n.c_str(), &p), "CreatePositionObject"); gu = guidOf(p, "position"); gn = S(p->GetName()); pos[u] = p; }
		else if (e.name == "Symdef") { ISymDefPtr p; must(m->CreateSymDefObject(uuidOf(u), n.c_str(), &p), "CreateSymDefObject"); gu = guidOf(p, "symdef"); gn = S(p->GetName()); sym[u] = p; }
		else { IMappingDefinitionPtr p; must(m->CreateMappingDefinitionObject(uuidOf(u), n.c_str(), &p), "CreateMappingDefinitionObject"); gu = guidOf(p, "mapping definition"); gn = S(p->GetName()); map[u] = p; }
		c.eq(gu, u, "again", "identifier of a definition created again"); c.eq(gn, n, "again", "name of a definition created again");
	}
	void defState()
	{
		if (s.coin()) { E& l = *t.kid("MappingDefinitions"); if (l.kids.empty()) return; E& e = l.kids[s.draw(l.kids.size())]; auto& d = map[e.val("uuid")];
			switch (s.draw(4)) {
				case 0: { unsigned v = (unsigned) s.range(0, kI32); must(d->SetSizeX(v), "SetSizeX"); e.set("SizeX", utext(v)); break; }
				case 1: { unsigned v = (unsigned) s.range(0, kI32); must(d->SetSizeY(v), "SetSizeY"); e.set("SizeY", utext(v)); break; }
				case 2: { str v = s.pick(texts(eScale)); must(d->SetScaleHandling((EScaleHandlingType) enumOf(eScale, v)), "SetScaleHandling"); e.set("ScaleHandling", v); break; }
				default: { E q = g.source(); if (E* old = e.kid("Source")) {
						if (s.coin()) { ISourcePtr p; must(d->GetSource(&p), "GetSource"); must(p->SetValue(q.text.c_str()), "SetValue"); must(p->SetLinkedGeometry(q.val("linkedGeometry").c_str()), "SetLinkedGeometry"); must(p->SetType((ESourceType) enumOf(eSource, q.val("type"))), "SetType"); }
						else must(d->SetSource(q.text.c_str(), q.val("linkedGeometry").c_str(), (ESourceType) enumOf(eSource, q.val("type"))), "SetSource");
						*old = q;
					} else { must(d->SetSource(q.text.c_str(), q.val("linkedGeometry").c_str(), (ESourceType) enumOf(eSource, q.val("type"))), "SetSource"); e.kids.push_back(q); } }
			}
		}
		else if (s.coin()) { E& l = *t.kid("UserData"); if (l.kids.empty()) return; size_t i = s.draw(l.kids.size()); str k = doc::genText(s, 8), v = genBody(s, 20); must(prov[i]->AddKeyValue(k.c_str(), v.c_str()), "AddKeyValue"); E& x = l.kids[i].add("VWEntry"); x.set("key", k); x.text = v; }
		else {
			E& l = *t.kid("Symdefs"); if (l.kids.empty()) return; size_t i = s.draw(l.kids.size()); E& e = l.kids[i];
			if (i && s.coin()) { E x("Symbol"); x.set("symdef", l.kids[s.draw(i)].val("uuid")); x.set("~m", genMat(s, true)); must(sym[e.val("uuid")]->AddSymbol(uuidOf(genUuid(s)), toMat(x.val("~m")), sym[x.val("symdef")]), "AddSymbol"); e.kids.push_back(x); e.set("~contains", "true"); }
			else { E x("Geometry3D"); x.set("fileName", genFile(s)); x.set("~m", genMat(s, true)); must(sym[e.val("uuid")]->AddGeometry(toMat(x.val("~m")), x.val("fileName").c_str()), "AddGeometry"); e.kids.push_back(x); }
		}
	}
	void link()
	{
		str u = some(); E& e = at(u); if (!hasPatch(e.name)) return; ISceneObjPtr o = handle(u);
		switch (s.draw(4)) {
			case 0: if (!cls.empty()) { str v = s.pick(t.kid("Classes")->kids).val("uuid"); must(o->SetClass(cls[v]), "SetClass"); e.set("Classing", v); } break;
			case 1: { str v = some(); if (v != u && hasPatch(at(v).name)) { must(o->SetMultipatchParent(handle(v)), "SetMultipatchParent"); e.set("multipatch", v); } break; }
			case 2: if (e.name == "Fixture" && !pos.empty()) { str v = s.pick(t.kid("Positions")->kids).val("uuid"); must(o->SetPosition(pos[v]), "SetPosition"); e.set("Position", v); } break;
			default: if (e.name == "Fixture") { str v = some(); if (at(v).name == "FocusPoint") { must(o->SetFocusPoint(handle(v)), "SetFocusPoint"); e.set("Focus", v); } else no(o->SetFocusPoint(obj[v]), "a focus point that is a " + at(v).name, "focus-" + at(v).name); }
		}
	}
	void state()
	{
		str u = some(); E& e = at(u); ISceneObjPtr o = handle(u); const str& k = e.name;
		switch (s.draw(12)) {
			case 0: if (hasSpec(k)) { str v = s.coin() ? str() : genBody(s); must(o->SetGdtfName(v.c_str()), "SetGdtfName"); e.set("GDTFSpec", v); v = s.coin() ? str() : genBody(s); must(o->SetGdtfMode(v.c_str()), "SetGdtfMode"); e.set("GDTFMode", v); } break;
			case 1: case 2: if (k == "Fixture") { auto& a = fixTab()[s.draw(fixTab().size())]; str v = genAttr(a, s); if (v.find_first_not_of(" \n\t") == str::npos) v = ""; must(a.set((ISceneObj*) o, v), "Set" + a.name); e.set(a.name, v); } break;
			case 3: if (k == "Fixture") { E& l = *e.kid("Addresses"); unsigned long long br = s.draw(6), v = s.coin() ? s.draw(1200) : s.draw(kI32); int rc = o->AddAdress(v, br); must(rc, "AddAdress"); for (auto& x : l.kids) if (x.val("break") == utext(br)) return; E& x = l.add("Address"); x.set("break", utext(br)); x.text = utext(v); } break;
			case 4: if (k == "Fixture") {
				E& l = *e.kid("Mappings"); str d = map.empty() || s.chance(10) ? g.uuid() : s.pick(t.kid("MappingDefinitions")->kids).val("uuid");
				for (auto& x : l.kids) if (x.val("linkedDef") == d) { no(o->AddMapping(uuidOf(d)), "a second mapping of the same definition", "mapping-twice"); return; }
				must(o->AddMapping(uuidOf(d)), "AddMapping"); E& x = l.add("Mapping"); x.set("linkedDef", d); for (auto n : {"ux", "uy", "ox", "oy"}) x.set(n, "0"); x.set("rz", dtext(0));
			} break;
			case 5: if (k == "Fixture") {
				E& l = *e.kid("Mappings"); if (l.kids.empty()) break; size_t i = s.draw(l.kids.size()); IMappingPtr p; must(o->GetMappingAt(i, &p), "GetMappingAt"); E& x = l.kids[i]; unsigned v = (unsigned) s.range(0, kI32);
				switch (s.draw(6)) { case 0: must(p->SetUx(v), "SetUx"); x.set("ux", utext(v)); break; case 1: must(p->SetUy(v), "SetUy"); x.set("uy", utext(v)); break; case 2: must(p->SetOx(v), "SetOx"); x.set("ox", utext(v)); break; case 3: must(p->SetOy(v), "SetOy"); x.set("oy", utext(v)); break; case 4: { str r = doc::genDbl(s); must(p->SetRz(dval(r)), "SetRz"); x.set("rz", r); break; } default: { str d = g.uuid(); must(p->SetLinkedDefUuid(uuidOf(d)), "SetLinkedDefUuid"); x.set("linkedDef", d); } }
			} break;
			case 6: if (k == "Fixture") { SProtocol p; E x("Protocol"); x.set("geometry", s.chance(30) ? str() : doc::genText(s, 8)); for (auto n : {"name", "type", "version"}) x.set(n, doc::genText(s, 8)); x.set("transmission", s.pick(texts(eTrans))); str a = x.val("geometry"), b = x.val("name"), d = x.val("type"), f = x.val("version"); p.fGeometry = a.c_str(); p.fName = b.c_str(); p.fType = d.c_str(); p.fVersion = f.c_str(); p.fTransmision = (ETransmissionType) enumOf(eTrans, x.val("transmission")); must(o->AddProtocol(p), "AddProtocol"); e.kid("Protocols")->kids.push_back(x); } break;
			case 7: {
				E& l = *e.kid("Connections"); E x("Connection"); x.set("own", doc::genText(s, 8)); x.set("other", doc::genText(s, 8)); x.set("toObject", s.coin() ? some() : genUuid(s)); IConnectionPtr p;
				if (!l.kids.empty() && s.coin()) { size_t i = s.draw(l.kids.size()); must(o->GetConnectionAt(i, &p), "GetConnectionAt"); must(p->SetOwn(x.val("own").c_str()), "SetOwn"); must(p->SetOther(x.val("other").c_str()), "SetOther"); must(p->SetToObject(uuidOf(x.val("toObject"))), "SetToObject"); l.kids[i] = x; }
				else { must(o->CreateConnection(x.val("own").c_str(), x.val("other").c_str(), uuidOf(x.val("toObject")), &p), "CreateConnection"); l.kids.push_back(x); }
			} break;
			case 8: {
				E& l = *e.kid("CustomCommands"); E x("CustomCommand"); x.set("function", doc::genText(s, 10)); x.set("percent", s.coin() ? "true" : "false"); x.set("value", doc::genDbl(s)); ICustomCommandPtr p;
				if (!l.kids.empty() && s.coin()) { size_t i = s.draw(l.kids.size()); must(o->GetCustomCommandAt(i, &p), "GetCustomCommandAt"); str f = x.val("function"); must(p->SetChannelFunction(f.c_str()), "SetChannelFunction"); must(p->SetIsPercentage(x.val("percent") == "true"), "SetIsPercentage"); must(p->SetValue(dval(x.val("value"))), "SetValue"); l.kids[i] = x; }
				else { must(o->CreateCustomCommand(x.val("function").c_str(), x.val("percent") == "true", dval(x.val("value")), &p), "CreateCustomCommand"); l.kids.push_back(x); }
			} break;
			case 9: {
				E& l = *e.kid("Alignments"); E x("Alignment"); x.set("geometry", doc::genText(s, 8)); x.set("up", genVec(s)); x.set("direction", genVec(s)); IAlignmentPtr p; SVector3 a = toVec(x.val("up")), b = toVec(x.val("direction"));
				if (!l.kids.empty() && s.coin()) { size_t i = s.draw(l.kids.size()); must(o->GetAlignmentAt(i, &p), "GetAlignmentAt"); str f = x.val("geometry"); must(p->SetBeamGeometry(f.c_str()), "SetBeamGeometry"); must(p->SetUpVector(a.x, a.y, a.z), "SetUpVector"); must(p->SetDirection(b.x, b.y, b.z), "SetDirection"); l.kids[i] = x; }
				else { must(o->CreateAlignment(x.val("geometry").c_str(), a, b, &p), "CreateAlignment"); l.kids.push_back(x); }
			} break;
			case 10: {
				E& l = *e.kid("Overwrites"); E x("Overwrite"); x.set("universal", doc::genText(s, 8)); x.set("target", doc::genText(s, 8)); IOverwritePtr p; str a = x.val("universal"), b = x.val("target");
				if (!l.kids.empty() && s.coin()) { size_t i = s.draw(l.kids.size()); must(o->GetOverwriteAt(i, &p), "GetOverwriteAt"); must(p->SetUniversal(a.c_str()), "SetUniversal"); must(p->SetTarget(b.c_str()), "SetTarget"); l.kids[i] = x; }
				else { must(o->CreateOverwrite(a.c_str(), b.c_str(), &p), "CreateOverwrite"); l.kids.push_back(x); }
			} break;
			default:
				if ((k == "Projector" || k == "VideoScreen") && s.chance(70)) {
					E q = g.source(); bool pr = k == "Projector"; ESourceType ty = (ESourceType) enumOf(eSource, q.val("type")); E* old = e.kid("Source");
					if (old && s.coin()) { ISourcePtr p; must(pr ? o->GetProjectorSource(&p) : o->GetVideoScreenSource(&p), "source"); must(p->SetValue(q.text.c_str()), "SetValue"); must(p->SetLinkedGeometry(q.val("linkedGeometry").c_str()), "SetLinkedGeometry"); must(p->SetType(ty), "SetType"); }
					else must(pr ? o->SetProjectorSource(q.text.c_str(), q.val("linkedGeometry").c_str(), ty) : o->SetVideoScreenSource(q.text.c_str(), q.val("linkedGeometry").c_str(), ty), "set source");
					if (old) *old = q; else { size_t i = 0; while (e.kids[i].name != "Geometries") i++; e.kids.insert(e.kids.begin() + i, q); }
					if (pr && s.coin()) { str v = s.pick(texts(eScale)); must(o->SetScaleHandling((EScaleHandlingType) enumOf(eScale, v)), "SetScaleHandling"); e.set("ScaleHandling", v); }
					break;
				}
				if (!sym.empty() && s.coin()) { E x("Symbol"); x.set("symdef", s.pick(t.kid("Symdefs")->kids).val("uuid")); x.set("~m", genMat(s, true)); must(o->AddSymbol(uuidOf(genUuid(s)), toMat(x.val("~m")), sym[x.val("symdef")]), "AddSymbol"); e.kid("Geometries")->kids.push_back(x); }
				else { E x("Geometry3D"); x.set("fileName", genFile(s)); x.set("~m", genMat(s, true)); must(o->AddGeometry(toMat(x.val("~m")), x.val("fileName").c_str()), "AddGeometry"); e.kid("Geometries")->kids.push_back(x); }
		}
	}
	// requests that make no sense for the object are refused and change nothing
	void wrong()
	{
		str u = some(); E& e = at(u); ISceneObjPtr o = handle(u); const str& k = e.name; size_t n = 0, far = s.coin() ? 0 : s.coin() ? s.draw(0) : s.draw(1000);
		auto idx = [&](const char* list) { return e.kid(list)->kids.size() + std::min<size_t>(far, ~(size_t) 0 - 1000); };
		switch (s.draw(7)) {
			case 0: { IConnectionPtr p; no(o->GetConnectionAt(idx("Connections"), &p), "an index past the connections", "range"); break; }
			case 1: { ICustomCommandPtr p; no(o->GetCustomCommandAt(idx("CustomCommands"), &p), "an index past the commands", "range"); break; }
			case 2: { IAlignmentPtr p; no(o->GetAlignmentAt(idx("Alignments"), &p), "an index past the alignments", "range"); IOverwritePtr q; no(o->GetOverwriteAt(idx("Overwrites"), &q), "an index past the overwrites", "range"); break; }
			case 3: { IGeometryReferencePtr p; no(o->GetGeometryAt(idx("Geometries"), &p), "an index past the geometries", "range"); if (k == "Fixture") { SDmxAdress a; no(o->GetAdressAt(idx("Addresses"), a), "an index past the addresses", "range"); IMappingPtr q; no(o->GetMappingAt(idx("Mappings"), &q), "an index past the mappings", "range"); SProtocol* r = nullptr; no(o->GetProtocolAt(idx("Protocols"), &r), "an index past the protocols", "range"); } break; }
			case 4:
				if (k != "Fixture") {
					Sint32 i32; bool b; CieColor col; Sint8 i8; double d; SDmxAdress a; IMappingPtr mp; IPositionPtr pp; ISceneObjPtr f; SProtocol pr; pr.fGeometry = pr.fName = pr.fType = pr.fVersion = "x"; pr.fTransmision = (ETransmissionType) 0; SProtocol* pq = nullptr;
					const char* w = "a fixture request on another kind of object"; str key = "kind-" + k;
					switch (s.draw(14)) {
						case 0: no(o->GetUnitNumber(i32), w, key); no(o->SetUnitNumber(5), w, key); break;
						case 1: no(o->GetFixtureIdNumeric(n), w, key); no(o->SetFixtureIdNumeric(5), w, key); break;
						case 2: no(o->GetColor(col), w, key); no(o->SetColor(col), w, key); break;
						case 3: no(o->GetFixtureTypeId(i8), w, key); no(o->SetFixtureTypeId(1), w, key); break;
						case 4: no(o->GetCustomId(n), w, key); no(o->SetCustomId(1), w, key); break;
						case 5: no(o->GetGoboRotation(d), w, key); no(o->SetGoboRotation(1), w, key); no(o->SetGobo("x"), w, key); break;
						case 6: no(o->GetCastShadow(b), w, key); no(o->SetCastShadow(true), w, key); break;
						case 7: no(o->GetDMXInvertPan(b), w, key); no(o->SetDMXInvertPan(true), w, key); no(o->GetDMXInvertTilt(b), w, key); no(o->SetDMXInvertTilt(true), w, key); break;
						case 8: no(o->GetAdressCount(n), w, key); no(o->GetAdressAt(0, a), w, key); no(o->AddAdress(1, 1), w, key); break;
						case 9: no(o->GetMappingCount(n), w, key); no(o->GetMappingAt(0, &mp), w, key); no(o->AddMapping(uuidOf(u)), w, key); break;
						case 10: no(o->GetProtocolsCount(n), w, key); no(o->GetProtocolAt(0, &pq), w, key); no(o->AddProtocol(pr), w, key); break;
						case 11: no(o->GetPosition(&pp), w, key); if (!pos.empty()) no(o->SetPosition(pos.begin()->second), w, key); break;
						case 12: no(o->GetFocusPoint(&f), w, key); no(o->SetFocusPoint(o), w, key); no(o->SetFixtureId("q"), w, key); no(o->SetFunction("q"), w, key); break;
						default: c.eq(S(o->GetGobo()) + S(o->GetFixtureId()) + S(o->GetFunction()) + S(o->GetGoboFullPath()), str(), "kind-text", "fixture texts of another kind of object");
					}
				}
				else { ISourcePtr q; EScaleHandlingType h; no(o->GetProjectorSource(&q), "projector source of a fixture", "kind-source"); no(o->GetVideoScreenSource(&q), "screen source of a fixture", "kind-source"); no(o->SetProjectorSource("a", "b", ESourceType::NDI), "projector source of a fixture", "kind-source"); no(o->SetVideoScreenSource("a", "b", ESourceType::NDI), "screen source of a fixture", "kind-source"); no(o->GetScaleHandling(h), "scale handling of a fixture", "kind-scale"); no(o->SetScaleHandling((EScaleHandlingType) 0), "scale handling of a fixture", "kind-scale"); }
				if (k == "Projector") { ISourcePtr q; no(o->GetVideoScreenSource(&q), "screen source of a projector", "kind-source"); no(o->SetVideoScreenSource("a", "b", ESourceType::NDI), "screen source of a projector", "kind-source"); }
				if (k == "VideoScreen") { ISourcePtr q; no(o->GetProjectorSource(&q), "projector source of a screen", "kind-source"); no(o->SetProjectorSource("a", "b", ESourceType::NDI), "projector source of a screen", "kind-source"); }
				if (!hasSpec(k)) { no(o->SetGdtfName("x"), "a GDTF name of a " + k, "kind-spec"); no(o->SetGdtfMode("x"), "a GDTF mode of a " + k, "kind-spec"); IGdtfFixturePtr f; no(o->GetGdtfFixture(&f), "the fixture type of a " + k, "kind-spec"); c.eq(S(o->GetGdtfName()) + S(o->GetGdtfMode()), str(), "kind-text", "GDTF texts of a " + k); }
				if (!hasPatch(k)) { IClassPtr q; no(o->GetClass(&q), "the class of a " + k, "kind-class"); if (!cls.empty()) no(o->SetClass(cls.begin()->second), "a class of a " + k, "kind-class"); ISceneObjPtr p; no(o->GetMultipatchParent(&p), "the multipatch of a " + k, "kind-multipatch"); no(o->SetMultipatchParent(o), "a multipatch of a " + k, "kind-multipatch"); }
				break;
			case 5: {
				const char* w = "a null argument"; if (hasPatch(k)) { no(o->SetClass(nullptr), w, "null-class"); no(o->SetMultipatchParent(nullptr), w, "null-multipatch"); } no(o->SetPosition(nullptr), w, "null-position"); no(o->SetFocusPoint(nullptr), w, "null-focus"); no(o->AddSymbol(uuidOf(u), toMat(kIdent), nullptr), w, "null-symbol");
				ISceneObjPtr r; str nu = g.uuid(); no(m->CreateFixture(uuidOf(nu), toMat(kIdent), "x", nullptr, &r), "an object outside of a container", "null-container"); no(m->CreateGroupObject(uuidOf(nu), toMat(kIdent), "x", nullptr, &r), "an object outside of a container", "null-container"); no(m->CreateTruss(uuidOf(nu), toMat(kIdent), "x", nullptr, &r), "an object outside of a container", "null-container"); no(m->CreateFocusPoint(uuidOf(nu), toMat(kIdent), "x", nullptr, &r), "an object outside of a container", "null-container"); no(m->CreateProjector(uuidOf(nu), toMat(kIdent), "x", nullptr, &r), "an object outside of a container", "null-container");
				no(m->GetFirstChild(nullptr, &r), w, "null-child"); no(m->GetNextObject(nullptr, &r), w, "null-next"); break;
			}
			default: Dump d; d.m = m; d.range();
		}
	}
	void look()
	{
		str u = some(); E& e = at(u); ISceneObjPtr o = handle(u); Dump d; d.m = m; E got = d.obj(o), want = e; common(want); same(got, want, "object");
	}
	void step()
	{
		if (order.empty()) { create(); return; }
		switch (s.draw(16)) { case 0: case 1: case 2: create(); break; case 3: case 4: define(); break; case 5: defState(); break; case 6: case 7: link(); break; case 8: wrong(); break; case 9: if (s.chance(30)) look(); break; default: state(); }
	}
};
static void history(vp::Src& s, vp::Ctx& c)
{
	History h(s, c); str p = c.scratch + "/a.mvr"; bool w = s.chance(90); if (w) must(h.m->OpenForWrite(p.c_str()), "OpenForWrite");
	size_t n = s.range(1, 90); for (size_t i = 0; i < n; i++) h.step();
	c.sample = doc::render(h.t); c.nontrivial = h.order.size() >= 5;
	same(dump(h.m), asBuilt(h.t), "built"); if (!w) return;
	must(h.m->Close(), "Close");
	Mvr m = s.coin() ? newMvr() : h.m; h.obj.clear(); h.sym.clear(); h.cls.clear(); h.pos.clear(); h.map.clear(); h.prov.clear();
	if (!(m == h.m)) h.m = nullptr;
	must(m->OpenForRead(p.c_str()), "OpenForRead"); same(dump(m), saved(h.t), "read");
}
// references that name nothing, identifiers given twice
static void dangling(vp::Src& s, vp::Ctx& c)
{
	Gen g(s, 2); g.files = true; E t = g.run(); std::vector<E*> objs; each(*t.kid("Layers"), [&](E& e) { if (isObj(e)) objs.push_back(&e); });
	size_t broken = 0; bool twice = false; E want0 = t;
	// 1. identifiers of definitions that exist nowhere
	std::map<str, str> gone; for (auto n : {"Classes", "Positions", "Symdefs"}) { auto& k = t.kid(n)->kids; for (size_t i = k.size(); i-- > 0;) if (s.chance(30)) { gone[k[i].val("uuid")] = k[i].name; k.erase(k.begin() + i); } }
	E file = t, want = t;
	each(file, [&](E& e) { for (auto f : {"multipatch", "Focus"}) if (e.has(f) && s.chance(25)) { e.set(f, g.uuid()); broken++; } });
	{ std::vector<E*> a, b; each(file, [&](E& e) { a.push_back(&e); }); each(want, [&](E& e) { b.push_back(&e); }); for (size_t i = 0; i < a.size(); i++) for (auto f : {"multipatch", "Focus"}) if (a[i]->val(f) != b[i]->val(f)) b[i]->del(f); }
	each(want, [&](E& e) { for (auto f : {"Classing", "Position"}) if (e.has(f) && gone.count(e.val(f))) { e.del(f); broken++; } if (e.name == "Symbol" && gone.count(e.val("symdef"))) { e.set("symdef", "error 4"); broken++; } });
	E root = toFile(file, s); want = read(want);
	// 2. the same identifier for two scene objects
	if (s.chance(40)) {
		std::vector<E*> f, w; each(root, [&](E& e) { if (hasPatch(e.name) && e.has("uuid") && (e.kid("Geometries") || e.name == "FocusPoint" || e.name == "Truss" || e.name == "SceneObject" || e.name == "Fixture" || e.name == "Support" || e.name == "VideoScreen" || e.name == "Projector")) f.push_back(&e); });
		std::set<str> refd; each(want, [&](E& e) { for (auto x : {"multipatch", "Focus"}) if (e.has(x)) refd.insert(e.val(x)); });
		if (f.size() >= 2) {
			size_t a = s.draw(f.size()), b = s.draw(f.size()); str ua = f[a]->val("uuid"), ub = f[b]->val("uuid"); for (auto& ch : ub) ch = (char) toupper(ch); str uA = ua; for (auto& ch : uA) ch = (char) toupper(ch);
			if (a != b && !refd.count(ub) && !refd.count(uA) && f[a]->name != "Symbol" && f[b]->name != "Symbol") { f[b]->set("uuid", ua); each(want, [&](E& e) { if (isObj(e) && e.val("uuid") == ub) e.set("uuid", uA); }); twice = true; }
		}
	}
	c.sample = doc::render(root); c.nontrivial = broken || twice; if (broken) c.label("dangling"); if (twice) c.label("duplicate");
	Mvr m = open(container(root, s), c); same(dump(m), want, "dangling");
	bool dup = !twice; must(m->GetDuplicatedUuids(dup), "GetDuplicatedUuids"); c.check(dup == twice, "duplicates", twice ? "an identifier given to two objects is not reported" : "distinct identifiers are reported as duplicated");
}
// one object used for one file after the other shows only the last
static void reuse(vp::Src& s, vp::Ctx& c)
{
	Mvr m = newMvr(); size_t n = 2 + s.draw(2); size_t objs = 0;
	for (size_t i = 0; i < n; i++) {
		Gen g(s, 1); g.files = true; E t = g.run(); vp::writeFile(c.scratch + fmt("/%zu.mvr", i), container(toFile(t, s), s));
		must(m->OpenForRead((c.scratch + fmt("/%zu.mvr", i)).c_str()), "OpenForRead"); same(dump(m), read(t), "reuse"); objs += count(t, [](E&) { return true; }); size_t k = 99; must(m->GetSceneObjectCount(k), "GetSceneObjectCount"); c.eq(k, count(t, [](E& e) { return hasPatch(e.name); }), "object-count", "number of scene objects");
		bool dup = true; must(m->GetDuplicatedUuids(dup), "GetDuplicatedUuids"); c.check(!dup, "duplicates", "distinct identifiers are reported as duplicated"); c.sample += doc::render(t);
	}
	c.nontrivial = objs >= 5;
}
// links that are not set, scenes that hold nothing
static void empty(vp::Src& s, vp::Ctx& c)
{
	auto no = [&](int rc, const str& w) { c.check(rc != 0, "empty-" + w, w + " succeeds without an object"); };
	Mvr m = newMvr(); c.nontrivial = true; int which = (int) s.draw(4); c.label(fmt("kind %d", which)); if (s.coin()) must(m->OpenForWrite((c.scratch + "/a.mvr").c_str()), "OpenForWrite");
	ISceneObjPtr l, o, p; must(m->CreateLayerObject(uuidOf(genUuid(s)), "l", &l), "CreateLayerObject"); MvrUUID u; ESourceType ty; ISourcePtr q;
	if (which == 0) { must(m->CreateFixture(uuidOf(genUuid(s)), toMat(kIdent), "f", l, &o), "CreateFixture"); IPositionPtr x; o->GetPosition(&x); if (x) { no(x->GetGuid(u), "IPosition.GetGuid"); S(x->GetName()); no(o->SetPosition(x), "SetPosition"); } IClassPtr k; no(o->GetClass(&k), "GetClass"); no(o->GetFocusPoint(&p), "GetFocusPoint"); no(o->GetMultipatchParent(&p), "GetMultipatchParent"); no(m->GetFirstChild(o, &p), "GetFirstChild"); no(m->GetNextObject(o, &p), "GetNextObject"); no(m->GetNextObject(l, &p), "GetNextObject"); IGdtfFixturePtr f; no(o->GetGdtfFixture(&f), "GetGdtfFixture"); }
	else if (which == 1) { must(m->CreateVideoScreen(uuidOf(genUuid(s)), toMat(kIdent), "f", l, &o), "CreateVideoScreen"); o->GetVideoScreenSource(&q); }
	else if (which == 2) { must(m->CreateProjector(uuidOf(genUuid(s)), toMat(kIdent), "f", l, &o), "CreateProjector"); o->GetProjectorSource(&q); }
	else { IMappingDefinitionPtr d; must(m->CreateMappingDefinitionObject(uuidOf(genUuid(s)), "d", &d), "CreateMappingDefinitionObject"); d->GetSource(&q); Mvr z = newMvr(); no(z->GetFirstLayer(&p), "GetFirstLayer"); no(z->Close(), "Close"); size_t n = 77; must(z->GetSceneObjectCount(n), "GetSceneObjectCount"); c.eq(n, (size_t) 0, "empty-count", "objects of an empty scene"); Dump x; x.m = z; x.range(); }
	if (q) { no(q->GetType(ty), "ISource.GetType"); no(q->SetType(ESourceType::File), "ISource.SetType"); no(q->SetValue("a"), "ISource.SetValue"); no(q->SetLinkedGeometry("a"), "ISource.SetLinkedGeometry"); S(q->GetValue()); S(q->GetLinkedGeometry()); }
}
VP_SUITE
{
	s.property = "M03"; s.rule = "the scene has at least 5 objects, or at least one reference that names nothing or identifier given twice"; s.quickCases = 5000; s.thoroughCases = 120000;
	s.props.push_back({"history", 6, history});
	s.props.push_back({"dangling", 2, dangling});
	s.props.push_back({"reuse", 1, reuse});
	s.props.push_back({"empty", 1, empty});
}
