// GDTF through the public interface: attribute tables, building a fixture from a tree, dumping a
// fixture into a tree.
#pragma once
#include "Prefix/StdAfx.h"
#include "Include/VectorworksMVR.h"
#include "Include/IMediaRessourceVectorInterface.h"
#include "doc_tree.h"

namespace gdtf {
using namespace VectorworksMVR;
using namespace VectorworksMVR::GdtfDefines;
using doc::E; using doc::A; using doc::dtext; using doc::dval; using doc::ival; using doc::uval; using doc::itext; using doc::utext;
using vp::str; using vp::fmt;

static const double kPoison = -987654.25;

static inline void must(int rc, const str& what) { if (rc) throw vp::Fail{"call:" + what, what + fmt(" returned error %d", rc)}; }
static inline str S(MvrString p) { if (!p) throw vp::Fail{"null-string", "a text getter returned a null pointer"}; return p; }

// --- values ---------------------------------------------------------------------------------
static inline CieColor toCol(const str& t) { double v[3] = {0, 0, 0}; sscanf(t.c_str(), "%lf,%lf,%lf", v, v + 1, v + 2); CieColor c; c.fx = v[0]; c.fy = v[1]; c.f_Y = v[2]; return c; }
static inline str colText(const CieColor& c) { return dtext(c.fx) + "," + dtext(c.fy) + "," + dtext(c.f_Y); }
static inline void matNums(const str& t, double* v) { size_t n = 0; const char* p = t.c_str(); while (*p && n < 16) { if (strchr("0123456789+-.", *p)) { char* e; double d = strtod(p, &e); if (e != p) { v[n++] = d; p = e; continue; } } p++; } }
// canonical text of a placement: 12 numbers ux uy uz vx vy vz wx wy wz ox oy oz
static inline STransformMatrix toMat(const str& t)
{
	double v[16] = {0}; matNums(t, v); STransformMatrix m;
	m.ux = v[0]; m.uy = v[1]; m.uz = v[2]; m.vx = v[3]; m.vy = v[4]; m.vz = v[5]; m.wx = v[6]; m.wy = v[7]; m.wz = v[8]; m.ox = v[9]; m.oy = v[10]; m.oz = v[11]; return m;
}
static inline str matText(const STransformMatrix& m)
{
	str o; for (double d : {m.ux, m.uy, m.uz, m.vx, m.vy, m.vz, m.wx, m.wy, m.wz, m.ox, m.oy, m.oz}) { if (!o.empty()) o += " "; o += dtext(d); } return o;
}
static const str kIdent = "1.000000 0.000000 0.000000 0.000000 1.000000 0.000000 0.000000 0.000000 1.000000 0.000000 0.000000 0.000000";

typedef std::vector<std::pair<str, int>> Enum;
static inline std::vector<str> texts(const Enum& e) { std::vector<str> o; for (auto& x : e) o.push_back(x.first); return o; }
static inline int enumOf(const Enum& e, const str& t) { for (auto& x : e) if (x.first == t) return x.second; throw vp::Fail{"harness", "no enum " + t}; }
static inline str enumText(const Enum& e, int v) { for (auto& x : e) if (x.second == v) return x.first; return fmt("?%d", v); }

static const Enum ePhysUnit = {{"None",0},{"Percent",1},{"Length",2},{"Mass",3},{"Time",4},{"Temperature",5},{"LuminousIntensity",6},{"Angle",7},{"Force",8},{"Frequency",9},{"Current",10},{"Voltage",12},{"Power",13},{"Energy",14},{"Area",15},{"Volume",16},{"Speed",17},{"Acceleration",18},{"AngularSpeed",19},{"AngularAccc",20},{"WaveLength",21},{"ColorComponent",22}};
static const Enum eSubType = {{"PlacementOffset",0},{"Amplitude",1},{"AmplitudeMin",2},{"AmplitudeMax",3},{"Duration",4},{"DutyCycle",5},{"TimeOffset",6},{"MinimumOpening",7},{"Value",8},{"RatioHorizontal",9},{"RatioVertical",10}};
static const Enum ePrim = {{"Undefined",0},{"Cube",1},{"Cylinder",2},{"Sphere",3},{"Base",4},{"Yoke",5},{"Head",6},{"Scanner",7},{"Conventional",8},{"Pigtail",9},{"Base1_1",10},{"Scanner1_1",11},{"Conventional1_1",12}};
static const Enum eLamp = {{"Discharge",0},{"Tungsten",1},{"Halogen",2},{"LED",3}};
static const Enum eBeam = {{"Wash",0},{"Spot",1},{"None",2},{"Rectangle",3},{"PC",4},{"Fresnel",5},{"Glow",6}};
static const Enum eLaserCol = {{"RGB",0},{"SingleWaveLength",1}};
static const Enum eComp = {{"Input",0},{"Output",1},{"PowerSource",2},{"Consumer",3},{"Fuse",4},{"NetworkProvider",5},{"NetworkInput",6},{"NetworkOutput",7},{"NetworkInOut",8}};
static const Enum eOri = {{"Left",0},{"Right",1},{"Top",2},{"Bottom",3}};
static const Enum eFuse = {{"B",0},{"C",1},{"D",2},{"K",3},{"Z",4}};
static const Enum eStruct = {{"CenterLineBased",0},{"Detail",1}};
static const Enum eCross = {{"TrussFramework",0},{"Tube",1}};
static const Enum eSupport = {{"Rope",0},{"GroundSupport",1}};
static const Enum eSnap = {{"Yes",0},{"No",1},{"On",2},{"Off",3}};
static const Enum eMaster = {{"None",0},{"Grand",1},{"Group",2}};
static const Enum eRelation = {{"Multiply",1},{"Override",2}};
static const Enum eSpace = {{"sRGB",0},{"Custom",1},{"ProPhoto",2},{"ANSI",3}};
static const Enum eInterp = {{"Linear",0},{"Step",1},{"Log",2}};
static const Enum eGeoType = {{"Geometry",9},{"Axis",10},{"FilterBeam",11},{"FilterColor",12},{"FilterGobo",13},{"FilterShaper",14},{"Beam",15},{"GeometryReference",17},{"MediaServerCamera",76},{"MediaServerLayer",77},{"MediaServerMaster",78},{"Display",79},{"Laser",81},{"WiringObject",82},{"Inventory",83},{"Structure",84},{"Support",85},{"Magnet",86}};

// --- attribute tables --------------------------------------------------------------------------
#define T_DBL(T,n,F,d) A<T>{n,doc::K_DBL,dtext(d),{},[](T*o,const str&v)->int{return o->Set##F(dval(v));},[](T*o,str&r)->int{double x=kPoison;int e=o->Get##F(x);r=dtext(x);return e;}}
#define T_INT(T,n,F,TY,d,l,h) A<T>{n,doc::K_INT,itext(d),{},[](T*o,const str&v)->int{return o->Set##F((TY)ival(v));},[](T*o,str&r)->int{TY x=(TY)77777777;int e=o->Get##F(x);r=itext((long long)x);return e;},l,h}
#define T_TXT(T,n,F) A<T>{n,doc::K_TEXT,"",{},[](T*o,const str&v)->int{return o->Set##F(v.c_str());},[](T*o,str&r)->int{r=S(o->Get##F());return 0;}}
#define T_ENUM(T,n,F,TY,tab,d) A<T>{n,doc::K_ENUM,d,texts(tab),[](T*o,const str&v)->int{TY x=(TY)enumOf(tab,v);return o->Set##F(x);},[](T*o,str&r)->int{TY x=(TY)99;int e=o->Get##F(x);r=enumText(tab,(int)x);return e;}}
#define T_BOOL(T,n,F,yes,no) A<T>{n,doc::K_BOOL,no,{yes,no},[](T*o,const str&v)->int{return o->Set##F(v==yes);},[](T*o,str&r)->int{bool x=false;int e=o->Get##F(x);r=x?yes:no;return e;}}
#define T_COL(T,n,F,d) A<T>{n,doc::K_COL,d,{},[](T*o,const str&v)->int{CieColor c=toCol(v);return o->Set##F(c);},[](T*o,str&r)->int{CieColor c;c.fx=c.fy=c.f_Y=kPoison;int e=o->Get##F(c);r=colText(c);return e;}}
static const str kWhite = "0.312700,0.329000,100.000000";
static const long long kI32 = 2147483647ll;

typedef std::vector<A<IGdtfGeometry>> GeoTab;
static const std::map<str, GeoTab>& geoTabs()
{
	typedef IGdtfGeometry G;
	static std::map<str, GeoTab> m = {
		{"Beam", {T_ENUM(G,"LampType",LampType,EGdtfLampType,eLamp,"Discharge"), T_DBL(G,"PowerConsumption",PowerConsumption,1000), T_DBL(G,"LuminousFlux",LuminousIntensity,10000), T_DBL(G,"ColorTemperature",ColorTemperature,6000), T_DBL(G,"BeamAngle",BeamAngle,25), T_DBL(G,"BeamRadius",BeamRadius,50), T_DBL(G,"FieldAngle",FieldAngle,25), T_DBL(G,"ThrowRatio",ThrowRatio,1), T_DBL(G,"RectangleRatio",RectangleRatio,1.7777), T_ENUM(G,"BeamType",BeamType,EGdtfBeamType,eBeam,"Wash"), T_INT(G,"ColorRenderingIndex",ColorIndex,Sint32,100,-kI32,kI32)}},
		{"Display", {T_TXT(G,"Texture",Texture), T_INT(G,"Width",Width,size_t,0,0,kI32), T_INT(G,"Height",Height,size_t,0,0,kI32), T_BOOL(G,"IsCurved",IsCurved,"true","false")}},
		{"Laser", {T_ENUM(G,"ColorType",ColorType,EGdtfLaserColorType,eLaserCol,"RGB"), T_DBL(G,"Color",LaserColor,0), T_DBL(G,"OutputStrength",OutputStrength,0), T_DBL(G,"BeamDiameter",BeamDiameter,0), T_DBL(G,"BeamDivergenceMin",BeamDivergenceMin,0), T_DBL(G,"BeamDivergenceMax",BeamDivergenceMax,0), T_DBL(G,"ScanAnglePan",ScanAnglePan,0), T_DBL(G,"ScanAngleTilt",ScanAngleTilt,0), T_DBL(G,"ScanSpeed",ScanSpeed,0)}},
		{"WiringObject", {T_TXT(G,"ConnectorType",ConnectorType), T_ENUM(G,"ComponentType",ComponentType,EGdtfComponentType,eComp,"Input"), T_TXT(G,"SignalType",SignalType), T_INT(G,"PinCount",PinCount,size_t,0,0,kI32), T_INT(G,"SignalLayer",SignalLayer,size_t,0,0,kI32), T_ENUM(G,"Orientation",Orientation,EGdtfOrientation,eOri,"Left"), T_TXT(G,"WireGroup",WireGroup), T_DBL(G,"ElectricalPayLoad",ElectricalPayLoad,0), T_DBL(G,"VoltageRangeMin",VoltageRangeMin,0), T_DBL(G,"VoltageRangeMax",VoltageRangeMax,0), T_DBL(G,"FrequencyRangeMin",FrequencyRangeMin,0), T_DBL(G,"FrequencyRangeMax",FrequencyRangeMax,0), T_DBL(G,"CosPhi",CosPhi,0), T_DBL(G,"MaxPayLoad",MaxPayLoad,0), T_DBL(G,"Voltage",Voltage,0), T_DBL(G,"FuseCurrent",FuseCurrent,0), T_ENUM(G,"FuseRating",FuseRating,EGdtfFuseRating,eFuse,"B")}},
		{"Inventory", {T_INT(G,"Count",InventoryCount,size_t,0,0,kI32)}},
		{"Structure", {T_ENUM(G,"StructureType",StructureType,EGdtfStructureType,eStruct,"CenterLineBased"), T_ENUM(G,"CrossSectionType",CrossSectionType,EGdtfCrossSectionType,eCross,"TrussFramework"), T_DBL(G,"CrossSectionHeight",CrossSectionHeight,0), T_DBL(G,"CrossSectionWallThickness",CrossSectionWallThickness,0), T_TXT(G,"TrussCrossSection",TrussCrossSection)}},
		{"Support", {T_ENUM(G,"SupportType",SupportType,EGdtfSupportType,eSupport,"Rope"), T_DBL(G,"CapacityX",CapacityX,0), T_DBL(G,"CapacityY",CapacityY,0), T_DBL(G,"CapacityZ",CapacityZ,0), T_DBL(G,"CapacityXX",CapacityXX,0), T_DBL(G,"CapacityYY",CapacityYY,0), T_DBL(G,"CapacityZZ",CapacityZZ,0), T_TXT(G,"RopeCrossSection",RopeCrossSection), T_DBL(G,"ResistanceX",ResistanceX,0), T_DBL(G,"ResistanceY",ResistanceY,0), T_DBL(G,"ResistanceZ",ResistanceZ,0), T_DBL(G,"ResistanceXX",ResistanceXX,0), T_DBL(G,"ResistanceYY",ResistanceYY,0), T_DBL(G,"ResistanceZZ",ResistanceZZ,0)}},
	};
	return m;
}
static inline const GeoTab& geoTab(const str& n) { static GeoTab none; auto i = geoTabs().find(n); return i == geoTabs().end() ? none : i->second; }

static const std::vector<A<IGdtfFixture>>& fixTab()
{
	typedef IGdtfFixture F;
	static std::vector<A<F>> t = {T_TXT(F,"ShortName",ShortName), T_TXT(F,"LongName",LongName), T_TXT(F,"Description",FixtureTypeDescription), T_TXT(F,"Thumbnail",FixtureThumbnail), T_INT(F,"ThumbnailOffsetX",ThumbnailOffsetX,Sint32,0,-kI32,kI32), T_INT(F,"ThumbnailOffsetY",ThumbnailOffsetY,Sint32,0,-kI32,kI32), T_BOOL(F,"CanHaveChildren",CanHaveChildren,"Yes","No")};
	return t;
}
static const std::vector<A<IGdtfFixture>>& propTab()
{
	typedef IGdtfFixture F;
	static std::vector<A<F>> t = {T_DBL(F,"OperatingTemperature.Low",OperatingTemperatureLow,0), T_DBL(F,"OperatingTemperature.High",OperatingTemperatureHigh,40), T_DBL(F,"Weight.Value",Weight,0), T_DBL(F,"LegHeight.Value",LegHeight,0)};
	return t;
}
static const std::vector<A<IGdtfSubPhysicalUnit>>& subUnitTab()
{
	typedef IGdtfSubPhysicalUnit T;
	static std::vector<A<T>> t = {T_ENUM(T,"PhysicalUnit",PhysicalUnit,EGdtfPhysicalUnit,ePhysUnit,"None"), T_DBL(T,"PhysicalFrom",PhysicalFrom,0), T_DBL(T,"PhysicalTo",PhysicalTo,0)};
	return t;
}
static const std::vector<A<IGdtfWheelSlot>>& slotTab()
{
	typedef IGdtfWheelSlot T;
	static std::vector<A<T>> t = {T_COL(T,"Color",Color,"0.312730,0.329020,100.000000"), T_TXT(T,"MediaFileName",Gobo), T_DBL(T,"Duration",Duration,0), T_INT(T,"Width",Width,size_t,0,0,kI32), T_INT(T,"Height",Height,size_t,0,0,kI32), T_INT(T,"FPS",FPS,size_t,0,0,kI32)};
	return t;
}
static const std::vector<A<IGdtfWheelSlotAnimationSystem>>& animTab()
{
	typedef IGdtfWheelSlotAnimationSystem T;
	static std::vector<A<T>> t = {T_DBL(T,"~P1X",P1_X,0), T_DBL(T,"~P1Y",P1_Y,0), T_DBL(T,"~P2X",P2_X,0), T_DBL(T,"~P2Y",P2_Y,0), T_DBL(T,"~P3X",P3_X,0), T_DBL(T,"~P3Y",P3_Y,0), T_DBL(T,"Radius",Radius,0)};
	return t;
}
static const std::vector<A<IGdtfModel>>& modelTab()
{
	typedef IGdtfModel T;
	static std::vector<A<T>> t = {T_DBL(T,"Length",Length,0), T_DBL(T,"Width",Width,0), T_DBL(T,"Height",Height,0), T_ENUM(T,"PrimitiveType",PrimitiveType,EGdtfModel_PrimitiveType,ePrim,"Undefined"),
		A<T>{"File",doc::K_TEXT,"",{},[](T*o,const str&v)->int{return o->SetGeometryFile(v.c_str());},[](T*o,str&r)->int{r=S(o->GetGeometryFileName());return 0;}},
		T_DBL(T,"SVGOffsetX",SVGOffsetX,0), T_DBL(T,"SVGOffsetY",SVGOffsetY,0), T_DBL(T,"SVGSideOffsetX",SVGSideOffsetX,0), T_DBL(T,"SVGSideOffsetY",SVGSideOffsetY,0), T_DBL(T,"SVGFrontOffsetX",SVGFrontOffsetX,0), T_DBL(T,"SVGFrontOffsetY",SVGFrontOffsetY,0)};
	return t;
}
static const std::vector<A<IGdtfMeasurement>>& measTab(bool filter)
{
	typedef IGdtfMeasurement T;
	static std::vector<A<T>> f = {T_DBL(T,"Physical",Physical,0), T_DBL(T,"Transmission",Transmission,0), T_ENUM(T,"InterpolationTo",InterpolationTo,EGdtfInterpolationTo,eInterp,"Linear")};
	static std::vector<A<T>> e = {T_DBL(T,"Physical",Physical,0), T_DBL(T,"LuminousIntensity",LuminousIntensity,0), T_ENUM(T,"InterpolationTo",InterpolationTo,EGdtfInterpolationTo,eInterp,"Linear")};
	return filter ? f : e;
}
static const std::vector<A<IGdtfMeasurementPoint>>& mpTab() { typedef IGdtfMeasurementPoint T; static std::vector<A<T>> t = {T_DBL(T,"WaveLength",WaveLength,0), T_DBL(T,"Energy",Energy,0)}; return t; }
static const std::vector<A<IGdtfPhysicalEmitter>>& emitTab() { typedef IGdtfPhysicalEmitter T; static std::vector<A<T>> t = {T_COL(T,"Color",Color,kWhite), T_DBL(T,"DominantWaveLength",DominantWaveLength,0), T_TXT(T,"DiodePart",DiodePart)}; return t; }
static const std::vector<A<IGdtfFilter>>& filterTab() { typedef IGdtfFilter T; static std::vector<A<T>> t = {T_COL(T,"Color",Color,kWhite)}; return t; }
static const std::vector<A<IGdtfPoint>>& pointTab() { typedef IGdtfPoint T; static std::vector<A<T>> t = {T_DBL(T,"DMXPercentage",DMXPercentage,0), T_DBL(T,"CFC3",CFC3,0), T_DBL(T,"CFC2",CFC2,0), T_DBL(T,"CFC1",CFC1,0), T_DBL(T,"CFC0",CFC0,0)}; return t; }
static const std::vector<A<IGdtfConnector>>& connTab() { typedef IGdtfConnector T; static std::vector<A<T>> t = {T_TXT(T,"Type",Type), T_INT(T,"DMXBreak",DmxBreak,Uint32,0,0,kI32), T_INT(T,"Gender",Gender,Sint32,0,-kI32,kI32), T_DBL(T,"Length",Length,0)}; return t; }
static const std::vector<A<IGdtfColorSpace>>& csTab() { typedef IGdtfColorSpace T; static std::vector<A<T>> t = {T_COL(T,"Red",Red,"0.312730,0.329020,100.000000"), T_COL(T,"Green",Green,"0.312730,0.329020,100.000000"), T_COL(T,"Blue",Blue,"0.312730,0.329020,100.000000"), T_COL(T,"WhitePoint",White,"0.312730,0.329020,100.000000")}; return t; }
static const std::vector<A<IGdtfDmxLogicalChannel>>& logTab() { typedef IGdtfDmxLogicalChannel T; static std::vector<A<T>> t = {T_ENUM(T,"Snap",DmxSnap,EGdtfDmxSnap,eSnap,"No"), T_ENUM(T,"Master",DmxMaster,EGdtfDmxMaster,eMaster,"None"), T_DBL(T,"MibFade",MoveInBlackFrames,0), T_DBL(T,"DMXChangeTimeLimit",DmxChangeTimeLimit,0)}; return t; }
static const std::vector<A<IGdtfDmxChannelFunction>>& funTab()
{
	typedef IGdtfDmxChannelFunction T;
	static std::vector<A<T>> t = {T_TXT(T,"OriginalAttribute",OriginalAttribute), T_DBL(T,"PhysicalFrom",PhysicalStart,0), T_DBL(T,"PhysicalTo",PhysicalEnd,1), T_DBL(T,"RealFade",RealFade,0), T_DBL(T,"RealAcceleration",RealAcceleration,0), T_DBL(T,"Min",Min,0), T_DBL(T,"Max",Max,1), T_TXT(T,"CustomName",CustomName)};
	return t;
}
static const std::vector<A<IGdtfDmxSubChannelSet>>& subSetTab() { typedef IGdtfDmxSubChannelSet T; static std::vector<A<T>> t = {T_DBL(T,"PhysicalFrom",PhysicalFrom,0), T_DBL(T,"PhysicalTo",PhysicalTo,1)}; return t; }
static const std::vector<A<IGdtfMacroVisualStep>>& visStepTab() { typedef IGdtfMacroVisualStep T; static std::vector<A<T>> t = {T_DBL(T,"Duration",Duration,1), T_DBL(T,"Fade",Fade,0), T_DBL(T,"Delay",Delay,0)}; return t; }

// set every attribute of the table (those equal to the default only if asked)
template <class T> static void setAll(const std::vector<A<T>>& tab, T* o, const E& e, bool defaults)
{
	for (auto& a : tab) { const str* v = e.get(a.name); if (v && (defaults || *v != a.def)) must(a.set(o, *v), e.name + ".Set" + a.name); }
}
template <class T> static void getAll(const std::vector<A<T>>& tab, T* o, E& e)
{
	for (auto& a : tab) { str r; must(a.get(o, r), e.name + ".Get" + a.name); e.set(a.name, r); }
}

// --- DMX values --------------------------------------------------------------------------------
static inline uint64_t maxFor(int res) { return res >= 4 ? 0xffffffffull : (1ull << (8 * res)) - 1; }
static inline str dmxText(uint64_t v, int res) { return utext(v) + "/" + fmt("%d", res); }
static inline uint64_t dmxVal(const str& t) { return uval(t); }
static inline int offCount(const str& off) { if (off.empty()) return 0; return 1 + (int) std::count(off.begin(), off.end(), ','); }
static inline int resOf(const E& chan) { int n = offCount(chan.val("Offset")); return n ? n : 2; }
static inline str chanName(const E& chan) { return chan.val("Geometry") + "_" + (chan.kids.empty() ? str() : chan.kids[0].val("Attribute")); }
static inline str funName(const E& fun, size_t idx) { str n = fun.val("Name"); return n.empty() ? fun.val("Attribute") + " " + fmt("%zu", idx + 1) : n; }

// --- building ------------------------------------------------------------------------------------
struct Build {
	bool defaults = true;                 // call setters for values equal to the default, too
	std::function<void()> observe;        // called between steps
	IGdtfFixture* f = nullptr;
	std::map<str, IGdtfAttributePtr> attr; std::map<str, IGdtfFeaturePtr> feat; std::map<str, IGdtfActivationGroupPtr> act;
	std::map<str, IGdtfWheelPtr> wheel; std::map<str, IGdtfModelPtr> model; std::map<str, IGdtfGeometryPtr> geo;
	std::map<str, IGdtfPhysicalEmitterPtr> emit; std::map<str, IGdtfFilterPtr> filter; std::map<str, IGdtfColorSpacePtr> cs; std::map<str, IGdtfGamutPtr> gamut; std::map<str, IGdtfDMXProfilePtr> prof;
	std::map<str, IGdtfDmxModePtr> mode;
	std::map<str, IGdtfSubPhysicalUnitPtr> subUnit;   // attribute + "|" + type
	void tick() { if (observe) observe(); }
	// how a name is given: with characters the format does not allow where they are left out, or another one first
	std::function<str(const str&)> dress; std::function<bool()> interim, soon; std::vector<std::function<void()>> later; size_t interims = 0;
	struct Given { str text; bool again; };
	// created with other values first, then given the right ones
	bool mid() { return interim && interim(); }
	Given give(const str& n, bool cleans) { if (interim && interim()) return {fmt("interim name %zu", ++interims), true}; return {cleans && dress ? dress(n) : n, false}; }
	template <class P> void named(P p, const Given& g, const str& n, bool cleans = true)
	{
		if (!g.again) return; str t = cleans && dress ? dress(n) : n;
		if (soon && soon()) must(p->SetName(t.c_str()), "SetName"); else later.push_back([p, t]() mutable { must(p->SetName(t.c_str()), "SetName"); });
	}
	template <class P> P& ref(std::map<str, P>& m, const str& n, const char* what) { auto i = m.find(n); if (i == m.end()) throw vp::Fail{"harness", str("unknown ") + what + " " + n}; return i->second; }

	void geometryLinks(const E& g)
	{
		IGdtfGeometryPtr& p = ref(geo, g.val("Name"), "geometry");
		if (g.name == "GeometryReference" && g.has("Geometry")) must(p->SetGeometryReference(ref(geo, g.val("Geometry"), "geometry")), "SetGeometryReference");
		if (g.name == "Structure" && g.has("LinkedGeometry")) must(p->SetStructureLinkedGeometry(ref(geo, g.val("LinkedGeometry"), "geometry")), "SetStructureLinkedGeometry");
		for (auto& k : g.kids) {
			if (k.name == "PinPatch") {
				IGdtfPinPatchPtr pp; bool mid = this->mid(); IGdtfGeometry* to = ref(geo, k.val("ToWiringObject"), "geometry"); must(p->CreatePinPatch(mid ? (IGdtfGeometry*) p : to, mid ? 7777 : uval(k.val("FromPin")), mid ? 8888 : uval(k.val("ToPin")), &pp), "CreatePinPatch");
				if (mid) { must(pp->SetToPin(uval(k.val("ToPin"))), "SetToPin"); must(pp->SetFromPin(uval(k.val("FromPin"))), "SetFromPin"); must(pp->SetLinkedWiringObject(to), "SetLinkedWiringObject"); }
			}
			else if (k.name != "Break" && k.name != "Protocol") geometryLinks(k);
		}
	}
	void geometry(const E& g, IGdtfGeometry* parent)
	{
		EGdtfObjectType t = (EGdtfObjectType) enumOf(eGeoType, g.name);
		STransformMatrix m = toMat(g.val("~Position")); IGdtfModel* md = g.has("Model") ? (IGdtfModel*) ref(model, g.val("Model"), "model") : nullptr;
		IGdtfGeometryPtr p; Given nm = give(g.val("Name"), parent != nullptr);
		if (parent) must(parent->CreateGeometry(t, nm.text.c_str(), md, m, &p), "CreateGeometry " + g.name);
		else must(f->CreateGeometry(t, nm.text.c_str(), md, m, &p), "CreateGeometry " + g.name);
		named(p, nm, g.val("Name"));
		geo[g.val("Name")] = p;
		setAll(geoTab(g.name), (IGdtfGeometry*) p, g, defaults);
		if (g.name == "Support") { double v[16] = {0}; matNums(g.val("~RopeOffset"), v); must(p->SetRopeOffset(v[0], v[1], v[2]), "SetRopeOffset"); }
		if (g.name == "Beam" && g.has("EmitterSpectrum")) must(p->SetEmitterSpectrum(ref(emit, g.val("EmitterSpectrum"), "emitter")), "SetEmitterSpectrum");
		if (g.name == "Laser" && g.has("Emitter")) must(p->SetEmitter(ref(emit, g.val("Emitter"), "emitter")), "SetEmitter");
		tick();
		for (auto& k : g.kids) {
			if (k.name == "Break") { bool mid = this->mid(); IGdtfBreakPtr b; must(p->CreateBreak(mid ? 9 : (Sint32) ival(k.val("DMXBreak")), mid ? 99 : (DMXAddress) uval(k.val("DMXOffset")), &b), "CreateBreak"); if (mid) { must(b->SetDmxAddress((DMXAddress) uval(k.val("DMXOffset"))), "SetDmxAddress"); must(b->SetDmxBreak((Sint32) ival(k.val("DMXBreak"))), "SetDmxBreak"); } }
			else if (k.name == "Protocol") { IGdtfLaserProtocolPtr b; Given n = give(k.val("Name"), true); must(p->CreateLaserProtocol(n.text.c_str(), &b), "CreateLaserProtocol"); named(b, n, k.val("Name")); }
			else if (k.name == "PinPatch") {}
			else geometry(k, p);
		}
	}
	struct ModeRefs { std::map<str, IGdtfDmxChannelPtr> chan; std::map<str, IGdtfDmxChannelFunctionPtr> fun; };
	void buildMode(const E& m)
	{
		IGdtfDmxModePtr md; must(f->CreateDmxMode((dress ? dress(m.val("Name")) : m.val("Name")).c_str(), &md), "CreateDmxMode"); mode[m.val("Name")] = md;
		if (defaults || !m.val("Description").empty()) must(md->SetDescription(m.val("Description").c_str()), "SetDescription");
		if (m.has("Geometry")) must(md->SetGeometry(ref(geo, m.val("Geometry"), "geometry")), "SetGeometry");
		ModeRefs R;
		for (auto& c : m.kid("DMXChannels")->kids) {
			IGdtfDmxChannelPtr ch; bool mid = this->mid(); IGdtfGeometry* on = ref(geo, c.val("Geometry"), "geometry"); must(md->CreateDmxChannel(mid ? (IGdtfGeometry*) geo.begin()->second : on, &ch), "CreateDmxChannel"); if (mid) must(ch->SetGeometry(on), "DmxChannel.SetGeometry");
			str brk = c.val("DMXBreak"); must(ch->SetDmxBreak(brk == "Overwrite" ? 0 : (Sint32) ival(brk)), "SetDmxBreak");
			int n = 0; int o[4] = {0}; sscanf(c.val("Offset").c_str(), "%d,%d,%d,%d", o, o + 1, o + 2, o + 3); n = offCount(c.val("Offset"));
			if (n > 0) must(ch->SetCoarse(o[0]), "SetCoarse"); if (n > 1) must(ch->SetFine(o[1]), "SetFine"); if (n > 2) must(ch->SetUltra(o[2]), "SetUltra"); if (n > 3) must(ch->SetUber(o[3]), "SetUber");
			if (c.val("Highlight") != "None") must(ch->SetHighlight(dmxVal(c.val("Highlight"))), "SetHighlight");
			str cn = chanName(c); R.chan[cn] = ch;
			for (auto& l : c.kids) {
				IGdtfDmxLogicalChannelPtr lc; bool mid = this->mid(); IGdtfAttribute* of = ref(attr, l.val("Attribute"), "attribute"); must(ch->CreateLogicalChannel(mid ? (IGdtfAttribute*) attr.begin()->second : of, &lc), "CreateLogicalChannel"); if (mid) must(lc->SetAttribute(of), "LogicalChannel.SetAttribute");
				setAll(logTab(), (IGdtfDmxLogicalChannel*) lc, l, defaults);
				for (size_t i = 0; i < l.kids.size(); i++) {
					const E& fe = l.kids[i]; IGdtfDmxChannelFunctionPtr fn; must(lc->CreateDmxFunction(fe.val("Name").c_str(), &fn), "CreateDmxFunction");
					R.fun[cn + "." + l.val("Attribute") + "." + funName(fe, i)] = fn;
					must(fn->SetStartAddress(dmxVal(fe.val("DMXFrom"))), "SetStartAddress"); must(fn->SetDefaultValue(dmxVal(fe.val("Default"))), "SetDefaultValue");
					must(fn->SetAttribute(ref(attr, fe.val("Attribute"), "attribute")), "SetAttribute");
					setAll(funTab(), (IGdtfDmxChannelFunction*) fn, fe, defaults);
					if (fe.has("Wheel")) must(fn->SetOnWheel(ref(wheel, fe.val("Wheel"), "wheel")), "SetOnWheel");
					if (fe.has("Emitter")) must(fn->SetEmitter(ref(emit, fe.val("Emitter"), "emitter")), "SetEmitter");
					if (fe.has("Filter")) must(fn->SetFilter(ref(filter, fe.val("Filter"), "filter")), "SetFilter");
					if (fe.has("ColorSpace")) must(fn->SetColorSpace(ref(cs, fe.val("ColorSpace"), "color space")), "SetColorSpace");
					if (fe.has("Gamut")) must(fn->SetGamut(ref(gamut, fe.val("Gamut"), "gamut")), "SetGamut");
					if (fe.has("DMXProfile")) must(fn->SetDMXProfile(ref(prof, fe.val("DMXProfile"), "profile")), "SetDMXProfile");
					for (auto& s : fe.kids) {
						if (s.name == "ChannelSet") {
							IGdtfDmxChannelSetPtr cs; must(fn->CreateDmxChannelSet((dress ? dress(s.val("Name")) : s.val("Name")).c_str(), dmxVal(s.val("DMXFrom")), uval(s.val("~End")), &cs), "CreateDmxChannelSet");
							if (s.has("PhysicalFrom")) { must(cs->SetPhysicalStart(dval(s.val("PhysicalFrom"))), "SetPhysicalStart"); must(cs->SetPhysicalEnd(dval(s.val("PhysicalTo"))), "SetPhysicalEnd"); }
							if (defaults || s.val("WheelSlotIndex") != "0") must(cs->SetWheelSlot((Sint32) ival(s.val("WheelSlotIndex"))), "SetWheelSlot");
						}
						else {
							IGdtfDmxSubChannelSetPtr ss; IGdtfSubPhysicalUnit* su = s.has("SubPhysicalUnit") ? (IGdtfSubPhysicalUnit*) ref(subUnit, fe.val("Attribute") + "|" + s.val("SubPhysicalUnit"), "sub unit") : nullptr;
							Given n = give(s.val("Name"), true); bool mid = su && subUnit.size() > 1 && this->mid(); must(fn->CreateDmxSubChannelSet(n.text.c_str(), mid ? (IGdtfSubPhysicalUnit*) subUnit.begin()->second : su, &ss), "CreateDmxSubChannelSet"); if (mid) must(ss->SetSubPhysicalUnit(su), "SetSubPhysicalUnit"); named(ss, n, s.val("Name"));
							setAll(subSetTab(), (IGdtfDmxSubChannelSet*) ss, s, true);
							if (s.has("DMXProfile")) must(ss->SetDMXProfile(ref(prof, s.val("DMXProfile"), "profile")), "SetDMXProfile");
						}
					}
				}
			}
			tick();
		}
		for (auto& c : m.kid("DMXChannels")->kids) {
			str cn = chanName(c);
			if (c.has("InitialFunction")) must(R.chan[cn]->SetInitialFunction(ref(R.fun, c.val("InitialFunction"), "function")), "SetInitialFunction");
			for (auto& l : c.kids) for (size_t i = 0; i < l.kids.size(); i++) {
				const E& fe = l.kids[i]; if (!fe.has("ModeMaster")) continue;
				auto fn = R.fun[cn + "." + l.val("Attribute") + "." + funName(fe, i)]; str mm = fe.val("ModeMaster"); uint64_t a = dmxVal(fe.val("ModeFrom")), b = dmxVal(fe.val("ModeTo"));
				if (R.chan.count(mm)) must(fn->SetModeMasterChannel(R.chan[mm], a, b), "SetModeMasterChannel");
				else must(fn->SetModeMasterFunction(ref(R.fun, mm, "function"), a, b), "SetModeMasterFunction");
			}
		}
		for (auto& r : m.kid("Relations")->kids) { IGdtfDmxRelationPtr rel; must(md->CreateDmxRelation(r.val("Name").c_str(), (EGdtfDmxRelationType) enumOf(eRelation, r.val("Type")), ref(R.chan, r.val("Master"), "channel"), ref(R.fun, r.val("Follower"), "function"), &rel), "CreateDmxRelation"); }
		for (auto& mc : m.kid("FTMacros")->kids) {
			IGdtfMacroPtr mp; Given n = give(mc.val("Name"), false); must(md->CreateDmxMacro(n.text.c_str(), &mp), "CreateDmxMacro"); named(mp, n, mc.val("Name"));
			if (mc.has("ChannelFunction")) must(mp->SetChannelFunction(ref(R.fun, mc.val("ChannelFunction"), "function")), "SetChannelFunction");
			if (auto dm = mc.kid("MacroDMX")) {
				IGdtfMacroDMXPtr d; must(mp->CreateMacroDMX(&d), "CreateMacroDMX");
				for (auto& st : dm->kids) {
					IGdtfMacroDMXStepPtr sp; double du = dval(st.val("Duration")); must(d->CreateStep(du, &sp), "CreateStep");
					for (auto& v : st.kids) { IGdtfMacroDMXValuePtr vv; must(sp->CreateDMXValue(dmxVal(v.val("Value")), ref(R.chan, v.val("DMXChannel"), "channel"), &vv), "CreateDMXValue"); }
				}
			}
			if (auto vm = mc.kid("MacroVisual")) {
				IGdtfMacroVisualPtr d; must(mp->CreateMacroVisual(&d), "CreateMacroVisual");
				for (auto& st : vm->kids) {
					IGdtfMacroVisualStepPtr sp; must(d->CreateVisualStep(&sp), "CreateVisualStep"); setAll(visStepTab(), (IGdtfMacroVisualStep*) sp, st, defaults);
					for (auto& v : st.kids) { IGdtfMacroVisualValuePtr vv; bool mid = this->mid(); IGdtfDmxChannelFunction* fn = ref(R.fun, v.val("ChannelFunction"), "function"); must(sp->CreateVisualValue(mid ? 1 : dmxVal(v.val("Value")), mid ? (IGdtfDmxChannelFunction*) R.fun.begin()->second : fn, &vv), "CreateVisualValue"); if (mid) { must(vv->SetDmxChannel(fn), "SetDmxChannel"); must(vv->SetDmxValue(dmxVal(v.val("Value"))), "SetDmxValue"); } }
				}
			}
		}
	}
	void measurements(const E& e, bool isFilter, std::function<int(IGdtfMeasurement**)> create)
	{
		for (auto& m : e.kids) {
			IGdtfMeasurementPtr mp; must(create(&mp), "CreateMeasurement"); setAll(measTab(isFilter), (IGdtfMeasurement*) mp, m, defaults);
			for (auto& p : m.kids) { IGdtfMeasurementPointPtr pp; must(mp->CreateMeasurementPoint(&pp), "CreateMeasurementPoint"); setAll(mpTab(), (IGdtfMeasurementPoint*) pp, p, defaults); }
		}
	}
	// everything below FixtureType (name, manufacturer and id are given to OpenForWrite)
	void run(const E& t)
	{
		setAll(fixTab(), f, t, defaults);
		if (t.has("RefFT") && !t.val("RefFT").empty()) { MvrUUID u = uuidOf(t.val("RefFT")); must(f->SetLinkedFixtureGUID(u), "SetLinkedFixtureGUID"); }
		const E& ad = *t.kid("AttributeDefinitions");
		for (auto& g : ad.kid("ActivationGroups")->kids) { IGdtfActivationGroupPtr p; must(f->CreateActivationGroup((dress ? dress(g.val("Name")) : g.val("Name")).c_str(), &p), "CreateActivationGroup"); act[g.val("Name")] = p; }
		for (auto& g : ad.kid("FeatureGroups")->kids) {
			IGdtfFeatureGroupPtr p; bool mid = this->mid(); must(f->CreateFeatureGroup(g.val("Name").c_str(), mid ? "interim" : g.val("Pretty").c_str(), &p), "CreateFeatureGroup"); if (mid) must(p->SetPrettyName(g.val("Pretty").c_str()), "SetPrettyName");
			for (auto& x : g.kids) { IGdtfFeaturePtr q; Given n = give(x.val("Name"), true); must(p->CreateFeature(n.text.c_str(), &q), "CreateFeature"); named(q, n, x.val("Name")); feat[g.val("Name") + "." + x.val("Name")] = q; }
		}
		for (auto& a : ad.kid("Attributes")->kids) {
			IGdtfAttributePtr p; must(f->CreateAttribute(a.val("Name").c_str(), a.val("Pretty").c_str(), &p), "CreateAttribute"); attr[a.val("Name")] = p;
			if (a.has("ActivationGroup")) must(p->SetActivationGroup(ref(act, a.val("ActivationGroup"), "activation group")), "SetActivationGroup");
			if (a.has("Feature")) must(p->SetFeature(ref(feat, a.val("Feature"), "feature")), "SetFeature");
			if (defaults || a.val("PhysicalUnit") != "None") must(p->SetPhysicalUnit((EGdtfPhysicalUnit) enumOf(ePhysUnit, a.val("PhysicalUnit"))), "SetPhysicalUnit");
			if (a.has("Color")) must(p->SetColor(toCol(a.val("Color"))), "SetColor");
			for (auto& s : a.kids) { IGdtfSubPhysicalUnitPtr q; EGdtfSubPhysicalUnitType type = (EGdtfSubPhysicalUnitType) enumOf(eSubType, s.val("Type")); bool mid = this->mid(); must(p->CreateSubPhysicalUnit(mid ? (EGdtfSubPhysicalUnitType) ((int) type ? 0 : 1) : type, &q), "CreateSubPhysicalUnit"); if (mid) must(q->SetType(type), "SetType"); setAll(subUnitTab(), (IGdtfSubPhysicalUnit*) q, s, true); subUnit[a.val("Name") + "|" + s.val("Type")] = q; }
			tick();
		}
		for (auto& a : ad.kid("Attributes")->kids) if (a.has("MainAttribute")) must(attr[a.val("Name")]->SetMainAttribute(ref(attr, a.val("MainAttribute"), "attribute")), "SetMainAttribute");
		const E& pd = *t.kid("PhysicalDescriptions");
		for (auto& x : pd.kid("Filters")->kids) { IGdtfFilterPtr p; Given n = give(x.val("Name"), false); must(f->CreateFilter(n.text.c_str(), toCol(x.val("Color")), &p), "CreateFilter"); named(p, n, x.val("Name")); filter[x.val("Name")] = p; measurements(x, true, [&](IGdtfMeasurement** o) { return p->CreateMeasurement(o); }); }
		for (auto& x : pd.kid("Emitters")->kids) { IGdtfPhysicalEmitterPtr p; Given n = give(x.val("Name"), false); must(f->CreateEmitter(n.text.c_str(), toCol(x.val("Color")), &p), "CreateEmitter"); named(p, n, x.val("Name")); emit[x.val("Name")] = p; setAll(emitTab(), (IGdtfPhysicalEmitter*) p, x, defaults); measurements(x, false, [&](IGdtfMeasurement** o) { return p->CreateMeasurement(o); }); }
		auto fillCs = [&](IGdtfColorSpace* p, const E& x) {
			must(p->SetColorSpace((EGdtfColorSpace) enumOf(eSpace, x.val("Mode"))), "SetColorSpace"); if (x.val("Mode") == "Custom") setAll(csTab(), p, x, true);
		};
		if (auto x = pd.kid("ColorSpace")) { IGdtfColorSpacePtr p; must(f->GetColorSpace(&p), "GetColorSpace"); must(p->SetName(x->val("Name").c_str()), "ColorSpace.SetName"); fillCs(p, *x); if (!x->val("Name").empty()) cs[x->val("Name")] = p; }
		for (auto& x : pd.kid("AdditionalColorSpaces")->kids) { IGdtfColorSpacePtr p; Given n = give(x.val("Name"), false); must(f->CreateAdditionalColorSpace(n.text.c_str(), (EGdtfColorSpace) enumOf(eSpace, x.val("Mode")), &p), "CreateAdditionalColorSpace"); named(p, n, x.val("Name")); fillCs(p, x); cs[x.val("Name")] = p; }
		for (auto& x : pd.kid("Gamuts")->kids) {
			auto pts = gamutPoints(x.val("Points")); IGdtfGamutPtr p; Given n = give(x.val("Name"), false); must(f->CreateGamut(n.text.c_str(), toCol(pts.at(0)), &p), "CreateGamut"); named(p, n, x.val("Name")); gamut[x.val("Name")] = p;
			for (size_t i = 1; i < pts.size(); i++) { CieColor c = toCol(pts[i]); must(p->CreatePoint(c), "CreatePoint"); }
		}
		for (auto& x : pd.kid("DMXProfiles")->kids) { IGdtfDMXProfilePtr p; must(f->CreateDMXProfile(&p), "CreateDMXProfile"); named(p, Given{"", true}, x.val("Name")); prof[x.val("Name")] = p;
			for (auto& q : x.kids) { IGdtfPointPtr pt; double v[5] = {dval(q.val("DMXPercentage")), dval(q.val("CFC3")), dval(q.val("CFC2")), dval(q.val("CFC1")), dval(q.val("CFC0"))};
				if (!mid()) must(p->CreatePoint(v[0], v[1], v[2], v[3], v[4], &pt), "CreatePoint");
				else { must(p->CreatePoint(-1, -2, -3, -4, -5, &pt), "CreatePoint"); must(pt->SetCFC0(v[4]), "SetCFC0"); must(pt->SetCFC1(v[3]), "SetCFC1"); must(pt->SetCFC2(v[2]), "SetCFC2"); must(pt->SetCFC3(v[1]), "SetCFC3"); must(pt->SetDMXPercentage(v[0]), "SetDMXPercentage"); } } }
		for (auto& x : pd.kid("CRIs")->kids) { IGdtfCRIGroupPtr p; bool mid = this->mid(); must(f->CreateCRIGroup(mid ? 1 : dval(x.val("ColorTemperature")), &p), "CreateCRIGroup"); if (mid) must(p->SetColorTemperature(dval(x.val("ColorTemperature"))), "SetColorTemperature");
			for (auto& q : x.kids) { IGdtfCRIPtr c; bool mid = this->mid(); EGdtfColorSample ces = (EGdtfColorSample)(atoi(q.val("CES").c_str() + 3) - 1); must(p->CreateCRI(mid ? (EGdtfColorSample) 98 : ces, mid ? 77 : (Sint32) ival(q.val("ColorRenderingIndex")), &c), "CreateCRI"); if (mid) { must(c->SetColorSample(ces), "SetColorSample"); must(c->SetColorRenderingIndex((Uint8) ival(q.val("ColorRenderingIndex"))), "SetColorRenderingIndex"); } } }
		for (auto& x : pd.kid("Connectors")->kids) { IGdtfConnectorPtr p; Given n = give(x.val("Name"), false); must(f->CreateConnector(n.text.c_str(), x.val("Type").c_str(), &p), "CreateConnector"); named(p, n, x.val("Name")); setAll(connTab(), (IGdtfConnector*) p, x, defaults); }
		{ E tmp("Properties"); const E& pr = *pd.kid("Properties"); for (auto& a : propTab()) { size_t d = a.name.find('.'); tmp.set(a.name, pr.kid(a.name.substr(0, d))->val(a.name.substr(d + 1))); } setAll(propTab(), f, tmp, defaults); }
		tick();
		for (auto& w : t.kid("Wheels")->kids) {
			IGdtfWheelPtr p; must(f->CreateWheel((dress ? dress(w.val("Name")) : w.val("Name")).c_str(), &p), "CreateWheel"); wheel[w.val("Name")] = p;
			for (auto& s : w.kids) {
				IGdtfWheelSlotPtr q; Given n = give(s.val("Name"), true); must(p->CreateWheelSlot(n.text.c_str(), &q), "CreateWheelSlot"); named(q, n, s.val("Name"), false); setAll(slotTab(), (IGdtfWheelSlot*) q, s, defaults);
				if (s.has("Filter")) must(q->SetFilter(ref(filter, s.val("Filter"), "filter")), "SetFilter");
				for (auto& k : s.kids) {
					if (k.name == "Facet") { IGdtfWheelSlotPrismFacetPtr fa; STransformMatrix m = toMat(k.val("~Rotation")); bool mid = this->mid(); STransformMatrix other = toMat("{0,1,0,0}{1,0,0,0}{0,0,1,0}{0,0,0,1}"); must(q->CreatePrismFacet(mid ? other : m, &fa), "CreatePrismFacet"); if (mid) must(fa->SetTransformMatrix(m), "Facet.SetTransformMatrix"); if (defaults || k.val("Color") != kWhite) must(fa->SetColor(toCol(k.val("Color"))), "Facet.SetColor"); }
					else { IGdtfWheelSlotAnimationSystemPtr an; double v[7] = {dval(k.val("~P1X")), dval(k.val("~P1Y")), dval(k.val("~P2X")), dval(k.val("~P2Y")), dval(k.val("~P3X")), dval(k.val("~P3Y")), dval(k.val("Radius"))};
						if (!mid()) must(q->CreateAnimationSystem(v[0], v[1], v[2], v[3], v[4], v[5], v[6], &an), "CreateAnimationSystem");
						else { must(q->CreateAnimationSystem(-1, -2, -3, -4, -5, -6, -7, &an), "CreateAnimationSystem"); must(an->SetP1_X(v[0]), "SetP1_X"); must(an->SetP1_Y(v[1]), "SetP1_Y"); must(an->SetP2_X(v[2]), "SetP2_X"); must(an->SetP2_Y(v[3]), "SetP2_Y"); must(an->SetP3_X(v[4]), "SetP3_X"); must(an->SetP3_Y(v[5]), "SetP3_Y"); must(an->SetRadius(v[6]), "SetRadius"); } }
				}
			}
			tick();
		}
		for (auto& x : t.kid("Models")->kids) { IGdtfModelPtr p; Given n = give(x.val("Name"), false); must(f->CreateModel(n.text.c_str(), &p), "CreateModel"); named(p, n, x.val("Name")); model[x.val("Name")] = p; setAll(modelTab(), (IGdtfModel*) p, x, defaults); }
		for (auto& g : t.kid("Geometries")->kids) geometry(g, nullptr);
		for (auto& g : t.kid("Geometries")->kids) geometryLinks(g);
		for (auto& m : t.kid("DMXModes")->kids) buildMode(m);
		for (auto& r : t.kid("Revisions")->kids) {
			STime d; int y = 0, mo = 0, da = 0, h = 0, mi = 0, se = 0; sscanf(r.val("Date").c_str(), "%d-%d-%dT%d:%d:%d", &y, &mo, &da, &h, &mi, &se);
			d.fYear = y; d.fMonth = mo; d.fDay = da; d.fHour = h; d.fMinute = mi; d.fSecond = se;
			IGdtfRevisionPtr p; bool mid = this->mid(); STime other; other.fYear = 1999; other.fMonth = 12; other.fDay = 31; other.fHour = 23; other.fMinute = 59; other.fSecond = 58; must(f->CreateRevision(mid ? "interim" : r.val("Text").c_str(), mid ? other : d, &p), "CreateRevision"); if (mid) { must(p->SetDate(d), "SetDate"); must(p->SetText(r.val("Text").c_str()), "SetText"); } if (defaults || r.val("UserID") != "0") must(p->SetUserId(uval(r.val("UserID"))), "SetUserId"); must(p->SetModifiedBy(r.val("ModifiedBy").c_str()), "SetModifiedBy");
		}
		const E& pr = *t.kid("Protocols");
		if (auto r = pr.kid("FTRDM")) {
			IGdtfTRDMPtr p; must(f->CreateRDM(&p), "CreateRDM"); must(p->SetManufacturerID(strtoull(r->val("ManufacturerID").c_str(), nullptr, 16)), "SetManufacturerID"); must(p->SetDeviceModelID(strtoull(r->val("DeviceModelID").c_str(), nullptr, 16)), "SetDeviceModelID");
			for (auto& s : r->kids) { IGdtfSoftwareVersionIDPtr q; bool mid = this->mid(); size_t val = strtoull(s.val("Value").c_str(), nullptr, 16); must(p->CreateSoftwareVersionID(mid ? 4711 : val, &q), "CreateSoftwareVersionID"); if (mid) must(q->SetValue(val), "SoftwareVersionID.SetValue");
				for (auto& d : s.kids) { IGdtfDMXPersonalityPtr z; bool mid = this->mid(); size_t val = strtoull(d.val("Value").c_str(), nullptr, 16); IGdtfDmxMode* md = ref(mode, d.val("DMXMode"), "mode"); must(q->CreateDMXPersonality(mid ? 4712 : val, mid ? (IGdtfDmxMode*) mode.begin()->second : md, &z), "CreateDMXPersonality"); if (mid) { must(z->SetDmxMode(md), "SetDmxMode"); must(z->SetValue(val), "DMXPersonality.SetValue"); } } }
		}
		if (auto r = pr.kid("Art-Net")) { IGdtfArtNetPtr p; must(f->CreateArtNet(&p), "CreateArtNet"); for (auto& k : r->kids) { IGdtfMapPtr q; bool mid = this->mid(); must(p->CreateMap(mid ? 4713 : (Uint32) uval(k.val("Key")), mid ? 4714 : (Uint32) uval(k.val("Value")), &q), "CreateMap"); if (mid) { must(q->SetValue((Uint32) uval(k.val("Value"))), "Map.SetValue"); must(q->SetKey((Uint32) uval(k.val("Key"))), "Map.SetKey"); } } }
		if (auto r = pr.kid("sACN")) { IGdtfSACNPtr p; must(f->CreateSACN(&p), "CreateSACN"); for (auto& k : r->kids) { IGdtfMapPtr q; bool mid = this->mid(); must(p->CreateMap(mid ? 4713 : (Uint32) uval(k.val("Key")), mid ? 4714 : (Uint32) uval(k.val("Value")), &q), "CreateMap"); if (mid) { must(q->SetValue((Uint32) uval(k.val("Value"))), "Map.SetValue"); must(q->SetKey((Uint32) uval(k.val("Key"))), "Map.SetKey"); } } }
		for (auto& l : later) { l(); tick(); }
		later.clear();
	}
	static std::vector<str> gamutPoints(const str& t)
	{
		std::vector<str> o; size_t p = 0; while ((p = t.find('{', p)) != str::npos) { size_t e = t.find('}', p); o.push_back(t.substr(p + 1, e - p - 1)); p = e; } return o;
	}
	static MvrUUID uuidOf(const str& t)
	{
		str h; for (char c : t) if (isxdigit((unsigned char) c)) h += c;
		unsigned w[4]; for (int i = 0; i < 4; i++) w[i] = __builtin_bswap32((unsigned) strtoul(h.substr(8 * i, 8).c_str(), nullptr, 16));   // the parts hold the bytes of the text form, first byte lowest
		return MvrUUID(w[0], w[1], w[2], w[3]);
	}
};
static inline str uuidText(MvrUUID u)
{
	u.a = __builtin_bswap32(u.a); u.b = __builtin_bswap32(u.b); u.c = __builtin_bswap32(u.c); u.d = __builtin_bswap32(u.d);
	return fmt("%08X-%04X-%04X-%04X-%04X%08X", u.a, u.b >> 16, u.b & 0xffff, u.c >> 16, u.c & 0xffff, u.d);
}

// --- dumping ------------------------------------------------------------------------------------
struct Dump {
	IGdtfFixture* f = nullptr;
	bool read = true;                      // the fixture was read (not being built)
	str modeKey;
	// names of linked objects
	template <class P> void linkName(E& e, const char* n, int rc, P& p) { if (rc == kVCOMError_NoError) { if (!p) throw vp::Fail{"link-null", e.name + "." + n + ": success without an object"}; e.set(n, S(p->GetName())); } }
	str attrName(IGdtfDmxLogicalChannel* l) { IGdtfAttributePtr a; if (l->GetAttribute(&a)) return "?"; return S(a->GetName()); }
	str chanPath(IGdtfDmxChannel* c)
	{
		IGdtfGeometryPtr g; str n = c->GetGeometry(&g) ? str() : S(g->GetName()); size_t k = 0; must(c->GetLogicalChannelCount(k), "GetLogicalChannelCount");
		n += "_"; if (k) { IGdtfDmxLogicalChannelPtr l; must(c->GetLogicalChannelAt(0, &l), "GetLogicalChannelAt"); n += attrName(l); } return n;
	}
	str funPath(IGdtfDmxChannelFunction* x)
	{
		IGdtfDmxLogicalChannelPtr l; must(x->GetParentLogicalChannel(&l), "GetParentLogicalChannel"); IGdtfDmxChannelPtr c; must(l->GetParentDmxChannel(&c), "GetParentDmxChannel");
		str n = S(x->GetName());
		if (n.empty()) {
			// unnamed: identify by position (marking the object through its bound pointer)
			size_t k = 0; must(l->GetDmxFunctionCount(k), "GetDmxFunctionCount"); void* old = x->GetBoundObject(); static int mark; must(x->BindToObject(&mark), "BindToObject");
			for (size_t i = 0; i < k; i++) { IGdtfDmxChannelFunctionPtr y; must(l->GetDmxFunctionAt(i, &y), "GetDmxFunctionAt"); if (y->GetBoundObject() == &mark) { IGdtfAttributePtr a; must(x->GetAttribute(&a), "GetAttribute"); n = S(a->GetName()) + fmt(" %zu", i + 1); break; } }
			must(x->BindToObject(old), "BindToObject");
		}
		return chanPath(c) + "." + attrName(l) + "." + n;
	}
	bool valid(IGdtfDmxChannel* x) { EGdtfChannelBitResolution r; return x && x->GetResolution(r) == 0; }
	bool valid(IGdtfDmxChannelFunction* x) { DmxValue v; return x && x->GetStartAddress(v) == 0; }

	void geometry(IGdtfGeometry* g, E& out, int depth = 0)
	{
		EGdtfObjectType t = (EGdtfObjectType) 0; must(g->GetGeometryType(t), "GetGeometryType"); E& e = out.add(enumText(eGeoType, (int) t));
		e.set("Name", S(g->GetName())); STransformMatrix m; must(g->GetTransformMatrix(m), "GetTransformMatrix"); e.set("~Position", matText(m));
		{ IGdtfModelPtr p; int rc = g->GetModel(&p); linkName(e, "Model", rc, p); }
		getAll(geoTab(e.name), g, e);
		if (e.name == "Support") { SVector3 v; must(g->GetRopeOffset(v), "GetRopeOffset"); e.set("~RopeOffset", dtext(v.x) + " " + dtext(v.y) + " " + dtext(v.z)); }
		if (e.name == "Beam") { IGdtfPhysicalEmitterPtr p; int rc = g->GetEmitterSpectrum(&p); linkName(e, "EmitterSpectrum", rc, p); }
		if (e.name == "Laser") {
			IGdtfPhysicalEmitterPtr p; int rc = g->GetEmitter(&p); linkName(e, "Emitter", rc, p);
			size_t n = 0; must(g->GetLaserProtocolCount(n), "GetLaserProtocolCount"); for (size_t i = 0; i < n; i++) { IGdtfLaserProtocolPtr q; must(g->GetLaserProtocolAt(i, &q), "GetLaserProtocolAt"); e.add("Protocol").set("Name", S(q->GetName())); }
		}
		if (e.name == "Structure") { IGdtfGeometryPtr p; int rc = g->GetStructureLinkedGeometry(&p); linkName(e, "LinkedGeometry", rc, p); }
		if (e.name == "WiringObject") {
			size_t n = 0; must(g->GetPinPatchCount(n), "GetPinPatchCount");
			for (size_t i = 0; i < n; i++) { IGdtfPinPatchPtr q; must(g->GetPinPatchAt(i, &q), "GetPinPatchAt"); E& k = e.add("PinPatch"); IGdtfGeometryPtr w; int rc = q->GetLinkedWiringObject(&w); linkName(k, "ToWiringObject", rc, w); size_t a = 7777, b = 7777; must(q->GetFromPin(a), "GetFromPin"); must(q->GetToPin(b), "GetToPin"); k.set("FromPin", utext(a)); k.set("ToPin", utext(b)); }
		}
		if (e.name == "GeometryReference") {
			IGdtfGeometryPtr p; int rc = g->GetGeometryReference(&p); linkName(e, "Geometry", rc, p);
			size_t n = 0; must(g->GetBreakCount(n), "GetBreakCount");
			for (size_t i = 0; i < n; i++) { IGdtfBreakPtr b; must(g->GetBreakAt(i, &b), "GetBreakAt"); Sint32 br = -7; DMXAddress ad = 0; must(b->GetDmxBreak(br), "GetDmxBreak"); must(b->GetDmxAddress(ad), "GetDmxAddress"); E& k = e.add("Break"); k.set("DMXBreak", itext(br)); k.set("DMXOffset", utext(ad)); }
		}
		if (depth > 3000) throw vp::Fail{"geometry-depth", "endless geometry nesting"};
		size_t n = 0; must(g->GetInternalGeometryCount(n), "GetInternalGeometryCount");
		for (size_t i = 0; i < n; i++) {
			IGdtfGeometryPtr k; must(g->GetInternalGeometryAt(i, &k), "GetInternalGeometryAt");
			IGdtfGeometryPtr par; if (k->GetParent(&par) || S(par->GetName()) != e.val("Name")) throw vp::Fail{"geometry-parent", "geometry " + S(k->GetName()) + ": wrong parent"};
			geometry(k, e, depth + 1);
		}
	}
	void dumpMode(IGdtfDmxMode* md, E& out)
	{
		E& m = out.add("DMXMode"); m.set("Name", S(md->GetName())); m.set("Description", S(md->GetDescription()));
		{ IGdtfGeometryPtr g; int rc = md->GetGeometry(&g); linkName(m, "Geometry", rc, g); }
		E chans("DMXChannels"), rels("Relations"), macs("FTMacros");
		size_t n = 0; must(md->GetDmxChannelCount(n), "GetDmxChannelCount");
		for (size_t i = 0; i < n; i++) {
			IGdtfDmxChannelPtr ch; must(md->GetDmxChannelAt(i, &ch), "GetDmxChannelAt"); E& c = chans.add("DMXChannel");
			Sint32 br = -7, o[4] = {-7, -7, -7, -7}; must(ch->GetDmxBreak(br), "GetDmxBreak"); must(ch->GetCoarse(o[0]), "GetCoarse"); must(ch->GetFine(o[1]), "GetFine"); must(ch->GetUltra(o[2]), "GetUltra"); must(ch->GetUber(o[3]), "GetUber");
			c.set("DMXBreak", br == 0 ? str("Overwrite") : itext(br)); int k = 4; while (k && o[k - 1] == 0) k--; str off; for (int j = 0; j < k; j++) off += (j ? "," : "") + itext(o[j]); c.set("Offset", off);
			EGdtfChannelBitResolution r = (EGdtfChannelBitResolution) 9; must(ch->GetResolution(r), "GetResolution"); c.set("~Res", itext(r));
			bool hl = false; must(ch->HasHighlight(hl), "HasHighlight"); DmxValue hv = 0; must(ch->GetHighlight(hv), "GetHighlight"); c.set("Highlight", hl ? dmxText(hv, r) : "None");
			{ IGdtfGeometryPtr g; int rc = ch->GetGeometry(&g); linkName(c, "Geometry", rc, g); }
			{ IGdtfDmxChannelFunctionPtr fn; if (ch->GetInitialFunction(&fn) == 0 && valid(fn)) c.set("InitialFunction", funPath(fn)); }
			size_t ln = 0; must(ch->GetLogicalChannelCount(ln), "GetLogicalChannelCount");
			for (size_t j = 0; j < ln; j++) {
				IGdtfDmxLogicalChannelPtr lc; must(ch->GetLogicalChannelAt(j, &lc), "GetLogicalChannelAt"); E& l = c.add("LogicalChannel");
				{ IGdtfAttributePtr a; int rc = lc->GetAttribute(&a); linkName(l, "Attribute", rc, a); } getAll(logTab(), (IGdtfDmxLogicalChannel*) lc, l);
				size_t fnn = 0; must(lc->GetDmxFunctionCount(fnn), "GetDmxFunctionCount");
				for (size_t q = 0; q < fnn; q++) {
					IGdtfDmxChannelFunctionPtr fn; must(lc->GetDmxFunctionAt(q, &fn), "GetDmxFunctionAt"); E& fe = l.add("ChannelFunction");
					fe.set("Name", S(fn->GetName())); { IGdtfAttributePtr a; int rc = fn->GetAttribute(&a); linkName(fe, "Attribute", rc, a); }
					DmxValue a = 7, b = 7, d = 7; must(fn->GetStartAddress(a), "GetStartAddress"); must(fn->GetEndAddress(b), "GetEndAddress"); must(fn->GetDefaultValue(d), "GetDefaultValue");
					fe.set("DMXFrom", dmxText(a, r)); fe.set("~End", utext(b)); fe.set("Default", dmxText(d, r)); getAll(funTab(), (IGdtfDmxChannelFunction*) fn, fe);
					EGdtfChannelBitResolution fr = (EGdtfChannelBitResolution) 9; must(fn->GetResolution(fr), "Function.GetResolution"); if (fr != r) throw vp::Fail{"resolution", "function resolution differs from its channel's"};
					{ IGdtfWheelPtr p; int rc = fn->GetOnWheel(&p); linkName(fe, "Wheel", rc, p); } { IGdtfPhysicalEmitterPtr p; int rc = fn->GetEmitter(&p); linkName(fe, "Emitter", rc, p); } { IGdtfFilterPtr p; int rc = fn->GetFilter(&p); linkName(fe, "Filter", rc, p); }
					{ IGdtfColorSpacePtr p; int rc = fn->GetColorSpace(&p); linkName(fe, "ColorSpace", rc, p); } { IGdtfGamutPtr p; int rc = fn->GetGamut(&p); linkName(fe, "Gamut", rc, p); } { IGdtfDMXProfilePtr p; int rc = fn->GetDMXProfile(&p); linkName(fe, "DMXProfile", rc, p); }
					{
						IGdtfDmxChannelPtr mc; IGdtfDmxChannelFunctionPtr mf; DmxValue x = 7, y = 7; int rc = fn->GetModeMasterChannel(&mc, x, y), rf;
						if (rc == 0 && mc) { EGdtfChannelBitResolution mr; must(mc->GetResolution(mr), "GetResolution"); fe.set("ModeMaster", chanPath(mc)); fe.set("ModeFrom", dmxText(x, mr)); fe.set("ModeTo", dmxText(y, mr)); }
						x = y = 7; rf = fn->GetModeMasterFunction(&mf, x, y);
						if (rf == 0 && mf) { if (fe.has("ModeMaster")) throw vp::Fail{"mode-master", "two mode masters"}; EGdtfChannelBitResolution mr; must(mf->GetResolution(mr), "GetResolution"); fe.set("ModeMaster", funPath(mf)); fe.set("ModeFrom", dmxText(x, mr)); fe.set("ModeTo", dmxText(y, mr)); }
					}
					size_t sn = 0; must(fn->GetDmxChannelSetCount(sn), "GetDmxChannelSetCount");
					for (size_t z = 0; z < sn; z++) {
						IGdtfDmxChannelSetPtr cs; must(fn->GetDmxChannelSetAt(z, &cs), "GetDmxChannelSetAt"); E& se = fe.add("ChannelSet"); se.set("Name", S(cs->GetName()));
						DmxValue sa = 7, sb = 7; must(cs->GetDmxStartAddress(sa), "GetDmxStartAddress"); must(cs->GetDmxEndAddress(sb), "GetDmxEndAddress"); se.set("DMXFrom", dmxText(sa, r)); se.set("~End", utext(sb));
						bool use = false; must(cs->GetUsePhysicalFromParent(use), "GetUsePhysicalFromParent"); double p0 = kPoison, p1 = kPoison; must(cs->GetPhysicalStart(p0), "GetPhysicalStart"); must(cs->GetPhysicalEnd(p1), "GetPhysicalEnd");
						if (!use) { se.set("PhysicalFrom", dtext(p0)); se.set("PhysicalTo", dtext(p1)); }
						Sint32 w = -7; must(cs->GetWheelSlot(w), "GetWheelSlot"); se.set("WheelSlotIndex", itext(w));
					}
					must(fn->GetDmxSubChannelSetCount(sn), "GetDmxSubChannelSetCount");
					for (size_t z = 0; z < sn; z++) {
						IGdtfDmxSubChannelSetPtr ss; must(fn->GetDmxSubChannelSetAt(z, &ss), "GetDmxSubChannelSetAt"); E& se = fe.add("SubChannelSet"); se.set("Name", S(ss->GetName())); getAll(subSetTab(), (IGdtfDmxSubChannelSet*) ss, se);
						{ IGdtfSubPhysicalUnitPtr p; if (ss->GetSubPhysicalUnit(&p) == 0 && p) { EGdtfSubPhysicalUnitType ty = (EGdtfSubPhysicalUnitType) 99; must(p->GetType(ty), "GetType"); se.set("SubPhysicalUnit", enumText(eSubType, (int) ty)); E u("u"); getAll(subUnitTab(), (IGdtfSubPhysicalUnit*) p, u); se.set("~Unit", u.val("PhysicalUnit") + " " + u.val("PhysicalFrom") + " " + u.val("PhysicalTo")); } }
						{ IGdtfDMXProfilePtr p; int rc = ss->GetDMXProfile(&p); linkName(se, "DMXProfile", rc, p); }
					}
				}
			}
		}
		must(md->GetDmxRelationCount(n), "GetDmxRelationCount");
		for (size_t i = 0; i < n; i++) {
			IGdtfDmxRelationPtr r; must(md->GetDmxRelationAt(i, &r), "GetDmxRelationAt"); E& e = rels.add("Relation"); e.set("Name", S(r->GetName()));
			IGdtfDmxChannelPtr mc; if (r->GetMasterChannel(&mc) == 0 && valid(mc)) e.set("Master", chanPath(mc)); IGdtfDmxChannelFunctionPtr sf; if (r->GetSlaveChannel(&sf) == 0 && valid(sf)) e.set("Follower", funPath(sf));
			EGdtfDmxRelationType t = (EGdtfDmxRelationType) 99; must(r->GetRelationType(t), "GetRelationType"); e.set("Type", enumText(eRelation, t));
		}
		must(md->GetDmxMacroCount(n), "GetDmxMacroCount");
		for (size_t i = 0; i < n; i++) {
			IGdtfMacroPtr mp; must(md->GetDmxMacroAt(i, &mp), "GetDmxMacroAt"); E& e = macs.add("FTMacro"); e.set("Name", S(mp->GetName()));
			{ IGdtfDmxChannelFunctionPtr fn; if (mp->GetChannelFunction(&fn) == 0 && valid(fn)) e.set("ChannelFunction", funPath(fn)); }
			IGdtfMacroDMXPtr d;
			if (mp->GetMacroDMX(&d) == 0 && d) {
				E& de = e.add("MacroDMX"); size_t k = 0; must(d->GetStepCount(k), "GetStepCount");
				for (size_t j = 0; j < k; j++) { IGdtfMacroDMXStepPtr s; must(d->GetStepAt(j, &s), "GetStepAt"); E& se = de.add("MacroDMXStep"); double du = kPoison; must(s->GetDuration(du), "GetDuration"); se.set("Duration", dtext(du)); size_t vn = 0; must(s->GetDMXValueCount(vn), "GetDMXValueCount");
					for (size_t z = 0; z < vn; z++) { IGdtfMacroDMXValuePtr v; must(s->GetDMXValueAt(z, &v), "GetDMXValueAt"); E& ve = se.add("MacroDMXValue"); DmxValue x = 7; must(v->GetDmxValue(x), "GetDmxValue"); IGdtfDmxChannelPtr c; int r = 1; if (v->GetDmxChannel(&c) == 0 && valid(c)) { EGdtfChannelBitResolution br; must(c->GetResolution(br), "GetResolution"); r = br; ve.set("DMXChannel", chanPath(c)); } ve.set("Value", dmxText(x, r)); } }
			}
			IGdtfMacroVisualPtr v;
			if (mp->GetMacroVisual(&v) == 0 && v) {
				E& de = e.add("MacroVisual"); size_t k = 0; must(v->GetVisualStepCount(k), "GetVisualStepCount");
				for (size_t j = 0; j < k; j++) { IGdtfMacroVisualStepPtr s; must(v->GetVisualStepAt(j, &s), "GetVisualStepAt"); E& se = de.add("MacroVisualStep"); getAll(visStepTab(), (IGdtfMacroVisualStep*) s, se); size_t vn = 0; must(s->GetVisualValueCount(vn), "GetVisualValueCount");
					for (size_t z = 0; z < vn; z++) { IGdtfMacroVisualValuePtr w; must(s->GetVisualValueAt(z, &w), "GetVisualValueAt"); E& ve = se.add("MacroVisualValue"); DmxValue x = 7; must(w->GetDmxValue(x), "GetDmxValue"); IGdtfDmxChannelFunctionPtr c; int r = 1; if (w->GetDmxChannel(&c) == 0 && valid(c)) { EGdtfChannelBitResolution br; must(c->GetResolution(br), "GetResolution"); r = br; ve.set("ChannelFunction", funPath(c)); } ve.set("Value", dmxText(x, r)); } }
			}
		}
		m.kids.push_back(chans); m.kids.push_back(rels); m.kids.push_back(macs);
	}
	void measurement(IGdtfMeasurement* mp, bool isFilter, E& out)
	{
		E& m = out.add("Measurement"); getAll(measTab(isFilter), mp, m); size_t n = 0; must(mp->GetMeasurementPointCount(n), "GetMeasurementPointCount");
		for (size_t i = 0; i < n; i++) { IGdtfMeasurementPointPtr p; must(mp->GetMeasurementPointAt(i, &p), "GetMeasurementPointAt"); getAll(mpTab(), (IGdtfMeasurementPoint*) p, m.add("MeasurementPoint")); }
	}
	void colorSpace(IGdtfColorSpace* p, E& out)
	{
		E& e = out.add("ColorSpace"); e.set("Name", S(p->GetName())); EGdtfColorSpace m = (EGdtfColorSpace) 99; must(p->GetColorSpace(m), "GetColorSpace"); e.set("Mode", enumText(eSpace, (int) m)); getAll(csTab(), p, e);
	}
	E run()
	{
		E t("FixtureType"); t.set("Name", S(f->GetName())); t.set("Manufacturer", S(f->GetManufacturer())); MvrUUID u(0, 0, 0, 0); must(f->GetFixtureGUID(u), "GetFixtureGUID"); t.set("FixtureTypeID", uuidText(u));
		bool has = false; must(f->HasLinkedFixtureGUID(has), "HasLinkedFixtureGUID"); if (has) { must(f->GetLinkedFixtureGUID(u), "GetLinkedFixtureGUID"); t.set("RefFT", uuidText(u)); } else t.set("RefFT", "");
		getAll(fixTab(), f, t);
		E ad("AttributeDefinitions"), ag("ActivationGroups"), fg("FeatureGroups"), at("Attributes"); size_t n = 0;
		must(f->GetActivationGroupCount(n), "GetActivationGroupCount"); for (size_t i = 0; i < n; i++) { IGdtfActivationGroupPtr p; must(f->GetActivationGroupAt(i, &p), "GetActivationGroupAt"); ag.add("ActivationGroup").set("Name", S(p->GetName())); }
		must(f->GetFeatureGroupCount(n), "GetFeatureGroupCount");
		for (size_t i = 0; i < n; i++) { IGdtfFeatureGroupPtr p; must(f->GetFeatureGroupAt(i, &p), "GetFeatureGroupAt"); E& g = fg.add("FeatureGroup"); g.set("Name", S(p->GetName())); g.set("Pretty", S(p->GetPrettyName())); size_t k = 0; must(p->GetFeatureCount(k), "GetFeatureCount"); for (size_t j = 0; j < k; j++) { IGdtfFeaturePtr q; must(p->GetFeatureAt(j, &q), "GetFeatureAt"); g.add("Feature").set("Name", S(q->GetName())); IGdtfFeatureGroupPtr par; if (q->GetFeatureGroup(&par) || S(par->GetName()) != g.val("Name")) throw vp::Fail{"feature-group", "feature reports another group"}; } }
		must(f->GetAttributeCount(n), "GetAttributeCount");
		for (size_t i = 0; i < n; i++) {
			IGdtfAttributePtr p; must(f->GetAttributeAt(i, &p), "GetAttributeAt"); E& a = at.add("Attribute"); a.set("Name", S(p->GetName())); a.set("Pretty", S(p->GetPrettyName()));
			{ IGdtfActivationGroupPtr q; int rc = p->GetActivationGroup(&q); linkName(a, "ActivationGroup", rc, q); }
			{ IGdtfFeaturePtr q; if (p->GetFeature(&q) == 0) { IGdtfFeatureGroupPtr g; must(q->GetFeatureGroup(&g), "GetFeatureGroup"); a.set("Feature", S(g->GetName()) + "." + S(q->GetName())); } }
			{ IGdtfAttributePtr q; int rc = p->GetMainAttribute(&q); linkName(a, "MainAttribute", rc, q); }
			EGdtfPhysicalUnit un = (EGdtfPhysicalUnit) 99; must(p->GetPhysicalUnit(un), "GetPhysicalUnit"); a.set("PhysicalUnit", enumText(ePhysUnit, (int) un)); CieColor c; if (p->GetColor(c) == 0) a.set("Color", colText(c));
			size_t k = 0; must(p->GetSubPhysicalUnitCount(k), "GetSubPhysicalUnitCount");
			for (size_t j = 0; j < k; j++) { IGdtfSubPhysicalUnitPtr q; must(p->GetSubPhysicalUnitAt(j, &q), "GetSubPhysicalUnitAt"); E& s = a.add("SubPhysicalUnit"); EGdtfSubPhysicalUnitType ty = (EGdtfSubPhysicalUnitType) 99; must(q->GetType(ty), "GetType"); s.set("Type", enumText(eSubType, (int) ty)); getAll(subUnitTab(), (IGdtfSubPhysicalUnit*) q, s); }
		}
		ad.kids = {ag, fg, at};
		E wh("Wheels"); must(f->GetWheelCount(n), "GetWheelCount");
		for (size_t i = 0; i < n; i++) {
			IGdtfWheelPtr p; must(f->GetWheelAt(i, &p), "GetWheelAt"); E& w = wh.add("Wheel"); w.set("Name", S(p->GetName())); size_t k = 0; must(p->GetWheelSlotCount(k), "GetWheelSlotCount");
			for (size_t j = 0; j < k; j++) {
				IGdtfWheelSlotPtr q; must(p->GetWheelSlotAt(j, &q), "GetWheelSlotAt"); E& s = w.add("Slot"); s.set("Name", S(q->GetName())); getAll(slotTab(), (IGdtfWheelSlot*) q, s);
				{ IGdtfFilterPtr x; int rc = q->GetFilter(&x); linkName(s, "Filter", rc, x); }
				size_t fc = 0; must(q->GetPrismFacetCount(fc), "GetPrismFacetCount"); for (size_t z = 0; z < fc; z++) { IGdtfWheelSlotPrismFacetPtr x; size_t at = z; must(q->GetPrismFacetAt(at, &x), "GetPrismFacetAt"); E& fe = s.add("Facet"); CieColor c; c.fx = kPoison; must(x->GetColor(c), "Facet.GetColor"); fe.set("Color", colText(c)); STransformMatrix m; must(x->GetTransformMatrix(m), "Facet.GetTransformMatrix"); fe.set("~Rotation", matText(m)); }
				IGdtfWheelSlotAnimationSystemPtr an; if (q->GetAnimationSystem(&an) == 0 && an) getAll(animTab(), (IGdtfWheelSlotAnimationSystem*) an, s.add("AnimationSystem"));
			}
		}
		E pd("PhysicalDescriptions"); { IGdtfColorSpacePtr p; must(f->GetColorSpace(&p), "Fixture.GetColorSpace"); colorSpace(p, pd); }
		E acs("AdditionalColorSpaces"), gam("Gamuts"), fil("Filters"), emi("Emitters"), prf("DMXProfiles"), cri("CRIs"), con("Connectors"), pro("Properties");
		must(f->GetAdditionalColorSpaceCount(n), "GetAdditionalColorSpaceCount"); for (size_t i = 0; i < n; i++) { IGdtfColorSpacePtr p; must(f->GetAdditionalColorSpaceAt(i, &p), "GetAdditionalColorSpaceAt"); colorSpace(p, acs); }
		must(f->GetGamutCount(n), "GetGamutCount"); for (size_t i = 0; i < n; i++) { IGdtfGamutPtr p; must(f->GetGamutAt(i, &p), "GetGamutAt"); E& e = gam.add("Gamut"); e.set("Name", S(p->GetName())); size_t k = 0; must(p->GetPointCount(k), "GetPointCount"); str t2; for (size_t j = 0; j < k; j++) { CieColor c; c.fx = kPoison; must(p->GetPointAt(j, c), "GetPointAt"); t2 += "{" + colText(c) + "}"; } e.set("Points", t2); }
		must(f->GetFilterCount(n), "GetFilterCount"); for (size_t i = 0; i < n; i++) { IGdtfFilterPtr p; must(f->GetFilterAt(i, &p), "GetFilterAt"); E& e = fil.add("Filter"); e.set("Name", S(p->GetName())); getAll(filterTab(), (IGdtfFilter*) p, e); size_t k = 0; must(p->GetMeasurementCount(k), "GetMeasurementCount"); for (size_t j = 0; j < k; j++) { IGdtfMeasurementPtr q; must(p->GetMeasurementAt(j, &q), "GetMeasurementAt"); measurement(q, true, e); } }
		must(f->GetEmitterCount(n), "GetEmitterCount"); for (size_t i = 0; i < n; i++) { IGdtfPhysicalEmitterPtr p; must(f->GetEmitterAt(i, &p), "GetEmitterAt"); E& e = emi.add("Emitter"); e.set("Name", S(p->GetName())); getAll(emitTab(), (IGdtfPhysicalEmitter*) p, e); size_t k = 0; must(p->GetMeasurementCount(k), "GetMeasurementCount"); for (size_t j = 0; j < k; j++) { IGdtfMeasurementPtr q; must(p->GetMeasurementAt(j, &q), "GetMeasurementAt"); measurement(q, false, e); } }
		must(f->GetDMXProfileCount(n), "GetDMXProfileCount"); for (size_t i = 0; i < n; i++) { IGdtfDMXProfilePtr p; must(f->GetDMXProfileAt(i, &p), "GetDMXProfileAt"); E& e = prf.add("DMXProfile"); e.set("Name", S(p->GetName())); size_t k = 0; must(p->GetPointCount(k), "GetPointCount"); for (size_t j = 0; j < k; j++) { IGdtfPointPtr q; must(p->GetPointAt(j, &q), "GetPointAt"); getAll(pointTab(), (IGdtfPoint*) q, e.add("Point")); } }
		must(f->GetCRIGroupCount(n), "GetCRIGroupCount"); for (size_t i = 0; i < n; i++) { IGdtfCRIGroupPtr p; must(f->GetCRIGroupAt(i, &p), "GetCRIGroupAt"); E& e = cri.add("CRIGroup"); double ct = kPoison; must(p->GetColorTemperature(ct), "GetColorTemperature"); e.set("ColorTemperature", dtext(ct)); size_t k = 0; must(p->GetCRICount(k), "GetCRICount"); for (size_t j = 0; j < k; j++) { IGdtfCRIPtr q; must(p->GetCRIAt(j, &q), "GetCRIAt"); Uint8 v = 7; must(q->GetColorRenderingIndex(v), "GetColorRenderingIndex"); e.add("CRI").set("ColorRenderingIndex", utext(v)); } }
		must(f->GetConnectorCount(n), "GetConnectorCount"); for (size_t i = 0; i < n; i++) { IGdtfConnectorPtr p; must(f->GetConnectorAt(i, &p), "GetConnectorAt"); E& e = con.add("Connector"); e.set("Name", S(p->GetName())); getAll(connTab(), (IGdtfConnector*) p, e); }
		{ E tmp("Properties"); getAll(propTab(), f, tmp); for (auto& a : tmp.at) { size_t d = a.first.find('.'); pro.need(a.first.substr(0, d)).set(a.first.substr(d + 1), a.second); } }
		for (E* x : {&acs, &gam, &fil, &emi, &prf, &cri, &con, &pro}) pd.kids.push_back(*x);
		E mo("Models"); must(f->GetModelCount(n), "GetModelCount"); for (size_t i = 0; i < n; i++) { IGdtfModelPtr p; must(f->GetModelAt(i, &p), "GetModelAt"); E& e = mo.add("Model"); e.set("Name", S(p->GetName())); getAll(modelTab(), (IGdtfModel*) p, e); }
		E ge("Geometries"); must(f->GetGeometryCount(n), "GetGeometryCount"); for (size_t i = 0; i < n; i++) { IGdtfGeometryPtr p; must(f->GetGeometryAt(i, &p), "GetGeometryAt"); geometry(p, ge); }
		E dm("DMXModes"); must(f->GetDmxModeCount(n), "GetDmxModeCount"); for (size_t i = 0; i < n; i++) { IGdtfDmxModePtr p; must(f->GetDmxModeAt(i, &p), "GetDmxModeAt"); dumpMode(p, dm); }
		E re("Revisions"); must(f->GetRevisionCount(n), "GetRevisionCount");
		for (size_t i = 0; i < n; i++) { IGdtfRevisionPtr p; must(f->GetRevisionAt(i, &p), "GetRevisionAt"); E& e = re.add("Revision"); e.set("Text", S(p->GetText())); STime d; must(p->GetDate(d), "GetDate"); e.set("Date", fmt("%d-%02d-%02dT%02d:%02d:%02d", d.fYear, d.fMonth, d.fDay, d.fHour, d.fMinute, d.fSecond)); size_t id = 7777; must(p->GetUserId(id), "GetUserId"); e.set("UserID", utext(id)); e.set("ModifiedBy", S(p->GetModifiedBy())); }
		E pr("Protocols");
		{ IGdtfTRDMPtr p; size_t v = 7777; if (f->GetRDM(&p) == 0 && p && p->GetManufacturerID(v) == 0) { E& e = pr.add("FTRDM"); must(p->GetManufacturerID(v), "GetManufacturerID"); e.set("ManufacturerID", fmt("%zX", v)); must(p->GetDeviceModelID(v), "GetDeviceModelID"); e.set("DeviceModelID", fmt("%zX", v)); size_t k = 0; must(p->GetSoftwareVersionIDCount(k), "GetSoftwareVersionIDCount");
			for (size_t j = 0; j < k; j++) { IGdtfSoftwareVersionIDPtr q; must(p->GetSoftwareVersionIDAt(j, &q), "GetSoftwareVersionIDAt"); E& s = e.add("SoftwareVersionID"); must(q->GetValue(v), "GetValue"); s.set("Value", fmt("%zX", v)); size_t dn = 0; must(q->GetDMXPersonalityCount(dn), "GetDMXPersonalityCount");
				for (size_t z = 0; z < dn; z++) { IGdtfDMXPersonalityPtr x; must(q->GetDMXPersonalityAt(z, &x), "GetDMXPersonalityAt"); E& d = s.add("DMXPersonality"); must(x->GetValue(v), "GetValue"); d.set("Value", fmt("%zX", v)); IGdtfDmxModePtr m; int rc = x->GetDmxMode(&m); linkName(d, "DMXMode", rc, m); } } } }
		{ IGdtfArtNetPtr p; size_t mk = 0; if (f->GetArtNet(&p) == 0 && p && p->GetMapCount(mk) == 0) { E& e = pr.add("Art-Net"); size_t k = 0; must(p->GetMapCount(k), "GetMapCount"); for (size_t j = 0; j < k; j++) { IGdtfMapPtr q; must(p->GetMapAt(j, &q), "GetMapAt"); Uint32 v = 7777; must(q->GetKey(v), "GetKey"); E& m = e.add("Map"); m.set("Key", utext(v)); must(q->GetValue(v), "GetValue"); m.set("Value", utext(v)); } } }
		{ IGdtfSACNPtr p; size_t mk = 0; if (f->GetSACN(&p) == 0 && p && p->GetMapCount(mk) == 0) { E& e = pr.add("sACN"); size_t k = 0; must(p->GetMapCount(k), "GetMapCount"); for (size_t j = 0; j < k; j++) { IGdtfMapPtr q; must(p->GetMapAt(j, &q), "GetMapAt"); Uint32 v = 7777; must(q->GetKey(v), "GetKey"); E& m = e.add("Map"); m.set("Key", utext(v)); must(q->GetValue(v), "GetValue"); m.set("Value", utext(v)); } } }
		for (E* x : {&ad, &wh, &pd, &mo, &ge, &dm, &re, &pr}) t.kids.push_back(*x);
		return t;
	}
};
static inline E dump(IGdtfFixture* f) { Dump d; d.f = f; return d.run(); }
} // namespace gdtf
