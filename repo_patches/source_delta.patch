From 885619e4d3a3bfcf1d78d34d476863d2f2be8748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:19 +0000
Subject: [PATCH 01/96] fix: refuse UUID text with characters that are not
 hexadecimal digits

FromString stored zero digits for such characters and reported success.
---
 src/UUID.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/UUID.cpp b/src/UUID.cpp
index 84e06fe..f418911 100644
--- a/src/UUID.cpp
+++ b/src/UUID.cpp
@@ -136,6 +136,11 @@ static TXString	GetPieceAsText(Uint8 piece)
 	return str;
 }
 
+static bool IsHexDigit(TXChar ch)
+{
+	return ( ch >= '0' && ch <= '9' ) || ( ch >= 'A' && ch <= 'F' ) || ( ch >= 'a' && ch <= 'f' );
+}
+
 static Uint8 GetDigitForChar(char ch)
 {
 	if ( ch >= '0' && ch <= '9' )
@@ -222,6 +227,17 @@ bool VWFC::Tools::VWUUID::FromString(const TXString& str, bool includeBrackets)
 		}
 	}
 
+	if ( b )
+	{
+		// Everything between the separators has to be a hexadecimal digit
+		const size_t first	= includeBrackets ? 1 : 0;
+		for ( size_t i = 0; i < 36 && b; i++ )
+		{
+			if ( i != 8 && i != 13 && i != 18 && i != 23 )
+				b = ::IsHexDigit( str.GetAt( first + i ) );
+		}
+	}
+
 	if ( b )
 	{
 		const char* pString		= (const char*) str;
-- 
2.43.0


From 6ee19ca560218a73cd8e81643b6c86840dd72710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:02 +0000
Subject: [PATCH 02/96] fix: give every GDTF member a defined start value

Several GDTF objects were created with numeric and boolean members left
uninitialised, so a getter or a save gave whatever was in memory.
---
 src/GDTFManager.h | 86 +++++++++++++++++++++++------------------------
 1 file changed, 43 insertions(+), 43 deletions(-)

diff --git a/src/GDTFManager.h b/src/GDTFManager.h
index c060b09..43bdd4c 100644
--- a/src/GDTFManager.h
+++ b/src/GDTFManager.h
@@ -375,13 +375,13 @@ namespace SceneData
 												GdtfWheelSlotAnimationSystem();
 												~GdtfWheelSlotAnimationSystem();
 	private:
-		double									fP1_X;
-		double									fP1_Y;
-		double									fP2_X;
-		double									fP2_Y;
-		double									fP3_X;
-		double									fP3_Y;
-		double									fRadius;
+		double									fP1_X = 0;
+		double									fP1_Y = 0;
+		double									fP2_X = 0;
+		double									fP2_Y = 0;
+		double									fP3_X = 0;
+		double									fP3_Y = 0;
+		double									fRadius = 0;
 
     public:
         double									GetP1_X();
@@ -975,9 +975,9 @@ namespace SceneData
 												~GdtfGeometryDisplay();
 	private:
 		TXString								fTexture;
-		size_t									fWidth;
-		size_t									fHeight;
-		bool 									fIsCurved;
+		size_t									fWidth = 0;
+		size_t									fHeight = 0;
+		bool 									fIsCurved = false;
 
 	public:
 		virtual EGdtfObjectType					GetObjectType();
@@ -1031,15 +1031,15 @@ namespace SceneData
 	
 	private:
 		EGdtfLaserColorType 					fColorType;
-		double									fColor; //Wavelength
-		double									fOutputStrength;
+		double									fColor = 0; //Wavelength
+		double									fOutputStrength = 0;
 		GdtfPhysicalEmitter*					fEmitter;
-		double 									fBeamDiameter;
-		double									fBeamDivergenceMin;
-		double									fBeamDivergenceMax;
-		double									fScanAnglePan;
-		double									fScanAngleTilt;
-		double									fScanSpeed;
+		double 									fBeamDiameter = 0;
+		double									fBeamDivergenceMin = 0;
+		double									fBeamDivergenceMax = 0;
+		double									fScanAnglePan = 0;
+		double									fScanAngleTilt = 0;
+		double									fScanSpeed = 0;
 
 		TXString 								fUnresolvedEmitter;
 
@@ -1094,8 +1094,8 @@ namespace SceneData
 												~GdtfPinPatch();
 	private:
 		GdtfGeometryWiringObjectPtr				fToWiringObject;
-		size_t									fFromPin;
-		size_t									fToPin;
+		size_t									fFromPin = 0;
+		size_t									fToPin = 0;
 
 		TXString								fUnresolvedWiringObject;
 
@@ -1209,7 +1209,7 @@ namespace SceneData
 												GdtfGeometryInventory(const TXString& name, GdtfModelPtr refToModel,const VWTransformMatrix& ma, GdtfGeometry* parent);
 												~GdtfGeometryInventory();
 	private:
-		size_t									fCount;
+		size_t									fCount = 0;
 
 	public:
 		virtual EGdtfObjectType					GetObjectType();
@@ -1234,10 +1234,10 @@ namespace SceneData
 	
 	private:
 		GdtfGeometry*   						fLinkedGeometry;
-		EGdtfStructureType 						fStructureType;
-		EGdtfCrossSectionType 					fCrossSectionType;
-		double									fCrossSectionHeight; //Tube
-		double									fCrossSectionWallThickness; //Tube
+		EGdtfStructureType 						fStructureType = EGdtfStructureType::CenterLineBased;
+		EGdtfCrossSectionType 					fCrossSectionType = EGdtfCrossSectionType::TrussFramework;
+		double									fCrossSectionHeight = 0; //Tube
+		double									fCrossSectionWallThickness = 0; //Tube
 		TXString								fTrussCrossSection; //TrussFramework
 
 		TXString 								fUnresolvedLinkedGeometry;
@@ -1279,21 +1279,21 @@ namespace SceneData
 												~GdtfGeometrySupport();
 	
 	private:
-		EGdtfSupportType						fSupportType;
-		double 									fCapacityX;
-		double 									fCapacityY;
-		double 									fCapacityZ;
-		double 									fCapacityXX;
-		double 									fCapacityYY;
-		double 									fCapacityZZ;
+		EGdtfSupportType						fSupportType = EGdtfSupportType::Rope;
+		double 									fCapacityX = 0;
+		double 									fCapacityY = 0;
+		double 									fCapacityZ = 0;
+		double 									fCapacityXX = 0;
+		double 									fCapacityYY = 0;
+		double 									fCapacityZZ = 0;
 		TXString 								fRopeCrossSection; 	//Rope
 		VWPoint3D 								fRopeOffset; 		//Rope
-		double 									fResistanceX;		//GroundSupport
-		double 									fResistanceY;		//GroundSupport
-		double 									fResistanceZ;		//GroundSupport
-		double 									fResistanceXX;		//GroundSupport
-		double 									fResistanceYY;		//GroundSupport
-		double 									fResistanceZZ;		//GroundSupport
+		double 									fResistanceX = 0;		//GroundSupport
+		double 									fResistanceY = 0;		//GroundSupport
+		double 									fResistanceZ = 0;		//GroundSupport
+		double 									fResistanceXX = 0;		//GroundSupport
+		double 									fResistanceYY = 0;		//GroundSupport
+		double 									fResistanceZZ = 0;		//GroundSupport
 
 	public:
 		virtual EGdtfObjectType					GetObjectType();
@@ -1942,7 +1942,7 @@ namespace SceneData
 												~GdtfMacroDMXValue();
 	private:
 		TXString 								funresolvedValue;
-		DmxValue								fValue;
+		DmxValue								fValue = 0;
 		TXString								funresolvedDMXChannel;
 		GdtfDmxChannelPtr						fDMXChannel;
 	public:
@@ -1973,7 +1973,7 @@ namespace SceneData
 												GdtfMacroDMXStep(double duration);
 												~GdtfMacroDMXStep();
 	private:
-		double									fDuration;
+		double									fDuration = 1;
 		// Childs
 		TGdtfMacroDMXValueArray					fDMXValues;
 	public:
@@ -2022,7 +2022,7 @@ namespace SceneData
 												~GdtfMacroVisualValue();
 	private:
 		TXString 								funresolvedValue;
-		DmxValue								fDmxValue;
+		DmxValue								fDmxValue = 0;
 		TXString								fUnresolvedChannelFunctionRef;
 		GdtfDmxChannelFunctionPtr				fChannelFunctionRef;
 	public:
@@ -2341,8 +2341,8 @@ namespace SceneData
 												GdtfMap(Uint32 key, Uint32 value);
 												~GdtfMap();
     private:
-        Uint32									fKey;
-		Uint32									fValue;
+        Uint32									fKey = 0;
+		Uint32									fValue = 0;
     public:
         virtual EGdtfObjectType					GetObjectType();
         // Getters
-- 
2.43.0


From e47f6755ca0f09e17498c23e610c7e6569490e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:17 +0000
Subject: [PATCH 03/96] fix: IGdtfConnector::SetType sets the type, not the
 name

---
 src/Implementation/CGdtfConnector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Implementation/CGdtfConnector.cpp b/src/Implementation/CGdtfConnector.cpp
index 69ae7d0..9ea1a32 100644
--- a/src/Implementation/CGdtfConnector.cpp
+++ b/src/Implementation/CGdtfConnector.cpp
@@ -82,7 +82,7 @@ VectorworksMVR::VCOMError VectorworksMVR::CGdtfConnectorImpl::SetType(MvrString
 	// Check if valid
 	if(!fConnector) return kVCOMError_NotInitialized;
 
-    fConnector->SetName(type);
+    fConnector->SetType(type);
 
 	return kVCOMError_NoError;
 }
-- 
2.43.0


From a2567e79aa61f5bb2244871d3302b80c2b280148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:17 +0000
Subject: [PATCH 04/96] fix: accept the documented Width, Height and IsCurved
 attributes of Display

---
 src/GDTFManager.cpp | 26665 +++++++++++++++++++++---------------------
 1 file changed, 13334 insertions(+), 13331 deletions(-)

diff --git a/src/GDTFManager.cpp b/src/GDTFManager.cpp
index 6d3c762..53041df 100644
--- a/src/GDTFManager.cpp
+++ b/src/GDTFManager.cpp
@@ -1,13331 +1,13334 @@
-//-----------------------------------------------------------------------------
-//----- Copyright deersoft 2015 - 2017 www.deersoft.de
-//-----------------------------------------------------------------------------
-#include "GDTFManager.h"
-#include "SceneDataExchange.h"
-#include "XmlFileHelper.h"
-#include "HashManager.h"
-#include <iostream>
-#include "Utility.h"
-#include "FeedbackDispatcher.h"
-#include "Wrapper/ZIPFileImpl.h"
-
-using namespace SceneData;
-
-static std::function<void( bool& )> fAbortCallback;
-static std::mutex fAbortCallbackMutex;
-
-//------------------------------------------------------------------------------------
-// GdtfObject
-GdtfObject::GdtfObject()
-{
-	fBindValue = nullptr;
-}
-
-GdtfObject::~GdtfObject()
-{
-}
-
-void GdtfObject::WriteToNode(IXMLFileNodePtr pContainerNode)
-{
-	// Create the new node
-	IXMLFileNodePtr pNode;
-	if ( VCOM_SUCCEEDED( pContainerNode->CreateChildNode( this->GetNodeName(), & pNode ) ) )
-	{
-		// Store Node
-		fNode = pNode;
-		//-------------------------------------------------------------------------------------
-		// Now Print Everything
-		this->OnPrintToFile(pNode);
-	}
-}
-
-void GdtfObject::ReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	// Store Node
-	fNode = pNode;
-
-	TXString nodeName;
-	pNode->GetNodeName(nodeName);
-	ASSERTN(kEveryone, nodeName == GetNodeName());
-	
-	this->OnReadFromNode(pNode);
-	this->OnErrorCheck(pNode);
-}
-
-void GdtfObject::GetNode(IXMLFileNodePtr& pNode)
-{
-	pNode = fNode;
-}
-
-void GdtfObject::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	// Nothing to do here
-}
-
-void GdtfObject::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	// Nothing to read here
-}
-
-void GdtfObject::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	// Nothing to check here
-}
-
-void GdtfObject::SetBind(void* ptr)
-{
-	fBindValue = ptr;
-}
-
-void* GdtfObject::GetBind()
-{
-	return fBindValue;
-}
-
-void GdtfObject::SetAbortCallback( const std::function<void( bool& )>& cb )
-{
-	std::lock_guard<std::mutex> lock(fAbortCallbackMutex);
-	fAbortCallback = cb;
-}
-
-bool GdtfObject::CheckAbort()
-{
-	std::lock_guard<std::mutex> lock(fAbortCallbackMutex);
-	if (fAbortCallback)
-	{
-		bool abort = false;
-		fAbortCallback(abort);
-		if ( abort )
-		{
-			fAbortReading = abort;
-		}
-		return abort;
-	}
-	return false;
-}
-
-TXString GdtfObject::GetNodeReference()
-{
-	// Nothing to read here
-	DSTOP((kEveryone, "This should be never be executed. You call GetNodeReference on an object that doesn't support this."));
-	return "";
-}
-
-//------------------------------------------------------------------------------------
-// Attributes
-GdtfActivationGroup::GdtfActivationGroup(const TXString& name)
-{
-    fName = name;
-}
-
-GdtfActivationGroup::GdtfActivationGroup()
-{
-
-}
-
-GdtfActivationGroup::~GdtfActivationGroup()
-{
-    
-}
-
-void GdtfActivationGroup::SetName(const TXString & name)
-{
-	fName = name;
-}
-
-void GdtfActivationGroup::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnPrintToFile(pNode);
-	
-	
-	//------------------------------------------------------------------------------------
-	// Print the attributes
-	pNode->SetNodeAttributeValue(XML_GDTF_ActivationGroupName,				fName);
-
-}
-
-void GdtfActivationGroup::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnReadFromNode(pNode);
-	
-	
-	//------------------------------------------------------------------------------------
-	// Get the attributes
-	pNode->GetNodeAttributeValue(XML_GDTF_AttributeName,			fName);
-
-}
-
-void GdtfActivationGroup::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_ActivationGroupName);
-
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfActivationGroup::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfActivationGroup;
-}
-
-TXString GdtfActivationGroup::GetNodeName()
-{
-	return XML_GDTF_ActivationGroupNode;
-}
-
-const TXString& GdtfActivationGroup::GetName() const
-{
-	return fName;
-}
-
-const TGdtfAttributeArray& GdtfActivationGroup::GetLinkedAttributes() const
-{
-	return fLinkedAttributes;
-}
-
-void GdtfActivationGroup::AddLinkedAttribute(GdtfAttribute* attr)
-{
-	fLinkedAttributes.push_back(attr);
-}
-
-TXString GdtfActivationGroup::GetNodeReference()
-{
-	return GetName();
-}
-
-
-//------------------------------------------------------------------------------------
-// GdtfFeature
-GdtfFeature::GdtfFeature(GdtfFeatureGroup* parent)
-{    
-	ASSERTN (kEveryone, parent);	
-	fParent = parent;
-}
-
-GdtfFeature::~GdtfFeature()
-{
-}
-
-void GdtfFeature::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnPrintToFile(pNode);
-	
-	
-	//------------------------------------------------------------------------------------
-	// Print the attributes
-	pNode->SetNodeAttributeValue(XML_GDTF_FeatureName,				fName);
-
-}
-
-void GdtfFeature::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnReadFromNode(pNode);
-	
-	
-	//------------------------------------------------------------------------------------
-	// Get the attributes
-	pNode->GetNodeAttributeValue(XML_GDTF_FeatureName,			fName);
-
-}
-
-void GdtfFeature::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_FeatureName);
-	
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfFeature::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfFeature;
-}
-
-TXString GdtfFeature::GetNodeName()
-{
-	return XML_GDTF_FeatureNode;
-}
-
-const TXString& GdtfFeature::GetName() const
-{
-	return fName;
-}
-
-GdtfFeatureGroup* GdtfFeature::GetFeatureGroup() const
-{
-	return fParent;
-}
-
-const TGdtfAttributeArray& GdtfFeature::GetLinkedAttributes() const
-{
-	return fLinkedAttributes;
-}
-
-void GdtfFeature::AddLinkedAttribute(GdtfAttribute* attr)
-{
-	fLinkedAttributes.push_back(attr);
-}
-
-
-void GdtfFeature::SetName(const TXString & name)
-{
-	fName = name;
-}
-
-TXString GdtfFeature::GetNodeReference()
-{
-	TXString ref = fParent->GetName() + "." + GetName();
-	return ref;
-}
-
-//------------------------------------------------------------------------------------
-// Attributes
-GdtfFeatureGroup::GdtfFeatureGroup()
-{
-	
-}
-
-GdtfFeatureGroup::GdtfFeatureGroup(const TXString& name, const TXString& prettyName)
-{
-	fName = name;
-	fPrettyName = prettyName;
-}
-
-GdtfFeatureGroup::~GdtfFeatureGroup()
-{
-	for (GdtfFeaturePtr pFeature : fFeatures) { delete pFeature; }
-}
-
-void GdtfFeatureGroup::SetName(const TXString& name)
-{
-	fName = name;
-}
-
-void GdtfFeatureGroup::SetPrettyName(const TXString& prettyName)
-{
-	fPrettyName = prettyName;
-}
-
-void GdtfFeatureGroup::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnPrintToFile(pNode);
-	
-	
-	//------------------------------------------------------------------------------------
-	// Print the attributes
-	pNode->SetNodeAttributeValue(XML_GDTF_FeatureGroupName,					fName);
-	pNode->SetNodeAttributeValue(XML_GDTF_FeatureGroupPrettyName,			fPrettyName);
-	
-	//------------------------------------------------------------------------------------
-	// Print the childs
-	for (GdtfFeature* feature : fFeatures)
-	{
-		feature->WriteToNode(pNode);
-	}	
-}
-
-void GdtfFeatureGroup::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnReadFromNode(pNode);
-	
-	
-	//------------------------------------------------------------------------------------
-	// Get the attributes
-	pNode->GetNodeAttributeValue(XML_GDTF_FeatureGroupName,					fName);
-	pNode->GetNodeAttributeValue(XML_GDTF_FeatureGroupPrettyName,			fPrettyName);
-	
-
-	
-	//------------------------------------------------------------------------------------
-	// Read the childs
-	GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_FeatureNode, [this] (IXMLFileNodePtr objNode) -> void
-								 { 
-									 if ( CheckAbort() ) return;
-									 GdtfFeaturePtr feature = new GdtfFeature(this);
-									 
-									 feature->ReadFromNode(objNode);
-									 
-									 fFeatures.push_back(feature);
-									 return;
-								 });
-	
-}
-
-void GdtfFeatureGroup::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_FeatureGroupName);
-	needed.push_back(XML_GDTF_FeatureGroupPrettyName);
-	
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfFeatureGroup::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfFeatureGroup;
-}
-TXString GdtfFeatureGroup::GetNodeName()
-{
-	return XML_GDTF_FeatureGroupNode;
-}
-
-GdtfFeature* GdtfFeatureGroup::AddFeature(const TXString& name)
-{
-	GdtfFeature* feature = new GdtfFeature(this);
-	feature->SetName(name);
-	fFeatures.push_back(feature);
-	return feature;
-}
-
-
-const TXString& GdtfFeatureGroup::GetName() const
-{
-	return fName;
-}
-
-const TXString& GdtfFeatureGroup::GetPrettyName() const
-{
-	return fPrettyName;
-}
-
-const TGdtfFeatureArray& GdtfFeatureGroup::GetFeatureArray()
-{
-	return fFeatures;
-}
-
-//------------------------------------------------------------------------------------
-// GdtfSubPhysicalUnit
-GdtfSubPhysicalUnit::GdtfSubPhysicalUnit()
-{
-	fType = EGdtfSubPhysicalUnitType::PlacementOffset;
-	fPhysicalUnit = EGdtfPhysicalUnit::None;
-	fPhysicalFrom = 0.0;
-	fPhysicalTo = 0.0;
-}
-
-GdtfSubPhysicalUnit::GdtfSubPhysicalUnit(EGdtfSubPhysicalUnitType type)
-{
-	fType 			= type;
-	fPhysicalUnit 	= GdtfConverter::GetUnitFromSubPhysical(type);
-	fPhysicalFrom = 0.0;
-	fPhysicalTo = 0.0;
-}
-
-GdtfSubPhysicalUnit::~GdtfSubPhysicalUnit()
-{
-}
-
-EGdtfSubPhysicalUnitType GdtfSubPhysicalUnit::GetType() const
-{
-	return fType;
-}
-
-EGdtfPhysicalUnit GdtfSubPhysicalUnit::GetPhysicalUnit() const
-{
-	return fPhysicalUnit;
-}
-
-double GdtfSubPhysicalUnit::GetPhysicalFrom() const
-{
-	return fPhysicalFrom;
-}
-
-double GdtfSubPhysicalUnit::GetPhysicalTo() const
-{
-	return fPhysicalTo;
-}
-
-void GdtfSubPhysicalUnit::SetType(const EGdtfSubPhysicalUnitType& type)
-{
-	fType 			= type;
-	fPhysicalUnit 	= GdtfConverter::GetUnitFromSubPhysical(type);
-}
-
-void GdtfSubPhysicalUnit::SetPhysicalUnit(const EGdtfPhysicalUnit& physicalUnit)
-{
-	fPhysicalUnit = physicalUnit;
-}
-
-void GdtfSubPhysicalUnit::SetPhysicalFrom(double physicalFrom)
-{
-	fPhysicalFrom = physicalFrom;
-}
-
-void GdtfSubPhysicalUnit::SetPhysicalTo(double physicalTo)
-{
-	fPhysicalTo = physicalTo;
-}
-
-void GdtfSubPhysicalUnit::OnPrintToFile(IXMLFileNodePtr pNode) 
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnPrintToFile(pNode);
-
-	pNode->SetNodeAttributeValue(XML_GDTF_SubPhysicalUnitType,			GdtfConverter::ConvertSubPhysicalUnitTypeEnum(fType));
-	pNode->SetNodeAttributeValue(XML_GDTF_SubPhysicalUnitPhysicalUnit,	GdtfConverter::ConvertPhysicalUnitEnum(fPhysicalUnit));
-	pNode->SetNodeAttributeValue(XML_GDTF_SubPhysicalUnitPhysicalFrom,	GdtfConverter::ConvertDouble(fPhysicalFrom));
-	pNode->SetNodeAttributeValue(XML_GDTF_SubPhysicalUnitPhysicalTo,	GdtfConverter::ConvertDouble(fPhysicalTo));
-}
-
-void GdtfSubPhysicalUnit::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnReadFromNode(pNode);
-
-	TXString type;			pNode->GetNodeAttributeValue(XML_GDTF_SubPhysicalUnitType,	type);					GdtfConverter::ConvertSubPhysicalUnitTypeEnum(type, 	pNode,	fType);
-	TXString physicalUnit;	pNode->GetNodeAttributeValue(XML_GDTF_SubPhysicalUnitPhysicalUnit,	physicalUnit);	GdtfConverter::ConvertPhysicalUnitEnum(physicalUnit, 	pNode,	fPhysicalUnit);
-	TXString physicalFrom;	pNode->GetNodeAttributeValue(XML_GDTF_SubPhysicalUnitPhysicalFrom,	physicalFrom);	GdtfConverter::ConvertDouble(physicalFrom, 	pNode,	fPhysicalFrom);
-	TXString physicalTo;	pNode->GetNodeAttributeValue(XML_GDTF_SubPhysicalUnitPhysicalTo,	physicalTo);	GdtfConverter::ConvertDouble(physicalTo, 	pNode,	fPhysicalTo);
-}
-
-void GdtfSubPhysicalUnit::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_SubPhysicalUnitType);
-	needed.push_back(XML_GDTF_SubPhysicalUnitPhysicalUnit);
-	optional.push_back(XML_GDTF_SubPhysicalUnitPhysicalFrom);
-	optional.push_back(XML_GDTF_SubPhysicalUnitPhysicalTo);
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfSubPhysicalUnit::GetObjectType() 
-{
-	return EGdtfObjectType::eGdtfSubPhysicalUnit;
-}
-
-TXString GdtfSubPhysicalUnit::GetNodeReference() 
-{
-	return GdtfConverter::ConvertSubPhysicalUnitTypeEnum(fType);
-}
-
-TXString GdtfSubPhysicalUnit::GetNodeName()
-{
-	return XML_GDTF_SubPhysicalUnitNodeName;
-}
-
-//------------------------------------------------------------------------------------
-// Attributes
-GdtfAttribute::GdtfAttribute()
-{
-	fActivationGroup	= nullptr;
-	fFeature            = nullptr;
-    fMainAttribute      = nullptr;
-    fPhysicalUnit       = EGdtfPhysicalUnit::None;
-	fHasColor 			= false;
-
-}
-
-GdtfAttribute::GdtfAttribute(const TXString& name, const TXString& prettyName)
-{
-	fName				= name;
-	fPrettyName			= prettyName;
-	fActivationGroup	= nullptr;
-	fFeature            = nullptr;    
-    fMainAttribute      = nullptr;
-    fPhysicalUnit       = EGdtfPhysicalUnit::None;
-	fHasColor 			= false;
-}
-
-GdtfAttribute::~GdtfAttribute()
-{
-	for(GdtfSubPhysicalUnitPtr subPhysicalUnit : fSubPhysicalUnits) { delete subPhysicalUnit; }
-}
-
-void GdtfAttribute::SetName(const TXString &name)
-{
-	fName = name;
-}
-
-void GdtfAttribute::SetPrettyName(const TXString &name)
-{
-	fPrettyName = name;
-}
-
-void GdtfAttribute::SetActivationGroup(GdtfActivationGroupPtr ptr)
-{
-	ASSERTN(kEveryone, fActivationGroup == nullptr);
-	fActivationGroup = ptr;
-	
-	ASSERTN(kEveryone, ptr != nullptr);
-	if (ptr) { ptr->AddLinkedAttribute(this); }
-}
-
-void SceneData::GdtfAttribute::SetMainAttribute(GdtfAttribute * attr)
-{
-    fMainAttribute = attr;
-}
-
-void SceneData::GdtfAttribute::SetPhysicalUnit(EGdtfPhysicalUnit unit)
-{
-    fPhysicalUnit = unit;
-}
-
-void SceneData::GdtfAttribute::SetColor(const CCieColor & col)
-{
-	fHasColor = true;
-    fColor = col;
-}
-
-GdtfSubPhysicalUnitPtr GdtfAttribute::CreateSubPhysicalUnit(EGdtfSubPhysicalUnitType type)
-{
-	GdtfSubPhysicalUnitPtr subPhysicalUnit = new GdtfSubPhysicalUnit(type);
-    fSubPhysicalUnits.push_back(subPhysicalUnit);
-	return subPhysicalUnit;
-}
-
-void GdtfAttribute::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnPrintToFile(pNode);
-	
-	ASSERTN(kEveryone, fFeature);
-
-	//------------------------------------------------------------------------------------
-	// Print the attributes
-	pNode->SetNodeAttributeValue(XML_GDTF_AttributeName,				fName);
-	pNode->SetNodeAttributeValue(XML_GDTF_AttributePrettyName,			fPrettyName);
-	if (fActivationGroup)	{ pNode->SetNodeAttributeValue(XML_GDTF_AttributeActGroup,	fActivationGroup->GetNodeReference()); }
-	if (fFeature)			{ pNode->SetNodeAttributeValue(XML_GDTF_AttributeFeature,	fFeature->GetNodeReference() );	}	
-    if (fMainAttribute)     { pNode->SetNodeAttributeValue(XML_GDTF_AttributefMainAttribute, fMainAttribute->GetNodeReference()); }
-	if(fHasColor) 			{ pNode->SetNodeAttributeValue(XML_GDTF_AttributeColor, GdtfConverter::ConvertColor(fColor)); }
-
-    pNode->SetNodeAttributeValue(XML_GDTF_AttributePhysicalUnit, GdtfConverter::ConvertPhysicalUnitEnum(fPhysicalUnit));
-
-	for(GdtfSubPhysicalUnitPtr subPhysicalUnit : fSubPhysicalUnits)
-	{
-		subPhysicalUnit->WriteToNode(pNode);
-	}
-	
-}
-
-void GdtfAttribute::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{    
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnReadFromNode(pNode);
-	
-	
-	//------------------------------------------------------------------------------------
-	// Get the attributes
-	pNode->GetNodeAttributeValue(XML_GDTF_AttributeName,			fName);
-	pNode->GetNodeAttributeValue(XML_GDTF_AttributePrettyName,		fPrettyName);
-	
-	pNode->GetNodeAttributeValue(XML_GDTF_AttributeActGroup, fUnresolvedActGroup);
-	pNode->GetNodeAttributeValue(XML_GDTF_AttributeFeature, fUnresolvedFeature);   
-    pNode->GetNodeAttributeValue(XML_GDTF_AttributefMainAttribute, fUnresolvedMainAttrib);
-    TXString physicalUnitStr; pNode->GetNodeAttributeValue(XML_GDTF_AttributePhysicalUnit, physicalUnitStr); 	GdtfConverter::ConvertPhysicalUnitEnum(physicalUnitStr, pNode, fPhysicalUnit);
-
-	TXString colorStr; 
-	if(VCOM_SUCCEEDED(pNode->GetNodeAttributeValue(XML_GDTF_AttributeColor, colorStr)))
-	{
-		GdtfConverter::ConvertColor(colorStr, pNode, fColor);
-		fHasColor = true;
-	}
-
-	GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_SubPhysicalUnitNodeName, [this] (IXMLFileNodePtr objNode) -> void
-								 {
-									if ( CheckAbort() ) return;
-									 // Create the object
-									 GdtfSubPhysicalUnitPtr subPhysicalUnit = new GdtfSubPhysicalUnit();
-									 
-									 // Read from node
-									 subPhysicalUnit->ReadFromNode(objNode);
-									 
-									 // Add to list
-									 fSubPhysicalUnits.push_back(subPhysicalUnit);
-									 return;
-								 });
-}
-
-void GdtfAttribute::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_AttributeName);
-	needed.push_back(XML_GDTF_AttributePrettyName);
-	needed.push_back(XML_GDTF_AttributeFeature);
-	optional.push_back(XML_GDTF_AttributeActGroup);
-	optional.push_back(XML_GDTF_AttributefMainAttribute);
-	optional.push_back(XML_GDTF_AttributePhysicalUnit);
-	optional.push_back(XML_GDTF_AttributeColor);
-
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfAttribute::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfAttribute;
-}
-TXString GdtfAttribute::GetNodeName()
-{
-	return XML_GDTF_AttributeNode;
-}
-
-const TXString& GdtfAttribute::GetName() const
-{
-	return fName;
-}
-
-const TXString& GdtfAttribute::GetPrettyName() const
-{
-	return fPrettyName;
-}
-
-GdtfActivationGroupPtr GdtfAttribute::GetActivationGroup() const
-{
-	return fActivationGroup;
-}
-
-GdtfFeaturePtr GdtfAttribute::GetFeature() const
-{
-	return fFeature;
-}
-
-bool GdtfAttribute::HasColor() const
-{
-	return fHasColor;
-}
-
-const TGdtfSubPhysicalUnitArray& GdtfAttribute::GetSubPhysicalUnitArray() const
-{
-	return fSubPhysicalUnits;
-}		
-
-void GdtfAttribute::SetFeature(GdtfFeaturePtr newFeat)
-{
-	ASSERTN(kEveryone, fFeature == nullptr);
-	fFeature = newFeat;
-	
-	ASSERTN(kEveryone, newFeat != nullptr);
-	if (newFeat) { newFeat->AddLinkedAttribute(this); }
-}
-
-GdtfAttribute * SceneData::GdtfAttribute::GetMainAttribute()
-{
-    return fMainAttribute;
-}
-
-EGdtfPhysicalUnit SceneData::GdtfAttribute::GetPhysicalUnit()
-{
-    return fPhysicalUnit;
-}
-
-CCieColor SceneData::GdtfAttribute::GetColor()
-{
-    return fColor;
-}
-
-TXString GdtfAttribute::GetNodeReference()
-{
-	return GetName();
-}
-
-const TXString& GdtfAttribute::GetUnresolvedActGroup() const
-{
-	return fUnresolvedActGroup;
-}
-
-const TXString& GdtfAttribute::GetUnresolvedMainAttribute() const
-{
-	return fUnresolvedMainAttrib;
-}
-
-const TXString& GdtfAttribute::GetUnresolvedFeature() const
-{
-	return fUnresolvedFeature;
-}
-
-//------------------------------------------------------------------------------------
-// GdtfWheel
-GdtfWheel::GdtfWheel(GdtfFixture* parentFixture)
-{
-	fParentFixture	= parentFixture;
-}
-
-GdtfWheel::GdtfWheel(GdtfFixture* parentFixture, const TXString& name)
-{
-	fName			= name;
-	fParentFixture	= parentFixture;
-}
-
-GdtfWheel::~GdtfWheel()
-{
-	for (GdtfWheelSlotPtr ptr : fWheelSlots) { delete ptr; }
-}
-
-GdtfWheelSlotPtr GdtfWheel::AddWheelSlot(const TXString& name)
-{
-	// Add Slot
-	GdtfWheelSlot* slot  = new GdtfWheelSlot(name, this);
-	
-	fWheelSlots.push_back(slot);
-	
-	return slot;
-}
-
-void GdtfWheel::SetName(const TXString &name)
-{
-	fName = name;
-}
-
-bool GdtfWheel::IsGoboWheel() const
-{
-	for (GdtfWheelSlot* slot : fWheelSlots)
-	{
-		if (slot->GetGobo().IsEmpty()) { return false; }
-	}
-	
-	return true;
-}
-
-TXString GdtfWheel::GetNodeReference()
-{
-	return GetName();
-}
-
-GdtfFixture* GdtfWheel::GetParentFixture() const
-{
-	return fParentFixture;
-}
-
-const TGdtfWheelSlotArray& GdtfWheel::GetWheelSlotArray() const
-{
-	return fWheelSlots;
-}
-
-void GdtfWheel::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnPrintToFile(pNode);
-	
-	//------------------------------------------------------------------------------------
-	// Print the attributes
-	pNode->SetNodeAttributeValue(XML_GDTF_WheelName,			fName);
-	
-	//------------------------------------------------------------------------------------
-	// Print the childs
-	for (GdtfWheelSlot* wheelSlotObj : fWheelSlots)
-	{
-		wheelSlotObj->WriteToNode(pNode);
-	}
-}
-
-void GdtfWheel::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnReadFromNode(pNode);
-	
-	
-	//------------------------------------------------------------------------------------
-	// Get the attributes
-	pNode->GetNodeAttributeValue(XML_GDTF_WheelName,			fName);
-		
-	//------------------------------------------------------------------------------------
-	// Read the wheel slots
-	GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_WheelSlotNodeName, [this] (IXMLFileNodePtr objNode) -> void
-								 {   
-									if ( CheckAbort() ) return;
-									 // Create the object
-									 GdtfWheelSlotPtr wheelSlot = new GdtfWheelSlot(this);
-									 
-									 // Read from node
-									 wheelSlot->ReadFromNode(objNode);
-									 
-									 // Add to list
-									 fWheelSlots.push_back(wheelSlot);
-									 return;
-								 });
-
-	
-}
-
-void GdtfWheel::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_WheelName);
-	
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfWheel::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfWheel;
-}
-
-TXString GdtfWheel::GetNodeName()
-{
-	return XML_GDTF_WheelNodeName;
-}
-
-const TXString& GdtfWheel::GetName() const
-{
-	return fName;
-}
-
-//------------------------------------------------------------------------------------
-// GdtfWheelSlotPrismFacet
-GdtfWheelSlotPrismFacet::GdtfWheelSlotPrismFacet()
-{
-	fColor = CCieColor(0.3127,0.3290,100.0);
-}
-
-GdtfWheelSlotPrismFacet::~GdtfWheelSlotPrismFacet()
-{
-}
-
-void GdtfWheelSlotPrismFacet::SetColor(const CCieColor &color)
-{
-	fColor = color;
-}
-
-void GdtfWheelSlotPrismFacet::SetTransformMatrix(const VWFC::Math::VWTransformMatrix &ma)
-{
-	fTransform = ma;
-}
-
-void GdtfWheelSlotPrismFacet::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnPrintToFile(pNode);
-	
-	pNode->SetNodeAttributeValue(XML_GDTF_PrismFacetColor,		GdtfConverter::ConvertColor(fColor));
-	pNode->SetNodeAttributeValue(XML_GDTF_PrismFacetRotation,	GdtfConverter::ConvertRotation(fTransform));
-}
-
-CCieColor GdtfWheelSlotPrismFacet::GetColor()
-{
-	return fColor;
-}
-
-VWTransformMatrix GdtfWheelSlotPrismFacet::GetTransformMatrix()
-{
-	return fTransform;
-}
-
-void GdtfWheelSlotPrismFacet::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnReadFromNode(pNode);
-	
-	TXString color;		pNode->GetNodeAttributeValue(XML_GDTF_PrismFacetColor,		color);		GdtfConverter::ConvertColor(color, pNode, fColor);
-	TXString transfrom;	pNode->GetNodeAttributeValue(XML_GDTF_PrismFacetRotation,	transfrom);	GdtfConverter::ConvertRotation(transfrom, pNode, fTransform);
-	
-}
-
-void GdtfWheelSlotPrismFacet::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_PrismFacetRotation);
-	optional.push_back(XML_GDTF_PrismFacetColor);
-	
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfWheelSlotPrismFacet::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfPrismFacet;
-}
-TXString GdtfWheelSlotPrismFacet::GetNodeName()
-{
-	return XML_GDTF_PrismFacetNodeName;
-}
-
-//------------------------------------------------------------------------------------
-// GdtfWheelSlotAnimationSystem
-GdtfWheelSlotAnimationSystem::GdtfWheelSlotAnimationSystem()
-{
-}
-
-GdtfWheelSlotAnimationSystem::~GdtfWheelSlotAnimationSystem()
-{
-}
-
-double GdtfWheelSlotAnimationSystem::GetP1_X()
-{
-	return fP1_X;
-}
-
-double GdtfWheelSlotAnimationSystem::GetP1_Y()
-{
-	return fP1_Y;
-}
-
-double GdtfWheelSlotAnimationSystem::GetP2_X()
-{
-	return fP2_X;
-}
-
-double GdtfWheelSlotAnimationSystem::GetP2_Y()
-{
-	return fP2_Y;
-}
-
-double GdtfWheelSlotAnimationSystem::GetP3_X()
-{
-	return fP3_X;
-}
-
-double GdtfWheelSlotAnimationSystem::GetP3_Y()
-{
-	return fP3_Y;
-}
-
-double GdtfWheelSlotAnimationSystem::GetRadius()
-{
-	return fRadius;
-}
-
-void GdtfWheelSlotAnimationSystem::SetP1_X(double p1_X)
-{
-	fP1_X = p1_X;
-}
-
-void GdtfWheelSlotAnimationSystem::SetP1_Y(double p1_Y)
-{
-	fP1_Y = p1_Y;
-}
-
-void GdtfWheelSlotAnimationSystem::SetP2_X(double p2_X)
-{
-	fP2_X = p2_X;
-}
-
-void GdtfWheelSlotAnimationSystem::SetP2_Y(double p2_Y)
-{
-	fP2_Y = p2_Y;
-}
-
-void GdtfWheelSlotAnimationSystem::SetP3_X(double p3_X)
-{
-	fP3_X = p3_X;
-}
-
-void GdtfWheelSlotAnimationSystem::SetP3_Y(double p3_Y)
-{
-	fP3_Y = p3_Y;
-}
-
-void GdtfWheelSlotAnimationSystem::SetRadius(double radius)
-{
-	fRadius = radius;
-}
-
-void GdtfWheelSlotAnimationSystem::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnPrintToFile(pNode);
-	
-	pNode->SetNodeAttributeValue(XML_GDTF_AnimationSystemP1,		GdtfConverter::Convert2DPoint(fP1_X, fP1_Y));
-	pNode->SetNodeAttributeValue(XML_GDTF_AnimationSystemP2,		GdtfConverter::Convert2DPoint(fP2_X, fP2_Y));
-	pNode->SetNodeAttributeValue(XML_GDTF_AnimationSystemP3,		GdtfConverter::Convert2DPoint(fP3_X, fP3_Y));
-	pNode->SetNodeAttributeValue(XML_GDTF_AnimationSystemRadius,	GdtfConverter::ConvertDouble(fRadius));
-}
-
-void GdtfWheelSlotAnimationSystem::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnReadFromNode(pNode);
-	
-	TXString p1;		pNode->GetNodeAttributeValue(XML_GDTF_AnimationSystemP1,		p1);		GdtfConverter::Convert2DPoint(p1, pNode, fP1_X, fP1_Y);
-	TXString p2;		pNode->GetNodeAttributeValue(XML_GDTF_AnimationSystemP2,		p2);		GdtfConverter::Convert2DPoint(p2, pNode, fP2_X, fP2_Y);
-	TXString p3;		pNode->GetNodeAttributeValue(XML_GDTF_AnimationSystemP3,		p3);		GdtfConverter::Convert2DPoint(p3, pNode, fP3_X, fP3_Y);
-	TXString radius;	pNode->GetNodeAttributeValue(XML_GDTF_AnimationSystemRadius,	radius);	GdtfConverter::ConvertDouble(radius, pNode, fRadius);
-}
-
-void GdtfWheelSlotAnimationSystem::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_AnimationSystemP1);
-	needed.push_back(XML_GDTF_AnimationSystemP2);
-	needed.push_back(XML_GDTF_AnimationSystemP3);
-	needed.push_back(XML_GDTF_AnimationSystemRadius);
-	
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfWheelSlotAnimationSystem::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfAnimationSystem;
-}
-
-TXString GdtfWheelSlotAnimationSystem::GetNodeName()
-{
-	return XML_GDTF_AnimationSystemNodeName;
-}
-
-//------------------------------------------------------------------------------------
-// GdtfWheelSlot
-GdtfWheelSlot::GdtfWheelSlot(GdtfWheel* parent)
-{
-	fWheelParent 		= parent;
-	fFilter 	 		= nullptr;
-	fAnimationSystem	= nullptr;
-	fDuration			= 0.0;
-	fWidth				= 0;
-	fHeight				= 0;
-	fFPS				= 0;
-}
-
-GdtfWheelSlot::GdtfWheelSlot(const TXString& name, GdtfWheel* parent)
-{
-	fName		 		= name;
-	fWheelParent 		= parent;
-	fFilter		 		= nullptr;
-	fAnimationSystem	= nullptr;
-	fDuration			= 0.0;
-	fWidth				= 0;
-	fHeight				= 0;
-	fFPS				= 0;
-}
-
-
-GdtfWheelSlot::~GdtfWheelSlot()
-{
-	for(GdtfWheelSlotPrismFacet* facet : fPrismFacts) { delete facet; };
-	if(fAnimationSystem){
-		delete fAnimationSystem;
-	}
-}
-
-void GdtfWheelSlot::SetName(const TXString &name)
-{
-	fName = name;
-}
-
-void GdtfWheelSlot::SetGobo(const GdtfPNGFile& png)
-{
-	fGobo = png;
-}
-
-void GdtfWheelSlot::SetColor(const CCieColor& color)
-{
-	fColor = color;
-}
-
-void GdtfWheelSlot::SetFilter(GdtfFilter* filter)
-{
-	fFilter = filter;
-}
-
-GdtfWheelSlotPrismFacet* GdtfWheelSlot::AddPrismFacet()
-{
-	GdtfWheelSlotPrismFacet* prism = new GdtfWheelSlotPrismFacet();
-	fPrismFacts.push_back(prism);
-	return prism;
-}
-
-GdtfWheelSlotAnimationSystem* GdtfWheelSlot::AddAnimationSystem()
-{
-	if(fAnimationSystem){
-		delete fAnimationSystem;
-	}
-	GdtfWheelSlotAnimationSystem* animationSystem = new GdtfWheelSlotAnimationSystem();
-	fAnimationSystem = animationSystem;
-	return animationSystem;
-}
-
-const TXString&	GdtfWheelSlot::GetGobo() const
-{
-	return fGobo;
-}
-
-GdtfFilter*	GdtfWheelSlot::GetFilter() const
-{
-	return fFilter;
-}
-
-const TXString&	GdtfWheelSlot::GetUnresolvedFilter() const
-{
-	return fUnresolvedFilter;
-}
-
-const TXString&	GdtfWheelSlot::GetGoboFileFullPath()
-{
-	fGoboFile = "";
-
-	IFolderIdentifierPtr	folder;
-	fWheelParent->GetParentFixture()->GetWorkingFolder(folder);
-
-	IFolderIdentifierPtr wheelsFolder (IID_FolderIdentifier);
- 	wheelsFolder->Set(folder, "wheels");
-	
-	IFileIdentifierPtr file (IID_FileIdentifier);		 	
- 	file->Set(wheelsFolder, fGobo + ".png");
-	bool fileExists = false;
- 	if(VCOM_SUCCEEDED(file->ExistsOnDisk(fileExists)) && fileExists)		 	
-	{			
-		file->GetFileFullPath(fGoboFile);				
-	}			
-
-	
-	// Return
-	return fGoboFile;
-}
-
-CCieColor GdtfWheelSlot::GetColor() const
-{
-	return fColor;
-}
-
-const TXString& GdtfWheelSlot::GetName() const
-{
-	return fName;
-}
-
-void GdtfWheelSlot::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnPrintToFile(pNode);
-	
-	
-	// ------------------------------------------------------------------------------------
-	// Print node attributes
-	pNode->SetNodeAttributeValue(XML_GDTF_WheelSlotName,	fName);
-	pNode->SetNodeAttributeValue(XML_GDTF_WheelSlotColor,		GdtfConverter::ConvertColor(fColor));
-	if(fGobo != "")	{ pNode->SetNodeAttributeValue(XML_GDTF_WheelSlotPicture,	fGobo); }
-	if(fFilter)	{ pNode->SetNodeAttributeValue(XML_GDTF_WheelSlotFilter,		fFilter->GetNodeReference()); }
-	if(fDuration != 0.0)	{ pNode->SetNodeAttributeValue(XML_GDTF_WheelSlotDuration,	GdtfConverter::ConvertDouble(fDuration)); }
-	if(fWidth != 0)			{ pNode->SetNodeAttributeValue(XML_GDTF_WheelSlotWidth,		GdtfConverter::ConvertInteger(fWidth)); }
-	if(fHeight != 0)		{ pNode->SetNodeAttributeValue(XML_GDTF_WheelSlotHeight,	GdtfConverter::ConvertInteger(fHeight)); }
-	if(fFPS != 0)			{ pNode->SetNodeAttributeValue(XML_GDTF_WheelSlotFPS,		GdtfConverter::ConvertInteger(fFPS)); }
-	
-	//------------------------------------------------------------------------------------
-	// Print the children
-	for (GdtfWheelSlotPrismFacet* prism : fPrismFacts)
-	{
-		prism->WriteToNode(pNode);
-	}
-
-	//------------------------------------------------------------------------------------
-	// Print the animation system
-	if(fAnimationSystem) { fAnimationSystem->WriteToNode(pNode); }
-}
-
-void GdtfWheelSlot::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnReadFromNode(pNode);
-
-	
-	// ------------------------------------------------------------------------------------
-	// Get Name
-	pNode->GetNodeAttributeValue(XML_GDTF_WheelSlotName,	fName);
-	
-	// ------------------------------------------------------------------------------------
-	// Get Color
-	TXString color;
-	if (VCOM_SUCCEEDED(pNode->GetNodeAttributeValue(XML_GDTF_WheelSlotColor, color)))
-	{
-		if (color.IsEmpty() == false)
-		{
-            GdtfConverter::ConvertColor(color, pNode, this->fColor);
-		}
-	}
-	
-	// ------------------------------------------------------------------------------------
-	// Get Gobo
-	pNode->GetNodeAttributeValue(XML_GDTF_WheelSlotPicture, fGobo);
-	
-
-	pNode->GetNodeAttributeValue(XML_GDTF_WheelSlotFilter,	fUnresolvedFilter);
-
-	TXString duration, width, height, fps;
-	pNode->GetNodeAttributeValue(XML_GDTF_WheelSlotDuration,	duration);
-	pNode->GetNodeAttributeValue(XML_GDTF_WheelSlotWidth,		width);
-	pNode->GetNodeAttributeValue(XML_GDTF_WheelSlotHeight,		height);
-	pNode->GetNodeAttributeValue(XML_GDTF_WheelSlotFPS,			fps);
-	if(!duration.IsEmpty())	{ GdtfConverter::ConvertDouble(duration,	pNode, fDuration); }
-	if(!width.IsEmpty())	{ GdtfConverter::ConvertInteger(width,		pNode, fWidth); }
-	if(!height.IsEmpty())	{ GdtfConverter::ConvertInteger(height,		pNode, fHeight); }
-	if(!fps.IsEmpty())		{ GdtfConverter::ConvertInteger(fps,		pNode, fFPS); }
-	
-	//------------------------------------------------------------------------------------
-	// Read the wheel slots
-	GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_PrismFacetNodeName, [this] (IXMLFileNodePtr objNode) -> void
-								{
-									if ( CheckAbort() ) return;
-									// Create the object
-									GdtfWheelSlotPrismFacetPtr facet = new GdtfWheelSlotPrismFacet();
-									
-									// Read from node
-									facet->ReadFromNode(objNode);
-									
-									// Add to list
-									fPrismFacts.push_back(facet);
-									return;
-								});
-	
-	//Animation System
-	IXMLFileNodePtr animationSystemNode;
-	pNode->GetChildNode(XML_GDTF_AnimationSystemNodeName, &animationSystemNode);
-	if(animationSystemNode != nullptr)
-	{
-		if(fAnimationSystem){
-			delete fAnimationSystem;
-		}
-		GdtfWheelSlotAnimationSystemPtr animationSystem = new GdtfWheelSlotAnimationSystem();
-		animationSystem->ReadFromNode(animationSystemNode);
-		fAnimationSystem = animationSystem;
-	}
-	
-
-}
-
-void GdtfWheelSlot::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_WheelSlotName);
-	optional.push_back(XML_GDTF_WheelSlotColor);
-	optional.push_back(XML_GDTF_WheelSlotPicture);
-	optional.push_back(XML_GDTF_WheelSlotFilter);
-	optional.push_back(XML_GDTF_WheelSlotDuration);
-	optional.push_back(XML_GDTF_WheelSlotWidth);
-	optional.push_back(XML_GDTF_WheelSlotHeight);
-	optional.push_back(XML_GDTF_WheelSlotFPS);
-
-	
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfWheelSlot::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfWheelSlot;
-}
-TXString GdtfWheelSlot::GetNodeName()
-{
-	return XML_GDTF_WheelSlotNodeName;
-}
-
-TGdtfWheelSlotPrismFacetArray GdtfWheelSlot::GetPrismFacets()
-{
-	return fPrismFacts;
-}
-
-TXString GdtfWheelSlot::GetNodeReference()
-{
-	TXString ref = fWheelParent->GetNodeReference() + "." + GetName();
-	return ref;
-}
-
-GdtfWheelSlotAnimationSystem* GdtfWheelSlot::GetAnimationSystem() const
-{
-	return fAnimationSystem;
-}
-
-double GdtfWheelSlot::GetDuration() const { return fDuration; }
-size_t GdtfWheelSlot::GetWidth()    const { return fWidth; }
-size_t GdtfWheelSlot::GetHeight()   const { return fHeight; }
-size_t GdtfWheelSlot::GetFPS()      const { return fFPS; }
-
-void GdtfWheelSlot::SetDuration(double duration) { fDuration = duration; }
-void GdtfWheelSlot::SetWidth(size_t width)       { fWidth = width; }
-void GdtfWheelSlot::SetHeight(size_t height)     { fHeight = height; }
-void GdtfWheelSlot::SetFPS(size_t fps)           { fFPS = fps; }
-
-//------------------------------------------------------------------------------------
-// GdtfModel
-GdtfModel::GdtfModel(GdtfFixture* fixture)
-{
-	fUniqueName		= "";
-	fLength			= 0;
-	fWidth			= 0;
-	fHeight			= 0;
-	fPrimitiveType	= eGdtfModel_PrimitiveType_Undefined;
-	fGeometryFile	= "";
-	fParentFixture	= fixture;
-	fBuffer3DS 		= nullptr;
-	fBufferSVG 		= nullptr;
-	fBufferGLTF		= nullptr;
-	fBufferSize3DS	= 0;
-	fBufferSizeSVG	= 0;
-	fBufferSizeGLTF	= 0;
-
-	fSVGOffsetX			= 0;
-	fSVGOffsetY			= 0;
-	fSVGSideOffsetX		= 0;
-	fSVGSideOffsetY		= 0;
-	fSVGFrontOffsetX	= 0;
-	fSVGFrontOffsetY	= 0;
-}
-
-GdtfModel::GdtfModel(const TXString& name, GdtfFixture* fixture)
-{
-	fUniqueName		= name;
-	fLength			= 0;
-	fWidth			= 0;
-	fHeight			= 0;
-	fPrimitiveType	= eGdtfModel_PrimitiveType_Undefined;
-	fGeometryFile	= "";
-	fParentFixture	= fixture;
-	fBuffer3DS 		= nullptr;
-	fBufferSVG 		= nullptr;
-	fBufferGLTF		= nullptr;
-	fBufferSize3DS	= 0;
-	fBufferSizeSVG	= 0;
-	fBufferSizeGLTF	= 0;
-
-	fSVGOffsetX			= 0;
-	fSVGOffsetY			= 0;
-	fSVGSideOffsetX		= 0;
-	fSVGSideOffsetY		= 0;
-	fSVGFrontOffsetX	= 0;
-	fSVGFrontOffsetY	= 0;
-}
-
-GdtfModel::~GdtfModel()
-{
-	if(fBuffer3DS) 	{ delete[] fBuffer3DS; 	fBufferSize3DS = 0; }
-	if(fBufferSVG)	{ delete[] fBufferSVG; 	fBufferSizeSVG = 0; }
-	if(fBufferGLTF) { delete[] fBufferGLTF; fBufferSizeGLTF = 0; }
-}
-
-void GdtfModel::SetName(const TXString& name)
-{
-	fUniqueName = name;
-}
-
-void GdtfModel::SetLength(const double& length)
-{
-	fLength = length;
-}
-
-void GdtfModel::SetWidth(const double& width)
-{
-	fWidth = width;
-}
-
-void GdtfModel::SetHeight(const double &height)
-{
-	fHeight = height;
-}
-
-void GdtfModel::SetPrimitiveType(const EGdtfModel_PrimitiveType &type)
-{
-	fPrimitiveType = type;
-}
-
-void GdtfModel::SetGeometryFile(const TXString &file)
-{
-	fGeometryFile = file;
-}
-
-void GdtfModel::SetBuffer3DS(void* bufferToCopy, size_t length)
-{
-	if(fBuffer3DS)
-	{
-		delete[] fBuffer3DS;
-		fBuffer3DS = nullptr;
-	}
-
-	fBuffer3DS		= new char[length];
-	fBufferSize3DS	= length;
-	memcpy(fBuffer3DS, bufferToCopy, length);
-}
-
-void GdtfModel::SetBufferSVG(void* bufferToCopy, size_t length)
-{
-	if(fBufferSVG)
-	{
-		delete[] fBufferSVG;
-		fBufferSVG = nullptr;
-	}
-
-	fBufferSVG 		= new char[length];
-	fBufferSizeSVG 	= length;
-	memcpy(fBufferSVG, bufferToCopy, length);
-}
-
-void GdtfModel::SetBufferGLTF(void* bufferToCopy, size_t length)
-{
-	if(fBufferGLTF)
-	{
-		delete[] fBufferGLTF;
-		fBufferGLTF = nullptr;
-	}
-
-	fBufferGLTF			= new char[length];
-	fBufferSizeGLTF 	= length;
-	memcpy(fBufferGLTF, bufferToCopy, length);
-}
-
-void GdtfModel::SetSVGOffsetX(double svgOffsetX)
-{
-	fSVGOffsetX = svgOffsetX;
-}
-
-void GdtfModel::SetSVGOffsetY(double svgOffsetY)
-{
-	fSVGOffsetY = svgOffsetY;
-}
-
-void GdtfModel::SetSVGSideOffsetX(double svgSideOffsetX)
-{
-	fSVGSideOffsetX = svgSideOffsetX;
-}
-
-void GdtfModel::SetSVGSideOffsetY(double svgSideOffsetY)
-{
-	fSVGSideOffsetY = svgSideOffsetY;
-}
-
-void GdtfModel::SetSVGFrontOffsetX(double svgFrontOffsetX)
-{
-	fSVGFrontOffsetX = svgFrontOffsetX;
-}
-
-void GdtfModel::SetSVGFrontOffsetY(double svgFrontOffsetY)
-{
-	fSVGFrontOffsetY = svgFrontOffsetY;
-}
-
-void GdtfModel::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnPrintToFile(pNode);
-	
-	
-	// ------------------------------------------------------------------------------------
-	// Print node attributes
-	pNode->SetNodeAttributeValue(XML_GDTF_ModelName,			fUniqueName);
-	pNode->SetNodeAttributeValue(XML_GDTF_ModelLength,			GdtfConverter::ConvertDouble(fLength));
-	pNode->SetNodeAttributeValue(XML_GDTF_ModelWidth,			GdtfConverter::ConvertDouble(fWidth));
-	pNode->SetNodeAttributeValue(XML_GDTF_ModelHeight,			GdtfConverter::ConvertDouble(fHeight));
-	pNode->SetNodeAttributeValue(XML_GDTF_ModelPrimitiveType,	GdtfConverter::ConvertPrimitiveType(fPrimitiveType));
-	pNode->SetNodeAttributeValue(XML_GDTF_ModelFile,			fGeometryFile);
-	pNode->SetNodeAttributeValue(XML_GDTF_ModelSVGOffsetX,		GdtfConverter::ConvertDouble(fSVGOffsetX));
-	pNode->SetNodeAttributeValue(XML_GDTF_ModelSVGOffsetY,		GdtfConverter::ConvertDouble(fSVGOffsetY));
-	pNode->SetNodeAttributeValue(XML_GDTF_ModelSVGSideOffsetX,	GdtfConverter::ConvertDouble(fSVGSideOffsetX));
-	pNode->SetNodeAttributeValue(XML_GDTF_ModelSVGSideOffsetY,	GdtfConverter::ConvertDouble(fSVGSideOffsetY));
-	pNode->SetNodeAttributeValue(XML_GDTF_ModelSVGFrontOffsetX,	GdtfConverter::ConvertDouble(fSVGFrontOffsetX));
-	pNode->SetNodeAttributeValue(XML_GDTF_ModelSVGFrontOffsetY,	GdtfConverter::ConvertDouble(fSVGFrontOffsetY));
-}
-
-void GdtfModel::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnReadFromNode(pNode);
-
-	
-	// ------------------------------------------------------------------------------------
-	// Read node attributes
-	pNode->GetNodeAttributeValue(XML_GDTF_ModelName,			fUniqueName);
-	
-	// Convert Doubles
-	TXString length;			pNode->GetNodeAttributeValue(XML_GDTF_ModelLength,			length);			GdtfConverter::ConvertDouble(length, 			pNode, 	fLength);
-	TXString width;				pNode->GetNodeAttributeValue(XML_GDTF_ModelWidth,			width);				GdtfConverter::ConvertDouble(width, 			pNode,  fWidth);
-	TXString height;			pNode->GetNodeAttributeValue(XML_GDTF_ModelHeight,			height);			GdtfConverter::ConvertDouble(height, 			pNode, 	fHeight);
-	TXString svgOffsetX;		pNode->GetNodeAttributeValue(XML_GDTF_ModelSVGOffsetX,		svgOffsetX);		GdtfConverter::ConvertDouble(svgOffsetX, 		pNode, 	fSVGOffsetX);
-	TXString svgOffsetY;		pNode->GetNodeAttributeValue(XML_GDTF_ModelSVGOffsetY,		svgOffsetY);		GdtfConverter::ConvertDouble(svgOffsetY, 		pNode, 	fSVGOffsetY);
-	TXString svgSideOffsetX;	pNode->GetNodeAttributeValue(XML_GDTF_ModelSVGSideOffsetX,	svgSideOffsetX);	GdtfConverter::ConvertDouble(svgSideOffsetX, 	pNode, 	fSVGSideOffsetX);
-	TXString svgSideOffsetY;	pNode->GetNodeAttributeValue(XML_GDTF_ModelSVGSideOffsetY,	svgSideOffsetY);	GdtfConverter::ConvertDouble(svgSideOffsetY, 	pNode, 	fSVGSideOffsetY);
-	TXString svgFrontOffsetX;	pNode->GetNodeAttributeValue(XML_GDTF_ModelSVGFrontOffsetX,	svgFrontOffsetX);	GdtfConverter::ConvertDouble(svgFrontOffsetX,	pNode, 	fSVGFrontOffsetX);
-	TXString svgFrontOffsetY;	pNode->GetNodeAttributeValue(XML_GDTF_ModelSVGFrontOffsetY,	svgFrontOffsetY);	GdtfConverter::ConvertDouble(svgFrontOffsetY, 	pNode, 	fSVGFrontOffsetY);
-	TXString type;				pNode->GetNodeAttributeValue(XML_GDTF_ModelPrimitiveType,	type);				GdtfConverter::ConvertPrimitiveType(type, 		pNode, 	fPrimitiveType);
-								pNode->GetNodeAttributeValue(XML_GDTF_ModelFile,			fGeometryFile);
-
-	if(!fGeometryFile.IsEmpty())
-	{
-		TXString filename3DS = fGeometryFile + ".3ds";
-		TXString filenameSVG = fGeometryFile + ".svg";
-		TXString filenameGLTF = fGeometryFile + ".glb";
-
-		std::map<TXString, std::pair<char*, size_t> > fileBuffers = fParentFixture->GetFileBuffers();
-
-		auto buffer = fileBuffers.find(filename3DS);
-		if(buffer != fileBuffers.end())
-		{
-			fBufferSize3DS	= buffer->second.second;
-			fBuffer3DS		= new char[fBufferSize3DS];
-			memcpy(fBuffer3DS, buffer->second.first, fBufferSize3DS);
-		}
-		else if(fBufferSize3DS > 0)
-		{
-			std::pair<char*, size_t> bufferPair = std::make_pair(fBuffer3DS, fBufferSize3DS);
-			fileBuffers[filename3DS] = bufferPair;
-		}
-
-		buffer = fileBuffers.find(filenameSVG);
-		if(buffer != fileBuffers.end())
-		{
-			fBufferSizeSVG	= buffer->second.second;
-			fBufferSVG		= new char[fBufferSizeSVG];
-			memcpy(fBufferSVG, buffer->second.first, fBufferSizeSVG);
-		}
-		else if(fBufferSizeSVG > 0)
-		{
-			std::pair<char*, size_t> bufferPair = std::make_pair(fBufferSVG, fBufferSizeSVG);
-			fileBuffers[filenameSVG] = bufferPair;
-		}
-
-		buffer = fileBuffers.find(filenameGLTF);
-		if(buffer != fileBuffers.end())
-		{
-			fBufferSizeGLTF	= buffer->second.second;
-			fBufferGLTF		= new char[fBufferSizeGLTF];
-			memcpy(fBufferGLTF, buffer->second.first, fBufferSizeGLTF);
-		}
-		else if(fBufferSizeGLTF > 0)
-		{
-			std::pair<char*, size_t> bufferPair = std::make_pair(fBufferGLTF, fBufferSizeGLTF);
-			fileBuffers[filenameGLTF] = bufferPair;
-		}	
-	}
-}
-
-void GdtfModel::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_ModelName);
-	optional.push_back(XML_GDTF_ModelFile);
-	optional.push_back(XML_GDTF_ModelLength);
-	optional.push_back(XML_GDTF_ModelWidth);
-	optional.push_back(XML_GDTF_ModelHeight);
-	optional.push_back(XML_GDTF_ModelPrimitiveType);
-	optional.push_back(XML_GDTF_ModelSVGOffsetX);
-	optional.push_back(XML_GDTF_ModelSVGOffsetY);
-	optional.push_back(XML_GDTF_ModelSVGSideOffsetX);
-	optional.push_back(XML_GDTF_ModelSVGSideOffsetY);
-	optional.push_back(XML_GDTF_ModelSVGFrontOffsetX);
-	optional.push_back(XML_GDTF_ModelSVGFrontOffsetY);
-
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfModel::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfModel;
-}
-TXString GdtfModel::GetNodeName()
-{
-	return XML_GDTF_ModelNodeName;
-}
-
-TXString GdtfModel::GetNodeReference()
-{
-	return GetName();
-}
-
-const TXString& GdtfModel::GetGeometryFileName() const
-{
-	return fGeometryFile;
-}
-
-const TXString& GdtfModel::GetGeometryFile_3DS_FullPath()
-{
-	fFullPath3DS = "";
-	// Set to store
-	IFolderIdentifierPtr folder (IID_FolderIdentifier);
-	fParentFixture->GetWorkingFolder(folder);
-
-	IFolderIdentifierPtr model3DsFolder (IID_FolderIdentifier);
-	model3DsFolder->Set(folder, "models3ds");
-
-	IFileIdentifierPtr file (IID_FileIdentifier);
-	file->Set(model3DsFolder, fGeometryFile + ".3ds");
-
-	bool fileExists = false;
-	if(VCOM_SUCCEEDED(file->ExistsOnDisk(fileExists)) && fileExists)
-	{
-		file->GetFileFullPath(fFullPath3DS);
-	}
-	
-	return fFullPath3DS;
-}
-
-const TXString& GdtfModel::GetGeometryFile_3DSLow_FullPath()
-{
-	fFullPath3DS = "";
-	// Set to store
-	IFolderIdentifierPtr folder (IID_FolderIdentifier);
-	fParentFixture->GetWorkingFolder(folder);
-
-	IFolderIdentifierPtr model3DsFolder (IID_FolderIdentifier);
-	model3DsFolder->Set(folder, "models3ds_low");
-
-	IFileIdentifierPtr file (IID_FileIdentifier);
-	file->Set(model3DsFolder, fGeometryFile + ".3ds");
-
-	bool fileExists = false;
-	if(VCOM_SUCCEEDED(file->ExistsOnDisk(fileExists)) && fileExists)
-	{
-		file->GetFileFullPath(fFullPath3DS);
-	}
-	
-	return fFullPath3DS;
-}
-
-const TXString& GdtfModel::GetGeometryFile_3DSHigh_FullPath()
-{
-	fFullPath3DS = "";
-	// Set to store
-	IFolderIdentifierPtr folder (IID_FolderIdentifier);
-	fParentFixture->GetWorkingFolder(folder);
-
-	IFolderIdentifierPtr model3DsFolder (IID_FolderIdentifier);
-	model3DsFolder->Set(folder, "models3ds_high");
-
-	IFileIdentifierPtr file (IID_FileIdentifier);
-	file->Set(model3DsFolder, fGeometryFile + ".3ds");
-
-	bool fileExists = false;
-	if(VCOM_SUCCEEDED(file->ExistsOnDisk(fileExists)) && fileExists)
-	{
-		file->GetFileFullPath(fFullPath3DS);
-	}
-	
-	return fFullPath3DS;
-}
-
-const TXString & SceneData::GdtfModel::GetGeometryFile_SVG_FullPath()
-{
-	// Set to store
-	fFullPathSVG = "";
-	// Set to store
-	IFolderIdentifierPtr folder (IID_FolderIdentifier);
-	fParentFixture->GetWorkingFolder(folder);
-
-	IFolderIdentifierPtr svgModelsFolder (IID_FolderIdentifier);
-	svgModelsFolder->Set(folder, "modelssvg");
-
-	IFileIdentifierPtr file (IID_FileIdentifier);
-	file->Set(svgModelsFolder, fGeometryFile + ".svg");
-
-
-	bool fileExists = false;
-	if(VCOM_SUCCEEDED(file->ExistsOnDisk(fileExists)) && fileExists)
-	{
-		file->GetFileFullPath(fFullPathSVG);
-	}
-	
-	return fFullPathSVG;
-}
-
-const TXString & SceneData::GdtfModel::GetGeometryFile_SVGSide_FullPath()
-{
-	// Set to store
-	fFullPathSVG = "";
-	// Set to store
-	IFolderIdentifierPtr folder (IID_FolderIdentifier);
-	fParentFixture->GetWorkingFolder(folder);
-
-	IFolderIdentifierPtr svgModelsFolder (IID_FolderIdentifier);
-	svgModelsFolder->Set(folder, "modelssvg_side");
-
-	IFileIdentifierPtr file (IID_FileIdentifier);
-	file->Set(svgModelsFolder, fGeometryFile + ".svg");
-
-
-	bool fileExists = false;
-	if(VCOM_SUCCEEDED(file->ExistsOnDisk(fileExists)) && fileExists)
-	{
-		file->GetFileFullPath(fFullPathSVG);
-	}
-	
-	return fFullPathSVG;
-}
-
-const TXString & SceneData::GdtfModel::GetGeometryFile_SVGFront_FullPath()
-{
-	// Set to store
-	fFullPathSVG = "";
-	// Set to store
-	IFolderIdentifierPtr folder (IID_FolderIdentifier);
-	fParentFixture->GetWorkingFolder(folder);
-
-	IFolderIdentifierPtr svgModelsFolder (IID_FolderIdentifier);
-	svgModelsFolder->Set(folder, "modelssvg_front");
-
-	IFileIdentifierPtr file (IID_FileIdentifier);
-	file->Set(svgModelsFolder, fGeometryFile + ".svg");
-
-
-	bool fileExists = false;
-	if(VCOM_SUCCEEDED(file->ExistsOnDisk(fileExists)) && fileExists)
-	{
-		file->GetFileFullPath(fFullPathSVG);
-	}
-	
-	return fFullPathSVG;
-}
-
-const TXString & SceneData::GdtfModel::GetGeometryFile_GLTF_FullPath()
-{
-	// Set to store
-	fFullPathGLTF = "";
-	// Set to store
-	IFolderIdentifierPtr folder (IID_FolderIdentifier);
-	fParentFixture->GetWorkingFolder(folder);
-
-	IFolderIdentifierPtr gltfModelsFolder (IID_FolderIdentifier);
-	gltfModelsFolder->Set(folder, "modelsgltf");
-
-	IFileIdentifierPtr file (IID_FileIdentifier);
-	file->Set(gltfModelsFolder, fGeometryFile + ".glb");
-
-	bool fileExists = false;
-	if(VCOM_SUCCEEDED(file->ExistsOnDisk(fileExists)) && fileExists)
-	{
-		file->GetFileFullPath(fFullPathGLTF);
-	}
-	else
-	{
-		//There are two glTF file format: binary (.glb) or JSON-like (.gltf)
-		//If we don't find a .glb file, we try with .gltf
-		file->Set(gltfModelsFolder, fGeometryFile + ".gltf");
-		if(VCOM_SUCCEEDED(file->ExistsOnDisk(fileExists)) && fileExists)
-		{
-			file->GetFileFullPath(fFullPathGLTF);
-		}
-	}
-	
-	return fFullPathGLTF;
-}
-
-const TXString & SceneData::GdtfModel::GetGeometryFile_GLTFLow_FullPath()
-{
-	// Set to store
-	fFullPathGLTF = "";
-	// Set to store
-	IFolderIdentifierPtr folder (IID_FolderIdentifier);
-	fParentFixture->GetWorkingFolder(folder);
-
-	IFolderIdentifierPtr gltfModelsFolder (IID_FolderIdentifier);
-	gltfModelsFolder->Set(folder, "modelsgltf_low");
-
-	IFileIdentifierPtr file (IID_FileIdentifier);
-	file->Set(gltfModelsFolder, fGeometryFile + ".glb");
-
-	bool fileExists = false;
-	if(VCOM_SUCCEEDED(file->ExistsOnDisk(fileExists)) && fileExists)
-	{
-		file->GetFileFullPath(fFullPathGLTF);
-	}
-	else
-	{
-		//There are two glTF file format: binary (.glb) or JSON-like (.gltf)
-		//If we don't find a .glb file, we try with .gltf
-		file->Set(gltfModelsFolder, fGeometryFile + ".gltf");
-		if(VCOM_SUCCEEDED(file->ExistsOnDisk(fileExists)) && fileExists)
-		{
-			file->GetFileFullPath(fFullPathGLTF);
-		}
-	}
-	
-	return fFullPathGLTF;
-}
-
-const TXString & SceneData::GdtfModel::GetGeometryFile_GLTFHigh_FullPath()
-{
-	// Set to store
-	fFullPathGLTF = "";
-	// Set to store
-	IFolderIdentifierPtr folder (IID_FolderIdentifier);
-	fParentFixture->GetWorkingFolder(folder);
-
-	IFolderIdentifierPtr gltfModelsFolder (IID_FolderIdentifier);
-	gltfModelsFolder->Set(folder, "modelsgltf_high");
-
-	IFileIdentifierPtr file (IID_FileIdentifier);
-	file->Set(gltfModelsFolder, fGeometryFile + ".glb");
-
-	bool fileExists = false;
-	if(VCOM_SUCCEEDED(file->ExistsOnDisk(fileExists)) && fileExists)
-	{
-		file->GetFileFullPath(fFullPathGLTF);
-	}
-	else
-	{
-		//There are two glTF file format: binary (.glb) or JSON-like (.gltf)
-		//If we don't find a .glb file, we try with .gltf
-		file->Set(gltfModelsFolder, fGeometryFile + ".gltf");
-		if(VCOM_SUCCEEDED(file->ExistsOnDisk(fileExists)) && fileExists)
-		{
-			file->GetFileFullPath(fFullPathGLTF);
-		}
-	}
-	
-	return fFullPathGLTF;
-}
-
-const TXString& GdtfModel::GetName() const
-{
-	return fUniqueName;
-}
-
-double GdtfModel::GetLength() const
-{
-	return fLength;
-}
-
-double GdtfModel::GetWidth() const
-{
-	return fWidth;
-}
-
-double GdtfModel::GetHeight() const
-{
-	return fHeight;
-}
-
-EGdtfModel_PrimitiveType GdtfModel::GetPrimitiveType() const
-{
-	return fPrimitiveType;
-}
-
-void GdtfModel::GetBuffer3DS(void** bufferToCopy, size_t& length)
-{
-	if(fBuffer3DS)
-	{
-		return;
-	}
-	if (*bufferToCopy)
-	{
-		return;
-	}
-
-	*bufferToCopy = new char[fBufferSize3DS];
-	length = fBufferSize3DS;
-	memcpy(*bufferToCopy, fBuffer3DS, fBufferSize3DS);
-}
-
-void GdtfModel::GetBufferSVG(void** bufferToCopy, size_t& length)
-{
-	if(fBufferSVG)
-	{
-		return;
-	}
-	if (*bufferToCopy)
-	{
-		return;
-	}
-
-	*bufferToCopy = new char[fBufferSizeSVG];
-	length = fBufferSizeSVG;
-	memcpy(*bufferToCopy, fBufferSVG, fBufferSizeSVG);
-}
-
-void GdtfModel::GetBufferGLTF(void** bufferToCopy, size_t& length)
-{
-	if(!fBufferGLTF)
-	{
-		return;
-	}
-	if (*bufferToCopy)
-	{
-		return;
-	}
-
-	*bufferToCopy = new char[fBufferSizeGLTF];
-	length = fBufferSizeGLTF;
-	memcpy(*bufferToCopy, fBufferGLTF, fBufferSizeGLTF);
-}
-
-double GdtfModel::GetSVGOffsetX() const
-{
-	return fSVGOffsetX;
-}
-
-double GdtfModel::GetSVGOffsetY() const
-{
-	return fSVGOffsetY;
-}
-
-double GdtfModel::GetSVGSideOffsetX() const
-{
-	return fSVGSideOffsetX;
-}
-
-double GdtfModel::GetSVGSideOffsetY() const
-{
-	return fSVGSideOffsetY;
-}
-
-double GdtfModel::GetSVGFrontOffsetX() const
-{
-	return fSVGFrontOffsetX;
-}
-
-double GdtfModel::GetSVGFrontOffsetY() const
-{
-	return fSVGFrontOffsetY;
-}
-
-//------------------------------------------------------------------------------------
-// GdtfGeometry
-GdtfGeometry::GdtfGeometry( GdtfGeometry* parent )
-{
-	fParent			= parent;
-	fUniqueName		= "";
-	fMatrix			= VWTransformMatrix();
-	fModelReference = nullptr;
-}
-
-GdtfGeometry::GdtfGeometry(const TXString& name, GdtfModelPtr refToModel,const VWTransformMatrix& ma, GdtfGeometry* parent)
-{
-	fParent			= parent;
-	fUniqueName		= name;
-	fMatrix			= ma;
-	fModelReference = refToModel;
-}
-
-GdtfGeometry::~GdtfGeometry()
-{
-	for (GdtfGeometryPtr ptr : fInternalGeometries) { delete ptr; }
-}
-
-void GdtfGeometry::SetName(const TXString &name)
-{
-	fUniqueName = name;
-}
-
-void GdtfGeometry::SetTransformMatrix(const VWFC::Math::VWTransformMatrix &ma)
-{
-	fMatrix = ma;
-}
-
-void GdtfGeometry::SetModel(GdtfModelPtr model)
-{
-	fModelReference = model;
-}
-
-GdtfGeometryPtr GdtfGeometry::AddGeometryWithAxis(const TXString& name, GdtfModelPtr refToModel,const VWTransformMatrix& ma)
-{
-	GdtfGeometryAxis* axis = new GdtfGeometryAxis(name, refToModel, ma, this);
-	
-	fInternalGeometries.push_back(axis);
-	
-	return axis;
-}
-
-GdtfGeometryPtr GdtfGeometry::AddGeometryWithLamp(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
-{
-	GdtfGeometryLamp* lamp = new GdtfGeometryLamp(name, refToModel, ma, this);
-	
-	fInternalGeometries.push_back(lamp);
-	
-	return lamp;
-}
-
-GdtfGeometryPtr GdtfGeometry::AddGeometry(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
-{
-	GdtfGeometry* geo = new GdtfGeometry(name, refToModel, ma, this);
-	
-	fInternalGeometries.push_back(geo);
-	
-	return geo;
-}
-
-GdtfGeometryPtr GdtfGeometry::AddGeometryReference(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
-{
-	GdtfGeometry* geo = new GdtfGeometryReference(name, refToModel, ma, this);
-	
-	fInternalGeometries.push_back(geo);
-	
-	return geo;
-}
-
-GdtfGeometryPtr GdtfGeometry::AddGeometryShaper(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
-{
-	GdtfGeometry* geo = new GdtfGeometryShaperFilter(name, refToModel, ma, this);
-	
-	fInternalGeometries.push_back(geo);
-	
-	return geo;
-}
-
-GdtfGeometryPtr GdtfGeometry::AddGeometryColor(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
-{
-	GdtfGeometry* geo = new GdtfGeometryColorFilter(name, refToModel, ma, this);
-	
-	fInternalGeometries.push_back(geo);
-	
-	return geo;
-}
-
-GdtfGeometryPtr GdtfGeometry::AddGeometryGobo(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
-{
-	GdtfGeometry* geo = new GdtfGeometryGoboFilter(name, refToModel, ma, this);
-	
-	fInternalGeometries.push_back(geo);
-	
-	return geo;
-}
-
-GdtfGeometryPtr GdtfGeometry::AddGeometryBeam(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
-{
-	GdtfGeometry* geo = new GdtfGeometryBeamFilter(name, refToModel, ma, this);
-	
-	fInternalGeometries.push_back(geo);
-	
-	return geo;
-}
-
-GdtfGeometryPtr GdtfGeometry::AddGeometryMediaServerCamera(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
-{
-	GdtfGeometry* geo = new GdtfGeometryMediaServerCamera(name, refToModel, ma, this);
-	
-	fInternalGeometries.push_back(geo);
-	
-	return geo;
-}
-
-GdtfGeometryPtr GdtfGeometry::AddGeometryMediaServerLayer(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
-{
-	GdtfGeometry* geo = new GdtfGeometryMediaServerLayer(name, refToModel, ma, this);
-	
-	fInternalGeometries.push_back(geo);
-	
-	return geo;
-}
-
-GdtfGeometryPtr GdtfGeometry::AddGeometryMediaServerMaster(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
-{
-	GdtfGeometry* geo = new GdtfGeometryMediaServerMaster(name, refToModel, ma, this);
-	
-	fInternalGeometries.push_back(geo);
-	
-	return geo;
-}
-
-GdtfGeometryPtr GdtfGeometry::AddGeometryDisplay(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
-{
-	GdtfGeometry* geo = new GdtfGeometryDisplay(name, refToModel, ma, this);
-
-	fInternalGeometries.push_back(geo);
-
-	return geo;
-}
-
-GdtfGeometryPtr GdtfGeometry::AddGeometryLaser(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
-{
-	GdtfGeometry* geo = new GdtfGeometryLaser(name, refToModel, ma, this);
-
-	fInternalGeometries.push_back(geo);
-
-	return geo;
-}
-
-GdtfGeometryPtr GdtfGeometry::AddGeometryWiringObject(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
-{
-	GdtfGeometry* geo = new GdtfGeometryWiringObject(name, refToModel, ma, this);
-
-	fInternalGeometries.push_back(geo);
-
-	return geo;
-}
-
-GdtfGeometryPtr GdtfGeometry::AddGeometryInventory(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
-{
-	GdtfGeometry* geo = new GdtfGeometryInventory(name, refToModel, ma, this);
-
-	fInternalGeometries.push_back(geo);
-
-	return geo;
-}
-
-GdtfGeometryPtr GdtfGeometry::AddGeometryStructure(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
-{
-	GdtfGeometry* geo = new GdtfGeometryStructure(name, refToModel, ma, this);
-
-	fInternalGeometries.push_back(geo);
-
-	return geo;
-}
-
-GdtfGeometryPtr GdtfGeometry::AddGeometrySupport(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
-{
-	GdtfGeometry* geo = new GdtfGeometrySupport(name, refToModel, ma, this);
-
-	fInternalGeometries.push_back(geo);
-
-	return geo;
-}
-
-GdtfGeometryPtr GdtfGeometry::AddGeometryMagnet(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
-{
-	GdtfGeometry* geo = new GdtfGeometryMagnet(name, refToModel, ma, this);
-
-	fInternalGeometries.push_back(geo);
-
-	return geo;
-}
-
-void GdtfGeometry::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnPrintToFile(pNode);
-	
-	
-	// ------------------------------------------------------------------------------------
-	// Print node attributes
-	pNode->SetNodeAttributeValue(XML_GDTF_GeometryName,				fUniqueName);
-	
-	pNode->SetNodeAttributeValue(XML_GDTF_GeometryMatrix,			GdtfConverter::ConvertMatrix(fMatrix, true));
-
-	if (fModelReference) { pNode->SetNodeAttributeValue(XML_GDTF_GeometryModelRef,	fModelReference->GetNodeReference()); }
-	
-	// ------------------------------------------------------------------------------------
-	// Print Internal geometry
-	for (GdtfGeometry* geoObj : fInternalGeometries)
-	{
-		geoObj->WriteToNode(pNode);
-	}
-}
-
-void GdtfGeometry::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnReadFromNode(pNode);
-	
-	// Get Node Name
-	pNode->GetNodeAttributeValue(XML_GDTF_GeometryName,				fUniqueName);
-	
-	// Get Matrix
-	TXString matrix;
-	pNode->GetNodeAttributeValue(XML_GDTF_GeometryMatrix,			matrix);
-	GdtfConverter::ConvertMatrix(matrix, pNode, fMatrix);
-	
-	// Get Node Reference
-	pNode->GetNodeAttributeValue(XML_GDTF_GeometryModelRef,			fUnresolvedModelRef);
-	
-	// ------------------------------------------------------------------------------------
-	// Print geometries
-	GdtfConverter::TraverseMultiNodes(pNode, "", [this] (IXMLFileNodePtr objNode,const TXString& childNodeName) -> void
-									{
-										bool hasBreak = false;
-										
-										GdtfGeometryPtr geometry = nullptr;
-										if	  (childNodeName == XML_GDTF_GeometryAxisNodeName)			{ geometry = new GdtfGeometryAxis(this);}
-										else if (childNodeName == XML_GDTF_GeometryNodeName)			{ geometry = new GdtfGeometry(this);}
-										else if (childNodeName == XML_GDTF_FilterBeamNodeName)			{ geometry = new GdtfGeometryBeamFilter(this);}
-										else if (childNodeName == XML_GDTF_FilterColorNodeName)			{ geometry = new GdtfGeometryColorFilter(this);}
-										else if (childNodeName == XML_GDTF_FilterGoboNodeName)			{ geometry = new GdtfGeometryGoboFilter(this);}
-										else if (childNodeName == XML_GDTF_FilterShaperNodeName)		{ geometry = new GdtfGeometryShaperFilter(this);}
-										else if (childNodeName == XML_GDTF_LampNodeName)				{ geometry = new GdtfGeometryLamp(this);}
-										else if (childNodeName == XML_GDTF_MediaServerCameraNodeName)	{ geometry = new GdtfGeometryMediaServerCamera(this);}
-										else if (childNodeName == XML_GDTF_MediaServerLayerNodeName)	{ geometry = new GdtfGeometryMediaServerLayer(this);}
-										else if (childNodeName == XML_GDTF_MediaServerMasterNodeName)	{ geometry = new GdtfGeometryMediaServerMaster(this);}
-										else if (childNodeName == XML_GDTF_GeometryReferenceNodeName)	{ geometry = new GdtfGeometryReference(this);}
-										else if (childNodeName == XML_GDTF_DisplayNodeName)				{ geometry = new GdtfGeometryDisplay(this);}
-										else if (childNodeName == XML_GDTF_LaserNodeName)				{ geometry = new GdtfGeometryLaser(this);}
-										else if (childNodeName == XML_GDTF_WiringObjectNodeName)		{ geometry = new GdtfGeometryWiringObject(this);}
-										else if (childNodeName == XML_GDTF_InventoryNodeName)			{ geometry = new GdtfGeometryInventory(this);}
-										else if (childNodeName == XML_GDTF_StructureNodeName)			{ geometry = new GdtfGeometryStructure(this);}
-										else if (childNodeName == XML_GDTF_SupportNodeName)				{ geometry = new GdtfGeometrySupport(this);}
-										else if (childNodeName == XML_GDTF_MagnetNodeName)				{ geometry = new GdtfGeometryMagnet(this);}
-										else if (childNodeName == XML_GDTF_BreakNodeName)				{ hasBreak = true; }
-										else if (childNodeName == XML_GDTF_LaserProtocolNodeName)		{ return; /* Laser Protocols are handled in the Laser OnReadFromNode function */ }
-										else if (childNodeName == XML_GDTF_PinPatchNodeName)			{ return; /* Pin Patches are handled in the WiringObject OnReadFromNode function */ }
-										else															{ DSTOP((kEveryone,"There is a node that was not expected!")); }
-										
-										
-										if (hasBreak)
-										{
-											// This is only allowed in Geometry Refs
-											ASSERTN(kEveryone, this->GetObjectType() == eGdtfGeometryReference);
-											if (this->GetObjectType() == eGdtfGeometryReference)
-											{
-												GdtfBreakPtr breakObj = new GdtfBreak();
-												breakObj->ReadFromNode(objNode);
-												
-												GdtfGeometryReferencePtr refGeo = static_cast<GdtfGeometryReferencePtr>(this);
-												refGeo->fBreaks.push_back(breakObj);
-												return;
-											}
-											else
-											{
-												GdtfParsingError error (GdtfDefines::EGdtfParsingError::eBreakObjectInNonGeometryReference, objNode);
-												SceneData::GdtfFixture::AddError(error);
-											}
-										}
-										
-										ASSERTN(kEveryone, geometry != nullptr);
-										if (geometry)
-										{
-											geometry->ReadFromNode(objNode);
-											fInternalGeometries.push_back(geometry);
-										}
-										else
-										{
-											GdtfParsingError error (GdtfDefines::EGdtfParsingError::eNodeWrongName, objNode);
-											SceneData::GdtfFixture::AddError(error);
-										}
-										return;
-									});
-}
-
-void GdtfGeometry::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	needed.push_back(XML_GDTF_GeometryName);
-	needed.push_back(XML_GDTF_GeometryMatrix);
-	
-	TXStringArray optional;
-	optional.push_back(XML_GDTF_GeometryModelRef);
-
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-GdtfModelPtr GdtfGeometry::GetModelRef() const
-{
-	return fModelReference;
-}
-
-void GdtfGeometry::GetTransformMatrix(VWTransformMatrix& ma) const
-{
-	ma = fMatrix;
-}
-
-const TXString& GdtfGeometry::GetUnresolvedModelRef() const
-{
-	return fUnresolvedModelRef;
-}
-
-void GdtfGeometry::SetUnresolvedModelRef(GdtfModelPtr ref)
-{
-	ASSERTN(kEveryone, ref != nullptr);
-	fModelReference = ref;
-}
-
-TXString GdtfGeometry::GetNodeName()
-{
-	return XML_GDTF_GeometryNodeName;
-}
-
-EGdtfObjectType GdtfGeometry::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfGeometry;
-}
-
-const TXString& GdtfGeometry::GetName() const
-{
-	return fUniqueName;
-}
-
-const std::vector<GdtfGeometry*>& GdtfGeometry::GetInternalGeometries()
-{
-	return fInternalGeometries;
-}
-
-TXString GdtfGeometry::GetNodeReference()
-{
-	TXString nodeRef;
-	nodeRef = GetName();
-	return nodeRef;
-}
-
-GdtfGeometryPtr GdtfGeometry::GetParentGeometry()
-{
-	return fParent;
-}
-
-//------------------------------------------------------------------------------------
-// GdtfGeometryAxis
-GdtfGeometryAxis::GdtfGeometryAxis(GdtfGeometry* parent) 
-				: GdtfGeometry(parent)
-{
-	
-}
-
-GdtfGeometryAxis::GdtfGeometryAxis(const TXString& name, GdtfModelPtr refToModel,const VWTransformMatrix& ma, GdtfGeometry* parent)
-				: GdtfGeometry(name,refToModel,ma, parent)
-{
-
-}
-
-GdtfGeometryAxis::~GdtfGeometryAxis()
-{
-}
-
-void GdtfGeometryAxis::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfGeometry::OnPrintToFile(pNode);
-	
-
-}
-
-void GdtfGeometryAxis::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfGeometry::OnReadFromNode(pNode);
-	
-}
-
-void GdtfGeometryAxis::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_GeometryName);
-	optional.push_back(XML_GDTF_GeometryModelRef);
-	needed.push_back(XML_GDTF_GeometryMatrix);
-	
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfGeometryAxis::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfGeometryAxis;
-}
-
-TXString GdtfGeometryAxis::GetNodeName()
-{
-	return XML_GDTF_GeometryAxisNodeName;
-}
-
-//------------------------------------------------------------------------------------
-// GdtfGeometryBeamFilter
-GdtfGeometryBeamFilter::GdtfGeometryBeamFilter(GdtfGeometry* parent) : GdtfGeometry(parent)
-{
-	
-}
-
-GdtfGeometryBeamFilter::GdtfGeometryBeamFilter(const TXString& name, GdtfModelPtr refToModel,const VWTransformMatrix& ma, GdtfGeometry* parent) : GdtfGeometry(name,refToModel,ma, parent)
-{
-
-}
-
-GdtfGeometryBeamFilter::~GdtfGeometryBeamFilter()
-{
-}
-
-void GdtfGeometryBeamFilter::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfGeometry::OnPrintToFile(pNode);
-	
-}
-
-void GdtfGeometryBeamFilter::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfGeometry::OnReadFromNode(pNode);
-}
-
-void GdtfGeometryBeamFilter::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_GeometryName);
-	optional.push_back(XML_GDTF_GeometryModelRef);
-	needed.push_back(XML_GDTF_GeometryMatrix);
-
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfGeometryBeamFilter::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfGeometryBeamFilter;
-}
-
-TXString GdtfGeometryBeamFilter::GetNodeName()
-{
-	return XML_GDTF_FilterBeamNodeName;
-}
-
-//------------------------------------------------------------------------------------
-// GdtfGeometryColorFilter
-GdtfGeometryColorFilter::GdtfGeometryColorFilter(GdtfGeometry* parent) 
-					   : GdtfGeometry(parent)
-{
-	
-}
-
-GdtfGeometryColorFilter::GdtfGeometryColorFilter(const TXString& name, GdtfModelPtr refToModel,const VWTransformMatrix& ma, GdtfGeometry* parent) 
-					   : GdtfGeometry(name,refToModel,ma, parent)
-{
-	
-}
-
-GdtfGeometryColorFilter::~GdtfGeometryColorFilter()
-{
-}
-
-void GdtfGeometryColorFilter::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfGeometry::OnPrintToFile(pNode);
-	
-}
-
-void GdtfGeometryColorFilter::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfGeometry::OnReadFromNode(pNode);
-}
-
-void GdtfGeometryColorFilter::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_GeometryName);
-	optional.push_back(XML_GDTF_GeometryModelRef);
-	needed.push_back(XML_GDTF_GeometryMatrix);
-
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfGeometryColorFilter::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfGeometryColorFilter;
-}
-
-TXString GdtfGeometryColorFilter::GetNodeName()
-{
-	return XML_GDTF_FilterColorNodeName;
-}
-
-//------------------------------------------------------------------------------------
-// GdtfGeometryShaperFilter
-GdtfGeometryShaperFilter::GdtfGeometryShaperFilter(GdtfGeometry* parent) 
-						: GdtfGeometry(parent)
-{
-	
-}
-
-GdtfGeometryShaperFilter::GdtfGeometryShaperFilter(const TXString& name, GdtfModelPtr refToModel,const VWTransformMatrix& ma, GdtfGeometry* parent) 
-						: GdtfGeometry(name,refToModel,ma, parent)
-{
-	
-}
-
-GdtfGeometryShaperFilter::~GdtfGeometryShaperFilter()
-{
-}
-
-void GdtfGeometryShaperFilter::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfGeometry::OnPrintToFile(pNode);
-	
-}
-
-void GdtfGeometryShaperFilter::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfGeometry::OnReadFromNode(pNode);
-}
-
-void GdtfGeometryShaperFilter::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_GeometryName);
-	optional.push_back(XML_GDTF_GeometryModelRef);
-	needed.push_back(XML_GDTF_GeometryMatrix);
-
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfGeometryShaperFilter::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfGeometryShaperFilter;
-}
-
-TXString GdtfGeometryShaperFilter::GetNodeName()
-{
-	return XML_GDTF_FilterShaperNodeName;
-}
-
-//------------------------------------------------------------------------------------
-// GdtfGeometryGoboFilter
-GdtfGeometryGoboFilter::GdtfGeometryGoboFilter(GdtfGeometry* parent) : GdtfGeometry(parent)
-{
-	
-}
-
-GdtfGeometryGoboFilter::GdtfGeometryGoboFilter(const TXString& name, GdtfModelPtr refToModel,const VWTransformMatrix& ma, GdtfGeometry* parent) 
-					  : GdtfGeometry(name,refToModel,ma, parent)
-{
-	
-}
-
-GdtfGeometryGoboFilter::~GdtfGeometryGoboFilter()
-{
-}
-
-void GdtfGeometryGoboFilter::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfGeometry::OnPrintToFile(pNode);
-	
-}
-
-void GdtfGeometryGoboFilter::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfGeometry::OnReadFromNode(pNode);
-}
-
-void GdtfGeometryGoboFilter::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_GeometryName);
-	optional.push_back(XML_GDTF_GeometryModelRef);
-	needed.push_back(XML_GDTF_GeometryMatrix);
-
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfGeometryGoboFilter::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfGeometryGoboFilter;
-}
-
-TXString GdtfGeometryGoboFilter::GetNodeName()
-{
-	return XML_GDTF_FilterGoboNodeName;
-}
-
-//------------------------------------------------------------------------------------
-// GdtfGeometryMediaServerCamera
-GdtfGeometryMediaServerCamera::GdtfGeometryMediaServerCamera(GdtfGeometry* parent) : GdtfGeometry(parent)
-{
-	
-}
-
-GdtfGeometryMediaServerCamera::GdtfGeometryMediaServerCamera(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma, GdtfGeometry* parent) 
-					  		 : GdtfGeometry(name, refToModel, ma, parent)
-{
-	
-}
-
-GdtfGeometryMediaServerCamera::~GdtfGeometryMediaServerCamera()
-{
-}
-
-void GdtfGeometryMediaServerCamera::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfGeometry::OnPrintToFile(pNode);
-	
-}
-
-void GdtfGeometryMediaServerCamera::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfGeometry::OnReadFromNode(pNode);
-}
-
-void GdtfGeometryMediaServerCamera::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_GeometryName);
-	optional.push_back(XML_GDTF_GeometryModelRef);
-	needed.push_back(XML_GDTF_GeometryMatrix);
-
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfGeometryMediaServerCamera::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfGeometryMediaServerCamera;
-}
-
-TXString GdtfGeometryMediaServerCamera::GetNodeName()
-{
-	return XML_GDTF_MediaServerCameraNodeName;
-}
-
-//------------------------------------------------------------------------------------
-// GdtfGeometryMediaServerLayer
-GdtfGeometryMediaServerLayer::GdtfGeometryMediaServerLayer(GdtfGeometry* parent) : GdtfGeometry(parent)
-{
-	
-}
-
-GdtfGeometryMediaServerLayer::GdtfGeometryMediaServerLayer(const TXString& name, GdtfModelPtr refToModel,const VWTransformMatrix& ma, GdtfGeometry* parent) 
-					  		: GdtfGeometry(name,refToModel,ma, parent)
-{
-	
-}
-
-GdtfGeometryMediaServerLayer::~GdtfGeometryMediaServerLayer()
-{
-}
-
-void GdtfGeometryMediaServerLayer::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfGeometry::OnPrintToFile(pNode);
-	
-}
-
-void GdtfGeometryMediaServerLayer::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfGeometry::OnReadFromNode(pNode);
-}
-
-void GdtfGeometryMediaServerLayer::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_GeometryName);
-	optional.push_back(XML_GDTF_GeometryModelRef);
-	needed.push_back(XML_GDTF_GeometryMatrix);
-
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfGeometryMediaServerLayer::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfGeometryMediaServerLayer;
-}
-
-TXString GdtfGeometryMediaServerLayer::GetNodeName()
-{
-	return XML_GDTF_MediaServerLayerNodeName;
-}
-
-//------------------------------------------------------------------------------------
-// GdtfGeometryMediaServerMaster
-GdtfGeometryMediaServerMaster::GdtfGeometryMediaServerMaster(GdtfGeometry* parent) : GdtfGeometry(parent)
-{
-	
-}
-
-GdtfGeometryMediaServerMaster::GdtfGeometryMediaServerMaster(const TXString& name, GdtfModelPtr refToModel,const VWTransformMatrix& ma, GdtfGeometry* parent) 
-					  		 : GdtfGeometry(name,refToModel,ma, parent)
-{
-	
-}
-
-GdtfGeometryMediaServerMaster::~GdtfGeometryMediaServerMaster()
-{
-}
-
-void GdtfGeometryMediaServerMaster::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfGeometry::OnPrintToFile(pNode);
-	
-}
-
-void GdtfGeometryMediaServerMaster::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfGeometry::OnReadFromNode(pNode);
-}
-
-void GdtfGeometryMediaServerMaster::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_GeometryName);
-	optional.push_back(XML_GDTF_GeometryModelRef);
-	needed.push_back(XML_GDTF_GeometryMatrix);
-
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfGeometryMediaServerMaster::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfGeometryMediaServerMaster;
-}
-
-TXString GdtfGeometryMediaServerMaster::GetNodeName()
-{
-	return XML_GDTF_MediaServerMasterNodeName;
-}
-
-//------------------------------------------------------------------------------------
-// GdtfGeometryDisplay
-GdtfGeometryDisplay::GdtfGeometryDisplay(GdtfGeometry* parent)
-					:GdtfGeometry(parent)
-{
-	fTexture = "";
-}
-
-GdtfGeometryDisplay::GdtfGeometryDisplay(const TXString& name, GdtfModelPtr refToModel,const VWTransformMatrix& ma, GdtfGeometry* parent) 
-					:GdtfGeometry(name,refToModel,ma, parent)
-{
-	fTexture = "";
-}
-
-GdtfGeometryDisplay::~GdtfGeometryDisplay()
-{
-}
-
-const TXString& GdtfGeometryDisplay::GetTexture() 
-{
-	return fTexture;
-}
-
-void GdtfGeometryDisplay::SetTexture(const TXString& texture) 
-{
-	fTexture = texture;
-}
-
-const size_t& GdtfGeometryDisplay::GetWidth() const
-{
-	return fWidth;
-}
-
-void GdtfGeometryDisplay::SetWidth( size_t width )
-{
-	fWidth = width;
-}
-
-const size_t& GdtfGeometryDisplay::GetHeight() const
-{
-	return fHeight;
-}
-
-void GdtfGeometryDisplay::SetHeight( size_t height )
-{
-	fHeight = height;
-}
-
-void GdtfGeometryDisplay::SetIsCurved( const bool& isCurved )
-{
-	fIsCurved = isCurved;
-}
-
-void GdtfGeometryDisplay::GetIsCurved( bool& curvedRadius ) const
-{
-	curvedRadius = fIsCurved;
-}
-
-void GdtfGeometryDisplay::OnPrintToFile(IXMLFileNodePtr pNode) 
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfGeometry::OnPrintToFile(pNode);
-	pNode->SetNodeAttributeValue( XML_GDTF_DisplayTexture,		fTexture );
-	pNode->SetNodeAttributeValue( XML_GDTF_DisplayWidth,		GdtfConverter::ConvertInteger(fWidth) );
-	pNode->SetNodeAttributeValue( XML_GDTF_DisplayHeight,		GdtfConverter::ConvertInteger( fHeight ) );
-	pNode->SetNodeAttributeValue( XML_GDTF_DisplayIsCurved,		fIsCurved ? "true" : "false" );
-}
-
-void GdtfGeometryDisplay::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfGeometry::OnReadFromNode(pNode);
-
-	TXString width, height, isCurved = "";
-
-	pNode->GetNodeAttributeValue( XML_GDTF_DisplayTexture, fTexture);
-	pNode->GetNodeAttributeValue( XML_GDTF_DisplayWidth, width );
-	pNode->GetNodeAttributeValue( XML_GDTF_DisplayHeight, height );
-	pNode->GetNodeAttributeValue( XML_GDTF_DisplayIsCurved, isCurved );
-
-	GdtfConverter::ConvertInteger(	width,			pNode,		fWidth );
-	GdtfConverter::ConvertInteger(	height,			pNode,		fHeight );
-	GdtfConverter::ConvertBool(		isCurved,		pNode,		fIsCurved );
-}
-
-void GdtfGeometryDisplay::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_GeometryName);
-	optional.push_back(XML_GDTF_GeometryModelRef);
-	needed.push_back(XML_GDTF_GeometryMatrix);
-	needed.push_back(XML_GDTF_DisplayTexture);
-
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfGeometryDisplay::GetObjectType() 
-{
-	return EGdtfObjectType::eGdtfGeometryDisplay;
-}
-
-TXString GdtfGeometryDisplay::GetNodeName()
-{
-	return XML_GDTF_DisplayNodeName;
-}
-
-//------------------------------------------------------------------------------------
-// GdtfLaserProtocol
-GdtfLaserProtocol::GdtfLaserProtocol()
-{
-	fName = "";
-}
-
-GdtfLaserProtocol::GdtfLaserProtocol(const TXString& name)
-{
-	fName = name;
-}
-
-GdtfLaserProtocol::~GdtfLaserProtocol()
-{
-}
-
-const TXString&	GdtfLaserProtocol::GetName() const
-{
-	return fName;
-}
-
-void GdtfLaserProtocol::SetName(const TXString& name)
-{
-	fName = name;
-}
-
-void GdtfLaserProtocol::OnPrintToFile(IXMLFileNodePtr pNode) 
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnPrintToFile(pNode);
-
-	pNode->SetNodeAttributeValue(XML_GDTF_LaserProtocolName, fName);
-}
-
-void GdtfLaserProtocol::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnReadFromNode(pNode);
-
-	pNode->GetNodeAttributeValue(XML_GDTF_LaserProtocolName, fName);
-}
-
-void GdtfLaserProtocol::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_LaserProtocolName);
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfLaserProtocol::GetObjectType() 
-{
-	return EGdtfObjectType::eGdtfLaserProtocol;
-}
-
-TXString GdtfLaserProtocol::GetNodeName()
-{
-	return XML_GDTF_LaserProtocolNodeName;
-}
-
-//------------------------------------------------------------------------------------
-// GdtfGeometryLaser
-GdtfGeometryLaser::GdtfGeometryLaser(GdtfGeometry* parent)
-					:GdtfGeometry(parent)
-{
-	fColorType 	= EGdtfLaserColorType::RGB;
-	fEmitter 	= nullptr;
-}
-
-GdtfGeometryLaser::GdtfGeometryLaser(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma, GdtfGeometry* parent) 
-					:GdtfGeometry(name, refToModel, ma, parent)
-{
-	fColorType 	= EGdtfLaserColorType::RGB;
-	fEmitter 	= nullptr;
-}
-
-GdtfGeometryLaser::~GdtfGeometryLaser()
-{
-	for(GdtfLaserProtocolPtr laserProtocol : fLaserProtocols) { delete laserProtocol; }
-}
-
-EGdtfLaserColorType	GdtfGeometryLaser::GetColorType() const
-{
-	return fColorType;
-}
-
-double GdtfGeometryLaser::GetColor() const
-{
-	return fColor;
-}
-double GdtfGeometryLaser::GetOutputStrength() const
-{
-	return fOutputStrength;
-}
-
-GdtfPhysicalEmitter* GdtfGeometryLaser::GetEmitter() const
-{
-	return fEmitter;
-}
-
-double GdtfGeometryLaser::GetBeamDiameter() const
-{
-	return fBeamDiameter;
-}
-
-double GdtfGeometryLaser::GetBeamDivergenceMin() const
-{
-	return fBeamDivergenceMin;
-}
-
-double GdtfGeometryLaser::GetBeamDivergenceMax() const
-{
-	return fBeamDivergenceMax;
-}
-
-double GdtfGeometryLaser::GetScanAnglePan() const
-{
-	return fScanAnglePan;
-}
-
-double GdtfGeometryLaser::GetScanAngleTilt() const
-{
-	return fScanAngleTilt;
-}
-
-double GdtfGeometryLaser::GetScanSpeed() const
-{
-	return fScanSpeed;
-}
-
-const TXString&	GdtfGeometryLaser::GetUnresolvedEmitter() const
-{
-	return fUnresolvedEmitter;
-}
-
-const TGdtfLaserProtocolArray& GdtfGeometryLaser::GetLaserProtocolArray() const
-{
-	return fLaserProtocols;
-}
-
-void GdtfGeometryLaser::SetColorType(const EGdtfLaserColorType& colorType)
-{
-	fColorType = colorType;
-}
-
-void GdtfGeometryLaser::SetColor(double waveLength)
-{
-	fColor = waveLength;
-}
-
-void GdtfGeometryLaser::SetOutputStrength(double outputStrength)
-{
-	fOutputStrength = outputStrength;
-}
-
-void GdtfGeometryLaser::SetEmitter(GdtfPhysicalEmitter* emitter)
-{
-	fEmitter = emitter;
-}
-
-void GdtfGeometryLaser::SetBeamDiameter(double beamDiameter)
-{
-	fBeamDiameter = beamDiameter;
-}
-
-void GdtfGeometryLaser::SetBeamDivergenceMin(double beamDivergenceMin)
-{
-	fBeamDivergenceMin = beamDivergenceMin;
-}
-
-void GdtfGeometryLaser::SetBeamDivergenceMax(double beamDivergenceMax)
-{
-	fBeamDivergenceMax = beamDivergenceMax;
-}
-
-void GdtfGeometryLaser::SetScanAnglePan(double scanAnglePan)
-{
-	fScanAnglePan = scanAnglePan;
-}
-
-void GdtfGeometryLaser::SetScanAngleTilt(double scanAngleTilt)
-{
-	fScanAngleTilt = scanAngleTilt;
-}
-
-void GdtfGeometryLaser::SetScanSpeed(double scanSpeed)
-{
-	fScanSpeed = scanSpeed;
-}
-
-GdtfLaserProtocolPtr GdtfGeometryLaser::CreateLaserProtocol(const TXString& name)
-{
-	GdtfLaserProtocolPtr laserProtocol = new GdtfLaserProtocol(name);
-    fLaserProtocols.push_back(laserProtocol);
-	return laserProtocol;
-}
-
-void GdtfGeometryLaser::OnPrintToFile(IXMLFileNodePtr pNode) 
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfGeometry::OnPrintToFile(pNode);
-
-	// Attributes
-	pNode->SetNodeAttributeValue(XML_GDTF_LaserColorType, 			GdtfConverter::ConvertLaserColorTypeEnum(fColorType));
-	pNode->SetNodeAttributeValue(XML_GDTF_LaserColor,				GdtfConverter::ConvertDouble(fColor));
-	pNode->SetNodeAttributeValue(XML_GDTF_LaserOutputStrength,		GdtfConverter::ConvertDouble(fOutputStrength));
-	if(fEmitter)	{ pNode->SetNodeAttributeValue(XML_GDTF_LaserEmitter, fEmitter->GetNodeReference()); }
-	pNode->SetNodeAttributeValue(XML_GDTF_LaserBeamDiameter,		GdtfConverter::ConvertDouble(fBeamDiameter));
-	pNode->SetNodeAttributeValue(XML_GDTF_LaserBeamDivergenceMin,	GdtfConverter::ConvertDouble(fBeamDivergenceMin));
-	pNode->SetNodeAttributeValue(XML_GDTF_LaserBeamDivergenceMax,	GdtfConverter::ConvertDouble(fBeamDivergenceMax));
-	pNode->SetNodeAttributeValue(XML_GDTF_LaserScanAnglePan,		GdtfConverter::ConvertDouble(fScanAnglePan));
-	pNode->SetNodeAttributeValue(XML_GDTF_LaserScanAngleTilt,		GdtfConverter::ConvertDouble(fScanAngleTilt));
-	pNode->SetNodeAttributeValue(XML_GDTF_LaserScanSpeed,			GdtfConverter::ConvertDouble(fScanSpeed));
-
-	// Children
-	for(GdtfLaserProtocolPtr laserProtocol : fLaserProtocols)
-	{
-		laserProtocol->WriteToNode(pNode);
-	}
-}
-
-void GdtfGeometryLaser::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfGeometry::OnReadFromNode(pNode);
-
-	TXString colorType;			pNode->GetNodeAttributeValue(XML_GDTF_LaserColorType,			colorType);			GdtfConverter::ConvertLaserColorTypeEnum(colorType, pNode, fColorType);
-	TXString color;				pNode->GetNodeAttributeValue(XML_GDTF_LaserColor,				color);				GdtfConverter::ConvertDouble(color, pNode, fColor);
-	TXString outputStrength;	pNode->GetNodeAttributeValue(XML_GDTF_LaserOutputStrength,		outputStrength);	GdtfConverter::ConvertDouble(outputStrength, pNode, fOutputStrength);
-	pNode->GetNodeAttributeValue(XML_GDTF_LaserEmitter,	fUnresolvedEmitter);
-	TXString beamDiameter;		pNode->GetNodeAttributeValue(XML_GDTF_LaserBeamDiameter,		beamDiameter);		GdtfConverter::ConvertDouble(beamDiameter, pNode, fBeamDiameter);
-	TXString beamDivergenceMin;	pNode->GetNodeAttributeValue(XML_GDTF_LaserBeamDivergenceMin,	beamDivergenceMin);	GdtfConverter::ConvertDouble(beamDivergenceMin, pNode, fBeamDivergenceMin);
-	TXString beamDivergenceMax;	pNode->GetNodeAttributeValue(XML_GDTF_LaserBeamDivergenceMax,	beamDivergenceMax);	GdtfConverter::ConvertDouble(beamDivergenceMax, pNode, fBeamDivergenceMax);
-	TXString scanAnglePan;		pNode->GetNodeAttributeValue(XML_GDTF_LaserScanAnglePan,		scanAnglePan);		GdtfConverter::ConvertDouble(scanAnglePan, pNode, fScanAnglePan);
-	TXString scanAngleTilt;		pNode->GetNodeAttributeValue(XML_GDTF_LaserScanAngleTilt,		scanAngleTilt);		GdtfConverter::ConvertDouble(scanAngleTilt, pNode, fScanAngleTilt);
-	TXString scanSpeed;			pNode->GetNodeAttributeValue(XML_GDTF_LaserScanSpeed,			scanSpeed);			GdtfConverter::ConvertDouble(scanSpeed, pNode, fScanSpeed);
-
-	GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_LaserProtocolNodeName, [this] (IXMLFileNodePtr objNode) -> void
-								{ 
-									if ( CheckAbort() ) return;
-									GdtfLaserProtocolPtr laserProtocol = new GdtfLaserProtocol();
-									
-									laserProtocol->ReadFromNode(objNode);
-									
-									fLaserProtocols.push_back(laserProtocol);
-									return;
-								});
-}
-
-void GdtfGeometryLaser::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_GeometryName);
-	optional.push_back(XML_GDTF_GeometryModelRef);
-	needed.push_back(XML_GDTF_GeometryMatrix);
-
-	needed.push_back(XML_GDTF_LaserColorType);
-	if(fColorType == EGdtfLaserColorType::SingleWaveLength) { needed.push_back(XML_GDTF_LaserColor); }
-	else 													{ optional.push_back(XML_GDTF_LaserColor); }
-	needed.push_back(XML_GDTF_LaserOutputStrength);
-	optional.push_back(XML_GDTF_LaserEmitter);
-	needed.push_back(XML_GDTF_LaserBeamDiameter);
-	needed.push_back(XML_GDTF_LaserBeamDivergenceMin);
-	needed.push_back(XML_GDTF_LaserBeamDivergenceMax);
-	needed.push_back(XML_GDTF_LaserScanAnglePan);
-	needed.push_back(XML_GDTF_LaserScanAngleTilt);
-	needed.push_back(XML_GDTF_LaserScanSpeed);
-
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfGeometryLaser::GetObjectType() 
-{
-	return EGdtfObjectType::eGdtfGeometryLaser;
-}
-
-TXString GdtfGeometryLaser::GetNodeName()
-{
-	return XML_GDTF_LaserNodeName;
-}
-
-//------------------------------------------------------------------------------------
-// GdtfPinPatch
-GdtfPinPatch::GdtfPinPatch()
-{
-	fToWiringObject = nullptr;
-}
-
-GdtfPinPatch::GdtfPinPatch(GdtfGeometryWiringObjectPtr toWiringObject, size_t fromPin, size_t toPin)
-{
-	fToWiringObject = toWiringObject;
-	fFromPin 		= fromPin;
-	fToPin 			= toPin;
-}
-
-GdtfPinPatch::~GdtfPinPatch()
-{
-}
-
-GdtfGeometryWiringObjectPtr GdtfPinPatch::GetToWiringObject() const
-{
-	return fToWiringObject;
-}
-
-size_t GdtfPinPatch::GetFromPin() const
-{
-	return fFromPin;
-}
-
-size_t GdtfPinPatch::GetToPin() const
-{
-	return fToPin;
-}
-
-const TXString&	GdtfPinPatch::GetUnresolvedWiringObject() const
-{
-	return fUnresolvedWiringObject;
-}
-
-void GdtfPinPatch::SetToWiringObject(GdtfGeometryWiringObjectPtr toWiringObject)
-{
-	fToWiringObject = toWiringObject;
-}
-
-void GdtfPinPatch::SetFromPin(size_t fromPin)
-{
-	fFromPin = fromPin;
-}
-
-void GdtfPinPatch::SetToPin(size_t toPin)
-{
-	fToPin = toPin;
-}
-
-void GdtfPinPatch::OnPrintToFile(IXMLFileNodePtr pNode) 
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnPrintToFile(pNode);
-
-	if(fToWiringObject)	{ pNode->SetNodeAttributeValue(XML_GDTF_PinPatchToWiringObject, fToWiringObject->GetNodeReference()); }
-	pNode->SetNodeAttributeValue(XML_GDTF_PinPatchFromPin,	GdtfConverter::ConvertInteger(fFromPin));
-	pNode->SetNodeAttributeValue(XML_GDTF_PinPatchToPin,	GdtfConverter::ConvertInteger(fToPin));
-}
-
-void GdtfPinPatch::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnReadFromNode(pNode);
-
-	pNode->GetNodeAttributeValue(XML_GDTF_PinPatchToWiringObject, fUnresolvedWiringObject);
-	TXString fromPin;	pNode->GetNodeAttributeValue(XML_GDTF_PinPatchFromPin,	fromPin);	GdtfConverter::ConvertInteger(fromPin, 	pNode,	fFromPin);
-	TXString toPin;		pNode->GetNodeAttributeValue(XML_GDTF_PinPatchToPin,	toPin);		GdtfConverter::ConvertInteger(toPin, 	pNode,	fToPin);
-}
-
-void GdtfPinPatch::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_PinPatchToWiringObject);
-	needed.push_back(XML_GDTF_PinPatchFromPin);
-	needed.push_back(XML_GDTF_PinPatchToPin);
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfPinPatch::GetObjectType() 
-{
-	return EGdtfObjectType::eGdtfPinPatch;
-}
-
-TXString GdtfPinPatch::GetNodeName()
-{
-	return XML_GDTF_PinPatchNodeName;
-}
-
-//------------------------------------------------------------------------------------
-// GdtfGeometryWiringObject
-GdtfGeometryWiringObject::GdtfGeometryWiringObject(GdtfGeometry* parent)
-					:GdtfGeometry(parent)
-{
-	fComponentType 	= EGdtfComponentType::Input;
-	fOrientation 	= EGdtfOrientation::Left;
-	fFuseRating 	= EGdtfFuseRating::B;
-	fPinCount			= 0;
-	fSignalLayer		= 0;
-	fElectricalPayLoad	= 0; 
-	fVoltageRangeMin	= 0; 	
-	fVoltageRangeMax	= 0; 	
-	fFrequencyRangeMin	= 0; 
-	fFrequencyRangeMax	= 0; 
-	fCosPhi				= 0; 			
-	fMaxPayLoad			= 0;
-	fVoltage			= 0; 			
-	fFuseCurrent		= 0; 		
-}
-
-GdtfGeometryWiringObject::GdtfGeometryWiringObject(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma, GdtfGeometry* parent) 
-					:GdtfGeometry(name, refToModel, ma, parent)
-{
-	fComponentType 	= EGdtfComponentType::Input;
-	fOrientation 	= EGdtfOrientation::Left;
-	fFuseRating 	= EGdtfFuseRating::B;
-	fPinCount			= 0;
-	fSignalLayer		= 0;
-	fElectricalPayLoad	= 0; 
-	fVoltageRangeMin	= 0; 	
-	fVoltageRangeMax	= 0; 	
-	fFrequencyRangeMin	= 0; 
-	fFrequencyRangeMax	= 0; 
-	fCosPhi				= 0; 			
-	fMaxPayLoad			= 0;
-	fVoltage			= 0; 			
-	fFuseCurrent		= 0; 	
-}
-
-GdtfGeometryWiringObject::~GdtfGeometryWiringObject()
-{
-	for(GdtfPinPatchPtr pinPatch : fPinPatches) { delete pinPatch; }
-}
-
-const TXString&	GdtfGeometryWiringObject::GetConnectorType() const
-{
-	return fConnectorType;
-}
-
-EGdtfComponentType GdtfGeometryWiringObject::GetComponentType() const
-{
-	return fComponentType;
-}
-
-const TXString& GdtfGeometryWiringObject::GetSignalType() const
-{
-	return fSignalType;
-}
-
-size_t GdtfGeometryWiringObject::GetPinCount() const
-{
-	return fPinCount;
-}
-
-size_t GdtfGeometryWiringObject::GetSignalLayer() const
-{
-	return fSignalLayer;
-}
-
-EGdtfOrientation GdtfGeometryWiringObject::GetOrientation() const
-{
-	return fOrientation;
-}
-
-const TXString& GdtfGeometryWiringObject::GetWireGroup() const
-{
-	return fWireGroup;
-}
-
-double GdtfGeometryWiringObject::GetElectricalPayLoad() const
-{
-	return fElectricalPayLoad;
-}
-
-double GdtfGeometryWiringObject::GetVoltageRangeMin() const
-{
-	return fVoltageRangeMin;
-}
-
-double GdtfGeometryWiringObject::GetVoltageRangeMax() const
-{
-	return fVoltageRangeMax;
-}
-
-double GdtfGeometryWiringObject::GetFrequencyRangeMin() const
-{
-	return fFrequencyRangeMin;
-}
-
-double GdtfGeometryWiringObject::GetFrequencyRangeMax() const
-{
-	return fFrequencyRangeMax;
-}
-
-double GdtfGeometryWiringObject::GetCosPhi() const
-{
-	return fCosPhi;
-}
-
-double GdtfGeometryWiringObject::GetMaxPayLoad() const
-{
-	return fMaxPayLoad;
-}
-
-double GdtfGeometryWiringObject::GetVoltage() const
-{
-	return fVoltage;
-}
-
-double GdtfGeometryWiringObject::GetFuseCurrent() const
-{
-	return fFuseCurrent;
-}
-
-EGdtfFuseRating GdtfGeometryWiringObject::GetFuseRating() const
-{
-	return fFuseRating;
-}
-
-const TGdtfPinPatchArray& GdtfGeometryWiringObject::GetPinPatchArray() const
-{
-	return fPinPatches;
-}
-
-void GdtfGeometryWiringObject::SetConnectorType(const TXString& connectorType)
-{
-	fConnectorType = connectorType;
-}
-
-void GdtfGeometryWiringObject::SetComponentType(const EGdtfComponentType& componentType)
-{
-	fComponentType = componentType;
-}
-
-void GdtfGeometryWiringObject::SetSignalType(const TXString& signalType)
-{
-	fSignalType = signalType;
-}
-
-void GdtfGeometryWiringObject::SetPinCount(size_t pinCount)
-{
-	fPinCount = pinCount;
-}
-
-void GdtfGeometryWiringObject::SetSignalLayer(size_t signalLayer)
-{
-	fSignalLayer = signalLayer;
-}
-
-void GdtfGeometryWiringObject::SetOrientation(const EGdtfOrientation& orientation)
-{
-	fOrientation = orientation;
-}
-
-void GdtfGeometryWiringObject::SetWireGroup(const TXString& wireGroup)
-{
-	fWireGroup = wireGroup;
-}
-
-void GdtfGeometryWiringObject::SetElectricalPayLoad(double electricalPayLoad)
-{
-	fElectricalPayLoad = electricalPayLoad;
-}
-
-void GdtfGeometryWiringObject::SetVoltageRangeMin(double voltageRangeMin)
-{
-	fVoltageRangeMin = voltageRangeMin;
-}
-
-void GdtfGeometryWiringObject::SetVoltageRangeMax(double voltageRangeMax)
-{
-	fVoltageRangeMax = voltageRangeMax;
-}
-
-void GdtfGeometryWiringObject::SetFrequencyRangeMin(double frequencyRangeMin)
-{
-	fFrequencyRangeMin = frequencyRangeMin;
-}
-
-void GdtfGeometryWiringObject::SetFrequencyRangeMax(double frequencyRangeMax)
-{
-	fFrequencyRangeMax = frequencyRangeMax;
-}
-
-void GdtfGeometryWiringObject::SetCosPhi(double cosPhi)
-{
-	fCosPhi = cosPhi;
-}
-
-void GdtfGeometryWiringObject::SetMaxPayLoad(double maxPayload)
-{
-	fMaxPayLoad = maxPayload;
-}
-
-void GdtfGeometryWiringObject::SetVoltage(double voltage)
-{
-	fVoltage = voltage;
-}
-
-void GdtfGeometryWiringObject::SetFuseCurrent(double fuseCurrent)
-{
-	fFuseCurrent = fuseCurrent;
-}
-
-void GdtfGeometryWiringObject::SetFuseRating(const EGdtfFuseRating& fuseRating)
-{
-	fFuseRating = fuseRating;
-}
-
-GdtfPinPatchPtr GdtfGeometryWiringObject::CreatePinPatch(GdtfGeometryWiringObject* toWiringObject, size_t fromPin, size_t toPin)
-{
-	GdtfPinPatchPtr pinPatch = new GdtfPinPatch(toWiringObject, fromPin, toPin);
-    fPinPatches.push_back(pinPatch);
-	return pinPatch;
-}
-
-void GdtfGeometryWiringObject::OnPrintToFile(IXMLFileNodePtr pNode) 
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfGeometry::OnPrintToFile(pNode);
-
-	pNode->SetNodeAttributeValue(XML_GDTF_WiringObjectComponentType, 		GdtfConverter::ConvertComponentTypeEnum(fComponentType));
-	pNode->SetNodeAttributeValue(XML_GDTF_WiringObjectConnectorType, 		fConnectorType);
-	pNode->SetNodeAttributeValue(XML_GDTF_WiringObjectSignalType, 			fSignalType);
-	pNode->SetNodeAttributeValue(XML_GDTF_WiringObjectPinCount,				GdtfConverter::ConvertInteger(fPinCount));
-	pNode->SetNodeAttributeValue(XML_GDTF_WiringObjectSignalLayer,			GdtfConverter::ConvertInteger(fSignalLayer));
-	pNode->SetNodeAttributeValue(XML_GDTF_WiringObjectOrientation, 			GdtfConverter::ConvertOrientationEnum(fOrientation));
-	pNode->SetNodeAttributeValue(XML_GDTF_WiringObjectWireGroup, 			fWireGroup);
-	pNode->SetNodeAttributeValue(XML_GDTF_WiringObjectElectricalPayLoad,	GdtfConverter::ConvertDouble(fElectricalPayLoad));
-	pNode->SetNodeAttributeValue(XML_GDTF_WiringObjectVoltageRangeMin,		GdtfConverter::ConvertDouble(fVoltageRangeMin));
-	pNode->SetNodeAttributeValue(XML_GDTF_WiringObjectVoltageRangeMax,		GdtfConverter::ConvertDouble(fVoltageRangeMax));
-	pNode->SetNodeAttributeValue(XML_GDTF_WiringObjectFrequencyRangeMin,	GdtfConverter::ConvertDouble(fFrequencyRangeMin));
-	pNode->SetNodeAttributeValue(XML_GDTF_WiringObjectFrequencyRangeMax,	GdtfConverter::ConvertDouble(fFrequencyRangeMax));
-	pNode->SetNodeAttributeValue(XML_GDTF_WiringObjectCosPhi,				GdtfConverter::ConvertDouble(fCosPhi));
-	pNode->SetNodeAttributeValue(XML_GDTF_WiringObjectMaxPayLoad,			GdtfConverter::ConvertDouble(fMaxPayLoad));
-	pNode->SetNodeAttributeValue(XML_GDTF_WiringObjectVoltage,				GdtfConverter::ConvertDouble(fVoltage));
-	pNode->SetNodeAttributeValue(XML_GDTF_WiringObjectFuseCurrent,			GdtfConverter::ConvertDouble(fFuseCurrent));
-	pNode->SetNodeAttributeValue(XML_GDTF_WiringObjectFuseRating, 			GdtfConverter::ConvertFuseRatingEnum(fFuseRating));
-
-	for(GdtfPinPatchPtr pinPatch : fPinPatches)
-	{
-		pinPatch->WriteToNode(pNode);
-	}
-
-}
-
-void GdtfGeometryWiringObject::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfGeometry::OnReadFromNode(pNode);
-
-	TXString componentType;		pNode->GetNodeAttributeValue(XML_GDTF_WiringObjectComponentType, componentType); 			GdtfConverter::ConvertComponentTypeEnum(componentType, pNode, fComponentType);
-								pNode->GetNodeAttributeValue(XML_GDTF_WiringObjectConnectorType, fConnectorType);
-								pNode->GetNodeAttributeValue(XML_GDTF_WiringObjectSignalType, fSignalType);
-	TXString pinCount;			pNode->GetNodeAttributeValue(XML_GDTF_WiringObjectPinCount, pinCount); 						GdtfConverter::ConvertInteger(pinCount, pNode, fPinCount);
-	TXString signalLayer;		pNode->GetNodeAttributeValue(XML_GDTF_WiringObjectSignalLayer, signalLayer); 				GdtfConverter::ConvertInteger(signalLayer, pNode, fSignalLayer);
-	TXString orientation;		pNode->GetNodeAttributeValue(XML_GDTF_WiringObjectOrientation, orientation); 				GdtfConverter::ConvertOrientationEnum(orientation, pNode, fOrientation);
-								pNode->GetNodeAttributeValue(XML_GDTF_WiringObjectWireGroup, fWireGroup);
-	TXString electricalPayLoad;	pNode->GetNodeAttributeValue(XML_GDTF_WiringObjectElectricalPayLoad, electricalPayLoad); 	GdtfConverter::ConvertDouble(electricalPayLoad, pNode, fElectricalPayLoad);
-	TXString voltageRangeMin;	pNode->GetNodeAttributeValue(XML_GDTF_WiringObjectVoltageRangeMin, voltageRangeMin); 		GdtfConverter::ConvertDouble(voltageRangeMin, pNode, fVoltageRangeMin);
-	TXString voltageRangeMax;	pNode->GetNodeAttributeValue(XML_GDTF_WiringObjectVoltageRangeMax, voltageRangeMax); 		GdtfConverter::ConvertDouble(voltageRangeMax, pNode, fVoltageRangeMax);
-	TXString frequencyRangeMin;	pNode->GetNodeAttributeValue(XML_GDTF_WiringObjectFrequencyRangeMin, frequencyRangeMin); 	GdtfConverter::ConvertDouble(frequencyRangeMin, pNode, fFrequencyRangeMin);
-	TXString frequencyRangeMax;	pNode->GetNodeAttributeValue(XML_GDTF_WiringObjectFrequencyRangeMax, frequencyRangeMax); 	GdtfConverter::ConvertDouble(frequencyRangeMax, pNode, fFrequencyRangeMax);
-	TXString cosPhi;			pNode->GetNodeAttributeValue(XML_GDTF_WiringObjectCosPhi, cosPhi); 							GdtfConverter::ConvertDouble(cosPhi, pNode, fCosPhi);
-	TXString maxPayLoad;		pNode->GetNodeAttributeValue(XML_GDTF_WiringObjectMaxPayLoad, maxPayLoad); 					GdtfConverter::ConvertDouble(maxPayLoad, pNode, fMaxPayLoad);
-	TXString voltage;			pNode->GetNodeAttributeValue(XML_GDTF_WiringObjectVoltage, voltage); 						GdtfConverter::ConvertDouble(voltage, pNode, fVoltage);
-	TXString fuseCurrent;		pNode->GetNodeAttributeValue(XML_GDTF_WiringObjectFuseCurrent, fuseCurrent); 				GdtfConverter::ConvertDouble(fuseCurrent, pNode, fFuseCurrent);
-	TXString fuseRating;		pNode->GetNodeAttributeValue(XML_GDTF_WiringObjectFuseRating, fuseRating); 					GdtfConverter::ConvertFuseRatingEnum(fuseRating, pNode, fFuseRating);
-
-	GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_PinPatchNodeName, [this] (IXMLFileNodePtr objNode) -> void
-								{ 
-									if ( CheckAbort() ) return;		
-									GdtfPinPatchPtr pinPatch = new GdtfPinPatch();
-									
-									pinPatch->ReadFromNode(objNode);
-									
-									fPinPatches.push_back(pinPatch);
-									return;
-								});
-
-}
-
-void GdtfGeometryWiringObject::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_GeometryName);
-	optional.push_back(XML_GDTF_GeometryModelRef);
-	needed.push_back(XML_GDTF_GeometryMatrix);
-
-	needed.push_back(XML_GDTF_WiringObjectComponentType);
-	needed.push_back(XML_GDTF_WiringObjectConnectorType);
-	needed.push_back(XML_GDTF_WiringObjectSignalType);
-	needed.push_back(XML_GDTF_WiringObjectPinCount);
-	needed.push_back(XML_GDTF_WiringObjectSignalLayer);
-	needed.push_back(XML_GDTF_WiringObjectOrientation);
-	needed.push_back(XML_GDTF_WiringObjectWireGroup);
-	if(fComponentType == EGdtfComponentType::Consumer)
-	{
-		needed.push_back(XML_GDTF_WiringObjectElectricalPayLoad);
-		needed.push_back(XML_GDTF_WiringObjectVoltageRangeMin);
-		needed.push_back(XML_GDTF_WiringObjectVoltageRangeMax);
-		needed.push_back(XML_GDTF_WiringObjectFrequencyRangeMin);
-		needed.push_back(XML_GDTF_WiringObjectFrequencyRangeMax);
-		needed.push_back(XML_GDTF_WiringObjectCosPhi);
-	}
-	else
-	{
-		optional.push_back(XML_GDTF_WiringObjectElectricalPayLoad);
-		optional.push_back(XML_GDTF_WiringObjectVoltageRangeMin);
-		optional.push_back(XML_GDTF_WiringObjectVoltageRangeMax);
-		optional.push_back(XML_GDTF_WiringObjectFrequencyRangeMin);
-		optional.push_back(XML_GDTF_WiringObjectFrequencyRangeMax);
-		optional.push_back(XML_GDTF_WiringObjectCosPhi);
-
-	}
-
-	if(fComponentType == EGdtfComponentType::PowerSource)
-	{
-		needed.push_back(XML_GDTF_WiringObjectMaxPayLoad);
-		needed.push_back(XML_GDTF_WiringObjectVoltage);
-	}
-	else
-	{
-		optional.push_back(XML_GDTF_WiringObjectMaxPayLoad);
-		optional.push_back(XML_GDTF_WiringObjectVoltage);
-	}
-
-	if(fComponentType == EGdtfComponentType::Fuse)
-	{
-		needed.push_back(XML_GDTF_WiringObjectFuseCurrent);
-		needed.push_back(XML_GDTF_WiringObjectFuseRating);
-	}
-	else
-	{
-		optional.push_back(XML_GDTF_WiringObjectFuseCurrent);
-		optional.push_back(XML_GDTF_WiringObjectFuseRating);
-	}
-
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfGeometryWiringObject::GetObjectType() 
-{
-	return EGdtfObjectType::eGdtfGeometryWiringObject;
-}
-
-TXString GdtfGeometryWiringObject::GetNodeName()
-{
-	return XML_GDTF_WiringObjectNodeName;
-}
-
-//------------------------------------------------------------------------------------
-// GdtfGeometryInventory
-GdtfGeometryInventory::GdtfGeometryInventory(GdtfGeometry* parent)
-					:GdtfGeometry(parent)
-{
-}
-
-GdtfGeometryInventory::GdtfGeometryInventory(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma, GdtfGeometry* parent) 
-					:GdtfGeometry(name, refToModel, ma, parent)
-{
-}
-
-GdtfGeometryInventory::~GdtfGeometryInventory()
-{
-}
-
-size_t GdtfGeometryInventory::GetCount() const
-{
-	return fCount;
-}
-
-void GdtfGeometryInventory::SetCount(size_t count)
-{
-	fCount = count;
-}
-
-void GdtfGeometryInventory::OnPrintToFile(IXMLFileNodePtr pNode) 
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfGeometry::OnPrintToFile(pNode);
-
-	pNode->SetNodeAttributeValue(XML_GDTF_InventoryCount,	GdtfConverter::ConvertInteger(fCount));
-}
-
-void GdtfGeometryInventory::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfGeometry::OnReadFromNode(pNode);
-
-	TXString count;	pNode->GetNodeAttributeValue(XML_GDTF_InventoryCount, count);	GdtfConverter::ConvertInteger(count, pNode, fCount);
-}
-
-void GdtfGeometryInventory::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_GeometryName);
-	optional.push_back(XML_GDTF_GeometryModelRef);
-	needed.push_back(XML_GDTF_GeometryMatrix);
-	needed.push_back(XML_GDTF_InventoryCount);
-
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfGeometryInventory::GetObjectType() 
-{
-	return EGdtfObjectType::eGdtfGeometryInventory;
-}
-
-TXString GdtfGeometryInventory::GetNodeName()
-{
-	return XML_GDTF_InventoryNodeName;
-}
-
-//------------------------------------------------------------------------------------
-// GdtfGeometryStructure
-GdtfGeometryStructure::GdtfGeometryStructure(GdtfGeometry* parent)
-					:GdtfGeometry(parent)
-{
-	fLinkedGeometry = nullptr;
-	fTrussCrossSection = "";
-}
-
-GdtfGeometryStructure::GdtfGeometryStructure(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma, GdtfGeometry* parent) 
-					:GdtfGeometry(name, refToModel, ma, parent)
-{
-	fLinkedGeometry = nullptr;
-	fTrussCrossSection = "";
-}
-
-GdtfGeometryStructure::~GdtfGeometryStructure()
-{
-}
-
-GdtfGeometry* GdtfGeometryStructure::GetLinkedGeometry() const
-{
-	return fLinkedGeometry;
-}
-
-EGdtfStructureType GdtfGeometryStructure::GetStructureType() const
-{
-	return fStructureType;
-}
-
-EGdtfCrossSectionType GdtfGeometryStructure::GetCrossSectionType() const
-{
-	return fCrossSectionType;
-}
-
-double GdtfGeometryStructure::GetCrossSectionHeight() const
-{
-	return fCrossSectionHeight;
-}
-
-double GdtfGeometryStructure::GetCrossSectionWallThickness() const
-{
-	return fCrossSectionWallThickness;
-}
-
-const TXString& GdtfGeometryStructure::GetTrussCrossSection() const
-{
-	return fTrussCrossSection;
-}
-
-const TXString&	GdtfGeometryStructure::GetUnresolvedLinkedGeometry() const
-{
-	return fUnresolvedLinkedGeometry;
-}
-
-void GdtfGeometryStructure::SetLinkedGeometry(GdtfGeometry* linkedGeometry)
-{
-	fLinkedGeometry = linkedGeometry;
-}
-
-void GdtfGeometryStructure::SetStructureType(const EGdtfStructureType& structureType)
-{
-	fStructureType = structureType;
-}
-
-void GdtfGeometryStructure::SetCrossSectionType(const EGdtfCrossSectionType& crossSectionType)
-{
-	fCrossSectionType = crossSectionType;
-}
-
-void GdtfGeometryStructure::SetCrossSectionHeight(double crossSectionHeight)
-{
-	fCrossSectionHeight = crossSectionHeight;
-}
-
-void GdtfGeometryStructure::SetCrossSectionWallThickness(double crossSectionWallThickness)
-{
-	fCrossSectionWallThickness = crossSectionWallThickness;
-}
-
-void GdtfGeometryStructure::SetTrussCrossSection(const TXString& trussCrossSection)
-{
-	fTrussCrossSection = trussCrossSection;
-}
-
-void GdtfGeometryStructure::OnPrintToFile(IXMLFileNodePtr pNode) 
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfGeometry::OnPrintToFile(pNode);
-
-	TXString linkedGeometry = "";
-	if(fLinkedGeometry) { linkedGeometry = fLinkedGeometry->GetNodeReference(); }
-
-	pNode->SetNodeAttributeValue(XML_GDTF_StructureLinkedGeometry,				linkedGeometry);
-	pNode->SetNodeAttributeValue(XML_GDTF_StructureStructureType,				GdtfConverter::ConvertStructureTypeEnum(fStructureType));
-	pNode->SetNodeAttributeValue(XML_GDTF_StructureCrossSectionType,			GdtfConverter::ConvertCrossSectionTypeEnum(fCrossSectionType));
-	pNode->SetNodeAttributeValue(XML_GDTF_StructureCrossSectionHeight,			GdtfConverter::ConvertDouble(fCrossSectionHeight));
-	pNode->SetNodeAttributeValue(XML_GDTF_StructureCrossSectionWallThickness,	GdtfConverter::ConvertDouble(fCrossSectionWallThickness));
-	pNode->SetNodeAttributeValue(XML_GDTF_StructureTrussCrossSection,			fTrussCrossSection);
-}
-
-void GdtfGeometryStructure::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfGeometry::OnReadFromNode(pNode);
-										pNode->GetNodeAttributeValue(XML_GDTF_StructureLinkedGeometry, fUnresolvedLinkedGeometry);
-	TXString structureType;				pNode->GetNodeAttributeValue(XML_GDTF_StructureStructureType, structureType);							GdtfConverter::ConvertStructureTypeEnum(structureType, pNode, fStructureType);
-	TXString crossSectionType;			pNode->GetNodeAttributeValue(XML_GDTF_StructureCrossSectionType, crossSectionType);						GdtfConverter::ConvertCrossSectionTypeEnum(crossSectionType, pNode, fCrossSectionType);
-	TXString crossSectionHeight;		pNode->GetNodeAttributeValue(XML_GDTF_StructureCrossSectionHeight, crossSectionHeight);					GdtfConverter::ConvertDouble(crossSectionHeight, pNode, fCrossSectionHeight);
-	TXString crossSectionWallThickness;	pNode->GetNodeAttributeValue(XML_GDTF_StructureCrossSectionWallThickness, crossSectionWallThickness);	GdtfConverter::ConvertDouble(crossSectionWallThickness, pNode, fCrossSectionWallThickness);
-										pNode->GetNodeAttributeValue(XML_GDTF_StructureTrussCrossSection, fTrussCrossSection);
-}
-
-void GdtfGeometryStructure::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_GeometryName);
-	optional.push_back(XML_GDTF_GeometryModelRef);
-	needed.push_back(XML_GDTF_GeometryMatrix);
-	optional.push_back(XML_GDTF_StructureLinkedGeometry);
-	needed.push_back(XML_GDTF_StructureStructureType);
-	optional.push_back(XML_GDTF_StructureCrossSectionType);
-	if(fCrossSectionType == EGdtfCrossSectionType::Tube)
-	{
-		needed.push_back(XML_GDTF_StructureCrossSectionHeight);
-		needed.push_back(XML_GDTF_StructureCrossSectionWallThickness);
-		optional.push_back(XML_GDTF_StructureTrussCrossSection);
-	}
-	else /* TrussFramework */
-	{
-		optional.push_back(XML_GDTF_StructureCrossSectionHeight);
-		optional.push_back(XML_GDTF_StructureCrossSectionWallThickness);
-		needed.push_back(XML_GDTF_StructureTrussCrossSection);
-	}
-
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfGeometryStructure::GetObjectType() 
-{
-	return EGdtfObjectType::eGdtfGeometryStructure;
-}
-
-TXString GdtfGeometryStructure::GetNodeName()
-{
-	return XML_GDTF_StructureNodeName;
-}
-
-//------------------------------------------------------------------------------------
-// GdtfGeometrySupport
-GdtfGeometrySupport::GdtfGeometrySupport(GdtfGeometry* parent)
-					:GdtfGeometry(parent)
-{
-	fRopeCrossSection = "";
-}
-
-GdtfGeometrySupport::GdtfGeometrySupport(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma, GdtfGeometry* parent) 
-					:GdtfGeometry(name, refToModel, ma, parent)
-{
-	fRopeCrossSection = "";
-}
-
-GdtfGeometrySupport::~GdtfGeometrySupport()
-{
-}
-
-EGdtfSupportType GdtfGeometrySupport::GetSupportType() const
-{
-	return fSupportType;
-}
-
-double GdtfGeometrySupport::GetCapacityX() const
-{
-	return fCapacityX;
-}
-
-double GdtfGeometrySupport::GetCapacityY() const
-{
-	return fCapacityY;
-}
-
-double GdtfGeometrySupport::GetCapacityZ() const
-{
-	return fCapacityZ;
-}
-
-double GdtfGeometrySupport::GetCapacityXX() const
-{
-	return fCapacityXX;
-}
-
-double GdtfGeometrySupport::GetCapacityYY() const
-{
-	return fCapacityYY;
-}
-
-double GdtfGeometrySupport::GetCapacityZZ() const
-{
-	return fCapacityZZ;
-}
-
-const TXString& GdtfGeometrySupport::GetRopeCrossSection() const
-{
-	return fRopeCrossSection;
-}
-
-VWPoint3D GdtfGeometrySupport::GetRopeOffset()
-{
-	return fRopeOffset;
-}
-
-double GdtfGeometrySupport::GetResistanceX() const
-{
-	return fResistanceX;
-}
-
-double GdtfGeometrySupport::GetResistanceY() const
-{
-	return fResistanceY;
-}
-
-double GdtfGeometrySupport::GetResistanceZ() const
-{
-	return fResistanceZ;
-}
-
-double GdtfGeometrySupport::GetResistanceXX() const
-{
-	return fResistanceXX;
-}
-
-double GdtfGeometrySupport::GetResistanceYY() const
-{
-	return fResistanceYY;
-}
-
-double GdtfGeometrySupport::GetResistanceZZ() const
-{
-	return fResistanceZZ;
-}
-
-void GdtfGeometrySupport::SetSupportType(const EGdtfSupportType& supportType)
-{
-	fSupportType = supportType;
-}
-
-void GdtfGeometrySupport::SetCapacityX(double capacityX)
-{
-	fCapacityX = capacityX;
-}
-
-void GdtfGeometrySupport::SetCapacityY(double capacityY)
-{
-	fCapacityY = capacityY;
-}
-
-void GdtfGeometrySupport::SetCapacityZ(double capacityZ)
-{
-	fCapacityZ = capacityZ;
-}
-
-void GdtfGeometrySupport::SetCapacityXX(double capacityXX)
-{
-	fCapacityXX = capacityXX;
-}
-
-void GdtfGeometrySupport::SetCapacityYY(double capacityYY)
-{
-	fCapacityYY = capacityYY;
-}
-
-void GdtfGeometrySupport::SetCapacityZZ(double capacityZZ)
-{
-	fCapacityZZ = capacityZZ;
-}
-
-void GdtfGeometrySupport::SetRopeCrossSection(const TXString& ropeCrossSection)
-{
-	fRopeCrossSection = ropeCrossSection;
-}
-
-void GdtfGeometrySupport::SetRopeOffset(double x, double y, double z)
-{
-	fRopeOffset.SetPoint(x, y, z);
-}
-
-void GdtfGeometrySupport::SetResistanceX(double resistanceX)
-{
-	fResistanceX = resistanceX;
-}
-
-void GdtfGeometrySupport::SetResistanceY(double resistanceY)
-{
-	fResistanceY = resistanceY;
-}
-
-void GdtfGeometrySupport::SetResistanceZ(double resistanceZ)
-{
-	fResistanceZ = resistanceZ;
-}
-
-void GdtfGeometrySupport::SetResistanceXX(double resistanceXX)
-{
-	fResistanceXX = resistanceXX;
-}
-
-void GdtfGeometrySupport::SetResistanceYY(double resistanceYY)
-{
-	fResistanceYY = resistanceYY;
-}
-
-void GdtfGeometrySupport::SetResistanceZZ(double resistanceZZ)
-{
-	fResistanceZZ = resistanceZZ;
-}
-
-void GdtfGeometrySupport::OnPrintToFile(IXMLFileNodePtr pNode) 
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfGeometry::OnPrintToFile(pNode);
-
-	pNode->SetNodeAttributeValue(XML_GDTF_SupportSupportType,		GdtfConverter::ConvertSupportTypeEnum(fSupportType));
-	pNode->SetNodeAttributeValue(XML_GDTF_SupportCapacityX,			GdtfConverter::ConvertDouble(fCapacityX));
-	pNode->SetNodeAttributeValue(XML_GDTF_SupportCapacityY,			GdtfConverter::ConvertDouble(fCapacityY));
-	pNode->SetNodeAttributeValue(XML_GDTF_SupportCapacityZ,			GdtfConverter::ConvertDouble(fCapacityZ));
-	pNode->SetNodeAttributeValue(XML_GDTF_SupportCapacityXX,		GdtfConverter::ConvertDouble(fCapacityXX));
-	pNode->SetNodeAttributeValue(XML_GDTF_SupportCapacityYY,		GdtfConverter::ConvertDouble(fCapacityYY));
-	pNode->SetNodeAttributeValue(XML_GDTF_SupportCapacityZZ,		GdtfConverter::ConvertDouble(fCapacityZZ));
-	pNode->SetNodeAttributeValue(XML_GDTF_SupportRopeCrossSection,	fRopeCrossSection);
-	pNode->SetNodeAttributeValue(XML_GDTF_SupportRopeOffset,		GdtfConverter::ConvertVector3(fRopeOffset));
-	pNode->SetNodeAttributeValue(XML_GDTF_SupportResistanceX,		GdtfConverter::ConvertDouble(fResistanceX));
-	pNode->SetNodeAttributeValue(XML_GDTF_SupportResistanceY,		GdtfConverter::ConvertDouble(fResistanceY));
-	pNode->SetNodeAttributeValue(XML_GDTF_SupportResistanceZ,		GdtfConverter::ConvertDouble(fResistanceZ));
-	pNode->SetNodeAttributeValue(XML_GDTF_SupportResistanceXX,		GdtfConverter::ConvertDouble(fResistanceXX));
-	pNode->SetNodeAttributeValue(XML_GDTF_SupportResistanceYY,		GdtfConverter::ConvertDouble(fResistanceYY));
-	pNode->SetNodeAttributeValue(XML_GDTF_SupportResistanceZZ,		GdtfConverter::ConvertDouble(fResistanceZZ));
-}
-
-void GdtfGeometrySupport::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfGeometry::OnReadFromNode(pNode);
-	TXString supportType;	pNode->GetNodeAttributeValue(XML_GDTF_SupportSupportType, supportType);		GdtfConverter::ConvertSupportTypeEnum(supportType, pNode, fSupportType);
-	TXString capacityX;		pNode->GetNodeAttributeValue(XML_GDTF_SupportCapacityX, capacityX);			GdtfConverter::ConvertDouble(capacityX, pNode, fCapacityX);
-	TXString capacityY;		pNode->GetNodeAttributeValue(XML_GDTF_SupportCapacityY, capacityY);			GdtfConverter::ConvertDouble(capacityY, pNode, fCapacityY);
-	TXString capacityZ;		pNode->GetNodeAttributeValue(XML_GDTF_SupportCapacityZ, capacityZ);			GdtfConverter::ConvertDouble(capacityZ, pNode, fCapacityZ);
-	TXString capacityXX;	pNode->GetNodeAttributeValue(XML_GDTF_SupportCapacityXX, capacityXX);		GdtfConverter::ConvertDouble(capacityXX, pNode, fCapacityXX);
-	TXString capacityYY;	pNode->GetNodeAttributeValue(XML_GDTF_SupportCapacityYY, capacityYY);		GdtfConverter::ConvertDouble(capacityYY, pNode, fCapacityYY);
-	TXString capacityZZ;	pNode->GetNodeAttributeValue(XML_GDTF_SupportCapacityZZ, capacityZZ);		GdtfConverter::ConvertDouble(capacityZZ, pNode, fCapacityZZ);
-							pNode->GetNodeAttributeValue(XML_GDTF_SupportRopeCrossSection, fRopeCrossSection);
-	TXString ropeOffset;	pNode->GetNodeAttributeValue(XML_GDTF_SupportRopeOffset, ropeOffset);		GdtfConverter::ConvertVector3(ropeOffset, pNode, fRopeOffset);
-	TXString resistanceX;	pNode->GetNodeAttributeValue(XML_GDTF_SupportResistanceX, resistanceX);		GdtfConverter::ConvertDouble(resistanceX, pNode, fResistanceX);
-	TXString resistanceY;	pNode->GetNodeAttributeValue(XML_GDTF_SupportResistanceY, resistanceY);		GdtfConverter::ConvertDouble(resistanceY, pNode, fResistanceY);
-	TXString resistanceZ;	pNode->GetNodeAttributeValue(XML_GDTF_SupportResistanceZ, resistanceZ);		GdtfConverter::ConvertDouble(resistanceZ, pNode, fResistanceZ);
-	TXString resistanceXX;	pNode->GetNodeAttributeValue(XML_GDTF_SupportResistanceXX, resistanceXX);	GdtfConverter::ConvertDouble(resistanceXX, pNode, fResistanceXX);
-	TXString resistanceYY;	pNode->GetNodeAttributeValue(XML_GDTF_SupportResistanceYY, resistanceYY);	GdtfConverter::ConvertDouble(resistanceYY, pNode, fResistanceYY);
-	TXString resistanceZZ;	pNode->GetNodeAttributeValue(XML_GDTF_SupportResistanceZZ, resistanceZZ);	GdtfConverter::ConvertDouble(resistanceZZ, pNode, fResistanceZZ);
-}
-
-void GdtfGeometrySupport::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_GeometryName);
-	optional.push_back(XML_GDTF_GeometryModelRef);
-	needed.push_back(XML_GDTF_GeometryMatrix);
-	needed.push_back(XML_GDTF_SupportSupportType);
-	
-	if(fSupportType == EGdtfSupportType::Rope)
-	{
-		needed.push_back(XML_GDTF_SupportRopeCrossSection);
-		needed.push_back(XML_GDTF_SupportRopeOffset);
-		optional.push_back(XML_GDTF_SupportCapacityX);
-		optional.push_back(XML_GDTF_SupportCapacityY);
-		optional.push_back(XML_GDTF_SupportCapacityZ);
-		optional.push_back(XML_GDTF_SupportCapacityXX);
-		optional.push_back(XML_GDTF_SupportCapacityYY);
-		optional.push_back(XML_GDTF_SupportCapacityZZ);
-		optional.push_back(XML_GDTF_SupportResistanceX);
-		optional.push_back(XML_GDTF_SupportResistanceY);
-		optional.push_back(XML_GDTF_SupportResistanceZ);
-		optional.push_back(XML_GDTF_SupportResistanceXX);
-		optional.push_back(XML_GDTF_SupportResistanceYY);
-		optional.push_back(XML_GDTF_SupportResistanceZZ);
-	}
-	else /* GroundSupport */
-	{
-		optional.push_back(XML_GDTF_SupportRopeCrossSection);
-		optional.push_back(XML_GDTF_SupportRopeOffset);
-		needed.push_back(XML_GDTF_SupportCapacityX);
-		needed.push_back(XML_GDTF_SupportCapacityY);
-		needed.push_back(XML_GDTF_SupportCapacityZ);
-		needed.push_back(XML_GDTF_SupportCapacityXX);
-		needed.push_back(XML_GDTF_SupportCapacityYY);
-		needed.push_back(XML_GDTF_SupportCapacityZZ);
-		needed.push_back(XML_GDTF_SupportResistanceX);
-		needed.push_back(XML_GDTF_SupportResistanceY);
-		needed.push_back(XML_GDTF_SupportResistanceZ);
-		needed.push_back(XML_GDTF_SupportResistanceXX);
-		needed.push_back(XML_GDTF_SupportResistanceYY);
-		needed.push_back(XML_GDTF_SupportResistanceZZ);
-	}
-
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfGeometrySupport::GetObjectType() 
-{
-	return EGdtfObjectType::eGdtfGeometrySupport;
-}
-
-TXString GdtfGeometrySupport::GetNodeName()
-{
-	return XML_GDTF_SupportNodeName;
-}
-
-//------------------------------------------------------------------------------------
-// GdtfGeometryMagnet
-GdtfGeometryMagnet::GdtfGeometryMagnet(GdtfGeometry* parent)
-					:GdtfGeometry(parent)
-{
-}
-
-GdtfGeometryMagnet::GdtfGeometryMagnet(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma, GdtfGeometry* parent) 
-					:GdtfGeometry(name, refToModel, ma, parent)
-{
-}
-
-GdtfGeometryMagnet::~GdtfGeometryMagnet()
-{
-}
-
-void GdtfGeometryMagnet::OnPrintToFile(IXMLFileNodePtr pNode) 
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfGeometry::OnPrintToFile(pNode);
-}
-
-void GdtfGeometryMagnet::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfGeometry::OnReadFromNode(pNode);
-}
-
-void GdtfGeometryMagnet::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_GeometryName);
-	optional.push_back(XML_GDTF_GeometryModelRef);
-	needed.push_back(XML_GDTF_GeometryMatrix);
-
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfGeometryMagnet::GetObjectType() 
-{
-	return EGdtfObjectType::eGdtfGeometryMagnet;
-}
-
-TXString GdtfGeometryMagnet::GetNodeName()
-{
-	return XML_GDTF_MagnetNodeName;
-}
-
-//------------------------------------------------------------------------------------
-// GdtfGeometryLamp
-GdtfGeometryLamp::GdtfGeometryLamp(GdtfGeometry* parent) 
-				: GdtfGeometry(parent)
-{
-    InitializeMembersWithDefaultsVals(); // Call this function at first
-}
-
-GdtfGeometryLamp::GdtfGeometryLamp(const TXString& name, GdtfModelPtr refToModel,const VWTransformMatrix& ma, GdtfGeometry* parent)
-				: GdtfGeometry(name,refToModel,ma, parent)
-{
-    InitializeMembersWithDefaultsVals(); // Call this function at first
-}
-
-void GdtfGeometryLamp::InitializeMembersWithDefaultsVals() 
-{
-	fLampType			= EGdtfLampType::eGdtfLampType_Dischange;
-	fPowerConsuption	= 1000;
-	fLuminousIntensity	= 10000;
-	fColorTemperature	= 6000;
-	fBeamAngle			= 25;
-    fFieldAngle         = 25;
-	fBeamRadius			= 50; //0.05m
-	fThrowRatio			= 1;
-	fRectangleRatio		= 1.7777;
-	fBeamType			= EGdtfBeamType::eGdtfBeamType_Wash;
-	fColorIndex			= 100;
-	fEmitterSpectrum	= nullptr;
-}
-
-GdtfGeometryLamp::~GdtfGeometryLamp()
-{
-}
-
-void GdtfGeometryLamp::SetLampType(EGdtfLampType type)
-{
-	fLampType = type;
-}
-
-void GdtfGeometryLamp::SetPowerConsumption(double powerConsumption)
-{
-	fPowerConsuption = powerConsumption;
-}
-
-void GdtfGeometryLamp::SetLuminousIntensity(double intensity)
-{
-	fLuminousIntensity = intensity;
-}
-
-void GdtfGeometryLamp::SetColorTemperature(double temperature)
-{
-	fColorTemperature = temperature;
-}
-
-void GdtfGeometryLamp::SetBeamAngle(double angle)
-{
-	fBeamAngle = angle;
-}
-
-void SceneData::GdtfGeometryLamp::SetFieldAngle(double angle)
-{
-    fFieldAngle = angle;
-}
-
-void SceneData::GdtfGeometryLamp::SetBeamRadius(double radius)
-{
-    fBeamRadius = radius;
-}
-
-void SceneData::GdtfGeometryLamp::SetThrowRatio(double ratio)
-{
-    fThrowRatio = ratio;
-}
-
-void SceneData::GdtfGeometryLamp::SetRectangleRatio(double ratio)
-{
-    fRectangleRatio = ratio;
-}
-
-void SceneData::GdtfGeometryLamp::SetBeamType(EGdtfBeamType type)
-{
-    fBeamType = type;
-}
-
-void SceneData::GdtfGeometryLamp::SetColorIndex(Sint32 idx)
-{
-    fColorIndex = idx;
-}
-
-void GdtfGeometryLamp::SetEmitterSpectrum(GdtfPhysicalEmitter* emitterSpectrum)
-{
-    fEmitterSpectrum = emitterSpectrum;
-}
-
-void GdtfGeometryLamp::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfGeometry::OnPrintToFile(pNode);
-	
-	
-	// ------------------------------------------------------------------------------------
-	// Print node attributes
-	pNode->SetNodeAttributeValue(XML_GDTF_LampLampType,				GdtfConverter::ConvertLampeType(fLampType));
-	pNode->SetNodeAttributeValue(XML_GDTF_LampPowerConsumption,		GdtfConverter::ConvertDouble(fPowerConsuption));
-	pNode->SetNodeAttributeValue(XML_GDTF_LampLuminousFlux,	        GdtfConverter::ConvertDouble(fLuminousIntensity));
-	pNode->SetNodeAttributeValue(XML_GDTF_ColorTemperature,			GdtfConverter::ConvertDouble(fColorTemperature));
-	pNode->SetNodeAttributeValue(XML_GDTF_BeamAngle,				GdtfConverter::ConvertDouble(fBeamAngle));
-	pNode->SetNodeAttributeValue(XML_GDTF_BeamRadius,				GdtfConverter::ConvertDouble(fBeamRadius));
-	pNode->SetNodeAttributeValue(XML_GDTF_FieldAngle,				GdtfConverter::ConvertDouble(fFieldAngle));
-	pNode->SetNodeAttributeValue(XML_GDTF_ThrowRatio,				GdtfConverter::ConvertDouble(fThrowRatio));
-	pNode->SetNodeAttributeValue(XML_GDTF_RectangleRatio,			GdtfConverter::ConvertDouble(fRectangleRatio));
-	pNode->SetNodeAttributeValue(XML_GDTF_BeamType,					GdtfConverter::ConvertBeamType(fBeamType));
-	pNode->SetNodeAttributeValue(XML_GDTF_BeamColorRenderingIndex,	GdtfConverter::ConvertInteger(fColorIndex));
-
-	if (fEmitterSpectrum) {pNode->SetNodeAttributeValue(XML_GDTF_BeamEmitterSpectrum, fEmitterSpectrum->GetNodeReference()); };
-	
-}
-
-void GdtfGeometryLamp::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfGeometry::OnReadFromNode(pNode);
-	
-	
-	// ------------------------------------------------------------------------------------
-	// Print node attributes
-	TXString lampType;		pNode->GetNodeAttributeValue(XML_GDTF_LampLampType,				lampType);		GdtfConverter::ConvertLampeType(lampType, 	pNode,	fLampType);
-	TXString power;			pNode->GetNodeAttributeValue(XML_GDTF_LampPowerConsumption,		power);			GdtfConverter::ConvertDouble(power, 		pNode,	fPowerConsuption);
-	TXString lum;			pNode->GetNodeAttributeValue(XML_GDTF_LampLuminousFlux,			lum);			GdtfConverter::ConvertDouble(lum, 			pNode,	fLuminousIntensity);
-	TXString colorTemp;		pNode->GetNodeAttributeValue(XML_GDTF_ColorTemperature,			colorTemp);		GdtfConverter::ConvertDouble(colorTemp, 	pNode,	fColorTemperature);
-	TXString angle;			pNode->GetNodeAttributeValue(XML_GDTF_BeamAngle,				angle);			GdtfConverter::ConvertDouble(angle, 		pNode,	fBeamAngle);
-	TXString radius;		pNode->GetNodeAttributeValue(XML_GDTF_BeamRadius,				radius);		GdtfConverter::ConvertDouble(radius, 		pNode,	fBeamRadius);
-	TXString fieldAngle;	pNode->GetNodeAttributeValue(XML_GDTF_FieldAngle,				fieldAngle);	GdtfConverter::ConvertDouble(fieldAngle, 	pNode,	fFieldAngle);
-	TXString throwRatio;	pNode->GetNodeAttributeValue(XML_GDTF_ThrowRatio,				throwRatio);	GdtfConverter::ConvertDouble(throwRatio, 	pNode,	fThrowRatio);
-	TXString rectangleRatio;pNode->GetNodeAttributeValue(XML_GDTF_RectangleRatio,			rectangleRatio);GdtfConverter::ConvertDouble(rectangleRatio,pNode,	fRectangleRatio);
-	TXString type;			pNode->GetNodeAttributeValue(XML_GDTF_BeamType,					type);			GdtfConverter::ConvertBeamType(type, 		pNode,	fBeamType);
-	TXString colorIndex;	pNode->GetNodeAttributeValue(XML_GDTF_BeamColorRenderingIndex,	colorIndex);	GdtfConverter::ConvertInteger(colorIndex, 	pNode,	fColorIndex);
-
-	pNode->GetNodeAttributeValue(XML_GDTF_BeamEmitterSpectrum, fUnresolvedEmitterRef);
-}
-
-void GdtfGeometryLamp::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_GeometryName);
-	needed.push_back(XML_GDTF_GeometryMatrix);
-	optional.push_back(XML_GDTF_LampLampType);
-	optional.push_back(XML_GDTF_LampPowerConsumption);
-	optional.push_back(XML_GDTF_LampLuminousFlux);
-	optional.push_back(XML_GDTF_ColorTemperature);
-	optional.push_back(XML_GDTF_BeamAngle);
-	optional.push_back(XML_GDTF_FieldAngle);
-	optional.push_back(XML_GDTF_BeamRadius);
-	optional.push_back(XML_GDTF_ThrowRatio);
-	optional.push_back(XML_GDTF_RectangleRatio);
-	optional.push_back(XML_GDTF_BeamType);
-	optional.push_back(XML_GDTF_BeamColorRenderingIndex);
-	optional.push_back(XML_GDTF_GeometryModelRef);
-	optional.push_back(XML_GDTF_BeamEmitterSpectrum);
-
-	
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfGeometryLamp::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfGeometryLamp;
-}
-
-TXString GdtfGeometryLamp::GetNodeName()
-{
-	return XML_GDTF_LampNodeName;
-}
-
-EGdtfLampType GdtfGeometryLamp::GetLampType()
-{
-	return fLampType;
-}
-
-double GdtfGeometryLamp::GetPowerConsumption()
-{
-	return fPowerConsuption;
-}
-
-double GdtfGeometryLamp::GetLuminousIntensity()
-{
-	return fLuminousIntensity;
-}
-
-double GdtfGeometryLamp::GetColorTemperature()
-{
-	return fColorTemperature;
-}
-
-double GdtfGeometryLamp::GetBeamAngle()
-{
-	return fBeamAngle;
-}
-
-double GdtfGeometryLamp::GetFieldAngle()
-{
-    return fFieldAngle;
-}
-
-double GdtfGeometryLamp::GetBeamRadius()
-{
-    return fBeamRadius;
-}
-
-double GdtfGeometryLamp::GetThrowRatio()
-{
-	return fThrowRatio;
-}
-
-double GdtfGeometryLamp::GetRectangleRatio()
-{
-	return fRectangleRatio;
-}
-
-EGdtfBeamType GdtfGeometryLamp::GetBeamType()
-{
-    return fBeamType;
-}
-
-Sint32 GdtfGeometryLamp::GetColorIndex()
-{
-    return fColorIndex;
-}
-
-GdtfPhysicalEmitter* GdtfGeometryLamp::GetEmitterSpectrum()
-{
-    return fEmitterSpectrum;
-}
-
-const TXString& GdtfGeometryLamp::GetUnresolvedEmitterRef() const
-{
-	return fUnresolvedEmitterRef;
-}
-
-//------------------------------------------------------------------------------------
-// GdtfGeometryReference
-GdtfBreak::GdtfBreak() : GdtfObject()
-{
-	fDmxBreak	= 1;
-	fDmxAdress	= 1;
-}
-
-
-GdtfBreak::~GdtfBreak()
-{
-}
-
-void GdtfBreak::SetDmxBreak(Sint32 dmxBreak)
-{
-	fDmxBreak = dmxBreak;
-}
-
-void GdtfBreak::SetDmxAddress(DMXAddress dmxAddress)
-{
-	fDmxAdress = dmxAddress;
-}
-
-void GdtfBreak::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnPrintToFile(pNode);
-	
-	
-	// ------------------------------------------------------------------------------------
-	// Print node attributes
-	pNode->SetNodeAttributeValue(XML_GDTF_BreakDMXBreak,	GdtfConverter::ConvertInteger(fDmxBreak));
-	pNode->SetNodeAttributeValue(XML_GDTF_BreakOffset,		GdtfConverter::ConvertDMXAdress(fDmxAdress));
-	
-}
-
-void GdtfBreak::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnReadFromNode(pNode);
-	
-	
-	// ------------------------------------------------------------------------------------
-	// Print node attributes
-	TXString dmxbreak;	pNode->GetNodeAttributeValue(XML_GDTF_BreakDMXBreak,dmxbreak	); GdtfConverter::ConvertInteger(dmxbreak, pNode, fDmxBreak);
-	TXString dmxAdress;	pNode->GetNodeAttributeValue(XML_GDTF_BreakOffset,	dmxAdress	); GdtfConverter::ConvertDMXAdress(dmxAdress, pNode, fDmxAdress);
-}
-
-void GdtfBreak::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	optional.push_back(XML_GDTF_BreakOffset);
-	optional.push_back(XML_GDTF_BreakDMXBreak);
-	
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfBreak::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfBreak;
-}
-
-TXString GdtfBreak::GetNodeName()
-{
-	return XML_GDTF_BreakNodeName;
-}
-
-Sint32 GdtfBreak::GetDmxBreak()
-{
-	return fDmxBreak;
-}
-
-DMXAddress GdtfBreak::GetDmxAddress()
-{
-	return fDmxAdress;
-}
-
-
-
-//------------------------------------------------------------------------------------
-// GdtfGeometryReference
-GdtfGeometryReference::GdtfGeometryReference(GdtfGeometry* parent) 
-					 : GdtfGeometry(parent)
-{
-	fLinkedGeometry = nullptr;
-}
-
-GdtfGeometryReference::GdtfGeometryReference(const TXString& name, GdtfModelPtr refToModel,const VWTransformMatrix& ma, GdtfGeometry* parent) 
-					 : GdtfGeometry(name,refToModel,ma, parent)
-{
-	fLinkedGeometry = nullptr;
-}
-
-GdtfGeometryReference::~GdtfGeometryReference()
-{
-	for (GdtfBreakPtr ptr : fBreaks) { delete ptr; }
-}
-
-GdtfBreak* GdtfGeometryReference::AddBreak()
-{
-	GdtfBreak* gdtfBreak = new GdtfBreak();
-	fBreaks.push_back(gdtfBreak);
-	return gdtfBreak;
-}
-
-GdtfGeometry* GdtfGeometryReference::GetLinkedGeometry()
-{
-	return fLinkedGeometry;
-}
-
-const TXString& GdtfGeometryReference::GetUnresolvedLinkedGeometry()
-{
-	return fUnresolvedGeoRef;
-}
-
-void GdtfGeometryReference::SetLinkedGeometry(GdtfGeometry* ptr)
-{
-	fLinkedGeometry = ptr;
-}
-
-void GdtfGeometryReference::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfGeometry::OnPrintToFile(pNode);
-	
-	
-	//------------------------------------------------------------------------------------
-	// Print the content
-	for (GdtfBreak* breakObj : fBreaks)
-	{
-		breakObj->WriteToNode(pNode);
-	}
-
-	if(fLinkedGeometry) { pNode->SetNodeAttributeValue(XML_GDTF_GeometryReferenceLinkedGeo, fLinkedGeometry->GetNodeReference()); }
-
-	
-}
-
-void GdtfGeometryReference::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfGeometry::OnReadFromNode(pNode);
-	
-	// The breaks are read in the parent OnReadFromNode
-
-	pNode->GetNodeAttributeValue(XML_GDTF_GeometryReferenceLinkedGeo, fUnresolvedGeoRef); 
-
-	
-}
-
-void GdtfGeometryReference::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_GeometryName);
-	optional.push_back(XML_GDTF_GeometryModelRef);
-	needed.push_back(XML_GDTF_GeometryReferenceLinkedGeo);
-	needed.push_back(XML_GDTF_GeometryMatrix);
-
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfGeometryReference::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfGeometryReference;
-}
-
-TXString GdtfGeometryReference::GetNodeName()
-{
-	return XML_GDTF_GeometryReferenceNodeName;
-}
-
-TGdtfBreakArray GdtfGeometryReference::GetBreakArray()
-{
-	return fBreaks;
-}
-
-//------------------------------------------------------------------------------------
-// GdtfDmxMode
-
-GdtfDmxMode::GdtfDmxMode(GdtfFixture* fixture, const TXString& name)
-{
-	fName		= name;
-	fGeomRef    = nullptr;
-	fFixture    = fixture;
-}
-
-GdtfDmxMode::~GdtfDmxMode()
-{
-    // Housekeeping
-    for (GdtfDmxChannelPtr	ptr : fChannels)	{ delete ptr; }
-	for (GdtfDmxRelationPtr	ptr : fRelations)	{ delete ptr; }
-	for (GdtfMacroPtr		ptr : fMacros)		{ delete ptr; }
-    
-}
-
-void GdtfDmxMode::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnPrintToFile(pNode);
-	
-	
-	// ------------------------------------------------------------------------------------
-	// Print node attributes
-	pNode->SetNodeAttributeValue(XML_GDTF_DMXModeName, 			fName);
-	pNode->SetNodeAttributeValue(XML_GDTF_DMXModeDescription, 	fDescription);
-	if (fGeomRef) { pNode->SetNodeAttributeValue(XML_GDTF_DMXModeGeometryRef,		fGeomRef->GetNodeReference()); } ;
-	
-	// ------------------------------------------------------------------------------------
-	// Print Channels
-	IXMLFileNodePtr wheels;
-	if (VCOM_SUCCEEDED(pNode->CreateChildNode(XML_GDTF_DMXModeDMXChannels, & wheels)))
-	{
-		for (GdtfDmxChannel* channdelObj : fChannels)
-		{
-			channdelObj->WriteToNode(wheels);
-		}
-	}
-	
-	// ------------------------------------------------------------------------------------
-	// Print Relations
-	IXMLFileNodePtr models;
-	if (VCOM_SUCCEEDED(pNode->CreateChildNode(XML_GDTF_DMXModeRelations, & models)))
-	{
-		for (GdtfDmxRelation* relObj : fRelations)
-		{
-			relObj->WriteToNode(models);
-		}
-	}
-	
-	// ------------------------------------------------------------------------------------
-	// Print Macros
-	IXMLFileNodePtr macros;
-	if (VCOM_SUCCEEDED(pNode->CreateChildNode(XML_GDTF_DMXModeMacros, &macros)))
-	{
-		for (GdtfMacro* macrosObj : fMacros)
-		{
-			macrosObj->WriteToNode(macros);
-		}
-	}
-
-}
-
-void GdtfDmxMode::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnReadFromNode(pNode);
-	
-	
-	// ------------------------------------------------------------------------------------
-	// Print node attributes
-	pNode->GetNodeAttributeValue(XML_GDTF_DMXModeName,		  	fName);
-	pNode->GetNodeAttributeValue(XML_GDTF_DMXModeDescription,	fDescription);
-	pNode->GetNodeAttributeValue(XML_GDTF_DMXModeGeometryRef, 	fUnresolvedGeomRef);
-	// ------------------------------------------------------------------------------------
-	// Print Channels
-	
-	GdtfConverter::TraverseNodes(pNode, XML_GDTF_DMXModeDMXChannels, XML_GDTF_DMXChannelNodeName, [this] (IXMLFileNodePtr pNode) -> void
-								 {	
-									 if ( CheckAbort() ) return;
-									 GdtfDmxChannelPtr channel = new GdtfDmxChannel(this);
-									 channel->ReadFromNode(pNode);
-									 fChannels.push_back(channel);
-								 }
-								 );
-
-	
-	// ------------------------------------------------------------------------------------
-	// Print Relations
-	GdtfConverter::TraverseNodes(pNode, XML_GDTF_DMXModeRelations, XML_GDTF_DMXRelationNodeName, [this] (IXMLFileNodePtr pNode) -> void
-								 {
-									 if ( CheckAbort() ) return;
-									 GdtfDmxRelationPtr relation = new GdtfDmxRelation();
-									 relation->ReadFromNode(pNode);
-									 fRelations.push_back(relation);
-								 }
-								 );
-	
-
-	// ------------------------------------------------------------------------------------
-	// Print Macros
-	GdtfConverter::TraverseNodes(pNode, XML_GDTF_DMXModeMacros, XML_GDTF_MacroNodeName, [this](IXMLFileNodePtr pNode) -> void
-								{
-									if ( CheckAbort() ) return;
-									GdtfMacroPtr macro = new GdtfMacro();
-									macro->ReadFromNode(pNode);
-									fMacros.push_back(macro);
-								}
-								);
-
-}
-
-void GdtfDmxMode::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_DMXModeName);
-	needed.push_back(XML_GDTF_DMXModeGeometryRef);
-	optional.push_back(XML_GDTF_DMXModeDescription);
-	
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfDmxMode::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfDmxMode;
-}
-
-TXString GdtfDmxMode::GetNodeName()
-{
-	return XML_GDTF_DMXModeNodeName;
-}
-
-GdtfDmxChannel* GdtfDmxMode::AddChannel()
-{
-	GdtfDmxChannel* channel = new GdtfDmxChannel(this);
-	fChannels.push_back(channel);
-	
-	return channel;
-}
-
-const TGdtfDmxChannelArray& GdtfDmxMode::GetChannelArray() const
-{
-	return fChannels;
-}
-
-GdtfDmxChannelPtr GdtfDmxMode::GetMasterByRef(const TXString& ref) const
-{
-	if (!fChannelIndex.empty())
-	{
-		auto it = fChannelIndex.find(ref);
-		if (it != fChannelIndex.end()) { return it->second; }
-	}
-	else
-	{
-		for (GdtfDmxChannelPtr chnl : fChannels)
-		{
-			if (chnl->GetNodeReference() == ref) { return chnl; }
-		}
-	}
-
-	// When this line is reached nothing was found.
-	DSTOP ((kEveryone, "Failed to resolve GdtfDmxChannelPtr."));
-	return nullptr;
-}
-
-GdtfDmxChannelFunctionPtr GdtfDmxMode::GetSlaveByRef(const TXString& ref) const
-{
-	if (!fFunctionIndex.empty())
-	{
-		auto it = fFunctionIndex.find(ref);
-		if (it != fFunctionIndex.end()) { return it->second; }
-	}
-	else
-	{
-		for (GdtfDmxChannelPtr dmxChannel : fChannels)
-		{
-			for(GdtfDmxLogicalChannelPtr logicalChannel : dmxChannel->GetLogicalChannelArray())
-			{
-				for (GdtfDmxChannelFunctionPtr function : logicalChannel->GetDmxChannelFunctions())
-				{
-					TXString nodeRef = function->GetNodeReference();
-					if (nodeRef == ref) { return function; }
-				}
-			}
-		}
-	}
-	
-	// When this line is reached nothing was found.
-	DSTOP ((kEveryone, "Failed to resolve GdtfDmxChannelFuntionPtr."));
-	return nullptr;
-}
-
-void GdtfDmxMode::BuildModeIndexes()
-{
-	static constexpr size_t kModeIndexThreshold = 64;
-	if (fChannels.size() < kModeIndexThreshold)
-	{
-		return;  // Maps stay empty; accessors use linear fallback
-	}
-
-	fChannelIndex.clear();
-	fFunctionIndex.clear();
-	for (GdtfDmxChannelPtr ch : fChannels)
-	{
-		fChannelIndex.emplace(ch->GetNodeReference(), ch);
-		for (GdtfDmxLogicalChannelPtr lc : ch->GetLogicalChannelArray())
-		{
-			for (GdtfDmxChannelFunctionPtr fn : lc->GetDmxChannelFunctions())
-			{
-				fFunctionIndex.emplace(fn->GetNodeReference(), fn);
-			}
-		}
-	}
-}
-
-GdtfDmxChannelPtr GdtfDmxMode::GetChannelByIndex(const TXString& ref) const
-{
-	if (!fChannelIndex.empty())
-	{
-		auto it = fChannelIndex.find(ref);
-		if (it != fChannelIndex.end()) { return it->second; }
-		return nullptr;
-	}
-	for (GdtfDmxChannelPtr ch : fChannels)
-	{
-		if (ch->GetNodeReference() == ref) { return ch; }
-	}
-	return nullptr;
-}
-
-GdtfDmxChannelFunctionPtr GdtfDmxMode::GetFunctionByIndex(const TXString& ref) const
-{
-	if (!fFunctionIndex.empty())
-	{
-		auto it = fFunctionIndex.find(ref);
-		if (it != fFunctionIndex.end()) { return it->second; }
-		return nullptr;
-	}
-	for (GdtfDmxChannelPtr ch : fChannels)
-	{
-		for (GdtfDmxLogicalChannelPtr lc : ch->GetLogicalChannelArray())
-		{
-			for (GdtfDmxChannelFunctionPtr fn : lc->GetDmxChannelFunctions())
-			{
-				if (fn->GetNodeReference() == ref) { return fn; }
-			}
-		}
-	}
-	return nullptr;
-}
-
-
-const TXString& GdtfDmxMode::GetModeName() const
-{
-	return fName;
-}
-
-void GdtfDmxMode::SetName(const TXString &name)
-{
-	fName = name;
-}
-
-const TXString& GdtfDmxMode::GetDescription() const
-{
-	return fDescription;
-}
-
-void GdtfDmxMode::SetDescription(const TXString &description)
-{
-	fDescription = description;
-}
-
-void GdtfDmxMode::SetGeomRef(GdtfGeometryPtr ptr)
-{
-	fGeomRef = ptr;
-}
-
-GdtfDmxRelation* GdtfDmxMode::AddDmxRelation(GdtfDmxChannel* master, GdtfDmxChannelFunctionPtr slave, const TXString &name)
-{
-	GdtfDmxRelation* relation = new GdtfDmxRelation(master, slave, name);
-	fRelations.push_back(relation);
-	return relation;
-}
-
-GdtfMacro* GdtfDmxMode::AddMacro(const TXString &name)
-{
-	GdtfMacro* macro = new GdtfMacro(name);
-	fMacros.push_back(macro);
-	return macro;
-}
-
-GdtfGeometryPtr	GdtfDmxMode::GetGeomRef()
-{
-	return fGeomRef;
-}
-
-TGdtfDmxChannelArray GdtfDmxMode::GetChannelsForGeometry(GdtfGeometryPtr geometry)
-{
-	TGdtfDmxChannelArray array;
-	for (GdtfDmxChannelPtr channel : GetChannelArray())
-	{
-		if(channel->GetGeomRef() == geometry)
-		{
-			array.push_back(channel);
-		}
-	}
-	
-	return array;
-}
-
-const TXString& GdtfDmxMode::GetUnresolvedGeomRef()
-{
-	return fUnresolvedGeomRef;
-}
-
-const TGdtfDmxRelationArray& GdtfDmxMode::GetDmxRelations()
-{
-	return fRelations;
-}
-
-TSint32Array GdtfDmxMode::GetBreakArray() const
-{
-	//------------------------------------------------------------------------------------------------------------
-	// Prepare Arrays
-	TSint32Array 							breaks;
-	std::vector<GdtfGeometryReferencePtr>  	geometryRefs;
-	TGdtfGeometryArray  					geometrysToCheck;
-
-	if(fGeomRef)
-	{
-		geometrysToCheck.push_back(fGeomRef);
-	}
-    
-	//------------------------------------------------------------------------------------------------------------
-	// Get All Geometry References
-	while(geometrysToCheck.size() > 0)
-	{
-		// Get First Entry and delete it then
-		GdtfGeometryPtr geometry = geometrysToCheck.back();
-		geometrysToCheck.pop_back();
-
-		// Get all the internal geometries and prepare to check them
-
-		if ( geometry != nullptr )
-		{
-			for ( GdtfGeometryPtr child : geometry->GetInternalGeometries() )
-			{
-				geometrysToCheck.push_back( child );
-			}
-
-
-			// Handle Geo Refs
-			if ( geometry->GetObjectType() == eGdtfGeometryReference )
-			{
-				GdtfGeometryReferencePtr geoRef = static_cast<GdtfGeometryReferencePtr>( geometry );
-				ASSERTN( kEveryone, geoRef != nullptr );
-				if ( geoRef )
-				{
-					geometrysToCheck.push_back( geoRef->GetLinkedGeometry() );
-					geometryRefs.push_back( geoRef );
-				}
-			}
-		}
-	}
-
-	//------------------------------------------------------------------------------------------------------------
-	// Check all the channels
-	for (GdtfDmxChannelPtr channel : fChannels)
-	{
-		Sint32 breakId = channel->GetDmxBreak();
-		
-		// Check if Override
-		if(breakId == kDmxBreakOverwriteValue)
-		{
-			for(GdtfGeometryReferencePtr geoRef : geometryRefs)
-			{
-				if(geoRef->GetLinkedGeometry() == channel->GetGeomRef())
-				{
-					TGdtfBreakArray refBreaks = geoRef->GetBreakArray();
-					if(std::find(breaks.begin(), breaks.end(), refBreaks.back()->GetDmxBreak()) == breaks.end())
-					{
-						breaks.push_back(refBreaks.back()->GetDmxBreak());
-					}
-				}
-			}
-		}
-		else
-		{
-			if(std::find(breaks.begin(), breaks.end(), breakId) == breaks.end())
-			{
-				breaks.push_back(breakId);
-			}
-		}
-	}
-
-	//------------------------------------------------------------------------------------------------------------
-	// Sort the found break
-	std::sort(breaks.begin(), breaks.end());
-
-	return breaks;
-}
-
-size_t GdtfDmxMode::GetFootPrintForBreak(size_t breakId)
-{
-	//------------------------------------------------------------------------------------------------------------
-	// check if break exists
-	TSint32Array breaks = this->GetBreakArray();
-	if(std::find(breaks.begin(), breaks.end(), breakId) == breaks.end()) 
-	{ 
-		return 0; 
-	}
-
-	//------------------------------------------------------------------------------------------------------------
-	// Prepare arrays
-	TDMXAddressArray 	addresses;
-    TGdtfGeometryArray  geometriesInGeoTree;
-    
-    if(fGeomRef)
-    {
-        geometriesInGeoTree.push_back(fGeomRef);
-    }
-
-	// iterate through every geometry in the geometry tree of the mode 
-	while(geometriesInGeoTree.size() > 0)
-	{
-		TDMXAddressArray addressesOfGeo;
-		GdtfGeometryPtr  geoToCheck = geometriesInGeoTree.back();
-		geometriesInGeoTree.pop_back();
-
-		for (GdtfGeometryPtr child : geoToCheck->GetInternalGeometries()) { geometriesInGeoTree.push_back(child); }
-
-		// if channel is linked to the current geometry and the breaks match add the dmx addresses to the footprint 
-		for (GdtfDmxChannelPtr channel : fChannels)
-		{
-			if(CheckAbort()) { return 0; }
-			if(channel->GetGeomRef() == geoToCheck && channel->GetDmxBreak() == (Sint32)breakId && ! channel->IsVirtual()) 
-			{
-				GetAddressesFromChannel(addressesOfGeo, channel, 0);
-			}
-		}
-
-		// if the current geometry is a geometry reference do stuff
-		if(geoToCheck->GetObjectType() == eGdtfGeometryReference)
-		{
-			GdtfGeometryReferencePtr geoRef 	= static_cast<GdtfGeometryReferencePtr>(geoToCheck); ASSERTN(kEveryone, geoRef);
-			GdtfGeometryPtr 		 refedGeo   = geoRef->GetLinkedGeometry();
-			TSint32Array 			 breakIdsOfReference;
-			TGdtfGeometryArray 		 geometriesInReferencedTree = {refedGeo};
-			bool 				     overwrite = false;
-			
-			// go through every child of the referenced geometry and get every used break id
-			while (geometriesInReferencedTree.size() > 0)
-			{
-				GdtfGeometryPtr geometryInRefToCheck = geometriesInReferencedTree.back();
-				geometriesInReferencedTree.pop_back();
-
-				if ( geometryInRefToCheck != nullptr )
-				{
-					for (GdtfGeometryPtr childOfRef : geometryInRefToCheck->GetInternalGeometries()){ geometriesInReferencedTree.push_back(childOfRef); }
-
-					for (GdtfDmxChannelPtr channel : fChannels)
-					{
-						if(CheckAbort()) { return 0; }
-						if(channel->GetGeomRef() == geometryInRefToCheck)
-						{
-							if(channel->GetDmxBreak() != kDmxBreakOverwriteValue)
-							{
-								if(std::find(breakIdsOfReference.begin(), breakIdsOfReference.end(), channel->GetDmxBreak()) == breakIdsOfReference.end())
-								{
-									breakIdsOfReference.push_back(channel->GetDmxBreak());
-								}
-							}
-							else 
-							{
-								overwrite = true;
-							}
-						}
-					}
-				}
-			}
-
-			std::sort(breakIdsOfReference.begin(), breakIdsOfReference.end());
-
-			TSint32Array::iterator foundIndex = std::find(breakIdsOfReference.begin(), breakIdsOfReference.end(), breakId);
-			// if the reference contains geometries that are linked to a dmx channel that has a matching break, then add the address + offset to the footprint
-			if(foundIndex != breakIdsOfReference.end())
-			{
-				size_t 				indexOfBreak 				= std::distance(breakIdsOfReference.begin(),foundIndex);
-				size_t 				offset 						= geoRef->GetBreakArray()[indexOfBreak]->GetDmxAddress()-1;
-				TGdtfGeometryArray  geometriesInReferencedTree 	= {refedGeo};
-
-				while (geometriesInReferencedTree.size() > 0)
-				{
-					GdtfGeometryPtr geometryInRefToCheck = geometriesInReferencedTree.back();
-					geometriesInReferencedTree.pop_back();
-
-					for (GdtfGeometryPtr childOfRef : geometryInRefToCheck->GetInternalGeometries()) { geometriesInReferencedTree.push_back(childOfRef); }
-
-					for(GdtfDmxChannelPtr channel : fChannels)
-					{
-						if(CheckAbort()) { return 0; }
-						if(channel->GetGeomRef() == geometryInRefToCheck 
-							&& channel->GetDmxBreak() == (Sint32)breakId &&
-							! channel->IsVirtual())  
-						{
-							GetAddressesFromChannel(addressesOfGeo, channel, offset);
-						}
-					}
-				}
-			}
-
-			// if the channel of a child geometry has the break value overwrite and the last break of the ref has a matching break Id, then add addresses + offset 
-			if(overwrite)
-			{
-				GdtfBreakPtr overwriteBreak = geoRef->GetBreakArray().back();
-				if(overwriteBreak->GetDmxBreak() == (Sint32)breakId)
-				{
-					TGdtfGeometryArray geometriesInReferencedTree = {refedGeo};
-					while (geometriesInReferencedTree.size() > 0)
-					{
-						GdtfGeometryPtr geometryInRefToCheck = geometriesInReferencedTree.back();
-						geometriesInReferencedTree.pop_back();
-
-						for (GdtfGeometryPtr childOfRef : geometryInRefToCheck->GetInternalGeometries()) { geometriesInReferencedTree.push_back(childOfRef); }
-
-						for(GdtfDmxChannelPtr channel : fChannels)
-						{
-							if(CheckAbort()) { return 0; }
-							if(channel->GetGeomRef() == geometryInRefToCheck && channel->GetDmxBreak() == kDmxBreakOverwriteValue  && ! channel->IsVirtual()) 
-							{
-								GetAddressesFromChannel(addressesOfGeo, channel, overwriteBreak->GetDmxAddress()-1);
-							}
-						}
-					}
-				}
-			}
-		}
-
-		// make addresses unique
-		for(DMXAddress address : addressesOfGeo)
-		{
-			if(std::find(addresses.begin(), addresses.end(), address) == addresses.end())
-			{
-				addresses.push_back(address);
-			}
-		}
-	}
-
-	DMXAddress max = 0, min = 512;
-	for (DMXAddress adr : addresses)
-	{
-		if(adr > max) max = adr;
-		if(adr < min) min = adr;
-	}
-
-	DMXAddress footprint = max - min + 1;
-
-	return footprint;
-}
-void GdtfDmxMode::GetAddressesFromChannel(TDMXAddressArray& addresses, GdtfDmxChannel* channel, DMXAddress offset) const
-{
-	EGdtfChannelBitResolution resolution = channel->GetChannelBitResolution();
-	if(resolution >= eGdtfChannelBitResolution_8) 	{ addresses.push_back(channel->GetCoarse()  + offset);}
-	if(resolution >= eGdtfChannelBitResolution_16) 	{ addresses.push_back(channel->GetFine()	+ offset);}
-	if(resolution >= eGdtfChannelBitResolution_24) 	{ addresses.push_back(channel->GetUltra()   + offset);}
-	if(resolution >= eGdtfChannelBitResolution_32) 	{ addresses.push_back(channel->GetUber()	+ offset);}
-
-}
-
-const TGdtfMacroArray& GdtfDmxMode::GetDmxMacrosArray()
-{
-	return fMacros;
-}
-
-//------------------------------------------------------------------------------------
-// GdtfDmxChannel
-GdtfDmxChannel::GdtfDmxChannel(GdtfDmxMode* parent)
-{
-	fName_AutoGenerated					= "";
-	fDmxBreak				= 1;
-	fCoarse					= 0;
-	fFine					= 0;
-	fUltra					= 0;
-	fUber					= 0;
-	fHeighlight				= 0;	fHeighlightNone = true;
-	fDefaultValue_old		= 0;
-	fGeomRef				= nullptr;
-	fInitialFunction		= nullptr;
-
-	ASSERTN(kEveryone, parent != nullptr);
-	fParent = parent;
-}
-
-GdtfDmxChannel::~GdtfDmxChannel()
-{
-	for (GdtfDmxLogicalChannelPtr ptr :fLogicalChannels) { delete ptr; }
-}
-
-void GdtfDmxChannel::SetName(const TXString& name)
-{
-	fName_AutoGenerated = name;
-}
-
-void GdtfDmxChannel::SetDmxBreak(Sint32 dmxBreak)
-{
-	fDmxBreak = dmxBreak;
-}
-
-void GdtfDmxChannel::SetDmxCoarse(Sint32 coarse)
-{
-	fCoarse = coarse;
-	
-}
-
-void GdtfDmxChannel::SetDmxFine(Sint32 fine)
-{
-	ASSERTN(kEveryone, fCoarse > 0);
-	fFine = fine;
-}
-
-void GdtfDmxChannel::SetDmxUltra(Sint32 ultra)
-{
-	ASSERTN(kEveryone, fCoarse > 0);
-	ASSERTN(kEveryone, fFine > 0);
-	fUltra = ultra;
-}
-
-void SceneData::GdtfDmxChannel::SetDmxUber(Sint32 uber)
-{
-	ASSERTN(kEveryone, fCoarse > 0);
-	ASSERTN(kEveryone, fFine > 0);
-	ASSERTN(kEveryone, fUltra > 0);
-	fUber = uber;
-}
-
-void GdtfDmxChannel::SetHighlight(DmxValue highlight)
-{
-	fHeighlight = highlight;
-	fHeighlightNone = false;
-}
-
-GdtfDmxLogicalChannel* GdtfDmxChannel::AddLogicalChannel()
-{
-	GdtfDmxLogicalChannel* channel = new GdtfDmxLogicalChannel(this);
-	if( ! fLogicalChannels.empty()) { fLogicalChannels.back()->SetNextLogicalChannel(channel); }
-
-	fLogicalChannels.push_back(channel);
-	return channel;
-}
-
-void GdtfDmxChannel::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnPrintToFile(pNode);
-	
-	EGdtfChannelBitResolution chanelReso = GetChannelBitResolution();
-	// ------------------------------------------------------------------------------------
-	// Print node attributes
-	pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelDMXBreak,			GdtfConverter::ConvertDmxBreak(fDmxBreak));
-	pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelOffset,				GdtfConverter::ConvertDmxOffset(fCoarse, fFine, fUltra, fUber));
-	pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelHighlight,			GdtfConverter::ConvertDMXValue(fHeighlight,	chanelReso, fHeighlightNone));
-	if (fGeomRef) 			{ pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelGeometry,			fGeomRef->GetNodeReference()); }
-	if (fInitialFunction) 	{ pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelInitialFunction,	fInitialFunction->GetNodeReference()); }
-	
-	// ------------------------------------------------------------------------------------
-	// LogicalChannels
-	for (GdtfDmxLogicalChannel* channelObj : fLogicalChannels)
-	{
-		channelObj->WriteToNode(pNode);
-	}
-}
-
-void GdtfDmxChannel::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnReadFromNode(pNode);
-		
-	// ------------------------------------------------------------------------------------
-	// Print node attributes
-	TXString dmxBreak;	pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelDMXBreak,			dmxBreak);	GdtfConverter::ConvertDmxBreak(dmxBreak, pNode,		fDmxBreak);
-	//
-	TXString offset;	
-	if (pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelOffset, offset) == kVCOMError_NoError) 
-	{
-		GdtfConverter::ConvertDmxOffset(offset, pNode, fCoarse, fFine, fUltra, fUber);
-	}	
-
-	// In GDTF 1.0, default value was in the DMX channel, this is for old files :
-	TXString defVal;	
-	if (pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelFuntionDefault, defVal) == kVCOMError_NoError)
-	{
-		GdtfConverter::ConvertDMXValue(defVal, pNode, this->GetChannelBitResolution(), fDefaultValue_old);
-	}
-	// ------------------------------------------------------------------------------------
-
-	//
-	TXString highlight;	
-	if(VCOM_SUCCEEDED(pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelHighlight,			highlight)	))
-	{
-		GdtfConverter::ConvertDMXValue(highlight, pNode, this->GetChannelBitResolution(), fHeighlight, fHeighlightNone);
-	}	
-	
-	pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelGeometry, 			fUnresolvedGeomRef);
-	pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelInitialFunction, 	fUnresolvedInitialFunction);	
-	
-	// ------------------------------------------------------------------------------------
-	// LogicalChannels	
-	GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_DMXLogicalChannelNodeName, [this] (IXMLFileNodePtr objNode) -> void
-								 {
-									 if ( CheckAbort() ) return;
-									 // Create the object
-									 GdtfDmxLogicalChannelPtr logicalChan = new GdtfDmxLogicalChannel(this);
-
-									 // Read from node
-									 logicalChan->ReadFromNode(objNode);
-									
-									// If there is already a logical channel
-									if( ! fLogicalChannels.empty())
-									{
-										// Get the prev array and the new array
-										const TGdtfDmxChannelFuntionArray& prevArr = fLogicalChannels.back()->GetDmxChannelFunctions();
-										const TGdtfDmxChannelFuntionArray& currArr = logicalChan->GetDmxChannelFunctions();
-
-										// If bouth arrays are not empty, link them togheter
-										if( (! prevArr.empty()) && (! currArr.empty()) )
-										{
-											prevArr.back()->SetNextFunction(currArr.front());
-										}
-									}
-								
-									 fLogicalChannels.push_back(logicalChan);
-
-									
-									 return;
-								 });
-}
-
-void GdtfDmxChannel::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_DMXChannelGeometry);
-	optional.push_back(XML_GDTF_DMXChannelInitialFunction);
-	optional.push_back(XML_GDTF_DMXChannelDMXBreak);
-	optional.push_back(XML_GDTF_DMXChannelOffset);
-	optional.push_back(XML_GDTF_DMXChannelHighlight);
-	//Default for GDTF 1.0 files
-	optional.push_back(XML_GDTF_DMXChannelFuntionDefault);
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfDmxChannel::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfDmxChannel;
-}
-
-TXString GdtfDmxChannel::GetNodeReference()
-{
-	return GetName();
-}
-
-GdtfDmxMode* GdtfDmxChannel::GetParentMode()
-{
-	return fParent;
-}
-
-TXString GdtfDmxChannel::GetNodeName()
-{
-	return XML_GDTF_DMXChannelNodeName;
-}
-
-const TXString& GdtfDmxChannel::GetName()
-{
-	if(fName_AutoGenerated.IsEmpty())
-	{
-		TXString dmxChannelName;
-		if(fGeomRef) { dmxChannelName += fGeomRef->GetName(); }
-		dmxChannelName += "_";
-		if(fLogicalChannels.size() > 0) { dmxChannelName += fLogicalChannels[0]->GetAttribute()->GetName(); }
-		
-		this->SetName(dmxChannelName);
-
-		ASSERTN(kEveryone, fGeomRef != nullptr);
-		ASSERTN(kEveryone, fLogicalChannels.size() > 0);
-	}
-
-	return fName_AutoGenerated;
-}
-
-Sint32 GdtfDmxChannel::GetDmxBreak() const
-{
-	return fDmxBreak;
-}
-
-Sint32 GdtfDmxChannel::GetCoarse() const
-{
-	return fCoarse;
-}
-
-Sint32 GdtfDmxChannel::GetFine() const
-{
-	return fFine;
-}
-
-Sint32 GdtfDmxChannel::GetUltra() const
-{
-	return fUltra;
-}
-
-Sint32 GdtfDmxChannel::GetUber() const
-{
-	return fUber;
-}
-
-DmxValue GdtfDmxChannel::GetHighlight() const
-{
-	return fHeighlight;
-}
-
-bool GdtfDmxChannel::HasHighlight() const
-{
-	return !fHeighlightNone;
-}
-
-DmxValue GdtfDmxChannel::GetOldDefaultValue() const
-{
-	return fDefaultValue_old;
-}
-
-void GdtfDmxChannel::SetGeomRef(GdtfGeometryPtr newGeom)
-{
-	fGeomRef = newGeom;
-}
-
-GdtfGeometryPtr GdtfDmxChannel::GetGeomRef()
-{
-	return fGeomRef;
-}
-
-const TXString& GdtfDmxChannel::GetUnresolvedGeomRef() const
-{
-	return fUnresolvedGeomRef;
-}
-
-void GdtfDmxChannel::SetInitialFunction(GdtfDmxChannelFunctionPtr initialFunction)
-{
-	fInitialFunction = initialFunction;
-}
-
-GdtfDmxChannelFunctionPtr GdtfDmxChannel::GetInitialFunction()
-{
-	return fInitialFunction;
-}
-
-const TXString& GdtfDmxChannel::GetUnresolvedInitialFunction() const
-{
-	return fUnresolvedInitialFunction;
-}
-
-const TGdtfDmxLogicalChannelArray& GdtfDmxChannel::GetLogicalChannelArray()
-{
-	return fLogicalChannels;
-}
-
-EGdtfChannelBitResolution SceneData::GdtfDmxChannel::GetChannelBitResolution()
-{
-	if		(!fCoarse)	{ return EGdtfChannelBitResolution::eGdtfChannelBitResolution_16; }
-	else if	(!fFine)	{ return EGdtfChannelBitResolution::eGdtfChannelBitResolution_8; }
-	else if (!fUltra)	{ return EGdtfChannelBitResolution::eGdtfChannelBitResolution_16; }
-	else if (!fUber )	{ return EGdtfChannelBitResolution::eGdtfChannelBitResolution_24; }
-
-	return EGdtfChannelBitResolution::eGdtfChannelBitResolution_32;
-}
-
-DmxValue SceneData::GdtfDmxChannel::GetChannelMaxDmx()
-{
-	return GdtfConverter::GetChannelMaxDmx(this->GetChannelBitResolution());
-}
-
-bool SceneData::GdtfDmxChannel::IsVirtual() const
-{
-	if(fCoarse == 0 && fFine == 0 && fUltra == 0 && fUber == 0)	return true;
-	else 														return false;
-}
-
-//------------------------------------------------------------------------------------
-// GdtfDmxChannel
-GdtfDmxLogicalChannel::GdtfDmxLogicalChannel(GdtfDmxChannel* parent)
-{
-	fSnap					= EGdtfDmxSnap::eGdtfDmxMaster_No;
-	fAttribute				= nullptr;
-	fDmxMaster				= eGdtfDmxMaster_None;
-	fParentDmxChannel		= parent;
-	fNextLogicalChannel		= nullptr;
-	fMoveInBlackFrames		= 0;
-	fDmxChangeTimeLimit		= 0;
-}
-
-GdtfDmxLogicalChannel::~GdtfDmxLogicalChannel()
-{
-	for (GdtfDmxChannelFunctionPtr ptr : fFunctions) { delete ptr; }
-}
-
-void GdtfDmxLogicalChannel::SetName(const TXString &name)
-{
-	fName_AutoGenerated = name;
-}
-
-void GdtfDmxLogicalChannel::SetAttribute(GdtfAttributePtr attr)
-{
-	fAttribute = attr;
-}
-
-void GdtfDmxLogicalChannel::SetDmxSnap(EGdtfDmxSnap snap)
-{
-	fSnap = snap;
-}
-
-void GdtfDmxLogicalChannel::SetDmxMaster(EGdtfDmxMaster master)
-{
-	fDmxMaster = master;
-}
-
-void GdtfDmxLogicalChannel::SetNextLogicalChannel(GdtfDmxLogicalChannel* next)
-{
-	ASSERTN(kEveryone, fNextLogicalChannel == nullptr);
-	fNextLogicalChannel = next;
-}
-
-void SceneData::GdtfDmxLogicalChannel::SetMoveInBlackFrames(double moveInBlackFrames)
-{
-    fMoveInBlackFrames = moveInBlackFrames;
-}
-
-void SceneData::GdtfDmxLogicalChannel::SetDmxChangeTimeLimit(double changeLimit)
-{
-    fDmxChangeTimeLimit = changeLimit;
-}
-
-GdtfDmxLogicalChannelPtr GdtfDmxLogicalChannel::GetNextLogicalChannel()
-{
-	return fNextLogicalChannel;
-}
-
-double SceneData::GdtfDmxLogicalChannel::GetMoveInBlackFrames() const
-{
-    return fMoveInBlackFrames;
-}
-
-double SceneData::GdtfDmxLogicalChannel::GetDmxChangeTimeLimit() const
-{
-    return fDmxChangeTimeLimit;
-}
-
-GdtfDmxChannelFunctionPtr GdtfDmxLogicalChannel::AddDmxChannelFunction(const TXString &name)
-{
-	GdtfDmxChannelFunctionPtr function = new GdtfDmxChannelFunction(name, this);
-
-	// Also set next function here
-	if(fFunctions.size() > 0)	{ fFunctions.back()->SetNextFunction(function); }
-
-	fFunctions.push_back(function);
-
-	return function;
-}
-
-void GdtfDmxLogicalChannel::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnPrintToFile(pNode);
-	
-	
-	// ------------------------------------------------------------------------------------
-	// Print node attributes
-	if (fAttribute) {pNode->SetNodeAttributeValue(XML_GDTF_DMXLogicalChannelAttribute, fAttribute->GetNodeReference()); };
-	pNode->SetNodeAttributeValue(XML_GDTF_DMXLogicalChannelSnap,		GdtfConverter::ConvertSnapEnum(fSnap));
-	pNode->SetNodeAttributeValue(XML_GDTF_DMXLogicalChannelMaster,		GdtfConverter::ConvertMasterEnum(fDmxMaster));
-	pNode->SetNodeAttributeValue(XML_GDTF_DMXLogicalChannelMibFadeFrames,		GdtfConverter::ConvertDouble(fMoveInBlackFrames));
-	pNode->SetNodeAttributeValue(XML_GDTF_DMXLogicalChannelDMXChangeTimeLimit,	GdtfConverter::ConvertDouble(fDmxChangeTimeLimit));		
-	// ------------------------------------------------------------------------------------
-	// LogicalChannels
-	for (GdtfDmxChannelFunctionPtr functionObj : fFunctions)
-	{
-		functionObj->WriteToNode(pNode);
-	}
-}
-
-void GdtfDmxLogicalChannel::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnReadFromNode(pNode);
-	
-	
-	// ------------------------------------------------------------------------------------
-	// Print node attributes
-	pNode->GetNodeAttributeValue(XML_GDTF_DMXLogicalChannelAttribute, fUnresolvedAttribRef);
-	TXString snap; 	pNode->GetNodeAttributeValue(XML_GDTF_DMXLogicalChannelSnap,	snap);		GdtfConverter::ConvertSnapEnum(snap, 	 pNode, fSnap);
-	TXString master;pNode->GetNodeAttributeValue(XML_GDTF_DMXLogicalChannelMaster,	master);	GdtfConverter::ConvertMasterEnum(master, pNode,	fDmxMaster);
-	//
-	TXString mib;		pNode->GetNodeAttributeValue(XML_GDTF_DMXLogicalChannelMibFadeFrames,		mib);		GdtfConverter::ConvertDouble(mib, 		pNode,	fMoveInBlackFrames);
-	TXString timelimit;	pNode->GetNodeAttributeValue(XML_GDTF_DMXLogicalChannelDMXChangeTimeLimit,	timelimit);	GdtfConverter::ConvertDouble(timelimit, pNode,	fDmxChangeTimeLimit);
-	
-	// ------------------------------------------------------------------------------------
-	// Read LogicalChannels
-	GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_DMXChannelFuntionNodeName, [this] (IXMLFileNodePtr objNode) -> void
-								 {
-									 if ( CheckAbort() ) return;
-
-									 // Create the object
-									 GdtfDmxChannelFunctionPtr function = new GdtfDmxChannelFunction(this);
-									 
-									 // Read from node
-									 function->ReadFromNode(objNode);
-
-									 if(fFunctions.size() > 0)	{ fFunctions.back()->SetNextFunction(function); }
-									 
-									 if(fFunctions.size() == 0)	
-									 { 
-										if(function->GetStartAdress() != 0)
-										{
-											GdtfParsingError error (GdtfDefines::EGdtfParsingError::eChannelFunctionNotStartingWithZero, objNode);
-        									SceneData::GdtfFixture::AddError(error);
-											function->SetStartAddress(0);
-										}
-									 }
-									 
-									 // Add to list
-									 fFunctions.push_back(function);
-
-									 
-									 
-									 return;
-								 });
-}
-
-void GdtfDmxLogicalChannel::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_DMXLogicalChannelAttribute);
-	optional.push_back(XML_GDTF_DMXLogicalChannelSnap);
-	optional.push_back(XML_GDTF_DMXLogicalChannelMaster);
-    optional.push_back(XML_GDTF_DMXLogicalChannelMibFadeFrames);
-	optional.push_back(XML_GDTF_DMXLogicalChannelDMXChangeTimeLimit);	
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfDmxLogicalChannel::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfDmxLogicalChannel;
-}
-
-TXString GdtfDmxLogicalChannel::GetNodeReference()
-{
-	return fParentDmxChannel->GetNodeReference() + "." + GetName();
-}
-
-TXString GdtfDmxLogicalChannel::GetNodeName()
-{
-	return XML_GDTF_DMXLogicalChannelNodeName;
-}
-
-const TXString& GdtfDmxLogicalChannel::GetName()
-{
-	if(fName_AutoGenerated.IsEmpty())
-	{
-		TXString name;
-		ASSERTN(kEveryone, fAttribute != nullptr);
-		if(fAttribute){ name +=fAttribute->GetName(); }
-
-		this->SetName(name);
-	}
-	return fName_AutoGenerated;
-}
-
-GdtfAttribute* GdtfDmxLogicalChannel::GetAttribute()
-{
-	return fAttribute;
-}
-
-EGdtfDmxSnap GdtfDmxLogicalChannel::GetDmxSnap() const
-{
-	return fSnap;
-}
-
-EGdtfDmxMaster GdtfDmxLogicalChannel::GetDmxMaster() const
-{
-	return fDmxMaster;
-}
-
-const TGdtfDmxChannelFuntionArray& GdtfDmxLogicalChannel::GetDmxChannelFunctions()
-{
-	return fFunctions;
-}
-
-const TXString& GdtfDmxLogicalChannel::GetUnresolvedAttribRef() const
-{
-	return fUnresolvedAttribRef;
-}
-
-GdtfDmxChannel* GdtfDmxLogicalChannel::GetParentDMXChannel() const 
-{
-	return fParentDmxChannel;
-}
-
-//------------------------------------------------------------------------------------
-// GdtfDmxChannelFunction
-GdtfDmxChannelFunction::GdtfDmxChannelFunction(GdtfDmxLogicalChannel* parent)
-{
-	fDefaultValue			= 0;
-	fAdressStart			= 0;
-	fPhysicalStart			= 0;
-	fPhysicalEnd			= 1;
-	fRealFade				= 0;
-	fRealAcceleration 		= 0;
-	fOnWheel				= nullptr;
-	fEmitter				= nullptr;
-	fAttribute				= nullptr;
-	fParentLogicalChannel	= parent;
-	fNextFunction			= nullptr;
-
-	fModeMaster_Channel		= nullptr;
-	fModeMaster_Function	= nullptr;
-	fDmxModeStart			= 0;
-	fDmxModeEnd				= 0;
-
-	fFilter                	= nullptr;
-	fColorSpace             = nullptr;
-	fGamut                	= nullptr;
-	fDMXProfile             = nullptr;
-
-	fMin 					= 0;
-	fMax 					= 1;
-
-    fUnresolvedFilterRef   		= "";
-    fUnresolvedColorSpaceRef	= "";
-    fUnresolvedGamutRef   		= "";
-    fUnresolvedDMXProfileRef 	= "";
-}
-
-GdtfDmxChannelFunction::GdtfDmxChannelFunction(const TXString& name, GdtfDmxLogicalChannel* parent)
-{
-	fName					= name;
-	fDefaultValue			= 0;
-	fAdressStart			= 0;
-	fPhysicalStart			= 0;
-	fPhysicalEnd			= 1;
-	fRealFade				= 0;
-	fRealAcceleration 		= 0;
-	fOnWheel				= nullptr;
-	fEmitter				= nullptr;				
-	fAttribute				= nullptr;
-	fParentLogicalChannel	= parent;
-	fNextFunction			= nullptr;
-
-	fModeMaster_Channel		= nullptr;
-	fModeMaster_Function	= nullptr;
-	fDmxModeStart			= 0;
-	fDmxModeEnd				= 0;
-
-    fFilter                	= nullptr;
-	fColorSpace             = nullptr;
-	fGamut                	= nullptr;
-	fDMXProfile             = nullptr;
-
-	fMin 					= 0;
-	fMax 					= 1;
-
-    fUnresolvedFilterRef   		= "";
-    fUnresolvedColorSpaceRef	= "";
-    fUnresolvedGamutRef   		= "";
-    fUnresolvedDMXProfileRef 	= "";
-}
-
-GdtfDmxChannelFunction::~GdtfDmxChannelFunction()
-{
-	for (GdtfDmxChannelSetPtr ptr 		: fChannelSets) 	{ delete ptr; }
-	for (GdtfDmxSubChannelSetPtr ptr 	: fSubChannelSets) 	{ delete ptr; }
-}
-
-void GdtfDmxChannelFunction::SetNextFunction(GdtfDmxChannelFunction* next)
-{
-	ASSERTN(kEveryone, fNextFunction == nullptr);
-	fNextFunction = next;
-}
-
-void GdtfDmxChannelFunction::SetName(const TXString &name)
-{
-	fName = name;
-}
-
-void GdtfDmxChannelFunction::SetAttribute(GdtfAttribute* newAttr)
-{
-	fAttribute = newAttr;
-}
-
-void GdtfDmxChannelFunction::SetOriginalAttribute(const TXString &attribute)
-{
-	fOrignalAttribute = attribute;
-}
-
-void GdtfDmxChannelFunction::SetDefaultValue(DmxValue defaultValue)
-{
-	fDefaultValue = defaultValue;
-}
-
-void GdtfDmxChannelFunction::SetStartAddress(DmxValue address)
-{
-	fAdressStart = address;
-}
-
-void GdtfDmxChannelFunction::SetPhysicalStart(double start)
-{
-	fPhysicalStart = start;
-}
-
-void GdtfDmxChannelFunction::SetPhysicalEnd(double end)
-{
-	fPhysicalEnd = end;
-}
-
-void GdtfDmxChannelFunction::SetRealFade(double fade)
-{
-	fRealFade = fade;
-}
-
-void GdtfDmxChannelFunction::SetRealAcceleration(double acceleration)
-{
-	fRealAcceleration = acceleration;
-}
-
-GdtfDmxChannelSet* GdtfDmxChannelFunction::AddChannelSet(const TXString &name)
-{
-	GdtfDmxChannelSet* channelSet = new GdtfDmxChannelSet(name, this);
-	fChannelSets.push_back(channelSet);
-	return channelSet;
-}
-
-GdtfDmxSubChannelSet* GdtfDmxChannelFunction::AddSubChannelSet(GdtfSubPhysicalUnit* subPhysicalUnit, const TXString& name)
-{
-	GdtfDmxSubChannelSet* subChannelSet = new GdtfDmxSubChannelSet(subPhysicalUnit, name);
-	fSubChannelSets.push_back(subChannelSet);
-	return subChannelSet;
-}
-
-void GdtfDmxChannelFunction::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnPrintToFile(pNode);
-	
-	EGdtfChannelBitResolution chanelReso = GetParentDMXChannel()->GetChannelBitResolution();
-
-	// ------------------------------------------------------------------------------------
-	// Print node attributes
-	pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFuntionName,				fName);
-
-	pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFuntionDefault,				GdtfConverter::ConvertDMXValue(fDefaultValue, chanelReso));
-	pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFuntionDMXFrom,				GdtfConverter::ConvertDMXValue(fAdressStart, chanelReso));
-	pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFuntionPhysicalFrom,		GdtfConverter::ConvertDouble(fPhysicalStart));
-	pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFuntionPhysicalTo,			GdtfConverter::ConvertDouble(fPhysicalEnd));
-	pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFuntionRealFade,			GdtfConverter::ConvertDouble(fRealFade));
-	pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFuntionRealAcceleration,	GdtfConverter::ConvertDouble(fRealAcceleration));
-	pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFunctionMin,				GdtfConverter::ConvertDouble(fMin));
-	pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFunctionMax,				GdtfConverter::ConvertDouble(fMax));
-	pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFunctionCustomName,			fCustomName);
-
-	
-	pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFuntionOriginalAttribute,								fOrignalAttribute);
-	if (fAttribute)		    { pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFuntionAttribute,			    fAttribute->GetNodeReference()); }
-	if (fOnWheel)			{ pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFuntionWheelRef,				fOnWheel->GetNodeReference()); }
-	if (fEmitter)			{ pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelEmitter,						fEmitter->GetNodeReference() ); }
-	if (fFilter) 			{ pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFuntionFilter, 				fFilter->GetNodeReference()); }
-	if (fColorSpace) 		{ pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFunctionColorSpace, 			fColorSpace->GetNodeReference()); }
-	if (fGamut) 			{ pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFunctionGamut, 				fGamut->GetNodeReference()); }
-	if (fDMXProfile) 		{ pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFunctionDMXProfile, 			fDMXProfile->GetNodeReference()); }
-	
-
-	if(fModeMaster_Channel)
-	{
-		ASSERTN(kEveryone, (fModeMaster_Function == nullptr));
-
-		pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFuntionModeMaster,				fModeMaster_Channel->GetNodeReference());	
-		pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFuntionModeFrom,				GdtfConverter::ConvertDMXValue(fDmxModeStart, fModeMaster_Channel->GetChannelBitResolution()));	
-		pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFuntionModeTo,					GdtfConverter::ConvertDMXValue(fDmxModeEnd,   fModeMaster_Channel->GetChannelBitResolution()));	
-	}
-	if(fModeMaster_Function)
-	{
-		ASSERTN(kEveryone, (fModeMaster_Channel == nullptr));
-
-		pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFuntionModeMaster,				fModeMaster_Function->GetNodeReference());	
-		pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFuntionModeFrom,				GdtfConverter::ConvertDMXValue(fDmxModeStart, fModeMaster_Function->GetParentDMXChannel()->GetChannelBitResolution()));	
-		pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFuntionModeTo,					GdtfConverter::ConvertDMXValue(fDmxModeEnd,   fModeMaster_Function->GetParentDMXChannel()->GetChannelBitResolution()));	
-	}
-
-	// ------------------------------------------------------------------------------------
-	// Prepare No Feature Channel Set
-	TGdtfDmxChannelSetArray tempArr;
-	bool					hasChannelSets = fChannelSets.size() > 0;
-	
-	// Sort from low to high
-	std::sort(fChannelSets.begin(), fChannelSets.end(), [](const GdtfDmxChannelSetPtr & a, const GdtfDmxChannelSetPtr & b) -> bool { return a->GetDmxStart() < b->GetDmxStart(); });
-	
-	// If it has channel sets, process first obj
-	if(hasChannelSets)
-	{
-		GdtfDmxChannelSetPtr firstChannelSet = fChannelSets[0];
-		
-		if(firstChannelSet->GetDmxStart() > this->GetStartAdress())
-		{
-			GdtfDmxChannelSetPtr noFeature = new GdtfDmxChannelSet("", this);
-			noFeature->SetDmxStart(this->GetStartAdress());
-			noFeature->SetDmxEnd(firstChannelSet->GetDmxStart()-1);
-			tempArr.push_back(noFeature);
-		}
-		
-		// add the first one
-		tempArr.push_back(firstChannelSet);
-	}
-	
-	// Process the spaces between the channel sets
-	for (size_t i = 1; i < fChannelSets.size(); i++)
-	{
-		GdtfDmxChannelSetPtr first  = fChannelSets[i-1];
-		GdtfDmxChannelSetPtr second = fChannelSets[ i ];
-		
-		DmxValue diff = second ->GetDmxStart() - first->GetDmxEnd();
-		
-		if (diff > 1)
-		{
-			GdtfDmxChannelSetPtr noFeature = new GdtfDmxChannelSet("", this);
-			noFeature->SetDmxStart(first->GetDmxEnd()  + 1);
-			noFeature->SetDmxEnd(second->GetDmxStart() - 1);
-			tempArr.push_back(noFeature);
-		}
-		else if(diff < 1)	{ DSTOP((kEveryone, "Wrong Formated ChannelSet")); }
-		
-		tempArr.push_back(second);
-		
-	}
-	
-	// Process the last channel set
-	if(hasChannelSets)
-	{
-		GdtfDmxChannelSetPtr lastChannelSet = fChannelSets.back();
-
-		if(lastChannelSet->GetDmxEnd() < this->GetEndAdress())
-		{
-			GdtfDmxChannelSetPtr noFeature = new GdtfDmxChannelSet("", this);
-			noFeature->SetDmxStart(lastChannelSet->GetDmxEnd() + 1);
-			noFeature->SetDmxEnd(this->GetEndAdress());
-			tempArr.push_back(noFeature);
-		}
-	}
-	
-	
-	// ------------------------------------------------------------------------------------
-	// Now print them to the node
-	for (GdtfDmxChannelSet* channelObj : tempArr)
-	{
-		channelObj->WriteToNode(pNode);
-	}
-	fChannelSets = tempArr;
-
-	// ------------------------------------------------------------------------------------
-	// SubChannelSets
-	for(GdtfDmxSubChannelSet* subChannelSet : fSubChannelSets)
-	{
-		subChannelSet->WriteToNode(pNode);
-	}
-}
-
-void GdtfDmxChannelFunction::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnReadFromNode(pNode);
-	
-	// ------------------------------------------------------------------------------------
-	// Print node attributes
-	EGdtfChannelBitResolution channelReso = fParentLogicalChannel->GetParentDMXChannel()->GetChannelBitResolution();
-
-							pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelFuntionName,				fName);
-							pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelFuntionOriginalAttribute,	fOrignalAttribute);
-	TXString defaultValue;	pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelFuntionDefault,				defaultValue);		GdtfConverter::ConvertDMXValue(defaultValue,	pNode,	channelReso,fDefaultValue);
-	TXString dmxFrom;		pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelFuntionDMXFrom,				dmxFrom);			GdtfConverter::ConvertDMXValue(dmxFrom, 		pNode,	channelReso,fAdressStart);
-	TXString physFrom;		pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelFuntionPhysicalFrom,		physFrom);			GdtfConverter::ConvertDouble(physFrom, 			pNode,				fPhysicalStart);
-	TXString physTo;		pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelFuntionPhysicalTo,			physTo);			GdtfConverter::ConvertDouble(physTo, 			pNode,				fPhysicalEnd);
-	TXString realFade;		pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelFuntionRealFade,			realFade);			GdtfConverter::ConvertDouble(realFade, 			pNode,				fRealFade);
-	TXString realAcc;		pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelFuntionRealAcceleration,	realAcc);			GdtfConverter::ConvertDouble(realAcc, 			pNode,				fRealAcceleration);
-	TXString min;			pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelFunctionMin,				min);				GdtfConverter::ConvertDouble(min, 				pNode,				fMin);
-	TXString max;			pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelFunctionMax,				max);				GdtfConverter::ConvertDouble(max, 				pNode,				fMax);
-							pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelFunctionCustomName,			fCustomName);
-	// Unresolved refs
-	pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelFuntionAttribute, 	fUnresolvedAttrRef);	
-	pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelFuntionWheelRef, 	fUnresolvedWheelRef);
-	pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelEmitter, 			fUnresolvedEmitterRef);
-    pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelFuntionFilter,		fUnresolvedFilterRef);
-    pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelFunctionColorSpace,	fUnresolvedColorSpaceRef);
-    pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelFunctionGamut,		fUnresolvedGamutRef);
-    pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelFunctionDMXProfile,	fUnresolvedDMXProfileRef);
-
-	// Read Mode Master
-	pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelFuntionModeMaster,	fUnresolvedModeMaster);	
-	pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelFuntionModeFrom,	fUnresolvedDmxModeStart);	
-	pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelFuntionModeTo,		fUnresolvedDmxModeEnd);	
-
-    
-
-	// ------------------------------------------------------------------------------------
-	// GdtfDmxChannelSet
-	GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_DMXChannelSetNodeName, [this] (IXMLFileNodePtr objNode) -> void
-	{	
-		if ( CheckAbort() ) return;
-
-		// Create the object
-		GdtfDmxChannelSetPtr channelSet = new GdtfDmxChannelSet(this);
-		
-		// Read from node
-		channelSet->ReadFromNode(objNode);
-
-		if( ! channelSet->IsValid()) { delete channelSet; return; }
-
-		// For old virtual channels with recalculated DMX values(32->16), ensure unique DMXFrom values
-		if (this->GetParentDMXChannel()->IsVirtual())
-		{
-			DmxValue maxDmxValue = this->GetParentDMXChannel()->GetChannelMaxDmx();
-
-			if (fChannelSets.size() >= maxDmxValue)
-			{
-				GdtfParsingError error (GdtfDefines::EGdtfParsingError::eValueError_DmxValueHasWrongValue, objNode);
-				SceneData::GdtfFixture::AddError(error);
-				delete channelSet;
-				return;
-			}
-			
-			DmxValue currentValue = channelSet->GetDmxStart();
-
-			bool hasDuplicate = true;
-			
-			while (hasDuplicate && currentValue < maxDmxValue)
-			{
-				hasDuplicate = false;
-				for (size_t i = 0; i < fChannelSets.size(); i++)
-				{
-					if (fChannelSets[i]->GetDmxStart() == currentValue)
-					{
-						hasDuplicate = true;
-						currentValue++;
-						break;
-					}
-				}
-			}
-			
-			// If we reached the maximum and still have a duplicate, use cascading backward decrement
-			if (hasDuplicate && currentValue >= maxDmxValue)
-			{
-				for (int i = fChannelSets.size() - 1; i >= 0; i--)
-				{
-					DmxValue nextValue = (i == (int)fChannelSets.size() - 1) ? maxDmxValue : fChannelSets[i + 1]->GetDmxStart();
-					DmxValue currentElem = fChannelSets[i]->GetDmxStart();
-					DmxValue maxAllowed = (nextValue > 0) ? (nextValue - 1) : 0;
-					
-					if (currentElem >= nextValue && maxAllowed >= 0)
-					{
-						fChannelSets[i]->SetDmxStart(maxAllowed);
-					}
-				}
-				
-				currentValue = maxDmxValue;
-			}
-			
-			if (currentValue != channelSet->GetDmxStart())
-			{
-				channelSet->SetDmxStart(currentValue);
-			}
-		}
-	
-		// Link with next
-		if(!fChannelSets.empty()) 
-		{ 
-			bool validDmxRange = fChannelSets.back()->SetNextChannelSet(channelSet, objNode);
-			if(! validDmxRange) { delete channelSet; return; }
-		}
-		
-		// Add to list
-		fChannelSets.push_back(channelSet);
-		
-		return;
-	});
-	
-	// Now calculate end values
-	for (size_t i = 1; i < fChannelSets.size() ; i++)
-	{
-		GdtfDmxChannelSetPtr first  = fChannelSets[i-1];
-		GdtfDmxChannelSetPtr second = fChannelSets[ i ];
-		
-		first->SetDmxEnd(second->GetDmxStart() - 1);
-	}
-
-	// ------------------------------------------------------------------------------------
-	// GdtfDmxSubChannelSet
-	GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_DMXSubChannelSetNodeName, [this] (IXMLFileNodePtr objNode) -> void
-	{
-		if ( CheckAbort() ) return;
-
-		// Create the object
-		GdtfDmxSubChannelSetPtr subChannelSet = new GdtfDmxSubChannelSet();
-		
-		// Read from node
-		subChannelSet->ReadFromNode(objNode);
-
-		// Add to list
-		fSubChannelSets.push_back(subChannelSet);
-
-		return;
-	});
-}
-
-void GdtfDmxChannelFunction::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	optional.push_back(XML_GDTF_DMXChannelFuntionName);
-	optional.push_back(XML_GDTF_DMXChannelFuntionAttribute);
-	optional.push_back(XML_GDTF_DMXChannelFuntionOriginalAttribute);
-	optional.push_back(XML_GDTF_DMXChannelFuntionDefault);
-	optional.push_back(XML_GDTF_DMXChannelFuntionDMXFrom);
-	optional.push_back(XML_GDTF_DMXChannelFuntionPhysicalFrom);
-	optional.push_back(XML_GDTF_DMXChannelFuntionPhysicalTo);
-	optional.push_back(XML_GDTF_DMXChannelFuntionWheelRef);
-	optional.push_back(XML_GDTF_DMXChannelEmitter);	
-	optional.push_back(XML_GDTF_DMXChannelFuntionModeMaster);
-	optional.push_back(XML_GDTF_DMXChannelFuntionModeFrom);
-	optional.push_back(XML_GDTF_DMXChannelFuntionModeTo);
-	optional.push_back(XML_GDTF_DMXChannelFuntionRealFade);
-    optional.push_back(XML_GDTF_DMXChannelFuntionFilter);
-	optional.push_back(XML_GDTF_DMXChannelFuntionRealAcceleration);
-	optional.push_back(XML_GDTF_DMXChannelFunctionColorSpace);
-	optional.push_back(XML_GDTF_DMXChannelFunctionGamut);
-	optional.push_back(XML_GDTF_DMXChannelFunctionDMXProfile);
-	optional.push_back(XML_GDTF_DMXChannelFunctionMin);
-	optional.push_back(XML_GDTF_DMXChannelFunctionMax);
-	optional.push_back(XML_GDTF_DMXChannelFunctionCustomName);
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfDmxChannelFunction::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfDmxChannelFuntion;
-}
-
-TXString GdtfDmxChannelFunction::GetNodeName()
-{
-	return XML_GDTF_DMXChannelFuntionNodeName;
-}
-
-TXString GdtfDmxChannelFunction::GetNodeReference()
-{
-	TXString functionName = GetName();
-	if(functionName.IsEmpty())
-	{
-		ASSERTN(kEveryone, GetAttribute() != nullptr);
-		if(GetAttribute() != nullptr)
-		{
-			functionName = GetAttribute()->GetName();
-			functionName += " ";
-			functionName += TXString().itoa(GetNumberInParent());
-		}
-		
-	}
-	return fParentLogicalChannel->GetNodeReference() + "." + functionName;
-}
-
-size_t GdtfDmxChannelFunction::GetNumberInParent() const
-{
-	size_t count = fParentLogicalChannel->GetDmxChannelFunctions().size();
-	for(size_t i = 0; i < count; i++)
-	{
-		if(fParentLogicalChannel->GetDmxChannelFunctions()[i] == this)
-		{
-			return (i+1);
-		}
-	}
-	
-	DSTOP("Failed to get GetNumberInParent");
-	return 1;
-}
-
-const TXString& GdtfDmxChannelFunction::GetName() const
-{
-	return fName;
-}
-
-GdtfAttribute* GdtfDmxChannelFunction::GetAttribute()
-{
-	return fAttribute;
-}
-
-const TXString& GdtfDmxChannelFunction::GetOriginalAttribute()
-{
-	return fOrignalAttribute;
-}
-
-DmxValue GdtfDmxChannelFunction::GetDefaultValue() const
-{
-	return fDefaultValue;
-}
-
-DmxValue GdtfDmxChannelFunction::GetStartAdress() const
-{
-	return fAdressStart;
-}
-
-DmxValue GdtfDmxChannelFunction::GetEndAdress() const
-{
-	if(fNextFunction)
-	{
-		// There could be serveral Channel Function that have the same start adress, step over them 
-		if(fNextFunction->GetStartAdress() <= this->GetStartAdress()) { fParentLogicalChannel->GetParentDMXChannel()->GetChannelMaxDmx(); }
-		// If the Start Adress differrs, the end Adress is based on the start adress of this channel 
-		else { return(fNextFunction->GetStartAdress() - 1);  }	
-	}
-	
-	// Otherwise return the max for this feature
-	return fParentLogicalChannel->GetParentDMXChannel()->GetChannelMaxDmx();
-}
-
-double GdtfDmxChannelFunction::GetPhysicalStart() const
-{
-	return fPhysicalStart;
-}
-
-double GdtfDmxChannelFunction::GetPhysicalEnd() const
-{
-	return fPhysicalEnd;
-}
-
-double GdtfDmxChannelFunction::GetRealFade() const
-{
-	return fRealFade;
-}
-
-double GdtfDmxChannelFunction::GetRealAcceleration() const
-{
-	return fRealAcceleration;
-}
-
-GdtfWheelPtr GdtfDmxChannelFunction::GetOnWheel() const
-{
-	return fOnWheel;
-}
-
-GdtfPhysicalEmitter * SceneData::GdtfDmxChannelFunction::GetEmitter() const
-{
-    return fEmitter;
-}
-
-GdtfFilterPtr SceneData::GdtfDmxChannelFunction::GetFilter() const
-{
-    return fFilter;
-}
-
-GdtfColorSpacePtr SceneData::GdtfDmxChannelFunction::GetColorSpace() const
-{
-    return fColorSpace;
-}
-
-GdtfGamutPtr SceneData::GdtfDmxChannelFunction::GetGamut() const
-{
-    return fGamut;
-}
-
-GdtfDMXProfilePtr SceneData::GdtfDmxChannelFunction::GetDMXProfile() const
-{
-    return fDMXProfile;
-}
-
-double GdtfDmxChannelFunction::GetMin() const
-{
-	return fMin;
-}
-
-double GdtfDmxChannelFunction::GetMax() const
-{
-	return fMax;
-}
-
-const TXString& GdtfDmxChannelFunction::GetCustomName() const
-{
-	return fCustomName;
-}
-
-void GdtfDmxChannelFunction::SetWheel(GdtfWheelPtr newWhl)
-{
-	fOnWheel = newWhl;
-}
-
-const TGdtfDmxChannelSetArray& GdtfDmxChannelFunction::GetChannelSets() const
-{
-	return fChannelSets;
-}
-
-const TGdtfDmxSubChannelSetArray& GdtfDmxChannelFunction::GetSubChannelSets() const
-{
-	return fSubChannelSets;
-}
-
-GdtfDmxChannel* GdtfDmxChannelFunction::GetModeMaster_Channel() const
-{
-	return fModeMaster_Channel;
-}
-
-GdtfDmxChannelFunction* GdtfDmxChannelFunction::GetModeMaster_Function() const
-{
-	return fModeMaster_Function;
-}
-
-DmxValue GdtfDmxChannelFunction::GetModeMasterDmxStart() const
-{
-	return fDmxModeStart;
-}
-
-DmxValue GdtfDmxChannelFunction::GetModeMasterDmxEnd() const
-{
-	return fDmxModeEnd;
-}
-
-void GdtfDmxChannelFunction::ResolveModeMasterDmx(EGdtfChannelBitResolution resolution)
-{
-	IXMLFileNodePtr node;
-	this->GetNode(node);
-
-	GdtfConverter::ConvertDMXValue(fUnresolvedDmxModeStart, node, resolution, fDmxModeStart);
-	GdtfConverter::ConvertDMXValue(fUnresolvedDmxModeEnd,node, resolution, fDmxModeEnd);
-}
-
-void GdtfDmxChannelFunction::SetModeMaster_Channel(GdtfDmxChannel* channel)
-{
-	ASSERTN(kEveryone, fModeMaster_Function == nullptr);
-	fModeMaster_Function = nullptr;
-	fModeMaster_Channel = channel;
-}
-
-void GdtfDmxChannelFunction::SetModeMaster_Function(GdtfDmxChannelFunction* function)
-{
-	ASSERTN(kEveryone, fModeMaster_Channel == nullptr);
-	fModeMaster_Channel = nullptr;
-	fModeMaster_Function = function;
-}
-
-void GdtfDmxChannelFunction::SetModeMasterDmxStart(DmxValue start)
-{
-	fDmxModeStart = start;
-}
-
-void GdtfDmxChannelFunction::SetModeMasterDmxEnd(DmxValue end)
-{
-	fDmxModeEnd = end;
-}
-
-void GdtfDmxChannelFunction::SetEmitter(GdtfPhysicalEmitter* newEmit)
-{
-	fEmitter = newEmit;
-}
-
-void SceneData::GdtfDmxChannelFunction::SetFilter(GdtfFilterPtr val)
-{
-    fFilter = val;
-}
-
-void SceneData::GdtfDmxChannelFunction::SetColorSpace(GdtfColorSpacePtr colorSpace)
-{
-    fColorSpace = colorSpace;
-}
-
-void SceneData::GdtfDmxChannelFunction::SetGamut(GdtfGamutPtr gamut)
-{
-    fGamut = gamut;
-}
-
-void SceneData::GdtfDmxChannelFunction::SetDMXProfile(GdtfDMXProfilePtr dmxProfile)
-{
-    fDMXProfile = dmxProfile;
-}
-
-void SceneData::GdtfDmxChannelFunction::SetMin(double min)
-{
-    fMin = min;
-}
-
-void SceneData::GdtfDmxChannelFunction::SetMax(double max)
-{
-    fMax = max;
-}
-
-void SceneData::GdtfDmxChannelFunction::SetCustomName(const TXString& customName)
-{
-    fCustomName = customName;
-}
-
-const TXString& GdtfDmxChannelFunction::getUnresolvedAttrRef() const
-{
-	return fUnresolvedAttrRef;
-}
-
-const TXString& GdtfDmxChannelFunction::getUnresolvedWheelRef() const
-{
-	return fUnresolvedWheelRef;
-}
-
-const TXString& GdtfDmxChannelFunction::getUnresolvedEmitterRef() const
-{
-	return fUnresolvedEmitterRef;
-}
-
-const TXString& GdtfDmxChannelFunction::getUnresolvedModeMasterRef() const
-{
-	return fUnresolvedModeMaster;
-}
-
-const TXString & SceneData::GdtfDmxChannelFunction::getUnresolvedFilterRef()
-{
-    return fUnresolvedFilterRef;
-}
-
-const TXString& SceneData::GdtfDmxChannelFunction::getUnresolvedColorSpaceRef() const
-{
-    return fUnresolvedColorSpaceRef;
-}
-
-const TXString& SceneData::GdtfDmxChannelFunction::getUnresolvedGamutRef() const
-{
-    return fUnresolvedGamutRef;
-}
-
-const TXString& SceneData::GdtfDmxChannelFunction::getUnresolvedDMXProfileRef() const
-{
-    return fUnresolvedDMXProfileRef;
-}
-
-GdtfDmxChannel * SceneData::GdtfDmxChannelFunction::GetParentDMXChannel() const
-{
-	return fParentLogicalChannel->GetParentDMXChannel();
-}
-
-GdtfDmxLogicalChannel * SceneData::GdtfDmxChannelFunction::GetParentLogicalChannel() const
-{
-	return fParentLogicalChannel;
-}
-
-GdtfDmxChannelFunction* SceneData::GdtfDmxChannelFunction::GetNextFunction() const
-{
-	return fNextFunction;
-}
-
-//------------------------------------------------------------------------------------
-// GdtfDmxChannelSet
-GdtfDmxChannelSet::GdtfDmxChannelSet(GdtfDmxChannelFunction* parent)
-{
-	fDmxStart		= 0;
-	fDmxEnd			= -1;
-	fPhysicalStart	= 0.0;
-	fPhysicalEnd	= 1.0;	
-	fWheelSlotIdx	= 0;
-	fSetPhysical	= false;
-	fNextChannelSet = nullptr;
-	fParentChnlFunction = parent;
-	fValid = true;
-}
-
-GdtfDmxChannelSet::GdtfDmxChannelSet(const TXString& name, GdtfDmxChannelFunction* parent)
-{
-	fUniqueName = name;
-	fDmxStart		= 0;
-	fDmxEnd			= -1;
-	fPhysicalStart	= 0.0;
-	fPhysicalEnd	= 1.0;	
-	fWheelSlotIdx	= 0;
-	fSetPhysical	= false;
-	fNextChannelSet = nullptr;
-	fParentChnlFunction = parent;
-	fValid = true;
-}
-
-GdtfDmxChannelSet::~GdtfDmxChannelSet()
-{
-}
-
-bool GdtfDmxChannelSet::SetNextChannelSet(GdtfDmxChannelSet* next, IXMLFileNodePtr objNode)
-{
-	if(this->GetDmxStart() >= next->GetDmxStart())
-	{
-		GdtfParsingError error (GdtfDefines::EGdtfParsingError::eValueError_DmxValueHasWrongValue, objNode);
-        SceneData::GdtfFixture::AddError(error);
-		return false;
-	}
-
-	ASSERTN(kEveryone, fNextChannelSet == nullptr);
-	fNextChannelSet = next;
-	return true;
-}
-
-void GdtfDmxChannelSet::SetName(const TXString& name)
-{
-	fUniqueName = name;
-}
-
-void GdtfDmxChannelSet::SetDmxStart(DmxValue start)
-{
-	fDmxStart = start;
-}
-
-void GdtfDmxChannelSet::SetDmxEnd(DmxValue end)
-{
-	fDmxEnd = end;
-}
-
-void GdtfDmxChannelSet::SetPhysicalStart(double start)
-{
-	fPhysicalStart = start;
-	fSetPhysical	= true;
-}
-
-void GdtfDmxChannelSet::SetPhysicalEnd(double end)
-{
-	fPhysicalEnd = end;
-	fSetPhysical	= true;
-}
-
-void GdtfDmxChannelSet::SetWheelSlot(Sint32 slotIndex)
-{
-	fWheelSlotIdx = slotIndex;
-}
-
-bool GdtfDmxChannelSet::IsValid()
-{
-	return fValid;
-}
-
-void GdtfDmxChannelSet::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnPrintToFile(pNode);
-	
-	EGdtfChannelBitResolution chanelReso = GetParentDMXChannel()->GetChannelBitResolution();
-	// ------------------------------------------------------------------------------------
-	// Print node attributes
-	pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelSetName,				fUniqueName);
-	pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelSetDMXFrom,				GdtfConverter::ConvertDMXValue(fDmxStart, chanelReso));
-	pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelSetWheelSlotIndexRef,	GdtfConverter::ConvertInteger(fWheelSlotIdx));
-	
-	if(fSetPhysical)
-	{
-		pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelSetPhysicalFrom,		GdtfConverter::ConvertDouble(fPhysicalStart));
-		pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelSetPhysicalTo,			GdtfConverter::ConvertDouble(fPhysicalEnd));
-	}
-	
-}
-
-void GdtfDmxChannelSet::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnReadFromNode(pNode);
-	
-	
-	// ------------------------------------------------------------------------------------
-	// Print node attributes
-	pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelSetName,				fUniqueName);
-	
-	EGdtfChannelBitResolution channelReso = fParentChnlFunction->GetParentDMXChannel()->GetChannelBitResolution();
-
-	TXString dmxfrom;	pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelSetDMXFrom,				dmxfrom);	fValid = GdtfConverter::ConvertDMXValue (dmxfrom, pNode, channelReso, fDmxStart);
-	TXString wheelId;	pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelSetWheelSlotIndexRef,	wheelId);	GdtfConverter::ConvertInteger(wheelId, pNode,  fWheelSlotIdx);
-	
-	
-	TXString physFrom; pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelSetPhysicalFrom,		physFrom);
-	TXString physTo;   pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelSetPhysicalTo,	    physTo);
-	
-	bool b1 = GdtfConverter::ConvertDouble(physTo, pNode,	fPhysicalEnd);
-	bool b2 = GdtfConverter::ConvertDouble(physFrom, pNode,	fPhysicalStart);
-	fSetPhysical = (b1 && b2);
-
-}
-
-void GdtfDmxChannelSet::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	optional.push_back(XML_GDTF_DMXChannelSetName);
-	optional.push_back(XML_GDTF_DMXChannelSetDMXFrom);
-	optional.push_back(XML_GDTF_DMXChannelSetWheelSlotIndexRef);
-
-	if(fSetPhysical)
-	{
-		needed.push_back(XML_GDTF_DMXChannelSetPhysicalFrom);
-		needed.push_back(XML_GDTF_DMXChannelSetPhysicalTo);
-
-	}
-	else
-	{
-		optional.push_back(XML_GDTF_DMXChannelSetPhysicalFrom);
-		optional.push_back(XML_GDTF_DMXChannelSetPhysicalTo);
-	}
-	
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfDmxChannelSet::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfDmxChannelSet;
-}
-
-TXString GdtfDmxChannelSet::GetNodeName()
-{
-	return XML_GDTF_DMXChannelSetNodeName;
-}
-
-const TXString& GdtfDmxChannelSet::GetName() const
-{
-	return fUniqueName;
-}
-
-bool GdtfDmxChannelSet::GetUsePhysicalFromParent() const
-{
-	return !fSetPhysical;
-}
-
-DmxValue GdtfDmxChannelSet::GetDmxStart() const
-{
-	return fDmxStart;
-}
-
-DmxValue GdtfDmxChannelSet::GetDmxEnd() const
-{
-	if(fNextChannelSet == nullptr && fDmxEnd == size_t(-1)) {  return fParentChnlFunction->GetEndAdress(); }
-	return fDmxEnd;
-}
-
-double GdtfDmxChannelSet::GetPhysicalStart() const
-{
-	return fPhysicalStart;
-}
-
-double GdtfDmxChannelSet::GetPhysicalEnd() const
-{
-	return fPhysicalEnd;
-}
-
-Sint32 GdtfDmxChannelSet::GetWheelSlot()
-{
-	return fWheelSlotIdx;
-}
-
-GdtfDmxChannel * SceneData::GdtfDmxChannelSet::GetParentDMXChannel() const
-{
-	return fParentChnlFunction->GetParentDMXChannel();
-}
-
-//------------------------------------------------------------------------------------
-// GdtfDmxSubChannelSet
-GdtfDmxSubChannelSet::GdtfDmxSubChannelSet()
-{
-	fUniqueName 		= "";
-	fPhysicalFrom		= 0.0;
-	fPhysicalTo			= 1.0;
-	fSubPhysicalUnit 	= nullptr;
-	fDMXProfile 		= nullptr;
-}
-
-GdtfDmxSubChannelSet::GdtfDmxSubChannelSet(GdtfSubPhysicalUnitPtr subPhysicalUnit, const TXString& name)
-{
-	fUniqueName 		= name;
-	fPhysicalFrom		= 0.0;
-	fPhysicalTo			= 1.0;
-	fSubPhysicalUnit 	= subPhysicalUnit;
-	fDMXProfile 		= nullptr;
-	if(subPhysicalUnit)
-	{
-		fPhysicalFrom 	= subPhysicalUnit->GetPhysicalFrom();
-		fPhysicalTo		= subPhysicalUnit->GetPhysicalTo();
-	}
-}
-
-GdtfDmxSubChannelSet::~GdtfDmxSubChannelSet()
-{
-}
-
-void GdtfDmxSubChannelSet::SetName(const TXString& name)
-{
-	fUniqueName = name;
-}
-
-void GdtfDmxSubChannelSet::SetPhysicalFrom(double from)
-{
-	fPhysicalFrom = from;
-}
-
-void GdtfDmxSubChannelSet::SetPhysicalTo(double to)
-{
-	fPhysicalTo = to;
-}
-
-void GdtfDmxSubChannelSet::SetSubPhysicalUnit(GdtfSubPhysicalUnitPtr subPhysicalUnit)
-{
-	fSubPhysicalUnit = subPhysicalUnit;
-}
-
-void GdtfDmxSubChannelSet::SetDMXProfile(GdtfDMXProfilePtr dmxProfile)
-{
-	fDMXProfile = dmxProfile;
-}
-
-void GdtfDmxSubChannelSet::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnPrintToFile(pNode);
-
-	// ------------------------------------------------------------------------------------
-	// Print node attributes
-								pNode->SetNodeAttributeValue(XML_GDTF_DMXSubChannelSetName,				fUniqueName);
-								pNode->SetNodeAttributeValue(XML_GDTF_DMXSubChannelSetPhysicalFrom,		GdtfConverter::ConvertDouble(fPhysicalFrom));
-								pNode->SetNodeAttributeValue(XML_GDTF_DMXSubChannelSetPhysicalTo,		GdtfConverter::ConvertDouble(fPhysicalTo));
-	if(fSubPhysicalUnit) 	{	pNode->SetNodeAttributeValue(XML_GDTF_DMXSubChannelSetSubPhysicalUnit, 	fSubPhysicalUnit->GetNodeReference()); }
-	if(fDMXProfile) 		{	pNode->SetNodeAttributeValue(XML_GDTF_DMXSubChannelSetDMXProfile,		fDMXProfile->GetNodeReference()); }
-
-}
-
-void GdtfDmxSubChannelSet::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnReadFromNode(pNode);
-	
-	// ------------------------------------------------------------------------------------
-	// Read node attributes
-							pNode->GetNodeAttributeValue(XML_GDTF_DMXSubChannelSetName,				fUniqueName);	
-	TXString physicalFrom; 	pNode->GetNodeAttributeValue(XML_GDTF_DMXSubChannelSetPhysicalFrom,		physicalFrom); 	GdtfConverter::ConvertDouble(physicalFrom, pNode, fPhysicalFrom);
-	TXString physicalTo;   	pNode->GetNodeAttributeValue(XML_GDTF_DMXSubChannelSetPhysicalTo,		physicalTo); 	GdtfConverter::ConvertDouble(physicalTo, pNode, fPhysicalTo);
-							pNode->GetNodeAttributeValue(XML_GDTF_DMXSubChannelSetSubPhysicalUnit,	fUnresolvedSubPhysicalUnitRef);	
-							pNode->GetNodeAttributeValue(XML_GDTF_DMXSubChannelSetDMXProfile,		fUnresolvedDMXProfileRef);	
-}
-
-void GdtfDmxSubChannelSet::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	optional.push_back(XML_GDTF_DMXSubChannelSetName);
-	optional.push_back(XML_GDTF_DMXSubChannelSetPhysicalFrom);
-	optional.push_back(XML_GDTF_DMXSubChannelSetPhysicalTo);
-	optional.push_back(XML_GDTF_DMXSubChannelSetDMXProfile);
-	needed.push_back(XML_GDTF_DMXSubChannelSetSubPhysicalUnit);
-	
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfDmxSubChannelSet::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfDmxSubChannelSet;
-}
-
-TXString GdtfDmxSubChannelSet::GetNodeName()
-{
-	return XML_GDTF_DMXSubChannelSetNodeName;
-}
-
-const TXString& GdtfDmxSubChannelSet::GetName() const
-{
-	return fUniqueName;
-}
-
-double GdtfDmxSubChannelSet::GetPhysicalFrom() const
-{
-	return fPhysicalFrom;
-}
-
-double GdtfDmxSubChannelSet::GetPhysicalTo() const
-{
-	return fPhysicalTo;
-}
-
-GdtfSubPhysicalUnitPtr GdtfDmxSubChannelSet::GetSubPhysicalUnit() const
-{
-	return fSubPhysicalUnit;
-}
-
-GdtfDMXProfilePtr GdtfDmxSubChannelSet::GetDMXProfile() const
-{
-	return fDMXProfile;
-}
-
-const TXString& GdtfDmxSubChannelSet::GetUnresolvedSubPhysicalUnitRef() const
-{
-	return fUnresolvedSubPhysicalUnitRef;
-}
-
-const TXString& GdtfDmxSubChannelSet::GetUnresolvedDMXProfileRef() const
-{
-	return fUnresolvedDMXProfileRef;
-}
-
-//------------------------------------------------------------------------------------
-// GdtfDmxRelation
-GdtfDmxRelation::GdtfDmxRelation()
-{
-	fMasterDmxChannel		= nullptr;
-	fSlaveChannelFunction	= nullptr;
-	fRelationType			= EGdtfDmxRelationType::eGdtfDmxRelationType_Override;
-
-}
-
-GdtfDmxRelation::GdtfDmxRelation(GdtfDmxChannelPtr master, GdtfDmxChannelFunctionPtr slave, const TXString& name)
-{
-	fUniqueName				= name;
-	fMasterDmxChannel		= master;
-	fSlaveChannelFunction	= slave;
-	fRelationType			= EGdtfDmxRelationType::eGdtfDmxRelationType_Override;
-}
-
-GdtfDmxRelation::~GdtfDmxRelation()
-{
-}
-
-void GdtfDmxRelation::SetName(const TXString& name)
-{
-	fUniqueName = name;
-}
-
-void GdtfDmxRelation::SetRelationType(EGdtfDmxRelationType type)
-{
-	fRelationType = type;
-}
-
-void GdtfDmxRelation::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnPrintToFile(pNode);
-	
-	// ------------------------------------------------------------------------------------
-	// Print node attributes
-	pNode->SetNodeAttributeValue(XML_GDTF_DMXRelationName,				fUniqueName);
-	if (fMasterDmxChannel) 		{ pNode->SetNodeAttributeValue(XML_GDTF_DMXRelationMaster,			fMasterDmxChannel->GetNodeReference());}
-	if (fSlaveChannelFunction)  { pNode->SetNodeAttributeValue(XML_GDTF_DMXRelationSlave,			fSlaveChannelFunction->GetNodeReference());}
-	pNode->SetNodeAttributeValue(XML_GDTF_DMXRelationType,		GdtfConverter::ConvertRelationEnum(fRelationType));
-
-
-}
-
-void GdtfDmxRelation::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnReadFromNode(pNode);	
-	
-	// ------------------------------------------------------------------------------------
-	// Print node attributes
-	pNode->GetNodeAttributeValue(XML_GDTF_DMXRelationName,	 fUniqueName);
-	pNode->GetNodeAttributeValue(XML_GDTF_DMXRelationMaster, fUnresolvedMasterRef);
-	pNode->GetNodeAttributeValue(XML_GDTF_DMXRelationSlave,	 fUnresolvedSlaveRef);
-    TXString type;		pNode->GetNodeAttributeValue(XML_GDTF_DMXRelationType,		type);		GdtfConverter::ConvertRelationEnum(type, pNode,	fRelationType); 
-}
-
-void GdtfDmxRelation::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_DMXRelationName);
-	needed.push_back(XML_GDTF_DMXRelationMaster);
-	needed.push_back(XML_GDTF_DMXRelationSlave);
-	needed.push_back(XML_GDTF_DMXRelationType);
-	
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfDmxRelation::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfDmxRelation;
-}
-
-TXString GdtfDmxRelation::GetNodeName()
-{
-	return XML_GDTF_DMXRelationNodeName;
-}
-
-const TXString& GdtfDmxRelation::GetName() const
-{
-	return fUniqueName;
-}
-
-GdtfDmxChannelPtr GdtfDmxRelation::GetMasterChannel() const
-{
-	return fMasterDmxChannel;
-}
-
-void GdtfDmxRelation::SetMasterChannel(GdtfDmxChannelPtr newMaster)
-{
-	fMasterDmxChannel = newMaster;
-}
-
-GdtfDmxChannelFunctionPtr GdtfDmxRelation::GetSlaveChannel() const
-{
-	return fSlaveChannelFunction;
-}
-
-void GdtfDmxRelation::SetSlaveChannel(GdtfDmxChannelFunctionPtr newSlave)
-{
-	fSlaveChannelFunction = newSlave;
-}
-
-const TXString& GdtfDmxRelation::GetUnresolvedMasterRef() const
-{
-	return fUnresolvedMasterRef;
-}
-
-const TXString& GdtfDmxRelation::GetUnresolvedSlaveRef() const
-{
-	return fUnresolvedSlaveRef;
-}
-
-EGdtfDmxRelationType GdtfDmxRelation::GetRelationType() const
-{
-	return fRelationType;
-}
-
-//------------------------------------------------------------------------------------
-// GdtfRevision
-GdtfRevision::GdtfRevision()
-{
-    fText 			= "";
-	fUserId 		= 0;
-	fDateS.fYear	= 0;
-	fDateS.fMonth	= 0;
-	fDateS.fDay		= 0;
-	fDateS.fHour	= 0;
-	fDateS.fMinute	= 0;
-	fDateS.fSecond	= 0;
-	fModifiedBy 	= "";
-    
-}
-
-GdtfRevision::~GdtfRevision()
-{
-}
-
-void GdtfRevision::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnPrintToFile(pNode);
-	
-	
-	// ------------------------------------------------------------------------------------
-	// Print node attributes
-	pNode->SetNodeAttributeValue(XML_GDTF_RevisionText,			fText);
-	pNode->SetNodeAttributeValue(XML_GDTF_RevisionDate,			SceneData::GdtfConverter::ConvertDate(fDateS));
-	pNode->SetNodeAttributeValue(XML_GDTF_RevisionUserId,		SceneData::GdtfConverter::ConvertInteger(fUserId));
-	pNode->SetNodeAttributeValue(XML_GDTF_RevisionModifiedBy,	fModifiedBy);
-	
-}
-
-void GdtfRevision::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnReadFromNode(pNode);
-	
-	
-	// ------------------------------------------------------------------------------------
-	// Print node attributes
-						pNode->GetNodeAttributeValue(XML_GDTF_RevisionText,			fText);
-	TXString date;		pNode->GetNodeAttributeValue(XML_GDTF_RevisionDate, 		date);		GdtfConverter::ConvertDate(date, pNode, fDateS);
-	TXString userid;	pNode->GetNodeAttributeValue(XML_GDTF_RevisionUserId, 		userid);	GdtfConverter::ConvertInteger(userid, pNode, fUserId);
-						pNode->GetNodeAttributeValue(XML_GDTF_RevisionModifiedBy,	fModifiedBy);
-
-}
-
-void GdtfRevision::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_RevisionDate);
-	optional.push_back(XML_GDTF_RevisionText);
-	optional.push_back(XML_GDTF_RevisionUserId);
-	optional.push_back(XML_GDTF_RevisionModifiedBy);
-
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfRevision::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfRevision;
-}
-
-TXString GdtfRevision::GetNodeName()
-{
-	return XML_GDTF_RevisionNodeName;
-}
-
-void GdtfRevision::SetText(const TXString& text)
-{
-	fText = text;
-}
-
-void GdtfRevision::SetDate(const STime& date)
-{
-	fDateS.fYear	= date.fYear;
-	fDateS.fMonth	= date.fMonth;
-	fDateS.fDay		= date.fDay;
-	fDateS.fHour	= date.fHour;
-	fDateS.fMinute	= date.fMinute;
-	fDateS.fSecond	= date.fSecond;
-}
-
-void GdtfRevision::SetUserId(size_t value) 
-{
-	fUserId = value;
-}
-
-void GdtfRevision::SetModifiedBy(const TXString& modifiedBy)
-{
-	fModifiedBy = modifiedBy;
-}
-
-const TXString& GdtfRevision::GetText() const
-{
-	return fText;
-}
-
-const STime& GdtfRevision::GetDate() const
-{
-	return fDateS;
-}
-
-size_t GdtfRevision::GetUserId() const
-{
-	return fUserId;
-}
-
-const TXString& GdtfRevision::GetModifiedBy() const
-{
-	return fModifiedBy;
-}
-
-
-
-//------------------------------------------------------------------------------------
-// GdtfPhysicalEmitter
-GdtfPhysicalEmitter::GdtfPhysicalEmitter()
-{
-	fColor		= CRGBColor(255, 255, 255);
-    fDominantWaveLength = 0;
-    fDiodePart = "";
-}
-
-GdtfPhysicalEmitter::GdtfPhysicalEmitter(const TXString& name, CCieColor color)
-{
-	fColor		= color;
-	fName		= name;
-    fDominantWaveLength = 0;
-    fDiodePart = "";
-}
-
-GdtfPhysicalEmitter::~GdtfPhysicalEmitter()
-{
-	for (GdtfMeasurementPtr ptr : fMeasurements) { delete ptr; }
-}
-
-void GdtfPhysicalEmitter::SetName(const TXString &name)
-{
-	fName = name;
-}
-
-void GdtfPhysicalEmitter::SetColor(CCieColor color)
-{
-	fColor = color;
-}
-
-void SceneData::GdtfPhysicalEmitter::SetDiodePart(const TXString& val)
-{
-    fDiodePart = val;
-}
-
-void SceneData::GdtfPhysicalEmitter::SetDominantWaveLength(double val)
-{
-    fDominantWaveLength = val;
-}
-
-GdtfMeasurement* GdtfPhysicalEmitter::AddMeasurement()
-{
-	GdtfMeasurement* mes = new GdtfMeasurement(false);
-	fMeasurements.push_back(mes);
-	return mes;
-}
-
-void GdtfPhysicalEmitter::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnPrintToFile(pNode);
-	
-	// ------------------------------------------------------------------------------------
-	// Print node attributes
-	pNode->SetNodeAttributeValue(XML_GDTF_EmitterName,				 fName);
-	pNode->SetNodeAttributeValue(XML_GDTF_EmitterColor,				 GdtfConverter::ConvertColor(fColor) );
-    pNode->SetNodeAttributeValue(XML_GDTF_EmitterDominantWaveLength, GdtfConverter::ConvertDouble(fDominantWaveLength) );
-    pNode->SetNodeAttributeValue(XML_GDTF_EmitterDiodePart,          fDiodePart );
-	//------------------------------------------------------------------------------------
-	// Write Measurement
-	for (GdtfMeasurement* mes: fMeasurements)
-	{
-		mes->WriteToNode(pNode);
-	}
-}
-
-void GdtfPhysicalEmitter::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnReadFromNode(pNode);
-	
-	// ------------------------------------------------------------------------------------
-	// Print node attributes
-	pNode->GetNodeAttributeValue(XML_GDTF_EmitterName,				fName);
-	
-    TXString color;		   pNode->GetNodeAttributeValue(XML_GDTF_EmitterColor,	color);		
-    GdtfConverter::ConvertColor(color, pNode, fColor);
-
-    TXString waveLenStr;   pNode->GetNodeAttributeValue(XML_GDTF_EmitterDominantWaveLength,	waveLenStr);		
-    GdtfConverter::ConvertDouble(waveLenStr, pNode, fDominantWaveLength);
-
-    pNode->GetNodeAttributeValue(XML_GDTF_EmitterDiodePart, fDiodePart);
-	
-	// ------------------------------------------------------------------------------------
-	// Read Measurements
-	GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_MeasurementNodeName, [this] (IXMLFileNodePtr objNode) -> void
-								 {
-									 if ( CheckAbort() ) return;
-
-									 // Create the object
-									 GdtfMeasurementPtr mes = new GdtfMeasurement(false);
-									 
-									 // Read from node
-									 mes->ReadFromNode(objNode);
-									 
-									 // Add to list
-									 fMeasurements.push_back(mes);
-
-									 return;
-								 });
-}
-
-void GdtfPhysicalEmitter::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_EmitterName);
-	needed.push_back(XML_GDTF_EmitterColor);
-	    
-		
-	optional.push_back(XML_GDTF_EmitterDominantWaveLength);
-    optional.push_back(XML_GDTF_EmitterDiodePart);
-
-	
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfPhysicalEmitter::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfPhysicalEmitter;
-}
-
-TXString GdtfPhysicalEmitter::GetNodeName()
-{
-	return XML_GDTF_EmitterNodeName;
-}
-
-const TXString& GdtfPhysicalEmitter::GetName() const
-{
-	return fName;
-}
-
-CCieColor GdtfPhysicalEmitter::GetColor() const
-{
-	return fColor;
-}
-
-const TGdtfMeasurementArray GdtfPhysicalEmitter::GetMeasurements()
-{
-	return fMeasurements;
-}
-
-TXString GdtfPhysicalEmitter::GetNodeReference()
-{
-	return GetName();
-}
-
-const TXString& SceneData::GdtfPhysicalEmitter::GetDiodePart()
-{
-    return fDiodePart;
-}
-
-double SceneData::GdtfPhysicalEmitter::GetDominantWaveLength()
-{
-    return fDominantWaveLength;
-}
-
-//------------------------------------------------------------------------------------
-// Macro
-GdtfUserPreset::GdtfUserPreset()
-{
-}
-
-GdtfUserPreset::~GdtfUserPreset()
-{
-}
-
-void GdtfUserPreset::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnPrintToFile(pNode);
-}
-
-void GdtfUserPreset::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnReadFromNode(pNode);
-}
-
-EGdtfObjectType GdtfUserPreset::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfUserPreset;
-}
-
-TXString GdtfUserPreset::GetNodeName()
-{
-	return XML_GDTF_UserPresetNodeName;
-}
-
-//------------------------------------------------------------------------------------
-// Macro
-GdtfMacro::GdtfMacro()
-{
-	fChannelFunction = nullptr;
-	fMacroDMX = nullptr;
-	fMacroVisual = nullptr;
-}
-
-GdtfMacro::GdtfMacro(const TXString& name)
-{
-    fName = name;
-	fChannelFunction = nullptr;
-    fMacroDMX = nullptr;
-    fMacroVisual = nullptr;
-}
-
-GdtfMacro::~GdtfMacro()
-{    
-    if (fMacroDMX)    { delete fMacroDMX; }
-    if (fMacroVisual) { delete fMacroVisual; }    
-}
-
-void GdtfMacro::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-    //------------------------------------------------------------------------------------
-    // Call the parent
-    GdtfObject::OnPrintToFile(pNode);
-    
-	// ------------------------------------------------------------------------------------
-	// Print node attributes
-	pNode->SetNodeAttributeValue(XML_GDTF_MacroName, fName);
-
-	if(fChannelFunction) { pNode->SetNodeAttributeValue(XML_GDTF_MacroChannelFunction, fChannelFunction->GetNodeReference()); }
-
-	//------------------------------------------------------------------------------------
-    // Print the children
-    if (fMacroDMX != nullptr) 
-    {
-        fMacroDMX->WriteToNode(pNode);
-    }    
-    if (fMacroVisual != nullptr)
-    {
-        fMacroVisual->WriteToNode(pNode);
-    }
-}
-
-void GdtfMacro::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnReadFromNode(pNode);
-    //------------------------------------------------------------------------------------
-    // Get the attributes	
-    pNode->GetNodeAttributeValue(XML_GDTF_MacroName, fName);
-    pNode->GetNodeAttributeValue(XML_GDTF_MacroChannelFunction, fUnresolvedChannelFunction);
-
-    //------------------------------------------------------------------------------------
-    // Read the children
-	IXMLFileNodePtr macroDmxNode;
-    if(VCOM_SUCCEEDED(pNode->GetChildNode(XML_GDTF_MacroDMX, &macroDmxNode)))
-	{
-		if (fMacroDMX) { delete fMacroDMX; }
-		this->fMacroDMX = new GdtfMacroDMX();
-		this->fMacroDMX->ReadFromNode(macroDmxNode);
-	}
-	
-	IXMLFileNodePtr macroVisualNode;
-    if(VCOM_SUCCEEDED(pNode->GetChildNode(XML_GDTF_MacroVisual, &macroVisualNode)))
-	{
-		if (fMacroVisual) { delete fMacroVisual; }
-		this->fMacroVisual = new GdtfMacroVisual();
-		this->fMacroVisual->ReadFromNode(macroVisualNode);
-	}
-}
-
-void GdtfMacro::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_MacroName);
-	optional.push_back(XML_GDTF_MacroChannelFunction);
-	
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-const TXString & SceneData::GdtfMacro::GetName() const
-{
-    return fName;
-}
-
-GdtfMacroDMX* SceneData::GdtfMacro::GetMacroDMX() const
-{
-    return fMacroDMX;
-}
-
-GdtfDmxChannelFunction* SceneData::GdtfMacro::GetChannelFunction() const
-{
-    return fChannelFunction;
-}
-
-const TXString & SceneData::GdtfMacro::GetUnresolvedChannelFunction() const
-{
-    return fUnresolvedChannelFunction;
-}
-
-GdtfMacroVisual* SceneData::GdtfMacro::GetMacroVisual() const
-{
-    return fMacroVisual;
-}
-
-void SceneData::GdtfMacro::SetName(const TXString & name)
-{
-    fName = name;
-}
-
-void SceneData::GdtfMacro::SetChannelFunction(GdtfDmxChannelFunction* channelFunction)
-{
-    fChannelFunction = channelFunction;
-}
-
-void SceneData::GdtfMacro::SetMacroDMX(GdtfMacroDMX* val)
-{
-	if(fMacroDMX) {delete fMacroDMX; }
-    fMacroDMX = val;
-}
-
-void SceneData::GdtfMacro::SetMacroVisual(GdtfMacroVisual* val)
-{
-	if(fMacroVisual) {delete fMacroVisual; }
-    fMacroVisual = val;
-}
-
-EGdtfObjectType GdtfMacro::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfMacro;
-}
-
-TXString GdtfMacro::GetNodeName()
-{
-	return XML_GDTF_MacroNodeName;
-}
-
-//------------------------------------------------------------------------------------
-// GdtfMeasurementPoint
-GdtfMeasurementPoint::GdtfMeasurementPoint()
-{
-	fWaveLength		= 0;
-	fEngergy		= 0;
-}
-
-GdtfMeasurementPoint::~GdtfMeasurementPoint()
-{
-}
-
-void GdtfMeasurementPoint::SetWavelength(double wavelength)
-{
-	fWaveLength = wavelength;
-}
-
-void GdtfMeasurementPoint::SetEnergy(double energy)
-{
-	fEngergy = energy;
-}
-
-void GdtfMeasurementPoint::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnPrintToFile(pNode);
-	
-	// ------------------------------------------------------------------------------------
-	// Print node attributes
-	pNode->SetNodeAttributeValue(XML_GDTF_MeasurementWaveLegth,	GdtfConverter::ConvertDouble(fWaveLength));
-	pNode->SetNodeAttributeValue(XML_GDTF_MeasurementEnergy,	GdtfConverter::ConvertDouble(fEngergy));
-}
-
-void GdtfMeasurementPoint::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnReadFromNode(pNode);
-	
-	// ------------------------------------------------------------------------------------
-	// Print node attributes
-	TXString waveLength;	pNode->GetNodeAttributeValue(XML_GDTF_MeasurementWaveLegth,	waveLength);	GdtfConverter::ConvertDouble(waveLength, pNode, fWaveLength);
-	TXString energy;		pNode->GetNodeAttributeValue(XML_GDTF_MeasurementEnergy,	energy);		GdtfConverter::ConvertDouble(energy, pNode, fEngergy);
-}
-
-void GdtfMeasurementPoint::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_MeasurementWaveLegth);
-	needed.push_back(XML_GDTF_MeasurementEnergy);
-
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfMeasurementPoint::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfMeasurementPoint;
-}
-
-TXString GdtfMeasurementPoint::GetNodeName()
-{
-	return XML_GDTF_MeasurementPointNode;
-}
-
-double GdtfMeasurementPoint::GetWavelength()
-{
-	return fWaveLength;
-}
-
-double GdtfMeasurementPoint::GetEnergy()
-{
-	return fEngergy;
-}
-
-//------------------------------------------------------------------------------------
-// GdtfFixture
-TGdtfParsingErrorArray* GdtfFixture::__ERROR_CONTAINER_POINTER = nullptr;
-
-void GdtfFixture::ImportFromFile(IFileIdentifierPtr inZipFile, const TXString& folder)
-{
-	PrepareWorkingFolder(folder);
-	
-	IZIPFilePtr zipfile ( IID_ZIPFile );
-	zipfile->OpenRead(inZipFile);
-
-	ImportFromZip(zipfile);
-}
-
-void GdtfFixture::ImportFromBuffer(const char*buffer, size_t length, const TXString& folder)
-{
-	PrepareWorkingFolder(folder);
-	
-	IZIPFilePtr zipfile ( IID_ZIPFile );
-	zipfile->OpenRead(buffer, length);
-
-	ImportFromZip(zipfile);
-}
-
-void GdtfFixture::PrepareWorkingFolder(TXString folderName)
-{
-	//-------------------------------------------------------------------------------------------------
-	// Working Directory
-	if(folderName.IsEmpty()){ folderName = "GdtfGroup"; }
-
-	fWorkingFolder = (IID_FolderIdentifier);
-
-	IFolderIdentifierPtr folder ( IID_FolderIdentifier );
-	folder->Set( EFolderSpecifier::kSpotlightFolder, true, "GDTFs" );
-	folder->CreateOnDisk();
-
-	fWorkingFolder->Set(folder, folderName );
-
-	
-	//---------------------------------------------------------------------------------------------
-	// Always start with a empty folder
-	bool exists = false;
-	fWorkingFolder->ExistsOnDisk(exists);
-	if (exists) { fWorkingFolder->DeleteOnDisk(); }
-	
-	// Create new Folder
-	fWorkingFolder->CreateOnDisk();
-	
-	//---------------------------------------------------------------------------------------------
-	// check if this was good
-	fWorkingFolder->ExistsOnDisk(exists);
-	ASSERTN(kEveryone, exists == true);
-}
-
-bool GdtfFixture::ImportFromZip(IZIPFilePtr& zipfile)
-{
-	ASSERTN(kEveryone, __ERROR_CONTAINER_POINTER == nullptr);
-	__ERROR_CONTAINER_POINTER = & this->fErrorContainer; 
-
-	ISceneDataZipBuffer xmlFileBuffer;
-		
-	//-------------------------------------------------------------------------------------------------
-	// Decompress the files
-	std::string fileName				= "";
-	std::string inPath					= "";
-	while (VCOM_SUCCEEDED( zipfile->GetNextFile(inPath, fileName)))
-	{
-		// This is the current file that we are reading
-		ISceneDataZipBuffer buffer;
-		if(VCOM_SUCCEEDED(zipfile->GetFile(fileName, &buffer)))
-		{
-			if (fileName == "description.xml")
-			{
-				// Read the data
-				size_t	size = 0;							buffer.GetDataSize(size);
-				void*	data = malloc(size * sizeof(char));	buffer.CopyDataInto(data, size);
-				
-				// Set the buffer object
-				xmlFileBuffer.SetData(data, size);
-				
-				// House keeping
-				std::free(data);
-			}
-			else
-			{
-				//-----------------------------------------------------------------------------
-				// Prepare pointer to the new files            
-				
-				// Separate filename und folder
-				TXString fileNameWithoutFolder = TXString(fileName).Replace("/", TXString(kSeperator) );	
-	#ifndef _WINDOWS
-				fileNameWithoutFolder          = TXString(fileName).Replace("\\", TXString(kSeperator) ); // It seems some zips come also with this.
-	#endif
-				TXString subFolder 			   = SystemUtil::ExtractFolderFromPath(fileNameWithoutFolder);        
-				
-				// flatten the folder structure
-				subFolder = subFolder.Replace(TXString(kSeperator), "");
-				subFolder = TXString(kSeperator) + subFolder;
-
-				// write the data into the filebuffer map.
-				size_t	size = 0;							buffer.GetDataSize(size);
-				void*	data = malloc(size * sizeof(char));	buffer.CopyDataInto(data, size); //data is deleted in the GdtfFixture destructor.
-				std::pair<char*, size_t> bufferPair = std::make_pair((char*)data, size);
-				fFileBuffers[fileNameWithoutFolder] = bufferPair;
-
-				//-----------------------------------------------------------------------------
-				IFolderIdentifierPtr targetFolder (IID_FolderIdentifier);
-				targetFolder->Set(fWorkingFolder, subFolder);
-				
-				bool exists = false;
-				targetFolder->ExistsOnDisk(exists);
-				if( ! exists )	{ targetFolder->CreateOnDisk(); }
-				
-				
-				IFileIdentifierPtr file (IID_FileIdentifier);
-				file->Set(targetFolder, fileNameWithoutFolder);
-				
-				// dump buffer into file
-				buffer.WriteToFile(file);
-				
-				// Add it into the file list
-				fLocalFiles.push_back(file);
-
-				TXString fullPathRessource;
-				file->GetFileFullPath(fullPathRessource);
-				fLocalFilesFullPath.push_back(fullPathRessource);
-
-
-			}
-		}
-		
-		inPath = fileName;
-	}
-	
-	zipfile->Close();
-	
-	//-------------------------------------------------------------------------------------------------
-	// Decompress the files
-	fReaded = xmlFileBuffer.IsSet();
-	if ( ! fReaded)
-	{
-		GdtfParsingError error (GdtfDefines::EGdtfParsingError::eFixtureNoGdtfFileInXmlBuffer);
-		SceneData::GdtfFixture::AddError(error);
-		fReaded = false;
-	}
-	else
-	{
-		IXMLFilePtr xmlFile (IID_XMLFile);
-
-		size_t	size = 0;								xmlFileBuffer.GetDataSize(size);
-		void*	data = malloc(size * sizeof(char));		xmlFileBuffer.CopyDataInto(data, size);
-		
-		// Set the data
-		IXMLFileIOBufferImpl xmlBuffer;
-		xmlBuffer.SetData(data, size);
-		
-		// Housekeeping
-		std::free(data);
-		
-		if (VCOM_SUCCEEDED(xmlFile->ReadBuffer( &xmlBuffer, EXMLEncoding::eXMLEncoding_UTF8)))
-		{
-			IXMLFileNodePtr rootNode;
-			if (VCOM_SUCCEEDED(xmlFile->GetRootNode( & rootNode)))
-			{
-				TXString version;
-				rootNode->GetNodeAttributeValue( XML_GDTF_ROOTNODEATTRVERSION, version );
-				
-				int majorVersion = 0;
-				int minorVersion = 0;
-				size_t dotPos = version.Find(".");
-				if (dotPos != std::string::npos) {
-					TXString majorStr = version.Mid(0, dotPos);
-					TXString minorStr = version.Mid(dotPos + 1);
-					try {
-						majorVersion = std::stoi(majorStr.GetStdWString());
-						minorVersion = std::stoi(minorStr.GetStdWString());
-					} catch (...) {
-						majorVersion = 0;
-						minorVersion = 0;
-					}
-				}
-
-				this->SetMajorVersion( majorVersion );
-				this->SetMinorVersion( minorVersion );
-
-				IXMLFileNodePtr fixtureNode;
-				if (VCOM_SUCCEEDED(rootNode->GetChildNode(XML_GDTF_FixtureNodeName, &fixtureNode)))
-				{
-					//---------------------------------------------------------------------------------------------
-					// Read Stuff
-					this->GetFileNodesCount( fixtureNode );
-					this->ReadFromNode(fixtureNode);
-					this->ResolveAllReferences();		
-				}
-			}
-		}
-	}
-
-	__ERROR_CONTAINER_POINTER = nullptr;
-
-	return true;
-}
-
-void GdtfFixture::GetFileNodesCount(const IXMLFileNodePtr& rootNode)
-{
-	IXMLFileNodePtr node;
-	rootNode->GetFirstChildNode( &node );
-
-	while ( node != nullptr )
-	{
-		fTotalNodesCount++;
-		if ( VCOM_FAILED(( node->GetNextSiblingNode( &node ))))
-		{
-			node = nullptr;
-		}
-	}
-
-	fTotalNodesCount--;
-}
-
-/*static*/ void	GdtfFixture::AddError(const GdtfParsingError& error)
-{
-	
-	if(__ERROR_CONTAINER_POINTER)
-	{
-		__ERROR_CONTAINER_POINTER->push_back(error);
-	}
-}
-
-TGdtfParsingErrorArray& GdtfFixture::GetParsingErrorArray()
-{
-	return fErrorContainer;
-}
-
-void GdtfFixture::AutoGenerateNames(GdtfDmxModePtr dmxMode)
-{
-		for (GdtfDmxChannelPtr dmxChannel : dmxMode->GetChannelArray())
-		{
-			if ( CheckAbort() ) return;
-			//------------------------------------------------------------------------------------------------
-			//  Create Names for DMX Channel
-			ASSERTN(kEveryone, dmxChannel->GetGeomRef() != nullptr);
-			if (dmxChannel->GetGeomRef() == nullptr){ /* Error comes later*/ continue; }
-			
-			GdtfAttributePtr 	firstAttr = nullptr;
-			
-			for (GdtfDmxLogicalChannelPtr logicalChannel : dmxChannel->GetLogicalChannelArray())
-			{
-				if(CheckAbort()) { return; }
-				//------------------------------------------------------------------------------------------------
-				//  Create Names for Logical Channels
-				if ( logicalChannel->GetAttribute() != nullptr )
-				{
-					logicalChannel->SetName(logicalChannel->GetAttribute()->GetName());
-				}
-				else
-				{
-					IXMLFileNodePtr node;
-					logicalChannel->GetNode(node);
-					GdtfParsingError error (GdtfDefines::EGdtfParsingError::eFixtureLogicalChannelMissingAttribute, node);
-					SceneData::GdtfFixture::AddError(error);
-					ASSERTN(kEveryone, logicalChannel->GetAttribute() != nullptr);
-					continue;
-				}
-				
-				// Set first Attribute
-				if (firstAttr == nullptr) { firstAttr = logicalChannel->GetAttribute(); }
-				
-				//------------------------------------------------------------------------------------------------
-				//  Create Names for Channel Functions
-				Sint64 channelFunctionNumber = 1;
-				for (GdtfDmxChannelFunctionPtr function : logicalChannel->GetDmxChannelFunctions())
-				{
-					if(CheckAbort()) { return; }
-					//
-					if (function->GetName().IsEmpty())
-					{
-						ASSERTN(kEveryone, function->GetAttribute() != nullptr);
-						if (function->GetAttribute() == nullptr)
-						{
-							IXMLFileNodePtr node;
-							function->GetNode(node);
-							GdtfParsingError error (GdtfDefines::EGdtfParsingError::eFixtureChannelFunctionMissingAttribute, node);
-							SceneData::GdtfFixture::AddError(error);
-							continue;
-						}
-						TXString functionName; 
-						functionName += function->GetAttribute()->GetName();
-						functionName += " ";
-						functionName += TXString().itoa(channelFunctionNumber);
-						
-						function->SetName(functionName);
-					}
-					
-					channelFunctionNumber++;
-				}
-			}
-			
-			//------------------------------------------------------------------------------------------------
-			//  Set the DMX Name
-			ASSERTN(kEveryone, firstAttr != nullptr);
-			ASSERTN(kEveryone, dmxChannel->GetGeomRef() != nullptr);
-			if(firstAttr) { dmxChannel->SetName(dmxChannel->GetGeomRef()->GetName() + "_" + firstAttr->GetName()); }
-			
-		}
-}
-
-GdtfAttributePtr GdtfFixture::getAttributeByRef(const TXString& ref)
-{	
-	if(ref == XML_GDTF_AttributeNoFeature_nullptr)							   
-	{
-		if(fNoFeature == nullptr)
-		{
-			CreateNoFeatureAttribute();
-		} 
-		return fNoFeature; 
-	}
-
-	if (fUseIndexes)
-	{
-		auto it = fAttributeIndex.find(ref);
-		if (it != fAttributeIndex.end()) { return it->second; }
-	}
-	else
-	{
-		for (GdtfAttributePtr attr : fAttributes)
-		{
-			if (attr->GetNodeReference() == ref) { return attr; }
-		}
-	}
-
-	if(ref.IsEmpty())
-	{
-		if(fNoFeature == nullptr)
-		{
-			CreateNoFeatureAttribute();
-		} 
-		return fNoFeature; 
-	}
-
-	// When this line is reached nothing was found.
-	DSTOP ((kEveryone, "Failed to resolve GdtfAttributePtr."));
-	return fNoFeature;
-}
-
-void GdtfFixture::CreateNoFeatureAttribute()
-{
-	//------------------------------------------------------------
-	// Create Attribute
-	ASSERTN(kEveryone, fNoFeature == nullptr);
-	fNoFeature = new GdtfAttribute("NoFeature", "NoFeature");
-	fAttributes.push_back(fNoFeature);
-
-	//------------------------------------------------------------
-	// Create Feature Group
-	GdtfFeatureGroupPtr controlFeatureGroup = nullptr;
-	for (GdtfFeatureGroupPtr featGrp : fFeatureGroups)
-	{	
-		if(featGrp->GetName() == "Control")
-		{
-			controlFeatureGroup = featGrp;
-			break;
-		}
-	}
-
-	if(controlFeatureGroup == nullptr)
-	{
-		controlFeatureGroup = new GdtfFeatureGroup("Control", "Control");
-		fFeatureGroups.push_back(controlFeatureGroup);
-	}
-	ASSERTN(kEveryone, controlFeatureGroup != nullptr)
-
-	//------------------------------------------------------------
-	// Create Feature
-	GdtfFeaturePtr linkedFeature = nullptr;
-	for (GdtfFeaturePtr feature : controlFeatureGroup->GetFeatureArray())
-	{	
-		if(feature->GetName() == "Control")
-		{
-			linkedFeature = feature;
-			break;
-		}
-	}
-
-	if(linkedFeature == nullptr)
-	{
-		linkedFeature = controlFeatureGroup->AddFeature("Control");
-	}
-
-	fNoFeature->SetFeature(linkedFeature);
-
-}
-
-GdtfWheelPtr GdtfFixture::getWheelByRef(const TXString& ref)
-{
-	if (fUseIndexes)
-	{
-		auto it = fWheelIndex.find(ref);
-		if (it != fWheelIndex.end()) { return it->second; }
-	}
-	else
-	{
-		for (GdtfWheelPtr whl : fWheels)
-		{
-			if (whl->GetNodeReference() == ref) { return whl; }
-		}
-	}
-	
-	// When this line is reached nothing was found.
-	DSTOP ((kEveryone, "Failed to resolve GdtfWheelPtr."));
-	return nullptr;
-}
-
-GdtfPhysicalEmitterPtr GdtfFixture::getEmiterByRef(const TXString& ref)
-{
-	if (fUseIndexes)
-	{
-		auto it = fEmitterIndex.find(ref);
-		if (it != fEmitterIndex.end()) { return it->second; }
-	}
-	else
-	{
-		for (GdtfPhysicalEmitterPtr emt : fPhysicalDesciptions.GetPhysicalEmitterArray())
-		{
-			if (emt->GetNodeReference() == ref) { return emt; }
-		}
-	}
-
-	// When this line is reached nothing was found.
-	DSTOP ((kEveryone, "Failed to resolve GdtfPhysicalEmitterPtr."));
-	return nullptr;
-}
-
-GdtfFilterPtr GdtfFixture::getFilterByRef(const TXString& ref) 
-{
-	if (fUseIndexes)
-	{
-		auto it = fFilterIndex.find(ref);
-		if (it != fFilterIndex.end()) { return it->second; }
-	}
-	else
-	{
-		for (GdtfFilterPtr fltr : fPhysicalDesciptions.GetFilterArray())
-		{
-			if (fltr->GetNodeReference() == ref) { return fltr; }
-		}
-	}
-
-	// When this line is reached nothing was found.
-	DSTOP ((kEveryone, "Failed to resolve GdtfFilter."));
-	return nullptr;
-}
-
-GdtfConnectorPtr GdtfFixture::getConnectorByRef(const TXString& ref) 
-{
-	if (fUseIndexes)
-	{
-		auto it = fConnectorIndex.find(ref);
-		if (it != fConnectorIndex.end()) { return it->second; }
-	}
-	else
-	{
-		for (GdtfConnectorPtr connector : fPhysicalDesciptions.GetConnectorArray())
-		{
-			if (connector->GetNodeReference() == ref) { return connector; }
-		}
-	}
-
-	// When this line is reached nothing was found.
-	DSTOP ((kEveryone, "Failed to resolve GdtfConnectorPtr."));
-	return nullptr;
-}
-
-GdtfColorSpacePtr GdtfFixture::getColorSpaceByRef(const TXString& ref)
-{
-	if (fUseIndexes)
-	{
-		auto it = fColorSpaceIndex.find(ref);
-		if (it != fColorSpaceIndex.end()) { return it->second; }
-	}
-	else
-	{
-		for (GdtfColorSpacePtr colorSpace : fPhysicalDesciptions.GetAdditionalColorSpaceArray())
-		{
-			if (colorSpace->GetNodeReference() == ref) { return colorSpace; }
-		}
-	}
-
-	// If this line is reached, nothing was found.
-	DSTOP ((kEveryone, "Failed to resolve GdtfColorSpace."));
-	return nullptr;
-}
-
-GdtfGamutPtr GdtfFixture::getGamutByRef(const TXString& ref)
-{
-	if (fUseIndexes)
-	{
-		auto it = fGamutIndex.find(ref);
-		if (it != fGamutIndex.end()) { return it->second; }
-	}
-	else
-	{
-		for (GdtfGamutPtr gamut : fPhysicalDesciptions.GetGamutArray())
-		{
-			if (gamut->GetNodeReference() == ref) { return gamut; }
-		}
-	}
-
-	// If this line is reached, nothing was found.
-	DSTOP ((kEveryone, "Failed to resolve GdtfGamut."));
-	return nullptr;
-}
-
-GdtfDMXProfilePtr GdtfFixture::getDMXProfileByRef(const TXString& ref)
-{
-	if (fUseIndexes)
-	{
-		auto it = fDMXProfileIndex.find(ref);
-		if (it != fDMXProfileIndex.end()) { return it->second; }
-	}
-	else
-	{
-		for (GdtfDMXProfilePtr dmxProfile : fPhysicalDesciptions.GetDmxProfileArray())
-		{
-			if (dmxProfile->GetNodeReference() == ref) { return dmxProfile; }
-		}
-	}
-
-	// If this line is reached, nothing was found.
-	DSTOP ((kEveryone, "Failed to resolve GdtfDMXProfile."));
-	return nullptr;
-}
-
-GdtfSubPhysicalUnitPtr GdtfFixture::getSubPhysicalUnitByRef(const TXString& ref)
-{
-	if (fUseIndexes)
-	{
-		auto it = fSubPhysicalUnitIndex.find(ref);
-		if (it != fSubPhysicalUnitIndex.end()) { return it->second; }
-	}
-	else
-	{
-		for (GdtfAttributePtr attr : fAttributes)
-		{
-			for (GdtfSubPhysicalUnitPtr subPhysicalUnit : attr->GetSubPhysicalUnitArray())
-			{
-				if (subPhysicalUnit->GetNodeReference() == ref) { return subPhysicalUnit; }
-			}
-		}
-	}
-
-	// If this line is reached, nothing was found.
-	DSTOP ((kEveryone, "Failed to resolve GdtfSubPhysicalUnit."));
-	return nullptr;
-}
-
-GdtfDmxChannelFunctionPtr GdtfFixture::getDmxFunctionByRef(const TXString& ref, GdtfDmxModePtr mode)
-{
-	return mode->GetFunctionByIndex(ref);
-}
-
-GdtfDmxChannelPtr GdtfFixture::getDmxChannelByRef(const TXString& ref, GdtfDmxModePtr mode)
-{
-	return mode->GetChannelByIndex(ref);
-}
-
-void GdtfFixture::BuildLookupIndexes()
-{
-	// Eagerly detect the NoFeature attribute (needed regardless of indexing)
-	if (fNoFeature == nullptr)
-	{
-		for (GdtfAttributePtr attr : fAttributes)
-		{
-			if (attr->GetNodeReference() == XML_GDTF_AttributeNoFeature_nullptr)
-			{
-				fNoFeature = attr;
-				break;
-			}
-		}
-	}
-
-	// Count total elements to decide if indexing is worthwhile
-	size_t totalElements = fAttributes.size() + fWheels.size() + fModels.size()
-		+ fPhysicalDesciptions.GetPhysicalEmitterArray().size()
-		+ fPhysicalDesciptions.GetFilterArray().size()
-		+ fPhysicalDesciptions.GetConnectorArray().size()
-		+ fPhysicalDesciptions.GetAdditionalColorSpaceArray().size()
-		+ fPhysicalDesciptions.GetGamutArray().size()
-		+ fPhysicalDesciptions.GetDmxProfileArray().size()
-		+ fGeometries.size();
-
-	static constexpr size_t kIndexThreshold = 128;
-	if (totalElements < kIndexThreshold)
-	{
-		fUseIndexes = false;
-		return;
-	}
-	fUseIndexes = true;
-
-	// Attributes
-	fAttributeIndex.clear();
-	fAttributeIndex.reserve(fAttributes.size());
-	for (GdtfAttributePtr attr : fAttributes)
-	{
-		fAttributeIndex.emplace(attr->GetNodeReference(), attr);
-	}
-
-	// Wheels
-	fWheelIndex.clear();
-	fWheelIndex.reserve(fWheels.size());
-	for (GdtfWheelPtr whl : fWheels)
-	{
-		fWheelIndex.emplace(whl->GetNodeReference(), whl);
-	}
-
-	// Models
-	fModelIndex.clear();
-	fModelIndex.reserve(fModels.size());
-	for (GdtfModelPtr mdl : fModels)
-	{
-		fModelIndex.emplace(mdl->GetNodeReference(), mdl);
-	}
-
-	// Emitters
-	fEmitterIndex.clear();
-	for (GdtfPhysicalEmitterPtr emt : fPhysicalDesciptions.GetPhysicalEmitterArray())
-	{
-		fEmitterIndex.emplace(emt->GetNodeReference(), emt);
-	}
-
-	// Filters
-	fFilterIndex.clear();
-	for (GdtfFilterPtr fltr : fPhysicalDesciptions.GetFilterArray())
-	{
-		fFilterIndex.emplace(fltr->GetNodeReference(), fltr);
-	}
-
-	// Connectors
-	fConnectorIndex.clear();
-	for (GdtfConnectorPtr connector : fPhysicalDesciptions.GetConnectorArray())
-	{
-		fConnectorIndex.emplace(connector->GetNodeReference(), connector);
-	}
-
-	// Color Spaces
-	fColorSpaceIndex.clear();
-	for (GdtfColorSpacePtr cs : fPhysicalDesciptions.GetAdditionalColorSpaceArray())
-	{
-		fColorSpaceIndex.emplace(cs->GetNodeReference(), cs);
-	}
-
-	// Gamuts
-	fGamutIndex.clear();
-	for (GdtfGamutPtr gamut : fPhysicalDesciptions.GetGamutArray())
-	{
-		fGamutIndex.emplace(gamut->GetNodeReference(), gamut);
-	}
-
-	// DMX 
-	fDMXProfileIndex.clear();
-	for (GdtfDMXProfilePtr dp : fPhysicalDesciptions.GetDmxProfileArray())
-	{
-		fDMXProfileIndex.emplace(dp->GetNodeReference(), dp);
-	}
-
-	// Sub Physical Units (nested: attributes -> sub-units)
-	fSubPhysicalUnitIndex.clear();
-	for (GdtfAttributePtr attr : fAttributes)
-	{
-		for (GdtfSubPhysicalUnitPtr spu : attr->GetSubPhysicalUnitArray())
-		{
-			fSubPhysicalUnitIndex.emplace(spu->GetNodeReference(), spu);
-		}
-	}
-
-	// Geometry tree (flattened recursively)
-	fGeometryIndex.clear();
-	IndexGeometryTree(fGeometries);
-}
-
-void GdtfFixture::IndexGeometryTree(const TGdtfGeometryArray& geometries)
-{
-	for (GdtfGeometryPtr geom : geometries)
-	{
-		fGeometryIndex.emplace(geom->GetNodeReference(), geom);
-		IndexGeometryTree(geom->GetInternalGeometries());
-	}
-}
-
-void GdtfFixture::ResolveAllReferences()
-{
-	BuildLookupIndexes();
-	ResolveGeometryRefs();
-	ResolveDmxModeRefs();	
-	ResolveDMXModeMasters();
-    ResolveDMXPersonalityRefs();
-	ResolveAttribRefs();
-	ResolveWheelSlots();
-	CheckForMissingModeMasters();
-}
-
-void GdtfFixture::ResolveGeometryRefs()
-{	
-	// Geometry.Model
-	for (GdtfGeometryPtr geometry : fGeometries)
-	{
-		if(CheckAbort()) { return; }
-		ResolveGeometryRefs_Recursive(geometry);
-	}
-}
-
-void GdtfFixture::ResolveGeometryRefs_Recursive(GdtfGeometryPtr geometry)
-{
-	// ----------------------------------------------------------------------------
-	// Resolve Model Refs
-	TXString		unresolvedModelRef	= geometry->GetUnresolvedModelRef();
-	if( ! unresolvedModelRef.IsEmpty())
-	{
-		GdtfModelPtr	linkedModel			= nullptr;
-		
-		if (fUseIndexes)
-		{
-			auto it = fModelIndex.find(unresolvedModelRef);
-			if (it != fModelIndex.end()) { linkedModel = it->second; }
-		}
-		else
-		{
-			for (GdtfModelPtr modelRef: fModels)
-			{
-				if (modelRef->GetNodeReference() == unresolvedModelRef) { linkedModel = modelRef; break; }
-			}
-		}
-		
-		ASSERTN(kEveryone, linkedModel != nullptr);
-		if (linkedModel)	{ geometry->SetUnresolvedModelRef( linkedModel ); }
-		else
-		{
-			IXMLFileNodePtr node;
-			geometry->GetNode(node);
-			GdtfParsingError error (GdtfDefines::EGdtfParsingError::eGeometryUnresolvedModel, node);
-			SceneData::GdtfFixture::AddError(error);
-		}
-	}
-
-	// ----------------------------------------------------------------------------
-	// Resolve Geo Refs
-	if(geometry->GetObjectType() == eGdtfGeometryReference)
-	{
-		GdtfGeometryReferencePtr geoRef = static_cast<GdtfGeometryReferencePtr>(geometry);
-		ASSERTN(kEveryone, geoRef != nullptr);
-		if(geoRef)
-		{
-			GdtfGeometryPtr geo = this->ResolveGeometryRef(geoRef->GetUnresolvedLinkedGeometry(), fGeometries);
-			ASSERTN(kEveryone, geo != nullptr);
-			if (geo == nullptr)
-			{
-				IXMLFileNodePtr node;
-				geoRef->GetNode(node);
-				GdtfParsingError error (GdtfDefines::EGdtfParsingError::eGeometryReferenceUnresolvedLink, node);
-				SceneData::GdtfFixture::AddError(error);
-			}
-
-			geoRef->SetLinkedGeometry(geo);
-		}
-		else
-		{
-			IXMLFileNodePtr node;
-			geometry->GetNode(node);
-			GdtfParsingError error (GdtfDefines::EGdtfParsingError::eGeometryReferenceUnresolvedLink, node);
-			SceneData::GdtfFixture::AddError(error);
-		}
-	}
-	else if (geometry->GetObjectType() == eGdtfGeometryLamp)
-	{
-		GdtfGeometryLampePtr geoLamp = static_cast<GdtfGeometryLampePtr>(geometry);
-
-		TXString unresolvedEmitterRef = geoLamp->GetUnresolvedEmitterRef();
-		if ( ! unresolvedEmitterRef.IsEmpty())
-		{
-			GdtfPhysicalEmitterPtr emitterPtr = getEmiterByRef(unresolvedEmitterRef);
-			geoLamp->SetEmitterSpectrum(emitterPtr);
-
-		}
-	}
-	else if (geometry->GetObjectType() == eGdtfGeometryLaser)
-	{
-		GdtfGeometryLaserPtr geoLaser = static_cast<GdtfGeometryLaserPtr>(geometry);
-		ASSERTN(kEveryone, geoLaser != nullptr);
-		if(geoLaser)
-		{
-			TXString unresolvedEmitterRef = geoLaser->GetUnresolvedEmitter();
-			if ( ! unresolvedEmitterRef.IsEmpty())
-			{
-				GdtfPhysicalEmitterPtr emitterPtr = getEmiterByRef(unresolvedEmitterRef);
-				geoLaser->SetEmitter(emitterPtr);
-			}
-		}
-	}
-	else if (geometry->GetObjectType() == eGdtfGeometryWiringObject)
-	{
-		GdtfGeometryWiringObjectPtr geoWiringObject = static_cast<GdtfGeometryWiringObjectPtr>(geometry);
-		ASSERTN(kEveryone, geoWiringObject != nullptr);
-		if(geoWiringObject)
-		{
-			for(GdtfPinPatchPtr pinPatch : geoWiringObject->GetPinPatchArray())
-			{
-				TXString unresolvedWiringObject = pinPatch->GetUnresolvedWiringObject();
-				if ( ! unresolvedWiringObject.IsEmpty())
-				{
-					GdtfGeometryPtr wiringObjectGeo = ResolveGeometryRef(unresolvedWiringObject, fGeometries);
-					GdtfGeometryWiringObjectPtr toWiringObject = static_cast<GdtfGeometryWiringObjectPtr>(wiringObjectGeo);
-					pinPatch->SetToWiringObject(toWiringObject);
-				}
-			}
-		}
-	}
-	else if (geometry->GetObjectType() == eGdtfGeometryStructure)
-	{
-		GdtfGeometryStructurePtr geoStructure = static_cast<GdtfGeometryStructurePtr>(geometry);
-		ASSERTN(kEveryone, geoStructure != nullptr);
-		if(geoStructure)
-		{
-			TXString unresolvedLinkedGeometry = geoStructure->GetUnresolvedLinkedGeometry();
-			if ( ! unresolvedLinkedGeometry.IsEmpty())
-			{
-				GdtfGeometryPtr linkedGeometry = ResolveGeometryRef(unresolvedLinkedGeometry, fGeometries);
-				geoStructure->SetLinkedGeometry(linkedGeometry);
-			}
-		}
-	}
-
-	
-	
-	// Now traverse child geometry
-	for (GdtfGeometryPtr internalGeometry : geometry->GetInternalGeometries())
-	{
-		if(CheckAbort()) { return; }
-		ResolveGeometryRefs_Recursive(internalGeometry);
-	}
-}
-
-void GdtfFixture::ResolveWheelSlots()
-{
-	for(GdtfWheelPtr wheel : fWheels)
-	{
-		if(CheckAbort()) { return; }
-		for(GdtfWheelSlotPtr slot :  wheel->GetWheelSlotArray())
-		{
-			if(CheckAbort()) { return; }
-			TXString ref = slot->GetUnresolvedFilter();
-			if( ! ref.IsEmpty())
-			{
-				GdtfFilterPtr filter = getFilterByRef(ref);
-				slot->SetFilter(filter);
-			}
-		}
-	}
-}
-
-void GdtfFixture::ResolveAttribRefs()
-{
-	for (GdtfAttributePtr attr : fAttributes)
-	{
-		if (CheckAbort()) { return; }
-		// ------------------------------------------------------------------------------------------
-		// Attributes.ActivationGroup
-		TXString attrRef = attr->GetUnresolvedActGroup();
-		if( ! attrRef.IsEmpty())
-		{
-			GdtfActivationGroupPtr actGrpPtr = nullptr;
-			for (GdtfActivationGroupPtr actGroup : fActivationGroups)
-			{
-				if (attrRef == actGroup->GetNodeReference() )	{ actGrpPtr = actGroup; break; }
-			}
-			
-			ASSERTN(kEveryone, actGrpPtr != nullptr);
-			if (actGrpPtr)	{ attr->SetActivationGroup (actGrpPtr); }
-			else
-			{
-				IXMLFileNodePtr node;
-				attr->GetNode(node);
-				GdtfParsingError error (GdtfDefines::EGdtfParsingError::eAttributeUnresolvedActivationGroup, node);
-				SceneData::GdtfFixture::AddError(error);
-			}
-		}
-		
-		// ------------------------------------------------------------------------------------------
-		// Attributes.Feature
-		GdtfFeaturePtr featPtr = nullptr;
-		TXString unresolvedFeat = attr->GetUnresolvedFeature();
-		if(unresolvedFeat.IsEmpty()) { continue; }
-
-		for (GdtfFeatureGroupPtr featGrp : fFeatureGroups)
-		{	
-			if(CheckAbort()) { return; }
-			for (GdtfFeaturePtr feat : featGrp->GetFeatureArray() )
-			{				
-				if (unresolvedFeat == feat->GetNodeReference() ) { featPtr = feat; break; }
-			}
-		}
-		ASSERTN(kEveryone, featPtr != nullptr);
-		if (featPtr != nullptr)	{ attr->SetFeature (featPtr); }
-		else
-		{
-			IXMLFileNodePtr node;
-			attr->GetNode(node);
-			GdtfParsingError error (GdtfDefines::EGdtfParsingError::eAttributeUnresolvedFeature, node);
-			SceneData::GdtfFixture::AddError(error);
-		}
-		
-		// ------------------------------------------------------------------------------------------
-		// Main Attribute
-		TXString mainAttributeRef = attr->GetUnresolvedMainAttribute();
-		if ( ! mainAttributeRef.IsEmpty())
-		{
-			GdtfAttributePtr mainAttribute = getAttributeByRef(mainAttributeRef);
-			
-			ASSERTN(kEveryone, mainAttribute != nullptr);
-			if (mainAttribute != nullptr)	{ attr->SetMainAttribute(mainAttribute); }
-			else
-			{
-				IXMLFileNodePtr node;
-				attr->GetNode(node);		
-				GdtfParsingError error (GdtfDefines::EGdtfParsingError::eAttributeUnresolvedMainAttribute, node);
-				SceneData::GdtfFixture::AddError(error);
-			}
-		}
-	}
-}
-
-void GdtfFixture::ResolveMacroRefs(GdtfDmxModePtr dmxMode)
-{
-	for (GdtfMacroPtr macro : dmxMode->GetDmxMacrosArray())
-	{
-		if (CheckAbort()) { return; }
-		TXString unresolvedChannelFunction = macro->GetUnresolvedChannelFunction();
-		if ( ! unresolvedChannelFunction.IsEmpty())
-		{
-			GdtfDmxChannelFunctionPtr channelFunctionPtr = getDmxFunctionByRef(unresolvedChannelFunction, dmxMode);
-			macro->SetChannelFunction(channelFunctionPtr);
-		}
-
-		if(macro->GetMacroDMX())
-		{
-			for (GdtfMacroDMXStepPtr step : macro->GetMacroDMX()->GetStepArray())
-			{
-				if (CheckAbort()) { return; }
-				for(GdtfMacroDMXValuePtr value : step->GetDMXValueArray())
-				{
-					if (CheckAbort()) { return; }
-					IXMLFileNodePtr node;
-					value->GetNode(node);
-
-					{
-						GdtfDmxChannelPtr ch = dmxMode->GetChannelByIndex(value->GetUnresolvedDMXChannel());
-						if (ch) { value->SetDMXChannel(ch); }
-					}
-
-					if(value->GetDMXChannel())
-					{
-						
-						DmxValue dmxVal = 0;						
-						GdtfConverter::ConvertDMXValue(value->GetUnresolvedDMXValue(), node, value->GetDMXChannel()->GetChannelBitResolution(), dmxVal);
-						value->SetValue(dmxVal);
-					}
-					else
-					{
-						GdtfParsingError error (GdtfDefines::EGdtfParsingError::eDmxMacroDmxValueChannelReference, node);
-						SceneData::GdtfFixture::AddError(error);
-					}
-				}
-			}
-		}
-
-		if(macro->GetMacroVisual())
-		{
-			for (GdtfMacroVisualStepPtr step : macro->GetMacroVisual()->GetVisualStepArray())
-			{
-				if (CheckAbort()) { return; }
-				for (GdtfMacroVisualValuePtr value : step->GetVisualValueArray())
-				{
-					if (CheckAbort()) { return; }
-					{
-						GdtfDmxChannelFunctionPtr channelFunction = dmxMode->GetFunctionByIndex(value->GetUnresolvedChannelFunctionRef());
-						if (channelFunction)
-						{
-							value->SetChannelFunction(channelFunction);
-
-							IXMLFileNodePtr node;
-							value->GetNode(node);
-						
-							DmxValue dmxVal = 0;
-							GdtfConverter::ConvertDMXValue(value->GetUnresolvedDMXValue(), node, channelFunction->GetParentDMXChannel()->GetChannelBitResolution(), dmxVal);
-							value->SetDmxValue(dmxVal);
-						}
-					}
-				}
-			}
-		}
-	}
-}
-
-void GdtfFixture::ResolveDmxModeRefs()
-{	
-	for (GdtfDmxModePtr dmxMode : fDmxModes)
-	{
-		if (CheckAbort()) { return; }
-		//---------------------------------------------------------------------------------------
-		// DmxMode.Geometry
-		TXString 		unresolvedgeomRef	= dmxMode->GetUnresolvedGeomRef();
-		GdtfGeometryPtr geomPtr				= nullptr;
-		if( ! unresolvedgeomRef.IsEmpty())
-		{
-			for (GdtfGeometryPtr geo : fGeometries)
-			{
-				if (geo->GetNodeReference() == unresolvedgeomRef) { geomPtr = geo; break; }
-			}
-		}
-
-		// Check if there is a
-		ASSERTN(kEveryone, geomPtr != nullptr);
-		if (geomPtr != nullptr) { dmxMode->SetGeomRef(geomPtr); }
-		else
-		{
-			IXMLFileNodePtr node;
-			dmxMode->GetNode(node);				
-			GdtfParsingError error (GdtfDefines::EGdtfParsingError::eDmxModeUnresolvedGeometry, node);
-			SceneData::GdtfFixture::AddError(error);
-		}
-		
-		// First Link all the stuff for DMX Channels
-		ResolveDmxChannelRefs(dmxMode);
-		dmxMode->BuildModeIndexes();
-		
-		// Afer Geometry is linked to the base geometry, we can generate the names
-        AutoGenerateNames(dmxMode);
-		
-		// Then we have all the information for this
-		ResolveDmxRelationRefs(dmxMode);
-
-		ResolveMacroRefs(dmxMode);
-	}	
-}
-
-void GdtfFixture::ResolveDMXModeMasters()
-{	
-	for (GdtfDmxModePtr mode : fDmxModes)
-	{
-		if (CheckAbort()) { return; }
-
-		for(GdtfDmxChannelPtr channel : mode->GetChannelArray())
-		{
-			if (CheckAbort()) { return; }
-
-			for(GdtfDmxLogicalChannelPtr logicalChannel : channel->GetLogicalChannelArray())
-			{
-				if (CheckAbort()) { return; }
-
-				for(GdtfDmxChannelFunctionPtr function : logicalChannel->GetDmxChannelFunctions())
-				{
-					if (CheckAbort()) { return; }
-					// ----------------------------------------------------------------------------------------
-					// DmxChanelFunction Mode Master Channel (Optional)
-					TXString unresolvedModeMaster = function->getUnresolvedModeMasterRef();
-					if(! unresolvedModeMaster.IsEmpty())
-					{
-						bool 						resolved 	= false;
-						EGdtfChannelBitResolution 	resolution 	= EGdtfChannelBitResolution::eGdtfChannelBitResolution_8;
-
-						GdtfDmxChannelPtr channelPtr = getDmxChannelByRef(unresolvedModeMaster, mode);
-						if(! resolved && channelPtr)
-						{ 
-							function->SetModeMaster_Channel(channelPtr); 
-							resolved = true; 
-							resolution = channelPtr->GetChannelBitResolution(); 
-						}
-
-						if(! resolved)
-						{
-							GdtfDmxChannelFunctionPtr functionPtr = getDmxFunctionByRef(unresolvedModeMaster, mode);
-							if(functionPtr) 
-							{ 
-								function->SetModeMaster_Function(functionPtr);
-								resolved = true; 
-								resolution = functionPtr->GetParentDMXChannel()->GetChannelBitResolution();
-							}
-						}
-						
-						ASSERTN(kEveryone, resolved);
-						if(resolved) { function->ResolveModeMasterDmx(resolution); }
-						else
-						{
-							IXMLFileNodePtr node;
-							channel->GetNode(node);
-							GdtfParsingError error (GdtfDefines::EGdtfParsingError::eDMXModeMastersUnresolved, node);
-							SceneData::GdtfFixture::AddError(error);
-						}
-					}
-				}
-			}
-		}
-	}	
-}
-
-
-GdtfDmxModePtr GdtfFixture::ResolveDMXMode(const TXString& unresolvedDMXmode)
-{
-    for (GdtfDmxModePtr dmxMode : fDmxModes) 
-    {
-        if (dmxMode->GetModeName() == unresolvedDMXmode) 
-        {
-            return dmxMode;
-        }    
-    }
-    
-    return nullptr;
-}
-
-void GdtfFixture::ResolveDMXPersonalityRefs()
-{
-    GdtfFTRDM* rdm =  fProtocollContainer.GetRDM();
-
-    if (rdm)
-    {
-        for (GdtfSoftwareVersionID* softID : rdm->GetSoftwareVersIDs() ) 
-        {
-			if (CheckAbort()) { return; }
-            for (GdtfDMXPersonality* dmxPerso : softID->GetDMXPersonalityArray() ) 
-            {
-				if (CheckAbort()) { return; }
-                GdtfDmxModePtr dmxMode =  ResolveDMXMode(dmxPerso->GetUnresolvedDMXMode()); 
-            
-				ASSERTN(kEveryone, dmxMode != nullptr);
-                if (dmxMode != nullptr) { dmxPerso->SetDMXMode(dmxMode);  }
-				else
-				{
-					IXMLFileNodePtr node;
-					dmxPerso->GetNode(node);
-					GdtfParsingError error (GdtfDefines::EGdtfParsingError::eValueError_UnresolvedRdmPersonalityMode, node);
-					SceneData::GdtfFixture::AddError(error);
-				}
-            }
-        }
-    }
-}
-
-void GdtfFixture::ResolveDmxRelationRefs(GdtfDmxModePtr dmxMode)
-{
-	for (GdtfDmxRelationPtr rel : dmxMode->GetDmxRelations())
-	{	
-		if (CheckAbort()) { return; }
-		// DMXChannel (Master)
-		GdtfDmxChannelPtr			master	= dmxMode->GetMasterByRef(rel->GetUnresolvedMasterRef() );
-		GdtfDmxChannelFunctionPtr	slave	= dmxMode->GetSlaveByRef(rel->GetUnresolvedSlaveRef() );
-		rel->SetMasterChannel(master);
-        rel->SetSlaveChannel(slave);
-
-	}	
-}
-
-void GdtfFixture::ResolveDmxChannelRefs(GdtfDmxModePtr dmxMode)
-{	
-	static constexpr size_t kDuplicateCheckThreshold = 64;
-	std::unordered_set<TXString, TXStringNoCaseHash> seenGeoAttrPairs;
-	std::unordered_set<TXString, TXStringNoCaseHash>* seenPairsPtr = 
-		(dmxMode->GetChannelArray().size() >= kDuplicateCheckThreshold) ? &seenGeoAttrPairs : nullptr;
-	for (GdtfDmxChannelPtr chnl: dmxMode->GetChannelArray() )
-	{
-		if (CheckAbort()) { return; }
-		// ----------------------------------------------------------------------------------------
-		// DmxChannel.Geometry
-		GdtfGeometryPtr geomPtr = nullptr;
-		TXString unresolvedGeoRef	= chnl->GetUnresolvedGeomRef();
-		ASSERTN(kEveryone, ! unresolvedGeoRef.IsEmpty() );
-		if (!unresolvedGeoRef.IsEmpty())
-		{
-			if (fUseIndexes)
-			{
-				auto it = fGeometryIndex.find(unresolvedGeoRef);
-				if (it != fGeometryIndex.end()) { geomPtr = it->second; }
-			}
-			else
-			{
-				for (GdtfGeometryPtr geom : fGeometries)
-				{
-					if (geom->GetNodeReference() == unresolvedGeoRef) { geomPtr = geom; break; }
-					geomPtr = ResolveGeometryRef(unresolvedGeoRef, geom->GetInternalGeometries());
-					if (geomPtr != nullptr) { break; }
-				}
-			}
-			
-			ASSERTN(kEveryone, geomPtr != nullptr);
-			if (geomPtr){ chnl->SetGeomRef (geomPtr); }
-			else
-			{
-				IXMLFileNodePtr node;
-				chnl->GetNode(node);
-				GdtfParsingError error (GdtfDefines::EGdtfParsingError::eFixtureDMXChannelMissingGeometryLink, node);
-				SceneData::GdtfFixture::AddError(error);
-			}
-		}
-		else
-		{
-			IXMLFileNodePtr node;
-			chnl->GetNode(node);
-			GdtfParsingError error (GdtfDefines::EGdtfParsingError::eFixtureDMXChannelMissingGeometryLink, node);
-			SceneData::GdtfFixture::AddError(error);
-		}
-		
-		// ----------------------------------------------------------------------------------------
-		// DmxChannel.LogicalChannelArray
-		ResolveDmxLogicalChanRefs(chnl, seenPairsPtr);
-
-		// ----------------------------------------------------------------------------------------
-		// DmxChannel.InitialFunction
-		GdtfDmxChannelFunctionPtr initialFunctionPtr = nullptr;
-		TXString unresolvedInitialFunction = chnl->GetUnresolvedInitialFunction();
-		if (!unresolvedInitialFunction.IsEmpty())
-		{
-			for (GdtfDmxLogicalChannelPtr logicalChannel : chnl->GetLogicalChannelArray())
-			{
-				if(CheckAbort()) { return; }
-				for (GdtfDmxChannelFunctionPtr channelFunction : logicalChannel->GetDmxChannelFunctions())
-				{
-					if(CheckAbort()) { return; }
-					if (channelFunction->GetNodeReference() == unresolvedInitialFunction) { initialFunctionPtr = channelFunction; break;}
-				}
-				
-				if (initialFunctionPtr != nullptr) { break; }
-			}
-			
-			ASSERTN(kEveryone, initialFunctionPtr != nullptr);
-			if (initialFunctionPtr) { chnl->SetInitialFunction(initialFunctionPtr); }
-			else
-			{
-				IXMLFileNodePtr node;
-				chnl->GetNode(node);
-				GdtfParsingError error (GdtfDefines::EGdtfParsingError::eFixtureDMXChannelUnresolvedChannelFunction, node);
-				SceneData::GdtfFixture::AddError(error);
-			}
-		}
-		else
-		{
-			//If there is no initialfunction defined, we set the first one by default
-			if(chnl->GetLogicalChannelArray().size() > 0 && chnl->GetLogicalChannelArray()[0]->GetDmxChannelFunctions().size() > 0)
-			{
-				chnl->SetInitialFunction(chnl->GetLogicalChannelArray()[0]->GetDmxChannelFunctions()[0]);
-			}
-			else
-			{
-				IXMLFileNodePtr node;
-				chnl->GetNode(node);
-				GdtfParsingError error (GdtfDefines::EGdtfParsingError::eFixtureDMXChannelMissingChannelFunction, node);
-				SceneData::GdtfFixture::AddError(error);
-			}
-			
-		}
-	} 	
-}
-
-GdtfGeometryPtr GdtfFixture::ResolveGeometryRef(const TXString& unresolvedGeoRef, const TGdtfGeometryArray& geometryArray)
-{
-	if (fUseIndexes)
-	{
-		auto it = fGeometryIndex.find(unresolvedGeoRef);
-		if (it != fGeometryIndex.end()) { return it->second; }
-		return nullptr;
-	}
-
-	// Fallback: recursive tree walk
-	GdtfGeometryPtr matched = nullptr;
-	for (GdtfGeometryPtr geom : geometryArray)
-	{
-		if (geom->GetNodeReference() == unresolvedGeoRef) { return geom; }
-		matched = ResolveGeometryRef(unresolvedGeoRef, geom->GetInternalGeometries());
-		if (matched) { return matched; }
-	}
-	return nullptr;
-}
-
-void GdtfFixture::ResolveDmxLogicalChanRefs(GdtfDmxChannelPtr dmxChnl, std::unordered_set<TXString, TXStringNoCaseHash>* seenGeoAttrPairs)
-{		
-	for ( GdtfDmxLogicalChannelPtr logChnl : dmxChnl->GetLogicalChannelArray() )
-	{
-		if(CheckAbort()) { return; }
-		IXMLFileNodePtr node;
-		logChnl->GetNode(node);
-
-		// ----------------------------------------------------------------------------------------
-		// DmxLogicalChannel.Attribute		
-		GdtfAttributePtr attrPtr = getAttributeByRef(logChnl->GetUnresolvedAttribRef());
-				
-		ASSERTN(kEveryone, attrPtr != nullptr);
-		if (attrPtr != nullptr)
-		{
-			//Check for logical channels with the same geometry/attribute combination
-			TXString attributeName = attrPtr->GetName();
-
-			GdtfGeometryPtr geoRef = dmxChnl->GetGeomRef();
-			TXString geometryName;
-			if(geoRef)
-			{
-				// If this doesn't exist, EGdtfParsingError::eFixtureDMXChannelMissingGeometryLink has been raised in the ResolveDmxChannelRefs() function
-				geometryName = geoRef->GetName();
-			}
-
-			// Allow NoFeature and Dummy attributes to be linked multiple times to the same geometry
-			bool isNoFeatureAttribute = (attrPtr == fNoFeature) || (attributeName.EqualNoCase("NoFeature"));
-			bool isDummyAttribute = attributeName.EqualNoCase("Dummy");
-			
-			bool alreadyExists = false;
-			if (!isNoFeatureAttribute && !isDummyAttribute)
-			{
-				if (seenGeoAttrPairs)
-				{
-					TXString pairKey = geometryName + "|" + attributeName;
-					pairKey.MakeLower();
-					alreadyExists = (seenGeoAttrPairs->count(pairKey) > 0);
-					seenGeoAttrPairs->insert(pairKey);
-				}
-				else
-				{
-					GdtfDmxModePtr mode = dmxChnl->GetParentMode();
-					
-					for(GdtfDmxChannelPtr channel : mode->GetChannelArray())
-					{
-						GdtfGeometryPtr currentGeometry = channel->GetGeomRef();
-						if(currentGeometry == nullptr) { break; }
-						TXString currentGeometryName = currentGeometry->GetName();
-						for(GdtfDmxLogicalChannelPtr logicalChannel : channel->GetLogicalChannelArray())
-						{
-							TXString currentAttributeName = "";
-							GdtfAttributePtr currentAttribute = logicalChannel->GetAttribute();
-							if(currentAttribute != nullptr)
-							{
-								currentAttributeName = currentAttribute->GetName();
-							}
-
-							if(geometryName.EqualNoCase(currentGeometryName) && attributeName.EqualNoCase(currentAttributeName))
-							{
-								alreadyExists = true;
-								break;
-							}
-						}
-
-						if(alreadyExists) { break; }
-					}
-				}
-			}
-
-			if(alreadyExists)
-			{
-				GdtfParsingError error (GdtfDefines::EGdtfParsingError::eFixtureLogicalChannelNoUniqueGeometryAttribute, node);
-				SceneData::GdtfFixture::AddError(error);
-			}
-
-			//--------------------------
-			//Set Attribute
-			logChnl->SetAttribute(attrPtr);
-			
-		}
-		else
-		{
-			GdtfParsingError error (GdtfDefines::EGdtfParsingError::eFixtureLogicalChannelMissingAttribute, node);
-			SceneData::GdtfFixture::AddError(error);
-		}
-		
-		
-		// ----------------------------------------------------------------------------------------
-		// DmxChannelFuntionArray
-		ResolveDmxChanelFunctionRefs(logChnl);
-	}
-}
-
-void GdtfFixture::ResolveDmxChanelFunctionRefs(GdtfDmxLogicalChannelPtr dmxLogChnl)
-{
-	for (GdtfDmxChannelFunctionPtr chnlFunc : dmxLogChnl->GetDmxChannelFunctions())
-	{
-		if(CheckAbort()) { return; }
-		// ----------------------------------------------------------------------------------------
-		// DmxChanelFunction.Attribute
-		GdtfAttributePtr attrPtr = getAttributeByRef(chnlFunc->getUnresolvedAttrRef());
-
-		ASSERTN(kEveryone, attrPtr != nullptr);
-		if (attrPtr != nullptr)	{ chnlFunc->SetAttribute(attrPtr); }
-		else
-		{
-			IXMLFileNodePtr node;
-			chnlFunc->GetNode(node);
-			GdtfParsingError error (GdtfDefines::EGdtfParsingError::eChannelFunctionMissingAttribute, node); SceneData::GdtfFixture::AddError(error);
-		}
-		
-		// ----------------------------------------------------------------------------------------
-		// DmxChanelFunction.WheelPtr (Optional)
-		TXString unresolvedWheelRef = chnlFunc->getUnresolvedWheelRef();
-		if( ! unresolvedWheelRef.IsEmpty())
-		{
-			GdtfWheelPtr whlPtr = getWheelByRef(unresolvedWheelRef);
-			chnlFunc->SetWheel(whlPtr);
-		}
-		
-		// ----------------------------------------------------------------------------------------		
-		TXString unresolvedEmitterRef = chnlFunc->getUnresolvedEmitterRef();
-		if ( ! unresolvedEmitterRef.IsEmpty())
-		{
-			GdtfPhysicalEmitterPtr emtPtr = getEmiterByRef(unresolvedEmitterRef);
-			chnlFunc->SetEmitter(emtPtr);
-		}
-
-        // ----------------------------------------------------------------------------------------		
-        // Filter Refs
-        TXString unresolvedFilterRef = chnlFunc->getUnresolvedFilterRef();
-        if (!unresolvedFilterRef.IsEmpty()) 
-        {
-            GdtfFilter* filter = getFilterByRef(unresolvedFilterRef);
-            chnlFunc->SetFilter(filter);
-        }
-        // ----------------------------------------------------------------------------------------
-		// DmxChannelFunction.Default (For GDTF 1.0 files)
-		if(chnlFunc->GetDefaultValue() == 0)
-		{
-			DmxValue oldDefault = dmxLogChnl->GetParentDMXChannel()->GetOldDefaultValue();
-			if(oldDefault > 0)
-			{
-				chnlFunc->SetDefaultValue(oldDefault);
-			}
-		}
-
-		// ----------------------------------------------------------------------------------------		
-        // ColorSpace Refs
-        TXString unresolvedColorSpaceRef = chnlFunc->getUnresolvedColorSpaceRef();
-        if (!unresolvedColorSpaceRef.IsEmpty()) 
-        {
-            GdtfColorSpace* colorSpace = getColorSpaceByRef(unresolvedColorSpaceRef);
-            chnlFunc->SetColorSpace(colorSpace);
-        }
-
-		// ----------------------------------------------------------------------------------------		
-        // Gamut Refs
-        TXString unresolvedGamutRef = chnlFunc->getUnresolvedGamutRef();
-        if (!unresolvedGamutRef.IsEmpty()) 
-        {
-            GdtfGamut* gamut = getGamutByRef(unresolvedGamutRef);
-            chnlFunc->SetGamut(gamut);
-        }
-
-		// ----------------------------------------------------------------------------------------		
-        // DMXProfile Refs
-        TXString unresolvedDMXProfileRef = chnlFunc->getUnresolvedDMXProfileRef();
-        if (!unresolvedDMXProfileRef.IsEmpty()) 
-        {
-            GdtfDMXProfile* dmxProfile = getDMXProfileByRef(unresolvedDMXProfileRef);
-            chnlFunc->SetDMXProfile(dmxProfile);
-        }
-		
-		ResolveDmxSubChannelSetRefs(chnlFunc);
-	}
-}
-
-void GdtfFixture::ResolveDmxSubChannelSetRefs(GdtfDmxChannelFunctionPtr channelFunction)
-{
-	for (GdtfDmxSubChannelSetPtr subChannelSet : channelFunction->GetSubChannelSets())
-	{
-		if(CheckAbort()) { return; }
-		// ----------------------------------------------------------------------------------------		
-        // SubPhysicalUnit Refs
-        TXString unresolvedSubPhysicalUnitRef = subChannelSet->GetUnresolvedSubPhysicalUnitRef();
-        if (!unresolvedSubPhysicalUnitRef.IsEmpty()) 
-        {
-            GdtfSubPhysicalUnit* subPhysicalUnit = getSubPhysicalUnitByRef(unresolvedSubPhysicalUnitRef);
-            subChannelSet->SetSubPhysicalUnit(subPhysicalUnit);
-        }
-
-		// ----------------------------------------------------------------------------------------		
-        // DMXProfile Refs
-        TXString unresolvedDMXProfileRef = subChannelSet->GetUnresolvedDMXProfileRef();
-        if (!unresolvedDMXProfileRef.IsEmpty()) 
-        {
-            GdtfDMXProfile* dmxProfile = getDMXProfileByRef(unresolvedDMXProfileRef);
-            subChannelSet->SetDMXProfile(dmxProfile);
-        }
-	}
-}
-
-void GdtfFixture::CheckForMissingModeMasters()
-{	
-	for (GdtfDmxModePtr mode : fDmxModes)
-	{
-		if (CheckAbort()) { return; }
-		for(GdtfDmxChannelPtr channel : mode->GetChannelArray())
-		{
-			if (CheckAbort()) { return; }
-			for(GdtfDmxLogicalChannelPtr logicalChannel : channel->GetLogicalChannelArray())
-			{
-				if (CheckAbort()) { return; }
-				TGdtfDmxChannelFuntionArray channelFunctions = logicalChannel->GetDmxChannelFunctions();
-
-                if(channelFunctions.size() > 0)
-                {
-                    for(size_t i = 0; i < channelFunctions.size() - 1; i++)
-                    {
-						if(CheckAbort()) { return; }
-                        GdtfDmxChannelFunctionPtr function = channelFunctions[i];
-                        // ----------------------------------------------------------------------------------------
-                        DmxValue functionStart 	= function->GetStartAdress();
-                        DmxValue functionEnd	= function->GetEndAdress();
-
-                        for(size_t j = i+1; j < channelFunctions.size(); j++)
-                        {
-							if(CheckAbort()) { return; }
-                            GdtfDmxChannelFunctionPtr currentFunction = channelFunctions[j];
-
-                            DmxValue currentFunctionStart	= currentFunction->GetStartAdress();
-                            DmxValue currentFunctionEnd		= currentFunction->GetEndAdress();
-                            
-                            if(functionStart <= currentFunctionEnd && currentFunctionStart <= functionEnd)
-                            {
-                                //These two functions have conflicting DMX ranges.
-
-                                GdtfDmxChannel* 		functionMMChannel 	= function->GetModeMaster_Channel();
-                                GdtfDmxChannelFunction* functionMMFunction 	= function->GetModeMaster_Function();
-
-                                //First we check if a mode master is defined
-                                if(!functionMMChannel && !functionMMFunction)
-                                {
-                                    //If not, we throw an error.
-                                    GdtfParsingError error (GdtfDefines::EGdtfParsingError::eFixtureChannelFunctionMissingModeMaster);
-                                    SceneData::GdtfFixture::AddError(error);
-                                }
-                                else
-                                {
-                                    //If there is one, we have to check if they're the same.
-                                    GdtfDmxChannel* 		currentFunctionMMChannel 	= currentFunction->GetModeMaster_Channel();
-                                    GdtfDmxChannelFunction* currentFunctionMMFunction	= currentFunction->GetModeMaster_Function();
-                                    if((functionMMChannel && functionMMChannel == currentFunctionMMChannel) || (functionMMFunction && functionMMFunction == currentFunctionMMFunction))
-                                    {
-                                        //If they're the same we have to check that their ranges don't overlap.
-                                        DmxValue functionMMStart 		= function->GetModeMasterDmxStart();
-                                        DmxValue functionMMEnd			= function->GetModeMasterDmxEnd();
-
-                                        DmxValue currentFunctionMMStart	= currentFunction->GetModeMasterDmxStart();
-                                        DmxValue currentFunctionMMEnd	= currentFunction->GetModeMasterDmxEnd();
-                                        
-                                        if(functionMMStart <= currentFunctionMMEnd && currentFunctionMMStart <= functionMMEnd)
-                                        {
-                                            //If they do, we throw an error.
-                                            GdtfParsingError error (GdtfDefines::EGdtfParsingError::eFixtureChannelFunctionModeMasterOverlap);
-                                            SceneData::GdtfFixture::AddError(error);
-                                        }
-                                    }
-                                }
-                                break;
-                            }
-                        }
-                    }
-                }
-			}
-		}
-	}	
-}
-
-GdtfFixture::GdtfFixture()
-{
-	fThumbnailOffsetX 		= 0;
-	fThumbnailOffsetY 		= 0;
-	fReaded					= false;
-	fHasLinkedGuid			= false;     
-	fNoFeature				= nullptr;   
-	fCanHaveChildren 		= false;
-	fHasLinkedGuid 			= false;
-}
-
-GdtfFixture::~GdtfFixture()
-{   
-
-    for (GdtfActivationGroupPtr obj		: fActivationGroups){ delete obj; }
-    for (GdtfFeatureGroupPtr obj		: fFeatureGroups)   { delete obj; }
-    for (GdtfAttributePtr obj			: fAttributes)      { delete obj; }
-	for (GdtfWheelPtr obj				: fWheels)			{ delete obj; }
-	for (GdtfGeometry* obj				: fGeometries)		{ delete obj; }
-	for (GdtfModel* obj					: fModels)			{ delete obj; }	
-	for (GdtfDmxModePtr obj				: fDmxModes)		{ delete obj; }
-	for (GdtfRevisionPtr obj			: fRevisions)		{ delete obj; }
-
-    // Delete Local Files
-	for (size_t i = 0; i < fLocalFiles.size(); i++)
-	{
-		IFileIdentifierPtr file = fLocalFiles[i];
-		file->DeleteOnDisk();
-	}
-
-	//Delete buffers
-	for (auto it = fFileBuffers.begin(); it != fFileBuffers.end(); it++)
-	{
-		free(it->second.first);
-	}
-}
-
-size_t GdtfFixture::GetAttachedFileCount()
-{
-    return fLocalFilesFullPath.size();
-}
-
-bool GdtfFixture::GetAttachedFileCountAt(size_t at, TXString*& outFile)
-{
-	bool retVal = (at < fLocalFilesFullPath.size());
-	if(retVal)	{ outFile = &fLocalFilesFullPath.at(at); }
-
-    return retVal;
-}
-
-bool  GdtfFixture::IsReaded()
-{
-	return fReaded;
-}
-
-void  GdtfFixture::GetWorkingFolder(IFolderIdentifierPtr& folder)
-{
-	folder = fWorkingFolder;
-}
-
-void GdtfFixture::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnPrintToFile(pNode);
-	
-	// ------------------------------------------------------------------------------------
-	// Print node attributes
-	pNode->SetNodeAttributeValue(XML_GDTF_FixtureName,				fName);
-	pNode->SetNodeAttributeValue(XML_GDTF_FixtureShortName,			fShortName);
-	pNode->SetNodeAttributeValue(XML_GDTF_FixtureLongName,			fLongName);
-	pNode->SetNodeAttributeValue(XML_GDTF_FixtureManufacturer,		fManufacturer);
-	pNode->SetNodeAttributeValue(XML_GDTF_FixtureDescription,		fFixtureTypeDescription);
-	pNode->SetNodeAttributeValue(XML_GDTF_FixtureTypeID,			GdtfConverter::ConvertUUID(fGuid));
-	pNode->SetNodeAttributeValue(XML_GDTF_FixtureThumbnail,			fTumbnailName);
-	pNode->SetNodeAttributeValue(XML_GDTF_FixtureThumbnailOffsetX,	GdtfConverter::ConvertInteger(fThumbnailOffsetX));
-	pNode->SetNodeAttributeValue(XML_GDTF_FixtureThumbnailOffsetY,	GdtfConverter::ConvertInteger(fThumbnailOffsetY));
-	pNode->SetNodeAttributeValue(XML_GDTF_FixtureCanHaveChildren,	GdtfConverter::ConvertEGdtfCanHaveChildren(fCanHaveChildren));
-	
-	if(fHasLinkedGuid)
-	{
-		pNode->SetNodeAttributeValue(XML_GDTF_LinkedUuid,			GdtfConverter::ConvertUUID(fLinkedGuid));
-	}
-	else
-	{
-		pNode->SetNodeAttributeValue(XML_GDTF_LinkedUuid,			"");
-	}
-	
-	// ------------------------------------------------------------------------------------
-	// Activation Groups
-	IXMLFileNodePtr attributeDefintion;
-	if (VCOM_SUCCEEDED(pNode->CreateChildNode(XML_GDTF_FixtureChildNodeAttributeDef, & attributeDefintion)))
-	{
-		// Add ActivationsGroupDef
-		IXMLFileNodePtr activationGroupContainer;
-		if (VCOM_SUCCEEDED(attributeDefintion->CreateChildNode(XML_GDTF_FixtureChildNodeActivationGroupDef, & activationGroupContainer)))
-		{
-			for (auto  actGroup: fActivationGroups)
-			{
-				actGroup->WriteToNode(activationGroupContainer);
-			}
-		}
-		
-		// Add Feature GroupDef
-		IXMLFileNodePtr featureGroupContainer;
-		if (VCOM_SUCCEEDED(attributeDefintion->CreateChildNode(XML_GDTF_FixtureChildNodeFeatureGroupDef, & featureGroupContainer)))
-		{
-			for (auto  featureGroup: fFeatureGroups)
-			{
-				featureGroup->WriteToNode(featureGroupContainer);
-			}
-		}
-		
-		
-		// Add Attributes
-		// Add Feature GroupDef
-		IXMLFileNodePtr attributesContainer;
-		if (VCOM_SUCCEEDED(attributeDefintion->CreateChildNode(XML_GDTF_FixtureChildNodeAttributesDef, & attributesContainer)))
-		{
-			for (auto  featureGroup: fAttributes)
-			{
-				featureGroup->WriteToNode(attributesContainer);
-			}
-		}
-	}
-	
-	// ------------------------------------------------------------------------------------
-	// Print wheels
-	IXMLFileNodePtr wheels;
-	if (VCOM_SUCCEEDED(pNode->CreateChildNode(XML_GDTF_FixtureChildNodeWheels, & wheels)))
-	{
-		for (GdtfWheelPtr wheelObj : fWheels)
-		{
-			wheelObj->WriteToNode(wheels);
-		}
-	}
-	
-	// ------------------------------------------------------------------------------------
-	// Print PhysicalDescriptions    
-    fPhysicalDesciptions.WriteToNode(pNode);
-    	
-	// ------------------------------------------------------------------------------------
-	// Print models
-	IXMLFileNodePtr models;
-	if (VCOM_SUCCEEDED(pNode->CreateChildNode(XML_GDTF_FixtureChildNodeModels, & models)))
-	{
-		for (GdtfModel* modelObj : fModels)
-		{
-			modelObj->WriteToNode(models);
-		}
-	}
-	
-	// ------------------------------------------------------------------------------------
-	// Print geometries
-	IXMLFileNodePtr geometries;
-	if (VCOM_SUCCEEDED(pNode->CreateChildNode(XML_GDTF_FixtureChildNodeGeomertries, & geometries)))
-	{
-		for (GdtfGeometry* geometryObj : fGeometries)
-		{
-			geometryObj->WriteToNode(geometries);
-		}
-	}
-	
-	// ------------------------------------------------------------------------------------
-	// Print dmxModes
-	IXMLFileNodePtr dmxModes;
-	if (VCOM_SUCCEEDED(pNode->CreateChildNode(XML_GDTF_FixtureChildNodeDMX, & dmxModes)))
-	{
-		for (GdtfDmxMode* dmxObj : fDmxModes)
-		{
-			dmxObj->WriteToNode(dmxModes);
-		}
-	}
-	
-	// ------------------------------------------------------------------------------------
-	// Print Revisions
-	IXMLFileNodePtr revisions;
-	if (VCOM_SUCCEEDED(pNode->CreateChildNode(XML_GDTF_FixtureChildNodeRevisions, & revisions)))
-	{
-		for (GdtfRevision* revisionObj : fRevisions)
-		{
-			revisionObj->WriteToNode(revisions);
-		}
-	}
-	
-	// ------------------------------------------------------------------------------------
-	// Print presets
-	IXMLFileNodePtr presets;
-	if (VCOM_SUCCEEDED(pNode->CreateChildNode(XML_GDTF_FixtureChildNodePresets, & presets)))
-	{
-		for (GdtfUserPreset* presetObj : fPresets)
-		{
-			presetObj->WriteToNode(presets);
-		}
-	}
-	
-	// ------------------------------------------------------------------------------------
-	// Print Prorocols
-    fProtocollContainer.WriteToNode(pNode);
-}
-
-void GdtfFixture::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	if ( CheckAbort() ) return;
-	FixtureFeedback feedback;
-	feedback.fTotalNumberOfNodes = fTotalNodesCount;
-
-	pNode->GetNodeAttributeValue(XML_GDTF_FixtureName,						fName);
-    fName.Replace("/", "_");
-
-	feedback.fFileName = fName;
-	VectorworksMVR::FeedbackDispatcher::Send(feedback);
-
-	pNode->GetNodeAttributeValue(XML_GDTF_FixtureShortName,					fShortName);
-	pNode->GetNodeAttributeValue(XML_GDTF_FixtureLongName,					fLongName);
-	pNode->GetNodeAttributeValue(XML_GDTF_FixtureManufacturer,				fManufacturer);
-	pNode->GetNodeAttributeValue(XML_GDTF_FixtureDescription,				fFixtureTypeDescription);
-	TXString uuid; pNode->GetNodeAttributeValue(XML_GDTF_FixtureTypeID,		uuid );	GdtfConverter::ConvertUUID(uuid, pNode, fGuid);
-	pNode->GetNodeAttributeValue(XML_GDTF_FixtureThumbnail,					fTumbnailName);
-	TXString thumbnailOffsetX; 	pNode->GetNodeAttributeValue(XML_GDTF_FixtureThumbnailOffsetX, thumbnailOffsetX); 	GdtfConverter::ConvertInteger(thumbnailOffsetX, pNode, fThumbnailOffsetX);
-	TXString thumbnailOffsetY; 	pNode->GetNodeAttributeValue(XML_GDTF_FixtureThumbnailOffsetY, thumbnailOffsetY); 	GdtfConverter::ConvertInteger(thumbnailOffsetY, pNode, fThumbnailOffsetY);
-	TXString canHaveChildren; 	pNode->GetNodeAttributeValue(XML_GDTF_FixtureCanHaveChildren,	 canHaveChildren); 	GdtfConverter::ConvertEGdtfCanHaveChildren(canHaveChildren, pNode, fCanHaveChildren);
-
-	TXString linkedUuid;
-	pNode->GetNodeAttributeValue(XML_GDTF_LinkedUuid,		linkedUuid );
-	fHasLinkedGuid = GdtfConverter::ConvertUUID(linkedUuid, pNode, fLinkedGuid);
-	
-	if ( CheckAbort() ) return;
-
-    // ------------------------------------------------------------------------------------
-	// Read Prorocols
-    IXMLFileNodePtr protoNode;
-    if (VCOM_SUCCEEDED(pNode->GetChildNode(XML_GDTF_Protocols, &protoNode))) 
-    {   
-		TXString nodeName;
-		protoNode->GetNodeName( nodeName );
-        fProtocollContainer.ReadFromNode(protoNode); 
-
-		feedback.fTotalCompletedNodes++;
-		VectorworksMVR::FeedbackDispatcher::Send(feedback);
-		if ( CheckAbort() ) return;
-    } 
-
-    // Read PhysicalDesciptions
-    IXMLFileNodePtr physDescrNode;
-    if (VCOM_SUCCEEDED(pNode->GetChildNode(XML_GDTF_FixtureChildNodePhysicalDesrip, &physDescrNode) ))
-    {
-        fPhysicalDesciptions.ReadFromNode(physDescrNode);
-		feedback.fTotalCompletedNodes++;
-		VectorworksMVR::FeedbackDispatcher::Send(feedback);
-		if ( CheckAbort() ) return;
-    }
-
-    // ------------------------------------------------------------------------------------
-    // Read AttributeDefinitions
-    
-    IXMLFileNodePtr attrDefs;
-    if (VCOM_SUCCEEDED(pNode->GetChildNode(XML_GDTF_FixtureChildNodeAttributeDef, & attrDefs)))
-    
-    {
-        // ------------------------------------------------------------------------------------
-        // Read fActivationGroups
-        GdtfConverter::TraverseNodes(attrDefs, XML_GDTF_FixtureChildNodeActivationGroupDef, XML_GDTF_ActivationGroupNode, [this] (IXMLFileNodePtr objNode) -> void
-                                     { 
-										 if ( CheckAbort() ) return;
-
-                                         GdtfActivationGroupPtr pActicationGroup = new GdtfActivationGroup();
-                                         
-                                         pActicationGroup->ReadFromNode(objNode);
-                                         
-                                         fActivationGroups.push_back(pActicationGroup);
-										
-                                         return;
-                                     });
-        
-        // ------------------------------------------------------------------------------------
-        // Read fFeatureGroups
-        GdtfConverter::TraverseNodes(attrDefs, XML_GDTF_FixtureChildNodeFeatureGroupDef, XML_GDTF_FeatureGroupNode, [this] (IXMLFileNodePtr objNode) -> void
-                                     {
-										 if ( CheckAbort() ) return;
-
-										 GdtfFeatureGroupPtr pFeatureGroup = new GdtfFeatureGroup();
-										 
-										 pFeatureGroup->ReadFromNode(objNode);
-										 
-										 fFeatureGroups.push_back( pFeatureGroup );
-
-                                         return;
-                                     });
-        
-        // ------------------------------------------------------------------------------------
-        // Read fAttributes
-        GdtfConverter::TraverseNodes(attrDefs, XML_GDTF_FixtureChildNodeAttributesDef, XML_GDTF_AttributeNode, [this] (IXMLFileNodePtr objNode) -> void
-                                     {
-										 if ( CheckAbort() ) return;
-
-										 GdtfAttributePtr pAttr = new GdtfAttribute();
-										 
-										 pAttr->ReadFromNode(objNode);
-										 
-										 fAttributes.push_back(pAttr);
-
-                                         return;
-                                     });
-    }
-
-	feedback.fTotalCompletedNodes++;
-	VectorworksMVR::FeedbackDispatcher::Send(feedback);
-    
-    
-	// ------------------------------------------------------------------------------------
-	// Read Wheels
-	GdtfConverter::TraverseNodes(pNode, XML_GDTF_FixtureChildNodeWheels, XML_GDTF_WheelNodeName, [this] (IXMLFileNodePtr objNode) -> void
-						{
-							if ( CheckAbort() ) return;
-
-							// Create the object
-							GdtfWheelPtr wheel = new GdtfWheel(this);
-							
-							// Read from node
-							wheel->ReadFromNode(objNode);
-							
-							// Add to list
-							fWheels.push_back(wheel);
-							
-							return;
-						});
-	
-	feedback.fTotalCompletedNodes++;
-	VectorworksMVR::FeedbackDispatcher::Send(feedback);
-	
-	// ------------------------------------------------------------------------------------
-	// Read Geometry
-	GdtfConverter::TraverseNodes(pNode, XML_GDTF_FixtureChildNodeModels, XML_GDTF_ModelNodeName, [this] (IXMLFileNodePtr objNode) -> void
-						{
-							if ( CheckAbort() ) return;
-
-							// Create the object
-							GdtfModel* model = new GdtfModel(this);
-							
-							// Read from node
-							model->ReadFromNode(objNode);
-							
-							// Add to list
-							fModels.push_back(model);
-							
-							return;
-						});
-
-	
-	feedback.fTotalCompletedNodes++;
-	VectorworksMVR::FeedbackDispatcher::Send(feedback);
-
-	
-	// ------------------------------------------------------------------------------------
-	// Read Geometries
-	GdtfConverter::TraverseMultiNodes(pNode, XML_GDTF_FixtureChildNodeGeomertries, [this] (IXMLFileNodePtr objNode,const TXString& childNodeName) -> void
-						{
-							if ( CheckAbort() ) return;
-
-							GdtfGeometryPtr geometry = nullptr;
-							if		(childNodeName == XML_GDTF_GeometryAxisNodeName)		{ geometry = new GdtfGeometryAxis(nullptr);}
-							else if (childNodeName == XML_GDTF_GeometryNodeName)			{ geometry = new GdtfGeometry(nullptr);}
-							else if (childNodeName == XML_GDTF_FilterBeamNodeName)			{ geometry = new GdtfGeometryBeamFilter(nullptr);}
-							else if (childNodeName == XML_GDTF_FilterColorNodeName)			{ geometry = new GdtfGeometryColorFilter(nullptr);}
-							else if (childNodeName == XML_GDTF_FilterGoboNodeName)			{ geometry = new GdtfGeometryGoboFilter(nullptr);}
-							else if (childNodeName == XML_GDTF_FilterShaperNodeName)		{ geometry = new GdtfGeometryShaperFilter(nullptr);}
-							else if (childNodeName == XML_GDTF_LampNodeName)				{ geometry = new GdtfGeometryLamp(nullptr);}
-							else if (childNodeName == XML_GDTF_MediaServerCameraNodeName)	{ geometry = new GdtfGeometryMediaServerCamera(nullptr);}
-							else if (childNodeName == XML_GDTF_MediaServerLayerNodeName)	{ geometry = new GdtfGeometryMediaServerLayer(nullptr);}
-							else if (childNodeName == XML_GDTF_MediaServerMasterNodeName)	{ geometry = new GdtfGeometryMediaServerMaster(nullptr);}
-							else if (childNodeName == XML_GDTF_GeometryReferenceNodeName)	{ geometry = new GdtfGeometryReference(nullptr);}
-							else if (childNodeName == XML_GDTF_DisplayNodeName)				{ geometry = new GdtfGeometryDisplay(nullptr);}
-							else if (childNodeName == XML_GDTF_LaserNodeName)				{ geometry = new GdtfGeometryLaser(nullptr);}
-							else if (childNodeName == XML_GDTF_WiringObjectNodeName)		{ geometry = new GdtfGeometryWiringObject(nullptr);}
-							else if (childNodeName == XML_GDTF_InventoryNodeName)			{ geometry = new GdtfGeometryInventory(nullptr);}
-							else if (childNodeName == XML_GDTF_StructureNodeName)			{ geometry = new GdtfGeometryStructure(nullptr);}
-							else if (childNodeName == XML_GDTF_SupportNodeName)				{ geometry = new GdtfGeometrySupport(nullptr);}
-							else if (childNodeName == XML_GDTF_MagnetNodeName)				{ geometry = new GdtfGeometryMagnet(nullptr);}
-							else															{ DSTOP((kEveryone,"There is a node that was not expected!")); }
-							
-							ASSERTN(kEveryone, geometry != nullptr);
-							if (geometry)
-							{
-								geometry->ReadFromNode(objNode);
-								fGeometries.push_back(geometry);
-							}
-							else
-							{
-								GdtfParsingError error (GdtfDefines::EGdtfParsingError::eNodeWrongName, objNode);
-								SceneData::GdtfFixture::AddError(error);
-							}
-							return;
-						});
-	
-	feedback.fTotalCompletedNodes++;
-	VectorworksMVR::FeedbackDispatcher::Send(feedback);
-	
-	// ------------------------------------------------------------------------------------
-	// Read dmxModes
-	GdtfConverter::TraverseNodes(pNode, XML_GDTF_FixtureChildNodeDMX, XML_GDTF_DMXModeNodeName, [this] (IXMLFileNodePtr objNode) -> void
-								 { 
-									 if ( CheckAbort() ) return;
-									 // Create the object
-									 GdtfDmxModePtr dmxMode = new GdtfDmxMode(this, "");
-									 
-									 // Read from node
-									 dmxMode->ReadFromNode(objNode);
-									 
-									 // Add to list
-									 fDmxModes.push_back(dmxMode);
-									
-
-									 return;
-								 });
-	
-	feedback.fTotalCompletedNodes++;
-	VectorworksMVR::FeedbackDispatcher::Send(feedback);
-
-	// ------------------------------------------------------------------------------------
-	// Read Revision
-	GdtfConverter::TraverseNodes(pNode, XML_GDTF_FixtureChildNodeRevisions, XML_GDTF_RevisionNodeName, [this] (IXMLFileNodePtr objNode) -> void
-								 {
-									 if ( CheckAbort() ) return;	
-									 // Create the object
-									 GdtfRevisionPtr rev = new GdtfRevision();
-									 
-									 // Read from node
-									 rev->ReadFromNode(objNode);
-									 
-									 // Add to list
-									 fRevisions.push_back(rev);
-									
-									 return;
-								 });
-
-	feedback.fTotalCompletedNodes++;
-	VectorworksMVR::FeedbackDispatcher::Send(feedback);
-
-	// ------------------------------------------------------------------------------------
-	// Read presets
-    // -
-	
-	// ------------------------------------------------------------------------------------
-	// Read macros
-    // -
-}
-
-void GdtfFixture::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_FixtureName);
-	needed.push_back(XML_GDTF_FixtureShortName);
-	needed.push_back(XML_GDTF_FixtureLongName);
-	needed.push_back(XML_GDTF_FixtureManufacturer);
-	needed.push_back(XML_GDTF_FixtureDescription);
-	needed.push_back(XML_GDTF_FixtureTypeID);
-	optional.push_back(XML_GDTF_FixtureThumbnail);
-	optional.push_back(XML_GDTF_LinkedUuid);
-	optional.push_back(XML_GDTF_FixtureThumbnailOffsetX);
-	optional.push_back(XML_GDTF_FixtureThumbnailOffsetY);
-	optional.push_back(XML_GDTF_FixtureCanHaveChildren);
-
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfFixture::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfFixture;
-}
-TXString GdtfFixture::GetNodeName()
-{
-	return XML_GDTF_FixtureNodeName;
-}
-
-bool GdtfFixture::ExportToFile(IZIPFilePtr& zipfile)
-{
-	//------------------------------------------------------------------------------------
-	// Create XML File
-	IXMLFilePtr xmlFile (IID_XMLFile);
-	xmlFile->CreateNew(XML_GDTF_ROOTNODENAME);
-	
-	
-	//------------------------------------------------------------------------------------
-	// Create root node
-	IXMLFileNodePtr rootNode;
-	if (VCOM_SUCCEEDED(xmlFile->GetRootNode( & rootNode)))
-	{
-		// Set Version Tag
-		rootNode->SetNodeAttributeValue(XML_GDTF_ROOTNODEATTRVERSION, XML_GDTF_CurrentVersion);
-		
-		// Write the fixture
-		this->WriteToNode(rootNode);
-	}
-	
-
-	//------------------------------------------------------------------------------------
-	// Write to disk
-	SceneData::IXMLFileIOBufferImpl buffer;
-	xmlFile->WriteBuffer( &buffer, eXMLEncoding_UTF8);
-	
-	
-	// Prepare Temp Storage for ZIP buffer
-	size_t	size = 0;
-	void*	data = nullptr;
-	
-	// Get the data from the XML
-	buffer.GetDataSize(size);
-	buffer.GetData(data);
-	
-	
-	// Copy into the Buffer for the ZIP
-	ISceneDataZipBuffer zipXmlBuffer;
-	zipXmlBuffer.SetData(data, size);
-	
-	
-	//------------------------------------------------------------------------------------
-	// Add to ZIP
-	SceneDataZip::AddFileToZip(zipfile, zipXmlBuffer, TXString(XML_GDTF_GDTFFILENAME) );
-
-	//------------------------------------------------------------------------------------
-	// Add meshes
-
-	for (auto it = fFileBuffers.begin(); it != fFileBuffers.end(); it++)
-	{
-		TXString strFileName;
-
-		if(it->first.EndsWith("3ds"))
-		{
-			strFileName = SceneData::SceneDataZip::GetResourceSubFolder(ERessourceType::Model3DS) + it->first;
-		}
-
-		if(it->first.EndsWith("svg"))
-		{
-			strFileName = SceneData::SceneDataZip::GetResourceSubFolder(ERessourceType::ModelSVG) + it->first;
-		}
-
-		if(it->first.EndsWith("glb"))
-		{
-			strFileName = SceneData::SceneDataZip::GetResourceSubFolder(ERessourceType::ModelGLTF) + it->first;
-		}
-
-		if(!strFileName.IsEmpty())
-		{
-			CZIPFileIOBufferImpl* bufferzip = new CZIPFileIOBufferImpl();
-			bufferzip->SetData((void*)it->second.first, it->second.second);
-			zipfile->AddFile(strFileName, bufferzip);
-
-			delete bufferzip;
-		}
-	}
-	
-	return true;
-}
-
-
-GdtfRevisionPtr GdtfFixture::AddRevision(const TXString& text, const STime& date)
-{
-	GdtfRevision* revision = new GdtfRevision();
-	revision->SetText(text);
-	revision->SetDate(date);
-	
-	fRevisions.push_back(revision);
-	
-	return revision;
-}
-
-GdtfAttributePtr GdtfFixture::AddAttribute(const TXString& name, const TXString& prettyName)
-{
-	GdtfAttributePtr attr = new GdtfAttribute(name, prettyName);
-
-	fAttributes.push_back(attr);
-	
-	return attr;
-}
-
-GdtfWheelPtr GdtfFixture::AddWheel(TXString name)
-{
-	// Create new Wheel
-	GdtfWheel* wheel = new GdtfWheel(this, name);
-
-	// Add to array
-	fWheels.push_back(wheel);
-	
-	return wheel;
-
-}
-
-GdtfModel* GdtfFixture::AddModel(const TXString& name)
-{
-	GdtfModel* model = new  GdtfModel(name, this);
-	fModels.push_back(model);
-	
-	return model;
-}
-
-GdtfGeometryPtr GdtfFixture::AddGeometryWithAxis(const TXString& name, GdtfModelPtr refToModel,const VWTransformMatrix& ma)
-{
-	GdtfGeometryAxis* axis = new GdtfGeometryAxis(name, refToModel, ma, nullptr);
-	
-	fGeometries.push_back(axis);
-	
-	return axis;
-}
-
-GdtfGeometryPtr GdtfFixture::AddGeometryWithLamp(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
-{
-	GdtfGeometryLamp* lamp = new GdtfGeometryLamp(name, refToModel, ma, nullptr);
-	
-	fGeometries.push_back(lamp);
-	
-	return lamp;
-}
-
-GdtfGeometryPtr GdtfFixture::AddGeometry(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
-{
-	GdtfGeometry* geo = new GdtfGeometry(name, refToModel, ma, nullptr);
-	
-	fGeometries.push_back(geo);
-	
-	return geo;
-}
-
-GdtfGeometryPtr GdtfFixture::AddGeometryReference(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
-{
-	GdtfGeometry* geo = new GdtfGeometryReference(name, refToModel, ma, nullptr);
-	
-	fGeometries.push_back(geo);
-	
-	return geo;
-}
-
-GdtfGeometryPtr GdtfFixture::AddGeometryShaper(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
-{
-	GdtfGeometry* geo = new GdtfGeometryShaperFilter(name, refToModel, ma, nullptr);
-	
-	fGeometries.push_back(geo);
-	
-	return geo;
-}
-
-GdtfGeometryPtr GdtfFixture::AddGeometryColor(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
-{
-	GdtfGeometry* geo = new GdtfGeometryColorFilter(name, refToModel, ma, nullptr);
-	
-	fGeometries.push_back(geo);
-	
-	return geo;
-}
-
-GdtfGeometryPtr GdtfFixture::AddGeometryGobo(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
-{
-	GdtfGeometry* geo = new GdtfGeometryGoboFilter(name, refToModel, ma, nullptr);
-	
-	fGeometries.push_back(geo);
-	
-	return geo;
-}
-
-GdtfGeometryPtr GdtfFixture::AddGeometryBeam(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
-{
-	GdtfGeometry* geo = new GdtfGeometryBeamFilter(name, refToModel, ma, nullptr);
-	
-	fGeometries.push_back(geo);
-	
-	return geo;
-}
-
-GdtfGeometryPtr GdtfFixture::AddGeometryMediaServerCamera(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
-{
-	GdtfGeometry* geo = new GdtfGeometryMediaServerCamera(name, refToModel, ma, nullptr);
-	
-	fGeometries.push_back(geo);
-	
-	return geo;
-}
-
-GdtfGeometryPtr GdtfFixture::AddGeometryMediaServerLayer(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
-{
-	GdtfGeometry* geo = new GdtfGeometryMediaServerLayer(name, refToModel, ma, nullptr);
-	
-	fGeometries.push_back(geo);
-	
-	return geo;
-}
-
-GdtfGeometryPtr GdtfFixture::AddGeometryMediaServerMaster(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
-{
-	GdtfGeometry* geo = new GdtfGeometryMediaServerMaster(name, refToModel, ma, nullptr);
-	
-	fGeometries.push_back(geo);
-	
-	return geo;
-}
-
-GdtfGeometryPtr GdtfFixture::AddGeometryDisplay(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
-{
-	GdtfGeometry* geo = new GdtfGeometryDisplay(name, refToModel, ma, nullptr);
-
-	fGeometries.push_back(geo);
-	
-	return geo;
-}
-
-GdtfGeometryPtr GdtfFixture::AddGeometryLaser(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
-{
-	GdtfGeometry* geo = new GdtfGeometryLaser(name, refToModel, ma, nullptr);
-
-	fGeometries.push_back(geo);
-	
-	return geo;
-}
-
-GdtfGeometryPtr GdtfFixture::AddGeometryWiringObject(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
-{
-	GdtfGeometry* geo = new GdtfGeometryWiringObject(name, refToModel, ma, nullptr);
-
-	fGeometries.push_back(geo);
-	
-	return geo;
-}
-
-GdtfGeometryPtr GdtfFixture::AddGeometryInventory(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
-{
-	GdtfGeometry* geo = new GdtfGeometryInventory(name, refToModel, ma, nullptr);
-
-	fGeometries.push_back(geo);
-	
-	return geo;
-}
-
-GdtfGeometryPtr GdtfFixture::AddGeometryStructure(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
-{
-	GdtfGeometry* geo = new GdtfGeometryStructure(name, refToModel, ma, nullptr);
-
-	fGeometries.push_back(geo);
-	
-	return geo;
-}
-
-GdtfGeometryPtr GdtfFixture::AddGeometrySupport(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
-{
-	GdtfGeometry* geo = new GdtfGeometrySupport(name, refToModel, ma, nullptr);
-
-	fGeometries.push_back(geo);
-	
-	return geo;
-}
-
-GdtfGeometryPtr GdtfFixture::AddGeometryMagnet(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
-{
-	GdtfGeometry* geo = new GdtfGeometryMagnet(name, refToModel, ma, nullptr);
-
-	fGeometries.push_back(geo);
-	
-	return geo;
-}
-
-GdtfDmxMode* GdtfFixture::AddDmxMode(const TXString& name)
-{
-	GdtfDmxMode* mode = new  GdtfDmxMode(this, name);
-	
-	fDmxModes.push_back(mode);
-	
-	return mode;
-}
-
-GdtfUserPresetPtr GdtfFixture::AddUserPreset()
-{
-	GdtfUserPresetPtr preset = new  GdtfUserPreset();
-	
-	fPresets.push_back(preset);
-	
-	return preset;
-}
-
-GdtfFeatureGroupPtr GdtfFixture::AddFeatureGroup(const TXString& name, const TXString& prettyName)
-{
-	GdtfFeatureGroupPtr featureGroup = new  GdtfFeatureGroup(name, prettyName);
-	
-	fFeatureGroups.push_back(featureGroup);
-	
-	return featureGroup;
-}
-
-GdtfActivationGroupPtr GdtfFixture::AddActivationGroup(const TXString& name)
-{
-	GdtfActivationGroupPtr actGroup = new  GdtfActivationGroup(name);
-	
-	fActivationGroups.push_back(actGroup);
-	
-	return actGroup;
-}
-
-const TGdtfWheelArray& GdtfFixture::GetWheelArray()
-{
-	return fWheels;
-}
-
-const TGdtfActivationGroupArray& GdtfFixture::GetActivationGroupArray()
-{
-    return fActivationGroups;
-}
-
-const TGdtfFeatureGroupArray& GdtfFixture::GetFeatureGroupArray()
-{
-    return fFeatureGroups;
-}
-
-const TGdtfAttributeArray& GdtfFixture::GetAttributeArray()
-{
-    return fAttributes;
-}
-
-const TGdtfGeometryArray& GdtfFixture::GetGeometryArray()
-{
-	return fGeometries;
-}
-
-const TGdtfDmxModeArray& GdtfFixture::GetDmxModeArray()
-{
-	return fDmxModes;
-}
-
-const TGdtfModelArray& GdtfFixture::GetModelArray()
-{
-    return fModels;
-}
-
-const TGdtfRevisionArray& GdtfFixture::GetRevisionArray()
-{
-    return fRevisions;
-}
-
-const TGdtfUserPresetArray& GdtfFixture::GetPresetArray()
-{
-    return fPresets;
-}
-
-const std::map<TXString, std::pair<char*, size_t> >& GdtfFixture::GetFileBuffers()
-{
-	return fFileBuffers;
-}
-
-GdtfProtocols& GdtfFixture::GetProtocollContainer()
-{
-	return fProtocollContainer;
-}
-
-const TXString& GdtfFixture::GetName() const
-{
-	return fName;
-}
-
-const TXString& GdtfFixture::GetShortName() const
-{
-    return fShortName;
-}
-
-const TXString& GdtfFixture::GetLongName() const
-{
-    return fLongName;
-}
-
-const TXString& GdtfFixture::GetManufacturer() const
-{
-    return fManufacturer;
-}
-
-const TXString& GdtfFixture::GetFixtureTypeDescription() const
-{
-    return fFixtureTypeDescription;
-}
-
-GdtfFixtureGUID GdtfFixture::GetGuid() const
-{
-    return fGuid;
-}
-
-GdtfFixtureGUID GdtfFixture::GetLinkedGuid() const
-{
-	return fLinkedGuid;
-}
-
-bool GdtfFixture::HasLinkedGuid() const
-{
-	return fHasLinkedGuid;
-}
-
-const TXString& GdtfFixture::GetThumbnailName() const
-{
-    return fTumbnailName;
-}
-
-Sint32 GdtfFixture::GetThumbnailOffsetX() const
-{
-    return fThumbnailOffsetX;
-}
-
-Sint32 GdtfFixture::GetThumbnailOffsetY() const
-{
-    return fThumbnailOffsetY;
-}
-
-bool GdtfFixture::GetCanHaveChildren() const
-{
-    return fCanHaveChildren;
-}
-
-TXString GdtfFixture::GetFullThumbNailPath (const TXString& fileExtension) 
-{
-	// Set to store
-	TXString fileName = fTumbnailName + fileExtension;
-
-    // Check if file exists:
-    IFileIdentifierPtr file (IID_FileIdentifier);
-    file->Set(fWorkingFolder, fileName);
-    
-    bool exists = false;  
-	VCOM_SUCCEEDED(file->ExistsOnDisk(exists));
-    if ( ! exists)	{ return ""; }
-
-	TXString fullPath;
-	file->GetFileFullPath(fullPath);
-
-	return fullPath;
-}
-
-const GdtfPNGFile& GdtfFixture::GetPNGThumnailFullPath()
-{
-	// Set to store
-    fTumbnailFullPath_PNG = GetFullThumbNailPath(".png");
-
-	return fTumbnailFullPath_PNG;
-}
-
-const TXString & SceneData::GdtfFixture::GetSVGThumnailFullPath()
-{
-	// Set to store
-    fTumbnailFullPath_SVG = GetFullThumbNailPath(".svg");
-
-	return fTumbnailFullPath_SVG;
-}
-
-GdtfPhysicalDescriptions& SceneData::GdtfFixture::GetPhysicalDesciptionsContainer()
-{
-    return fPhysicalDesciptions;
-}
-
-Sint32 GdtfFixture::GetMajorVersion() const
-{
-	return fMajorVersion;
-}
-
-Sint32 GdtfFixture::GetMinorVersion() const
-{
-	return fMinorVersion;
-}
-
-void GdtfFixture::SetName(const TXString& name)
-{
-	fName = name;
-}
-
-void GdtfFixture::SetShortName(const TXString& shortName)
-{
-	fShortName = shortName;
-}
-
-void GdtfFixture::SetLongName(const TXString& longName)
-{
-	fLongName = longName;
-}
-
-void GdtfFixture::SetManufacturer(const TXString& manu)
-{
-	fManufacturer = manu;
-}
-
-void GdtfFixture::SetFixtureTypeDescription(const TXString& desc)
-{
-	fFixtureTypeDescription = desc;
-}
-
-void GdtfFixture::SetGuid(const VWFC::Tools::VWUUID& uuid)
-{
-	fGuid = uuid;
-}
-
-void GdtfFixture::SetLinkedGuid(const VWFC::Tools::VWUUID& uuid)
-{
-	fHasLinkedGuid = true;
-	fLinkedGuid = uuid;
-}
-
-void GdtfFixture::SetThumbnailName(const TXString& fileName)
-{
-	fTumbnailName = fileName;
-}
-
-void GdtfFixture::SetThumbnailOffsetX(Sint32 thumbnailOffsetX)
-{
-	fThumbnailOffsetX = thumbnailOffsetX;
-}
-
-void GdtfFixture::SetThumbnailOffsetY(Sint32 thumbnailOffsetY)
-{
-	fThumbnailOffsetY = thumbnailOffsetY;
-}
-
-void GdtfFixture::SetCanHaveChildren(bool canHaveChildren)
-{
-	fCanHaveChildren = canHaveChildren;
-}
-
-void GdtfFixture::SetMajorVersion( Sint32 majorVersion )
-{
-	fMajorVersion = majorVersion;
-}
-
-void GdtfFixture::SetMinorVersion( Sint32 minorVersion )
-{
-	fMinorVersion = minorVersion;
-}
-
-//------------------------------------------------------------------------------------
-// Point
-SceneData::GdtfPoint::GdtfPoint()
-{
-	fDMXPercentage = 0;
-	fCFC3 = 0;
-	fCFC2 = 0;
-	fCFC1 = 0;
-	fCFC0 = 0;
-}
-
-SceneData::GdtfPoint::GdtfPoint(double DMXPercentage, double CFC3, double CFC2, double CFC1, double CFC0)
-{
-	fDMXPercentage = DMXPercentage;
-	fCFC3 = CFC3;
-	fCFC2 = CFC2;
-	fCFC1 = CFC1;
-	fCFC0 = CFC0;
-}
-
-SceneData::GdtfPoint::~GdtfPoint()
-{
-}
-
-EGdtfObjectType SceneData::GdtfPoint::GetObjectType()
-{
-    return EGdtfObjectType::eGdtfPoint;
-}
-
-// Getters
-double SceneData::GdtfPoint::GetDMXPercentage() const
-{
-	return fDMXPercentage;
-}
-
-double SceneData::GdtfPoint::GetCFC3() const
-{
-	return fCFC3;
-}
-
-double SceneData::GdtfPoint::GetCFC2() const
-{
-	return fCFC2;
-}
-
-double SceneData::GdtfPoint::GetCFC1() const
-{
-	return fCFC1;
-}
-
-double SceneData::GdtfPoint::GetCFC0() const
-{
-	return fCFC0;
-}
-        
-// Setters
-void SceneData::GdtfPoint::SetDMXPercentage(double dmxPercentage)
-{
-	fDMXPercentage = dmxPercentage;
-}
-
-void SceneData::GdtfPoint::SetCFC3(double CFC3)
-{
-	fCFC3 = CFC3;
-}
-
-void SceneData::GdtfPoint::SetCFC2(double CFC2)
-{
-	fCFC2 = CFC2;
-}
-
-void SceneData::GdtfPoint::SetCFC1(double CFC1)
-{
-	fCFC1 = CFC1;
-}
-
-void SceneData::GdtfPoint::SetCFC0(double CFC0)
-{
-	fCFC0 = CFC0;
-}
-
-TXString SceneData::GdtfPoint::GetNodeName()
-{
-    return XML_GDTF_Point;
-}
-
-void SceneData::GdtfPoint::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnPrintToFile(pNode);
-	
-	//------------------------------------------------------------------------------------
-    // Print the attributes
-	pNode->SetNodeAttributeValue(XML_GDTF_PointDMXPercentage, 	GdtfConverter::ConvertDouble(fDMXPercentage) );
-	pNode->SetNodeAttributeValue(XML_GDTF_PointCFC3, 			GdtfConverter::ConvertDouble(fCFC3) );
-	pNode->SetNodeAttributeValue(XML_GDTF_PointCFC2, 			GdtfConverter::ConvertDouble(fCFC2) );
-	pNode->SetNodeAttributeValue(XML_GDTF_PointCFC1, 			GdtfConverter::ConvertDouble(fCFC1) );
-	pNode->SetNodeAttributeValue(XML_GDTF_PointCFC0, 			GdtfConverter::ConvertDouble(fCFC0) );
-
-}
-
-void SceneData::GdtfPoint::OnReadFromNode(const IXMLFileNodePtr & pNode)
-{
-    //------------------------------------------------------------------------------------
-    // Call the parent
-    GdtfObject::OnReadFromNode(pNode);
-
-    //------------------------------------------------------------------------------------
-    // Get the attributes	
-    TXString dmxPercentage;	pNode->GetNodeAttributeValue(XML_GDTF_PointDMXPercentage, dmxPercentage); 	GdtfConverter::ConvertDouble(dmxPercentage, pNode, fDMXPercentage);
-	TXString cfc3;			pNode->GetNodeAttributeValue(XML_GDTF_PointCFC3, cfc3); 					GdtfConverter::ConvertDouble(cfc3, pNode, fCFC3);
-	TXString cfc2;			pNode->GetNodeAttributeValue(XML_GDTF_PointCFC2, cfc2); 					GdtfConverter::ConvertDouble(cfc2, pNode, fCFC2);
-	TXString cfc1;			pNode->GetNodeAttributeValue(XML_GDTF_PointCFC1, cfc1); 					GdtfConverter::ConvertDouble(cfc1, pNode, fCFC1);
-	TXString cfc0;			pNode->GetNodeAttributeValue(XML_GDTF_PointCFC0, cfc0); 					GdtfConverter::ConvertDouble(cfc0, pNode, fCFC0);
-}
-
-void SceneData::GdtfPoint::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	optional.push_back(XML_GDTF_PointDMXPercentage);
-	optional.push_back(XML_GDTF_PointCFC3);
-	optional.push_back(XML_GDTF_PointCFC2);
-	optional.push_back(XML_GDTF_PointCFC1);
-	optional.push_back(XML_GDTF_PointCFC0);
-
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-//------------------------------------------------------------------------------------
-// DMXProfile
-
-SceneData::GdtfDMXProfile::GdtfDMXProfile()
-{
-	fUniqueName = "";
-}
-
-SceneData::GdtfDMXProfile::~GdtfDMXProfile()
-{
-	for(GdtfPointPtr point : fPoints) { delete point; }
-}
-
-EGdtfObjectType SceneData::GdtfDMXProfile::GetObjectType()
-{
-    return EGdtfObjectType::eGdtfDMXProfile;
-}
-
-TXString SceneData::GdtfDMXProfile::GetNodeReference()
-{
-	return fUniqueName;
-}
-
-const TXString&	SceneData::GdtfDMXProfile::GetName() const
-{
-	return fUniqueName;
-}
-
-TGdtfPointArray SceneData::GdtfDMXProfile::GetPointArray() const
-{
-	return fPoints;
-}
-
-void SceneData::GdtfDMXProfile::SetName(const TXString& name)
-{
-	fUniqueName = name;
-}
-
-GdtfPointPtr SceneData::GdtfDMXProfile::AddPoint(double DMXPercentage, double CFC3, double CFC2, double CFC1, double CFC0)
-{
-	GdtfPointPtr point = new GdtfPoint(DMXPercentage, CFC3, CFC2, CFC1, CFC0);
-	fPoints.push_back(point);
-	return point;
-}
-
-TXString SceneData::GdtfDMXProfile::GetNodeName()
-{
-    return XML_GDTF_DMX_Profile;
-}
-
-void SceneData::GdtfDMXProfile::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnPrintToFile(pNode);
-	
-	//------------------------------------------------------------------------------------
-    // Print the attributes
-    pNode->SetNodeAttributeValue(XML_GDTF_DMX_ProfileName, fUniqueName);
-
-    //------------------------------------------------------------------------------------
-    // Print the children
-    for (GdtfPoint* point : fPoints)
-    {
-        point->WriteToNode(pNode);
-    }
-}
-
-void SceneData::GdtfDMXProfile::OnReadFromNode(const IXMLFileNodePtr & pNode)
-{
-    //------------------------------------------------------------------------------------
-    // Call the parent
-    GdtfObject::OnReadFromNode(pNode);
-
-    //------------------------------------------------------------------------------------
-    // Get the attributes	
-    pNode->GetNodeAttributeValue(XML_GDTF_DMX_ProfileName, fUniqueName);
-
-    // Read the children
-    GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_Point, [this](IXMLFileNodePtr objNode) -> void
-    {
-		if ( CheckAbort() ) return;
-
-        GdtfPoint* point = new GdtfPoint();
-
-        point->ReadFromNode(objNode);
-
-        fPoints.push_back(point);
-
-        return;
-    });
-}
-
-void SceneData::GdtfDMXProfile::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	optional.push_back(XML_GDTF_DMX_ProfileName);
-
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-SceneData::GdtfCRIGroup::GdtfCRIGroup()
-{
-    fColorTemperature = 6000;
-}
-
-SceneData::GdtfCRIGroup::GdtfCRIGroup(double colorTemp)
-{
-    fColorTemperature = colorTemp;
-}
-
-SceneData::GdtfCRIGroup::~GdtfCRIGroup()
-{
-	for(GdtfCRIPtr ptr : fCRI_Array) { delete ptr; }
-}
-
-EGdtfObjectType SceneData::GdtfCRIGroup::GetObjectType()
-{
-    return EGdtfObjectType::eGdtfCRIGroup;
-}
-
-double SceneData::GdtfCRIGroup::GetColorTemperature() const
-{
-    return fColorTemperature;
-}
-
-TGdtf_CRIArray SceneData::GdtfCRIGroup::GetCRI_Array() const
-{
-    return fCRI_Array;
-}
-
-void SceneData::GdtfCRIGroup::SetColorTemperature(double val)
-{
-    fColorTemperature = val;
-}
-
-GdtfCRIPtr SceneData::GdtfCRIGroup::Add_CRI(EGdtfColorSample ces, Sint32 colorTemp)
-{
-    GdtfCRIPtr cri = new GdtfCRI(ces, colorTemp);
-    
-    fCRI_Array.push_back(cri);
-
-    return cri;
-}
-
-TXString SceneData::GdtfCRIGroup::GetNodeName()
-{
-    return XML_GDTF_ColorRenderingIndexGroup;
-}
-
-void SceneData::GdtfCRIGroup::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-    //------------------------------------------------------------------------------------
-    // Call the parent
-    GdtfObject::OnPrintToFile(pNode);
-
-    //------------------------------------------------------------------------------------
-    // Print the attributes
-    pNode->SetNodeAttributeValue(XML_GDTF_ColorRenderingIndexGroup_ColorTemp, GdtfConverter::ConvertDouble(fColorTemperature) );
-
-    //------------------------------------------------------------------------------------
-    // Print the children
-    for (GdtfCRI* cri : fCRI_Array)
-    {
-        cri->WriteToNode(pNode);
-    }
-}
-
-void SceneData::GdtfCRIGroup::OnReadFromNode(const IXMLFileNodePtr & pNode)
-{
-    //------------------------------------------------------------------------------------
-    // Call the parent
-    GdtfObject::OnReadFromNode(pNode);
-
-    //------------------------------------------------------------------------------------
-    // Get the attributes	
-    TXString colorTempStr; pNode->GetNodeAttributeValue(XML_GDTF_ColorRenderingIndexGroup_ColorTemp, colorTempStr);
-    GdtfConverter::ConvertDouble(colorTempStr, pNode, fColorTemperature);
-
-    // Read the children
-    GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_ColorRenderingIndex, [this](IXMLFileNodePtr objNode) -> void
-    {
-		if ( CheckAbort() ) return;
-
-        GdtfCRI* cri = new GdtfCRI();
-
-        cri->ReadFromNode(objNode);
-
-        fCRI_Array.push_back(cri);
-
-        return;
-    });
-}
-
-void SceneData::GdtfCRIGroup::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	optional.push_back(XML_GDTF_ColorRenderingIndexGroup_ColorTemp);
-
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-SceneData::GdtfCRI::GdtfCRI()
-{
-    fCES = EGdtfColorSample::CES_01;  // Default CES01
-    fCRI = 100;          // The color rendering index for this sample.Size: 1 byte; Default value : 100
-}
-
-SceneData::GdtfCRI::GdtfCRI(EGdtfColorSample ces, Uint8 cri)
-{
-    fCES = ces;
-    fCRI = cri;
-}
-
-SceneData::GdtfCRI::~GdtfCRI()
-{
-}
-
-EGdtfObjectType SceneData::GdtfCRI::GetObjectType()
-{
-    return EGdtfObjectType::eGdtfCRI;
-}
-
-EGdtfColorSample SceneData::GdtfCRI::GetColorSample() const
-{
-    return fCES;
-}
-
-Uint8 SceneData::GdtfCRI::GetColorRenderingIndex() const
-{
-    return fCRI;
-}
-
-void SceneData::GdtfCRI::SetColorSample(EGdtfColorSample val)
-{
-    fCES = val;
-}
-
-void SceneData::GdtfCRI::SetColorRenderingIndex(Uint8 val)
-{
-    fCRI = val;
-}
-
-TXString SceneData::GdtfCRI::GetNodeName()
-{
-    return XML_GDTF_ColorRenderingIndex;
-}
-
-void SceneData::GdtfCRI::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-    //------------------------------------------------------------------------------------
-    // Call the parent
-    GdtfObject::OnPrintToFile(pNode);
-
-    //------------------------------------------------------------------------------------
-    // Print the attributes
-    pNode->SetNodeAttributeValue(XML_GDTF_ColorRenderingIndex_CES, GdtfConverter::ConvertEGdtfColorSampleEnum(fCES) );
-    
-    pNode->SetNodeAttributeValue(XML_GDTF_ColorRenderingIndex_CRI, GdtfConverter::ConvertInteger(fCRI) );
-}
-
-void SceneData::GdtfCRI::OnReadFromNode(const IXMLFileNodePtr & pNode)
-{
-    //------------------------------------------------------------------------------------
-    // Call the parent
-    GdtfObject::OnReadFromNode(pNode);
-
-    //------------------------------------------------------------------------------------
-    // Get the attributes	
-    TXString cesStr;  pNode->GetNodeAttributeValue(XML_GDTF_ColorRenderingIndex_CES, cesStr);
-    GdtfConverter::ConvertEGdtfColorSampleEnum(cesStr, pNode, fCES);
-    //
-    TXString colorRenderingIndexStr; pNode->GetNodeAttributeValue(XML_GDTF_ColorRenderingIndex_CRI, colorRenderingIndexStr);
-    GdtfConverter::ConvertInteger(colorRenderingIndexStr, pNode, fCRI);
-}
-
-void SceneData::GdtfCRI::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	optional.push_back(XML_GDTF_ColorRenderingIndex_CES);
-	optional.push_back(XML_GDTF_ColorRenderingIndex_CRI);
-
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-
-TXString SceneData::GdtfFTRDM::GetNodeName()
-{
-	return XML_GDTF_FTRDM;
-}
-
-void SceneData::GdtfFTRDM::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnPrintToFile(pNode);
-	//------------------------------------------------------------------------------------
-	// Print the attributes
-	pNode->SetNodeAttributeValue(XML_GDTF_FTRDM_AttrManufacturerID, GdtfConverter::ConvertHexValue(fManufacturerID) );
-	pNode->SetNodeAttributeValue(XML_GDTF_FTRDM_AttrDeviceModelID,  GdtfConverter::ConvertHexValue(fDeviceModelID)  );	 
-	//------------------------------------------------------------------------------------
-    // Print the Childs
-	for (GdtfSoftwareVersionIDPtr softID : fSoftwareVersionIDArray)
-	{
-		softID->WriteToNode(pNode);
-	}
-}
-
-void SceneData::GdtfFTRDM::OnReadFromNode(const IXMLFileNodePtr & pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnReadFromNode(pNode);
-	
-	//------------------------------------------------------------------------------------
-	// Get the attributes
-	TXString manufactStr; pNode->GetNodeAttributeValue(XML_GDTF_FTRDM_AttrManufacturerID, manufactStr);
-	GdtfConverter::ConvertHexValue(manufactStr, pNode, fManufacturerID);
-	
-	TXString deviceModelStr;  pNode->GetNodeAttributeValue(XML_GDTF_FTRDM_AttrDeviceModelID, deviceModelStr);
-	GdtfConverter::ConvertHexValue(deviceModelStr, pNode, fDeviceModelID);
-    
-    //------------------------------------------------------------------------------------
-	// Read the childs
-	GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_SoftwareVersionID_NodeNam, [this](IXMLFileNodePtr objNode) -> void
-								 {
-									 if ( CheckAbort() ) return;
-
-									 GdtfSoftwareVersionIDPtr  softID = new GdtfSoftwareVersionID();
-									 
-									 softID->ReadFromNode(objNode);
-									 
-									 fSoftwareVersionIDArray.push_back(softID);
-									 return;
-								 });	
-}
-
-void SceneData::GdtfFTRDM::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_FTRDM_AttrManufacturerID);
-	needed.push_back(XML_GDTF_FTRDM_AttrDeviceModelID);	
-
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-SceneData::GdtfFTRDM::GdtfFTRDM()
-{
-	fManufacturerID = 0;
-	fDeviceModelID  = 0;
-}
-
-SceneData::GdtfFTRDM::GdtfFTRDM(size_t manufacturerID, size_t deviceModelID) : GdtfFTRDM()
-{
-	fManufacturerID = manufacturerID;
-	fDeviceModelID  = deviceModelID;
-}
-
-SceneData::GdtfFTRDM::~GdtfFTRDM()
-{	    
-     for (GdtfSoftwareVersionID* obj : fSoftwareVersionIDArray){ delete obj; }
-}
-
-EGdtfObjectType SceneData::GdtfFTRDM::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfFTRDM;
-}
-
-size_t SceneData::GdtfFTRDM::GetManufacturerID() const
-{
-	return fManufacturerID;
-}
-
-size_t SceneData::GdtfFTRDM::GetDeviceModelID() const
-{
-	return fDeviceModelID;
-}
-
-const TGdtfSoftwareVersionIDArray& SceneData::GdtfFTRDM::GetSoftwareVersIDs() const
-{
-	return fSoftwareVersionIDArray;
-}
-
-void SceneData::GdtfFTRDM::SetManufacturerID(size_t val)
-{
-	fManufacturerID = val;
-}
-
-void SceneData::GdtfFTRDM::SetDeviceModelID(size_t val)
-{
-	fDeviceModelID = val;
-}
-
-
-GdtfSoftwareVersionIDPtr SceneData::GdtfFTRDM::AddSoftwareVersID(size_t value)
-{
-    GdtfSoftwareVersionIDPtr softID = new GdtfSoftwareVersionID(value);
-	
-    fSoftwareVersionIDArray.push_back(softID);
-
-    return softID;
-}
-
-SceneData::GdtfDMXPersonality::GdtfDMXPersonality()
-{
-    fValue = 0;
-    fDMXMode = nullptr;
-    fDMXMode_Unresolved = "";
-}
-
-SceneData::GdtfDMXPersonality::GdtfDMXPersonality(size_t value, GdtfDmxModePtr dmxMode)
-{
-    fValue   = value;
-    fDMXMode = dmxMode;
-    fDMXMode_Unresolved = "";
-}
-
-SceneData::GdtfDMXPersonality::~GdtfDMXPersonality()
-{     
-}
-
-EGdtfObjectType SceneData::GdtfDMXPersonality::GetObjectType()
-{
-    return EGdtfObjectType::eGdtfDMXPersonality;
-}
-
-size_t SceneData::GdtfDMXPersonality::GetValue() const
-{
-    return fValue;
-}
-
-const TXString & SceneData::GdtfDMXPersonality::GetUnresolvedDMXMode() const
-{
-    return fDMXMode_Unresolved;
-}
-
-GdtfDmxModePtr SceneData::GdtfDMXPersonality::GetDMXMode() const
-{
-    return fDMXMode;
-}
-
-void SceneData::GdtfDMXPersonality::SetValue(size_t val)
-{
-    fValue = val;
-}
-
-void SceneData::GdtfDMXPersonality::SetDMXMode(GdtfDmxModePtr mode)
-{
-    fDMXMode = mode;
-}
-
-TXString SceneData::GdtfDMXPersonality::GetNodeName()
-{
-    return XML_GDTF_DMXPersonalityNodeNam;
-}
-
-void GdtfDMXPersonality::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-    //------------------------------------------------------------------------------------
-    // Call the parent
-    GdtfObject::OnPrintToFile(pNode);
-
-    //------------------------------------------------------------------------------------
-    // Print the attributes
-    pNode->SetNodeAttributeValue(XML_GDTF_DMXPersonalityValue, GdtfConverter::ConvertHexValue(fValue));
-    pNode->SetNodeAttributeValue(XML_GDTF_DMXPersonalityDMXMode, fDMXMode->GetModeName() );
-}
-
-void GdtfDMXPersonality::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-    //------------------------------------------------------------------------------------
-    // Call the parent
-    GdtfObject::OnReadFromNode(pNode);
-
-    //------------------------------------------------------------------------------------
-    // Get the attributes	
-    TXString valueStr;
-    pNode->GetNodeAttributeValue(XML_GDTF_DMXPersonalityValue, valueStr);
-    GdtfConverter::ConvertHexValue(valueStr, pNode, fValue);
-
-    pNode->GetNodeAttributeValue(XML_GDTF_DMXPersonalityDMXMode, fDMXMode_Unresolved);
-}
-
-SceneData::GdtfProtocols::GdtfProtocols()
-{
-	fRDM              = nullptr;
-	fArtNet           = nullptr;
-	fsACN             = nullptr;
-	fKiNET            = nullptr;
-	fPosiStageNet     = nullptr;
-	fOpenSoundControl = nullptr;
-	fCITP             = nullptr;
-}
-
-SceneData::GdtfProtocols::~GdtfProtocols()
-{
-	if (fRDM)              {delete fRDM;}
-	if (fArtNet)           {delete fArtNet;}
-	if (fsACN)             {delete fsACN;}
-	if (fKiNET)            {delete fKiNET;}
-	if (fPosiStageNet)     {delete fPosiStageNet;}
-	if (fOpenSoundControl) {delete fOpenSoundControl;}
-	if (fCITP)             {delete fCITP;}
-}
-
-EGdtfObjectType SceneData::GdtfProtocols::GetObjectType()
-{
-	return EGdtfObjectType::eProtocols;
-}
-
-GdtfFTRDM * SceneData::GdtfProtocols::GetRDM()
-{
-	return fRDM;
-}
-
-GdtfArtNet * SceneData::GdtfProtocols::GetArtNet()
-{
-	return fArtNet;
-}
-
-GdtfsAcn * SceneData::GdtfProtocols::GetSACN()
-{
-	return fsACN;
-}
-
-GdtfKiNET * SceneData::GdtfProtocols::GetKiNET()
-{
-	return fKiNET;
-}
-
-GdtfPosiStageNet * SceneData::GdtfProtocols::GetPosiStageNet()
-{
-	return fPosiStageNet;
-}
-
-GdtfOpenSoundControl * SceneData::GdtfProtocols::GetOpenSoundControl()
-{
-	return fOpenSoundControl;
-}
-
-GdtfCITP * SceneData::GdtfProtocols::GetCITP()
-{
-	return fCITP;
-}
-
-GdtfFTRDM * SceneData::GdtfProtocols::CreateRDM()
-{
-	fRDM = new GdtfFTRDM();
-	return fRDM;
-}
-
-GdtfArtNet* SceneData::GdtfProtocols::CreateArtNet()
-{
-	fArtNet = new GdtfArtNet();
-	return fArtNet;
-}
-
-GdtfsAcn* SceneData::GdtfProtocols::CreateSACN()
-{
-	fsACN = new GdtfsAcn();
-	return fsACN;
-}
-
-void SceneData::GdtfProtocols::SetKiNET(GdtfKiNET * val)
-{
-	fKiNET = val;
-}
-
-void SceneData::GdtfProtocols::SetPosiStageNet(GdtfPosiStageNet * val)
-{
-	fPosiStageNet = val;
-}
-
-void SceneData::GdtfProtocols::SetOpenSoundControl(GdtfOpenSoundControl * val)
-{
-	fOpenSoundControl = val;
-}
-
-void SceneData::GdtfProtocols::SetCITP(GdtfCITP * val)
-{
-	fCITP = val;
-}
-
-TXString SceneData::GdtfProtocols::GetNodeName()
-{
-	return XML_GDTF_Protocols;
-}
-
-void SceneData::GdtfProtocols::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnPrintToFile(pNode);
-	//------------------------------------------------------------------------------------
-	// Print the childs
-	if (fRDM)              { fRDM->WriteToNode(pNode); }
-	if (fArtNet)           { fArtNet->WriteToNode(pNode); }
-	if (fsACN)             { fsACN->WriteToNode(pNode); }
-	if (fKiNET)            { fKiNET->WriteToNode(pNode); }
-	if (fPosiStageNet)     { fPosiStageNet->WriteToNode(pNode); }
-	if (fOpenSoundControl) { fOpenSoundControl->WriteToNode(pNode); }
-	if (fCITP)             { fCITP->WriteToNode(pNode); }
-}
-
-void SceneData::GdtfProtocols::OnReadFromNode(const IXMLFileNodePtr & pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	 GdtfObject::OnReadFromNode(pNode);
-	
-	//------------------------------------------------------------------------------------
-	// Read the childs	
-	IXMLFileNodePtr ftrdmNode;
-	if (VCOM_SUCCEEDED( pNode->GetChildNode(XML_GDTF_FTRDM, &ftrdmNode)) )
-	{
-		fRDM = new GdtfFTRDM();
-		fRDM->ReadFromNode(ftrdmNode);
-	}
-	
-	IXMLFileNodePtr artNetNode;
-	if (VCOM_SUCCEEDED(pNode->GetChildNode(XML_GDTF_ArtNet, &artNetNode)))
-	{
-		fArtNet = new GdtfArtNet();
-		fArtNet->ReadFromNode(artNetNode);
-	}
-	
-	IXMLFileNodePtr sAcnNode;
-	if (VCOM_SUCCEEDED(pNode->GetChildNode(XML_GDTF_sACN, &sAcnNode)))
-	{
-		fsACN = new GdtfsAcn();
-		fsACN->ReadFromNode(sAcnNode);
-	}
-	
-	IXMLFileNodePtr kinetNode;
-	if (VCOM_SUCCEEDED(pNode->GetChildNode(XML_GDTF_KiNET, &kinetNode)))
-	{
-		fKiNET = new GdtfKiNET();
-		fKiNET->ReadFromNode(kinetNode);
-	}
-	
-	IXMLFileNodePtr posiStageNetNode;
-	if (VCOM_SUCCEEDED(pNode->GetChildNode(XML_GDTF_PosiStageNet, &posiStageNetNode)))
-	{
-		fPosiStageNet = new GdtfPosiStageNet();
-		fPosiStageNet->ReadFromNode(posiStageNetNode);
-	}
-	
-	IXMLFileNodePtr openSoundControlNode;
-	if (VCOM_SUCCEEDED(pNode->GetChildNode(XML_GDTF_OpenSoundControl, &openSoundControlNode)))
-	{
-		fOpenSoundControl = new GdtfOpenSoundControl();
-		fOpenSoundControl->ReadFromNode(openSoundControlNode);
-	}
-	
-	IXMLFileNodePtr ctipNode;
-	if (VCOM_SUCCEEDED(pNode->GetChildNode(XML_GDTF_CITP, &ctipNode)))
-	{
-		fCITP = new GdtfCITP();
-		fCITP->ReadFromNode(ctipNode);
-	}
-}
-
-void SceneData::GdtfProtocols::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-//------------------------------------------------------------------------------------
-// GdtfMap
-GdtfMap::GdtfMap()
-{
-}
-
-GdtfMap::GdtfMap(Uint32 key, Uint32 value)
-{
-	fKey 	= key;
-	fValue 	= value;
-}
-
-GdtfMap::~GdtfMap()
-{
-}
-
-Uint32 GdtfMap::GetKey() const
-{
-	return fKey;
-}
-
-Uint32 GdtfMap::GetValue() const
-{
-	return fValue;
-}
-
-void GdtfMap::SetKey(Uint32 key)
-{
-	fKey = key;
-}
-
-void GdtfMap::SetValue(Uint32 value)
-{
-	fValue = value;
-}
-
-void GdtfMap::OnPrintToFile(IXMLFileNodePtr pNode) 
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnPrintToFile(pNode);
-
-	pNode->SetNodeAttributeValue(XML_GDTF_MapKey,	GdtfConverter::ConvertInteger(fKey));
-	pNode->SetNodeAttributeValue(XML_GDTF_MapValue,	GdtfConverter::ConvertInteger(fValue));
-}
-
-void GdtfMap::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnReadFromNode(pNode);
-
-	TXString key;	pNode->GetNodeAttributeValue(XML_GDTF_MapKey,	key);	GdtfConverter::ConvertInteger(key, pNode, fKey);
-	TXString value;	pNode->GetNodeAttributeValue(XML_GDTF_MapValue,	value);	GdtfConverter::ConvertInteger(value, pNode,	fValue);
-}
-
-void GdtfMap::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_MapKey);
-	needed.push_back(XML_GDTF_MapValue);
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfMap::GetObjectType() 
-{
-	return EGdtfObjectType::eGdtfMap;
-}
-
-TXString GdtfMap::GetNodeName()
-{
-	return XML_GDTF_MapNodeName;
-}
-
-//------------------------------------------------------------------------------------
-// GdtfArtNet
-
-SceneData::GdtfArtNet::GdtfArtNet()
-{
-}
-
-SceneData::GdtfArtNet::~GdtfArtNet()
-{
-	for(GdtfMapPtr map : fMaps) { delete map; }
-}
-
-const TGdtfMapArray& GdtfArtNet::GetMapArray()
-{
-	return fMaps;
-}
-
-GdtfMapPtr GdtfArtNet::CreateMap(Uint32 key, Uint32 value)
-{
-	GdtfMapPtr map = new GdtfMap(key, value);
-	fMaps.push_back(map);
-	return map;
-}
-
-void GdtfArtNet::OnPrintToFile(IXMLFileNodePtr pNode) 
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnPrintToFile(pNode);
-
-	for(GdtfMapPtr map : fMaps)
-	{
-		map->WriteToNode(pNode);
-	}
-}
-
-void GdtfArtNet::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnReadFromNode(pNode);
-
-	// Read the children
-    GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_MapNodeName, [this](IXMLFileNodePtr objNode) -> void
-    {
-		if ( CheckAbort() ) return;
-
-        GdtfMapPtr map = new GdtfMap();
-
-        map->ReadFromNode(objNode);
-
-        fMaps.push_back(map);
-
-        return;
-    });
-
-}
-
-EGdtfObjectType SceneData::GdtfArtNet::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfArtNet;
-}
-
-TXString SceneData::GdtfArtNet::GetNodeName()
-{
-	return XML_GDTF_ArtNet;
-}
-
-//------------------------------------------------------------------------------------
-// GdtfsAcn
-
-SceneData::GdtfsAcn::GdtfsAcn()
-{
-}
-
-SceneData::GdtfsAcn::~GdtfsAcn()
-{
-	for(GdtfMapPtr map : fMaps) { delete map; }
-}
-
-const TGdtfMapArray& GdtfsAcn::GetMapArray()
-{
-	return fMaps;
-}
-
-GdtfMapPtr GdtfsAcn::CreateMap(Uint32 key, Uint32 value)
-{
-	GdtfMapPtr map = new GdtfMap(key, value);
-	fMaps.push_back(map);
-	return map;
-}
-
-void GdtfsAcn::OnPrintToFile(IXMLFileNodePtr pNode) 
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnPrintToFile(pNode);
-
-	for(GdtfMapPtr map : fMaps)
-	{
-		map->WriteToNode(pNode);
-	}
-}
-
-void GdtfsAcn::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnReadFromNode(pNode);
-
-	// Read the children
-    GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_MapNodeName, [this](IXMLFileNodePtr objNode) -> void
-    {
-		if ( CheckAbort() ) return;
-
-        GdtfMapPtr map = new GdtfMap();
-
-        map->ReadFromNode(objNode);
-
-        fMaps.push_back(map);
-
-        return;
-    });
-
-}
-
-EGdtfObjectType SceneData::GdtfsAcn::GetObjectType()
-{
-	return EGdtfObjectType::eGdtf_sACN;
-}
-
-TXString SceneData::GdtfsAcn::GetNodeName()
-{
-	return XML_GDTF_sACN;
-}
-
-//------------------------------------------------------------------------------------
-// GdtfKiNET
-
-SceneData::GdtfKiNET::GdtfKiNET()
-{
-}
-
-SceneData::GdtfKiNET::~GdtfKiNET()
-{
-}
-
-EGdtfObjectType SceneData::GdtfKiNET::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfKiNET;
-}
-
-TXString SceneData::GdtfKiNET::GetNodeName()
-{
-	return XML_GDTF_KiNET;
-}
-
-//------------------------------------------------------------------------------------
-// GdtfPosiStageNet
-
-SceneData::GdtfPosiStageNet::GdtfPosiStageNet()
-{
-}
-
-SceneData::GdtfPosiStageNet::~GdtfPosiStageNet()
-{
-}
-
-EGdtfObjectType SceneData::GdtfPosiStageNet::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfPosiStageNet;
-}
-
-TXString SceneData::GdtfPosiStageNet::GetNodeName()
-{
-	return XML_GDTF_PosiStageNet;
-}
-
-//------------------------------------------------------------------------------------
-// GdtfOpenSoundControl
-
-SceneData::GdtfOpenSoundControl::GdtfOpenSoundControl()
-{
-}
-
-SceneData::GdtfOpenSoundControl::~GdtfOpenSoundControl()
-{
-}
-
-EGdtfObjectType SceneData::GdtfOpenSoundControl::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfOpenSoundControl;
-}
-
-TXString SceneData::GdtfOpenSoundControl::GetNodeName()
-{
-	return XML_GDTF_OpenSoundControl;
-}
-
-//------------------------------------------------------------------------------------
-// GdtfCITP
-
-SceneData::GdtfCITP::GdtfCITP()
-{
-}
-
-SceneData::GdtfCITP::~GdtfCITP()
-{
-}
-
-EGdtfObjectType SceneData::GdtfCITP::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfCITP;
-}
-
-TXString SceneData::GdtfCITP::GetNodeName()
-{
-	return XML_GDTF_CITP;
-}
-
-//------------------------------------------------------------------------------------
-// GdtfMacroDMX
-
-SceneData::GdtfMacroDMX::GdtfMacroDMX()
-{
-}
-
-SceneData::GdtfMacroDMX::~GdtfMacroDMX()
-{
-}
-
-EGdtfObjectType SceneData::GdtfMacroDMX::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfMacroDMX;
-}
-
-TGdtfMacroDMXStepArray SceneData::GdtfMacroDMX::GetStepArray()
-{
-	return fDMXSetps;
-}
-
-GdtfMacroDMXStepPtr SceneData::GdtfMacroDMX::AddDmxStep(double& duration)
-{
-	GdtfMacroDMXStepPtr dmxStep = new GdtfMacroDMXStep(duration);
-	fDMXSetps.push_back(dmxStep);
-	
-	return dmxStep;
-}
-
-TXString SceneData::GdtfMacroDMX::GetNodeName()
-{
-	return XML_GDTF_MacroDMX;
-}
-
-void SceneData::GdtfMacroDMX::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnPrintToFile(pNode);
-	
-	//------------------------------------------------------------------------------------
-	// Print the attributes
-	// -
-	//------------------------------------------------------------------------------------
-	// Print the childs
-	for (GdtfMacroDMXStep* dmxStep : fDMXSetps)
-	{
-		dmxStep->WriteToNode(pNode);
-	}
-}
-
-void SceneData::GdtfMacroDMX::OnReadFromNode(const IXMLFileNodePtr & pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnReadFromNode(pNode);
-	
-	//------------------------------------------------------------------------------------
-	// Get the attributes
-	// -
-	// Read the childs
-	GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_MacroDMXStep, [this](IXMLFileNodePtr objNode) -> void
-								 {
-									 if ( CheckAbort() ) return;
-									 GdtfMacroDMXStepPtr  dmxStep = new GdtfMacroDMXStep();
-									 
-									 dmxStep->ReadFromNode(objNode);
-									 
-									 fDMXSetps.push_back(dmxStep);
-									 return;
-								 });
-}
-
-SceneData::GdtfMacroDMXValue::GdtfMacroDMXValue()
-{
-	fDMXChannel = nullptr;
-}
-
-SceneData::GdtfMacroDMXValue::GdtfMacroDMXValue(DmxValue dmxVal, GdtfDmxChannelPtr dmxChannel)
-{
-	fValue = dmxVal;
-	funresolvedDMXChannel = "";
-	fDMXChannel = dmxChannel;
-}
-
-SceneData::GdtfMacroDMXValue::~GdtfMacroDMXValue()
-{
-	if (fDMXChannel) { delete fDMXChannel; }
-}
-
-SceneData::GdtfMacroDMXStep::GdtfMacroDMXStep()
-{
-}
-
-SceneData::GdtfMacroDMXStep::GdtfMacroDMXStep(double duration)
-{
-	fDuration = duration;
-}
-
-SceneData::GdtfMacroDMXStep::~GdtfMacroDMXStep()
-{
-}
-
-EGdtfObjectType SceneData::GdtfMacroDMXStep::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfMacroDMXStep;
-}
-
-double SceneData::GdtfMacroDMXStep::GetDuration() const
-{
-	return fDuration;
-}
-
-TGdtfMacroDMXValueArray SceneData::GdtfMacroDMXStep::GetDMXValueArray() const
-{
-	return fDMXValues;
-}
-
-void SceneData::GdtfMacroDMXStep::SetDuration(double d)
-{
-	fDuration = d;
-}
-
-GdtfMacroDMXValuePtr SceneData::GdtfMacroDMXStep::AddDmxValue(DmxValue dmxVal, GdtfDmxChannelPtr dmxChannel)
-{
-	GdtfMacroDMXValuePtr val = new GdtfMacroDMXValue(dmxVal, dmxChannel);
-	fDMXValues.push_back(val);
-	
-	return val;
-}
-
-TXString SceneData::GdtfMacroDMXStep::GetNodeName()
-{
-	return XML_GDTF_MacroDMXStep;
-}
-
-void SceneData::GdtfMacroDMXStep::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnPrintToFile(pNode);
-	
-	//------------------------------------------------------------------------------------
-	// Print the attributes
-	pNode->SetNodeAttributeValue(XML_GDTF_MacroDMXStepDuration, GdtfConverter::ConvertDouble(fDuration) );
-	
-	//------------------------------------------------------------------------------------
-	// Print the childs
-	for (GdtfMacroDMXValuePtr dmxVal : fDMXValues)
-	{
-		dmxVal->WriteToNode(pNode);
-	}
-}
-
-void SceneData::GdtfMacroDMXStep::OnReadFromNode(const IXMLFileNodePtr & pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnReadFromNode(pNode);
-	//------------------------------------------------------------------------------------
-	// Get the attributes
-	TXString durationStr;
-	pNode->GetNodeAttributeValue(XML_GDTF_MacroDMXStepDuration, durationStr);
-	GdtfConverter::ConvertDouble(durationStr, pNode, fDuration);
-	// Read the childs
-	GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_MacroDMXValue, [this](IXMLFileNodePtr objNode) -> void
-								 {
-									 if ( CheckAbort() ) return;
-									 GdtfMacroDMXValuePtr dmxValue= new GdtfMacroDMXValue();
-									 
-									 dmxValue->ReadFromNode(objNode);
-									 
-									 fDMXValues.push_back(dmxValue);
-									 return;
-								 });
-}
-
-void SceneData::GdtfMacroDMXStep::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	optional.push_back(XML_GDTF_MacroDMXStepDuration);
-
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType SceneData::GdtfMacroDMXValue::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfMacroDMXValue;
-}
-
-const TXString & SceneData::GdtfMacroDMXValue::GetUnresolvedDMXValue() const
-{
-	return funresolvedValue;
-}
-
-DmxValue SceneData::GdtfMacroDMXValue::GetValue() const
-{
-	return fValue;
-}
-
-const TXString & SceneData::GdtfMacroDMXValue::GetUnresolvedDMXChannel() const
-{
-	return funresolvedDMXChannel;
-}
-
-GdtfDmxChannelPtr SceneData::GdtfMacroDMXValue::GetDMXChannel() const
-{
-	return fDMXChannel;
-}
-
-void SceneData::GdtfMacroDMXValue::SetValue(DmxValue val)
-{
-	fValue = val;
-}
-
-void SceneData::GdtfMacroDMXValue::SetDMXChannel(GdtfDmxChannelPtr chnl)
-{
-	fDMXChannel = chnl;
-}
-
-TXString SceneData::GdtfMacroDMXValue::GetNodeName()
-{
-	return XML_GDTF_MacroDMXValue;
-}
-
-void SceneData::GdtfMacroDMXValue::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnPrintToFile(pNode);
-
-	EGdtfChannelBitResolution resolution = EGdtfChannelBitResolution::eGdtfChannelBitResolution_8;
-	ASSERTN(kEveryone, fDMXChannel != nullptr);
-	if(fDMXChannel)
-	{
-		resolution = fDMXChannel->GetChannelBitResolution();
-	}
-
-	//------------------------------------------------------------------------------------
-	// Print the attributes
-	pNode->SetNodeAttributeValue(XML_GDTF_MacroDMXValue_AttrValue, GdtfConverter::ConvertDMXValue(fValue, resolution));
-	//
-	pNode->SetNodeAttributeValue(XML_GDTF_MacroDMXValue_AttrChannel, fDMXChannel->GetNodeReference() );
-}
-
-void SceneData::GdtfMacroDMXValue::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnReadFromNode(pNode);	
-	//------------------------------------------------------------------------------------
-	// Get the attributes
-	pNode->GetNodeAttributeValue(XML_GDTF_MacroDMXValue_AttrValue, funresolvedValue);
-	//
-	pNode->GetNodeAttributeValue(XML_GDTF_MacroDMXValue_AttrChannel, funresolvedDMXChannel);
-}
-
-void SceneData::GdtfMacroDMXValue::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_MacroDMXValue_AttrValue);
-	needed.push_back(XML_GDTF_MacroDMXValue_AttrChannel);
-
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-SceneData::GdtfMacroVisual::GdtfMacroVisual()
-{
-}
-
-SceneData::GdtfMacroVisual::~GdtfMacroVisual()
-{
-
-}
-
-EGdtfObjectType SceneData::GdtfMacroVisual::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfMacroVisual;
-}
-
-TGdtfMacroVisualStepArray SceneData::GdtfMacroVisual::GetVisualStepArray()
-{
-	return fVisualSteps;
-}
-
-GdtfMacroVisualStepPtr SceneData::GdtfMacroVisual::AddVisualStep()
-{
-	GdtfMacroVisualStepPtr visuealStep = new GdtfMacroVisualStep();
-	fVisualSteps.push_back(visuealStep);
-	
-	return visuealStep;
-}
-
-TXString SceneData::GdtfMacroVisual::GetNodeName()
-{
-	return XML_GDTF_MacroVisual;
-}
-
-void SceneData::GdtfMacroVisual::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnPrintToFile(pNode);
-	
-	//------------------------------------------------------------------------------------
-	// Print the attributes
-	// -
-	//------------------------------------------------------------------------------------
-	// Print the childs
-	for (GdtfMacroVisualStepPtr visualStep : fVisualSteps)
-	{
-		visualStep->WriteToNode(pNode);
-	}
-}
-
-void SceneData::GdtfMacroVisual::OnReadFromNode(const IXMLFileNodePtr & pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnReadFromNode(pNode);
-	
-	//------------------------------------------------------------------------------------
-	// Get the attributes
-	// -
-	// Read the childs
-	GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_MacroVisualStep, [this](IXMLFileNodePtr objNode) -> void
-								 {
-									 if ( CheckAbort() ) return;
-									 GdtfMacroVisualStepPtr macroVisual= new GdtfMacroVisualStep();
-									 
-									 macroVisual->ReadFromNode(objNode);
-									 
-									 fVisualSteps.push_back(macroVisual);
-									 return;
-								 });
-}
-
-SceneData::GdtfMacroVisualStep::GdtfMacroVisualStep()
-{
-	fDuration = 1; // Default value: 1; Size 1 byte; Unit: DMX frame.
-	fFade = 0;     // Default value: 0.0. Unit: milliseconds.
-	fDelay = 0;    // Default value: 0.0. Unit: milliseconds.
-}
-
-SceneData::GdtfMacroVisualStep::~GdtfMacroVisualStep()
-{
-	for(const auto& i: fVisualValues){ delete i; }
-}
-
-TGdtfMacroVisualValueArray SceneData::GdtfMacroVisualStep::GetVisualValueArray()
-{
-	return fVisualValues;
-}
-
-EGdtfObjectType SceneData::GdtfMacroVisualStep::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfMacroVisualStep;
-}
-
-double SceneData::GdtfMacroVisualStep::getDuration()
-{
-	return fDuration;
-}
-
-double SceneData::GdtfMacroVisualStep::getFade()
-{
-	return fFade;
-}
-
-double SceneData::GdtfMacroVisualStep::getDelay()
-{
-	return fDelay;
-}
-
-void SceneData::GdtfMacroVisualStep::setDuration(double d)
-{
-	fDuration = d;
-}
-
-void SceneData::GdtfMacroVisualStep::setFade(double f)
-{
-	fFade = f;
-}
-
-void SceneData::GdtfMacroVisualStep::setDelay(double d)
-{
-	fDelay = d;
-}
-
-GdtfMacroVisualValue* SceneData::GdtfMacroVisualStep::AddVisualValue(DmxValue& dmxVal, GdtfDmxChannelFunctionPtr channelFunctionRef)
-{
-	GdtfMacroVisualValue* val = new GdtfMacroVisualValue(dmxVal, channelFunctionRef);
-	
-	fVisualValues.push_back(val);
-	
-	return val;
-}
-
-TXString SceneData::GdtfMacroVisualStep::GetNodeName()
-{
-	return XML_GDTF_MacroVisualStep;
-}
-
-void SceneData::GdtfMacroVisualStep::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnPrintToFile(pNode);
-	
-	//------------------------------------------------------------------------------------
-	// Print the attributes
-	pNode->SetNodeAttributeValue(XML_GDTF_MacroVisualStep_AttrDuration, GdtfConverter::ConvertDouble(fDuration));
-	pNode->SetNodeAttributeValue(XML_GDTF_MacroVisualStep_AttrFade,     GdtfConverter::ConvertDouble (fFade));
-	pNode->SetNodeAttributeValue(XML_GDTF_MacroVisualStep_AttrDelay,    GdtfConverter::ConvertDouble (fDelay));
-	
-	//------------------------------------------------------------------------------------
-	// Print the childs
-	for (GdtfMacroVisualValuePtr visualVal : fVisualValues)
-	{
-		visualVal->WriteToNode(pNode);
-	}
-}
-
-void SceneData::GdtfMacroVisualStep::OnReadFromNode(const IXMLFileNodePtr & pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnReadFromNode(pNode);
-	
-	//------------------------------------------------------------------------------------
-	// Get the attributes
-	TXString durationStr; pNode->GetNodeAttributeValue(XML_GDTF_MacroVisualStep_AttrDuration, durationStr);
-	GdtfConverter::ConvertDouble(durationStr, pNode, fDuration);
-	TXString fadeStr;     pNode->GetNodeAttributeValue(XML_GDTF_MacroVisualStep_AttrFade, fadeStr);
-	GdtfConverter::ConvertDouble(fadeStr, pNode, fFade);
-	TXString delayStr;    pNode->GetNodeAttributeValue(XML_GDTF_MacroVisualStep_AttrDelay, delayStr);
-	GdtfConverter::ConvertDouble(delayStr, pNode, fDelay);
-	
-	// Read the childs
-	GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_MacroVisualValue, [this](IXMLFileNodePtr objNode) -> void
-								 {
-									 if ( CheckAbort() ) return;
-									 GdtfMacroVisualValuePtr visuealVal = new GdtfMacroVisualValue();
-									 
-									 visuealVal->ReadFromNode(objNode);
-									 
-									 fVisualValues.push_back(visuealVal);
-									 return;
-								 });
-}
-
-void SceneData::GdtfMacroVisualStep::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	optional.push_back(XML_GDTF_MacroVisualStep_AttrDuration);
-	optional.push_back(XML_GDTF_MacroVisualStep_AttrFade);
-	optional.push_back(XML_GDTF_MacroVisualStep_AttrDelay);
-
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-SceneData::GdtfMacroVisualValue::GdtfMacroVisualValue()
-{
-	fChannelFunctionRef = nullptr;
-}
-
-SceneData::GdtfMacroVisualValue::GdtfMacroVisualValue(DmxValue dmxVal, GdtfDmxChannelFunctionPtr channelFunctionRef)
-{
-	fDmxValue = dmxVal;
-	fChannelFunctionRef = channelFunctionRef;
-}
-
-SceneData::GdtfMacroVisualValue::~GdtfMacroVisualValue()
-{
-	if (fChannelFunctionRef) { delete fChannelFunctionRef; }
-}
-
-EGdtfObjectType SceneData::GdtfMacroVisualValue::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfMacroVisualValue;
-}
-
-const TXString & SceneData::GdtfMacroVisualValue::GetUnresolvedDMXValue() const
-{
-	return funresolvedValue;
-}
-
-DmxValue SceneData::GdtfMacroVisualValue::GetDmxValue() const
-{
-	return fDmxValue;
-}
-
-const TXString & SceneData::GdtfMacroVisualValue::GetUnresolvedChannelFunctionRef() const
-{
-	return fUnresolvedChannelFunctionRef;
-}
-
-GdtfDmxChannelFunctionPtr SceneData::GdtfMacroVisualValue::GetChannelFunctionRef() const
-{
-	return fChannelFunctionRef;
-}
-
-void SceneData::GdtfMacroVisualValue::SetDmxValue(DmxValue val)
-{
-	fDmxValue = val;
-}
-
-void SceneData::GdtfMacroVisualValue::SetUnresolvedChannelFunctionRef(const TXString& ref)
-{
-	fUnresolvedChannelFunctionRef = ref;
-}
-
-void SceneData::GdtfMacroVisualValue::SetChannelFunction(GdtfDmxChannelFunctionPtr ref)
-{
-	fChannelFunctionRef = ref;
-}
-
-TXString SceneData::GdtfMacroVisualValue::GetNodeName()
-{
-	return XML_GDTF_MacroVisualValue;
-}
-
-void SceneData::GdtfMacroVisualValue::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnPrintToFile(pNode);
-
-	EGdtfChannelBitResolution resolution = EGdtfChannelBitResolution::eGdtfChannelBitResolution_8;
-	ASSERTN(kEveryone, fChannelFunctionRef != nullptr);
-	if(fChannelFunctionRef) {resolution = fChannelFunctionRef->GetParentDMXChannel()->GetChannelBitResolution(); }
-	
-	//------------------------------------------------------------------------------------
-	// Print the attributes
-	pNode->SetNodeAttributeValue(XML_GDTF_MacroVisualValue_AttrValue, GdtfConverter::ConvertDMXValue(fDmxValue, resolution));
-	pNode->SetNodeAttributeValue(XML_GDTF_MacroVisualValue_AttrChanFunc, fChannelFunctionRef->GetNodeReference() );
-}
-
-void SceneData::GdtfMacroVisualValue::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnReadFromNode(pNode);
-
-	pNode->GetNodeAttributeValue(XML_GDTF_MacroVisualValue_AttrValue, funresolvedValue);
-	//
-	pNode->GetNodeAttributeValue(XML_GDTF_MacroVisualValue_AttrChanFunc, fUnresolvedChannelFunctionRef);
-}
-
-void SceneData::GdtfMacroVisualValue::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_MacroVisualValue_AttrValue);
-	needed.push_back(XML_GDTF_MacroVisualValue_AttrChanFunc);
-
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-SceneData::GdtfSoftwareVersionID::GdtfSoftwareVersionID()
-{
-    fValue = 0;
-}
-
-SceneData::GdtfSoftwareVersionID::GdtfSoftwareVersionID(size_t value)
-{
-    fValue = value;
-}
-
-SceneData::GdtfSoftwareVersionID::~GdtfSoftwareVersionID()
-{
-     for (GdtfDMXPersonalityPtr obj		: fDmxPersonalityArray){ delete obj; }
-}
-
-EGdtfObjectType SceneData::GdtfSoftwareVersionID::GetObjectType()
-{
-    return EGdtfObjectType::eGdtfSoftwareVersionID;
-}
-
-size_t SceneData::GdtfSoftwareVersionID::GetValue() const
-{
-    return fValue;
-}
-
-const TGdtfDMXPersonalityArray& SceneData::GdtfSoftwareVersionID::GetDMXPersonalityArray()
-{
-    return fDmxPersonalityArray;
-}
-
-void SceneData::GdtfSoftwareVersionID::SetValue(size_t val)
-{
-    fValue = val;
-}
-
-GdtfDMXPersonalityPtr SceneData::GdtfSoftwareVersionID::AddDMXPersonality(size_t value, GdtfDmxModePtr dmxMode)
-{
-    GdtfDMXPersonalityPtr dmxPerso = new GdtfDMXPersonality(value, dmxMode);
-    fDmxPersonalityArray.push_back(dmxPerso);
-
-    return dmxPerso;
-}
-
-TXString SceneData::GdtfSoftwareVersionID::GetNodeName()
-{
-    return XML_GDTF_SoftwareVersionID_NodeNam;
-}
-
-void SceneData::GdtfSoftwareVersionID::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-    //------------------------------------------------------------------------------------
-    // Call the parent
-    GdtfObject::OnPrintToFile(pNode);
-
-    //------------------------------------------------------------------------------------
-    // Print the attributes
-    pNode->SetNodeAttributeValue(XML_GDTF_SoftwareVersionID_Value, GdtfConverter::ConvertHexValue(fValue));
-
-    //------------------------------------------------------------------------------------
-    // Print the childs
-    for (GdtfDMXPersonalityPtr dmxPerso: fDmxPersonalityArray)
-    {
-        dmxPerso->WriteToNode(pNode);
-    }
-}
-
-void SceneData::GdtfSoftwareVersionID::OnReadFromNode(const IXMLFileNodePtr & pNode)
-{
-    //------------------------------------------------------------------------------------
-    // Call the parent
-    GdtfObject::OnReadFromNode(pNode);
-
-    //------------------------------------------------------------------------------------
-    // Get the attributes
-    TXString valueStr; pNode->GetNodeAttributeValue(XML_GDTF_SoftwareVersionID_Value, valueStr);
-    GdtfConverter::ConvertHexValue( valueStr, pNode, fValue);
-
-    // Read the childs
-    GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_DMXPersonalityNodeNam, [this](IXMLFileNodePtr objNode) -> void
-    {
-		if ( CheckAbort() ) return;
-        GdtfDMXPersonalityPtr dmxPerso = new GdtfDMXPersonality();
-
-        dmxPerso->ReadFromNode(objNode);
-
-        fDmxPersonalityArray.push_back(dmxPerso);
-        return;
-    });
-}
-
-//------------------------------------------------------------------------------------
-// GdtfGamut
-GdtfGamut::GdtfGamut()
-{
-}
-
-GdtfGamut::GdtfGamut(const TXString& name, CCieColorPtr color)
-{
-	fUniqueName = name;
-
-	fGamutPoints.push_back(color);
-}
-
-GdtfGamut::~GdtfGamut()
-{
-	for(CCieColorPtr color : fGamutPoints) { delete color; }
-}
-
-const TXString&	GdtfGamut::GetName() const
-{
-	return fUniqueName;
-}
-
-const TCCieColorArray& GdtfGamut::GetGamutPoints() const
-{
-	return fGamutPoints;
-}
-
-void GdtfGamut::SetName(const TXString& name)
-{
-	fUniqueName = name;
-}
-
-void GdtfGamut::AddGamutPoint(CCieColorPtr newPoint)
-{
-	fGamutPoints.push_back(newPoint);
-}
-
-void GdtfGamut::OnPrintToFile(IXMLFileNodePtr pNode) 
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnPrintToFile(pNode);
-
-	pNode->SetNodeAttributeValue(XML_GDTF_GamutName, 	fUniqueName);
-	pNode->SetNodeAttributeValue(XML_GDTF_GamutPoints,	GdtfConverter::ConvertColorArray(fGamutPoints));
-}
-
-void GdtfGamut::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnReadFromNode(pNode);
-
-							pNode->GetNodeAttributeValue(XML_GDTF_GamutName, fUniqueName);
-	TXString gamutPoints; 	pNode->GetNodeAttributeValue(XML_GDTF_GamutPoints, gamutPoints); GdtfConverter::ConvertColorArray(gamutPoints, pNode, fGamutPoints);
-}
-
-void GdtfGamut::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_GamutName);
-	needed.push_back(XML_GDTF_GamutPoints);
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfGamut::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfGamut;
-}
-
-TXString GdtfGamut::GetNodeName()
-{
-	return XML_GDTF_GamutNodeName;
-}
-
-TXString GdtfGamut::GetNodeReference()
-{
-	return fUniqueName;
-}
-
-//------------------------------------------------------------------------------------
-// GdtfPhysicalDescriptions
-
-SceneData::GdtfPhysicalDescriptions::GdtfPhysicalDescriptions()
-{
-	fOperatingTemperatureLow 	= 0.0;
-	fOperatingTemperatureHigh 	= 40.0;
-	fWeight 					= 0.0;
-	fLegHeight 					= 0.0;
-}
-
-SceneData::GdtfPhysicalDescriptions::~GdtfPhysicalDescriptions()
-{
-    for (GdtfColorSpace* 		o : fAdditionalColorSpaces)	{ delete o; }
-    for (GdtfGamut* 			o : fGamuts)				{ delete o; }
-    for (GdtfPhysicalEmitter* 	o : fEmitters)    			{ delete o; }
-    for (GdtfFilter*          	o : fFilters)     			{ delete o; }
-    for (GdtfDMXProfile*      	o : fDmxProfiles) 			{ delete o; }
-    for (GdtfCRIGroup*        	o : fCRI_Groups)  			{ delete o; }
-	for (GdtfConnector*       	o : fConnectors)  			{ delete o; }
-}
-
-EGdtfObjectType SceneData::GdtfPhysicalDescriptions::GetObjectType()
-{
-    return EGdtfObjectType::eGdtfPhysicalDescription;
-}
-
-GdtfColorSpace* SceneData::GdtfPhysicalDescriptions::GetColorSpace()
-{
-    return & fColorSpace;
-}
-
-const TGdtfColorSpaceArray& SceneData::GdtfPhysicalDescriptions::GetAdditionalColorSpaceArray()
-{
-    return fAdditionalColorSpaces;
-}
-
-const TGdtfGamutArray& SceneData::GdtfPhysicalDescriptions::GetGamutArray()
-{
-    return fGamuts;
-}
-
-const TGdtfPhysicalEmitterArray& SceneData::GdtfPhysicalDescriptions::GetPhysicalEmitterArray()
-{
-    return fEmitters;
-}
-
-const TGdtfFilterArray & SceneData::GdtfPhysicalDescriptions::GetFilterArray()
-{
-    return fFilters;
-}
-
-const TGdtfDMXProfileArray& SceneData::GdtfPhysicalDescriptions::GetDmxProfileArray()
-{
-    return fDmxProfiles;
-}
-
-const TGdtf_CRIGroupArray & SceneData::GdtfPhysicalDescriptions::GetCRIGroupArray()
-{
-    return fCRI_Groups;
-}
-
-const TGdtfConnectorArray & SceneData::GdtfPhysicalDescriptions::GetConnectorArray()
-{
-    return fConnectors;
-}
-
-double GdtfPhysicalDescriptions::GetOperatingTemperatureLow()
-{
-    return fOperatingTemperatureLow;
-}
-
-double GdtfPhysicalDescriptions::GetOperatingTemperatureHigh()
-{
-    return fOperatingTemperatureHigh;
-}
-
-double GdtfPhysicalDescriptions::GetWeight()
-{
-    return fWeight;
-}
-
-double GdtfPhysicalDescriptions::GetLegHeight()
-{
-    return fLegHeight;
-}
-
-void GdtfPhysicalDescriptions::SetOperatingTemperatureLow(double value)
-{
-	fOperatingTemperatureLow = value;
-}
-
-void GdtfPhysicalDescriptions::SetOperatingTemperatureHigh(double value)
-{
-	fOperatingTemperatureHigh = value;
-}
-
-void GdtfPhysicalDescriptions::SetWeight(double value)
-{
-	fWeight = value;
-}
-
-void GdtfPhysicalDescriptions::SetLegHeight(double value)
-{
-	fLegHeight = value;
-}
-
-GdtfColorSpacePtr SceneData::GdtfPhysicalDescriptions::AddAdditionalColorSpace(const TXString & name, EGdtfColorSpace colorSpace)
-{
-	GdtfColorSpacePtr gdtfColorSpace = new GdtfColorSpace(name, colorSpace);
-	
-	fAdditionalColorSpaces.push_back(gdtfColorSpace);
-	
-	return gdtfColorSpace;
-}
-
-GdtfGamutPtr SceneData::GdtfPhysicalDescriptions::AddGamut(const TXString & name, CCieColorPtr color)
-{
-	GdtfGamutPtr gdtfGamut = new GdtfGamut(name, color);
-	
-	fGamuts.push_back(gdtfGamut);
-	
-	return gdtfGamut;
-}
-
-GdtfPhysicalEmitterPtr SceneData::GdtfPhysicalDescriptions::AddEmitter(const TXString & name, CCieColor color)
-{
-	GdtfPhysicalEmitterPtr emitter = new  GdtfPhysicalEmitter(name, color);
-	
-	fEmitters.push_back(emitter);
-	
-	return emitter;
-}
-
-GdtfFilterPtr SceneData::GdtfPhysicalDescriptions::AddFilter(const TXString& name, CCieColor color)
-{
-    GdtfFilterPtr filter = new GdtfFilter(name, color);
-
-    fFilters.push_back(filter);
-
-    return filter;
-}
-
-GdtfDMXProfilePtr SceneData::GdtfPhysicalDescriptions::AddDmxProfile()
-{
-    GdtfDMXProfilePtr dmxProf = new GdtfDMXProfile();
-    
-    fDmxProfiles.push_back(dmxProf);
-    
-    return dmxProf;
-}
-
-GdtfCRIGroupPtr SceneData::GdtfPhysicalDescriptions::AddCRIGroup(double colorTsemp)
-{
-    GdtfCRIGroupPtr criGroup = new GdtfCRIGroup(colorTsemp);
-    fCRI_Groups.push_back(criGroup);
-
-    return criGroup;
-}
-
-GdtfConnectorPtr SceneData::GdtfPhysicalDescriptions::AddConnector(const TXString& name,  const TXString& type)
-{
-    GdtfConnectorPtr connector = new GdtfConnector(name, type);
-    fConnectors.push_back(connector);
-
-    return connector;
-}
-
-TXString SceneData::GdtfPhysicalDescriptions::GetNodeName()
-{
-    return XML_GDTF_FixtureChildNodePhysicalDesrip;
-}
-
-void SceneData::GdtfPhysicalDescriptions::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-    //------------------------------------------------------------------------------------
-    // Call the parent
-    GdtfObject::OnPrintToFile(pNode);
-    
-    //------------------------------------------------------------------------------------
-    // Print the attributes        
-    fColorSpace.WriteToNode(pNode);
-
-	// Print AdditionalColorSpaces (physicalDescription child)
-	IXMLFileNodePtr additionalColorSpaceGroupNode;
-	if (VCOM_SUCCEEDED(pNode->CreateChildNode(XML_GDTF_PhysicalDescriptionsColorSpaceCollect, & additionalColorSpaceGroupNode)))
-	{
-		for (GdtfColorSpacePtr colorSpace : fAdditionalColorSpaces)
-		{
-			colorSpace->WriteToNode(additionalColorSpaceGroupNode);
-		}
-	}
-
-	// Print Gamuts (physicalDescription child)
-	IXMLFileNodePtr gamutsGroupNode;
-	if (VCOM_SUCCEEDED(pNode->CreateChildNode(XML_GDTF_PhysicalDescriptionsGamutCollect, & gamutsGroupNode)))
-	{
-		for (GdtfGamutPtr gamut : fGamuts)
-		{
-			gamut->WriteToNode(gamutsGroupNode);
-		}
-	}
-    
-    //------------------------------------------------------------------------------------
-    // Print Filter        
-    IXMLFileNodePtr filtersGroupNode;
-    if (VCOM_SUCCEEDED(pNode->CreateChildNode(XML_GDTF_FiltersCollect, &filtersGroupNode))) 
-    {
-        for (GdtfFilter* filter : fFilters)
-        {
-            filter->WriteToNode(filtersGroupNode);
-        }
-    }
-    
-    // Print Emitters (physicalDescription child)
-	IXMLFileNodePtr emittersGroupNode;
-	if (VCOM_SUCCEEDED(pNode->CreateChildNode(XML_GDTF_PhysicalDescriptionsEmitterCollect, & emittersGroupNode)))
-	{
-		for (GdtfPhysicalEmitterPtr emitter : fEmitters)
-		{
-			emitter->WriteToNode(emittersGroupNode);
-		}
-	}
-		
-	// Print DmxProfiles (physicalDescription child)
-	IXMLFileNodePtr dmxProfGroupNode;
-	if (VCOM_SUCCEEDED(pNode->CreateChildNode(XML_GDTF_DMX_ProfileCollect, &dmxProfGroupNode)))
-	{
-		for (GdtfDMXProfilePtr dmxProfile : fDmxProfiles)
-		{
-			dmxProfile->WriteToNode(dmxProfGroupNode);
-		}
-	}
-		
-	// CRI_Collect (PhysicalDescription child)
-	IXMLFileNodePtr CRI_CollectNode;
-	if (VCOM_SUCCEEDED(pNode->CreateChildNode(XML_GDTF_ColorRenderingIndexCollect, &CRI_CollectNode)))
-	{
-		for (GdtfCRIGroupPtr criGroup : fCRI_Groups)
-		{
-			criGroup->WriteToNode(CRI_CollectNode);
-		}
-		
-	}
-
-	// Print Connectors (physicalDescription child)
-	IXMLFileNodePtr ConnectorNode;
-	if (VCOM_SUCCEEDED(pNode->CreateChildNode(XML_GDTF_ConnectorCollect, &ConnectorNode)))
-	{
-		for (GdtfConnectorPtr connector : fConnectors)
-		{
-			connector->WriteToNode(ConnectorNode);
-		}
-		
-	}
-
-	// Print Properties (physicalDescription child)
-	IXMLFileNodePtr PropertiesNode;
-	if (VCOM_SUCCEEDED(pNode->CreateChildNode(XML_GDTF_PropertiesCollect, &PropertiesNode)))
-	{
-		IXMLFileNodePtr OperatingTemperatureNode;
-		if(VCOM_SUCCEEDED(PropertiesNode->CreateChildNode(XML_GDTF_OperatingTemperatureNodeName, &OperatingTemperatureNode)))
-		{
-			OperatingTemperatureNode->SetNodeAttributeValue(XML_GDTF_OperatingTemperatureLow,	GdtfConverter::ConvertDouble(fOperatingTemperatureLow));
-			OperatingTemperatureNode->SetNodeAttributeValue(XML_GDTF_OperatingTemperatureHigh, GdtfConverter::ConvertDouble(fOperatingTemperatureHigh));
-		}
-
-		IXMLFileNodePtr WeightNode;
-		if(VCOM_SUCCEEDED(PropertiesNode->CreateChildNode(XML_GDTF_WeightNodeName, &WeightNode)))
-		{
-			WeightNode->SetNodeAttributeValue(XML_GDTF_WeightValue,	GdtfConverter::ConvertDouble(fWeight));
-		}
-
-		IXMLFileNodePtr LegHeightNode;
-		if(VCOM_SUCCEEDED(PropertiesNode->CreateChildNode(XML_GDTF_LegHeightNodeName, &LegHeightNode)))
-		{
-			LegHeightNode->SetNodeAttributeValue(XML_GDTF_LegHeightValue,	GdtfConverter::ConvertDouble(fLegHeight));
-		}
-
-	}
-
-}
-
-void SceneData::GdtfPhysicalDescriptions::OnReadFromNode(const IXMLFileNodePtr & pNode)
-{
-	IXMLFileNodePtr colorSpace;
-	if(VCOM_SUCCEEDED(pNode->GetChildNode(XML_GDTF_ColorSpaceNode, & colorSpace)))
-	{
-		fColorSpace.ReadFromNode(colorSpace);
-	}
-
-	// ------------------------------------------------------------------------------------
-	// Read AdditionalColorSpaces (PhysicalDescription Child)
-	GdtfConverter::TraverseNodes(pNode, XML_GDTF_PhysicalDescriptionsColorSpaceCollect, XML_GDTF_ColorSpaceNode, [this] (IXMLFileNodePtr objNode) -> void
-									{
-										if ( CheckAbort() ) return;
-										// Create the object
-										GdtfColorSpacePtr colorSpace = new GdtfColorSpace();
-										 
-										// Read from node
-										colorSpace->ReadFromNode(objNode);
-										 
-										// Add to list
-										fAdditionalColorSpaces.push_back(colorSpace);
-										return;
-									});
-	
-	// Read Gamuts (PhysicalDescription Child)
-	GdtfConverter::TraverseNodes(pNode, XML_GDTF_PhysicalDescriptionsGamutCollect, XML_GDTF_GamutNodeName, [this] (IXMLFileNodePtr objNode) -> void
-									{
-										if ( CheckAbort() ) return;	
-										// Create the object
-										GdtfGamutPtr gamut = new GdtfGamut();
-										 
-										// Read from node
-										gamut->ReadFromNode(objNode);
-										 
-										// Add to list
-										fGamuts.push_back(gamut);
-										return;
-									});
-
-	// Read Filters
-	GdtfConverter::TraverseNodes(pNode, XML_GDTF_FiltersCollect, XML_GDTF_FilterNode, [this] (IXMLFileNodePtr objNode) -> void
-									{
-										if ( CheckAbort() ) return;
-										// Create the object
-										GdtfFilterPtr filter = new GdtfFilter();
-										 
-										// Read from node
-										filter->ReadFromNode(objNode);
-										 
-										// Add to list
-										fFilters.push_back(filter);
-										return;
-									});
-
-    // Read Emitters (PhysicalDescription Child)
-	GdtfConverter::TraverseNodes(pNode, XML_GDTF_PhysicalDescriptionsEmitterCollect, XML_GDTF_EmitterNodeName, [this] (IXMLFileNodePtr objNode) -> void
-									{
-										if ( CheckAbort() ) return;
-										// Create the object
-										GdtfPhysicalEmitterPtr emitter = new GdtfPhysicalEmitter();
-										 
-										// Read from node
-										emitter->ReadFromNode(objNode);
-										 
-										// Add to list
-										fEmitters.push_back(emitter);
-										return;
-									});
-    // Read DmxProfiles (PhysicalDescription Child) 
-    GdtfConverter::TraverseNodes(pNode, XML_GDTF_DMX_ProfileCollect, XML_GDTF_DMX_Profile, [this](IXMLFileNodePtr objNode) -> void
-    {
-		if ( CheckAbort() ) return;
-        // Create the object
-        GdtfDMXProfilePtr dmxProfile = new GdtfDMXProfile();
-
-        // Read from node
-        dmxProfile->ReadFromNode(objNode);
-
-        // Add to list
-        fDmxProfiles.push_back(dmxProfile);
-        return;
-    });
-		
-	// ------------------------------------------------------------------------------------
-    // Read CRIs
-	GdtfConverter::TraverseNodes(pNode, XML_GDTF_ColorRenderingIndexCollect, XML_GDTF_ColorRenderingIndexGroup, [this](IXMLFileNodePtr objNode) -> void
-									{
-										if ( CheckAbort() ) return;
-										GdtfCRIGroupPtr criGroup = new GdtfCRIGroup();
-											
-										// Read from node
-										criGroup->ReadFromNode(objNode);
-											
-										fCRI_Groups.push_back(criGroup);
-										return;
-									});
-	
-	// Read Connectors (PhysicalDescription Child)
-	GdtfConverter::TraverseNodes(pNode, XML_GDTF_ConnectorCollect, XML_GDTF_ConnectorNodeName, [this] (IXMLFileNodePtr objNode) -> void
-									{
-										if ( CheckAbort() ) return;
-										// Create the object
-										GdtfConnectorPtr connector = new GdtfConnector();
-										 
-										// Read from node
-										connector->ReadFromNode(objNode);
-										 
-										// Add to list
-										fConnectors.push_back(connector);
-										return;
-									});
-	
-	// Read Properties (PhysicalDescription Child)
-	
-	IXMLFileNodePtr PropertiesNode;
-	if(VCOM_SUCCEEDED(pNode->GetChildNode(XML_GDTF_PropertiesCollect, & PropertiesNode)))
-	{
-		//OperatingTemperature
-		IXMLFileNodePtr OperatingTemperatureNode;
-		PropertiesNode->GetChildNode(XML_GDTF_OperatingTemperatureNodeName, &OperatingTemperatureNode);
-		if(OperatingTemperatureNode != nullptr)
-		{
-			TXString operatingTemperatureLowStr; OperatingTemperatureNode->GetNodeAttributeValue(XML_GDTF_OperatingTemperatureLow, operatingTemperatureLowStr);
-			GdtfConverter::ConvertDouble(operatingTemperatureLowStr, OperatingTemperatureNode, fOperatingTemperatureLow);
-
-			TXString operatingTemperatureHighStr; OperatingTemperatureNode->GetNodeAttributeValue(XML_GDTF_OperatingTemperatureHigh, operatingTemperatureHighStr);
-			GdtfConverter::ConvertDouble(operatingTemperatureHighStr, OperatingTemperatureNode, fOperatingTemperatureHigh);	
-		}
-
-		//Weight
-		IXMLFileNodePtr WeightNode;
-		PropertiesNode->GetChildNode(XML_GDTF_WeightNodeName, &WeightNode);
-		if(WeightNode != nullptr)
-		{
-			TXString weightStr; WeightNode->GetNodeAttributeValue(XML_GDTF_WeightValue, weightStr);
-			GdtfConverter::ConvertDouble(weightStr, WeightNode, fWeight);	
-		}
-
-		//LegHeight
-		IXMLFileNodePtr LegHeightNode;
-		PropertiesNode->GetChildNode(XML_GDTF_LegHeightNodeName, &LegHeightNode);
-		if(LegHeightNode != nullptr)
-		{
-			TXString legHeightStr; LegHeightNode->GetNodeAttributeValue(XML_GDTF_LegHeightValue, legHeightStr);
-			GdtfConverter::ConvertDouble(legHeightStr, LegHeightNode, fLegHeight);	
-		}
-	}
-	
-}
-
-SceneData::GdtfColorSpace::GdtfColorSpace()
-{
-	fUniqueName = "";
-    fColorSpace = EGdtfColorSpace::sRGB;
-}
-
-SceneData::GdtfColorSpace::GdtfColorSpace(const TXString& name, EGdtfColorSpace colorSpace)
-{
-	fUniqueName = name;
-    fColorSpace = colorSpace;
-}
-
-SceneData::GdtfColorSpace::~GdtfColorSpace()
-{
-}
-
-EGdtfObjectType SceneData::GdtfColorSpace::GetObjectType()
-{
-    return EGdtfObjectType::eGdtfColorSpace;
-}
-
-TXString SceneData::GdtfColorSpace::GetNodeReference()
-{
-	return fUniqueName;
-}
-
-const TXString& SceneData::GdtfColorSpace::GetName() const
-{
-	return fUniqueName;
-}
-
-EGdtfColorSpace SceneData::GdtfColorSpace::GetColorSpace()
-{
-    return fColorSpace;
-}
-
-CCieColor SceneData::GdtfColorSpace::GetRed()
-{
-	CCieColor color = fRed;
-	if(fColorSpace == EGdtfColorSpace::ANSI) 		{ color = CCieColor(0.7347, 0.2653, 100); }
-	if(fColorSpace == EGdtfColorSpace::ProPhoto) 	{ color = CCieColor(0.7347, 0.2653, 100); }
-	if(fColorSpace == EGdtfColorSpace::sRGB) 		{ color = CCieColor(0.6400, 0.3300, 21.26); }
-    return color;
-}
-
-CCieColor SceneData::GdtfColorSpace::GetGreen()
-{
-	CCieColor color = fGreen;
-	if(fColorSpace == EGdtfColorSpace::ANSI) 		{ color = CCieColor(0.1596, 0.8404, 100); }
-	if(fColorSpace == EGdtfColorSpace::ProPhoto) 	{ color = CCieColor(0.1596, 0.8404, 100); }
-	if(fColorSpace == EGdtfColorSpace::sRGB) 		{ color = CCieColor(0.3000, 0.6000, 71.52); }
-    return color;
-}
-
-CCieColor SceneData::GdtfColorSpace::GetBlue()
-{
-	CCieColor color = fBlue;
-	if(fColorSpace == EGdtfColorSpace::ANSI) 		{ color = CCieColor(0.0366, 0.001, 100); }
-	if(fColorSpace == EGdtfColorSpace::ProPhoto) 	{ color = CCieColor(0.0366, 0.0001, 100); }
-	if(fColorSpace == EGdtfColorSpace::sRGB) 		{ color = CCieColor(0.1500, 0.0600, 7.22); }
-    return color;
-}
-
-CCieColor SceneData::GdtfColorSpace::GetWhite()
-{
-	CCieColor color = fWhitePoint;
-	if(fColorSpace == EGdtfColorSpace::ANSI) 		{ color = CCieColor(0.4254, 0.4044, 100); }
-	if(fColorSpace == EGdtfColorSpace::ProPhoto) 	{ color = CCieColor(0.3457, 0.3585, 100); }
-	if(fColorSpace == EGdtfColorSpace::sRGB) 		{ color = CCieColor(0.3127, 0.3290, 100); }
-    return color;
-}
-
-void SceneData::GdtfColorSpace::SetName(const TXString& name)
-{
-	fUniqueName = name;
-}
-
-void SceneData::GdtfColorSpace::SetColorSpace(EGdtfColorSpace val)
-{
-    fColorSpace = val;
-}
-
-void SceneData::GdtfColorSpace::SetRed(CCieColor val)
-{
-    fRed = val;
-}
-
-void SceneData::GdtfColorSpace::SetGreen(CCieColor val)
-{
-    fGreen = val;
-}
-
-void SceneData::GdtfColorSpace::SetBlue(CCieColor val)
-{
-    fBlue = val;
-}
-
-void SceneData::GdtfColorSpace::SetWhite(CCieColor val)
-{
-    fWhitePoint = val;
-}
-
-TXString SceneData::GdtfColorSpace::GetNodeName()
-{
-    return XML_GDTF_ColorSpaceNode;
-}
-
-void SceneData::GdtfColorSpace::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-    //------------------------------------------------------------------------------------
-    // Call the parent
-    GdtfObject::OnPrintToFile(pNode);
-
-    //------------------------------------------------------------------------------------
-    // Print the attributes
-	pNode->SetNodeAttributeValue(XML_GDTF_ColorSpace_Name, fUniqueName);     
-    pNode->SetNodeAttributeValue(XML_GDTF_ColorSpace_Mode, GdtfConverter::ConvertEGdtfColorSpace(fColorSpace) );
-    
-    if (fColorSpace == EGdtfColorSpace::Custom)
-    {
-        pNode->SetNodeAttributeValue(XML_GDTF_ColorSpace_Red,        GdtfConverter::ConvertColor(fRed) );
-        pNode->SetNodeAttributeValue(XML_GDTF_ColorSpace_Green,      GdtfConverter::ConvertColor(fGreen) );
-        pNode->SetNodeAttributeValue(XML_GDTF_ColorSpace_Blue,	     GdtfConverter::ConvertColor(fBlue) );
-        pNode->SetNodeAttributeValue(XML_GDTF_ColorSpace_WhitePoint, GdtfConverter::ConvertColor(fWhitePoint) );
-    }
-}
-
-void SceneData::GdtfColorSpace::OnReadFromNode(const IXMLFileNodePtr & pNode)
-{
-    //------------------------------------------------------------------------------------
-    // Call the parent
-    GdtfObject::OnReadFromNode(pNode);
-
-    //------------------------------------------------------------------------------------
-    // Get the attributes
-	pNode->GetNodeAttributeValue(XML_GDTF_ColorSpace_Name, fUniqueName);
-
-    TXString colorSpaceStr; pNode->GetNodeAttributeValue(XML_GDTF_ColorSpace_Mode, colorSpaceStr);
-    GdtfConverter::ConvertEGdtfColorSpace( colorSpaceStr, pNode, fColorSpace);
-    
-    if (fColorSpace == EGdtfColorSpace::Custom)
-    {
-		TXString value_red;     pNode->GetNodeAttributeValue(XML_GDTF_ColorSpace_Red,     	 value_red );  	GdtfConverter::ConvertColor(value_red   , pNode, fRed);
-		TXString value_green;   pNode->GetNodeAttributeValue(XML_GDTF_ColorSpace_Green,      value_green ); GdtfConverter::ConvertColor(value_green , pNode, fGreen);
-		TXString value_blue;    pNode->GetNodeAttributeValue(XML_GDTF_ColorSpace_Blue,       value_blue );  GdtfConverter::ConvertColor(value_blue  , pNode, fBlue);
-		TXString value_white;   pNode->GetNodeAttributeValue(XML_GDTF_ColorSpace_WhitePoint, value_white ); GdtfConverter::ConvertColor(value_white , pNode, fWhitePoint);
-    }
-}
-
-void SceneData::GdtfColorSpace::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	optional.push_back(XML_GDTF_ColorSpace_Red);
-	optional.push_back(XML_GDTF_ColorSpace_Green);
-	optional.push_back(XML_GDTF_ColorSpace_Blue);
-	optional.push_back(XML_GDTF_ColorSpace_WhitePoint);
-	optional.push_back(XML_GDTF_ColorSpace_Mode);
-	optional.push_back(XML_GDTF_ColorSpace_Name);
-
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-SceneData::GdtfFilter::GdtfFilter()
-{
-    fName = "";
-}
-
-SceneData::GdtfFilter::GdtfFilter(const TXString & name, const CCieColor &col)
-{
-    fName = name;
-    fColor = col;
-}
-
-SceneData::GdtfFilter::~GdtfFilter()
-{
-    for (GdtfMeasurement* o : fMeasurementsArray) { delete o; };
-}
-
-EGdtfObjectType SceneData::GdtfFilter::GetObjectType()
-{
-    return EGdtfObjectType::eGdtfFilter;
-}
-
-const TXString & SceneData::GdtfFilter::GetName()
-{
-    return fName;
-}
-
-CCieColor SceneData::GdtfFilter::GetColor()
-{
-    return fColor;
-}
-
-const TGdtfMeasurementArray & SceneData::GdtfFilter::GetMeasurementsArray()
-{
-    return fMeasurementsArray;
-}
-
-void SceneData::GdtfFilter::SetName(const TXString & name)
-{
-    fName = name;
-}
-
-void SceneData::GdtfFilter::SetColor(CCieColor val)
-{
-    fColor = val;
-}
-
-GdtfMeasurement* SceneData::GdtfFilter::CreateMeasurement()
-{
-    GdtfMeasurement* m= new GdtfMeasurement(true);    
-    fMeasurementsArray.push_back(m);
-
-    return m;
-}
-
-TXString SceneData::GdtfFilter::GetNodeName()
-{
-    return XML_GDTF_FilterNode;
-}
-
-void SceneData::GdtfFilter::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-    //------------------------------------------------------------------------------------
-    // Call the parent
-    GdtfObject::OnPrintToFile(pNode);
-
-    //------------------------------------------------------------------------------------
-    // Print the attributes
-    pNode->SetNodeAttributeValue(XML_GDTF_Filter_Name, fName);
-    pNode->SetNodeAttributeValue(XML_GDTF_FilterColor, GdtfConverter::ConvertColor(fColor));
-
-    //------------------------------------------------------------------------------------
-    // Print the childs
-    for (GdtfMeasurement* mes : fMeasurementsArray)
-    {
-         mes->WriteToNode(pNode);
-    }
-}
-
-void SceneData::GdtfFilter::OnReadFromNode(const IXMLFileNodePtr & pNode)
-{
-    //------------------------------------------------------------------------------------
-    // Call the parent
-    GdtfObject::OnReadFromNode(pNode);
-
-    //------------------------------------------------------------------------------------
-    // Get the attributes	
-    pNode->GetNodeAttributeValue(XML_GDTF_Filter_Name, fName);    
-    
-	// ------------------------------------------------------------------------------------
-	// Get Color
-	TXString color;
-    if (VCOM_SUCCEEDED(pNode->GetNodeAttributeValue(XML_GDTF_FilterColor, color)))
-    {
-        if (color.IsEmpty() == false)
-        {
-            GdtfConverter::ConvertColor(color, pNode, fColor);
-        }
-    }	
-
-    // Read the childs
-    GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_MeasurementNodeName, [this](IXMLFileNodePtr objNode) -> void
-    {
-		if ( CheckAbort() ) return;
-        GdtfMeasurement* measurePt = new GdtfMeasurement(true);
-
-        measurePt->ReadFromNode(objNode);
-
-        fMeasurementsArray.push_back(measurePt);
-        return;
-    });
-}
-
-TXString SceneData::GdtfFilter::GetNodeReference() 
-{
-    return GetName();
-}
-
-SceneData::GdtfMeasurement::GdtfMeasurement(bool forFilter)
-{
-    fPhysical 				= 0;
-    fLuminousIntensity 		= 0;
-    fTransmission 			= 0;
-    fInterpolationTo 		= EGdtfInterpolationTo::Linear;
-	fIsForFilter 			= forFilter;
-}
-
-SceneData::GdtfMeasurement::~GdtfMeasurement()
-{
-    for (GdtfMeasurementPoint* o : fMeasurementPoints) { delete o; };
-}
-
-EGdtfObjectType SceneData::GdtfMeasurement::GetObjectType()
-{
-    return EGdtfObjectType::eGdtfMeasurement;
-}
-
-double SceneData::GdtfMeasurement::GetPhysical()
-{
-    return fPhysical;
-}
-
-double SceneData::GdtfMeasurement::GetLuminousIntensity()
-{
-    return fLuminousIntensity;
-}
-
-double SceneData::GdtfMeasurement::GetTransmission()
-{
-    return fTransmission;
-}
-
-EGdtfInterpolationTo SceneData::GdtfMeasurement::GetInterpolationTo()
-{
-    return fInterpolationTo;
-}
-
-const TGdtfMeasurementPointArray & SceneData::GdtfMeasurement::GetMeasurementPointsArray()
-{
-    return fMeasurementPoints;
-}
-
-void SceneData::GdtfMeasurement::SetPhysical(double val)
-{
-    fPhysical = val;
-}
-
-void SceneData::GdtfMeasurement::SetLuminousIntensity(double val)
-{
-    fLuminousIntensity = val;
-}
-
-void SceneData::GdtfMeasurement::SetTransmission(double val)
-{
-    fTransmission = val;
-}
-
-void SceneData::GdtfMeasurement::SetInterpolationTo(EGdtfInterpolationTo val)
-{
-    fInterpolationTo = val;
-}
-
-GdtfMeasurementPoint* SceneData::GdtfMeasurement::CreateMeasurementPoint()
-{
-    GdtfMeasurementPointPtr mP = new GdtfMeasurementPoint();
-    fMeasurementPoints.push_back(mP);
-	return mP;
-}
-
-TXString SceneData::GdtfMeasurement::GetNodeName()
-{
-    return XML_GDTF_MeasurementNodeName;
-}
-
-void SceneData::GdtfMeasurement::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-    //------------------------------------------------------------------------------------
-    // Call the parent
-    GdtfObject::OnPrintToFile(pNode);
-
-    //------------------------------------------------------------------------------------
-    // Print the attributes 
-    pNode->SetNodeAttributeValue(XML_GDTF_MeasurementPhysical,          GdtfConverter::ConvertDouble(fPhysical) );
-
-	if(fIsForFilter) { pNode->SetNodeAttributeValue(XML_GDTF_MeasurementTransmission,      GdtfConverter::ConvertDouble(fTransmission) ); }
-	else			 { pNode->SetNodeAttributeValue(XML_GDTF_MeasurementLuminousIntensity, GdtfConverter::ConvertDouble(fLuminousIntensity) ); }
-
-    
-    pNode->SetNodeAttributeValue(XML_GDTF_MeasurementInterpolationTo,   GdtfConverter::ConvertEGdtfInterpolationTo(fInterpolationTo) );
-    //------------------------------------------------------------------------------------
-    // Print the childs
-    for (GdtfMeasurementPoint* mesPt: fMeasurementPoints)
-    {
-        mesPt->WriteToNode(pNode);
-    }
-}
-
-void SceneData::GdtfMeasurement::OnReadFromNode(const IXMLFileNodePtr & pNode)
-{
-    //------------------------------------------------------------------------------------
-    // Call the parent
-    GdtfObject::OnReadFromNode(pNode);
-
-    //------------------------------------------------------------------------------------
-    // Get the attributes	
-    TXString   physStr; pNode->GetNodeAttributeValue(XML_GDTF_MeasurementPhysical, physStr);
-    GdtfConverter::ConvertDouble( physStr, pNode, fPhysical);
-
-    TXString   lumiStr; pNode->GetNodeAttributeValue(XML_GDTF_MeasurementLuminousIntensity,  lumiStr);
-    GdtfConverter::ConvertDouble( lumiStr, pNode, fLuminousIntensity);
-
-	TXString   transmStr; pNode->GetNodeAttributeValue(XML_GDTF_MeasurementTransmission,  transmStr);    
-	GdtfConverter::ConvertDouble( transmStr, pNode, fTransmission);
-
-	TXString   interpolStr; pNode->GetNodeAttributeValue(XML_GDTF_MeasurementInterpolationTo, interpolStr);
-	GdtfConverter::ConvertEGdtfInterpolationTo(interpolStr, pNode, fInterpolationTo);
-
-    // Read the childs
-    GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_MeasurementPointNode, [this](IXMLFileNodePtr objNode) -> void
-    {
-		if ( CheckAbort() ) return;
-        GdtfMeasurementPoint* measurePt = new GdtfMeasurementPoint();
-
-        measurePt->ReadFromNode(objNode);
-
-        fMeasurementPoints.push_back(measurePt);
-        return;
-    });
-}
-
-//------------------------------------------------------------------------------------
-// GdtfConnector
-GdtfConnector::GdtfConnector()
-{
-	fDmxBreak 	= 0;
-    fGender 	= 0;
-    fLength 	= 0.0;
-}
-
-GdtfConnector::GdtfConnector(const TXString& name, const TXString& type)
-{
-	fName		= name;
-	fType		= type;
-	fDmxBreak 	= 0;
-    fGender 	= 0;
-    fLength 	= 0.0;
-}
-
-GdtfConnector::~GdtfConnector()
-{
-}
-
-void GdtfConnector::SetName(const TXString &name)
-{
-	fName = name;
-}
-
-void GdtfConnector::SetType(const TXString &type)
-{
-	fType = type;
-}
-
-void SceneData::GdtfConnector::SetDmxBreak(Uint32 dmxBreak)
-{
-    fDmxBreak = dmxBreak;
-}
-
-void SceneData::GdtfConnector::SetGender(Sint32 gender)
-{
-    fGender = gender;
-}
-
-void SceneData::GdtfConnector::SetLength(double length)
-{
-    fLength = length;
-}
-
-void GdtfConnector::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnPrintToFile(pNode);
-	
-	// ------------------------------------------------------------------------------------
-	// Print node attributes
-	pNode->SetNodeAttributeValue(XML_GDTF_ConnectorName,		fName);
-	pNode->SetNodeAttributeValue(XML_GDTF_ConnectorType,		fType);
-	pNode->SetNodeAttributeValue(XML_GDTF_ConnectorDmxBreak, 	GdtfConverter::ConvertInteger(fDmxBreak));
-	pNode->SetNodeAttributeValue(XML_GDTF_ConnectorGender,		GdtfConverter::ConvertInteger(fGender));
-    pNode->SetNodeAttributeValue(XML_GDTF_ConnectorLength, 		GdtfConverter::ConvertDouble(fLength));
-}
-
-void GdtfConnector::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnReadFromNode(pNode);
-	
-	// ------------------------------------------------------------------------------------
-	// Read node attributes
-	pNode->GetNodeAttributeValue(XML_GDTF_ConnectorName, fName);
-	pNode->GetNodeAttributeValue(XML_GDTF_ConnectorType, fType);
-
-    TXString dmxBreakStr;   pNode->GetNodeAttributeValue(XML_GDTF_ConnectorDmxBreak, dmxBreakStr);		
-    GdtfConverter::ConvertInteger(dmxBreakStr, pNode, fDmxBreak);
-	TXString genderStr;   pNode->GetNodeAttributeValue(XML_GDTF_ConnectorGender, genderStr);		
-    GdtfConverter::ConvertInteger(genderStr, pNode, fGender);
-	TXString lengthStr;   pNode->GetNodeAttributeValue(XML_GDTF_ConnectorLength, lengthStr);		
-    GdtfConverter::ConvertDouble(lengthStr, pNode, fLength);
-}
-
-void GdtfConnector::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_ConnectorName);
-	needed.push_back(XML_GDTF_ConnectorType);
-	    
-	optional.push_back(XML_GDTF_ConnectorDmxBreak);
-	optional.push_back(XML_GDTF_ConnectorGender);
-    optional.push_back(XML_GDTF_ConnectorLength);
-
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfConnector::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfConnector;
-}
-
-TXString GdtfConnector::GetNodeReference() 
-{
-    return GetName();
-}
-
-TXString GdtfConnector::GetNodeName()
-{
-	return XML_GDTF_ConnectorNodeName;
-}
-
-const TXString& GdtfConnector::GetName() const
-{
-	return fName;
-}
-
-const TXString& GdtfConnector::GetType() const
-{
-	return fType;
-}
-
-Uint32 GdtfConnector::GetDmxBreak()
-{
-	return fDmxBreak;
-}
-
-Sint32 GdtfConnector::GetGender()
-{
-    return fGender;
-}
-
-double GdtfConnector::GetLength()
-{
-    return fLength;
-}
+//-----------------------------------------------------------------------------
+//----- Copyright deersoft 2015 - 2017 www.deersoft.de
+//-----------------------------------------------------------------------------
+#include "GDTFManager.h"
+#include "SceneDataExchange.h"
+#include "XmlFileHelper.h"
+#include "HashManager.h"
+#include <iostream>
+#include "Utility.h"
+#include "FeedbackDispatcher.h"
+#include "Wrapper/ZIPFileImpl.h"
+
+using namespace SceneData;
+
+static std::function<void( bool& )> fAbortCallback;
+static std::mutex fAbortCallbackMutex;
+
+//------------------------------------------------------------------------------------
+// GdtfObject
+GdtfObject::GdtfObject()
+{
+	fBindValue = nullptr;
+}
+
+GdtfObject::~GdtfObject()
+{
+}
+
+void GdtfObject::WriteToNode(IXMLFileNodePtr pContainerNode)
+{
+	// Create the new node
+	IXMLFileNodePtr pNode;
+	if ( VCOM_SUCCEEDED( pContainerNode->CreateChildNode( this->GetNodeName(), & pNode ) ) )
+	{
+		// Store Node
+		fNode = pNode;
+		//-------------------------------------------------------------------------------------
+		// Now Print Everything
+		this->OnPrintToFile(pNode);
+	}
+}
+
+void GdtfObject::ReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	// Store Node
+	fNode = pNode;
+
+	TXString nodeName;
+	pNode->GetNodeName(nodeName);
+	ASSERTN(kEveryone, nodeName == GetNodeName());
+	
+	this->OnReadFromNode(pNode);
+	this->OnErrorCheck(pNode);
+}
+
+void GdtfObject::GetNode(IXMLFileNodePtr& pNode)
+{
+	pNode = fNode;
+}
+
+void GdtfObject::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	// Nothing to do here
+}
+
+void GdtfObject::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	// Nothing to read here
+}
+
+void GdtfObject::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	// Nothing to check here
+}
+
+void GdtfObject::SetBind(void* ptr)
+{
+	fBindValue = ptr;
+}
+
+void* GdtfObject::GetBind()
+{
+	return fBindValue;
+}
+
+void GdtfObject::SetAbortCallback( const std::function<void( bool& )>& cb )
+{
+	std::lock_guard<std::mutex> lock(fAbortCallbackMutex);
+	fAbortCallback = cb;
+}
+
+bool GdtfObject::CheckAbort()
+{
+	std::lock_guard<std::mutex> lock(fAbortCallbackMutex);
+	if (fAbortCallback)
+	{
+		bool abort = false;
+		fAbortCallback(abort);
+		if ( abort )
+		{
+			fAbortReading = abort;
+		}
+		return abort;
+	}
+	return false;
+}
+
+TXString GdtfObject::GetNodeReference()
+{
+	// Nothing to read here
+	DSTOP((kEveryone, "This should be never be executed. You call GetNodeReference on an object that doesn't support this."));
+	return "";
+}
+
+//------------------------------------------------------------------------------------
+// Attributes
+GdtfActivationGroup::GdtfActivationGroup(const TXString& name)
+{
+    fName = name;
+}
+
+GdtfActivationGroup::GdtfActivationGroup()
+{
+
+}
+
+GdtfActivationGroup::~GdtfActivationGroup()
+{
+    
+}
+
+void GdtfActivationGroup::SetName(const TXString & name)
+{
+	fName = name;
+}
+
+void GdtfActivationGroup::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnPrintToFile(pNode);
+	
+	
+	//------------------------------------------------------------------------------------
+	// Print the attributes
+	pNode->SetNodeAttributeValue(XML_GDTF_ActivationGroupName,				fName);
+
+}
+
+void GdtfActivationGroup::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnReadFromNode(pNode);
+	
+	
+	//------------------------------------------------------------------------------------
+	// Get the attributes
+	pNode->GetNodeAttributeValue(XML_GDTF_AttributeName,			fName);
+
+}
+
+void GdtfActivationGroup::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_ActivationGroupName);
+
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfActivationGroup::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfActivationGroup;
+}
+
+TXString GdtfActivationGroup::GetNodeName()
+{
+	return XML_GDTF_ActivationGroupNode;
+}
+
+const TXString& GdtfActivationGroup::GetName() const
+{
+	return fName;
+}
+
+const TGdtfAttributeArray& GdtfActivationGroup::GetLinkedAttributes() const
+{
+	return fLinkedAttributes;
+}
+
+void GdtfActivationGroup::AddLinkedAttribute(GdtfAttribute* attr)
+{
+	fLinkedAttributes.push_back(attr);
+}
+
+TXString GdtfActivationGroup::GetNodeReference()
+{
+	return GetName();
+}
+
+
+//------------------------------------------------------------------------------------
+// GdtfFeature
+GdtfFeature::GdtfFeature(GdtfFeatureGroup* parent)
+{    
+	ASSERTN (kEveryone, parent);	
+	fParent = parent;
+}
+
+GdtfFeature::~GdtfFeature()
+{
+}
+
+void GdtfFeature::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnPrintToFile(pNode);
+	
+	
+	//------------------------------------------------------------------------------------
+	// Print the attributes
+	pNode->SetNodeAttributeValue(XML_GDTF_FeatureName,				fName);
+
+}
+
+void GdtfFeature::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnReadFromNode(pNode);
+	
+	
+	//------------------------------------------------------------------------------------
+	// Get the attributes
+	pNode->GetNodeAttributeValue(XML_GDTF_FeatureName,			fName);
+
+}
+
+void GdtfFeature::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_FeatureName);
+	
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfFeature::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfFeature;
+}
+
+TXString GdtfFeature::GetNodeName()
+{
+	return XML_GDTF_FeatureNode;
+}
+
+const TXString& GdtfFeature::GetName() const
+{
+	return fName;
+}
+
+GdtfFeatureGroup* GdtfFeature::GetFeatureGroup() const
+{
+	return fParent;
+}
+
+const TGdtfAttributeArray& GdtfFeature::GetLinkedAttributes() const
+{
+	return fLinkedAttributes;
+}
+
+void GdtfFeature::AddLinkedAttribute(GdtfAttribute* attr)
+{
+	fLinkedAttributes.push_back(attr);
+}
+
+
+void GdtfFeature::SetName(const TXString & name)
+{
+	fName = name;
+}
+
+TXString GdtfFeature::GetNodeReference()
+{
+	TXString ref = fParent->GetName() + "." + GetName();
+	return ref;
+}
+
+//------------------------------------------------------------------------------------
+// Attributes
+GdtfFeatureGroup::GdtfFeatureGroup()
+{
+	
+}
+
+GdtfFeatureGroup::GdtfFeatureGroup(const TXString& name, const TXString& prettyName)
+{
+	fName = name;
+	fPrettyName = prettyName;
+}
+
+GdtfFeatureGroup::~GdtfFeatureGroup()
+{
+	for (GdtfFeaturePtr pFeature : fFeatures) { delete pFeature; }
+}
+
+void GdtfFeatureGroup::SetName(const TXString& name)
+{
+	fName = name;
+}
+
+void GdtfFeatureGroup::SetPrettyName(const TXString& prettyName)
+{
+	fPrettyName = prettyName;
+}
+
+void GdtfFeatureGroup::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnPrintToFile(pNode);
+	
+	
+	//------------------------------------------------------------------------------------
+	// Print the attributes
+	pNode->SetNodeAttributeValue(XML_GDTF_FeatureGroupName,					fName);
+	pNode->SetNodeAttributeValue(XML_GDTF_FeatureGroupPrettyName,			fPrettyName);
+	
+	//------------------------------------------------------------------------------------
+	// Print the childs
+	for (GdtfFeature* feature : fFeatures)
+	{
+		feature->WriteToNode(pNode);
+	}	
+}
+
+void GdtfFeatureGroup::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnReadFromNode(pNode);
+	
+	
+	//------------------------------------------------------------------------------------
+	// Get the attributes
+	pNode->GetNodeAttributeValue(XML_GDTF_FeatureGroupName,					fName);
+	pNode->GetNodeAttributeValue(XML_GDTF_FeatureGroupPrettyName,			fPrettyName);
+	
+
+	
+	//------------------------------------------------------------------------------------
+	// Read the childs
+	GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_FeatureNode, [this] (IXMLFileNodePtr objNode) -> void
+								 { 
+									 if ( CheckAbort() ) return;
+									 GdtfFeaturePtr feature = new GdtfFeature(this);
+									 
+									 feature->ReadFromNode(objNode);
+									 
+									 fFeatures.push_back(feature);
+									 return;
+								 });
+	
+}
+
+void GdtfFeatureGroup::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_FeatureGroupName);
+	needed.push_back(XML_GDTF_FeatureGroupPrettyName);
+	
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfFeatureGroup::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfFeatureGroup;
+}
+TXString GdtfFeatureGroup::GetNodeName()
+{
+	return XML_GDTF_FeatureGroupNode;
+}
+
+GdtfFeature* GdtfFeatureGroup::AddFeature(const TXString& name)
+{
+	GdtfFeature* feature = new GdtfFeature(this);
+	feature->SetName(name);
+	fFeatures.push_back(feature);
+	return feature;
+}
+
+
+const TXString& GdtfFeatureGroup::GetName() const
+{
+	return fName;
+}
+
+const TXString& GdtfFeatureGroup::GetPrettyName() const
+{
+	return fPrettyName;
+}
+
+const TGdtfFeatureArray& GdtfFeatureGroup::GetFeatureArray()
+{
+	return fFeatures;
+}
+
+//------------------------------------------------------------------------------------
+// GdtfSubPhysicalUnit
+GdtfSubPhysicalUnit::GdtfSubPhysicalUnit()
+{
+	fType = EGdtfSubPhysicalUnitType::PlacementOffset;
+	fPhysicalUnit = EGdtfPhysicalUnit::None;
+	fPhysicalFrom = 0.0;
+	fPhysicalTo = 0.0;
+}
+
+GdtfSubPhysicalUnit::GdtfSubPhysicalUnit(EGdtfSubPhysicalUnitType type)
+{
+	fType 			= type;
+	fPhysicalUnit 	= GdtfConverter::GetUnitFromSubPhysical(type);
+	fPhysicalFrom = 0.0;
+	fPhysicalTo = 0.0;
+}
+
+GdtfSubPhysicalUnit::~GdtfSubPhysicalUnit()
+{
+}
+
+EGdtfSubPhysicalUnitType GdtfSubPhysicalUnit::GetType() const
+{
+	return fType;
+}
+
+EGdtfPhysicalUnit GdtfSubPhysicalUnit::GetPhysicalUnit() const
+{
+	return fPhysicalUnit;
+}
+
+double GdtfSubPhysicalUnit::GetPhysicalFrom() const
+{
+	return fPhysicalFrom;
+}
+
+double GdtfSubPhysicalUnit::GetPhysicalTo() const
+{
+	return fPhysicalTo;
+}
+
+void GdtfSubPhysicalUnit::SetType(const EGdtfSubPhysicalUnitType& type)
+{
+	fType 			= type;
+	fPhysicalUnit 	= GdtfConverter::GetUnitFromSubPhysical(type);
+}
+
+void GdtfSubPhysicalUnit::SetPhysicalUnit(const EGdtfPhysicalUnit& physicalUnit)
+{
+	fPhysicalUnit = physicalUnit;
+}
+
+void GdtfSubPhysicalUnit::SetPhysicalFrom(double physicalFrom)
+{
+	fPhysicalFrom = physicalFrom;
+}
+
+void GdtfSubPhysicalUnit::SetPhysicalTo(double physicalTo)
+{
+	fPhysicalTo = physicalTo;
+}
+
+void GdtfSubPhysicalUnit::OnPrintToFile(IXMLFileNodePtr pNode) 
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnPrintToFile(pNode);
+
+	pNode->SetNodeAttributeValue(XML_GDTF_SubPhysicalUnitType,			GdtfConverter::ConvertSubPhysicalUnitTypeEnum(fType));
+	pNode->SetNodeAttributeValue(XML_GDTF_SubPhysicalUnitPhysicalUnit,	GdtfConverter::ConvertPhysicalUnitEnum(fPhysicalUnit));
+	pNode->SetNodeAttributeValue(XML_GDTF_SubPhysicalUnitPhysicalFrom,	GdtfConverter::ConvertDouble(fPhysicalFrom));
+	pNode->SetNodeAttributeValue(XML_GDTF_SubPhysicalUnitPhysicalTo,	GdtfConverter::ConvertDouble(fPhysicalTo));
+}
+
+void GdtfSubPhysicalUnit::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnReadFromNode(pNode);
+
+	TXString type;			pNode->GetNodeAttributeValue(XML_GDTF_SubPhysicalUnitType,	type);					GdtfConverter::ConvertSubPhysicalUnitTypeEnum(type, 	pNode,	fType);
+	TXString physicalUnit;	pNode->GetNodeAttributeValue(XML_GDTF_SubPhysicalUnitPhysicalUnit,	physicalUnit);	GdtfConverter::ConvertPhysicalUnitEnum(physicalUnit, 	pNode,	fPhysicalUnit);
+	TXString physicalFrom;	pNode->GetNodeAttributeValue(XML_GDTF_SubPhysicalUnitPhysicalFrom,	physicalFrom);	GdtfConverter::ConvertDouble(physicalFrom, 	pNode,	fPhysicalFrom);
+	TXString physicalTo;	pNode->GetNodeAttributeValue(XML_GDTF_SubPhysicalUnitPhysicalTo,	physicalTo);	GdtfConverter::ConvertDouble(physicalTo, 	pNode,	fPhysicalTo);
+}
+
+void GdtfSubPhysicalUnit::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_SubPhysicalUnitType);
+	needed.push_back(XML_GDTF_SubPhysicalUnitPhysicalUnit);
+	optional.push_back(XML_GDTF_SubPhysicalUnitPhysicalFrom);
+	optional.push_back(XML_GDTF_SubPhysicalUnitPhysicalTo);
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfSubPhysicalUnit::GetObjectType() 
+{
+	return EGdtfObjectType::eGdtfSubPhysicalUnit;
+}
+
+TXString GdtfSubPhysicalUnit::GetNodeReference() 
+{
+	return GdtfConverter::ConvertSubPhysicalUnitTypeEnum(fType);
+}
+
+TXString GdtfSubPhysicalUnit::GetNodeName()
+{
+	return XML_GDTF_SubPhysicalUnitNodeName;
+}
+
+//------------------------------------------------------------------------------------
+// Attributes
+GdtfAttribute::GdtfAttribute()
+{
+	fActivationGroup	= nullptr;
+	fFeature            = nullptr;
+    fMainAttribute      = nullptr;
+    fPhysicalUnit       = EGdtfPhysicalUnit::None;
+	fHasColor 			= false;
+
+}
+
+GdtfAttribute::GdtfAttribute(const TXString& name, const TXString& prettyName)
+{
+	fName				= name;
+	fPrettyName			= prettyName;
+	fActivationGroup	= nullptr;
+	fFeature            = nullptr;    
+    fMainAttribute      = nullptr;
+    fPhysicalUnit       = EGdtfPhysicalUnit::None;
+	fHasColor 			= false;
+}
+
+GdtfAttribute::~GdtfAttribute()
+{
+	for(GdtfSubPhysicalUnitPtr subPhysicalUnit : fSubPhysicalUnits) { delete subPhysicalUnit; }
+}
+
+void GdtfAttribute::SetName(const TXString &name)
+{
+	fName = name;
+}
+
+void GdtfAttribute::SetPrettyName(const TXString &name)
+{
+	fPrettyName = name;
+}
+
+void GdtfAttribute::SetActivationGroup(GdtfActivationGroupPtr ptr)
+{
+	ASSERTN(kEveryone, fActivationGroup == nullptr);
+	fActivationGroup = ptr;
+	
+	ASSERTN(kEveryone, ptr != nullptr);
+	if (ptr) { ptr->AddLinkedAttribute(this); }
+}
+
+void SceneData::GdtfAttribute::SetMainAttribute(GdtfAttribute * attr)
+{
+    fMainAttribute = attr;
+}
+
+void SceneData::GdtfAttribute::SetPhysicalUnit(EGdtfPhysicalUnit unit)
+{
+    fPhysicalUnit = unit;
+}
+
+void SceneData::GdtfAttribute::SetColor(const CCieColor & col)
+{
+	fHasColor = true;
+    fColor = col;
+}
+
+GdtfSubPhysicalUnitPtr GdtfAttribute::CreateSubPhysicalUnit(EGdtfSubPhysicalUnitType type)
+{
+	GdtfSubPhysicalUnitPtr subPhysicalUnit = new GdtfSubPhysicalUnit(type);
+    fSubPhysicalUnits.push_back(subPhysicalUnit);
+	return subPhysicalUnit;
+}
+
+void GdtfAttribute::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnPrintToFile(pNode);
+	
+	ASSERTN(kEveryone, fFeature);
+
+	//------------------------------------------------------------------------------------
+	// Print the attributes
+	pNode->SetNodeAttributeValue(XML_GDTF_AttributeName,				fName);
+	pNode->SetNodeAttributeValue(XML_GDTF_AttributePrettyName,			fPrettyName);
+	if (fActivationGroup)	{ pNode->SetNodeAttributeValue(XML_GDTF_AttributeActGroup,	fActivationGroup->GetNodeReference()); }
+	if (fFeature)			{ pNode->SetNodeAttributeValue(XML_GDTF_AttributeFeature,	fFeature->GetNodeReference() );	}	
+    if (fMainAttribute)     { pNode->SetNodeAttributeValue(XML_GDTF_AttributefMainAttribute, fMainAttribute->GetNodeReference()); }
+	if(fHasColor) 			{ pNode->SetNodeAttributeValue(XML_GDTF_AttributeColor, GdtfConverter::ConvertColor(fColor)); }
+
+    pNode->SetNodeAttributeValue(XML_GDTF_AttributePhysicalUnit, GdtfConverter::ConvertPhysicalUnitEnum(fPhysicalUnit));
+
+	for(GdtfSubPhysicalUnitPtr subPhysicalUnit : fSubPhysicalUnits)
+	{
+		subPhysicalUnit->WriteToNode(pNode);
+	}
+	
+}
+
+void GdtfAttribute::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{    
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnReadFromNode(pNode);
+	
+	
+	//------------------------------------------------------------------------------------
+	// Get the attributes
+	pNode->GetNodeAttributeValue(XML_GDTF_AttributeName,			fName);
+	pNode->GetNodeAttributeValue(XML_GDTF_AttributePrettyName,		fPrettyName);
+	
+	pNode->GetNodeAttributeValue(XML_GDTF_AttributeActGroup, fUnresolvedActGroup);
+	pNode->GetNodeAttributeValue(XML_GDTF_AttributeFeature, fUnresolvedFeature);   
+    pNode->GetNodeAttributeValue(XML_GDTF_AttributefMainAttribute, fUnresolvedMainAttrib);
+    TXString physicalUnitStr; pNode->GetNodeAttributeValue(XML_GDTF_AttributePhysicalUnit, physicalUnitStr); 	GdtfConverter::ConvertPhysicalUnitEnum(physicalUnitStr, pNode, fPhysicalUnit);
+
+	TXString colorStr; 
+	if(VCOM_SUCCEEDED(pNode->GetNodeAttributeValue(XML_GDTF_AttributeColor, colorStr)))
+	{
+		GdtfConverter::ConvertColor(colorStr, pNode, fColor);
+		fHasColor = true;
+	}
+
+	GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_SubPhysicalUnitNodeName, [this] (IXMLFileNodePtr objNode) -> void
+								 {
+									if ( CheckAbort() ) return;
+									 // Create the object
+									 GdtfSubPhysicalUnitPtr subPhysicalUnit = new GdtfSubPhysicalUnit();
+									 
+									 // Read from node
+									 subPhysicalUnit->ReadFromNode(objNode);
+									 
+									 // Add to list
+									 fSubPhysicalUnits.push_back(subPhysicalUnit);
+									 return;
+								 });
+}
+
+void GdtfAttribute::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_AttributeName);
+	needed.push_back(XML_GDTF_AttributePrettyName);
+	needed.push_back(XML_GDTF_AttributeFeature);
+	optional.push_back(XML_GDTF_AttributeActGroup);
+	optional.push_back(XML_GDTF_AttributefMainAttribute);
+	optional.push_back(XML_GDTF_AttributePhysicalUnit);
+	optional.push_back(XML_GDTF_AttributeColor);
+
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfAttribute::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfAttribute;
+}
+TXString GdtfAttribute::GetNodeName()
+{
+	return XML_GDTF_AttributeNode;
+}
+
+const TXString& GdtfAttribute::GetName() const
+{
+	return fName;
+}
+
+const TXString& GdtfAttribute::GetPrettyName() const
+{
+	return fPrettyName;
+}
+
+GdtfActivationGroupPtr GdtfAttribute::GetActivationGroup() const
+{
+	return fActivationGroup;
+}
+
+GdtfFeaturePtr GdtfAttribute::GetFeature() const
+{
+	return fFeature;
+}
+
+bool GdtfAttribute::HasColor() const
+{
+	return fHasColor;
+}
+
+const TGdtfSubPhysicalUnitArray& GdtfAttribute::GetSubPhysicalUnitArray() const
+{
+	return fSubPhysicalUnits;
+}		
+
+void GdtfAttribute::SetFeature(GdtfFeaturePtr newFeat)
+{
+	ASSERTN(kEveryone, fFeature == nullptr);
+	fFeature = newFeat;
+	
+	ASSERTN(kEveryone, newFeat != nullptr);
+	if (newFeat) { newFeat->AddLinkedAttribute(this); }
+}
+
+GdtfAttribute * SceneData::GdtfAttribute::GetMainAttribute()
+{
+    return fMainAttribute;
+}
+
+EGdtfPhysicalUnit SceneData::GdtfAttribute::GetPhysicalUnit()
+{
+    return fPhysicalUnit;
+}
+
+CCieColor SceneData::GdtfAttribute::GetColor()
+{
+    return fColor;
+}
+
+TXString GdtfAttribute::GetNodeReference()
+{
+	return GetName();
+}
+
+const TXString& GdtfAttribute::GetUnresolvedActGroup() const
+{
+	return fUnresolvedActGroup;
+}
+
+const TXString& GdtfAttribute::GetUnresolvedMainAttribute() const
+{
+	return fUnresolvedMainAttrib;
+}
+
+const TXString& GdtfAttribute::GetUnresolvedFeature() const
+{
+	return fUnresolvedFeature;
+}
+
+//------------------------------------------------------------------------------------
+// GdtfWheel
+GdtfWheel::GdtfWheel(GdtfFixture* parentFixture)
+{
+	fParentFixture	= parentFixture;
+}
+
+GdtfWheel::GdtfWheel(GdtfFixture* parentFixture, const TXString& name)
+{
+	fName			= name;
+	fParentFixture	= parentFixture;
+}
+
+GdtfWheel::~GdtfWheel()
+{
+	for (GdtfWheelSlotPtr ptr : fWheelSlots) { delete ptr; }
+}
+
+GdtfWheelSlotPtr GdtfWheel::AddWheelSlot(const TXString& name)
+{
+	// Add Slot
+	GdtfWheelSlot* slot  = new GdtfWheelSlot(name, this);
+	
+	fWheelSlots.push_back(slot);
+	
+	return slot;
+}
+
+void GdtfWheel::SetName(const TXString &name)
+{
+	fName = name;
+}
+
+bool GdtfWheel::IsGoboWheel() const
+{
+	for (GdtfWheelSlot* slot : fWheelSlots)
+	{
+		if (slot->GetGobo().IsEmpty()) { return false; }
+	}
+	
+	return true;
+}
+
+TXString GdtfWheel::GetNodeReference()
+{
+	return GetName();
+}
+
+GdtfFixture* GdtfWheel::GetParentFixture() const
+{
+	return fParentFixture;
+}
+
+const TGdtfWheelSlotArray& GdtfWheel::GetWheelSlotArray() const
+{
+	return fWheelSlots;
+}
+
+void GdtfWheel::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnPrintToFile(pNode);
+	
+	//------------------------------------------------------------------------------------
+	// Print the attributes
+	pNode->SetNodeAttributeValue(XML_GDTF_WheelName,			fName);
+	
+	//------------------------------------------------------------------------------------
+	// Print the childs
+	for (GdtfWheelSlot* wheelSlotObj : fWheelSlots)
+	{
+		wheelSlotObj->WriteToNode(pNode);
+	}
+}
+
+void GdtfWheel::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnReadFromNode(pNode);
+	
+	
+	//------------------------------------------------------------------------------------
+	// Get the attributes
+	pNode->GetNodeAttributeValue(XML_GDTF_WheelName,			fName);
+		
+	//------------------------------------------------------------------------------------
+	// Read the wheel slots
+	GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_WheelSlotNodeName, [this] (IXMLFileNodePtr objNode) -> void
+								 {   
+									if ( CheckAbort() ) return;
+									 // Create the object
+									 GdtfWheelSlotPtr wheelSlot = new GdtfWheelSlot(this);
+									 
+									 // Read from node
+									 wheelSlot->ReadFromNode(objNode);
+									 
+									 // Add to list
+									 fWheelSlots.push_back(wheelSlot);
+									 return;
+								 });
+
+	
+}
+
+void GdtfWheel::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_WheelName);
+	
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfWheel::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfWheel;
+}
+
+TXString GdtfWheel::GetNodeName()
+{
+	return XML_GDTF_WheelNodeName;
+}
+
+const TXString& GdtfWheel::GetName() const
+{
+	return fName;
+}
+
+//------------------------------------------------------------------------------------
+// GdtfWheelSlotPrismFacet
+GdtfWheelSlotPrismFacet::GdtfWheelSlotPrismFacet()
+{
+	fColor = CCieColor(0.3127,0.3290,100.0);
+}
+
+GdtfWheelSlotPrismFacet::~GdtfWheelSlotPrismFacet()
+{
+}
+
+void GdtfWheelSlotPrismFacet::SetColor(const CCieColor &color)
+{
+	fColor = color;
+}
+
+void GdtfWheelSlotPrismFacet::SetTransformMatrix(const VWFC::Math::VWTransformMatrix &ma)
+{
+	fTransform = ma;
+}
+
+void GdtfWheelSlotPrismFacet::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnPrintToFile(pNode);
+	
+	pNode->SetNodeAttributeValue(XML_GDTF_PrismFacetColor,		GdtfConverter::ConvertColor(fColor));
+	pNode->SetNodeAttributeValue(XML_GDTF_PrismFacetRotation,	GdtfConverter::ConvertRotation(fTransform));
+}
+
+CCieColor GdtfWheelSlotPrismFacet::GetColor()
+{
+	return fColor;
+}
+
+VWTransformMatrix GdtfWheelSlotPrismFacet::GetTransformMatrix()
+{
+	return fTransform;
+}
+
+void GdtfWheelSlotPrismFacet::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnReadFromNode(pNode);
+	
+	TXString color;		pNode->GetNodeAttributeValue(XML_GDTF_PrismFacetColor,		color);		GdtfConverter::ConvertColor(color, pNode, fColor);
+	TXString transfrom;	pNode->GetNodeAttributeValue(XML_GDTF_PrismFacetRotation,	transfrom);	GdtfConverter::ConvertRotation(transfrom, pNode, fTransform);
+	
+}
+
+void GdtfWheelSlotPrismFacet::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_PrismFacetRotation);
+	optional.push_back(XML_GDTF_PrismFacetColor);
+	
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfWheelSlotPrismFacet::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfPrismFacet;
+}
+TXString GdtfWheelSlotPrismFacet::GetNodeName()
+{
+	return XML_GDTF_PrismFacetNodeName;
+}
+
+//------------------------------------------------------------------------------------
+// GdtfWheelSlotAnimationSystem
+GdtfWheelSlotAnimationSystem::GdtfWheelSlotAnimationSystem()
+{
+}
+
+GdtfWheelSlotAnimationSystem::~GdtfWheelSlotAnimationSystem()
+{
+}
+
+double GdtfWheelSlotAnimationSystem::GetP1_X()
+{
+	return fP1_X;
+}
+
+double GdtfWheelSlotAnimationSystem::GetP1_Y()
+{
+	return fP1_Y;
+}
+
+double GdtfWheelSlotAnimationSystem::GetP2_X()
+{
+	return fP2_X;
+}
+
+double GdtfWheelSlotAnimationSystem::GetP2_Y()
+{
+	return fP2_Y;
+}
+
+double GdtfWheelSlotAnimationSystem::GetP3_X()
+{
+	return fP3_X;
+}
+
+double GdtfWheelSlotAnimationSystem::GetP3_Y()
+{
+	return fP3_Y;
+}
+
+double GdtfWheelSlotAnimationSystem::GetRadius()
+{
+	return fRadius;
+}
+
+void GdtfWheelSlotAnimationSystem::SetP1_X(double p1_X)
+{
+	fP1_X = p1_X;
+}
+
+void GdtfWheelSlotAnimationSystem::SetP1_Y(double p1_Y)
+{
+	fP1_Y = p1_Y;
+}
+
+void GdtfWheelSlotAnimationSystem::SetP2_X(double p2_X)
+{
+	fP2_X = p2_X;
+}
+
+void GdtfWheelSlotAnimationSystem::SetP2_Y(double p2_Y)
+{
+	fP2_Y = p2_Y;
+}
+
+void GdtfWheelSlotAnimationSystem::SetP3_X(double p3_X)
+{
+	fP3_X = p3_X;
+}
+
+void GdtfWheelSlotAnimationSystem::SetP3_Y(double p3_Y)
+{
+	fP3_Y = p3_Y;
+}
+
+void GdtfWheelSlotAnimationSystem::SetRadius(double radius)
+{
+	fRadius = radius;
+}
+
+void GdtfWheelSlotAnimationSystem::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnPrintToFile(pNode);
+	
+	pNode->SetNodeAttributeValue(XML_GDTF_AnimationSystemP1,		GdtfConverter::Convert2DPoint(fP1_X, fP1_Y));
+	pNode->SetNodeAttributeValue(XML_GDTF_AnimationSystemP2,		GdtfConverter::Convert2DPoint(fP2_X, fP2_Y));
+	pNode->SetNodeAttributeValue(XML_GDTF_AnimationSystemP3,		GdtfConverter::Convert2DPoint(fP3_X, fP3_Y));
+	pNode->SetNodeAttributeValue(XML_GDTF_AnimationSystemRadius,	GdtfConverter::ConvertDouble(fRadius));
+}
+
+void GdtfWheelSlotAnimationSystem::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnReadFromNode(pNode);
+	
+	TXString p1;		pNode->GetNodeAttributeValue(XML_GDTF_AnimationSystemP1,		p1);		GdtfConverter::Convert2DPoint(p1, pNode, fP1_X, fP1_Y);
+	TXString p2;		pNode->GetNodeAttributeValue(XML_GDTF_AnimationSystemP2,		p2);		GdtfConverter::Convert2DPoint(p2, pNode, fP2_X, fP2_Y);
+	TXString p3;		pNode->GetNodeAttributeValue(XML_GDTF_AnimationSystemP3,		p3);		GdtfConverter::Convert2DPoint(p3, pNode, fP3_X, fP3_Y);
+	TXString radius;	pNode->GetNodeAttributeValue(XML_GDTF_AnimationSystemRadius,	radius);	GdtfConverter::ConvertDouble(radius, pNode, fRadius);
+}
+
+void GdtfWheelSlotAnimationSystem::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_AnimationSystemP1);
+	needed.push_back(XML_GDTF_AnimationSystemP2);
+	needed.push_back(XML_GDTF_AnimationSystemP3);
+	needed.push_back(XML_GDTF_AnimationSystemRadius);
+	
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfWheelSlotAnimationSystem::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfAnimationSystem;
+}
+
+TXString GdtfWheelSlotAnimationSystem::GetNodeName()
+{
+	return XML_GDTF_AnimationSystemNodeName;
+}
+
+//------------------------------------------------------------------------------------
+// GdtfWheelSlot
+GdtfWheelSlot::GdtfWheelSlot(GdtfWheel* parent)
+{
+	fWheelParent 		= parent;
+	fFilter 	 		= nullptr;
+	fAnimationSystem	= nullptr;
+	fDuration			= 0.0;
+	fWidth				= 0;
+	fHeight				= 0;
+	fFPS				= 0;
+}
+
+GdtfWheelSlot::GdtfWheelSlot(const TXString& name, GdtfWheel* parent)
+{
+	fName		 		= name;
+	fWheelParent 		= parent;
+	fFilter		 		= nullptr;
+	fAnimationSystem	= nullptr;
+	fDuration			= 0.0;
+	fWidth				= 0;
+	fHeight				= 0;
+	fFPS				= 0;
+}
+
+
+GdtfWheelSlot::~GdtfWheelSlot()
+{
+	for(GdtfWheelSlotPrismFacet* facet : fPrismFacts) { delete facet; };
+	if(fAnimationSystem){
+		delete fAnimationSystem;
+	}
+}
+
+void GdtfWheelSlot::SetName(const TXString &name)
+{
+	fName = name;
+}
+
+void GdtfWheelSlot::SetGobo(const GdtfPNGFile& png)
+{
+	fGobo = png;
+}
+
+void GdtfWheelSlot::SetColor(const CCieColor& color)
+{
+	fColor = color;
+}
+
+void GdtfWheelSlot::SetFilter(GdtfFilter* filter)
+{
+	fFilter = filter;
+}
+
+GdtfWheelSlotPrismFacet* GdtfWheelSlot::AddPrismFacet()
+{
+	GdtfWheelSlotPrismFacet* prism = new GdtfWheelSlotPrismFacet();
+	fPrismFacts.push_back(prism);
+	return prism;
+}
+
+GdtfWheelSlotAnimationSystem* GdtfWheelSlot::AddAnimationSystem()
+{
+	if(fAnimationSystem){
+		delete fAnimationSystem;
+	}
+	GdtfWheelSlotAnimationSystem* animationSystem = new GdtfWheelSlotAnimationSystem();
+	fAnimationSystem = animationSystem;
+	return animationSystem;
+}
+
+const TXString&	GdtfWheelSlot::GetGobo() const
+{
+	return fGobo;
+}
+
+GdtfFilter*	GdtfWheelSlot::GetFilter() const
+{
+	return fFilter;
+}
+
+const TXString&	GdtfWheelSlot::GetUnresolvedFilter() const
+{
+	return fUnresolvedFilter;
+}
+
+const TXString&	GdtfWheelSlot::GetGoboFileFullPath()
+{
+	fGoboFile = "";
+
+	IFolderIdentifierPtr	folder;
+	fWheelParent->GetParentFixture()->GetWorkingFolder(folder);
+
+	IFolderIdentifierPtr wheelsFolder (IID_FolderIdentifier);
+ 	wheelsFolder->Set(folder, "wheels");
+	
+	IFileIdentifierPtr file (IID_FileIdentifier);		 	
+ 	file->Set(wheelsFolder, fGobo + ".png");
+	bool fileExists = false;
+ 	if(VCOM_SUCCEEDED(file->ExistsOnDisk(fileExists)) && fileExists)		 	
+	{			
+		file->GetFileFullPath(fGoboFile);				
+	}			
+
+	
+	// Return
+	return fGoboFile;
+}
+
+CCieColor GdtfWheelSlot::GetColor() const
+{
+	return fColor;
+}
+
+const TXString& GdtfWheelSlot::GetName() const
+{
+	return fName;
+}
+
+void GdtfWheelSlot::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnPrintToFile(pNode);
+	
+	
+	// ------------------------------------------------------------------------------------
+	// Print node attributes
+	pNode->SetNodeAttributeValue(XML_GDTF_WheelSlotName,	fName);
+	pNode->SetNodeAttributeValue(XML_GDTF_WheelSlotColor,		GdtfConverter::ConvertColor(fColor));
+	if(fGobo != "")	{ pNode->SetNodeAttributeValue(XML_GDTF_WheelSlotPicture,	fGobo); }
+	if(fFilter)	{ pNode->SetNodeAttributeValue(XML_GDTF_WheelSlotFilter,		fFilter->GetNodeReference()); }
+	if(fDuration != 0.0)	{ pNode->SetNodeAttributeValue(XML_GDTF_WheelSlotDuration,	GdtfConverter::ConvertDouble(fDuration)); }
+	if(fWidth != 0)			{ pNode->SetNodeAttributeValue(XML_GDTF_WheelSlotWidth,		GdtfConverter::ConvertInteger(fWidth)); }
+	if(fHeight != 0)		{ pNode->SetNodeAttributeValue(XML_GDTF_WheelSlotHeight,	GdtfConverter::ConvertInteger(fHeight)); }
+	if(fFPS != 0)			{ pNode->SetNodeAttributeValue(XML_GDTF_WheelSlotFPS,		GdtfConverter::ConvertInteger(fFPS)); }
+	
+	//------------------------------------------------------------------------------------
+	// Print the children
+	for (GdtfWheelSlotPrismFacet* prism : fPrismFacts)
+	{
+		prism->WriteToNode(pNode);
+	}
+
+	//------------------------------------------------------------------------------------
+	// Print the animation system
+	if(fAnimationSystem) { fAnimationSystem->WriteToNode(pNode); }
+}
+
+void GdtfWheelSlot::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnReadFromNode(pNode);
+
+	
+	// ------------------------------------------------------------------------------------
+	// Get Name
+	pNode->GetNodeAttributeValue(XML_GDTF_WheelSlotName,	fName);
+	
+	// ------------------------------------------------------------------------------------
+	// Get Color
+	TXString color;
+	if (VCOM_SUCCEEDED(pNode->GetNodeAttributeValue(XML_GDTF_WheelSlotColor, color)))
+	{
+		if (color.IsEmpty() == false)
+		{
+            GdtfConverter::ConvertColor(color, pNode, this->fColor);
+		}
+	}
+	
+	// ------------------------------------------------------------------------------------
+	// Get Gobo
+	pNode->GetNodeAttributeValue(XML_GDTF_WheelSlotPicture, fGobo);
+	
+
+	pNode->GetNodeAttributeValue(XML_GDTF_WheelSlotFilter,	fUnresolvedFilter);
+
+	TXString duration, width, height, fps;
+	pNode->GetNodeAttributeValue(XML_GDTF_WheelSlotDuration,	duration);
+	pNode->GetNodeAttributeValue(XML_GDTF_WheelSlotWidth,		width);
+	pNode->GetNodeAttributeValue(XML_GDTF_WheelSlotHeight,		height);
+	pNode->GetNodeAttributeValue(XML_GDTF_WheelSlotFPS,			fps);
+	if(!duration.IsEmpty())	{ GdtfConverter::ConvertDouble(duration,	pNode, fDuration); }
+	if(!width.IsEmpty())	{ GdtfConverter::ConvertInteger(width,		pNode, fWidth); }
+	if(!height.IsEmpty())	{ GdtfConverter::ConvertInteger(height,		pNode, fHeight); }
+	if(!fps.IsEmpty())		{ GdtfConverter::ConvertInteger(fps,		pNode, fFPS); }
+	
+	//------------------------------------------------------------------------------------
+	// Read the wheel slots
+	GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_PrismFacetNodeName, [this] (IXMLFileNodePtr objNode) -> void
+								{
+									if ( CheckAbort() ) return;
+									// Create the object
+									GdtfWheelSlotPrismFacetPtr facet = new GdtfWheelSlotPrismFacet();
+									
+									// Read from node
+									facet->ReadFromNode(objNode);
+									
+									// Add to list
+									fPrismFacts.push_back(facet);
+									return;
+								});
+	
+	//Animation System
+	IXMLFileNodePtr animationSystemNode;
+	pNode->GetChildNode(XML_GDTF_AnimationSystemNodeName, &animationSystemNode);
+	if(animationSystemNode != nullptr)
+	{
+		if(fAnimationSystem){
+			delete fAnimationSystem;
+		}
+		GdtfWheelSlotAnimationSystemPtr animationSystem = new GdtfWheelSlotAnimationSystem();
+		animationSystem->ReadFromNode(animationSystemNode);
+		fAnimationSystem = animationSystem;
+	}
+	
+
+}
+
+void GdtfWheelSlot::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_WheelSlotName);
+	optional.push_back(XML_GDTF_WheelSlotColor);
+	optional.push_back(XML_GDTF_WheelSlotPicture);
+	optional.push_back(XML_GDTF_WheelSlotFilter);
+	optional.push_back(XML_GDTF_WheelSlotDuration);
+	optional.push_back(XML_GDTF_WheelSlotWidth);
+	optional.push_back(XML_GDTF_WheelSlotHeight);
+	optional.push_back(XML_GDTF_WheelSlotFPS);
+
+	
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfWheelSlot::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfWheelSlot;
+}
+TXString GdtfWheelSlot::GetNodeName()
+{
+	return XML_GDTF_WheelSlotNodeName;
+}
+
+TGdtfWheelSlotPrismFacetArray GdtfWheelSlot::GetPrismFacets()
+{
+	return fPrismFacts;
+}
+
+TXString GdtfWheelSlot::GetNodeReference()
+{
+	TXString ref = fWheelParent->GetNodeReference() + "." + GetName();
+	return ref;
+}
+
+GdtfWheelSlotAnimationSystem* GdtfWheelSlot::GetAnimationSystem() const
+{
+	return fAnimationSystem;
+}
+
+double GdtfWheelSlot::GetDuration() const { return fDuration; }
+size_t GdtfWheelSlot::GetWidth()    const { return fWidth; }
+size_t GdtfWheelSlot::GetHeight()   const { return fHeight; }
+size_t GdtfWheelSlot::GetFPS()      const { return fFPS; }
+
+void GdtfWheelSlot::SetDuration(double duration) { fDuration = duration; }
+void GdtfWheelSlot::SetWidth(size_t width)       { fWidth = width; }
+void GdtfWheelSlot::SetHeight(size_t height)     { fHeight = height; }
+void GdtfWheelSlot::SetFPS(size_t fps)           { fFPS = fps; }
+
+//------------------------------------------------------------------------------------
+// GdtfModel
+GdtfModel::GdtfModel(GdtfFixture* fixture)
+{
+	fUniqueName		= "";
+	fLength			= 0;
+	fWidth			= 0;
+	fHeight			= 0;
+	fPrimitiveType	= eGdtfModel_PrimitiveType_Undefined;
+	fGeometryFile	= "";
+	fParentFixture	= fixture;
+	fBuffer3DS 		= nullptr;
+	fBufferSVG 		= nullptr;
+	fBufferGLTF		= nullptr;
+	fBufferSize3DS	= 0;
+	fBufferSizeSVG	= 0;
+	fBufferSizeGLTF	= 0;
+
+	fSVGOffsetX			= 0;
+	fSVGOffsetY			= 0;
+	fSVGSideOffsetX		= 0;
+	fSVGSideOffsetY		= 0;
+	fSVGFrontOffsetX	= 0;
+	fSVGFrontOffsetY	= 0;
+}
+
+GdtfModel::GdtfModel(const TXString& name, GdtfFixture* fixture)
+{
+	fUniqueName		= name;
+	fLength			= 0;
+	fWidth			= 0;
+	fHeight			= 0;
+	fPrimitiveType	= eGdtfModel_PrimitiveType_Undefined;
+	fGeometryFile	= "";
+	fParentFixture	= fixture;
+	fBuffer3DS 		= nullptr;
+	fBufferSVG 		= nullptr;
+	fBufferGLTF		= nullptr;
+	fBufferSize3DS	= 0;
+	fBufferSizeSVG	= 0;
+	fBufferSizeGLTF	= 0;
+
+	fSVGOffsetX			= 0;
+	fSVGOffsetY			= 0;
+	fSVGSideOffsetX		= 0;
+	fSVGSideOffsetY		= 0;
+	fSVGFrontOffsetX	= 0;
+	fSVGFrontOffsetY	= 0;
+}
+
+GdtfModel::~GdtfModel()
+{
+	if(fBuffer3DS) 	{ delete[] fBuffer3DS; 	fBufferSize3DS = 0; }
+	if(fBufferSVG)	{ delete[] fBufferSVG; 	fBufferSizeSVG = 0; }
+	if(fBufferGLTF) { delete[] fBufferGLTF; fBufferSizeGLTF = 0; }
+}
+
+void GdtfModel::SetName(const TXString& name)
+{
+	fUniqueName = name;
+}
+
+void GdtfModel::SetLength(const double& length)
+{
+	fLength = length;
+}
+
+void GdtfModel::SetWidth(const double& width)
+{
+	fWidth = width;
+}
+
+void GdtfModel::SetHeight(const double &height)
+{
+	fHeight = height;
+}
+
+void GdtfModel::SetPrimitiveType(const EGdtfModel_PrimitiveType &type)
+{
+	fPrimitiveType = type;
+}
+
+void GdtfModel::SetGeometryFile(const TXString &file)
+{
+	fGeometryFile = file;
+}
+
+void GdtfModel::SetBuffer3DS(void* bufferToCopy, size_t length)
+{
+	if(fBuffer3DS)
+	{
+		delete[] fBuffer3DS;
+		fBuffer3DS = nullptr;
+	}
+
+	fBuffer3DS		= new char[length];
+	fBufferSize3DS	= length;
+	memcpy(fBuffer3DS, bufferToCopy, length);
+}
+
+void GdtfModel::SetBufferSVG(void* bufferToCopy, size_t length)
+{
+	if(fBufferSVG)
+	{
+		delete[] fBufferSVG;
+		fBufferSVG = nullptr;
+	}
+
+	fBufferSVG 		= new char[length];
+	fBufferSizeSVG 	= length;
+	memcpy(fBufferSVG, bufferToCopy, length);
+}
+
+void GdtfModel::SetBufferGLTF(void* bufferToCopy, size_t length)
+{
+	if(fBufferGLTF)
+	{
+		delete[] fBufferGLTF;
+		fBufferGLTF = nullptr;
+	}
+
+	fBufferGLTF			= new char[length];
+	fBufferSizeGLTF 	= length;
+	memcpy(fBufferGLTF, bufferToCopy, length);
+}
+
+void GdtfModel::SetSVGOffsetX(double svgOffsetX)
+{
+	fSVGOffsetX = svgOffsetX;
+}
+
+void GdtfModel::SetSVGOffsetY(double svgOffsetY)
+{
+	fSVGOffsetY = svgOffsetY;
+}
+
+void GdtfModel::SetSVGSideOffsetX(double svgSideOffsetX)
+{
+	fSVGSideOffsetX = svgSideOffsetX;
+}
+
+void GdtfModel::SetSVGSideOffsetY(double svgSideOffsetY)
+{
+	fSVGSideOffsetY = svgSideOffsetY;
+}
+
+void GdtfModel::SetSVGFrontOffsetX(double svgFrontOffsetX)
+{
+	fSVGFrontOffsetX = svgFrontOffsetX;
+}
+
+void GdtfModel::SetSVGFrontOffsetY(double svgFrontOffsetY)
+{
+	fSVGFrontOffsetY = svgFrontOffsetY;
+}
+
+void GdtfModel::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnPrintToFile(pNode);
+	
+	
+	// ------------------------------------------------------------------------------------
+	// Print node attributes
+	pNode->SetNodeAttributeValue(XML_GDTF_ModelName,			fUniqueName);
+	pNode->SetNodeAttributeValue(XML_GDTF_ModelLength,			GdtfConverter::ConvertDouble(fLength));
+	pNode->SetNodeAttributeValue(XML_GDTF_ModelWidth,			GdtfConverter::ConvertDouble(fWidth));
+	pNode->SetNodeAttributeValue(XML_GDTF_ModelHeight,			GdtfConverter::ConvertDouble(fHeight));
+	pNode->SetNodeAttributeValue(XML_GDTF_ModelPrimitiveType,	GdtfConverter::ConvertPrimitiveType(fPrimitiveType));
+	pNode->SetNodeAttributeValue(XML_GDTF_ModelFile,			fGeometryFile);
+	pNode->SetNodeAttributeValue(XML_GDTF_ModelSVGOffsetX,		GdtfConverter::ConvertDouble(fSVGOffsetX));
+	pNode->SetNodeAttributeValue(XML_GDTF_ModelSVGOffsetY,		GdtfConverter::ConvertDouble(fSVGOffsetY));
+	pNode->SetNodeAttributeValue(XML_GDTF_ModelSVGSideOffsetX,	GdtfConverter::ConvertDouble(fSVGSideOffsetX));
+	pNode->SetNodeAttributeValue(XML_GDTF_ModelSVGSideOffsetY,	GdtfConverter::ConvertDouble(fSVGSideOffsetY));
+	pNode->SetNodeAttributeValue(XML_GDTF_ModelSVGFrontOffsetX,	GdtfConverter::ConvertDouble(fSVGFrontOffsetX));
+	pNode->SetNodeAttributeValue(XML_GDTF_ModelSVGFrontOffsetY,	GdtfConverter::ConvertDouble(fSVGFrontOffsetY));
+}
+
+void GdtfModel::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnReadFromNode(pNode);
+
+	
+	// ------------------------------------------------------------------------------------
+	// Read node attributes
+	pNode->GetNodeAttributeValue(XML_GDTF_ModelName,			fUniqueName);
+	
+	// Convert Doubles
+	TXString length;			pNode->GetNodeAttributeValue(XML_GDTF_ModelLength,			length);			GdtfConverter::ConvertDouble(length, 			pNode, 	fLength);
+	TXString width;				pNode->GetNodeAttributeValue(XML_GDTF_ModelWidth,			width);				GdtfConverter::ConvertDouble(width, 			pNode,  fWidth);
+	TXString height;			pNode->GetNodeAttributeValue(XML_GDTF_ModelHeight,			height);			GdtfConverter::ConvertDouble(height, 			pNode, 	fHeight);
+	TXString svgOffsetX;		pNode->GetNodeAttributeValue(XML_GDTF_ModelSVGOffsetX,		svgOffsetX);		GdtfConverter::ConvertDouble(svgOffsetX, 		pNode, 	fSVGOffsetX);
+	TXString svgOffsetY;		pNode->GetNodeAttributeValue(XML_GDTF_ModelSVGOffsetY,		svgOffsetY);		GdtfConverter::ConvertDouble(svgOffsetY, 		pNode, 	fSVGOffsetY);
+	TXString svgSideOffsetX;	pNode->GetNodeAttributeValue(XML_GDTF_ModelSVGSideOffsetX,	svgSideOffsetX);	GdtfConverter::ConvertDouble(svgSideOffsetX, 	pNode, 	fSVGSideOffsetX);
+	TXString svgSideOffsetY;	pNode->GetNodeAttributeValue(XML_GDTF_ModelSVGSideOffsetY,	svgSideOffsetY);	GdtfConverter::ConvertDouble(svgSideOffsetY, 	pNode, 	fSVGSideOffsetY);
+	TXString svgFrontOffsetX;	pNode->GetNodeAttributeValue(XML_GDTF_ModelSVGFrontOffsetX,	svgFrontOffsetX);	GdtfConverter::ConvertDouble(svgFrontOffsetX,	pNode, 	fSVGFrontOffsetX);
+	TXString svgFrontOffsetY;	pNode->GetNodeAttributeValue(XML_GDTF_ModelSVGFrontOffsetY,	svgFrontOffsetY);	GdtfConverter::ConvertDouble(svgFrontOffsetY, 	pNode, 	fSVGFrontOffsetY);
+	TXString type;				pNode->GetNodeAttributeValue(XML_GDTF_ModelPrimitiveType,	type);				GdtfConverter::ConvertPrimitiveType(type, 		pNode, 	fPrimitiveType);
+								pNode->GetNodeAttributeValue(XML_GDTF_ModelFile,			fGeometryFile);
+
+	if(!fGeometryFile.IsEmpty())
+	{
+		TXString filename3DS = fGeometryFile + ".3ds";
+		TXString filenameSVG = fGeometryFile + ".svg";
+		TXString filenameGLTF = fGeometryFile + ".glb";
+
+		std::map<TXString, std::pair<char*, size_t> > fileBuffers = fParentFixture->GetFileBuffers();
+
+		auto buffer = fileBuffers.find(filename3DS);
+		if(buffer != fileBuffers.end())
+		{
+			fBufferSize3DS	= buffer->second.second;
+			fBuffer3DS		= new char[fBufferSize3DS];
+			memcpy(fBuffer3DS, buffer->second.first, fBufferSize3DS);
+		}
+		else if(fBufferSize3DS > 0)
+		{
+			std::pair<char*, size_t> bufferPair = std::make_pair(fBuffer3DS, fBufferSize3DS);
+			fileBuffers[filename3DS] = bufferPair;
+		}
+
+		buffer = fileBuffers.find(filenameSVG);
+		if(buffer != fileBuffers.end())
+		{
+			fBufferSizeSVG	= buffer->second.second;
+			fBufferSVG		= new char[fBufferSizeSVG];
+			memcpy(fBufferSVG, buffer->second.first, fBufferSizeSVG);
+		}
+		else if(fBufferSizeSVG > 0)
+		{
+			std::pair<char*, size_t> bufferPair = std::make_pair(fBufferSVG, fBufferSizeSVG);
+			fileBuffers[filenameSVG] = bufferPair;
+		}
+
+		buffer = fileBuffers.find(filenameGLTF);
+		if(buffer != fileBuffers.end())
+		{
+			fBufferSizeGLTF	= buffer->second.second;
+			fBufferGLTF		= new char[fBufferSizeGLTF];
+			memcpy(fBufferGLTF, buffer->second.first, fBufferSizeGLTF);
+		}
+		else if(fBufferSizeGLTF > 0)
+		{
+			std::pair<char*, size_t> bufferPair = std::make_pair(fBufferGLTF, fBufferSizeGLTF);
+			fileBuffers[filenameGLTF] = bufferPair;
+		}	
+	}
+}
+
+void GdtfModel::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_ModelName);
+	optional.push_back(XML_GDTF_ModelFile);
+	optional.push_back(XML_GDTF_ModelLength);
+	optional.push_back(XML_GDTF_ModelWidth);
+	optional.push_back(XML_GDTF_ModelHeight);
+	optional.push_back(XML_GDTF_ModelPrimitiveType);
+	optional.push_back(XML_GDTF_ModelSVGOffsetX);
+	optional.push_back(XML_GDTF_ModelSVGOffsetY);
+	optional.push_back(XML_GDTF_ModelSVGSideOffsetX);
+	optional.push_back(XML_GDTF_ModelSVGSideOffsetY);
+	optional.push_back(XML_GDTF_ModelSVGFrontOffsetX);
+	optional.push_back(XML_GDTF_ModelSVGFrontOffsetY);
+
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfModel::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfModel;
+}
+TXString GdtfModel::GetNodeName()
+{
+	return XML_GDTF_ModelNodeName;
+}
+
+TXString GdtfModel::GetNodeReference()
+{
+	return GetName();
+}
+
+const TXString& GdtfModel::GetGeometryFileName() const
+{
+	return fGeometryFile;
+}
+
+const TXString& GdtfModel::GetGeometryFile_3DS_FullPath()
+{
+	fFullPath3DS = "";
+	// Set to store
+	IFolderIdentifierPtr folder (IID_FolderIdentifier);
+	fParentFixture->GetWorkingFolder(folder);
+
+	IFolderIdentifierPtr model3DsFolder (IID_FolderIdentifier);
+	model3DsFolder->Set(folder, "models3ds");
+
+	IFileIdentifierPtr file (IID_FileIdentifier);
+	file->Set(model3DsFolder, fGeometryFile + ".3ds");
+
+	bool fileExists = false;
+	if(VCOM_SUCCEEDED(file->ExistsOnDisk(fileExists)) && fileExists)
+	{
+		file->GetFileFullPath(fFullPath3DS);
+	}
+	
+	return fFullPath3DS;
+}
+
+const TXString& GdtfModel::GetGeometryFile_3DSLow_FullPath()
+{
+	fFullPath3DS = "";
+	// Set to store
+	IFolderIdentifierPtr folder (IID_FolderIdentifier);
+	fParentFixture->GetWorkingFolder(folder);
+
+	IFolderIdentifierPtr model3DsFolder (IID_FolderIdentifier);
+	model3DsFolder->Set(folder, "models3ds_low");
+
+	IFileIdentifierPtr file (IID_FileIdentifier);
+	file->Set(model3DsFolder, fGeometryFile + ".3ds");
+
+	bool fileExists = false;
+	if(VCOM_SUCCEEDED(file->ExistsOnDisk(fileExists)) && fileExists)
+	{
+		file->GetFileFullPath(fFullPath3DS);
+	}
+	
+	return fFullPath3DS;
+}
+
+const TXString& GdtfModel::GetGeometryFile_3DSHigh_FullPath()
+{
+	fFullPath3DS = "";
+	// Set to store
+	IFolderIdentifierPtr folder (IID_FolderIdentifier);
+	fParentFixture->GetWorkingFolder(folder);
+
+	IFolderIdentifierPtr model3DsFolder (IID_FolderIdentifier);
+	model3DsFolder->Set(folder, "models3ds_high");
+
+	IFileIdentifierPtr file (IID_FileIdentifier);
+	file->Set(model3DsFolder, fGeometryFile + ".3ds");
+
+	bool fileExists = false;
+	if(VCOM_SUCCEEDED(file->ExistsOnDisk(fileExists)) && fileExists)
+	{
+		file->GetFileFullPath(fFullPath3DS);
+	}
+	
+	return fFullPath3DS;
+}
+
+const TXString & SceneData::GdtfModel::GetGeometryFile_SVG_FullPath()
+{
+	// Set to store
+	fFullPathSVG = "";
+	// Set to store
+	IFolderIdentifierPtr folder (IID_FolderIdentifier);
+	fParentFixture->GetWorkingFolder(folder);
+
+	IFolderIdentifierPtr svgModelsFolder (IID_FolderIdentifier);
+	svgModelsFolder->Set(folder, "modelssvg");
+
+	IFileIdentifierPtr file (IID_FileIdentifier);
+	file->Set(svgModelsFolder, fGeometryFile + ".svg");
+
+
+	bool fileExists = false;
+	if(VCOM_SUCCEEDED(file->ExistsOnDisk(fileExists)) && fileExists)
+	{
+		file->GetFileFullPath(fFullPathSVG);
+	}
+	
+	return fFullPathSVG;
+}
+
+const TXString & SceneData::GdtfModel::GetGeometryFile_SVGSide_FullPath()
+{
+	// Set to store
+	fFullPathSVG = "";
+	// Set to store
+	IFolderIdentifierPtr folder (IID_FolderIdentifier);
+	fParentFixture->GetWorkingFolder(folder);
+
+	IFolderIdentifierPtr svgModelsFolder (IID_FolderIdentifier);
+	svgModelsFolder->Set(folder, "modelssvg_side");
+
+	IFileIdentifierPtr file (IID_FileIdentifier);
+	file->Set(svgModelsFolder, fGeometryFile + ".svg");
+
+
+	bool fileExists = false;
+	if(VCOM_SUCCEEDED(file->ExistsOnDisk(fileExists)) && fileExists)
+	{
+		file->GetFileFullPath(fFullPathSVG);
+	}
+	
+	return fFullPathSVG;
+}
+
+const TXString & SceneData::GdtfModel::GetGeometryFile_SVGFront_FullPath()
+{
+	// Set to store
+	fFullPathSVG = "";
+	// Set to store
+	IFolderIdentifierPtr folder (IID_FolderIdentifier);
+	fParentFixture->GetWorkingFolder(folder);
+
+	IFolderIdentifierPtr svgModelsFolder (IID_FolderIdentifier);
+	svgModelsFolder->Set(folder, "modelssvg_front");
+
+	IFileIdentifierPtr file (IID_FileIdentifier);
+	file->Set(svgModelsFolder, fGeometryFile + ".svg");
+
+
+	bool fileExists = false;
+	if(VCOM_SUCCEEDED(file->ExistsOnDisk(fileExists)) && fileExists)
+	{
+		file->GetFileFullPath(fFullPathSVG);
+	}
+	
+	return fFullPathSVG;
+}
+
+const TXString & SceneData::GdtfModel::GetGeometryFile_GLTF_FullPath()
+{
+	// Set to store
+	fFullPathGLTF = "";
+	// Set to store
+	IFolderIdentifierPtr folder (IID_FolderIdentifier);
+	fParentFixture->GetWorkingFolder(folder);
+
+	IFolderIdentifierPtr gltfModelsFolder (IID_FolderIdentifier);
+	gltfModelsFolder->Set(folder, "modelsgltf");
+
+	IFileIdentifierPtr file (IID_FileIdentifier);
+	file->Set(gltfModelsFolder, fGeometryFile + ".glb");
+
+	bool fileExists = false;
+	if(VCOM_SUCCEEDED(file->ExistsOnDisk(fileExists)) && fileExists)
+	{
+		file->GetFileFullPath(fFullPathGLTF);
+	}
+	else
+	{
+		//There are two glTF file format: binary (.glb) or JSON-like (.gltf)
+		//If we don't find a .glb file, we try with .gltf
+		file->Set(gltfModelsFolder, fGeometryFile + ".gltf");
+		if(VCOM_SUCCEEDED(file->ExistsOnDisk(fileExists)) && fileExists)
+		{
+			file->GetFileFullPath(fFullPathGLTF);
+		}
+	}
+	
+	return fFullPathGLTF;
+}
+
+const TXString & SceneData::GdtfModel::GetGeometryFile_GLTFLow_FullPath()
+{
+	// Set to store
+	fFullPathGLTF = "";
+	// Set to store
+	IFolderIdentifierPtr folder (IID_FolderIdentifier);
+	fParentFixture->GetWorkingFolder(folder);
+
+	IFolderIdentifierPtr gltfModelsFolder (IID_FolderIdentifier);
+	gltfModelsFolder->Set(folder, "modelsgltf_low");
+
+	IFileIdentifierPtr file (IID_FileIdentifier);
+	file->Set(gltfModelsFolder, fGeometryFile + ".glb");
+
+	bool fileExists = false;
+	if(VCOM_SUCCEEDED(file->ExistsOnDisk(fileExists)) && fileExists)
+	{
+		file->GetFileFullPath(fFullPathGLTF);
+	}
+	else
+	{
+		//There are two glTF file format: binary (.glb) or JSON-like (.gltf)
+		//If we don't find a .glb file, we try with .gltf
+		file->Set(gltfModelsFolder, fGeometryFile + ".gltf");
+		if(VCOM_SUCCEEDED(file->ExistsOnDisk(fileExists)) && fileExists)
+		{
+			file->GetFileFullPath(fFullPathGLTF);
+		}
+	}
+	
+	return fFullPathGLTF;
+}
+
+const TXString & SceneData::GdtfModel::GetGeometryFile_GLTFHigh_FullPath()
+{
+	// Set to store
+	fFullPathGLTF = "";
+	// Set to store
+	IFolderIdentifierPtr folder (IID_FolderIdentifier);
+	fParentFixture->GetWorkingFolder(folder);
+
+	IFolderIdentifierPtr gltfModelsFolder (IID_FolderIdentifier);
+	gltfModelsFolder->Set(folder, "modelsgltf_high");
+
+	IFileIdentifierPtr file (IID_FileIdentifier);
+	file->Set(gltfModelsFolder, fGeometryFile + ".glb");
+
+	bool fileExists = false;
+	if(VCOM_SUCCEEDED(file->ExistsOnDisk(fileExists)) && fileExists)
+	{
+		file->GetFileFullPath(fFullPathGLTF);
+	}
+	else
+	{
+		//There are two glTF file format: binary (.glb) or JSON-like (.gltf)
+		//If we don't find a .glb file, we try with .gltf
+		file->Set(gltfModelsFolder, fGeometryFile + ".gltf");
+		if(VCOM_SUCCEEDED(file->ExistsOnDisk(fileExists)) && fileExists)
+		{
+			file->GetFileFullPath(fFullPathGLTF);
+		}
+	}
+	
+	return fFullPathGLTF;
+}
+
+const TXString& GdtfModel::GetName() const
+{
+	return fUniqueName;
+}
+
+double GdtfModel::GetLength() const
+{
+	return fLength;
+}
+
+double GdtfModel::GetWidth() const
+{
+	return fWidth;
+}
+
+double GdtfModel::GetHeight() const
+{
+	return fHeight;
+}
+
+EGdtfModel_PrimitiveType GdtfModel::GetPrimitiveType() const
+{
+	return fPrimitiveType;
+}
+
+void GdtfModel::GetBuffer3DS(void** bufferToCopy, size_t& length)
+{
+	if(fBuffer3DS)
+	{
+		return;
+	}
+	if (*bufferToCopy)
+	{
+		return;
+	}
+
+	*bufferToCopy = new char[fBufferSize3DS];
+	length = fBufferSize3DS;
+	memcpy(*bufferToCopy, fBuffer3DS, fBufferSize3DS);
+}
+
+void GdtfModel::GetBufferSVG(void** bufferToCopy, size_t& length)
+{
+	if(fBufferSVG)
+	{
+		return;
+	}
+	if (*bufferToCopy)
+	{
+		return;
+	}
+
+	*bufferToCopy = new char[fBufferSizeSVG];
+	length = fBufferSizeSVG;
+	memcpy(*bufferToCopy, fBufferSVG, fBufferSizeSVG);
+}
+
+void GdtfModel::GetBufferGLTF(void** bufferToCopy, size_t& length)
+{
+	if(!fBufferGLTF)
+	{
+		return;
+	}
+	if (*bufferToCopy)
+	{
+		return;
+	}
+
+	*bufferToCopy = new char[fBufferSizeGLTF];
+	length = fBufferSizeGLTF;
+	memcpy(*bufferToCopy, fBufferGLTF, fBufferSizeGLTF);
+}
+
+double GdtfModel::GetSVGOffsetX() const
+{
+	return fSVGOffsetX;
+}
+
+double GdtfModel::GetSVGOffsetY() const
+{
+	return fSVGOffsetY;
+}
+
+double GdtfModel::GetSVGSideOffsetX() const
+{
+	return fSVGSideOffsetX;
+}
+
+double GdtfModel::GetSVGSideOffsetY() const
+{
+	return fSVGSideOffsetY;
+}
+
+double GdtfModel::GetSVGFrontOffsetX() const
+{
+	return fSVGFrontOffsetX;
+}
+
+double GdtfModel::GetSVGFrontOffsetY() const
+{
+	return fSVGFrontOffsetY;
+}
+
+//------------------------------------------------------------------------------------
+// GdtfGeometry
+GdtfGeometry::GdtfGeometry( GdtfGeometry* parent )
+{
+	fParent			= parent;
+	fUniqueName		= "";
+	fMatrix			= VWTransformMatrix();
+	fModelReference = nullptr;
+}
+
+GdtfGeometry::GdtfGeometry(const TXString& name, GdtfModelPtr refToModel,const VWTransformMatrix& ma, GdtfGeometry* parent)
+{
+	fParent			= parent;
+	fUniqueName		= name;
+	fMatrix			= ma;
+	fModelReference = refToModel;
+}
+
+GdtfGeometry::~GdtfGeometry()
+{
+	for (GdtfGeometryPtr ptr : fInternalGeometries) { delete ptr; }
+}
+
+void GdtfGeometry::SetName(const TXString &name)
+{
+	fUniqueName = name;
+}
+
+void GdtfGeometry::SetTransformMatrix(const VWFC::Math::VWTransformMatrix &ma)
+{
+	fMatrix = ma;
+}
+
+void GdtfGeometry::SetModel(GdtfModelPtr model)
+{
+	fModelReference = model;
+}
+
+GdtfGeometryPtr GdtfGeometry::AddGeometryWithAxis(const TXString& name, GdtfModelPtr refToModel,const VWTransformMatrix& ma)
+{
+	GdtfGeometryAxis* axis = new GdtfGeometryAxis(name, refToModel, ma, this);
+	
+	fInternalGeometries.push_back(axis);
+	
+	return axis;
+}
+
+GdtfGeometryPtr GdtfGeometry::AddGeometryWithLamp(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
+{
+	GdtfGeometryLamp* lamp = new GdtfGeometryLamp(name, refToModel, ma, this);
+	
+	fInternalGeometries.push_back(lamp);
+	
+	return lamp;
+}
+
+GdtfGeometryPtr GdtfGeometry::AddGeometry(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
+{
+	GdtfGeometry* geo = new GdtfGeometry(name, refToModel, ma, this);
+	
+	fInternalGeometries.push_back(geo);
+	
+	return geo;
+}
+
+GdtfGeometryPtr GdtfGeometry::AddGeometryReference(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
+{
+	GdtfGeometry* geo = new GdtfGeometryReference(name, refToModel, ma, this);
+	
+	fInternalGeometries.push_back(geo);
+	
+	return geo;
+}
+
+GdtfGeometryPtr GdtfGeometry::AddGeometryShaper(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
+{
+	GdtfGeometry* geo = new GdtfGeometryShaperFilter(name, refToModel, ma, this);
+	
+	fInternalGeometries.push_back(geo);
+	
+	return geo;
+}
+
+GdtfGeometryPtr GdtfGeometry::AddGeometryColor(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
+{
+	GdtfGeometry* geo = new GdtfGeometryColorFilter(name, refToModel, ma, this);
+	
+	fInternalGeometries.push_back(geo);
+	
+	return geo;
+}
+
+GdtfGeometryPtr GdtfGeometry::AddGeometryGobo(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
+{
+	GdtfGeometry* geo = new GdtfGeometryGoboFilter(name, refToModel, ma, this);
+	
+	fInternalGeometries.push_back(geo);
+	
+	return geo;
+}
+
+GdtfGeometryPtr GdtfGeometry::AddGeometryBeam(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
+{
+	GdtfGeometry* geo = new GdtfGeometryBeamFilter(name, refToModel, ma, this);
+	
+	fInternalGeometries.push_back(geo);
+	
+	return geo;
+}
+
+GdtfGeometryPtr GdtfGeometry::AddGeometryMediaServerCamera(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
+{
+	GdtfGeometry* geo = new GdtfGeometryMediaServerCamera(name, refToModel, ma, this);
+	
+	fInternalGeometries.push_back(geo);
+	
+	return geo;
+}
+
+GdtfGeometryPtr GdtfGeometry::AddGeometryMediaServerLayer(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
+{
+	GdtfGeometry* geo = new GdtfGeometryMediaServerLayer(name, refToModel, ma, this);
+	
+	fInternalGeometries.push_back(geo);
+	
+	return geo;
+}
+
+GdtfGeometryPtr GdtfGeometry::AddGeometryMediaServerMaster(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
+{
+	GdtfGeometry* geo = new GdtfGeometryMediaServerMaster(name, refToModel, ma, this);
+	
+	fInternalGeometries.push_back(geo);
+	
+	return geo;
+}
+
+GdtfGeometryPtr GdtfGeometry::AddGeometryDisplay(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
+{
+	GdtfGeometry* geo = new GdtfGeometryDisplay(name, refToModel, ma, this);
+
+	fInternalGeometries.push_back(geo);
+
+	return geo;
+}
+
+GdtfGeometryPtr GdtfGeometry::AddGeometryLaser(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
+{
+	GdtfGeometry* geo = new GdtfGeometryLaser(name, refToModel, ma, this);
+
+	fInternalGeometries.push_back(geo);
+
+	return geo;
+}
+
+GdtfGeometryPtr GdtfGeometry::AddGeometryWiringObject(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
+{
+	GdtfGeometry* geo = new GdtfGeometryWiringObject(name, refToModel, ma, this);
+
+	fInternalGeometries.push_back(geo);
+
+	return geo;
+}
+
+GdtfGeometryPtr GdtfGeometry::AddGeometryInventory(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
+{
+	GdtfGeometry* geo = new GdtfGeometryInventory(name, refToModel, ma, this);
+
+	fInternalGeometries.push_back(geo);
+
+	return geo;
+}
+
+GdtfGeometryPtr GdtfGeometry::AddGeometryStructure(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
+{
+	GdtfGeometry* geo = new GdtfGeometryStructure(name, refToModel, ma, this);
+
+	fInternalGeometries.push_back(geo);
+
+	return geo;
+}
+
+GdtfGeometryPtr GdtfGeometry::AddGeometrySupport(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
+{
+	GdtfGeometry* geo = new GdtfGeometrySupport(name, refToModel, ma, this);
+
+	fInternalGeometries.push_back(geo);
+
+	return geo;
+}
+
+GdtfGeometryPtr GdtfGeometry::AddGeometryMagnet(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
+{
+	GdtfGeometry* geo = new GdtfGeometryMagnet(name, refToModel, ma, this);
+
+	fInternalGeometries.push_back(geo);
+
+	return geo;
+}
+
+void GdtfGeometry::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnPrintToFile(pNode);
+	
+	
+	// ------------------------------------------------------------------------------------
+	// Print node attributes
+	pNode->SetNodeAttributeValue(XML_GDTF_GeometryName,				fUniqueName);
+	
+	pNode->SetNodeAttributeValue(XML_GDTF_GeometryMatrix,			GdtfConverter::ConvertMatrix(fMatrix, true));
+
+	if (fModelReference) { pNode->SetNodeAttributeValue(XML_GDTF_GeometryModelRef,	fModelReference->GetNodeReference()); }
+	
+	// ------------------------------------------------------------------------------------
+	// Print Internal geometry
+	for (GdtfGeometry* geoObj : fInternalGeometries)
+	{
+		geoObj->WriteToNode(pNode);
+	}
+}
+
+void GdtfGeometry::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnReadFromNode(pNode);
+	
+	// Get Node Name
+	pNode->GetNodeAttributeValue(XML_GDTF_GeometryName,				fUniqueName);
+	
+	// Get Matrix
+	TXString matrix;
+	pNode->GetNodeAttributeValue(XML_GDTF_GeometryMatrix,			matrix);
+	GdtfConverter::ConvertMatrix(matrix, pNode, fMatrix);
+	
+	// Get Node Reference
+	pNode->GetNodeAttributeValue(XML_GDTF_GeometryModelRef,			fUnresolvedModelRef);
+	
+	// ------------------------------------------------------------------------------------
+	// Print geometries
+	GdtfConverter::TraverseMultiNodes(pNode, "", [this] (IXMLFileNodePtr objNode,const TXString& childNodeName) -> void
+									{
+										bool hasBreak = false;
+										
+										GdtfGeometryPtr geometry = nullptr;
+										if	  (childNodeName == XML_GDTF_GeometryAxisNodeName)			{ geometry = new GdtfGeometryAxis(this);}
+										else if (childNodeName == XML_GDTF_GeometryNodeName)			{ geometry = new GdtfGeometry(this);}
+										else if (childNodeName == XML_GDTF_FilterBeamNodeName)			{ geometry = new GdtfGeometryBeamFilter(this);}
+										else if (childNodeName == XML_GDTF_FilterColorNodeName)			{ geometry = new GdtfGeometryColorFilter(this);}
+										else if (childNodeName == XML_GDTF_FilterGoboNodeName)			{ geometry = new GdtfGeometryGoboFilter(this);}
+										else if (childNodeName == XML_GDTF_FilterShaperNodeName)		{ geometry = new GdtfGeometryShaperFilter(this);}
+										else if (childNodeName == XML_GDTF_LampNodeName)				{ geometry = new GdtfGeometryLamp(this);}
+										else if (childNodeName == XML_GDTF_MediaServerCameraNodeName)	{ geometry = new GdtfGeometryMediaServerCamera(this);}
+										else if (childNodeName == XML_GDTF_MediaServerLayerNodeName)	{ geometry = new GdtfGeometryMediaServerLayer(this);}
+										else if (childNodeName == XML_GDTF_MediaServerMasterNodeName)	{ geometry = new GdtfGeometryMediaServerMaster(this);}
+										else if (childNodeName == XML_GDTF_GeometryReferenceNodeName)	{ geometry = new GdtfGeometryReference(this);}
+										else if (childNodeName == XML_GDTF_DisplayNodeName)				{ geometry = new GdtfGeometryDisplay(this);}
+										else if (childNodeName == XML_GDTF_LaserNodeName)				{ geometry = new GdtfGeometryLaser(this);}
+										else if (childNodeName == XML_GDTF_WiringObjectNodeName)		{ geometry = new GdtfGeometryWiringObject(this);}
+										else if (childNodeName == XML_GDTF_InventoryNodeName)			{ geometry = new GdtfGeometryInventory(this);}
+										else if (childNodeName == XML_GDTF_StructureNodeName)			{ geometry = new GdtfGeometryStructure(this);}
+										else if (childNodeName == XML_GDTF_SupportNodeName)				{ geometry = new GdtfGeometrySupport(this);}
+										else if (childNodeName == XML_GDTF_MagnetNodeName)				{ geometry = new GdtfGeometryMagnet(this);}
+										else if (childNodeName == XML_GDTF_BreakNodeName)				{ hasBreak = true; }
+										else if (childNodeName == XML_GDTF_LaserProtocolNodeName)		{ return; /* Laser Protocols are handled in the Laser OnReadFromNode function */ }
+										else if (childNodeName == XML_GDTF_PinPatchNodeName)			{ return; /* Pin Patches are handled in the WiringObject OnReadFromNode function */ }
+										else															{ DSTOP((kEveryone,"There is a node that was not expected!")); }
+										
+										
+										if (hasBreak)
+										{
+											// This is only allowed in Geometry Refs
+											ASSERTN(kEveryone, this->GetObjectType() == eGdtfGeometryReference);
+											if (this->GetObjectType() == eGdtfGeometryReference)
+											{
+												GdtfBreakPtr breakObj = new GdtfBreak();
+												breakObj->ReadFromNode(objNode);
+												
+												GdtfGeometryReferencePtr refGeo = static_cast<GdtfGeometryReferencePtr>(this);
+												refGeo->fBreaks.push_back(breakObj);
+												return;
+											}
+											else
+											{
+												GdtfParsingError error (GdtfDefines::EGdtfParsingError::eBreakObjectInNonGeometryReference, objNode);
+												SceneData::GdtfFixture::AddError(error);
+											}
+										}
+										
+										ASSERTN(kEveryone, geometry != nullptr);
+										if (geometry)
+										{
+											geometry->ReadFromNode(objNode);
+											fInternalGeometries.push_back(geometry);
+										}
+										else
+										{
+											GdtfParsingError error (GdtfDefines::EGdtfParsingError::eNodeWrongName, objNode);
+											SceneData::GdtfFixture::AddError(error);
+										}
+										return;
+									});
+}
+
+void GdtfGeometry::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	needed.push_back(XML_GDTF_GeometryName);
+	needed.push_back(XML_GDTF_GeometryMatrix);
+	
+	TXStringArray optional;
+	optional.push_back(XML_GDTF_GeometryModelRef);
+
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+GdtfModelPtr GdtfGeometry::GetModelRef() const
+{
+	return fModelReference;
+}
+
+void GdtfGeometry::GetTransformMatrix(VWTransformMatrix& ma) const
+{
+	ma = fMatrix;
+}
+
+const TXString& GdtfGeometry::GetUnresolvedModelRef() const
+{
+	return fUnresolvedModelRef;
+}
+
+void GdtfGeometry::SetUnresolvedModelRef(GdtfModelPtr ref)
+{
+	ASSERTN(kEveryone, ref != nullptr);
+	fModelReference = ref;
+}
+
+TXString GdtfGeometry::GetNodeName()
+{
+	return XML_GDTF_GeometryNodeName;
+}
+
+EGdtfObjectType GdtfGeometry::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfGeometry;
+}
+
+const TXString& GdtfGeometry::GetName() const
+{
+	return fUniqueName;
+}
+
+const std::vector<GdtfGeometry*>& GdtfGeometry::GetInternalGeometries()
+{
+	return fInternalGeometries;
+}
+
+TXString GdtfGeometry::GetNodeReference()
+{
+	TXString nodeRef;
+	nodeRef = GetName();
+	return nodeRef;
+}
+
+GdtfGeometryPtr GdtfGeometry::GetParentGeometry()
+{
+	return fParent;
+}
+
+//------------------------------------------------------------------------------------
+// GdtfGeometryAxis
+GdtfGeometryAxis::GdtfGeometryAxis(GdtfGeometry* parent) 
+				: GdtfGeometry(parent)
+{
+	
+}
+
+GdtfGeometryAxis::GdtfGeometryAxis(const TXString& name, GdtfModelPtr refToModel,const VWTransformMatrix& ma, GdtfGeometry* parent)
+				: GdtfGeometry(name,refToModel,ma, parent)
+{
+
+}
+
+GdtfGeometryAxis::~GdtfGeometryAxis()
+{
+}
+
+void GdtfGeometryAxis::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfGeometry::OnPrintToFile(pNode);
+	
+
+}
+
+void GdtfGeometryAxis::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfGeometry::OnReadFromNode(pNode);
+	
+}
+
+void GdtfGeometryAxis::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_GeometryName);
+	optional.push_back(XML_GDTF_GeometryModelRef);
+	needed.push_back(XML_GDTF_GeometryMatrix);
+	
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfGeometryAxis::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfGeometryAxis;
+}
+
+TXString GdtfGeometryAxis::GetNodeName()
+{
+	return XML_GDTF_GeometryAxisNodeName;
+}
+
+//------------------------------------------------------------------------------------
+// GdtfGeometryBeamFilter
+GdtfGeometryBeamFilter::GdtfGeometryBeamFilter(GdtfGeometry* parent) : GdtfGeometry(parent)
+{
+	
+}
+
+GdtfGeometryBeamFilter::GdtfGeometryBeamFilter(const TXString& name, GdtfModelPtr refToModel,const VWTransformMatrix& ma, GdtfGeometry* parent) : GdtfGeometry(name,refToModel,ma, parent)
+{
+
+}
+
+GdtfGeometryBeamFilter::~GdtfGeometryBeamFilter()
+{
+}
+
+void GdtfGeometryBeamFilter::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfGeometry::OnPrintToFile(pNode);
+	
+}
+
+void GdtfGeometryBeamFilter::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfGeometry::OnReadFromNode(pNode);
+}
+
+void GdtfGeometryBeamFilter::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_GeometryName);
+	optional.push_back(XML_GDTF_GeometryModelRef);
+	needed.push_back(XML_GDTF_GeometryMatrix);
+
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfGeometryBeamFilter::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfGeometryBeamFilter;
+}
+
+TXString GdtfGeometryBeamFilter::GetNodeName()
+{
+	return XML_GDTF_FilterBeamNodeName;
+}
+
+//------------------------------------------------------------------------------------
+// GdtfGeometryColorFilter
+GdtfGeometryColorFilter::GdtfGeometryColorFilter(GdtfGeometry* parent) 
+					   : GdtfGeometry(parent)
+{
+	
+}
+
+GdtfGeometryColorFilter::GdtfGeometryColorFilter(const TXString& name, GdtfModelPtr refToModel,const VWTransformMatrix& ma, GdtfGeometry* parent) 
+					   : GdtfGeometry(name,refToModel,ma, parent)
+{
+	
+}
+
+GdtfGeometryColorFilter::~GdtfGeometryColorFilter()
+{
+}
+
+void GdtfGeometryColorFilter::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfGeometry::OnPrintToFile(pNode);
+	
+}
+
+void GdtfGeometryColorFilter::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfGeometry::OnReadFromNode(pNode);
+}
+
+void GdtfGeometryColorFilter::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_GeometryName);
+	optional.push_back(XML_GDTF_GeometryModelRef);
+	needed.push_back(XML_GDTF_GeometryMatrix);
+
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfGeometryColorFilter::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfGeometryColorFilter;
+}
+
+TXString GdtfGeometryColorFilter::GetNodeName()
+{
+	return XML_GDTF_FilterColorNodeName;
+}
+
+//------------------------------------------------------------------------------------
+// GdtfGeometryShaperFilter
+GdtfGeometryShaperFilter::GdtfGeometryShaperFilter(GdtfGeometry* parent) 
+						: GdtfGeometry(parent)
+{
+	
+}
+
+GdtfGeometryShaperFilter::GdtfGeometryShaperFilter(const TXString& name, GdtfModelPtr refToModel,const VWTransformMatrix& ma, GdtfGeometry* parent) 
+						: GdtfGeometry(name,refToModel,ma, parent)
+{
+	
+}
+
+GdtfGeometryShaperFilter::~GdtfGeometryShaperFilter()
+{
+}
+
+void GdtfGeometryShaperFilter::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfGeometry::OnPrintToFile(pNode);
+	
+}
+
+void GdtfGeometryShaperFilter::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfGeometry::OnReadFromNode(pNode);
+}
+
+void GdtfGeometryShaperFilter::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_GeometryName);
+	optional.push_back(XML_GDTF_GeometryModelRef);
+	needed.push_back(XML_GDTF_GeometryMatrix);
+
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfGeometryShaperFilter::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfGeometryShaperFilter;
+}
+
+TXString GdtfGeometryShaperFilter::GetNodeName()
+{
+	return XML_GDTF_FilterShaperNodeName;
+}
+
+//------------------------------------------------------------------------------------
+// GdtfGeometryGoboFilter
+GdtfGeometryGoboFilter::GdtfGeometryGoboFilter(GdtfGeometry* parent) : GdtfGeometry(parent)
+{
+	
+}
+
+GdtfGeometryGoboFilter::GdtfGeometryGoboFilter(const TXString& name, GdtfModelPtr refToModel,const VWTransformMatrix& ma, GdtfGeometry* parent) 
+					  : GdtfGeometry(name,refToModel,ma, parent)
+{
+	
+}
+
+GdtfGeometryGoboFilter::~GdtfGeometryGoboFilter()
+{
+}
+
+void GdtfGeometryGoboFilter::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfGeometry::OnPrintToFile(pNode);
+	
+}
+
+void GdtfGeometryGoboFilter::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfGeometry::OnReadFromNode(pNode);
+}
+
+void GdtfGeometryGoboFilter::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_GeometryName);
+	optional.push_back(XML_GDTF_GeometryModelRef);
+	needed.push_back(XML_GDTF_GeometryMatrix);
+
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfGeometryGoboFilter::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfGeometryGoboFilter;
+}
+
+TXString GdtfGeometryGoboFilter::GetNodeName()
+{
+	return XML_GDTF_FilterGoboNodeName;
+}
+
+//------------------------------------------------------------------------------------
+// GdtfGeometryMediaServerCamera
+GdtfGeometryMediaServerCamera::GdtfGeometryMediaServerCamera(GdtfGeometry* parent) : GdtfGeometry(parent)
+{
+	
+}
+
+GdtfGeometryMediaServerCamera::GdtfGeometryMediaServerCamera(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma, GdtfGeometry* parent) 
+					  		 : GdtfGeometry(name, refToModel, ma, parent)
+{
+	
+}
+
+GdtfGeometryMediaServerCamera::~GdtfGeometryMediaServerCamera()
+{
+}
+
+void GdtfGeometryMediaServerCamera::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfGeometry::OnPrintToFile(pNode);
+	
+}
+
+void GdtfGeometryMediaServerCamera::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfGeometry::OnReadFromNode(pNode);
+}
+
+void GdtfGeometryMediaServerCamera::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_GeometryName);
+	optional.push_back(XML_GDTF_GeometryModelRef);
+	needed.push_back(XML_GDTF_GeometryMatrix);
+
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfGeometryMediaServerCamera::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfGeometryMediaServerCamera;
+}
+
+TXString GdtfGeometryMediaServerCamera::GetNodeName()
+{
+	return XML_GDTF_MediaServerCameraNodeName;
+}
+
+//------------------------------------------------------------------------------------
+// GdtfGeometryMediaServerLayer
+GdtfGeometryMediaServerLayer::GdtfGeometryMediaServerLayer(GdtfGeometry* parent) : GdtfGeometry(parent)
+{
+	
+}
+
+GdtfGeometryMediaServerLayer::GdtfGeometryMediaServerLayer(const TXString& name, GdtfModelPtr refToModel,const VWTransformMatrix& ma, GdtfGeometry* parent) 
+					  		: GdtfGeometry(name,refToModel,ma, parent)
+{
+	
+}
+
+GdtfGeometryMediaServerLayer::~GdtfGeometryMediaServerLayer()
+{
+}
+
+void GdtfGeometryMediaServerLayer::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfGeometry::OnPrintToFile(pNode);
+	
+}
+
+void GdtfGeometryMediaServerLayer::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfGeometry::OnReadFromNode(pNode);
+}
+
+void GdtfGeometryMediaServerLayer::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_GeometryName);
+	optional.push_back(XML_GDTF_GeometryModelRef);
+	needed.push_back(XML_GDTF_GeometryMatrix);
+
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfGeometryMediaServerLayer::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfGeometryMediaServerLayer;
+}
+
+TXString GdtfGeometryMediaServerLayer::GetNodeName()
+{
+	return XML_GDTF_MediaServerLayerNodeName;
+}
+
+//------------------------------------------------------------------------------------
+// GdtfGeometryMediaServerMaster
+GdtfGeometryMediaServerMaster::GdtfGeometryMediaServerMaster(GdtfGeometry* parent) : GdtfGeometry(parent)
+{
+	
+}
+
+GdtfGeometryMediaServerMaster::GdtfGeometryMediaServerMaster(const TXString& name, GdtfModelPtr refToModel,const VWTransformMatrix& ma, GdtfGeometry* parent) 
+					  		 : GdtfGeometry(name,refToModel,ma, parent)
+{
+	
+}
+
+GdtfGeometryMediaServerMaster::~GdtfGeometryMediaServerMaster()
+{
+}
+
+void GdtfGeometryMediaServerMaster::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfGeometry::OnPrintToFile(pNode);
+	
+}
+
+void GdtfGeometryMediaServerMaster::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfGeometry::OnReadFromNode(pNode);
+}
+
+void GdtfGeometryMediaServerMaster::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_GeometryName);
+	optional.push_back(XML_GDTF_GeometryModelRef);
+	needed.push_back(XML_GDTF_GeometryMatrix);
+
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfGeometryMediaServerMaster::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfGeometryMediaServerMaster;
+}
+
+TXString GdtfGeometryMediaServerMaster::GetNodeName()
+{
+	return XML_GDTF_MediaServerMasterNodeName;
+}
+
+//------------------------------------------------------------------------------------
+// GdtfGeometryDisplay
+GdtfGeometryDisplay::GdtfGeometryDisplay(GdtfGeometry* parent)
+					:GdtfGeometry(parent)
+{
+	fTexture = "";
+}
+
+GdtfGeometryDisplay::GdtfGeometryDisplay(const TXString& name, GdtfModelPtr refToModel,const VWTransformMatrix& ma, GdtfGeometry* parent) 
+					:GdtfGeometry(name,refToModel,ma, parent)
+{
+	fTexture = "";
+}
+
+GdtfGeometryDisplay::~GdtfGeometryDisplay()
+{
+}
+
+const TXString& GdtfGeometryDisplay::GetTexture() 
+{
+	return fTexture;
+}
+
+void GdtfGeometryDisplay::SetTexture(const TXString& texture) 
+{
+	fTexture = texture;
+}
+
+const size_t& GdtfGeometryDisplay::GetWidth() const
+{
+	return fWidth;
+}
+
+void GdtfGeometryDisplay::SetWidth( size_t width )
+{
+	fWidth = width;
+}
+
+const size_t& GdtfGeometryDisplay::GetHeight() const
+{
+	return fHeight;
+}
+
+void GdtfGeometryDisplay::SetHeight( size_t height )
+{
+	fHeight = height;
+}
+
+void GdtfGeometryDisplay::SetIsCurved( const bool& isCurved )
+{
+	fIsCurved = isCurved;
+}
+
+void GdtfGeometryDisplay::GetIsCurved( bool& curvedRadius ) const
+{
+	curvedRadius = fIsCurved;
+}
+
+void GdtfGeometryDisplay::OnPrintToFile(IXMLFileNodePtr pNode) 
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfGeometry::OnPrintToFile(pNode);
+	pNode->SetNodeAttributeValue( XML_GDTF_DisplayTexture,		fTexture );
+	pNode->SetNodeAttributeValue( XML_GDTF_DisplayWidth,		GdtfConverter::ConvertInteger(fWidth) );
+	pNode->SetNodeAttributeValue( XML_GDTF_DisplayHeight,		GdtfConverter::ConvertInteger( fHeight ) );
+	pNode->SetNodeAttributeValue( XML_GDTF_DisplayIsCurved,		fIsCurved ? "true" : "false" );
+}
+
+void GdtfGeometryDisplay::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfGeometry::OnReadFromNode(pNode);
+
+	TXString width, height, isCurved = "";
+
+	pNode->GetNodeAttributeValue( XML_GDTF_DisplayTexture, fTexture);
+	pNode->GetNodeAttributeValue( XML_GDTF_DisplayWidth, width );
+	pNode->GetNodeAttributeValue( XML_GDTF_DisplayHeight, height );
+	pNode->GetNodeAttributeValue( XML_GDTF_DisplayIsCurved, isCurved );
+
+	GdtfConverter::ConvertInteger(	width,			pNode,		fWidth );
+	GdtfConverter::ConvertInteger(	height,			pNode,		fHeight );
+	GdtfConverter::ConvertBool(		isCurved,		pNode,		fIsCurved );
+}
+
+void GdtfGeometryDisplay::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_GeometryName);
+	optional.push_back(XML_GDTF_GeometryModelRef);
+	needed.push_back(XML_GDTF_GeometryMatrix);
+	needed.push_back(XML_GDTF_DisplayTexture);
+	optional.push_back(XML_GDTF_DisplayWidth);
+	optional.push_back(XML_GDTF_DisplayHeight);
+	optional.push_back(XML_GDTF_DisplayIsCurved);
+
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfGeometryDisplay::GetObjectType() 
+{
+	return EGdtfObjectType::eGdtfGeometryDisplay;
+}
+
+TXString GdtfGeometryDisplay::GetNodeName()
+{
+	return XML_GDTF_DisplayNodeName;
+}
+
+//------------------------------------------------------------------------------------
+// GdtfLaserProtocol
+GdtfLaserProtocol::GdtfLaserProtocol()
+{
+	fName = "";
+}
+
+GdtfLaserProtocol::GdtfLaserProtocol(const TXString& name)
+{
+	fName = name;
+}
+
+GdtfLaserProtocol::~GdtfLaserProtocol()
+{
+}
+
+const TXString&	GdtfLaserProtocol::GetName() const
+{
+	return fName;
+}
+
+void GdtfLaserProtocol::SetName(const TXString& name)
+{
+	fName = name;
+}
+
+void GdtfLaserProtocol::OnPrintToFile(IXMLFileNodePtr pNode) 
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnPrintToFile(pNode);
+
+	pNode->SetNodeAttributeValue(XML_GDTF_LaserProtocolName, fName);
+}
+
+void GdtfLaserProtocol::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnReadFromNode(pNode);
+
+	pNode->GetNodeAttributeValue(XML_GDTF_LaserProtocolName, fName);
+}
+
+void GdtfLaserProtocol::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_LaserProtocolName);
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfLaserProtocol::GetObjectType() 
+{
+	return EGdtfObjectType::eGdtfLaserProtocol;
+}
+
+TXString GdtfLaserProtocol::GetNodeName()
+{
+	return XML_GDTF_LaserProtocolNodeName;
+}
+
+//------------------------------------------------------------------------------------
+// GdtfGeometryLaser
+GdtfGeometryLaser::GdtfGeometryLaser(GdtfGeometry* parent)
+					:GdtfGeometry(parent)
+{
+	fColorType 	= EGdtfLaserColorType::RGB;
+	fEmitter 	= nullptr;
+}
+
+GdtfGeometryLaser::GdtfGeometryLaser(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma, GdtfGeometry* parent) 
+					:GdtfGeometry(name, refToModel, ma, parent)
+{
+	fColorType 	= EGdtfLaserColorType::RGB;
+	fEmitter 	= nullptr;
+}
+
+GdtfGeometryLaser::~GdtfGeometryLaser()
+{
+	for(GdtfLaserProtocolPtr laserProtocol : fLaserProtocols) { delete laserProtocol; }
+}
+
+EGdtfLaserColorType	GdtfGeometryLaser::GetColorType() const
+{
+	return fColorType;
+}
+
+double GdtfGeometryLaser::GetColor() const
+{
+	return fColor;
+}
+double GdtfGeometryLaser::GetOutputStrength() const
+{
+	return fOutputStrength;
+}
+
+GdtfPhysicalEmitter* GdtfGeometryLaser::GetEmitter() const
+{
+	return fEmitter;
+}
+
+double GdtfGeometryLaser::GetBeamDiameter() const
+{
+	return fBeamDiameter;
+}
+
+double GdtfGeometryLaser::GetBeamDivergenceMin() const
+{
+	return fBeamDivergenceMin;
+}
+
+double GdtfGeometryLaser::GetBeamDivergenceMax() const
+{
+	return fBeamDivergenceMax;
+}
+
+double GdtfGeometryLaser::GetScanAnglePan() const
+{
+	return fScanAnglePan;
+}
+
+double GdtfGeometryLaser::GetScanAngleTilt() const
+{
+	return fScanAngleTilt;
+}
+
+double GdtfGeometryLaser::GetScanSpeed() const
+{
+	return fScanSpeed;
+}
+
+const TXString&	GdtfGeometryLaser::GetUnresolvedEmitter() const
+{
+	return fUnresolvedEmitter;
+}
+
+const TGdtfLaserProtocolArray& GdtfGeometryLaser::GetLaserProtocolArray() const
+{
+	return fLaserProtocols;
+}
+
+void GdtfGeometryLaser::SetColorType(const EGdtfLaserColorType& colorType)
+{
+	fColorType = colorType;
+}
+
+void GdtfGeometryLaser::SetColor(double waveLength)
+{
+	fColor = waveLength;
+}
+
+void GdtfGeometryLaser::SetOutputStrength(double outputStrength)
+{
+	fOutputStrength = outputStrength;
+}
+
+void GdtfGeometryLaser::SetEmitter(GdtfPhysicalEmitter* emitter)
+{
+	fEmitter = emitter;
+}
+
+void GdtfGeometryLaser::SetBeamDiameter(double beamDiameter)
+{
+	fBeamDiameter = beamDiameter;
+}
+
+void GdtfGeometryLaser::SetBeamDivergenceMin(double beamDivergenceMin)
+{
+	fBeamDivergenceMin = beamDivergenceMin;
+}
+
+void GdtfGeometryLaser::SetBeamDivergenceMax(double beamDivergenceMax)
+{
+	fBeamDivergenceMax = beamDivergenceMax;
+}
+
+void GdtfGeometryLaser::SetScanAnglePan(double scanAnglePan)
+{
+	fScanAnglePan = scanAnglePan;
+}
+
+void GdtfGeometryLaser::SetScanAngleTilt(double scanAngleTilt)
+{
+	fScanAngleTilt = scanAngleTilt;
+}
+
+void GdtfGeometryLaser::SetScanSpeed(double scanSpeed)
+{
+	fScanSpeed = scanSpeed;
+}
+
+GdtfLaserProtocolPtr GdtfGeometryLaser::CreateLaserProtocol(const TXString& name)
+{
+	GdtfLaserProtocolPtr laserProtocol = new GdtfLaserProtocol(name);
+    fLaserProtocols.push_back(laserProtocol);
+	return laserProtocol;
+}
+
+void GdtfGeometryLaser::OnPrintToFile(IXMLFileNodePtr pNode) 
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfGeometry::OnPrintToFile(pNode);
+
+	// Attributes
+	pNode->SetNodeAttributeValue(XML_GDTF_LaserColorType, 			GdtfConverter::ConvertLaserColorTypeEnum(fColorType));
+	pNode->SetNodeAttributeValue(XML_GDTF_LaserColor,				GdtfConverter::ConvertDouble(fColor));
+	pNode->SetNodeAttributeValue(XML_GDTF_LaserOutputStrength,		GdtfConverter::ConvertDouble(fOutputStrength));
+	if(fEmitter)	{ pNode->SetNodeAttributeValue(XML_GDTF_LaserEmitter, fEmitter->GetNodeReference()); }
+	pNode->SetNodeAttributeValue(XML_GDTF_LaserBeamDiameter,		GdtfConverter::ConvertDouble(fBeamDiameter));
+	pNode->SetNodeAttributeValue(XML_GDTF_LaserBeamDivergenceMin,	GdtfConverter::ConvertDouble(fBeamDivergenceMin));
+	pNode->SetNodeAttributeValue(XML_GDTF_LaserBeamDivergenceMax,	GdtfConverter::ConvertDouble(fBeamDivergenceMax));
+	pNode->SetNodeAttributeValue(XML_GDTF_LaserScanAnglePan,		GdtfConverter::ConvertDouble(fScanAnglePan));
+	pNode->SetNodeAttributeValue(XML_GDTF_LaserScanAngleTilt,		GdtfConverter::ConvertDouble(fScanAngleTilt));
+	pNode->SetNodeAttributeValue(XML_GDTF_LaserScanSpeed,			GdtfConverter::ConvertDouble(fScanSpeed));
+
+	// Children
+	for(GdtfLaserProtocolPtr laserProtocol : fLaserProtocols)
+	{
+		laserProtocol->WriteToNode(pNode);
+	}
+}
+
+void GdtfGeometryLaser::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfGeometry::OnReadFromNode(pNode);
+
+	TXString colorType;			pNode->GetNodeAttributeValue(XML_GDTF_LaserColorType,			colorType);			GdtfConverter::ConvertLaserColorTypeEnum(colorType, pNode, fColorType);
+	TXString color;				pNode->GetNodeAttributeValue(XML_GDTF_LaserColor,				color);				GdtfConverter::ConvertDouble(color, pNode, fColor);
+	TXString outputStrength;	pNode->GetNodeAttributeValue(XML_GDTF_LaserOutputStrength,		outputStrength);	GdtfConverter::ConvertDouble(outputStrength, pNode, fOutputStrength);
+	pNode->GetNodeAttributeValue(XML_GDTF_LaserEmitter,	fUnresolvedEmitter);
+	TXString beamDiameter;		pNode->GetNodeAttributeValue(XML_GDTF_LaserBeamDiameter,		beamDiameter);		GdtfConverter::ConvertDouble(beamDiameter, pNode, fBeamDiameter);
+	TXString beamDivergenceMin;	pNode->GetNodeAttributeValue(XML_GDTF_LaserBeamDivergenceMin,	beamDivergenceMin);	GdtfConverter::ConvertDouble(beamDivergenceMin, pNode, fBeamDivergenceMin);
+	TXString beamDivergenceMax;	pNode->GetNodeAttributeValue(XML_GDTF_LaserBeamDivergenceMax,	beamDivergenceMax);	GdtfConverter::ConvertDouble(beamDivergenceMax, pNode, fBeamDivergenceMax);
+	TXString scanAnglePan;		pNode->GetNodeAttributeValue(XML_GDTF_LaserScanAnglePan,		scanAnglePan);		GdtfConverter::ConvertDouble(scanAnglePan, pNode, fScanAnglePan);
+	TXString scanAngleTilt;		pNode->GetNodeAttributeValue(XML_GDTF_LaserScanAngleTilt,		scanAngleTilt);		GdtfConverter::ConvertDouble(scanAngleTilt, pNode, fScanAngleTilt);
+	TXString scanSpeed;			pNode->GetNodeAttributeValue(XML_GDTF_LaserScanSpeed,			scanSpeed);			GdtfConverter::ConvertDouble(scanSpeed, pNode, fScanSpeed);
+
+	GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_LaserProtocolNodeName, [this] (IXMLFileNodePtr objNode) -> void
+								{ 
+									if ( CheckAbort() ) return;
+									GdtfLaserProtocolPtr laserProtocol = new GdtfLaserProtocol();
+									
+									laserProtocol->ReadFromNode(objNode);
+									
+									fLaserProtocols.push_back(laserProtocol);
+									return;
+								});
+}
+
+void GdtfGeometryLaser::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_GeometryName);
+	optional.push_back(XML_GDTF_GeometryModelRef);
+	needed.push_back(XML_GDTF_GeometryMatrix);
+
+	needed.push_back(XML_GDTF_LaserColorType);
+	if(fColorType == EGdtfLaserColorType::SingleWaveLength) { needed.push_back(XML_GDTF_LaserColor); }
+	else 													{ optional.push_back(XML_GDTF_LaserColor); }
+	needed.push_back(XML_GDTF_LaserOutputStrength);
+	optional.push_back(XML_GDTF_LaserEmitter);
+	needed.push_back(XML_GDTF_LaserBeamDiameter);
+	needed.push_back(XML_GDTF_LaserBeamDivergenceMin);
+	needed.push_back(XML_GDTF_LaserBeamDivergenceMax);
+	needed.push_back(XML_GDTF_LaserScanAnglePan);
+	needed.push_back(XML_GDTF_LaserScanAngleTilt);
+	needed.push_back(XML_GDTF_LaserScanSpeed);
+
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfGeometryLaser::GetObjectType() 
+{
+	return EGdtfObjectType::eGdtfGeometryLaser;
+}
+
+TXString GdtfGeometryLaser::GetNodeName()
+{
+	return XML_GDTF_LaserNodeName;
+}
+
+//------------------------------------------------------------------------------------
+// GdtfPinPatch
+GdtfPinPatch::GdtfPinPatch()
+{
+	fToWiringObject = nullptr;
+}
+
+GdtfPinPatch::GdtfPinPatch(GdtfGeometryWiringObjectPtr toWiringObject, size_t fromPin, size_t toPin)
+{
+	fToWiringObject = toWiringObject;
+	fFromPin 		= fromPin;
+	fToPin 			= toPin;
+}
+
+GdtfPinPatch::~GdtfPinPatch()
+{
+}
+
+GdtfGeometryWiringObjectPtr GdtfPinPatch::GetToWiringObject() const
+{
+	return fToWiringObject;
+}
+
+size_t GdtfPinPatch::GetFromPin() const
+{
+	return fFromPin;
+}
+
+size_t GdtfPinPatch::GetToPin() const
+{
+	return fToPin;
+}
+
+const TXString&	GdtfPinPatch::GetUnresolvedWiringObject() const
+{
+	return fUnresolvedWiringObject;
+}
+
+void GdtfPinPatch::SetToWiringObject(GdtfGeometryWiringObjectPtr toWiringObject)
+{
+	fToWiringObject = toWiringObject;
+}
+
+void GdtfPinPatch::SetFromPin(size_t fromPin)
+{
+	fFromPin = fromPin;
+}
+
+void GdtfPinPatch::SetToPin(size_t toPin)
+{
+	fToPin = toPin;
+}
+
+void GdtfPinPatch::OnPrintToFile(IXMLFileNodePtr pNode) 
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnPrintToFile(pNode);
+
+	if(fToWiringObject)	{ pNode->SetNodeAttributeValue(XML_GDTF_PinPatchToWiringObject, fToWiringObject->GetNodeReference()); }
+	pNode->SetNodeAttributeValue(XML_GDTF_PinPatchFromPin,	GdtfConverter::ConvertInteger(fFromPin));
+	pNode->SetNodeAttributeValue(XML_GDTF_PinPatchToPin,	GdtfConverter::ConvertInteger(fToPin));
+}
+
+void GdtfPinPatch::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnReadFromNode(pNode);
+
+	pNode->GetNodeAttributeValue(XML_GDTF_PinPatchToWiringObject, fUnresolvedWiringObject);
+	TXString fromPin;	pNode->GetNodeAttributeValue(XML_GDTF_PinPatchFromPin,	fromPin);	GdtfConverter::ConvertInteger(fromPin, 	pNode,	fFromPin);
+	TXString toPin;		pNode->GetNodeAttributeValue(XML_GDTF_PinPatchToPin,	toPin);		GdtfConverter::ConvertInteger(toPin, 	pNode,	fToPin);
+}
+
+void GdtfPinPatch::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_PinPatchToWiringObject);
+	needed.push_back(XML_GDTF_PinPatchFromPin);
+	needed.push_back(XML_GDTF_PinPatchToPin);
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfPinPatch::GetObjectType() 
+{
+	return EGdtfObjectType::eGdtfPinPatch;
+}
+
+TXString GdtfPinPatch::GetNodeName()
+{
+	return XML_GDTF_PinPatchNodeName;
+}
+
+//------------------------------------------------------------------------------------
+// GdtfGeometryWiringObject
+GdtfGeometryWiringObject::GdtfGeometryWiringObject(GdtfGeometry* parent)
+					:GdtfGeometry(parent)
+{
+	fComponentType 	= EGdtfComponentType::Input;
+	fOrientation 	= EGdtfOrientation::Left;
+	fFuseRating 	= EGdtfFuseRating::B;
+	fPinCount			= 0;
+	fSignalLayer		= 0;
+	fElectricalPayLoad	= 0; 
+	fVoltageRangeMin	= 0; 	
+	fVoltageRangeMax	= 0; 	
+	fFrequencyRangeMin	= 0; 
+	fFrequencyRangeMax	= 0; 
+	fCosPhi				= 0; 			
+	fMaxPayLoad			= 0;
+	fVoltage			= 0; 			
+	fFuseCurrent		= 0; 		
+}
+
+GdtfGeometryWiringObject::GdtfGeometryWiringObject(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma, GdtfGeometry* parent) 
+					:GdtfGeometry(name, refToModel, ma, parent)
+{
+	fComponentType 	= EGdtfComponentType::Input;
+	fOrientation 	= EGdtfOrientation::Left;
+	fFuseRating 	= EGdtfFuseRating::B;
+	fPinCount			= 0;
+	fSignalLayer		= 0;
+	fElectricalPayLoad	= 0; 
+	fVoltageRangeMin	= 0; 	
+	fVoltageRangeMax	= 0; 	
+	fFrequencyRangeMin	= 0; 
+	fFrequencyRangeMax	= 0; 
+	fCosPhi				= 0; 			
+	fMaxPayLoad			= 0;
+	fVoltage			= 0; 			
+	fFuseCurrent		= 0; 	
+}
+
+GdtfGeometryWiringObject::~GdtfGeometryWiringObject()
+{
+	for(GdtfPinPatchPtr pinPatch : fPinPatches) { delete pinPatch; }
+}
+
+const TXString&	GdtfGeometryWiringObject::GetConnectorType() const
+{
+	return fConnectorType;
+}
+
+EGdtfComponentType GdtfGeometryWiringObject::GetComponentType() const
+{
+	return fComponentType;
+}
+
+const TXString& GdtfGeometryWiringObject::GetSignalType() const
+{
+	return fSignalType;
+}
+
+size_t GdtfGeometryWiringObject::GetPinCount() const
+{
+	return fPinCount;
+}
+
+size_t GdtfGeometryWiringObject::GetSignalLayer() const
+{
+	return fSignalLayer;
+}
+
+EGdtfOrientation GdtfGeometryWiringObject::GetOrientation() const
+{
+	return fOrientation;
+}
+
+const TXString& GdtfGeometryWiringObject::GetWireGroup() const
+{
+	return fWireGroup;
+}
+
+double GdtfGeometryWiringObject::GetElectricalPayLoad() const
+{
+	return fElectricalPayLoad;
+}
+
+double GdtfGeometryWiringObject::GetVoltageRangeMin() const
+{
+	return fVoltageRangeMin;
+}
+
+double GdtfGeometryWiringObject::GetVoltageRangeMax() const
+{
+	return fVoltageRangeMax;
+}
+
+double GdtfGeometryWiringObject::GetFrequencyRangeMin() const
+{
+	return fFrequencyRangeMin;
+}
+
+double GdtfGeometryWiringObject::GetFrequencyRangeMax() const
+{
+	return fFrequencyRangeMax;
+}
+
+double GdtfGeometryWiringObject::GetCosPhi() const
+{
+	return fCosPhi;
+}
+
+double GdtfGeometryWiringObject::GetMaxPayLoad() const
+{
+	return fMaxPayLoad;
+}
+
+double GdtfGeometryWiringObject::GetVoltage() const
+{
+	return fVoltage;
+}
+
+double GdtfGeometryWiringObject::GetFuseCurrent() const
+{
+	return fFuseCurrent;
+}
+
+EGdtfFuseRating GdtfGeometryWiringObject::GetFuseRating() const
+{
+	return fFuseRating;
+}
+
+const TGdtfPinPatchArray& GdtfGeometryWiringObject::GetPinPatchArray() const
+{
+	return fPinPatches;
+}
+
+void GdtfGeometryWiringObject::SetConnectorType(const TXString& connectorType)
+{
+	fConnectorType = connectorType;
+}
+
+void GdtfGeometryWiringObject::SetComponentType(const EGdtfComponentType& componentType)
+{
+	fComponentType = componentType;
+}
+
+void GdtfGeometryWiringObject::SetSignalType(const TXString& signalType)
+{
+	fSignalType = signalType;
+}
+
+void GdtfGeometryWiringObject::SetPinCount(size_t pinCount)
+{
+	fPinCount = pinCount;
+}
+
+void GdtfGeometryWiringObject::SetSignalLayer(size_t signalLayer)
+{
+	fSignalLayer = signalLayer;
+}
+
+void GdtfGeometryWiringObject::SetOrientation(const EGdtfOrientation& orientation)
+{
+	fOrientation = orientation;
+}
+
+void GdtfGeometryWiringObject::SetWireGroup(const TXString& wireGroup)
+{
+	fWireGroup = wireGroup;
+}
+
+void GdtfGeometryWiringObject::SetElectricalPayLoad(double electricalPayLoad)
+{
+	fElectricalPayLoad = electricalPayLoad;
+}
+
+void GdtfGeometryWiringObject::SetVoltageRangeMin(double voltageRangeMin)
+{
+	fVoltageRangeMin = voltageRangeMin;
+}
+
+void GdtfGeometryWiringObject::SetVoltageRangeMax(double voltageRangeMax)
+{
+	fVoltageRangeMax = voltageRangeMax;
+}
+
+void GdtfGeometryWiringObject::SetFrequencyRangeMin(double frequencyRangeMin)
+{
+	fFrequencyRangeMin = frequencyRangeMin;
+}
+
+void GdtfGeometryWiringObject::SetFrequencyRangeMax(double frequencyRangeMax)
+{
+	fFrequencyRangeMax = frequencyRangeMax;
+}
+
+void GdtfGeometryWiringObject::SetCosPhi(double cosPhi)
+{
+	fCosPhi = cosPhi;
+}
+
+void GdtfGeometryWiringObject::SetMaxPayLoad(double maxPayload)
+{
+	fMaxPayLoad = maxPayload;
+}
+
+void GdtfGeometryWiringObject::SetVoltage(double voltage)
+{
+	fVoltage = voltage;
+}
+
+void GdtfGeometryWiringObject::SetFuseCurrent(double fuseCurrent)
+{
+	fFuseCurrent = fuseCurrent;
+}
+
+void GdtfGeometryWiringObject::SetFuseRating(const EGdtfFuseRating& fuseRating)
+{
+	fFuseRating = fuseRating;
+}
+
+GdtfPinPatchPtr GdtfGeometryWiringObject::CreatePinPatch(GdtfGeometryWiringObject* toWiringObject, size_t fromPin, size_t toPin)
+{
+	GdtfPinPatchPtr pinPatch = new GdtfPinPatch(toWiringObject, fromPin, toPin);
+    fPinPatches.push_back(pinPatch);
+	return pinPatch;
+}
+
+void GdtfGeometryWiringObject::OnPrintToFile(IXMLFileNodePtr pNode) 
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfGeometry::OnPrintToFile(pNode);
+
+	pNode->SetNodeAttributeValue(XML_GDTF_WiringObjectComponentType, 		GdtfConverter::ConvertComponentTypeEnum(fComponentType));
+	pNode->SetNodeAttributeValue(XML_GDTF_WiringObjectConnectorType, 		fConnectorType);
+	pNode->SetNodeAttributeValue(XML_GDTF_WiringObjectSignalType, 			fSignalType);
+	pNode->SetNodeAttributeValue(XML_GDTF_WiringObjectPinCount,				GdtfConverter::ConvertInteger(fPinCount));
+	pNode->SetNodeAttributeValue(XML_GDTF_WiringObjectSignalLayer,			GdtfConverter::ConvertInteger(fSignalLayer));
+	pNode->SetNodeAttributeValue(XML_GDTF_WiringObjectOrientation, 			GdtfConverter::ConvertOrientationEnum(fOrientation));
+	pNode->SetNodeAttributeValue(XML_GDTF_WiringObjectWireGroup, 			fWireGroup);
+	pNode->SetNodeAttributeValue(XML_GDTF_WiringObjectElectricalPayLoad,	GdtfConverter::ConvertDouble(fElectricalPayLoad));
+	pNode->SetNodeAttributeValue(XML_GDTF_WiringObjectVoltageRangeMin,		GdtfConverter::ConvertDouble(fVoltageRangeMin));
+	pNode->SetNodeAttributeValue(XML_GDTF_WiringObjectVoltageRangeMax,		GdtfConverter::ConvertDouble(fVoltageRangeMax));
+	pNode->SetNodeAttributeValue(XML_GDTF_WiringObjectFrequencyRangeMin,	GdtfConverter::ConvertDouble(fFrequencyRangeMin));
+	pNode->SetNodeAttributeValue(XML_GDTF_WiringObjectFrequencyRangeMax,	GdtfConverter::ConvertDouble(fFrequencyRangeMax));
+	pNode->SetNodeAttributeValue(XML_GDTF_WiringObjectCosPhi,				GdtfConverter::ConvertDouble(fCosPhi));
+	pNode->SetNodeAttributeValue(XML_GDTF_WiringObjectMaxPayLoad,			GdtfConverter::ConvertDouble(fMaxPayLoad));
+	pNode->SetNodeAttributeValue(XML_GDTF_WiringObjectVoltage,				GdtfConverter::ConvertDouble(fVoltage));
+	pNode->SetNodeAttributeValue(XML_GDTF_WiringObjectFuseCurrent,			GdtfConverter::ConvertDouble(fFuseCurrent));
+	pNode->SetNodeAttributeValue(XML_GDTF_WiringObjectFuseRating, 			GdtfConverter::ConvertFuseRatingEnum(fFuseRating));
+
+	for(GdtfPinPatchPtr pinPatch : fPinPatches)
+	{
+		pinPatch->WriteToNode(pNode);
+	}
+
+}
+
+void GdtfGeometryWiringObject::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfGeometry::OnReadFromNode(pNode);
+
+	TXString componentType;		pNode->GetNodeAttributeValue(XML_GDTF_WiringObjectComponentType, componentType); 			GdtfConverter::ConvertComponentTypeEnum(componentType, pNode, fComponentType);
+								pNode->GetNodeAttributeValue(XML_GDTF_WiringObjectConnectorType, fConnectorType);
+								pNode->GetNodeAttributeValue(XML_GDTF_WiringObjectSignalType, fSignalType);
+	TXString pinCount;			pNode->GetNodeAttributeValue(XML_GDTF_WiringObjectPinCount, pinCount); 						GdtfConverter::ConvertInteger(pinCount, pNode, fPinCount);
+	TXString signalLayer;		pNode->GetNodeAttributeValue(XML_GDTF_WiringObjectSignalLayer, signalLayer); 				GdtfConverter::ConvertInteger(signalLayer, pNode, fSignalLayer);
+	TXString orientation;		pNode->GetNodeAttributeValue(XML_GDTF_WiringObjectOrientation, orientation); 				GdtfConverter::ConvertOrientationEnum(orientation, pNode, fOrientation);
+								pNode->GetNodeAttributeValue(XML_GDTF_WiringObjectWireGroup, fWireGroup);
+	TXString electricalPayLoad;	pNode->GetNodeAttributeValue(XML_GDTF_WiringObjectElectricalPayLoad, electricalPayLoad); 	GdtfConverter::ConvertDouble(electricalPayLoad, pNode, fElectricalPayLoad);
+	TXString voltageRangeMin;	pNode->GetNodeAttributeValue(XML_GDTF_WiringObjectVoltageRangeMin, voltageRangeMin); 		GdtfConverter::ConvertDouble(voltageRangeMin, pNode, fVoltageRangeMin);
+	TXString voltageRangeMax;	pNode->GetNodeAttributeValue(XML_GDTF_WiringObjectVoltageRangeMax, voltageRangeMax); 		GdtfConverter::ConvertDouble(voltageRangeMax, pNode, fVoltageRangeMax);
+	TXString frequencyRangeMin;	pNode->GetNodeAttributeValue(XML_GDTF_WiringObjectFrequencyRangeMin, frequencyRangeMin); 	GdtfConverter::ConvertDouble(frequencyRangeMin, pNode, fFrequencyRangeMin);
+	TXString frequencyRangeMax;	pNode->GetNodeAttributeValue(XML_GDTF_WiringObjectFrequencyRangeMax, frequencyRangeMax); 	GdtfConverter::ConvertDouble(frequencyRangeMax, pNode, fFrequencyRangeMax);
+	TXString cosPhi;			pNode->GetNodeAttributeValue(XML_GDTF_WiringObjectCosPhi, cosPhi); 							GdtfConverter::ConvertDouble(cosPhi, pNode, fCosPhi);
+	TXString maxPayLoad;		pNode->GetNodeAttributeValue(XML_GDTF_WiringObjectMaxPayLoad, maxPayLoad); 					GdtfConverter::ConvertDouble(maxPayLoad, pNode, fMaxPayLoad);
+	TXString voltage;			pNode->GetNodeAttributeValue(XML_GDTF_WiringObjectVoltage, voltage); 						GdtfConverter::ConvertDouble(voltage, pNode, fVoltage);
+	TXString fuseCurrent;		pNode->GetNodeAttributeValue(XML_GDTF_WiringObjectFuseCurrent, fuseCurrent); 				GdtfConverter::ConvertDouble(fuseCurrent, pNode, fFuseCurrent);
+	TXString fuseRating;		pNode->GetNodeAttributeValue(XML_GDTF_WiringObjectFuseRating, fuseRating); 					GdtfConverter::ConvertFuseRatingEnum(fuseRating, pNode, fFuseRating);
+
+	GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_PinPatchNodeName, [this] (IXMLFileNodePtr objNode) -> void
+								{ 
+									if ( CheckAbort() ) return;		
+									GdtfPinPatchPtr pinPatch = new GdtfPinPatch();
+									
+									pinPatch->ReadFromNode(objNode);
+									
+									fPinPatches.push_back(pinPatch);
+									return;
+								});
+
+}
+
+void GdtfGeometryWiringObject::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_GeometryName);
+	optional.push_back(XML_GDTF_GeometryModelRef);
+	needed.push_back(XML_GDTF_GeometryMatrix);
+
+	needed.push_back(XML_GDTF_WiringObjectComponentType);
+	needed.push_back(XML_GDTF_WiringObjectConnectorType);
+	needed.push_back(XML_GDTF_WiringObjectSignalType);
+	needed.push_back(XML_GDTF_WiringObjectPinCount);
+	needed.push_back(XML_GDTF_WiringObjectSignalLayer);
+	needed.push_back(XML_GDTF_WiringObjectOrientation);
+	needed.push_back(XML_GDTF_WiringObjectWireGroup);
+	if(fComponentType == EGdtfComponentType::Consumer)
+	{
+		needed.push_back(XML_GDTF_WiringObjectElectricalPayLoad);
+		needed.push_back(XML_GDTF_WiringObjectVoltageRangeMin);
+		needed.push_back(XML_GDTF_WiringObjectVoltageRangeMax);
+		needed.push_back(XML_GDTF_WiringObjectFrequencyRangeMin);
+		needed.push_back(XML_GDTF_WiringObjectFrequencyRangeMax);
+		needed.push_back(XML_GDTF_WiringObjectCosPhi);
+	}
+	else
+	{
+		optional.push_back(XML_GDTF_WiringObjectElectricalPayLoad);
+		optional.push_back(XML_GDTF_WiringObjectVoltageRangeMin);
+		optional.push_back(XML_GDTF_WiringObjectVoltageRangeMax);
+		optional.push_back(XML_GDTF_WiringObjectFrequencyRangeMin);
+		optional.push_back(XML_GDTF_WiringObjectFrequencyRangeMax);
+		optional.push_back(XML_GDTF_WiringObjectCosPhi);
+
+	}
+
+	if(fComponentType == EGdtfComponentType::PowerSource)
+	{
+		needed.push_back(XML_GDTF_WiringObjectMaxPayLoad);
+		needed.push_back(XML_GDTF_WiringObjectVoltage);
+	}
+	else
+	{
+		optional.push_back(XML_GDTF_WiringObjectMaxPayLoad);
+		optional.push_back(XML_GDTF_WiringObjectVoltage);
+	}
+
+	if(fComponentType == EGdtfComponentType::Fuse)
+	{
+		needed.push_back(XML_GDTF_WiringObjectFuseCurrent);
+		needed.push_back(XML_GDTF_WiringObjectFuseRating);
+	}
+	else
+	{
+		optional.push_back(XML_GDTF_WiringObjectFuseCurrent);
+		optional.push_back(XML_GDTF_WiringObjectFuseRating);
+	}
+
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfGeometryWiringObject::GetObjectType() 
+{
+	return EGdtfObjectType::eGdtfGeometryWiringObject;
+}
+
+TXString GdtfGeometryWiringObject::GetNodeName()
+{
+	return XML_GDTF_WiringObjectNodeName;
+}
+
+//------------------------------------------------------------------------------------
+// GdtfGeometryInventory
+GdtfGeometryInventory::GdtfGeometryInventory(GdtfGeometry* parent)
+					:GdtfGeometry(parent)
+{
+}
+
+GdtfGeometryInventory::GdtfGeometryInventory(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma, GdtfGeometry* parent) 
+					:GdtfGeometry(name, refToModel, ma, parent)
+{
+}
+
+GdtfGeometryInventory::~GdtfGeometryInventory()
+{
+}
+
+size_t GdtfGeometryInventory::GetCount() const
+{
+	return fCount;
+}
+
+void GdtfGeometryInventory::SetCount(size_t count)
+{
+	fCount = count;
+}
+
+void GdtfGeometryInventory::OnPrintToFile(IXMLFileNodePtr pNode) 
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfGeometry::OnPrintToFile(pNode);
+
+	pNode->SetNodeAttributeValue(XML_GDTF_InventoryCount,	GdtfConverter::ConvertInteger(fCount));
+}
+
+void GdtfGeometryInventory::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfGeometry::OnReadFromNode(pNode);
+
+	TXString count;	pNode->GetNodeAttributeValue(XML_GDTF_InventoryCount, count);	GdtfConverter::ConvertInteger(count, pNode, fCount);
+}
+
+void GdtfGeometryInventory::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_GeometryName);
+	optional.push_back(XML_GDTF_GeometryModelRef);
+	needed.push_back(XML_GDTF_GeometryMatrix);
+	needed.push_back(XML_GDTF_InventoryCount);
+
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfGeometryInventory::GetObjectType() 
+{
+	return EGdtfObjectType::eGdtfGeometryInventory;
+}
+
+TXString GdtfGeometryInventory::GetNodeName()
+{
+	return XML_GDTF_InventoryNodeName;
+}
+
+//------------------------------------------------------------------------------------
+// GdtfGeometryStructure
+GdtfGeometryStructure::GdtfGeometryStructure(GdtfGeometry* parent)
+					:GdtfGeometry(parent)
+{
+	fLinkedGeometry = nullptr;
+	fTrussCrossSection = "";
+}
+
+GdtfGeometryStructure::GdtfGeometryStructure(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma, GdtfGeometry* parent) 
+					:GdtfGeometry(name, refToModel, ma, parent)
+{
+	fLinkedGeometry = nullptr;
+	fTrussCrossSection = "";
+}
+
+GdtfGeometryStructure::~GdtfGeometryStructure()
+{
+}
+
+GdtfGeometry* GdtfGeometryStructure::GetLinkedGeometry() const
+{
+	return fLinkedGeometry;
+}
+
+EGdtfStructureType GdtfGeometryStructure::GetStructureType() const
+{
+	return fStructureType;
+}
+
+EGdtfCrossSectionType GdtfGeometryStructure::GetCrossSectionType() const
+{
+	return fCrossSectionType;
+}
+
+double GdtfGeometryStructure::GetCrossSectionHeight() const
+{
+	return fCrossSectionHeight;
+}
+
+double GdtfGeometryStructure::GetCrossSectionWallThickness() const
+{
+	return fCrossSectionWallThickness;
+}
+
+const TXString& GdtfGeometryStructure::GetTrussCrossSection() const
+{
+	return fTrussCrossSection;
+}
+
+const TXString&	GdtfGeometryStructure::GetUnresolvedLinkedGeometry() const
+{
+	return fUnresolvedLinkedGeometry;
+}
+
+void GdtfGeometryStructure::SetLinkedGeometry(GdtfGeometry* linkedGeometry)
+{
+	fLinkedGeometry = linkedGeometry;
+}
+
+void GdtfGeometryStructure::SetStructureType(const EGdtfStructureType& structureType)
+{
+	fStructureType = structureType;
+}
+
+void GdtfGeometryStructure::SetCrossSectionType(const EGdtfCrossSectionType& crossSectionType)
+{
+	fCrossSectionType = crossSectionType;
+}
+
+void GdtfGeometryStructure::SetCrossSectionHeight(double crossSectionHeight)
+{
+	fCrossSectionHeight = crossSectionHeight;
+}
+
+void GdtfGeometryStructure::SetCrossSectionWallThickness(double crossSectionWallThickness)
+{
+	fCrossSectionWallThickness = crossSectionWallThickness;
+}
+
+void GdtfGeometryStructure::SetTrussCrossSection(const TXString& trussCrossSection)
+{
+	fTrussCrossSection = trussCrossSection;
+}
+
+void GdtfGeometryStructure::OnPrintToFile(IXMLFileNodePtr pNode) 
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfGeometry::OnPrintToFile(pNode);
+
+	TXString linkedGeometry = "";
+	if(fLinkedGeometry) { linkedGeometry = fLinkedGeometry->GetNodeReference(); }
+
+	pNode->SetNodeAttributeValue(XML_GDTF_StructureLinkedGeometry,				linkedGeometry);
+	pNode->SetNodeAttributeValue(XML_GDTF_StructureStructureType,				GdtfConverter::ConvertStructureTypeEnum(fStructureType));
+	pNode->SetNodeAttributeValue(XML_GDTF_StructureCrossSectionType,			GdtfConverter::ConvertCrossSectionTypeEnum(fCrossSectionType));
+	pNode->SetNodeAttributeValue(XML_GDTF_StructureCrossSectionHeight,			GdtfConverter::ConvertDouble(fCrossSectionHeight));
+	pNode->SetNodeAttributeValue(XML_GDTF_StructureCrossSectionWallThickness,	GdtfConverter::ConvertDouble(fCrossSectionWallThickness));
+	pNode->SetNodeAttributeValue(XML_GDTF_StructureTrussCrossSection,			fTrussCrossSection);
+}
+
+void GdtfGeometryStructure::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfGeometry::OnReadFromNode(pNode);
+										pNode->GetNodeAttributeValue(XML_GDTF_StructureLinkedGeometry, fUnresolvedLinkedGeometry);
+	TXString structureType;				pNode->GetNodeAttributeValue(XML_GDTF_StructureStructureType, structureType);							GdtfConverter::ConvertStructureTypeEnum(structureType, pNode, fStructureType);
+	TXString crossSectionType;			pNode->GetNodeAttributeValue(XML_GDTF_StructureCrossSectionType, crossSectionType);						GdtfConverter::ConvertCrossSectionTypeEnum(crossSectionType, pNode, fCrossSectionType);
+	TXString crossSectionHeight;		pNode->GetNodeAttributeValue(XML_GDTF_StructureCrossSectionHeight, crossSectionHeight);					GdtfConverter::ConvertDouble(crossSectionHeight, pNode, fCrossSectionHeight);
+	TXString crossSectionWallThickness;	pNode->GetNodeAttributeValue(XML_GDTF_StructureCrossSectionWallThickness, crossSectionWallThickness);	GdtfConverter::ConvertDouble(crossSectionWallThickness, pNode, fCrossSectionWallThickness);
+										pNode->GetNodeAttributeValue(XML_GDTF_StructureTrussCrossSection, fTrussCrossSection);
+}
+
+void GdtfGeometryStructure::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_GeometryName);
+	optional.push_back(XML_GDTF_GeometryModelRef);
+	needed.push_back(XML_GDTF_GeometryMatrix);
+	optional.push_back(XML_GDTF_StructureLinkedGeometry);
+	needed.push_back(XML_GDTF_StructureStructureType);
+	optional.push_back(XML_GDTF_StructureCrossSectionType);
+	if(fCrossSectionType == EGdtfCrossSectionType::Tube)
+	{
+		needed.push_back(XML_GDTF_StructureCrossSectionHeight);
+		needed.push_back(XML_GDTF_StructureCrossSectionWallThickness);
+		optional.push_back(XML_GDTF_StructureTrussCrossSection);
+	}
+	else /* TrussFramework */
+	{
+		optional.push_back(XML_GDTF_StructureCrossSectionHeight);
+		optional.push_back(XML_GDTF_StructureCrossSectionWallThickness);
+		needed.push_back(XML_GDTF_StructureTrussCrossSection);
+	}
+
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfGeometryStructure::GetObjectType() 
+{
+	return EGdtfObjectType::eGdtfGeometryStructure;
+}
+
+TXString GdtfGeometryStructure::GetNodeName()
+{
+	return XML_GDTF_StructureNodeName;
+}
+
+//------------------------------------------------------------------------------------
+// GdtfGeometrySupport
+GdtfGeometrySupport::GdtfGeometrySupport(GdtfGeometry* parent)
+					:GdtfGeometry(parent)
+{
+	fRopeCrossSection = "";
+}
+
+GdtfGeometrySupport::GdtfGeometrySupport(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma, GdtfGeometry* parent) 
+					:GdtfGeometry(name, refToModel, ma, parent)
+{
+	fRopeCrossSection = "";
+}
+
+GdtfGeometrySupport::~GdtfGeometrySupport()
+{
+}
+
+EGdtfSupportType GdtfGeometrySupport::GetSupportType() const
+{
+	return fSupportType;
+}
+
+double GdtfGeometrySupport::GetCapacityX() const
+{
+	return fCapacityX;
+}
+
+double GdtfGeometrySupport::GetCapacityY() const
+{
+	return fCapacityY;
+}
+
+double GdtfGeometrySupport::GetCapacityZ() const
+{
+	return fCapacityZ;
+}
+
+double GdtfGeometrySupport::GetCapacityXX() const
+{
+	return fCapacityXX;
+}
+
+double GdtfGeometrySupport::GetCapacityYY() const
+{
+	return fCapacityYY;
+}
+
+double GdtfGeometrySupport::GetCapacityZZ() const
+{
+	return fCapacityZZ;
+}
+
+const TXString& GdtfGeometrySupport::GetRopeCrossSection() const
+{
+	return fRopeCrossSection;
+}
+
+VWPoint3D GdtfGeometrySupport::GetRopeOffset()
+{
+	return fRopeOffset;
+}
+
+double GdtfGeometrySupport::GetResistanceX() const
+{
+	return fResistanceX;
+}
+
+double GdtfGeometrySupport::GetResistanceY() const
+{
+	return fResistanceY;
+}
+
+double GdtfGeometrySupport::GetResistanceZ() const
+{
+	return fResistanceZ;
+}
+
+double GdtfGeometrySupport::GetResistanceXX() const
+{
+	return fResistanceXX;
+}
+
+double GdtfGeometrySupport::GetResistanceYY() const
+{
+	return fResistanceYY;
+}
+
+double GdtfGeometrySupport::GetResistanceZZ() const
+{
+	return fResistanceZZ;
+}
+
+void GdtfGeometrySupport::SetSupportType(const EGdtfSupportType& supportType)
+{
+	fSupportType = supportType;
+}
+
+void GdtfGeometrySupport::SetCapacityX(double capacityX)
+{
+	fCapacityX = capacityX;
+}
+
+void GdtfGeometrySupport::SetCapacityY(double capacityY)
+{
+	fCapacityY = capacityY;
+}
+
+void GdtfGeometrySupport::SetCapacityZ(double capacityZ)
+{
+	fCapacityZ = capacityZ;
+}
+
+void GdtfGeometrySupport::SetCapacityXX(double capacityXX)
+{
+	fCapacityXX = capacityXX;
+}
+
+void GdtfGeometrySupport::SetCapacityYY(double capacityYY)
+{
+	fCapacityYY = capacityYY;
+}
+
+void GdtfGeometrySupport::SetCapacityZZ(double capacityZZ)
+{
+	fCapacityZZ = capacityZZ;
+}
+
+void GdtfGeometrySupport::SetRopeCrossSection(const TXString& ropeCrossSection)
+{
+	fRopeCrossSection = ropeCrossSection;
+}
+
+void GdtfGeometrySupport::SetRopeOffset(double x, double y, double z)
+{
+	fRopeOffset.SetPoint(x, y, z);
+}
+
+void GdtfGeometrySupport::SetResistanceX(double resistanceX)
+{
+	fResistanceX = resistanceX;
+}
+
+void GdtfGeometrySupport::SetResistanceY(double resistanceY)
+{
+	fResistanceY = resistanceY;
+}
+
+void GdtfGeometrySupport::SetResistanceZ(double resistanceZ)
+{
+	fResistanceZ = resistanceZ;
+}
+
+void GdtfGeometrySupport::SetResistanceXX(double resistanceXX)
+{
+	fResistanceXX = resistanceXX;
+}
+
+void GdtfGeometrySupport::SetResistanceYY(double resistanceYY)
+{
+	fResistanceYY = resistanceYY;
+}
+
+void GdtfGeometrySupport::SetResistanceZZ(double resistanceZZ)
+{
+	fResistanceZZ = resistanceZZ;
+}
+
+void GdtfGeometrySupport::OnPrintToFile(IXMLFileNodePtr pNode) 
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfGeometry::OnPrintToFile(pNode);
+
+	pNode->SetNodeAttributeValue(XML_GDTF_SupportSupportType,		GdtfConverter::ConvertSupportTypeEnum(fSupportType));
+	pNode->SetNodeAttributeValue(XML_GDTF_SupportCapacityX,			GdtfConverter::ConvertDouble(fCapacityX));
+	pNode->SetNodeAttributeValue(XML_GDTF_SupportCapacityY,			GdtfConverter::ConvertDouble(fCapacityY));
+	pNode->SetNodeAttributeValue(XML_GDTF_SupportCapacityZ,			GdtfConverter::ConvertDouble(fCapacityZ));
+	pNode->SetNodeAttributeValue(XML_GDTF_SupportCapacityXX,		GdtfConverter::ConvertDouble(fCapacityXX));
+	pNode->SetNodeAttributeValue(XML_GDTF_SupportCapacityYY,		GdtfConverter::ConvertDouble(fCapacityYY));
+	pNode->SetNodeAttributeValue(XML_GDTF_SupportCapacityZZ,		GdtfConverter::ConvertDouble(fCapacityZZ));
+	pNode->SetNodeAttributeValue(XML_GDTF_SupportRopeCrossSection,	fRopeCrossSection);
+	pNode->SetNodeAttributeValue(XML_GDTF_SupportRopeOffset,		GdtfConverter::ConvertVector3(fRopeOffset));
+	pNode->SetNodeAttributeValue(XML_GDTF_SupportResistanceX,		GdtfConverter::ConvertDouble(fResistanceX));
+	pNode->SetNodeAttributeValue(XML_GDTF_SupportResistanceY,		GdtfConverter::ConvertDouble(fResistanceY));
+	pNode->SetNodeAttributeValue(XML_GDTF_SupportResistanceZ,		GdtfConverter::ConvertDouble(fResistanceZ));
+	pNode->SetNodeAttributeValue(XML_GDTF_SupportResistanceXX,		GdtfConverter::ConvertDouble(fResistanceXX));
+	pNode->SetNodeAttributeValue(XML_GDTF_SupportResistanceYY,		GdtfConverter::ConvertDouble(fResistanceYY));
+	pNode->SetNodeAttributeValue(XML_GDTF_SupportResistanceZZ,		GdtfConverter::ConvertDouble(fResistanceZZ));
+}
+
+void GdtfGeometrySupport::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfGeometry::OnReadFromNode(pNode);
+	TXString supportType;	pNode->GetNodeAttributeValue(XML_GDTF_SupportSupportType, supportType);		GdtfConverter::ConvertSupportTypeEnum(supportType, pNode, fSupportType);
+	TXString capacityX;		pNode->GetNodeAttributeValue(XML_GDTF_SupportCapacityX, capacityX);			GdtfConverter::ConvertDouble(capacityX, pNode, fCapacityX);
+	TXString capacityY;		pNode->GetNodeAttributeValue(XML_GDTF_SupportCapacityY, capacityY);			GdtfConverter::ConvertDouble(capacityY, pNode, fCapacityY);
+	TXString capacityZ;		pNode->GetNodeAttributeValue(XML_GDTF_SupportCapacityZ, capacityZ);			GdtfConverter::ConvertDouble(capacityZ, pNode, fCapacityZ);
+	TXString capacityXX;	pNode->GetNodeAttributeValue(XML_GDTF_SupportCapacityXX, capacityXX);		GdtfConverter::ConvertDouble(capacityXX, pNode, fCapacityXX);
+	TXString capacityYY;	pNode->GetNodeAttributeValue(XML_GDTF_SupportCapacityYY, capacityYY);		GdtfConverter::ConvertDouble(capacityYY, pNode, fCapacityYY);
+	TXString capacityZZ;	pNode->GetNodeAttributeValue(XML_GDTF_SupportCapacityZZ, capacityZZ);		GdtfConverter::ConvertDouble(capacityZZ, pNode, fCapacityZZ);
+							pNode->GetNodeAttributeValue(XML_GDTF_SupportRopeCrossSection, fRopeCrossSection);
+	TXString ropeOffset;	pNode->GetNodeAttributeValue(XML_GDTF_SupportRopeOffset, ropeOffset);		GdtfConverter::ConvertVector3(ropeOffset, pNode, fRopeOffset);
+	TXString resistanceX;	pNode->GetNodeAttributeValue(XML_GDTF_SupportResistanceX, resistanceX);		GdtfConverter::ConvertDouble(resistanceX, pNode, fResistanceX);
+	TXString resistanceY;	pNode->GetNodeAttributeValue(XML_GDTF_SupportResistanceY, resistanceY);		GdtfConverter::ConvertDouble(resistanceY, pNode, fResistanceY);
+	TXString resistanceZ;	pNode->GetNodeAttributeValue(XML_GDTF_SupportResistanceZ, resistanceZ);		GdtfConverter::ConvertDouble(resistanceZ, pNode, fResistanceZ);
+	TXString resistanceXX;	pNode->GetNodeAttributeValue(XML_GDTF_SupportResistanceXX, resistanceXX);	GdtfConverter::ConvertDouble(resistanceXX, pNode, fResistanceXX);
+	TXString resistanceYY;	pNode->GetNodeAttributeValue(XML_GDTF_SupportResistanceYY, resistanceYY);	GdtfConverter::ConvertDouble(resistanceYY, pNode, fResistanceYY);
+	TXString resistanceZZ;	pNode->GetNodeAttributeValue(XML_GDTF_SupportResistanceZZ, resistanceZZ);	GdtfConverter::ConvertDouble(resistanceZZ, pNode, fResistanceZZ);
+}
+
+void GdtfGeometrySupport::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_GeometryName);
+	optional.push_back(XML_GDTF_GeometryModelRef);
+	needed.push_back(XML_GDTF_GeometryMatrix);
+	needed.push_back(XML_GDTF_SupportSupportType);
+	
+	if(fSupportType == EGdtfSupportType::Rope)
+	{
+		needed.push_back(XML_GDTF_SupportRopeCrossSection);
+		needed.push_back(XML_GDTF_SupportRopeOffset);
+		optional.push_back(XML_GDTF_SupportCapacityX);
+		optional.push_back(XML_GDTF_SupportCapacityY);
+		optional.push_back(XML_GDTF_SupportCapacityZ);
+		optional.push_back(XML_GDTF_SupportCapacityXX);
+		optional.push_back(XML_GDTF_SupportCapacityYY);
+		optional.push_back(XML_GDTF_SupportCapacityZZ);
+		optional.push_back(XML_GDTF_SupportResistanceX);
+		optional.push_back(XML_GDTF_SupportResistanceY);
+		optional.push_back(XML_GDTF_SupportResistanceZ);
+		optional.push_back(XML_GDTF_SupportResistanceXX);
+		optional.push_back(XML_GDTF_SupportResistanceYY);
+		optional.push_back(XML_GDTF_SupportResistanceZZ);
+	}
+	else /* GroundSupport */
+	{
+		optional.push_back(XML_GDTF_SupportRopeCrossSection);
+		optional.push_back(XML_GDTF_SupportRopeOffset);
+		needed.push_back(XML_GDTF_SupportCapacityX);
+		needed.push_back(XML_GDTF_SupportCapacityY);
+		needed.push_back(XML_GDTF_SupportCapacityZ);
+		needed.push_back(XML_GDTF_SupportCapacityXX);
+		needed.push_back(XML_GDTF_SupportCapacityYY);
+		needed.push_back(XML_GDTF_SupportCapacityZZ);
+		needed.push_back(XML_GDTF_SupportResistanceX);
+		needed.push_back(XML_GDTF_SupportResistanceY);
+		needed.push_back(XML_GDTF_SupportResistanceZ);
+		needed.push_back(XML_GDTF_SupportResistanceXX);
+		needed.push_back(XML_GDTF_SupportResistanceYY);
+		needed.push_back(XML_GDTF_SupportResistanceZZ);
+	}
+
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfGeometrySupport::GetObjectType() 
+{
+	return EGdtfObjectType::eGdtfGeometrySupport;
+}
+
+TXString GdtfGeometrySupport::GetNodeName()
+{
+	return XML_GDTF_SupportNodeName;
+}
+
+//------------------------------------------------------------------------------------
+// GdtfGeometryMagnet
+GdtfGeometryMagnet::GdtfGeometryMagnet(GdtfGeometry* parent)
+					:GdtfGeometry(parent)
+{
+}
+
+GdtfGeometryMagnet::GdtfGeometryMagnet(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma, GdtfGeometry* parent) 
+					:GdtfGeometry(name, refToModel, ma, parent)
+{
+}
+
+GdtfGeometryMagnet::~GdtfGeometryMagnet()
+{
+}
+
+void GdtfGeometryMagnet::OnPrintToFile(IXMLFileNodePtr pNode) 
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfGeometry::OnPrintToFile(pNode);
+}
+
+void GdtfGeometryMagnet::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfGeometry::OnReadFromNode(pNode);
+}
+
+void GdtfGeometryMagnet::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_GeometryName);
+	optional.push_back(XML_GDTF_GeometryModelRef);
+	needed.push_back(XML_GDTF_GeometryMatrix);
+
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfGeometryMagnet::GetObjectType() 
+{
+	return EGdtfObjectType::eGdtfGeometryMagnet;
+}
+
+TXString GdtfGeometryMagnet::GetNodeName()
+{
+	return XML_GDTF_MagnetNodeName;
+}
+
+//------------------------------------------------------------------------------------
+// GdtfGeometryLamp
+GdtfGeometryLamp::GdtfGeometryLamp(GdtfGeometry* parent) 
+				: GdtfGeometry(parent)
+{
+    InitializeMembersWithDefaultsVals(); // Call this function at first
+}
+
+GdtfGeometryLamp::GdtfGeometryLamp(const TXString& name, GdtfModelPtr refToModel,const VWTransformMatrix& ma, GdtfGeometry* parent)
+				: GdtfGeometry(name,refToModel,ma, parent)
+{
+    InitializeMembersWithDefaultsVals(); // Call this function at first
+}
+
+void GdtfGeometryLamp::InitializeMembersWithDefaultsVals() 
+{
+	fLampType			= EGdtfLampType::eGdtfLampType_Dischange;
+	fPowerConsuption	= 1000;
+	fLuminousIntensity	= 10000;
+	fColorTemperature	= 6000;
+	fBeamAngle			= 25;
+    fFieldAngle         = 25;
+	fBeamRadius			= 50; //0.05m
+	fThrowRatio			= 1;
+	fRectangleRatio		= 1.7777;
+	fBeamType			= EGdtfBeamType::eGdtfBeamType_Wash;
+	fColorIndex			= 100;
+	fEmitterSpectrum	= nullptr;
+}
+
+GdtfGeometryLamp::~GdtfGeometryLamp()
+{
+}
+
+void GdtfGeometryLamp::SetLampType(EGdtfLampType type)
+{
+	fLampType = type;
+}
+
+void GdtfGeometryLamp::SetPowerConsumption(double powerConsumption)
+{
+	fPowerConsuption = powerConsumption;
+}
+
+void GdtfGeometryLamp::SetLuminousIntensity(double intensity)
+{
+	fLuminousIntensity = intensity;
+}
+
+void GdtfGeometryLamp::SetColorTemperature(double temperature)
+{
+	fColorTemperature = temperature;
+}
+
+void GdtfGeometryLamp::SetBeamAngle(double angle)
+{
+	fBeamAngle = angle;
+}
+
+void SceneData::GdtfGeometryLamp::SetFieldAngle(double angle)
+{
+    fFieldAngle = angle;
+}
+
+void SceneData::GdtfGeometryLamp::SetBeamRadius(double radius)
+{
+    fBeamRadius = radius;
+}
+
+void SceneData::GdtfGeometryLamp::SetThrowRatio(double ratio)
+{
+    fThrowRatio = ratio;
+}
+
+void SceneData::GdtfGeometryLamp::SetRectangleRatio(double ratio)
+{
+    fRectangleRatio = ratio;
+}
+
+void SceneData::GdtfGeometryLamp::SetBeamType(EGdtfBeamType type)
+{
+    fBeamType = type;
+}
+
+void SceneData::GdtfGeometryLamp::SetColorIndex(Sint32 idx)
+{
+    fColorIndex = idx;
+}
+
+void GdtfGeometryLamp::SetEmitterSpectrum(GdtfPhysicalEmitter* emitterSpectrum)
+{
+    fEmitterSpectrum = emitterSpectrum;
+}
+
+void GdtfGeometryLamp::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfGeometry::OnPrintToFile(pNode);
+	
+	
+	// ------------------------------------------------------------------------------------
+	// Print node attributes
+	pNode->SetNodeAttributeValue(XML_GDTF_LampLampType,				GdtfConverter::ConvertLampeType(fLampType));
+	pNode->SetNodeAttributeValue(XML_GDTF_LampPowerConsumption,		GdtfConverter::ConvertDouble(fPowerConsuption));
+	pNode->SetNodeAttributeValue(XML_GDTF_LampLuminousFlux,	        GdtfConverter::ConvertDouble(fLuminousIntensity));
+	pNode->SetNodeAttributeValue(XML_GDTF_ColorTemperature,			GdtfConverter::ConvertDouble(fColorTemperature));
+	pNode->SetNodeAttributeValue(XML_GDTF_BeamAngle,				GdtfConverter::ConvertDouble(fBeamAngle));
+	pNode->SetNodeAttributeValue(XML_GDTF_BeamRadius,				GdtfConverter::ConvertDouble(fBeamRadius));
+	pNode->SetNodeAttributeValue(XML_GDTF_FieldAngle,				GdtfConverter::ConvertDouble(fFieldAngle));
+	pNode->SetNodeAttributeValue(XML_GDTF_ThrowRatio,				GdtfConverter::ConvertDouble(fThrowRatio));
+	pNode->SetNodeAttributeValue(XML_GDTF_RectangleRatio,			GdtfConverter::ConvertDouble(fRectangleRatio));
+	pNode->SetNodeAttributeValue(XML_GDTF_BeamType,					GdtfConverter::ConvertBeamType(fBeamType));
+	pNode->SetNodeAttributeValue(XML_GDTF_BeamColorRenderingIndex,	GdtfConverter::ConvertInteger(fColorIndex));
+
+	if (fEmitterSpectrum) {pNode->SetNodeAttributeValue(XML_GDTF_BeamEmitterSpectrum, fEmitterSpectrum->GetNodeReference()); };
+	
+}
+
+void GdtfGeometryLamp::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfGeometry::OnReadFromNode(pNode);
+	
+	
+	// ------------------------------------------------------------------------------------
+	// Print node attributes
+	TXString lampType;		pNode->GetNodeAttributeValue(XML_GDTF_LampLampType,				lampType);		GdtfConverter::ConvertLampeType(lampType, 	pNode,	fLampType);
+	TXString power;			pNode->GetNodeAttributeValue(XML_GDTF_LampPowerConsumption,		power);			GdtfConverter::ConvertDouble(power, 		pNode,	fPowerConsuption);
+	TXString lum;			pNode->GetNodeAttributeValue(XML_GDTF_LampLuminousFlux,			lum);			GdtfConverter::ConvertDouble(lum, 			pNode,	fLuminousIntensity);
+	TXString colorTemp;		pNode->GetNodeAttributeValue(XML_GDTF_ColorTemperature,			colorTemp);		GdtfConverter::ConvertDouble(colorTemp, 	pNode,	fColorTemperature);
+	TXString angle;			pNode->GetNodeAttributeValue(XML_GDTF_BeamAngle,				angle);			GdtfConverter::ConvertDouble(angle, 		pNode,	fBeamAngle);
+	TXString radius;		pNode->GetNodeAttributeValue(XML_GDTF_BeamRadius,				radius);		GdtfConverter::ConvertDouble(radius, 		pNode,	fBeamRadius);
+	TXString fieldAngle;	pNode->GetNodeAttributeValue(XML_GDTF_FieldAngle,				fieldAngle);	GdtfConverter::ConvertDouble(fieldAngle, 	pNode,	fFieldAngle);
+	TXString throwRatio;	pNode->GetNodeAttributeValue(XML_GDTF_ThrowRatio,				throwRatio);	GdtfConverter::ConvertDouble(throwRatio, 	pNode,	fThrowRatio);
+	TXString rectangleRatio;pNode->GetNodeAttributeValue(XML_GDTF_RectangleRatio,			rectangleRatio);GdtfConverter::ConvertDouble(rectangleRatio,pNode,	fRectangleRatio);
+	TXString type;			pNode->GetNodeAttributeValue(XML_GDTF_BeamType,					type);			GdtfConverter::ConvertBeamType(type, 		pNode,	fBeamType);
+	TXString colorIndex;	pNode->GetNodeAttributeValue(XML_GDTF_BeamColorRenderingIndex,	colorIndex);	GdtfConverter::ConvertInteger(colorIndex, 	pNode,	fColorIndex);
+
+	pNode->GetNodeAttributeValue(XML_GDTF_BeamEmitterSpectrum, fUnresolvedEmitterRef);
+}
+
+void GdtfGeometryLamp::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_GeometryName);
+	needed.push_back(XML_GDTF_GeometryMatrix);
+	optional.push_back(XML_GDTF_LampLampType);
+	optional.push_back(XML_GDTF_LampPowerConsumption);
+	optional.push_back(XML_GDTF_LampLuminousFlux);
+	optional.push_back(XML_GDTF_ColorTemperature);
+	optional.push_back(XML_GDTF_BeamAngle);
+	optional.push_back(XML_GDTF_FieldAngle);
+	optional.push_back(XML_GDTF_BeamRadius);
+	optional.push_back(XML_GDTF_ThrowRatio);
+	optional.push_back(XML_GDTF_RectangleRatio);
+	optional.push_back(XML_GDTF_BeamType);
+	optional.push_back(XML_GDTF_BeamColorRenderingIndex);
+	optional.push_back(XML_GDTF_GeometryModelRef);
+	optional.push_back(XML_GDTF_BeamEmitterSpectrum);
+
+	
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfGeometryLamp::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfGeometryLamp;
+}
+
+TXString GdtfGeometryLamp::GetNodeName()
+{
+	return XML_GDTF_LampNodeName;
+}
+
+EGdtfLampType GdtfGeometryLamp::GetLampType()
+{
+	return fLampType;
+}
+
+double GdtfGeometryLamp::GetPowerConsumption()
+{
+	return fPowerConsuption;
+}
+
+double GdtfGeometryLamp::GetLuminousIntensity()
+{
+	return fLuminousIntensity;
+}
+
+double GdtfGeometryLamp::GetColorTemperature()
+{
+	return fColorTemperature;
+}
+
+double GdtfGeometryLamp::GetBeamAngle()
+{
+	return fBeamAngle;
+}
+
+double GdtfGeometryLamp::GetFieldAngle()
+{
+    return fFieldAngle;
+}
+
+double GdtfGeometryLamp::GetBeamRadius()
+{
+    return fBeamRadius;
+}
+
+double GdtfGeometryLamp::GetThrowRatio()
+{
+	return fThrowRatio;
+}
+
+double GdtfGeometryLamp::GetRectangleRatio()
+{
+	return fRectangleRatio;
+}
+
+EGdtfBeamType GdtfGeometryLamp::GetBeamType()
+{
+    return fBeamType;
+}
+
+Sint32 GdtfGeometryLamp::GetColorIndex()
+{
+    return fColorIndex;
+}
+
+GdtfPhysicalEmitter* GdtfGeometryLamp::GetEmitterSpectrum()
+{
+    return fEmitterSpectrum;
+}
+
+const TXString& GdtfGeometryLamp::GetUnresolvedEmitterRef() const
+{
+	return fUnresolvedEmitterRef;
+}
+
+//------------------------------------------------------------------------------------
+// GdtfGeometryReference
+GdtfBreak::GdtfBreak() : GdtfObject()
+{
+	fDmxBreak	= 1;
+	fDmxAdress	= 1;
+}
+
+
+GdtfBreak::~GdtfBreak()
+{
+}
+
+void GdtfBreak::SetDmxBreak(Sint32 dmxBreak)
+{
+	fDmxBreak = dmxBreak;
+}
+
+void GdtfBreak::SetDmxAddress(DMXAddress dmxAddress)
+{
+	fDmxAdress = dmxAddress;
+}
+
+void GdtfBreak::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnPrintToFile(pNode);
+	
+	
+	// ------------------------------------------------------------------------------------
+	// Print node attributes
+	pNode->SetNodeAttributeValue(XML_GDTF_BreakDMXBreak,	GdtfConverter::ConvertInteger(fDmxBreak));
+	pNode->SetNodeAttributeValue(XML_GDTF_BreakOffset,		GdtfConverter::ConvertDMXAdress(fDmxAdress));
+	
+}
+
+void GdtfBreak::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnReadFromNode(pNode);
+	
+	
+	// ------------------------------------------------------------------------------------
+	// Print node attributes
+	TXString dmxbreak;	pNode->GetNodeAttributeValue(XML_GDTF_BreakDMXBreak,dmxbreak	); GdtfConverter::ConvertInteger(dmxbreak, pNode, fDmxBreak);
+	TXString dmxAdress;	pNode->GetNodeAttributeValue(XML_GDTF_BreakOffset,	dmxAdress	); GdtfConverter::ConvertDMXAdress(dmxAdress, pNode, fDmxAdress);
+}
+
+void GdtfBreak::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	optional.push_back(XML_GDTF_BreakOffset);
+	optional.push_back(XML_GDTF_BreakDMXBreak);
+	
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfBreak::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfBreak;
+}
+
+TXString GdtfBreak::GetNodeName()
+{
+	return XML_GDTF_BreakNodeName;
+}
+
+Sint32 GdtfBreak::GetDmxBreak()
+{
+	return fDmxBreak;
+}
+
+DMXAddress GdtfBreak::GetDmxAddress()
+{
+	return fDmxAdress;
+}
+
+
+
+//------------------------------------------------------------------------------------
+// GdtfGeometryReference
+GdtfGeometryReference::GdtfGeometryReference(GdtfGeometry* parent) 
+					 : GdtfGeometry(parent)
+{
+	fLinkedGeometry = nullptr;
+}
+
+GdtfGeometryReference::GdtfGeometryReference(const TXString& name, GdtfModelPtr refToModel,const VWTransformMatrix& ma, GdtfGeometry* parent) 
+					 : GdtfGeometry(name,refToModel,ma, parent)
+{
+	fLinkedGeometry = nullptr;
+}
+
+GdtfGeometryReference::~GdtfGeometryReference()
+{
+	for (GdtfBreakPtr ptr : fBreaks) { delete ptr; }
+}
+
+GdtfBreak* GdtfGeometryReference::AddBreak()
+{
+	GdtfBreak* gdtfBreak = new GdtfBreak();
+	fBreaks.push_back(gdtfBreak);
+	return gdtfBreak;
+}
+
+GdtfGeometry* GdtfGeometryReference::GetLinkedGeometry()
+{
+	return fLinkedGeometry;
+}
+
+const TXString& GdtfGeometryReference::GetUnresolvedLinkedGeometry()
+{
+	return fUnresolvedGeoRef;
+}
+
+void GdtfGeometryReference::SetLinkedGeometry(GdtfGeometry* ptr)
+{
+	fLinkedGeometry = ptr;
+}
+
+void GdtfGeometryReference::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfGeometry::OnPrintToFile(pNode);
+	
+	
+	//------------------------------------------------------------------------------------
+	// Print the content
+	for (GdtfBreak* breakObj : fBreaks)
+	{
+		breakObj->WriteToNode(pNode);
+	}
+
+	if(fLinkedGeometry) { pNode->SetNodeAttributeValue(XML_GDTF_GeometryReferenceLinkedGeo, fLinkedGeometry->GetNodeReference()); }
+
+	
+}
+
+void GdtfGeometryReference::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfGeometry::OnReadFromNode(pNode);
+	
+	// The breaks are read in the parent OnReadFromNode
+
+	pNode->GetNodeAttributeValue(XML_GDTF_GeometryReferenceLinkedGeo, fUnresolvedGeoRef); 
+
+	
+}
+
+void GdtfGeometryReference::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_GeometryName);
+	optional.push_back(XML_GDTF_GeometryModelRef);
+	needed.push_back(XML_GDTF_GeometryReferenceLinkedGeo);
+	needed.push_back(XML_GDTF_GeometryMatrix);
+
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfGeometryReference::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfGeometryReference;
+}
+
+TXString GdtfGeometryReference::GetNodeName()
+{
+	return XML_GDTF_GeometryReferenceNodeName;
+}
+
+TGdtfBreakArray GdtfGeometryReference::GetBreakArray()
+{
+	return fBreaks;
+}
+
+//------------------------------------------------------------------------------------
+// GdtfDmxMode
+
+GdtfDmxMode::GdtfDmxMode(GdtfFixture* fixture, const TXString& name)
+{
+	fName		= name;
+	fGeomRef    = nullptr;
+	fFixture    = fixture;
+}
+
+GdtfDmxMode::~GdtfDmxMode()
+{
+    // Housekeeping
+    for (GdtfDmxChannelPtr	ptr : fChannels)	{ delete ptr; }
+	for (GdtfDmxRelationPtr	ptr : fRelations)	{ delete ptr; }
+	for (GdtfMacroPtr		ptr : fMacros)		{ delete ptr; }
+    
+}
+
+void GdtfDmxMode::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnPrintToFile(pNode);
+	
+	
+	// ------------------------------------------------------------------------------------
+	// Print node attributes
+	pNode->SetNodeAttributeValue(XML_GDTF_DMXModeName, 			fName);
+	pNode->SetNodeAttributeValue(XML_GDTF_DMXModeDescription, 	fDescription);
+	if (fGeomRef) { pNode->SetNodeAttributeValue(XML_GDTF_DMXModeGeometryRef,		fGeomRef->GetNodeReference()); } ;
+	
+	// ------------------------------------------------------------------------------------
+	// Print Channels
+	IXMLFileNodePtr wheels;
+	if (VCOM_SUCCEEDED(pNode->CreateChildNode(XML_GDTF_DMXModeDMXChannels, & wheels)))
+	{
+		for (GdtfDmxChannel* channdelObj : fChannels)
+		{
+			channdelObj->WriteToNode(wheels);
+		}
+	}
+	
+	// ------------------------------------------------------------------------------------
+	// Print Relations
+	IXMLFileNodePtr models;
+	if (VCOM_SUCCEEDED(pNode->CreateChildNode(XML_GDTF_DMXModeRelations, & models)))
+	{
+		for (GdtfDmxRelation* relObj : fRelations)
+		{
+			relObj->WriteToNode(models);
+		}
+	}
+	
+	// ------------------------------------------------------------------------------------
+	// Print Macros
+	IXMLFileNodePtr macros;
+	if (VCOM_SUCCEEDED(pNode->CreateChildNode(XML_GDTF_DMXModeMacros, &macros)))
+	{
+		for (GdtfMacro* macrosObj : fMacros)
+		{
+			macrosObj->WriteToNode(macros);
+		}
+	}
+
+}
+
+void GdtfDmxMode::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnReadFromNode(pNode);
+	
+	
+	// ------------------------------------------------------------------------------------
+	// Print node attributes
+	pNode->GetNodeAttributeValue(XML_GDTF_DMXModeName,		  	fName);
+	pNode->GetNodeAttributeValue(XML_GDTF_DMXModeDescription,	fDescription);
+	pNode->GetNodeAttributeValue(XML_GDTF_DMXModeGeometryRef, 	fUnresolvedGeomRef);
+	// ------------------------------------------------------------------------------------
+	// Print Channels
+	
+	GdtfConverter::TraverseNodes(pNode, XML_GDTF_DMXModeDMXChannels, XML_GDTF_DMXChannelNodeName, [this] (IXMLFileNodePtr pNode) -> void
+								 {	
+									 if ( CheckAbort() ) return;
+									 GdtfDmxChannelPtr channel = new GdtfDmxChannel(this);
+									 channel->ReadFromNode(pNode);
+									 fChannels.push_back(channel);
+								 }
+								 );
+
+	
+	// ------------------------------------------------------------------------------------
+	// Print Relations
+	GdtfConverter::TraverseNodes(pNode, XML_GDTF_DMXModeRelations, XML_GDTF_DMXRelationNodeName, [this] (IXMLFileNodePtr pNode) -> void
+								 {
+									 if ( CheckAbort() ) return;
+									 GdtfDmxRelationPtr relation = new GdtfDmxRelation();
+									 relation->ReadFromNode(pNode);
+									 fRelations.push_back(relation);
+								 }
+								 );
+	
+
+	// ------------------------------------------------------------------------------------
+	// Print Macros
+	GdtfConverter::TraverseNodes(pNode, XML_GDTF_DMXModeMacros, XML_GDTF_MacroNodeName, [this](IXMLFileNodePtr pNode) -> void
+								{
+									if ( CheckAbort() ) return;
+									GdtfMacroPtr macro = new GdtfMacro();
+									macro->ReadFromNode(pNode);
+									fMacros.push_back(macro);
+								}
+								);
+
+}
+
+void GdtfDmxMode::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_DMXModeName);
+	needed.push_back(XML_GDTF_DMXModeGeometryRef);
+	optional.push_back(XML_GDTF_DMXModeDescription);
+	
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfDmxMode::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfDmxMode;
+}
+
+TXString GdtfDmxMode::GetNodeName()
+{
+	return XML_GDTF_DMXModeNodeName;
+}
+
+GdtfDmxChannel* GdtfDmxMode::AddChannel()
+{
+	GdtfDmxChannel* channel = new GdtfDmxChannel(this);
+	fChannels.push_back(channel);
+	
+	return channel;
+}
+
+const TGdtfDmxChannelArray& GdtfDmxMode::GetChannelArray() const
+{
+	return fChannels;
+}
+
+GdtfDmxChannelPtr GdtfDmxMode::GetMasterByRef(const TXString& ref) const
+{
+	if (!fChannelIndex.empty())
+	{
+		auto it = fChannelIndex.find(ref);
+		if (it != fChannelIndex.end()) { return it->second; }
+	}
+	else
+	{
+		for (GdtfDmxChannelPtr chnl : fChannels)
+		{
+			if (chnl->GetNodeReference() == ref) { return chnl; }
+		}
+	}
+
+	// When this line is reached nothing was found.
+	DSTOP ((kEveryone, "Failed to resolve GdtfDmxChannelPtr."));
+	return nullptr;
+}
+
+GdtfDmxChannelFunctionPtr GdtfDmxMode::GetSlaveByRef(const TXString& ref) const
+{
+	if (!fFunctionIndex.empty())
+	{
+		auto it = fFunctionIndex.find(ref);
+		if (it != fFunctionIndex.end()) { return it->second; }
+	}
+	else
+	{
+		for (GdtfDmxChannelPtr dmxChannel : fChannels)
+		{
+			for(GdtfDmxLogicalChannelPtr logicalChannel : dmxChannel->GetLogicalChannelArray())
+			{
+				for (GdtfDmxChannelFunctionPtr function : logicalChannel->GetDmxChannelFunctions())
+				{
+					TXString nodeRef = function->GetNodeReference();
+					if (nodeRef == ref) { return function; }
+				}
+			}
+		}
+	}
+	
+	// When this line is reached nothing was found.
+	DSTOP ((kEveryone, "Failed to resolve GdtfDmxChannelFuntionPtr."));
+	return nullptr;
+}
+
+void GdtfDmxMode::BuildModeIndexes()
+{
+	static constexpr size_t kModeIndexThreshold = 64;
+	if (fChannels.size() < kModeIndexThreshold)
+	{
+		return;  // Maps stay empty; accessors use linear fallback
+	}
+
+	fChannelIndex.clear();
+	fFunctionIndex.clear();
+	for (GdtfDmxChannelPtr ch : fChannels)
+	{
+		fChannelIndex.emplace(ch->GetNodeReference(), ch);
+		for (GdtfDmxLogicalChannelPtr lc : ch->GetLogicalChannelArray())
+		{
+			for (GdtfDmxChannelFunctionPtr fn : lc->GetDmxChannelFunctions())
+			{
+				fFunctionIndex.emplace(fn->GetNodeReference(), fn);
+			}
+		}
+	}
+}
+
+GdtfDmxChannelPtr GdtfDmxMode::GetChannelByIndex(const TXString& ref) const
+{
+	if (!fChannelIndex.empty())
+	{
+		auto it = fChannelIndex.find(ref);
+		if (it != fChannelIndex.end()) { return it->second; }
+		return nullptr;
+	}
+	for (GdtfDmxChannelPtr ch : fChannels)
+	{
+		if (ch->GetNodeReference() == ref) { return ch; }
+	}
+	return nullptr;
+}
+
+GdtfDmxChannelFunctionPtr GdtfDmxMode::GetFunctionByIndex(const TXString& ref) const
+{
+	if (!fFunctionIndex.empty())
+	{
+		auto it = fFunctionIndex.find(ref);
+		if (it != fFunctionIndex.end()) { return it->second; }
+		return nullptr;
+	}
+	for (GdtfDmxChannelPtr ch : fChannels)
+	{
+		for (GdtfDmxLogicalChannelPtr lc : ch->GetLogicalChannelArray())
+		{
+			for (GdtfDmxChannelFunctionPtr fn : lc->GetDmxChannelFunctions())
+			{
+				if (fn->GetNodeReference() == ref) { return fn; }
+			}
+		}
+	}
+	return nullptr;
+}
+
+
+const TXString& GdtfDmxMode::GetModeName() const
+{
+	return fName;
+}
+
+void GdtfDmxMode::SetName(const TXString &name)
+{
+	fName = name;
+}
+
+const TXString& GdtfDmxMode::GetDescription() const
+{
+	return fDescription;
+}
+
+void GdtfDmxMode::SetDescription(const TXString &description)
+{
+	fDescription = description;
+}
+
+void GdtfDmxMode::SetGeomRef(GdtfGeometryPtr ptr)
+{
+	fGeomRef = ptr;
+}
+
+GdtfDmxRelation* GdtfDmxMode::AddDmxRelation(GdtfDmxChannel* master, GdtfDmxChannelFunctionPtr slave, const TXString &name)
+{
+	GdtfDmxRelation* relation = new GdtfDmxRelation(master, slave, name);
+	fRelations.push_back(relation);
+	return relation;
+}
+
+GdtfMacro* GdtfDmxMode::AddMacro(const TXString &name)
+{
+	GdtfMacro* macro = new GdtfMacro(name);
+	fMacros.push_back(macro);
+	return macro;
+}
+
+GdtfGeometryPtr	GdtfDmxMode::GetGeomRef()
+{
+	return fGeomRef;
+}
+
+TGdtfDmxChannelArray GdtfDmxMode::GetChannelsForGeometry(GdtfGeometryPtr geometry)
+{
+	TGdtfDmxChannelArray array;
+	for (GdtfDmxChannelPtr channel : GetChannelArray())
+	{
+		if(channel->GetGeomRef() == geometry)
+		{
+			array.push_back(channel);
+		}
+	}
+	
+	return array;
+}
+
+const TXString& GdtfDmxMode::GetUnresolvedGeomRef()
+{
+	return fUnresolvedGeomRef;
+}
+
+const TGdtfDmxRelationArray& GdtfDmxMode::GetDmxRelations()
+{
+	return fRelations;
+}
+
+TSint32Array GdtfDmxMode::GetBreakArray() const
+{
+	//------------------------------------------------------------------------------------------------------------
+	// Prepare Arrays
+	TSint32Array 							breaks;
+	std::vector<GdtfGeometryReferencePtr>  	geometryRefs;
+	TGdtfGeometryArray  					geometrysToCheck;
+
+	if(fGeomRef)
+	{
+		geometrysToCheck.push_back(fGeomRef);
+	}
+    
+	//------------------------------------------------------------------------------------------------------------
+	// Get All Geometry References
+	while(geometrysToCheck.size() > 0)
+	{
+		// Get First Entry and delete it then
+		GdtfGeometryPtr geometry = geometrysToCheck.back();
+		geometrysToCheck.pop_back();
+
+		// Get all the internal geometries and prepare to check them
+
+		if ( geometry != nullptr )
+		{
+			for ( GdtfGeometryPtr child : geometry->GetInternalGeometries() )
+			{
+				geometrysToCheck.push_back( child );
+			}
+
+
+			// Handle Geo Refs
+			if ( geometry->GetObjectType() == eGdtfGeometryReference )
+			{
+				GdtfGeometryReferencePtr geoRef = static_cast<GdtfGeometryReferencePtr>( geometry );
+				ASSERTN( kEveryone, geoRef != nullptr );
+				if ( geoRef )
+				{
+					geometrysToCheck.push_back( geoRef->GetLinkedGeometry() );
+					geometryRefs.push_back( geoRef );
+				}
+			}
+		}
+	}
+
+	//------------------------------------------------------------------------------------------------------------
+	// Check all the channels
+	for (GdtfDmxChannelPtr channel : fChannels)
+	{
+		Sint32 breakId = channel->GetDmxBreak();
+		
+		// Check if Override
+		if(breakId == kDmxBreakOverwriteValue)
+		{
+			for(GdtfGeometryReferencePtr geoRef : geometryRefs)
+			{
+				if(geoRef->GetLinkedGeometry() == channel->GetGeomRef())
+				{
+					TGdtfBreakArray refBreaks = geoRef->GetBreakArray();
+					if(std::find(breaks.begin(), breaks.end(), refBreaks.back()->GetDmxBreak()) == breaks.end())
+					{
+						breaks.push_back(refBreaks.back()->GetDmxBreak());
+					}
+				}
+			}
+		}
+		else
+		{
+			if(std::find(breaks.begin(), breaks.end(), breakId) == breaks.end())
+			{
+				breaks.push_back(breakId);
+			}
+		}
+	}
+
+	//------------------------------------------------------------------------------------------------------------
+	// Sort the found break
+	std::sort(breaks.begin(), breaks.end());
+
+	return breaks;
+}
+
+size_t GdtfDmxMode::GetFootPrintForBreak(size_t breakId)
+{
+	//------------------------------------------------------------------------------------------------------------
+	// check if break exists
+	TSint32Array breaks = this->GetBreakArray();
+	if(std::find(breaks.begin(), breaks.end(), breakId) == breaks.end()) 
+	{ 
+		return 0; 
+	}
+
+	//------------------------------------------------------------------------------------------------------------
+	// Prepare arrays
+	TDMXAddressArray 	addresses;
+    TGdtfGeometryArray  geometriesInGeoTree;
+    
+    if(fGeomRef)
+    {
+        geometriesInGeoTree.push_back(fGeomRef);
+    }
+
+	// iterate through every geometry in the geometry tree of the mode 
+	while(geometriesInGeoTree.size() > 0)
+	{
+		TDMXAddressArray addressesOfGeo;
+		GdtfGeometryPtr  geoToCheck = geometriesInGeoTree.back();
+		geometriesInGeoTree.pop_back();
+
+		for (GdtfGeometryPtr child : geoToCheck->GetInternalGeometries()) { geometriesInGeoTree.push_back(child); }
+
+		// if channel is linked to the current geometry and the breaks match add the dmx addresses to the footprint 
+		for (GdtfDmxChannelPtr channel : fChannels)
+		{
+			if(CheckAbort()) { return 0; }
+			if(channel->GetGeomRef() == geoToCheck && channel->GetDmxBreak() == (Sint32)breakId && ! channel->IsVirtual()) 
+			{
+				GetAddressesFromChannel(addressesOfGeo, channel, 0);
+			}
+		}
+
+		// if the current geometry is a geometry reference do stuff
+		if(geoToCheck->GetObjectType() == eGdtfGeometryReference)
+		{
+			GdtfGeometryReferencePtr geoRef 	= static_cast<GdtfGeometryReferencePtr>(geoToCheck); ASSERTN(kEveryone, geoRef);
+			GdtfGeometryPtr 		 refedGeo   = geoRef->GetLinkedGeometry();
+			TSint32Array 			 breakIdsOfReference;
+			TGdtfGeometryArray 		 geometriesInReferencedTree = {refedGeo};
+			bool 				     overwrite = false;
+			
+			// go through every child of the referenced geometry and get every used break id
+			while (geometriesInReferencedTree.size() > 0)
+			{
+				GdtfGeometryPtr geometryInRefToCheck = geometriesInReferencedTree.back();
+				geometriesInReferencedTree.pop_back();
+
+				if ( geometryInRefToCheck != nullptr )
+				{
+					for (GdtfGeometryPtr childOfRef : geometryInRefToCheck->GetInternalGeometries()){ geometriesInReferencedTree.push_back(childOfRef); }
+
+					for (GdtfDmxChannelPtr channel : fChannels)
+					{
+						if(CheckAbort()) { return 0; }
+						if(channel->GetGeomRef() == geometryInRefToCheck)
+						{
+							if(channel->GetDmxBreak() != kDmxBreakOverwriteValue)
+							{
+								if(std::find(breakIdsOfReference.begin(), breakIdsOfReference.end(), channel->GetDmxBreak()) == breakIdsOfReference.end())
+								{
+									breakIdsOfReference.push_back(channel->GetDmxBreak());
+								}
+							}
+							else 
+							{
+								overwrite = true;
+							}
+						}
+					}
+				}
+			}
+
+			std::sort(breakIdsOfReference.begin(), breakIdsOfReference.end());
+
+			TSint32Array::iterator foundIndex = std::find(breakIdsOfReference.begin(), breakIdsOfReference.end(), breakId);
+			// if the reference contains geometries that are linked to a dmx channel that has a matching break, then add the address + offset to the footprint
+			if(foundIndex != breakIdsOfReference.end())
+			{
+				size_t 				indexOfBreak 				= std::distance(breakIdsOfReference.begin(),foundIndex);
+				size_t 				offset 						= geoRef->GetBreakArray()[indexOfBreak]->GetDmxAddress()-1;
+				TGdtfGeometryArray  geometriesInReferencedTree 	= {refedGeo};
+
+				while (geometriesInReferencedTree.size() > 0)
+				{
+					GdtfGeometryPtr geometryInRefToCheck = geometriesInReferencedTree.back();
+					geometriesInReferencedTree.pop_back();
+
+					for (GdtfGeometryPtr childOfRef : geometryInRefToCheck->GetInternalGeometries()) { geometriesInReferencedTree.push_back(childOfRef); }
+
+					for(GdtfDmxChannelPtr channel : fChannels)
+					{
+						if(CheckAbort()) { return 0; }
+						if(channel->GetGeomRef() == geometryInRefToCheck 
+							&& channel->GetDmxBreak() == (Sint32)breakId &&
+							! channel->IsVirtual())  
+						{
+							GetAddressesFromChannel(addressesOfGeo, channel, offset);
+						}
+					}
+				}
+			}
+
+			// if the channel of a child geometry has the break value overwrite and the last break of the ref has a matching break Id, then add addresses + offset 
+			if(overwrite)
+			{
+				GdtfBreakPtr overwriteBreak = geoRef->GetBreakArray().back();
+				if(overwriteBreak->GetDmxBreak() == (Sint32)breakId)
+				{
+					TGdtfGeometryArray geometriesInReferencedTree = {refedGeo};
+					while (geometriesInReferencedTree.size() > 0)
+					{
+						GdtfGeometryPtr geometryInRefToCheck = geometriesInReferencedTree.back();
+						geometriesInReferencedTree.pop_back();
+
+						for (GdtfGeometryPtr childOfRef : geometryInRefToCheck->GetInternalGeometries()) { geometriesInReferencedTree.push_back(childOfRef); }
+
+						for(GdtfDmxChannelPtr channel : fChannels)
+						{
+							if(CheckAbort()) { return 0; }
+							if(channel->GetGeomRef() == geometryInRefToCheck && channel->GetDmxBreak() == kDmxBreakOverwriteValue  && ! channel->IsVirtual()) 
+							{
+								GetAddressesFromChannel(addressesOfGeo, channel, overwriteBreak->GetDmxAddress()-1);
+							}
+						}
+					}
+				}
+			}
+		}
+
+		// make addresses unique
+		for(DMXAddress address : addressesOfGeo)
+		{
+			if(std::find(addresses.begin(), addresses.end(), address) == addresses.end())
+			{
+				addresses.push_back(address);
+			}
+		}
+	}
+
+	DMXAddress max = 0, min = 512;
+	for (DMXAddress adr : addresses)
+	{
+		if(adr > max) max = adr;
+		if(adr < min) min = adr;
+	}
+
+	DMXAddress footprint = max - min + 1;
+
+	return footprint;
+}
+void GdtfDmxMode::GetAddressesFromChannel(TDMXAddressArray& addresses, GdtfDmxChannel* channel, DMXAddress offset) const
+{
+	EGdtfChannelBitResolution resolution = channel->GetChannelBitResolution();
+	if(resolution >= eGdtfChannelBitResolution_8) 	{ addresses.push_back(channel->GetCoarse()  + offset);}
+	if(resolution >= eGdtfChannelBitResolution_16) 	{ addresses.push_back(channel->GetFine()	+ offset);}
+	if(resolution >= eGdtfChannelBitResolution_24) 	{ addresses.push_back(channel->GetUltra()   + offset);}
+	if(resolution >= eGdtfChannelBitResolution_32) 	{ addresses.push_back(channel->GetUber()	+ offset);}
+
+}
+
+const TGdtfMacroArray& GdtfDmxMode::GetDmxMacrosArray()
+{
+	return fMacros;
+}
+
+//------------------------------------------------------------------------------------
+// GdtfDmxChannel
+GdtfDmxChannel::GdtfDmxChannel(GdtfDmxMode* parent)
+{
+	fName_AutoGenerated					= "";
+	fDmxBreak				= 1;
+	fCoarse					= 0;
+	fFine					= 0;
+	fUltra					= 0;
+	fUber					= 0;
+	fHeighlight				= 0;	fHeighlightNone = true;
+	fDefaultValue_old		= 0;
+	fGeomRef				= nullptr;
+	fInitialFunction		= nullptr;
+
+	ASSERTN(kEveryone, parent != nullptr);
+	fParent = parent;
+}
+
+GdtfDmxChannel::~GdtfDmxChannel()
+{
+	for (GdtfDmxLogicalChannelPtr ptr :fLogicalChannels) { delete ptr; }
+}
+
+void GdtfDmxChannel::SetName(const TXString& name)
+{
+	fName_AutoGenerated = name;
+}
+
+void GdtfDmxChannel::SetDmxBreak(Sint32 dmxBreak)
+{
+	fDmxBreak = dmxBreak;
+}
+
+void GdtfDmxChannel::SetDmxCoarse(Sint32 coarse)
+{
+	fCoarse = coarse;
+	
+}
+
+void GdtfDmxChannel::SetDmxFine(Sint32 fine)
+{
+	ASSERTN(kEveryone, fCoarse > 0);
+	fFine = fine;
+}
+
+void GdtfDmxChannel::SetDmxUltra(Sint32 ultra)
+{
+	ASSERTN(kEveryone, fCoarse > 0);
+	ASSERTN(kEveryone, fFine > 0);
+	fUltra = ultra;
+}
+
+void SceneData::GdtfDmxChannel::SetDmxUber(Sint32 uber)
+{
+	ASSERTN(kEveryone, fCoarse > 0);
+	ASSERTN(kEveryone, fFine > 0);
+	ASSERTN(kEveryone, fUltra > 0);
+	fUber = uber;
+}
+
+void GdtfDmxChannel::SetHighlight(DmxValue highlight)
+{
+	fHeighlight = highlight;
+	fHeighlightNone = false;
+}
+
+GdtfDmxLogicalChannel* GdtfDmxChannel::AddLogicalChannel()
+{
+	GdtfDmxLogicalChannel* channel = new GdtfDmxLogicalChannel(this);
+	if( ! fLogicalChannels.empty()) { fLogicalChannels.back()->SetNextLogicalChannel(channel); }
+
+	fLogicalChannels.push_back(channel);
+	return channel;
+}
+
+void GdtfDmxChannel::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnPrintToFile(pNode);
+	
+	EGdtfChannelBitResolution chanelReso = GetChannelBitResolution();
+	// ------------------------------------------------------------------------------------
+	// Print node attributes
+	pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelDMXBreak,			GdtfConverter::ConvertDmxBreak(fDmxBreak));
+	pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelOffset,				GdtfConverter::ConvertDmxOffset(fCoarse, fFine, fUltra, fUber));
+	pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelHighlight,			GdtfConverter::ConvertDMXValue(fHeighlight,	chanelReso, fHeighlightNone));
+	if (fGeomRef) 			{ pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelGeometry,			fGeomRef->GetNodeReference()); }
+	if (fInitialFunction) 	{ pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelInitialFunction,	fInitialFunction->GetNodeReference()); }
+	
+	// ------------------------------------------------------------------------------------
+	// LogicalChannels
+	for (GdtfDmxLogicalChannel* channelObj : fLogicalChannels)
+	{
+		channelObj->WriteToNode(pNode);
+	}
+}
+
+void GdtfDmxChannel::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnReadFromNode(pNode);
+		
+	// ------------------------------------------------------------------------------------
+	// Print node attributes
+	TXString dmxBreak;	pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelDMXBreak,			dmxBreak);	GdtfConverter::ConvertDmxBreak(dmxBreak, pNode,		fDmxBreak);
+	//
+	TXString offset;	
+	if (pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelOffset, offset) == kVCOMError_NoError) 
+	{
+		GdtfConverter::ConvertDmxOffset(offset, pNode, fCoarse, fFine, fUltra, fUber);
+	}	
+
+	// In GDTF 1.0, default value was in the DMX channel, this is for old files :
+	TXString defVal;	
+	if (pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelFuntionDefault, defVal) == kVCOMError_NoError)
+	{
+		GdtfConverter::ConvertDMXValue(defVal, pNode, this->GetChannelBitResolution(), fDefaultValue_old);
+	}
+	// ------------------------------------------------------------------------------------
+
+	//
+	TXString highlight;	
+	if(VCOM_SUCCEEDED(pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelHighlight,			highlight)	))
+	{
+		GdtfConverter::ConvertDMXValue(highlight, pNode, this->GetChannelBitResolution(), fHeighlight, fHeighlightNone);
+	}	
+	
+	pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelGeometry, 			fUnresolvedGeomRef);
+	pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelInitialFunction, 	fUnresolvedInitialFunction);	
+	
+	// ------------------------------------------------------------------------------------
+	// LogicalChannels	
+	GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_DMXLogicalChannelNodeName, [this] (IXMLFileNodePtr objNode) -> void
+								 {
+									 if ( CheckAbort() ) return;
+									 // Create the object
+									 GdtfDmxLogicalChannelPtr logicalChan = new GdtfDmxLogicalChannel(this);
+
+									 // Read from node
+									 logicalChan->ReadFromNode(objNode);
+									
+									// If there is already a logical channel
+									if( ! fLogicalChannels.empty())
+									{
+										// Get the prev array and the new array
+										const TGdtfDmxChannelFuntionArray& prevArr = fLogicalChannels.back()->GetDmxChannelFunctions();
+										const TGdtfDmxChannelFuntionArray& currArr = logicalChan->GetDmxChannelFunctions();
+
+										// If bouth arrays are not empty, link them togheter
+										if( (! prevArr.empty()) && (! currArr.empty()) )
+										{
+											prevArr.back()->SetNextFunction(currArr.front());
+										}
+									}
+								
+									 fLogicalChannels.push_back(logicalChan);
+
+									
+									 return;
+								 });
+}
+
+void GdtfDmxChannel::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_DMXChannelGeometry);
+	optional.push_back(XML_GDTF_DMXChannelInitialFunction);
+	optional.push_back(XML_GDTF_DMXChannelDMXBreak);
+	optional.push_back(XML_GDTF_DMXChannelOffset);
+	optional.push_back(XML_GDTF_DMXChannelHighlight);
+	//Default for GDTF 1.0 files
+	optional.push_back(XML_GDTF_DMXChannelFuntionDefault);
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfDmxChannel::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfDmxChannel;
+}
+
+TXString GdtfDmxChannel::GetNodeReference()
+{
+	return GetName();
+}
+
+GdtfDmxMode* GdtfDmxChannel::GetParentMode()
+{
+	return fParent;
+}
+
+TXString GdtfDmxChannel::GetNodeName()
+{
+	return XML_GDTF_DMXChannelNodeName;
+}
+
+const TXString& GdtfDmxChannel::GetName()
+{
+	if(fName_AutoGenerated.IsEmpty())
+	{
+		TXString dmxChannelName;
+		if(fGeomRef) { dmxChannelName += fGeomRef->GetName(); }
+		dmxChannelName += "_";
+		if(fLogicalChannels.size() > 0) { dmxChannelName += fLogicalChannels[0]->GetAttribute()->GetName(); }
+		
+		this->SetName(dmxChannelName);
+
+		ASSERTN(kEveryone, fGeomRef != nullptr);
+		ASSERTN(kEveryone, fLogicalChannels.size() > 0);
+	}
+
+	return fName_AutoGenerated;
+}
+
+Sint32 GdtfDmxChannel::GetDmxBreak() const
+{
+	return fDmxBreak;
+}
+
+Sint32 GdtfDmxChannel::GetCoarse() const
+{
+	return fCoarse;
+}
+
+Sint32 GdtfDmxChannel::GetFine() const
+{
+	return fFine;
+}
+
+Sint32 GdtfDmxChannel::GetUltra() const
+{
+	return fUltra;
+}
+
+Sint32 GdtfDmxChannel::GetUber() const
+{
+	return fUber;
+}
+
+DmxValue GdtfDmxChannel::GetHighlight() const
+{
+	return fHeighlight;
+}
+
+bool GdtfDmxChannel::HasHighlight() const
+{
+	return !fHeighlightNone;
+}
+
+DmxValue GdtfDmxChannel::GetOldDefaultValue() const
+{
+	return fDefaultValue_old;
+}
+
+void GdtfDmxChannel::SetGeomRef(GdtfGeometryPtr newGeom)
+{
+	fGeomRef = newGeom;
+}
+
+GdtfGeometryPtr GdtfDmxChannel::GetGeomRef()
+{
+	return fGeomRef;
+}
+
+const TXString& GdtfDmxChannel::GetUnresolvedGeomRef() const
+{
+	return fUnresolvedGeomRef;
+}
+
+void GdtfDmxChannel::SetInitialFunction(GdtfDmxChannelFunctionPtr initialFunction)
+{
+	fInitialFunction = initialFunction;
+}
+
+GdtfDmxChannelFunctionPtr GdtfDmxChannel::GetInitialFunction()
+{
+	return fInitialFunction;
+}
+
+const TXString& GdtfDmxChannel::GetUnresolvedInitialFunction() const
+{
+	return fUnresolvedInitialFunction;
+}
+
+const TGdtfDmxLogicalChannelArray& GdtfDmxChannel::GetLogicalChannelArray()
+{
+	return fLogicalChannels;
+}
+
+EGdtfChannelBitResolution SceneData::GdtfDmxChannel::GetChannelBitResolution()
+{
+	if		(!fCoarse)	{ return EGdtfChannelBitResolution::eGdtfChannelBitResolution_16; }
+	else if	(!fFine)	{ return EGdtfChannelBitResolution::eGdtfChannelBitResolution_8; }
+	else if (!fUltra)	{ return EGdtfChannelBitResolution::eGdtfChannelBitResolution_16; }
+	else if (!fUber )	{ return EGdtfChannelBitResolution::eGdtfChannelBitResolution_24; }
+
+	return EGdtfChannelBitResolution::eGdtfChannelBitResolution_32;
+}
+
+DmxValue SceneData::GdtfDmxChannel::GetChannelMaxDmx()
+{
+	return GdtfConverter::GetChannelMaxDmx(this->GetChannelBitResolution());
+}
+
+bool SceneData::GdtfDmxChannel::IsVirtual() const
+{
+	if(fCoarse == 0 && fFine == 0 && fUltra == 0 && fUber == 0)	return true;
+	else 														return false;
+}
+
+//------------------------------------------------------------------------------------
+// GdtfDmxChannel
+GdtfDmxLogicalChannel::GdtfDmxLogicalChannel(GdtfDmxChannel* parent)
+{
+	fSnap					= EGdtfDmxSnap::eGdtfDmxMaster_No;
+	fAttribute				= nullptr;
+	fDmxMaster				= eGdtfDmxMaster_None;
+	fParentDmxChannel		= parent;
+	fNextLogicalChannel		= nullptr;
+	fMoveInBlackFrames		= 0;
+	fDmxChangeTimeLimit		= 0;
+}
+
+GdtfDmxLogicalChannel::~GdtfDmxLogicalChannel()
+{
+	for (GdtfDmxChannelFunctionPtr ptr : fFunctions) { delete ptr; }
+}
+
+void GdtfDmxLogicalChannel::SetName(const TXString &name)
+{
+	fName_AutoGenerated = name;
+}
+
+void GdtfDmxLogicalChannel::SetAttribute(GdtfAttributePtr attr)
+{
+	fAttribute = attr;
+}
+
+void GdtfDmxLogicalChannel::SetDmxSnap(EGdtfDmxSnap snap)
+{
+	fSnap = snap;
+}
+
+void GdtfDmxLogicalChannel::SetDmxMaster(EGdtfDmxMaster master)
+{
+	fDmxMaster = master;
+}
+
+void GdtfDmxLogicalChannel::SetNextLogicalChannel(GdtfDmxLogicalChannel* next)
+{
+	ASSERTN(kEveryone, fNextLogicalChannel == nullptr);
+	fNextLogicalChannel = next;
+}
+
+void SceneData::GdtfDmxLogicalChannel::SetMoveInBlackFrames(double moveInBlackFrames)
+{
+    fMoveInBlackFrames = moveInBlackFrames;
+}
+
+void SceneData::GdtfDmxLogicalChannel::SetDmxChangeTimeLimit(double changeLimit)
+{
+    fDmxChangeTimeLimit = changeLimit;
+}
+
+GdtfDmxLogicalChannelPtr GdtfDmxLogicalChannel::GetNextLogicalChannel()
+{
+	return fNextLogicalChannel;
+}
+
+double SceneData::GdtfDmxLogicalChannel::GetMoveInBlackFrames() const
+{
+    return fMoveInBlackFrames;
+}
+
+double SceneData::GdtfDmxLogicalChannel::GetDmxChangeTimeLimit() const
+{
+    return fDmxChangeTimeLimit;
+}
+
+GdtfDmxChannelFunctionPtr GdtfDmxLogicalChannel::AddDmxChannelFunction(const TXString &name)
+{
+	GdtfDmxChannelFunctionPtr function = new GdtfDmxChannelFunction(name, this);
+
+	// Also set next function here
+	if(fFunctions.size() > 0)	{ fFunctions.back()->SetNextFunction(function); }
+
+	fFunctions.push_back(function);
+
+	return function;
+}
+
+void GdtfDmxLogicalChannel::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnPrintToFile(pNode);
+	
+	
+	// ------------------------------------------------------------------------------------
+	// Print node attributes
+	if (fAttribute) {pNode->SetNodeAttributeValue(XML_GDTF_DMXLogicalChannelAttribute, fAttribute->GetNodeReference()); };
+	pNode->SetNodeAttributeValue(XML_GDTF_DMXLogicalChannelSnap,		GdtfConverter::ConvertSnapEnum(fSnap));
+	pNode->SetNodeAttributeValue(XML_GDTF_DMXLogicalChannelMaster,		GdtfConverter::ConvertMasterEnum(fDmxMaster));
+	pNode->SetNodeAttributeValue(XML_GDTF_DMXLogicalChannelMibFadeFrames,		GdtfConverter::ConvertDouble(fMoveInBlackFrames));
+	pNode->SetNodeAttributeValue(XML_GDTF_DMXLogicalChannelDMXChangeTimeLimit,	GdtfConverter::ConvertDouble(fDmxChangeTimeLimit));		
+	// ------------------------------------------------------------------------------------
+	// LogicalChannels
+	for (GdtfDmxChannelFunctionPtr functionObj : fFunctions)
+	{
+		functionObj->WriteToNode(pNode);
+	}
+}
+
+void GdtfDmxLogicalChannel::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnReadFromNode(pNode);
+	
+	
+	// ------------------------------------------------------------------------------------
+	// Print node attributes
+	pNode->GetNodeAttributeValue(XML_GDTF_DMXLogicalChannelAttribute, fUnresolvedAttribRef);
+	TXString snap; 	pNode->GetNodeAttributeValue(XML_GDTF_DMXLogicalChannelSnap,	snap);		GdtfConverter::ConvertSnapEnum(snap, 	 pNode, fSnap);
+	TXString master;pNode->GetNodeAttributeValue(XML_GDTF_DMXLogicalChannelMaster,	master);	GdtfConverter::ConvertMasterEnum(master, pNode,	fDmxMaster);
+	//
+	TXString mib;		pNode->GetNodeAttributeValue(XML_GDTF_DMXLogicalChannelMibFadeFrames,		mib);		GdtfConverter::ConvertDouble(mib, 		pNode,	fMoveInBlackFrames);
+	TXString timelimit;	pNode->GetNodeAttributeValue(XML_GDTF_DMXLogicalChannelDMXChangeTimeLimit,	timelimit);	GdtfConverter::ConvertDouble(timelimit, pNode,	fDmxChangeTimeLimit);
+	
+	// ------------------------------------------------------------------------------------
+	// Read LogicalChannels
+	GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_DMXChannelFuntionNodeName, [this] (IXMLFileNodePtr objNode) -> void
+								 {
+									 if ( CheckAbort() ) return;
+
+									 // Create the object
+									 GdtfDmxChannelFunctionPtr function = new GdtfDmxChannelFunction(this);
+									 
+									 // Read from node
+									 function->ReadFromNode(objNode);
+
+									 if(fFunctions.size() > 0)	{ fFunctions.back()->SetNextFunction(function); }
+									 
+									 if(fFunctions.size() == 0)	
+									 { 
+										if(function->GetStartAdress() != 0)
+										{
+											GdtfParsingError error (GdtfDefines::EGdtfParsingError::eChannelFunctionNotStartingWithZero, objNode);
+        									SceneData::GdtfFixture::AddError(error);
+											function->SetStartAddress(0);
+										}
+									 }
+									 
+									 // Add to list
+									 fFunctions.push_back(function);
+
+									 
+									 
+									 return;
+								 });
+}
+
+void GdtfDmxLogicalChannel::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_DMXLogicalChannelAttribute);
+	optional.push_back(XML_GDTF_DMXLogicalChannelSnap);
+	optional.push_back(XML_GDTF_DMXLogicalChannelMaster);
+    optional.push_back(XML_GDTF_DMXLogicalChannelMibFadeFrames);
+	optional.push_back(XML_GDTF_DMXLogicalChannelDMXChangeTimeLimit);	
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfDmxLogicalChannel::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfDmxLogicalChannel;
+}
+
+TXString GdtfDmxLogicalChannel::GetNodeReference()
+{
+	return fParentDmxChannel->GetNodeReference() + "." + GetName();
+}
+
+TXString GdtfDmxLogicalChannel::GetNodeName()
+{
+	return XML_GDTF_DMXLogicalChannelNodeName;
+}
+
+const TXString& GdtfDmxLogicalChannel::GetName()
+{
+	if(fName_AutoGenerated.IsEmpty())
+	{
+		TXString name;
+		ASSERTN(kEveryone, fAttribute != nullptr);
+		if(fAttribute){ name +=fAttribute->GetName(); }
+
+		this->SetName(name);
+	}
+	return fName_AutoGenerated;
+}
+
+GdtfAttribute* GdtfDmxLogicalChannel::GetAttribute()
+{
+	return fAttribute;
+}
+
+EGdtfDmxSnap GdtfDmxLogicalChannel::GetDmxSnap() const
+{
+	return fSnap;
+}
+
+EGdtfDmxMaster GdtfDmxLogicalChannel::GetDmxMaster() const
+{
+	return fDmxMaster;
+}
+
+const TGdtfDmxChannelFuntionArray& GdtfDmxLogicalChannel::GetDmxChannelFunctions()
+{
+	return fFunctions;
+}
+
+const TXString& GdtfDmxLogicalChannel::GetUnresolvedAttribRef() const
+{
+	return fUnresolvedAttribRef;
+}
+
+GdtfDmxChannel* GdtfDmxLogicalChannel::GetParentDMXChannel() const 
+{
+	return fParentDmxChannel;
+}
+
+//------------------------------------------------------------------------------------
+// GdtfDmxChannelFunction
+GdtfDmxChannelFunction::GdtfDmxChannelFunction(GdtfDmxLogicalChannel* parent)
+{
+	fDefaultValue			= 0;
+	fAdressStart			= 0;
+	fPhysicalStart			= 0;
+	fPhysicalEnd			= 1;
+	fRealFade				= 0;
+	fRealAcceleration 		= 0;
+	fOnWheel				= nullptr;
+	fEmitter				= nullptr;
+	fAttribute				= nullptr;
+	fParentLogicalChannel	= parent;
+	fNextFunction			= nullptr;
+
+	fModeMaster_Channel		= nullptr;
+	fModeMaster_Function	= nullptr;
+	fDmxModeStart			= 0;
+	fDmxModeEnd				= 0;
+
+	fFilter                	= nullptr;
+	fColorSpace             = nullptr;
+	fGamut                	= nullptr;
+	fDMXProfile             = nullptr;
+
+	fMin 					= 0;
+	fMax 					= 1;
+
+    fUnresolvedFilterRef   		= "";
+    fUnresolvedColorSpaceRef	= "";
+    fUnresolvedGamutRef   		= "";
+    fUnresolvedDMXProfileRef 	= "";
+}
+
+GdtfDmxChannelFunction::GdtfDmxChannelFunction(const TXString& name, GdtfDmxLogicalChannel* parent)
+{
+	fName					= name;
+	fDefaultValue			= 0;
+	fAdressStart			= 0;
+	fPhysicalStart			= 0;
+	fPhysicalEnd			= 1;
+	fRealFade				= 0;
+	fRealAcceleration 		= 0;
+	fOnWheel				= nullptr;
+	fEmitter				= nullptr;				
+	fAttribute				= nullptr;
+	fParentLogicalChannel	= parent;
+	fNextFunction			= nullptr;
+
+	fModeMaster_Channel		= nullptr;
+	fModeMaster_Function	= nullptr;
+	fDmxModeStart			= 0;
+	fDmxModeEnd				= 0;
+
+    fFilter                	= nullptr;
+	fColorSpace             = nullptr;
+	fGamut                	= nullptr;
+	fDMXProfile             = nullptr;
+
+	fMin 					= 0;
+	fMax 					= 1;
+
+    fUnresolvedFilterRef   		= "";
+    fUnresolvedColorSpaceRef	= "";
+    fUnresolvedGamutRef   		= "";
+    fUnresolvedDMXProfileRef 	= "";
+}
+
+GdtfDmxChannelFunction::~GdtfDmxChannelFunction()
+{
+	for (GdtfDmxChannelSetPtr ptr 		: fChannelSets) 	{ delete ptr; }
+	for (GdtfDmxSubChannelSetPtr ptr 	: fSubChannelSets) 	{ delete ptr; }
+}
+
+void GdtfDmxChannelFunction::SetNextFunction(GdtfDmxChannelFunction* next)
+{
+	ASSERTN(kEveryone, fNextFunction == nullptr);
+	fNextFunction = next;
+}
+
+void GdtfDmxChannelFunction::SetName(const TXString &name)
+{
+	fName = name;
+}
+
+void GdtfDmxChannelFunction::SetAttribute(GdtfAttribute* newAttr)
+{
+	fAttribute = newAttr;
+}
+
+void GdtfDmxChannelFunction::SetOriginalAttribute(const TXString &attribute)
+{
+	fOrignalAttribute = attribute;
+}
+
+void GdtfDmxChannelFunction::SetDefaultValue(DmxValue defaultValue)
+{
+	fDefaultValue = defaultValue;
+}
+
+void GdtfDmxChannelFunction::SetStartAddress(DmxValue address)
+{
+	fAdressStart = address;
+}
+
+void GdtfDmxChannelFunction::SetPhysicalStart(double start)
+{
+	fPhysicalStart = start;
+}
+
+void GdtfDmxChannelFunction::SetPhysicalEnd(double end)
+{
+	fPhysicalEnd = end;
+}
+
+void GdtfDmxChannelFunction::SetRealFade(double fade)
+{
+	fRealFade = fade;
+}
+
+void GdtfDmxChannelFunction::SetRealAcceleration(double acceleration)
+{
+	fRealAcceleration = acceleration;
+}
+
+GdtfDmxChannelSet* GdtfDmxChannelFunction::AddChannelSet(const TXString &name)
+{
+	GdtfDmxChannelSet* channelSet = new GdtfDmxChannelSet(name, this);
+	fChannelSets.push_back(channelSet);
+	return channelSet;
+}
+
+GdtfDmxSubChannelSet* GdtfDmxChannelFunction::AddSubChannelSet(GdtfSubPhysicalUnit* subPhysicalUnit, const TXString& name)
+{
+	GdtfDmxSubChannelSet* subChannelSet = new GdtfDmxSubChannelSet(subPhysicalUnit, name);
+	fSubChannelSets.push_back(subChannelSet);
+	return subChannelSet;
+}
+
+void GdtfDmxChannelFunction::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnPrintToFile(pNode);
+	
+	EGdtfChannelBitResolution chanelReso = GetParentDMXChannel()->GetChannelBitResolution();
+
+	// ------------------------------------------------------------------------------------
+	// Print node attributes
+	pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFuntionName,				fName);
+
+	pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFuntionDefault,				GdtfConverter::ConvertDMXValue(fDefaultValue, chanelReso));
+	pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFuntionDMXFrom,				GdtfConverter::ConvertDMXValue(fAdressStart, chanelReso));
+	pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFuntionPhysicalFrom,		GdtfConverter::ConvertDouble(fPhysicalStart));
+	pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFuntionPhysicalTo,			GdtfConverter::ConvertDouble(fPhysicalEnd));
+	pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFuntionRealFade,			GdtfConverter::ConvertDouble(fRealFade));
+	pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFuntionRealAcceleration,	GdtfConverter::ConvertDouble(fRealAcceleration));
+	pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFunctionMin,				GdtfConverter::ConvertDouble(fMin));
+	pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFunctionMax,				GdtfConverter::ConvertDouble(fMax));
+	pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFunctionCustomName,			fCustomName);
+
+	
+	pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFuntionOriginalAttribute,								fOrignalAttribute);
+	if (fAttribute)		    { pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFuntionAttribute,			    fAttribute->GetNodeReference()); }
+	if (fOnWheel)			{ pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFuntionWheelRef,				fOnWheel->GetNodeReference()); }
+	if (fEmitter)			{ pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelEmitter,						fEmitter->GetNodeReference() ); }
+	if (fFilter) 			{ pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFuntionFilter, 				fFilter->GetNodeReference()); }
+	if (fColorSpace) 		{ pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFunctionColorSpace, 			fColorSpace->GetNodeReference()); }
+	if (fGamut) 			{ pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFunctionGamut, 				fGamut->GetNodeReference()); }
+	if (fDMXProfile) 		{ pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFunctionDMXProfile, 			fDMXProfile->GetNodeReference()); }
+	
+
+	if(fModeMaster_Channel)
+	{
+		ASSERTN(kEveryone, (fModeMaster_Function == nullptr));
+
+		pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFuntionModeMaster,				fModeMaster_Channel->GetNodeReference());	
+		pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFuntionModeFrom,				GdtfConverter::ConvertDMXValue(fDmxModeStart, fModeMaster_Channel->GetChannelBitResolution()));	
+		pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFuntionModeTo,					GdtfConverter::ConvertDMXValue(fDmxModeEnd,   fModeMaster_Channel->GetChannelBitResolution()));	
+	}
+	if(fModeMaster_Function)
+	{
+		ASSERTN(kEveryone, (fModeMaster_Channel == nullptr));
+
+		pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFuntionModeMaster,				fModeMaster_Function->GetNodeReference());	
+		pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFuntionModeFrom,				GdtfConverter::ConvertDMXValue(fDmxModeStart, fModeMaster_Function->GetParentDMXChannel()->GetChannelBitResolution()));	
+		pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFuntionModeTo,					GdtfConverter::ConvertDMXValue(fDmxModeEnd,   fModeMaster_Function->GetParentDMXChannel()->GetChannelBitResolution()));	
+	}
+
+	// ------------------------------------------------------------------------------------
+	// Prepare No Feature Channel Set
+	TGdtfDmxChannelSetArray tempArr;
+	bool					hasChannelSets = fChannelSets.size() > 0;
+	
+	// Sort from low to high
+	std::sort(fChannelSets.begin(), fChannelSets.end(), [](const GdtfDmxChannelSetPtr & a, const GdtfDmxChannelSetPtr & b) -> bool { return a->GetDmxStart() < b->GetDmxStart(); });
+	
+	// If it has channel sets, process first obj
+	if(hasChannelSets)
+	{
+		GdtfDmxChannelSetPtr firstChannelSet = fChannelSets[0];
+		
+		if(firstChannelSet->GetDmxStart() > this->GetStartAdress())
+		{
+			GdtfDmxChannelSetPtr noFeature = new GdtfDmxChannelSet("", this);
+			noFeature->SetDmxStart(this->GetStartAdress());
+			noFeature->SetDmxEnd(firstChannelSet->GetDmxStart()-1);
+			tempArr.push_back(noFeature);
+		}
+		
+		// add the first one
+		tempArr.push_back(firstChannelSet);
+	}
+	
+	// Process the spaces between the channel sets
+	for (size_t i = 1; i < fChannelSets.size(); i++)
+	{
+		GdtfDmxChannelSetPtr first  = fChannelSets[i-1];
+		GdtfDmxChannelSetPtr second = fChannelSets[ i ];
+		
+		DmxValue diff = second ->GetDmxStart() - first->GetDmxEnd();
+		
+		if (diff > 1)
+		{
+			GdtfDmxChannelSetPtr noFeature = new GdtfDmxChannelSet("", this);
+			noFeature->SetDmxStart(first->GetDmxEnd()  + 1);
+			noFeature->SetDmxEnd(second->GetDmxStart() - 1);
+			tempArr.push_back(noFeature);
+		}
+		else if(diff < 1)	{ DSTOP((kEveryone, "Wrong Formated ChannelSet")); }
+		
+		tempArr.push_back(second);
+		
+	}
+	
+	// Process the last channel set
+	if(hasChannelSets)
+	{
+		GdtfDmxChannelSetPtr lastChannelSet = fChannelSets.back();
+
+		if(lastChannelSet->GetDmxEnd() < this->GetEndAdress())
+		{
+			GdtfDmxChannelSetPtr noFeature = new GdtfDmxChannelSet("", this);
+			noFeature->SetDmxStart(lastChannelSet->GetDmxEnd() + 1);
+			noFeature->SetDmxEnd(this->GetEndAdress());
+			tempArr.push_back(noFeature);
+		}
+	}
+	
+	
+	// ------------------------------------------------------------------------------------
+	// Now print them to the node
+	for (GdtfDmxChannelSet* channelObj : tempArr)
+	{
+		channelObj->WriteToNode(pNode);
+	}
+	fChannelSets = tempArr;
+
+	// ------------------------------------------------------------------------------------
+	// SubChannelSets
+	for(GdtfDmxSubChannelSet* subChannelSet : fSubChannelSets)
+	{
+		subChannelSet->WriteToNode(pNode);
+	}
+}
+
+void GdtfDmxChannelFunction::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnReadFromNode(pNode);
+	
+	// ------------------------------------------------------------------------------------
+	// Print node attributes
+	EGdtfChannelBitResolution channelReso = fParentLogicalChannel->GetParentDMXChannel()->GetChannelBitResolution();
+
+							pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelFuntionName,				fName);
+							pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelFuntionOriginalAttribute,	fOrignalAttribute);
+	TXString defaultValue;	pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelFuntionDefault,				defaultValue);		GdtfConverter::ConvertDMXValue(defaultValue,	pNode,	channelReso,fDefaultValue);
+	TXString dmxFrom;		pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelFuntionDMXFrom,				dmxFrom);			GdtfConverter::ConvertDMXValue(dmxFrom, 		pNode,	channelReso,fAdressStart);
+	TXString physFrom;		pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelFuntionPhysicalFrom,		physFrom);			GdtfConverter::ConvertDouble(physFrom, 			pNode,				fPhysicalStart);
+	TXString physTo;		pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelFuntionPhysicalTo,			physTo);			GdtfConverter::ConvertDouble(physTo, 			pNode,				fPhysicalEnd);
+	TXString realFade;		pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelFuntionRealFade,			realFade);			GdtfConverter::ConvertDouble(realFade, 			pNode,				fRealFade);
+	TXString realAcc;		pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelFuntionRealAcceleration,	realAcc);			GdtfConverter::ConvertDouble(realAcc, 			pNode,				fRealAcceleration);
+	TXString min;			pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelFunctionMin,				min);				GdtfConverter::ConvertDouble(min, 				pNode,				fMin);
+	TXString max;			pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelFunctionMax,				max);				GdtfConverter::ConvertDouble(max, 				pNode,				fMax);
+							pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelFunctionCustomName,			fCustomName);
+	// Unresolved refs
+	pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelFuntionAttribute, 	fUnresolvedAttrRef);	
+	pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelFuntionWheelRef, 	fUnresolvedWheelRef);
+	pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelEmitter, 			fUnresolvedEmitterRef);
+    pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelFuntionFilter,		fUnresolvedFilterRef);
+    pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelFunctionColorSpace,	fUnresolvedColorSpaceRef);
+    pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelFunctionGamut,		fUnresolvedGamutRef);
+    pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelFunctionDMXProfile,	fUnresolvedDMXProfileRef);
+
+	// Read Mode Master
+	pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelFuntionModeMaster,	fUnresolvedModeMaster);	
+	pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelFuntionModeFrom,	fUnresolvedDmxModeStart);	
+	pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelFuntionModeTo,		fUnresolvedDmxModeEnd);	
+
+    
+
+	// ------------------------------------------------------------------------------------
+	// GdtfDmxChannelSet
+	GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_DMXChannelSetNodeName, [this] (IXMLFileNodePtr objNode) -> void
+	{	
+		if ( CheckAbort() ) return;
+
+		// Create the object
+		GdtfDmxChannelSetPtr channelSet = new GdtfDmxChannelSet(this);
+		
+		// Read from node
+		channelSet->ReadFromNode(objNode);
+
+		if( ! channelSet->IsValid()) { delete channelSet; return; }
+
+		// For old virtual channels with recalculated DMX values(32->16), ensure unique DMXFrom values
+		if (this->GetParentDMXChannel()->IsVirtual())
+		{
+			DmxValue maxDmxValue = this->GetParentDMXChannel()->GetChannelMaxDmx();
+
+			if (fChannelSets.size() >= maxDmxValue)
+			{
+				GdtfParsingError error (GdtfDefines::EGdtfParsingError::eValueError_DmxValueHasWrongValue, objNode);
+				SceneData::GdtfFixture::AddError(error);
+				delete channelSet;
+				return;
+			}
+			
+			DmxValue currentValue = channelSet->GetDmxStart();
+
+			bool hasDuplicate = true;
+			
+			while (hasDuplicate && currentValue < maxDmxValue)
+			{
+				hasDuplicate = false;
+				for (size_t i = 0; i < fChannelSets.size(); i++)
+				{
+					if (fChannelSets[i]->GetDmxStart() == currentValue)
+					{
+						hasDuplicate = true;
+						currentValue++;
+						break;
+					}
+				}
+			}
+			
+			// If we reached the maximum and still have a duplicate, use cascading backward decrement
+			if (hasDuplicate && currentValue >= maxDmxValue)
+			{
+				for (int i = fChannelSets.size() - 1; i >= 0; i--)
+				{
+					DmxValue nextValue = (i == (int)fChannelSets.size() - 1) ? maxDmxValue : fChannelSets[i + 1]->GetDmxStart();
+					DmxValue currentElem = fChannelSets[i]->GetDmxStart();
+					DmxValue maxAllowed = (nextValue > 0) ? (nextValue - 1) : 0;
+					
+					if (currentElem >= nextValue && maxAllowed >= 0)
+					{
+						fChannelSets[i]->SetDmxStart(maxAllowed);
+					}
+				}
+				
+				currentValue = maxDmxValue;
+			}
+			
+			if (currentValue != channelSet->GetDmxStart())
+			{
+				channelSet->SetDmxStart(currentValue);
+			}
+		}
+	
+		// Link with next
+		if(!fChannelSets.empty()) 
+		{ 
+			bool validDmxRange = fChannelSets.back()->SetNextChannelSet(channelSet, objNode);
+			if(! validDmxRange) { delete channelSet; return; }
+		}
+		
+		// Add to list
+		fChannelSets.push_back(channelSet);
+		
+		return;
+	});
+	
+	// Now calculate end values
+	for (size_t i = 1; i < fChannelSets.size() ; i++)
+	{
+		GdtfDmxChannelSetPtr first  = fChannelSets[i-1];
+		GdtfDmxChannelSetPtr second = fChannelSets[ i ];
+		
+		first->SetDmxEnd(second->GetDmxStart() - 1);
+	}
+
+	// ------------------------------------------------------------------------------------
+	// GdtfDmxSubChannelSet
+	GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_DMXSubChannelSetNodeName, [this] (IXMLFileNodePtr objNode) -> void
+	{
+		if ( CheckAbort() ) return;
+
+		// Create the object
+		GdtfDmxSubChannelSetPtr subChannelSet = new GdtfDmxSubChannelSet();
+		
+		// Read from node
+		subChannelSet->ReadFromNode(objNode);
+
+		// Add to list
+		fSubChannelSets.push_back(subChannelSet);
+
+		return;
+	});
+}
+
+void GdtfDmxChannelFunction::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	optional.push_back(XML_GDTF_DMXChannelFuntionName);
+	optional.push_back(XML_GDTF_DMXChannelFuntionAttribute);
+	optional.push_back(XML_GDTF_DMXChannelFuntionOriginalAttribute);
+	optional.push_back(XML_GDTF_DMXChannelFuntionDefault);
+	optional.push_back(XML_GDTF_DMXChannelFuntionDMXFrom);
+	optional.push_back(XML_GDTF_DMXChannelFuntionPhysicalFrom);
+	optional.push_back(XML_GDTF_DMXChannelFuntionPhysicalTo);
+	optional.push_back(XML_GDTF_DMXChannelFuntionWheelRef);
+	optional.push_back(XML_GDTF_DMXChannelEmitter);	
+	optional.push_back(XML_GDTF_DMXChannelFuntionModeMaster);
+	optional.push_back(XML_GDTF_DMXChannelFuntionModeFrom);
+	optional.push_back(XML_GDTF_DMXChannelFuntionModeTo);
+	optional.push_back(XML_GDTF_DMXChannelFuntionRealFade);
+    optional.push_back(XML_GDTF_DMXChannelFuntionFilter);
+	optional.push_back(XML_GDTF_DMXChannelFuntionRealAcceleration);
+	optional.push_back(XML_GDTF_DMXChannelFunctionColorSpace);
+	optional.push_back(XML_GDTF_DMXChannelFunctionGamut);
+	optional.push_back(XML_GDTF_DMXChannelFunctionDMXProfile);
+	optional.push_back(XML_GDTF_DMXChannelFunctionMin);
+	optional.push_back(XML_GDTF_DMXChannelFunctionMax);
+	optional.push_back(XML_GDTF_DMXChannelFunctionCustomName);
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfDmxChannelFunction::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfDmxChannelFuntion;
+}
+
+TXString GdtfDmxChannelFunction::GetNodeName()
+{
+	return XML_GDTF_DMXChannelFuntionNodeName;
+}
+
+TXString GdtfDmxChannelFunction::GetNodeReference()
+{
+	TXString functionName = GetName();
+	if(functionName.IsEmpty())
+	{
+		ASSERTN(kEveryone, GetAttribute() != nullptr);
+		if(GetAttribute() != nullptr)
+		{
+			functionName = GetAttribute()->GetName();
+			functionName += " ";
+			functionName += TXString().itoa(GetNumberInParent());
+		}
+		
+	}
+	return fParentLogicalChannel->GetNodeReference() + "." + functionName;
+}
+
+size_t GdtfDmxChannelFunction::GetNumberInParent() const
+{
+	size_t count = fParentLogicalChannel->GetDmxChannelFunctions().size();
+	for(size_t i = 0; i < count; i++)
+	{
+		if(fParentLogicalChannel->GetDmxChannelFunctions()[i] == this)
+		{
+			return (i+1);
+		}
+	}
+	
+	DSTOP("Failed to get GetNumberInParent");
+	return 1;
+}
+
+const TXString& GdtfDmxChannelFunction::GetName() const
+{
+	return fName;
+}
+
+GdtfAttribute* GdtfDmxChannelFunction::GetAttribute()
+{
+	return fAttribute;
+}
+
+const TXString& GdtfDmxChannelFunction::GetOriginalAttribute()
+{
+	return fOrignalAttribute;
+}
+
+DmxValue GdtfDmxChannelFunction::GetDefaultValue() const
+{
+	return fDefaultValue;
+}
+
+DmxValue GdtfDmxChannelFunction::GetStartAdress() const
+{
+	return fAdressStart;
+}
+
+DmxValue GdtfDmxChannelFunction::GetEndAdress() const
+{
+	if(fNextFunction)
+	{
+		// There could be serveral Channel Function that have the same start adress, step over them 
+		if(fNextFunction->GetStartAdress() <= this->GetStartAdress()) { fParentLogicalChannel->GetParentDMXChannel()->GetChannelMaxDmx(); }
+		// If the Start Adress differrs, the end Adress is based on the start adress of this channel 
+		else { return(fNextFunction->GetStartAdress() - 1);  }	
+	}
+	
+	// Otherwise return the max for this feature
+	return fParentLogicalChannel->GetParentDMXChannel()->GetChannelMaxDmx();
+}
+
+double GdtfDmxChannelFunction::GetPhysicalStart() const
+{
+	return fPhysicalStart;
+}
+
+double GdtfDmxChannelFunction::GetPhysicalEnd() const
+{
+	return fPhysicalEnd;
+}
+
+double GdtfDmxChannelFunction::GetRealFade() const
+{
+	return fRealFade;
+}
+
+double GdtfDmxChannelFunction::GetRealAcceleration() const
+{
+	return fRealAcceleration;
+}
+
+GdtfWheelPtr GdtfDmxChannelFunction::GetOnWheel() const
+{
+	return fOnWheel;
+}
+
+GdtfPhysicalEmitter * SceneData::GdtfDmxChannelFunction::GetEmitter() const
+{
+    return fEmitter;
+}
+
+GdtfFilterPtr SceneData::GdtfDmxChannelFunction::GetFilter() const
+{
+    return fFilter;
+}
+
+GdtfColorSpacePtr SceneData::GdtfDmxChannelFunction::GetColorSpace() const
+{
+    return fColorSpace;
+}
+
+GdtfGamutPtr SceneData::GdtfDmxChannelFunction::GetGamut() const
+{
+    return fGamut;
+}
+
+GdtfDMXProfilePtr SceneData::GdtfDmxChannelFunction::GetDMXProfile() const
+{
+    return fDMXProfile;
+}
+
+double GdtfDmxChannelFunction::GetMin() const
+{
+	return fMin;
+}
+
+double GdtfDmxChannelFunction::GetMax() const
+{
+	return fMax;
+}
+
+const TXString& GdtfDmxChannelFunction::GetCustomName() const
+{
+	return fCustomName;
+}
+
+void GdtfDmxChannelFunction::SetWheel(GdtfWheelPtr newWhl)
+{
+	fOnWheel = newWhl;
+}
+
+const TGdtfDmxChannelSetArray& GdtfDmxChannelFunction::GetChannelSets() const
+{
+	return fChannelSets;
+}
+
+const TGdtfDmxSubChannelSetArray& GdtfDmxChannelFunction::GetSubChannelSets() const
+{
+	return fSubChannelSets;
+}
+
+GdtfDmxChannel* GdtfDmxChannelFunction::GetModeMaster_Channel() const
+{
+	return fModeMaster_Channel;
+}
+
+GdtfDmxChannelFunction* GdtfDmxChannelFunction::GetModeMaster_Function() const
+{
+	return fModeMaster_Function;
+}
+
+DmxValue GdtfDmxChannelFunction::GetModeMasterDmxStart() const
+{
+	return fDmxModeStart;
+}
+
+DmxValue GdtfDmxChannelFunction::GetModeMasterDmxEnd() const
+{
+	return fDmxModeEnd;
+}
+
+void GdtfDmxChannelFunction::ResolveModeMasterDmx(EGdtfChannelBitResolution resolution)
+{
+	IXMLFileNodePtr node;
+	this->GetNode(node);
+
+	GdtfConverter::ConvertDMXValue(fUnresolvedDmxModeStart, node, resolution, fDmxModeStart);
+	GdtfConverter::ConvertDMXValue(fUnresolvedDmxModeEnd,node, resolution, fDmxModeEnd);
+}
+
+void GdtfDmxChannelFunction::SetModeMaster_Channel(GdtfDmxChannel* channel)
+{
+	ASSERTN(kEveryone, fModeMaster_Function == nullptr);
+	fModeMaster_Function = nullptr;
+	fModeMaster_Channel = channel;
+}
+
+void GdtfDmxChannelFunction::SetModeMaster_Function(GdtfDmxChannelFunction* function)
+{
+	ASSERTN(kEveryone, fModeMaster_Channel == nullptr);
+	fModeMaster_Channel = nullptr;
+	fModeMaster_Function = function;
+}
+
+void GdtfDmxChannelFunction::SetModeMasterDmxStart(DmxValue start)
+{
+	fDmxModeStart = start;
+}
+
+void GdtfDmxChannelFunction::SetModeMasterDmxEnd(DmxValue end)
+{
+	fDmxModeEnd = end;
+}
+
+void GdtfDmxChannelFunction::SetEmitter(GdtfPhysicalEmitter* newEmit)
+{
+	fEmitter = newEmit;
+}
+
+void SceneData::GdtfDmxChannelFunction::SetFilter(GdtfFilterPtr val)
+{
+    fFilter = val;
+}
+
+void SceneData::GdtfDmxChannelFunction::SetColorSpace(GdtfColorSpacePtr colorSpace)
+{
+    fColorSpace = colorSpace;
+}
+
+void SceneData::GdtfDmxChannelFunction::SetGamut(GdtfGamutPtr gamut)
+{
+    fGamut = gamut;
+}
+
+void SceneData::GdtfDmxChannelFunction::SetDMXProfile(GdtfDMXProfilePtr dmxProfile)
+{
+    fDMXProfile = dmxProfile;
+}
+
+void SceneData::GdtfDmxChannelFunction::SetMin(double min)
+{
+    fMin = min;
+}
+
+void SceneData::GdtfDmxChannelFunction::SetMax(double max)
+{
+    fMax = max;
+}
+
+void SceneData::GdtfDmxChannelFunction::SetCustomName(const TXString& customName)
+{
+    fCustomName = customName;
+}
+
+const TXString& GdtfDmxChannelFunction::getUnresolvedAttrRef() const
+{
+	return fUnresolvedAttrRef;
+}
+
+const TXString& GdtfDmxChannelFunction::getUnresolvedWheelRef() const
+{
+	return fUnresolvedWheelRef;
+}
+
+const TXString& GdtfDmxChannelFunction::getUnresolvedEmitterRef() const
+{
+	return fUnresolvedEmitterRef;
+}
+
+const TXString& GdtfDmxChannelFunction::getUnresolvedModeMasterRef() const
+{
+	return fUnresolvedModeMaster;
+}
+
+const TXString & SceneData::GdtfDmxChannelFunction::getUnresolvedFilterRef()
+{
+    return fUnresolvedFilterRef;
+}
+
+const TXString& SceneData::GdtfDmxChannelFunction::getUnresolvedColorSpaceRef() const
+{
+    return fUnresolvedColorSpaceRef;
+}
+
+const TXString& SceneData::GdtfDmxChannelFunction::getUnresolvedGamutRef() const
+{
+    return fUnresolvedGamutRef;
+}
+
+const TXString& SceneData::GdtfDmxChannelFunction::getUnresolvedDMXProfileRef() const
+{
+    return fUnresolvedDMXProfileRef;
+}
+
+GdtfDmxChannel * SceneData::GdtfDmxChannelFunction::GetParentDMXChannel() const
+{
+	return fParentLogicalChannel->GetParentDMXChannel();
+}
+
+GdtfDmxLogicalChannel * SceneData::GdtfDmxChannelFunction::GetParentLogicalChannel() const
+{
+	return fParentLogicalChannel;
+}
+
+GdtfDmxChannelFunction* SceneData::GdtfDmxChannelFunction::GetNextFunction() const
+{
+	return fNextFunction;
+}
+
+//------------------------------------------------------------------------------------
+// GdtfDmxChannelSet
+GdtfDmxChannelSet::GdtfDmxChannelSet(GdtfDmxChannelFunction* parent)
+{
+	fDmxStart		= 0;
+	fDmxEnd			= -1;
+	fPhysicalStart	= 0.0;
+	fPhysicalEnd	= 1.0;	
+	fWheelSlotIdx	= 0;
+	fSetPhysical	= false;
+	fNextChannelSet = nullptr;
+	fParentChnlFunction = parent;
+	fValid = true;
+}
+
+GdtfDmxChannelSet::GdtfDmxChannelSet(const TXString& name, GdtfDmxChannelFunction* parent)
+{
+	fUniqueName = name;
+	fDmxStart		= 0;
+	fDmxEnd			= -1;
+	fPhysicalStart	= 0.0;
+	fPhysicalEnd	= 1.0;	
+	fWheelSlotIdx	= 0;
+	fSetPhysical	= false;
+	fNextChannelSet = nullptr;
+	fParentChnlFunction = parent;
+	fValid = true;
+}
+
+GdtfDmxChannelSet::~GdtfDmxChannelSet()
+{
+}
+
+bool GdtfDmxChannelSet::SetNextChannelSet(GdtfDmxChannelSet* next, IXMLFileNodePtr objNode)
+{
+	if(this->GetDmxStart() >= next->GetDmxStart())
+	{
+		GdtfParsingError error (GdtfDefines::EGdtfParsingError::eValueError_DmxValueHasWrongValue, objNode);
+        SceneData::GdtfFixture::AddError(error);
+		return false;
+	}
+
+	ASSERTN(kEveryone, fNextChannelSet == nullptr);
+	fNextChannelSet = next;
+	return true;
+}
+
+void GdtfDmxChannelSet::SetName(const TXString& name)
+{
+	fUniqueName = name;
+}
+
+void GdtfDmxChannelSet::SetDmxStart(DmxValue start)
+{
+	fDmxStart = start;
+}
+
+void GdtfDmxChannelSet::SetDmxEnd(DmxValue end)
+{
+	fDmxEnd = end;
+}
+
+void GdtfDmxChannelSet::SetPhysicalStart(double start)
+{
+	fPhysicalStart = start;
+	fSetPhysical	= true;
+}
+
+void GdtfDmxChannelSet::SetPhysicalEnd(double end)
+{
+	fPhysicalEnd = end;
+	fSetPhysical	= true;
+}
+
+void GdtfDmxChannelSet::SetWheelSlot(Sint32 slotIndex)
+{
+	fWheelSlotIdx = slotIndex;
+}
+
+bool GdtfDmxChannelSet::IsValid()
+{
+	return fValid;
+}
+
+void GdtfDmxChannelSet::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnPrintToFile(pNode);
+	
+	EGdtfChannelBitResolution chanelReso = GetParentDMXChannel()->GetChannelBitResolution();
+	// ------------------------------------------------------------------------------------
+	// Print node attributes
+	pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelSetName,				fUniqueName);
+	pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelSetDMXFrom,				GdtfConverter::ConvertDMXValue(fDmxStart, chanelReso));
+	pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelSetWheelSlotIndexRef,	GdtfConverter::ConvertInteger(fWheelSlotIdx));
+	
+	if(fSetPhysical)
+	{
+		pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelSetPhysicalFrom,		GdtfConverter::ConvertDouble(fPhysicalStart));
+		pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelSetPhysicalTo,			GdtfConverter::ConvertDouble(fPhysicalEnd));
+	}
+	
+}
+
+void GdtfDmxChannelSet::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnReadFromNode(pNode);
+	
+	
+	// ------------------------------------------------------------------------------------
+	// Print node attributes
+	pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelSetName,				fUniqueName);
+	
+	EGdtfChannelBitResolution channelReso = fParentChnlFunction->GetParentDMXChannel()->GetChannelBitResolution();
+
+	TXString dmxfrom;	pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelSetDMXFrom,				dmxfrom);	fValid = GdtfConverter::ConvertDMXValue (dmxfrom, pNode, channelReso, fDmxStart);
+	TXString wheelId;	pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelSetWheelSlotIndexRef,	wheelId);	GdtfConverter::ConvertInteger(wheelId, pNode,  fWheelSlotIdx);
+	
+	
+	TXString physFrom; pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelSetPhysicalFrom,		physFrom);
+	TXString physTo;   pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelSetPhysicalTo,	    physTo);
+	
+	bool b1 = GdtfConverter::ConvertDouble(physTo, pNode,	fPhysicalEnd);
+	bool b2 = GdtfConverter::ConvertDouble(physFrom, pNode,	fPhysicalStart);
+	fSetPhysical = (b1 && b2);
+
+}
+
+void GdtfDmxChannelSet::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	optional.push_back(XML_GDTF_DMXChannelSetName);
+	optional.push_back(XML_GDTF_DMXChannelSetDMXFrom);
+	optional.push_back(XML_GDTF_DMXChannelSetWheelSlotIndexRef);
+
+	if(fSetPhysical)
+	{
+		needed.push_back(XML_GDTF_DMXChannelSetPhysicalFrom);
+		needed.push_back(XML_GDTF_DMXChannelSetPhysicalTo);
+
+	}
+	else
+	{
+		optional.push_back(XML_GDTF_DMXChannelSetPhysicalFrom);
+		optional.push_back(XML_GDTF_DMXChannelSetPhysicalTo);
+	}
+	
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfDmxChannelSet::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfDmxChannelSet;
+}
+
+TXString GdtfDmxChannelSet::GetNodeName()
+{
+	return XML_GDTF_DMXChannelSetNodeName;
+}
+
+const TXString& GdtfDmxChannelSet::GetName() const
+{
+	return fUniqueName;
+}
+
+bool GdtfDmxChannelSet::GetUsePhysicalFromParent() const
+{
+	return !fSetPhysical;
+}
+
+DmxValue GdtfDmxChannelSet::GetDmxStart() const
+{
+	return fDmxStart;
+}
+
+DmxValue GdtfDmxChannelSet::GetDmxEnd() const
+{
+	if(fNextChannelSet == nullptr && fDmxEnd == size_t(-1)) {  return fParentChnlFunction->GetEndAdress(); }
+	return fDmxEnd;
+}
+
+double GdtfDmxChannelSet::GetPhysicalStart() const
+{
+	return fPhysicalStart;
+}
+
+double GdtfDmxChannelSet::GetPhysicalEnd() const
+{
+	return fPhysicalEnd;
+}
+
+Sint32 GdtfDmxChannelSet::GetWheelSlot()
+{
+	return fWheelSlotIdx;
+}
+
+GdtfDmxChannel * SceneData::GdtfDmxChannelSet::GetParentDMXChannel() const
+{
+	return fParentChnlFunction->GetParentDMXChannel();
+}
+
+//------------------------------------------------------------------------------------
+// GdtfDmxSubChannelSet
+GdtfDmxSubChannelSet::GdtfDmxSubChannelSet()
+{
+	fUniqueName 		= "";
+	fPhysicalFrom		= 0.0;
+	fPhysicalTo			= 1.0;
+	fSubPhysicalUnit 	= nullptr;
+	fDMXProfile 		= nullptr;
+}
+
+GdtfDmxSubChannelSet::GdtfDmxSubChannelSet(GdtfSubPhysicalUnitPtr subPhysicalUnit, const TXString& name)
+{
+	fUniqueName 		= name;
+	fPhysicalFrom		= 0.0;
+	fPhysicalTo			= 1.0;
+	fSubPhysicalUnit 	= subPhysicalUnit;
+	fDMXProfile 		= nullptr;
+	if(subPhysicalUnit)
+	{
+		fPhysicalFrom 	= subPhysicalUnit->GetPhysicalFrom();
+		fPhysicalTo		= subPhysicalUnit->GetPhysicalTo();
+	}
+}
+
+GdtfDmxSubChannelSet::~GdtfDmxSubChannelSet()
+{
+}
+
+void GdtfDmxSubChannelSet::SetName(const TXString& name)
+{
+	fUniqueName = name;
+}
+
+void GdtfDmxSubChannelSet::SetPhysicalFrom(double from)
+{
+	fPhysicalFrom = from;
+}
+
+void GdtfDmxSubChannelSet::SetPhysicalTo(double to)
+{
+	fPhysicalTo = to;
+}
+
+void GdtfDmxSubChannelSet::SetSubPhysicalUnit(GdtfSubPhysicalUnitPtr subPhysicalUnit)
+{
+	fSubPhysicalUnit = subPhysicalUnit;
+}
+
+void GdtfDmxSubChannelSet::SetDMXProfile(GdtfDMXProfilePtr dmxProfile)
+{
+	fDMXProfile = dmxProfile;
+}
+
+void GdtfDmxSubChannelSet::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnPrintToFile(pNode);
+
+	// ------------------------------------------------------------------------------------
+	// Print node attributes
+								pNode->SetNodeAttributeValue(XML_GDTF_DMXSubChannelSetName,				fUniqueName);
+								pNode->SetNodeAttributeValue(XML_GDTF_DMXSubChannelSetPhysicalFrom,		GdtfConverter::ConvertDouble(fPhysicalFrom));
+								pNode->SetNodeAttributeValue(XML_GDTF_DMXSubChannelSetPhysicalTo,		GdtfConverter::ConvertDouble(fPhysicalTo));
+	if(fSubPhysicalUnit) 	{	pNode->SetNodeAttributeValue(XML_GDTF_DMXSubChannelSetSubPhysicalUnit, 	fSubPhysicalUnit->GetNodeReference()); }
+	if(fDMXProfile) 		{	pNode->SetNodeAttributeValue(XML_GDTF_DMXSubChannelSetDMXProfile,		fDMXProfile->GetNodeReference()); }
+
+}
+
+void GdtfDmxSubChannelSet::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnReadFromNode(pNode);
+	
+	// ------------------------------------------------------------------------------------
+	// Read node attributes
+							pNode->GetNodeAttributeValue(XML_GDTF_DMXSubChannelSetName,				fUniqueName);	
+	TXString physicalFrom; 	pNode->GetNodeAttributeValue(XML_GDTF_DMXSubChannelSetPhysicalFrom,		physicalFrom); 	GdtfConverter::ConvertDouble(physicalFrom, pNode, fPhysicalFrom);
+	TXString physicalTo;   	pNode->GetNodeAttributeValue(XML_GDTF_DMXSubChannelSetPhysicalTo,		physicalTo); 	GdtfConverter::ConvertDouble(physicalTo, pNode, fPhysicalTo);
+							pNode->GetNodeAttributeValue(XML_GDTF_DMXSubChannelSetSubPhysicalUnit,	fUnresolvedSubPhysicalUnitRef);	
+							pNode->GetNodeAttributeValue(XML_GDTF_DMXSubChannelSetDMXProfile,		fUnresolvedDMXProfileRef);	
+}
+
+void GdtfDmxSubChannelSet::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	optional.push_back(XML_GDTF_DMXSubChannelSetName);
+	optional.push_back(XML_GDTF_DMXSubChannelSetPhysicalFrom);
+	optional.push_back(XML_GDTF_DMXSubChannelSetPhysicalTo);
+	optional.push_back(XML_GDTF_DMXSubChannelSetDMXProfile);
+	needed.push_back(XML_GDTF_DMXSubChannelSetSubPhysicalUnit);
+	
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfDmxSubChannelSet::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfDmxSubChannelSet;
+}
+
+TXString GdtfDmxSubChannelSet::GetNodeName()
+{
+	return XML_GDTF_DMXSubChannelSetNodeName;
+}
+
+const TXString& GdtfDmxSubChannelSet::GetName() const
+{
+	return fUniqueName;
+}
+
+double GdtfDmxSubChannelSet::GetPhysicalFrom() const
+{
+	return fPhysicalFrom;
+}
+
+double GdtfDmxSubChannelSet::GetPhysicalTo() const
+{
+	return fPhysicalTo;
+}
+
+GdtfSubPhysicalUnitPtr GdtfDmxSubChannelSet::GetSubPhysicalUnit() const
+{
+	return fSubPhysicalUnit;
+}
+
+GdtfDMXProfilePtr GdtfDmxSubChannelSet::GetDMXProfile() const
+{
+	return fDMXProfile;
+}
+
+const TXString& GdtfDmxSubChannelSet::GetUnresolvedSubPhysicalUnitRef() const
+{
+	return fUnresolvedSubPhysicalUnitRef;
+}
+
+const TXString& GdtfDmxSubChannelSet::GetUnresolvedDMXProfileRef() const
+{
+	return fUnresolvedDMXProfileRef;
+}
+
+//------------------------------------------------------------------------------------
+// GdtfDmxRelation
+GdtfDmxRelation::GdtfDmxRelation()
+{
+	fMasterDmxChannel		= nullptr;
+	fSlaveChannelFunction	= nullptr;
+	fRelationType			= EGdtfDmxRelationType::eGdtfDmxRelationType_Override;
+
+}
+
+GdtfDmxRelation::GdtfDmxRelation(GdtfDmxChannelPtr master, GdtfDmxChannelFunctionPtr slave, const TXString& name)
+{
+	fUniqueName				= name;
+	fMasterDmxChannel		= master;
+	fSlaveChannelFunction	= slave;
+	fRelationType			= EGdtfDmxRelationType::eGdtfDmxRelationType_Override;
+}
+
+GdtfDmxRelation::~GdtfDmxRelation()
+{
+}
+
+void GdtfDmxRelation::SetName(const TXString& name)
+{
+	fUniqueName = name;
+}
+
+void GdtfDmxRelation::SetRelationType(EGdtfDmxRelationType type)
+{
+	fRelationType = type;
+}
+
+void GdtfDmxRelation::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnPrintToFile(pNode);
+	
+	// ------------------------------------------------------------------------------------
+	// Print node attributes
+	pNode->SetNodeAttributeValue(XML_GDTF_DMXRelationName,				fUniqueName);
+	if (fMasterDmxChannel) 		{ pNode->SetNodeAttributeValue(XML_GDTF_DMXRelationMaster,			fMasterDmxChannel->GetNodeReference());}
+	if (fSlaveChannelFunction)  { pNode->SetNodeAttributeValue(XML_GDTF_DMXRelationSlave,			fSlaveChannelFunction->GetNodeReference());}
+	pNode->SetNodeAttributeValue(XML_GDTF_DMXRelationType,		GdtfConverter::ConvertRelationEnum(fRelationType));
+
+
+}
+
+void GdtfDmxRelation::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnReadFromNode(pNode);	
+	
+	// ------------------------------------------------------------------------------------
+	// Print node attributes
+	pNode->GetNodeAttributeValue(XML_GDTF_DMXRelationName,	 fUniqueName);
+	pNode->GetNodeAttributeValue(XML_GDTF_DMXRelationMaster, fUnresolvedMasterRef);
+	pNode->GetNodeAttributeValue(XML_GDTF_DMXRelationSlave,	 fUnresolvedSlaveRef);
+    TXString type;		pNode->GetNodeAttributeValue(XML_GDTF_DMXRelationType,		type);		GdtfConverter::ConvertRelationEnum(type, pNode,	fRelationType); 
+}
+
+void GdtfDmxRelation::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_DMXRelationName);
+	needed.push_back(XML_GDTF_DMXRelationMaster);
+	needed.push_back(XML_GDTF_DMXRelationSlave);
+	needed.push_back(XML_GDTF_DMXRelationType);
+	
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfDmxRelation::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfDmxRelation;
+}
+
+TXString GdtfDmxRelation::GetNodeName()
+{
+	return XML_GDTF_DMXRelationNodeName;
+}
+
+const TXString& GdtfDmxRelation::GetName() const
+{
+	return fUniqueName;
+}
+
+GdtfDmxChannelPtr GdtfDmxRelation::GetMasterChannel() const
+{
+	return fMasterDmxChannel;
+}
+
+void GdtfDmxRelation::SetMasterChannel(GdtfDmxChannelPtr newMaster)
+{
+	fMasterDmxChannel = newMaster;
+}
+
+GdtfDmxChannelFunctionPtr GdtfDmxRelation::GetSlaveChannel() const
+{
+	return fSlaveChannelFunction;
+}
+
+void GdtfDmxRelation::SetSlaveChannel(GdtfDmxChannelFunctionPtr newSlave)
+{
+	fSlaveChannelFunction = newSlave;
+}
+
+const TXString& GdtfDmxRelation::GetUnresolvedMasterRef() const
+{
+	return fUnresolvedMasterRef;
+}
+
+const TXString& GdtfDmxRelation::GetUnresolvedSlaveRef() const
+{
+	return fUnresolvedSlaveRef;
+}
+
+EGdtfDmxRelationType GdtfDmxRelation::GetRelationType() const
+{
+	return fRelationType;
+}
+
+//------------------------------------------------------------------------------------
+// GdtfRevision
+GdtfRevision::GdtfRevision()
+{
+    fText 			= "";
+	fUserId 		= 0;
+	fDateS.fYear	= 0;
+	fDateS.fMonth	= 0;
+	fDateS.fDay		= 0;
+	fDateS.fHour	= 0;
+	fDateS.fMinute	= 0;
+	fDateS.fSecond	= 0;
+	fModifiedBy 	= "";
+    
+}
+
+GdtfRevision::~GdtfRevision()
+{
+}
+
+void GdtfRevision::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnPrintToFile(pNode);
+	
+	
+	// ------------------------------------------------------------------------------------
+	// Print node attributes
+	pNode->SetNodeAttributeValue(XML_GDTF_RevisionText,			fText);
+	pNode->SetNodeAttributeValue(XML_GDTF_RevisionDate,			SceneData::GdtfConverter::ConvertDate(fDateS));
+	pNode->SetNodeAttributeValue(XML_GDTF_RevisionUserId,		SceneData::GdtfConverter::ConvertInteger(fUserId));
+	pNode->SetNodeAttributeValue(XML_GDTF_RevisionModifiedBy,	fModifiedBy);
+	
+}
+
+void GdtfRevision::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnReadFromNode(pNode);
+	
+	
+	// ------------------------------------------------------------------------------------
+	// Print node attributes
+						pNode->GetNodeAttributeValue(XML_GDTF_RevisionText,			fText);
+	TXString date;		pNode->GetNodeAttributeValue(XML_GDTF_RevisionDate, 		date);		GdtfConverter::ConvertDate(date, pNode, fDateS);
+	TXString userid;	pNode->GetNodeAttributeValue(XML_GDTF_RevisionUserId, 		userid);	GdtfConverter::ConvertInteger(userid, pNode, fUserId);
+						pNode->GetNodeAttributeValue(XML_GDTF_RevisionModifiedBy,	fModifiedBy);
+
+}
+
+void GdtfRevision::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_RevisionDate);
+	optional.push_back(XML_GDTF_RevisionText);
+	optional.push_back(XML_GDTF_RevisionUserId);
+	optional.push_back(XML_GDTF_RevisionModifiedBy);
+
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfRevision::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfRevision;
+}
+
+TXString GdtfRevision::GetNodeName()
+{
+	return XML_GDTF_RevisionNodeName;
+}
+
+void GdtfRevision::SetText(const TXString& text)
+{
+	fText = text;
+}
+
+void GdtfRevision::SetDate(const STime& date)
+{
+	fDateS.fYear	= date.fYear;
+	fDateS.fMonth	= date.fMonth;
+	fDateS.fDay		= date.fDay;
+	fDateS.fHour	= date.fHour;
+	fDateS.fMinute	= date.fMinute;
+	fDateS.fSecond	= date.fSecond;
+}
+
+void GdtfRevision::SetUserId(size_t value) 
+{
+	fUserId = value;
+}
+
+void GdtfRevision::SetModifiedBy(const TXString& modifiedBy)
+{
+	fModifiedBy = modifiedBy;
+}
+
+const TXString& GdtfRevision::GetText() const
+{
+	return fText;
+}
+
+const STime& GdtfRevision::GetDate() const
+{
+	return fDateS;
+}
+
+size_t GdtfRevision::GetUserId() const
+{
+	return fUserId;
+}
+
+const TXString& GdtfRevision::GetModifiedBy() const
+{
+	return fModifiedBy;
+}
+
+
+
+//------------------------------------------------------------------------------------
+// GdtfPhysicalEmitter
+GdtfPhysicalEmitter::GdtfPhysicalEmitter()
+{
+	fColor		= CRGBColor(255, 255, 255);
+    fDominantWaveLength = 0;
+    fDiodePart = "";
+}
+
+GdtfPhysicalEmitter::GdtfPhysicalEmitter(const TXString& name, CCieColor color)
+{
+	fColor		= color;
+	fName		= name;
+    fDominantWaveLength = 0;
+    fDiodePart = "";
+}
+
+GdtfPhysicalEmitter::~GdtfPhysicalEmitter()
+{
+	for (GdtfMeasurementPtr ptr : fMeasurements) { delete ptr; }
+}
+
+void GdtfPhysicalEmitter::SetName(const TXString &name)
+{
+	fName = name;
+}
+
+void GdtfPhysicalEmitter::SetColor(CCieColor color)
+{
+	fColor = color;
+}
+
+void SceneData::GdtfPhysicalEmitter::SetDiodePart(const TXString& val)
+{
+    fDiodePart = val;
+}
+
+void SceneData::GdtfPhysicalEmitter::SetDominantWaveLength(double val)
+{
+    fDominantWaveLength = val;
+}
+
+GdtfMeasurement* GdtfPhysicalEmitter::AddMeasurement()
+{
+	GdtfMeasurement* mes = new GdtfMeasurement(false);
+	fMeasurements.push_back(mes);
+	return mes;
+}
+
+void GdtfPhysicalEmitter::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnPrintToFile(pNode);
+	
+	// ------------------------------------------------------------------------------------
+	// Print node attributes
+	pNode->SetNodeAttributeValue(XML_GDTF_EmitterName,				 fName);
+	pNode->SetNodeAttributeValue(XML_GDTF_EmitterColor,				 GdtfConverter::ConvertColor(fColor) );
+    pNode->SetNodeAttributeValue(XML_GDTF_EmitterDominantWaveLength, GdtfConverter::ConvertDouble(fDominantWaveLength) );
+    pNode->SetNodeAttributeValue(XML_GDTF_EmitterDiodePart,          fDiodePart );
+	//------------------------------------------------------------------------------------
+	// Write Measurement
+	for (GdtfMeasurement* mes: fMeasurements)
+	{
+		mes->WriteToNode(pNode);
+	}
+}
+
+void GdtfPhysicalEmitter::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnReadFromNode(pNode);
+	
+	// ------------------------------------------------------------------------------------
+	// Print node attributes
+	pNode->GetNodeAttributeValue(XML_GDTF_EmitterName,				fName);
+	
+    TXString color;		   pNode->GetNodeAttributeValue(XML_GDTF_EmitterColor,	color);		
+    GdtfConverter::ConvertColor(color, pNode, fColor);
+
+    TXString waveLenStr;   pNode->GetNodeAttributeValue(XML_GDTF_EmitterDominantWaveLength,	waveLenStr);		
+    GdtfConverter::ConvertDouble(waveLenStr, pNode, fDominantWaveLength);
+
+    pNode->GetNodeAttributeValue(XML_GDTF_EmitterDiodePart, fDiodePart);
+	
+	// ------------------------------------------------------------------------------------
+	// Read Measurements
+	GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_MeasurementNodeName, [this] (IXMLFileNodePtr objNode) -> void
+								 {
+									 if ( CheckAbort() ) return;
+
+									 // Create the object
+									 GdtfMeasurementPtr mes = new GdtfMeasurement(false);
+									 
+									 // Read from node
+									 mes->ReadFromNode(objNode);
+									 
+									 // Add to list
+									 fMeasurements.push_back(mes);
+
+									 return;
+								 });
+}
+
+void GdtfPhysicalEmitter::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_EmitterName);
+	needed.push_back(XML_GDTF_EmitterColor);
+	    
+		
+	optional.push_back(XML_GDTF_EmitterDominantWaveLength);
+    optional.push_back(XML_GDTF_EmitterDiodePart);
+
+	
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfPhysicalEmitter::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfPhysicalEmitter;
+}
+
+TXString GdtfPhysicalEmitter::GetNodeName()
+{
+	return XML_GDTF_EmitterNodeName;
+}
+
+const TXString& GdtfPhysicalEmitter::GetName() const
+{
+	return fName;
+}
+
+CCieColor GdtfPhysicalEmitter::GetColor() const
+{
+	return fColor;
+}
+
+const TGdtfMeasurementArray GdtfPhysicalEmitter::GetMeasurements()
+{
+	return fMeasurements;
+}
+
+TXString GdtfPhysicalEmitter::GetNodeReference()
+{
+	return GetName();
+}
+
+const TXString& SceneData::GdtfPhysicalEmitter::GetDiodePart()
+{
+    return fDiodePart;
+}
+
+double SceneData::GdtfPhysicalEmitter::GetDominantWaveLength()
+{
+    return fDominantWaveLength;
+}
+
+//------------------------------------------------------------------------------------
+// Macro
+GdtfUserPreset::GdtfUserPreset()
+{
+}
+
+GdtfUserPreset::~GdtfUserPreset()
+{
+}
+
+void GdtfUserPreset::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnPrintToFile(pNode);
+}
+
+void GdtfUserPreset::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnReadFromNode(pNode);
+}
+
+EGdtfObjectType GdtfUserPreset::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfUserPreset;
+}
+
+TXString GdtfUserPreset::GetNodeName()
+{
+	return XML_GDTF_UserPresetNodeName;
+}
+
+//------------------------------------------------------------------------------------
+// Macro
+GdtfMacro::GdtfMacro()
+{
+	fChannelFunction = nullptr;
+	fMacroDMX = nullptr;
+	fMacroVisual = nullptr;
+}
+
+GdtfMacro::GdtfMacro(const TXString& name)
+{
+    fName = name;
+	fChannelFunction = nullptr;
+    fMacroDMX = nullptr;
+    fMacroVisual = nullptr;
+}
+
+GdtfMacro::~GdtfMacro()
+{    
+    if (fMacroDMX)    { delete fMacroDMX; }
+    if (fMacroVisual) { delete fMacroVisual; }    
+}
+
+void GdtfMacro::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+    //------------------------------------------------------------------------------------
+    // Call the parent
+    GdtfObject::OnPrintToFile(pNode);
+    
+	// ------------------------------------------------------------------------------------
+	// Print node attributes
+	pNode->SetNodeAttributeValue(XML_GDTF_MacroName, fName);
+
+	if(fChannelFunction) { pNode->SetNodeAttributeValue(XML_GDTF_MacroChannelFunction, fChannelFunction->GetNodeReference()); }
+
+	//------------------------------------------------------------------------------------
+    // Print the children
+    if (fMacroDMX != nullptr) 
+    {
+        fMacroDMX->WriteToNode(pNode);
+    }    
+    if (fMacroVisual != nullptr)
+    {
+        fMacroVisual->WriteToNode(pNode);
+    }
+}
+
+void GdtfMacro::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnReadFromNode(pNode);
+    //------------------------------------------------------------------------------------
+    // Get the attributes	
+    pNode->GetNodeAttributeValue(XML_GDTF_MacroName, fName);
+    pNode->GetNodeAttributeValue(XML_GDTF_MacroChannelFunction, fUnresolvedChannelFunction);
+
+    //------------------------------------------------------------------------------------
+    // Read the children
+	IXMLFileNodePtr macroDmxNode;
+    if(VCOM_SUCCEEDED(pNode->GetChildNode(XML_GDTF_MacroDMX, &macroDmxNode)))
+	{
+		if (fMacroDMX) { delete fMacroDMX; }
+		this->fMacroDMX = new GdtfMacroDMX();
+		this->fMacroDMX->ReadFromNode(macroDmxNode);
+	}
+	
+	IXMLFileNodePtr macroVisualNode;
+    if(VCOM_SUCCEEDED(pNode->GetChildNode(XML_GDTF_MacroVisual, &macroVisualNode)))
+	{
+		if (fMacroVisual) { delete fMacroVisual; }
+		this->fMacroVisual = new GdtfMacroVisual();
+		this->fMacroVisual->ReadFromNode(macroVisualNode);
+	}
+}
+
+void GdtfMacro::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_MacroName);
+	optional.push_back(XML_GDTF_MacroChannelFunction);
+	
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+const TXString & SceneData::GdtfMacro::GetName() const
+{
+    return fName;
+}
+
+GdtfMacroDMX* SceneData::GdtfMacro::GetMacroDMX() const
+{
+    return fMacroDMX;
+}
+
+GdtfDmxChannelFunction* SceneData::GdtfMacro::GetChannelFunction() const
+{
+    return fChannelFunction;
+}
+
+const TXString & SceneData::GdtfMacro::GetUnresolvedChannelFunction() const
+{
+    return fUnresolvedChannelFunction;
+}
+
+GdtfMacroVisual* SceneData::GdtfMacro::GetMacroVisual() const
+{
+    return fMacroVisual;
+}
+
+void SceneData::GdtfMacro::SetName(const TXString & name)
+{
+    fName = name;
+}
+
+void SceneData::GdtfMacro::SetChannelFunction(GdtfDmxChannelFunction* channelFunction)
+{
+    fChannelFunction = channelFunction;
+}
+
+void SceneData::GdtfMacro::SetMacroDMX(GdtfMacroDMX* val)
+{
+	if(fMacroDMX) {delete fMacroDMX; }
+    fMacroDMX = val;
+}
+
+void SceneData::GdtfMacro::SetMacroVisual(GdtfMacroVisual* val)
+{
+	if(fMacroVisual) {delete fMacroVisual; }
+    fMacroVisual = val;
+}
+
+EGdtfObjectType GdtfMacro::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfMacro;
+}
+
+TXString GdtfMacro::GetNodeName()
+{
+	return XML_GDTF_MacroNodeName;
+}
+
+//------------------------------------------------------------------------------------
+// GdtfMeasurementPoint
+GdtfMeasurementPoint::GdtfMeasurementPoint()
+{
+	fWaveLength		= 0;
+	fEngergy		= 0;
+}
+
+GdtfMeasurementPoint::~GdtfMeasurementPoint()
+{
+}
+
+void GdtfMeasurementPoint::SetWavelength(double wavelength)
+{
+	fWaveLength = wavelength;
+}
+
+void GdtfMeasurementPoint::SetEnergy(double energy)
+{
+	fEngergy = energy;
+}
+
+void GdtfMeasurementPoint::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnPrintToFile(pNode);
+	
+	// ------------------------------------------------------------------------------------
+	// Print node attributes
+	pNode->SetNodeAttributeValue(XML_GDTF_MeasurementWaveLegth,	GdtfConverter::ConvertDouble(fWaveLength));
+	pNode->SetNodeAttributeValue(XML_GDTF_MeasurementEnergy,	GdtfConverter::ConvertDouble(fEngergy));
+}
+
+void GdtfMeasurementPoint::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnReadFromNode(pNode);
+	
+	// ------------------------------------------------------------------------------------
+	// Print node attributes
+	TXString waveLength;	pNode->GetNodeAttributeValue(XML_GDTF_MeasurementWaveLegth,	waveLength);	GdtfConverter::ConvertDouble(waveLength, pNode, fWaveLength);
+	TXString energy;		pNode->GetNodeAttributeValue(XML_GDTF_MeasurementEnergy,	energy);		GdtfConverter::ConvertDouble(energy, pNode, fEngergy);
+}
+
+void GdtfMeasurementPoint::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_MeasurementWaveLegth);
+	needed.push_back(XML_GDTF_MeasurementEnergy);
+
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfMeasurementPoint::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfMeasurementPoint;
+}
+
+TXString GdtfMeasurementPoint::GetNodeName()
+{
+	return XML_GDTF_MeasurementPointNode;
+}
+
+double GdtfMeasurementPoint::GetWavelength()
+{
+	return fWaveLength;
+}
+
+double GdtfMeasurementPoint::GetEnergy()
+{
+	return fEngergy;
+}
+
+//------------------------------------------------------------------------------------
+// GdtfFixture
+TGdtfParsingErrorArray* GdtfFixture::__ERROR_CONTAINER_POINTER = nullptr;
+
+void GdtfFixture::ImportFromFile(IFileIdentifierPtr inZipFile, const TXString& folder)
+{
+	PrepareWorkingFolder(folder);
+	
+	IZIPFilePtr zipfile ( IID_ZIPFile );
+	zipfile->OpenRead(inZipFile);
+
+	ImportFromZip(zipfile);
+}
+
+void GdtfFixture::ImportFromBuffer(const char*buffer, size_t length, const TXString& folder)
+{
+	PrepareWorkingFolder(folder);
+	
+	IZIPFilePtr zipfile ( IID_ZIPFile );
+	zipfile->OpenRead(buffer, length);
+
+	ImportFromZip(zipfile);
+}
+
+void GdtfFixture::PrepareWorkingFolder(TXString folderName)
+{
+	//-------------------------------------------------------------------------------------------------
+	// Working Directory
+	if(folderName.IsEmpty()){ folderName = "GdtfGroup"; }
+
+	fWorkingFolder = (IID_FolderIdentifier);
+
+	IFolderIdentifierPtr folder ( IID_FolderIdentifier );
+	folder->Set( EFolderSpecifier::kSpotlightFolder, true, "GDTFs" );
+	folder->CreateOnDisk();
+
+	fWorkingFolder->Set(folder, folderName );
+
+	
+	//---------------------------------------------------------------------------------------------
+	// Always start with a empty folder
+	bool exists = false;
+	fWorkingFolder->ExistsOnDisk(exists);
+	if (exists) { fWorkingFolder->DeleteOnDisk(); }
+	
+	// Create new Folder
+	fWorkingFolder->CreateOnDisk();
+	
+	//---------------------------------------------------------------------------------------------
+	// check if this was good
+	fWorkingFolder->ExistsOnDisk(exists);
+	ASSERTN(kEveryone, exists == true);
+}
+
+bool GdtfFixture::ImportFromZip(IZIPFilePtr& zipfile)
+{
+	ASSERTN(kEveryone, __ERROR_CONTAINER_POINTER == nullptr);
+	__ERROR_CONTAINER_POINTER = & this->fErrorContainer; 
+
+	ISceneDataZipBuffer xmlFileBuffer;
+		
+	//-------------------------------------------------------------------------------------------------
+	// Decompress the files
+	std::string fileName				= "";
+	std::string inPath					= "";
+	while (VCOM_SUCCEEDED( zipfile->GetNextFile(inPath, fileName)))
+	{
+		// This is the current file that we are reading
+		ISceneDataZipBuffer buffer;
+		if(VCOM_SUCCEEDED(zipfile->GetFile(fileName, &buffer)))
+		{
+			if (fileName == "description.xml")
+			{
+				// Read the data
+				size_t	size = 0;							buffer.GetDataSize(size);
+				void*	data = malloc(size * sizeof(char));	buffer.CopyDataInto(data, size);
+				
+				// Set the buffer object
+				xmlFileBuffer.SetData(data, size);
+				
+				// House keeping
+				std::free(data);
+			}
+			else
+			{
+				//-----------------------------------------------------------------------------
+				// Prepare pointer to the new files            
+				
+				// Separate filename und folder
+				TXString fileNameWithoutFolder = TXString(fileName).Replace("/", TXString(kSeperator) );	
+	#ifndef _WINDOWS
+				fileNameWithoutFolder          = TXString(fileName).Replace("\\", TXString(kSeperator) ); // It seems some zips come also with this.
+	#endif
+				TXString subFolder 			   = SystemUtil::ExtractFolderFromPath(fileNameWithoutFolder);        
+				
+				// flatten the folder structure
+				subFolder = subFolder.Replace(TXString(kSeperator), "");
+				subFolder = TXString(kSeperator) + subFolder;
+
+				// write the data into the filebuffer map.
+				size_t	size = 0;							buffer.GetDataSize(size);
+				void*	data = malloc(size * sizeof(char));	buffer.CopyDataInto(data, size); //data is deleted in the GdtfFixture destructor.
+				std::pair<char*, size_t> bufferPair = std::make_pair((char*)data, size);
+				fFileBuffers[fileNameWithoutFolder] = bufferPair;
+
+				//-----------------------------------------------------------------------------
+				IFolderIdentifierPtr targetFolder (IID_FolderIdentifier);
+				targetFolder->Set(fWorkingFolder, subFolder);
+				
+				bool exists = false;
+				targetFolder->ExistsOnDisk(exists);
+				if( ! exists )	{ targetFolder->CreateOnDisk(); }
+				
+				
+				IFileIdentifierPtr file (IID_FileIdentifier);
+				file->Set(targetFolder, fileNameWithoutFolder);
+				
+				// dump buffer into file
+				buffer.WriteToFile(file);
+				
+				// Add it into the file list
+				fLocalFiles.push_back(file);
+
+				TXString fullPathRessource;
+				file->GetFileFullPath(fullPathRessource);
+				fLocalFilesFullPath.push_back(fullPathRessource);
+
+
+			}
+		}
+		
+		inPath = fileName;
+	}
+	
+	zipfile->Close();
+	
+	//-------------------------------------------------------------------------------------------------
+	// Decompress the files
+	fReaded = xmlFileBuffer.IsSet();
+	if ( ! fReaded)
+	{
+		GdtfParsingError error (GdtfDefines::EGdtfParsingError::eFixtureNoGdtfFileInXmlBuffer);
+		SceneData::GdtfFixture::AddError(error);
+		fReaded = false;
+	}
+	else
+	{
+		IXMLFilePtr xmlFile (IID_XMLFile);
+
+		size_t	size = 0;								xmlFileBuffer.GetDataSize(size);
+		void*	data = malloc(size * sizeof(char));		xmlFileBuffer.CopyDataInto(data, size);
+		
+		// Set the data
+		IXMLFileIOBufferImpl xmlBuffer;
+		xmlBuffer.SetData(data, size);
+		
+		// Housekeeping
+		std::free(data);
+		
+		if (VCOM_SUCCEEDED(xmlFile->ReadBuffer( &xmlBuffer, EXMLEncoding::eXMLEncoding_UTF8)))
+		{
+			IXMLFileNodePtr rootNode;
+			if (VCOM_SUCCEEDED(xmlFile->GetRootNode( & rootNode)))
+			{
+				TXString version;
+				rootNode->GetNodeAttributeValue( XML_GDTF_ROOTNODEATTRVERSION, version );
+				
+				int majorVersion = 0;
+				int minorVersion = 0;
+				size_t dotPos = version.Find(".");
+				if (dotPos != std::string::npos) {
+					TXString majorStr = version.Mid(0, dotPos);
+					TXString minorStr = version.Mid(dotPos + 1);
+					try {
+						majorVersion = std::stoi(majorStr.GetStdWString());
+						minorVersion = std::stoi(minorStr.GetStdWString());
+					} catch (...) {
+						majorVersion = 0;
+						minorVersion = 0;
+					}
+				}
+
+				this->SetMajorVersion( majorVersion );
+				this->SetMinorVersion( minorVersion );
+
+				IXMLFileNodePtr fixtureNode;
+				if (VCOM_SUCCEEDED(rootNode->GetChildNode(XML_GDTF_FixtureNodeName, &fixtureNode)))
+				{
+					//---------------------------------------------------------------------------------------------
+					// Read Stuff
+					this->GetFileNodesCount( fixtureNode );
+					this->ReadFromNode(fixtureNode);
+					this->ResolveAllReferences();		
+				}
+			}
+		}
+	}
+
+	__ERROR_CONTAINER_POINTER = nullptr;
+
+	return true;
+}
+
+void GdtfFixture::GetFileNodesCount(const IXMLFileNodePtr& rootNode)
+{
+	IXMLFileNodePtr node;
+	rootNode->GetFirstChildNode( &node );
+
+	while ( node != nullptr )
+	{
+		fTotalNodesCount++;
+		if ( VCOM_FAILED(( node->GetNextSiblingNode( &node ))))
+		{
+			node = nullptr;
+		}
+	}
+
+	fTotalNodesCount--;
+}
+
+/*static*/ void	GdtfFixture::AddError(const GdtfParsingError& error)
+{
+	
+	if(__ERROR_CONTAINER_POINTER)
+	{
+		__ERROR_CONTAINER_POINTER->push_back(error);
+	}
+}
+
+TGdtfParsingErrorArray& GdtfFixture::GetParsingErrorArray()
+{
+	return fErrorContainer;
+}
+
+void GdtfFixture::AutoGenerateNames(GdtfDmxModePtr dmxMode)
+{
+		for (GdtfDmxChannelPtr dmxChannel : dmxMode->GetChannelArray())
+		{
+			if ( CheckAbort() ) return;
+			//------------------------------------------------------------------------------------------------
+			//  Create Names for DMX Channel
+			ASSERTN(kEveryone, dmxChannel->GetGeomRef() != nullptr);
+			if (dmxChannel->GetGeomRef() == nullptr){ /* Error comes later*/ continue; }
+			
+			GdtfAttributePtr 	firstAttr = nullptr;
+			
+			for (GdtfDmxLogicalChannelPtr logicalChannel : dmxChannel->GetLogicalChannelArray())
+			{
+				if(CheckAbort()) { return; }
+				//------------------------------------------------------------------------------------------------
+				//  Create Names for Logical Channels
+				if ( logicalChannel->GetAttribute() != nullptr )
+				{
+					logicalChannel->SetName(logicalChannel->GetAttribute()->GetName());
+				}
+				else
+				{
+					IXMLFileNodePtr node;
+					logicalChannel->GetNode(node);
+					GdtfParsingError error (GdtfDefines::EGdtfParsingError::eFixtureLogicalChannelMissingAttribute, node);
+					SceneData::GdtfFixture::AddError(error);
+					ASSERTN(kEveryone, logicalChannel->GetAttribute() != nullptr);
+					continue;
+				}
+				
+				// Set first Attribute
+				if (firstAttr == nullptr) { firstAttr = logicalChannel->GetAttribute(); }
+				
+				//------------------------------------------------------------------------------------------------
+				//  Create Names for Channel Functions
+				Sint64 channelFunctionNumber = 1;
+				for (GdtfDmxChannelFunctionPtr function : logicalChannel->GetDmxChannelFunctions())
+				{
+					if(CheckAbort()) { return; }
+					//
+					if (function->GetName().IsEmpty())
+					{
+						ASSERTN(kEveryone, function->GetAttribute() != nullptr);
+						if (function->GetAttribute() == nullptr)
+						{
+							IXMLFileNodePtr node;
+							function->GetNode(node);
+							GdtfParsingError error (GdtfDefines::EGdtfParsingError::eFixtureChannelFunctionMissingAttribute, node);
+							SceneData::GdtfFixture::AddError(error);
+							continue;
+						}
+						TXString functionName; 
+						functionName += function->GetAttribute()->GetName();
+						functionName += " ";
+						functionName += TXString().itoa(channelFunctionNumber);
+						
+						function->SetName(functionName);
+					}
+					
+					channelFunctionNumber++;
+				}
+			}
+			
+			//------------------------------------------------------------------------------------------------
+			//  Set the DMX Name
+			ASSERTN(kEveryone, firstAttr != nullptr);
+			ASSERTN(kEveryone, dmxChannel->GetGeomRef() != nullptr);
+			if(firstAttr) { dmxChannel->SetName(dmxChannel->GetGeomRef()->GetName() + "_" + firstAttr->GetName()); }
+			
+		}
+}
+
+GdtfAttributePtr GdtfFixture::getAttributeByRef(const TXString& ref)
+{	
+	if(ref == XML_GDTF_AttributeNoFeature_nullptr)							   
+	{
+		if(fNoFeature == nullptr)
+		{
+			CreateNoFeatureAttribute();
+		} 
+		return fNoFeature; 
+	}
+
+	if (fUseIndexes)
+	{
+		auto it = fAttributeIndex.find(ref);
+		if (it != fAttributeIndex.end()) { return it->second; }
+	}
+	else
+	{
+		for (GdtfAttributePtr attr : fAttributes)
+		{
+			if (attr->GetNodeReference() == ref) { return attr; }
+		}
+	}
+
+	if(ref.IsEmpty())
+	{
+		if(fNoFeature == nullptr)
+		{
+			CreateNoFeatureAttribute();
+		} 
+		return fNoFeature; 
+	}
+
+	// When this line is reached nothing was found.
+	DSTOP ((kEveryone, "Failed to resolve GdtfAttributePtr."));
+	return fNoFeature;
+}
+
+void GdtfFixture::CreateNoFeatureAttribute()
+{
+	//------------------------------------------------------------
+	// Create Attribute
+	ASSERTN(kEveryone, fNoFeature == nullptr);
+	fNoFeature = new GdtfAttribute("NoFeature", "NoFeature");
+	fAttributes.push_back(fNoFeature);
+
+	//------------------------------------------------------------
+	// Create Feature Group
+	GdtfFeatureGroupPtr controlFeatureGroup = nullptr;
+	for (GdtfFeatureGroupPtr featGrp : fFeatureGroups)
+	{	
+		if(featGrp->GetName() == "Control")
+		{
+			controlFeatureGroup = featGrp;
+			break;
+		}
+	}
+
+	if(controlFeatureGroup == nullptr)
+	{
+		controlFeatureGroup = new GdtfFeatureGroup("Control", "Control");
+		fFeatureGroups.push_back(controlFeatureGroup);
+	}
+	ASSERTN(kEveryone, controlFeatureGroup != nullptr)
+
+	//------------------------------------------------------------
+	// Create Feature
+	GdtfFeaturePtr linkedFeature = nullptr;
+	for (GdtfFeaturePtr feature : controlFeatureGroup->GetFeatureArray())
+	{	
+		if(feature->GetName() == "Control")
+		{
+			linkedFeature = feature;
+			break;
+		}
+	}
+
+	if(linkedFeature == nullptr)
+	{
+		linkedFeature = controlFeatureGroup->AddFeature("Control");
+	}
+
+	fNoFeature->SetFeature(linkedFeature);
+
+}
+
+GdtfWheelPtr GdtfFixture::getWheelByRef(const TXString& ref)
+{
+	if (fUseIndexes)
+	{
+		auto it = fWheelIndex.find(ref);
+		if (it != fWheelIndex.end()) { return it->second; }
+	}
+	else
+	{
+		for (GdtfWheelPtr whl : fWheels)
+		{
+			if (whl->GetNodeReference() == ref) { return whl; }
+		}
+	}
+	
+	// When this line is reached nothing was found.
+	DSTOP ((kEveryone, "Failed to resolve GdtfWheelPtr."));
+	return nullptr;
+}
+
+GdtfPhysicalEmitterPtr GdtfFixture::getEmiterByRef(const TXString& ref)
+{
+	if (fUseIndexes)
+	{
+		auto it = fEmitterIndex.find(ref);
+		if (it != fEmitterIndex.end()) { return it->second; }
+	}
+	else
+	{
+		for (GdtfPhysicalEmitterPtr emt : fPhysicalDesciptions.GetPhysicalEmitterArray())
+		{
+			if (emt->GetNodeReference() == ref) { return emt; }
+		}
+	}
+
+	// When this line is reached nothing was found.
+	DSTOP ((kEveryone, "Failed to resolve GdtfPhysicalEmitterPtr."));
+	return nullptr;
+}
+
+GdtfFilterPtr GdtfFixture::getFilterByRef(const TXString& ref) 
+{
+	if (fUseIndexes)
+	{
+		auto it = fFilterIndex.find(ref);
+		if (it != fFilterIndex.end()) { return it->second; }
+	}
+	else
+	{
+		for (GdtfFilterPtr fltr : fPhysicalDesciptions.GetFilterArray())
+		{
+			if (fltr->GetNodeReference() == ref) { return fltr; }
+		}
+	}
+
+	// When this line is reached nothing was found.
+	DSTOP ((kEveryone, "Failed to resolve GdtfFilter."));
+	return nullptr;
+}
+
+GdtfConnectorPtr GdtfFixture::getConnectorByRef(const TXString& ref) 
+{
+	if (fUseIndexes)
+	{
+		auto it = fConnectorIndex.find(ref);
+		if (it != fConnectorIndex.end()) { return it->second; }
+	}
+	else
+	{
+		for (GdtfConnectorPtr connector : fPhysicalDesciptions.GetConnectorArray())
+		{
+			if (connector->GetNodeReference() == ref) { return connector; }
+		}
+	}
+
+	// When this line is reached nothing was found.
+	DSTOP ((kEveryone, "Failed to resolve GdtfConnectorPtr."));
+	return nullptr;
+}
+
+GdtfColorSpacePtr GdtfFixture::getColorSpaceByRef(const TXString& ref)
+{
+	if (fUseIndexes)
+	{
+		auto it = fColorSpaceIndex.find(ref);
+		if (it != fColorSpaceIndex.end()) { return it->second; }
+	}
+	else
+	{
+		for (GdtfColorSpacePtr colorSpace : fPhysicalDesciptions.GetAdditionalColorSpaceArray())
+		{
+			if (colorSpace->GetNodeReference() == ref) { return colorSpace; }
+		}
+	}
+
+	// If this line is reached, nothing was found.
+	DSTOP ((kEveryone, "Failed to resolve GdtfColorSpace."));
+	return nullptr;
+}
+
+GdtfGamutPtr GdtfFixture::getGamutByRef(const TXString& ref)
+{
+	if (fUseIndexes)
+	{
+		auto it = fGamutIndex.find(ref);
+		if (it != fGamutIndex.end()) { return it->second; }
+	}
+	else
+	{
+		for (GdtfGamutPtr gamut : fPhysicalDesciptions.GetGamutArray())
+		{
+			if (gamut->GetNodeReference() == ref) { return gamut; }
+		}
+	}
+
+	// If this line is reached, nothing was found.
+	DSTOP ((kEveryone, "Failed to resolve GdtfGamut."));
+	return nullptr;
+}
+
+GdtfDMXProfilePtr GdtfFixture::getDMXProfileByRef(const TXString& ref)
+{
+	if (fUseIndexes)
+	{
+		auto it = fDMXProfileIndex.find(ref);
+		if (it != fDMXProfileIndex.end()) { return it->second; }
+	}
+	else
+	{
+		for (GdtfDMXProfilePtr dmxProfile : fPhysicalDesciptions.GetDmxProfileArray())
+		{
+			if (dmxProfile->GetNodeReference() == ref) { return dmxProfile; }
+		}
+	}
+
+	// If this line is reached, nothing was found.
+	DSTOP ((kEveryone, "Failed to resolve GdtfDMXProfile."));
+	return nullptr;
+}
+
+GdtfSubPhysicalUnitPtr GdtfFixture::getSubPhysicalUnitByRef(const TXString& ref)
+{
+	if (fUseIndexes)
+	{
+		auto it = fSubPhysicalUnitIndex.find(ref);
+		if (it != fSubPhysicalUnitIndex.end()) { return it->second; }
+	}
+	else
+	{
+		for (GdtfAttributePtr attr : fAttributes)
+		{
+			for (GdtfSubPhysicalUnitPtr subPhysicalUnit : attr->GetSubPhysicalUnitArray())
+			{
+				if (subPhysicalUnit->GetNodeReference() == ref) { return subPhysicalUnit; }
+			}
+		}
+	}
+
+	// If this line is reached, nothing was found.
+	DSTOP ((kEveryone, "Failed to resolve GdtfSubPhysicalUnit."));
+	return nullptr;
+}
+
+GdtfDmxChannelFunctionPtr GdtfFixture::getDmxFunctionByRef(const TXString& ref, GdtfDmxModePtr mode)
+{
+	return mode->GetFunctionByIndex(ref);
+}
+
+GdtfDmxChannelPtr GdtfFixture::getDmxChannelByRef(const TXString& ref, GdtfDmxModePtr mode)
+{
+	return mode->GetChannelByIndex(ref);
+}
+
+void GdtfFixture::BuildLookupIndexes()
+{
+	// Eagerly detect the NoFeature attribute (needed regardless of indexing)
+	if (fNoFeature == nullptr)
+	{
+		for (GdtfAttributePtr attr : fAttributes)
+		{
+			if (attr->GetNodeReference() == XML_GDTF_AttributeNoFeature_nullptr)
+			{
+				fNoFeature = attr;
+				break;
+			}
+		}
+	}
+
+	// Count total elements to decide if indexing is worthwhile
+	size_t totalElements = fAttributes.size() + fWheels.size() + fModels.size()
+		+ fPhysicalDesciptions.GetPhysicalEmitterArray().size()
+		+ fPhysicalDesciptions.GetFilterArray().size()
+		+ fPhysicalDesciptions.GetConnectorArray().size()
+		+ fPhysicalDesciptions.GetAdditionalColorSpaceArray().size()
+		+ fPhysicalDesciptions.GetGamutArray().size()
+		+ fPhysicalDesciptions.GetDmxProfileArray().size()
+		+ fGeometries.size();
+
+	static constexpr size_t kIndexThreshold = 128;
+	if (totalElements < kIndexThreshold)
+	{
+		fUseIndexes = false;
+		return;
+	}
+	fUseIndexes = true;
+
+	// Attributes
+	fAttributeIndex.clear();
+	fAttributeIndex.reserve(fAttributes.size());
+	for (GdtfAttributePtr attr : fAttributes)
+	{
+		fAttributeIndex.emplace(attr->GetNodeReference(), attr);
+	}
+
+	// Wheels
+	fWheelIndex.clear();
+	fWheelIndex.reserve(fWheels.size());
+	for (GdtfWheelPtr whl : fWheels)
+	{
+		fWheelIndex.emplace(whl->GetNodeReference(), whl);
+	}
+
+	// Models
+	fModelIndex.clear();
+	fModelIndex.reserve(fModels.size());
+	for (GdtfModelPtr mdl : fModels)
+	{
+		fModelIndex.emplace(mdl->GetNodeReference(), mdl);
+	}
+
+	// Emitters
+	fEmitterIndex.clear();
+	for (GdtfPhysicalEmitterPtr emt : fPhysicalDesciptions.GetPhysicalEmitterArray())
+	{
+		fEmitterIndex.emplace(emt->GetNodeReference(), emt);
+	}
+
+	// Filters
+	fFilterIndex.clear();
+	for (GdtfFilterPtr fltr : fPhysicalDesciptions.GetFilterArray())
+	{
+		fFilterIndex.emplace(fltr->GetNodeReference(), fltr);
+	}
+
+	// Connectors
+	fConnectorIndex.clear();
+	for (GdtfConnectorPtr connector : fPhysicalDesciptions.GetConnectorArray())
+	{
+		fConnectorIndex.emplace(connector->GetNodeReference(), connector);
+	}
+
+	// Color Spaces
+	fColorSpaceIndex.clear();
+	for (GdtfColorSpacePtr cs : fPhysicalDesciptions.GetAdditionalColorSpaceArray())
+	{
+		fColorSpaceIndex.emplace(cs->GetNodeReference(), cs);
+	}
+
+	// Gamuts
+	fGamutIndex.clear();
+	for (GdtfGamutPtr gamut : fPhysicalDesciptions.GetGamutArray())
+	{
+		fGamutIndex.emplace(gamut->GetNodeReference(), gamut);
+	}
+
+	// DMX 
+	fDMXProfileIndex.clear();
+	for (GdtfDMXProfilePtr dp : fPhysicalDesciptions.GetDmxProfileArray())
+	{
+		fDMXProfileIndex.emplace(dp->GetNodeReference(), dp);
+	}
+
+	// Sub Physical Units (nested: attributes -> sub-units)
+	fSubPhysicalUnitIndex.clear();
+	for (GdtfAttributePtr attr : fAttributes)
+	{
+		for (GdtfSubPhysicalUnitPtr spu : attr->GetSubPhysicalUnitArray())
+		{
+			fSubPhysicalUnitIndex.emplace(spu->GetNodeReference(), spu);
+		}
+	}
+
+	// Geometry tree (flattened recursively)
+	fGeometryIndex.clear();
+	IndexGeometryTree(fGeometries);
+}
+
+void GdtfFixture::IndexGeometryTree(const TGdtfGeometryArray& geometries)
+{
+	for (GdtfGeometryPtr geom : geometries)
+	{
+		fGeometryIndex.emplace(geom->GetNodeReference(), geom);
+		IndexGeometryTree(geom->GetInternalGeometries());
+	}
+}
+
+void GdtfFixture::ResolveAllReferences()
+{
+	BuildLookupIndexes();
+	ResolveGeometryRefs();
+	ResolveDmxModeRefs();	
+	ResolveDMXModeMasters();
+    ResolveDMXPersonalityRefs();
+	ResolveAttribRefs();
+	ResolveWheelSlots();
+	CheckForMissingModeMasters();
+}
+
+void GdtfFixture::ResolveGeometryRefs()
+{	
+	// Geometry.Model
+	for (GdtfGeometryPtr geometry : fGeometries)
+	{
+		if(CheckAbort()) { return; }
+		ResolveGeometryRefs_Recursive(geometry);
+	}
+}
+
+void GdtfFixture::ResolveGeometryRefs_Recursive(GdtfGeometryPtr geometry)
+{
+	// ----------------------------------------------------------------------------
+	// Resolve Model Refs
+	TXString		unresolvedModelRef	= geometry->GetUnresolvedModelRef();
+	if( ! unresolvedModelRef.IsEmpty())
+	{
+		GdtfModelPtr	linkedModel			= nullptr;
+		
+		if (fUseIndexes)
+		{
+			auto it = fModelIndex.find(unresolvedModelRef);
+			if (it != fModelIndex.end()) { linkedModel = it->second; }
+		}
+		else
+		{
+			for (GdtfModelPtr modelRef: fModels)
+			{
+				if (modelRef->GetNodeReference() == unresolvedModelRef) { linkedModel = modelRef; break; }
+			}
+		}
+		
+		ASSERTN(kEveryone, linkedModel != nullptr);
+		if (linkedModel)	{ geometry->SetUnresolvedModelRef( linkedModel ); }
+		else
+		{
+			IXMLFileNodePtr node;
+			geometry->GetNode(node);
+			GdtfParsingError error (GdtfDefines::EGdtfParsingError::eGeometryUnresolvedModel, node);
+			SceneData::GdtfFixture::AddError(error);
+		}
+	}
+
+	// ----------------------------------------------------------------------------
+	// Resolve Geo Refs
+	if(geometry->GetObjectType() == eGdtfGeometryReference)
+	{
+		GdtfGeometryReferencePtr geoRef = static_cast<GdtfGeometryReferencePtr>(geometry);
+		ASSERTN(kEveryone, geoRef != nullptr);
+		if(geoRef)
+		{
+			GdtfGeometryPtr geo = this->ResolveGeometryRef(geoRef->GetUnresolvedLinkedGeometry(), fGeometries);
+			ASSERTN(kEveryone, geo != nullptr);
+			if (geo == nullptr)
+			{
+				IXMLFileNodePtr node;
+				geoRef->GetNode(node);
+				GdtfParsingError error (GdtfDefines::EGdtfParsingError::eGeometryReferenceUnresolvedLink, node);
+				SceneData::GdtfFixture::AddError(error);
+			}
+
+			geoRef->SetLinkedGeometry(geo);
+		}
+		else
+		{
+			IXMLFileNodePtr node;
+			geometry->GetNode(node);
+			GdtfParsingError error (GdtfDefines::EGdtfParsingError::eGeometryReferenceUnresolvedLink, node);
+			SceneData::GdtfFixture::AddError(error);
+		}
+	}
+	else if (geometry->GetObjectType() == eGdtfGeometryLamp)
+	{
+		GdtfGeometryLampePtr geoLamp = static_cast<GdtfGeometryLampePtr>(geometry);
+
+		TXString unresolvedEmitterRef = geoLamp->GetUnresolvedEmitterRef();
+		if ( ! unresolvedEmitterRef.IsEmpty())
+		{
+			GdtfPhysicalEmitterPtr emitterPtr = getEmiterByRef(unresolvedEmitterRef);
+			geoLamp->SetEmitterSpectrum(emitterPtr);
+
+		}
+	}
+	else if (geometry->GetObjectType() == eGdtfGeometryLaser)
+	{
+		GdtfGeometryLaserPtr geoLaser = static_cast<GdtfGeometryLaserPtr>(geometry);
+		ASSERTN(kEveryone, geoLaser != nullptr);
+		if(geoLaser)
+		{
+			TXString unresolvedEmitterRef = geoLaser->GetUnresolvedEmitter();
+			if ( ! unresolvedEmitterRef.IsEmpty())
+			{
+				GdtfPhysicalEmitterPtr emitterPtr = getEmiterByRef(unresolvedEmitterRef);
+				geoLaser->SetEmitter(emitterPtr);
+			}
+		}
+	}
+	else if (geometry->GetObjectType() == eGdtfGeometryWiringObject)
+	{
+		GdtfGeometryWiringObjectPtr geoWiringObject = static_cast<GdtfGeometryWiringObjectPtr>(geometry);
+		ASSERTN(kEveryone, geoWiringObject != nullptr);
+		if(geoWiringObject)
+		{
+			for(GdtfPinPatchPtr pinPatch : geoWiringObject->GetPinPatchArray())
+			{
+				TXString unresolvedWiringObject = pinPatch->GetUnresolvedWiringObject();
+				if ( ! unresolvedWiringObject.IsEmpty())
+				{
+					GdtfGeometryPtr wiringObjectGeo = ResolveGeometryRef(unresolvedWiringObject, fGeometries);
+					GdtfGeometryWiringObjectPtr toWiringObject = static_cast<GdtfGeometryWiringObjectPtr>(wiringObjectGeo);
+					pinPatch->SetToWiringObject(toWiringObject);
+				}
+			}
+		}
+	}
+	else if (geometry->GetObjectType() == eGdtfGeometryStructure)
+	{
+		GdtfGeometryStructurePtr geoStructure = static_cast<GdtfGeometryStructurePtr>(geometry);
+		ASSERTN(kEveryone, geoStructure != nullptr);
+		if(geoStructure)
+		{
+			TXString unresolvedLinkedGeometry = geoStructure->GetUnresolvedLinkedGeometry();
+			if ( ! unresolvedLinkedGeometry.IsEmpty())
+			{
+				GdtfGeometryPtr linkedGeometry = ResolveGeometryRef(unresolvedLinkedGeometry, fGeometries);
+				geoStructure->SetLinkedGeometry(linkedGeometry);
+			}
+		}
+	}
+
+	
+	
+	// Now traverse child geometry
+	for (GdtfGeometryPtr internalGeometry : geometry->GetInternalGeometries())
+	{
+		if(CheckAbort()) { return; }
+		ResolveGeometryRefs_Recursive(internalGeometry);
+	}
+}
+
+void GdtfFixture::ResolveWheelSlots()
+{
+	for(GdtfWheelPtr wheel : fWheels)
+	{
+		if(CheckAbort()) { return; }
+		for(GdtfWheelSlotPtr slot :  wheel->GetWheelSlotArray())
+		{
+			if(CheckAbort()) { return; }
+			TXString ref = slot->GetUnresolvedFilter();
+			if( ! ref.IsEmpty())
+			{
+				GdtfFilterPtr filter = getFilterByRef(ref);
+				slot->SetFilter(filter);
+			}
+		}
+	}
+}
+
+void GdtfFixture::ResolveAttribRefs()
+{
+	for (GdtfAttributePtr attr : fAttributes)
+	{
+		if (CheckAbort()) { return; }
+		// ------------------------------------------------------------------------------------------
+		// Attributes.ActivationGroup
+		TXString attrRef = attr->GetUnresolvedActGroup();
+		if( ! attrRef.IsEmpty())
+		{
+			GdtfActivationGroupPtr actGrpPtr = nullptr;
+			for (GdtfActivationGroupPtr actGroup : fActivationGroups)
+			{
+				if (attrRef == actGroup->GetNodeReference() )	{ actGrpPtr = actGroup; break; }
+			}
+			
+			ASSERTN(kEveryone, actGrpPtr != nullptr);
+			if (actGrpPtr)	{ attr->SetActivationGroup (actGrpPtr); }
+			else
+			{
+				IXMLFileNodePtr node;
+				attr->GetNode(node);
+				GdtfParsingError error (GdtfDefines::EGdtfParsingError::eAttributeUnresolvedActivationGroup, node);
+				SceneData::GdtfFixture::AddError(error);
+			}
+		}
+		
+		// ------------------------------------------------------------------------------------------
+		// Attributes.Feature
+		GdtfFeaturePtr featPtr = nullptr;
+		TXString unresolvedFeat = attr->GetUnresolvedFeature();
+		if(unresolvedFeat.IsEmpty()) { continue; }
+
+		for (GdtfFeatureGroupPtr featGrp : fFeatureGroups)
+		{	
+			if(CheckAbort()) { return; }
+			for (GdtfFeaturePtr feat : featGrp->GetFeatureArray() )
+			{				
+				if (unresolvedFeat == feat->GetNodeReference() ) { featPtr = feat; break; }
+			}
+		}
+		ASSERTN(kEveryone, featPtr != nullptr);
+		if (featPtr != nullptr)	{ attr->SetFeature (featPtr); }
+		else
+		{
+			IXMLFileNodePtr node;
+			attr->GetNode(node);
+			GdtfParsingError error (GdtfDefines::EGdtfParsingError::eAttributeUnresolvedFeature, node);
+			SceneData::GdtfFixture::AddError(error);
+		}
+		
+		// ------------------------------------------------------------------------------------------
+		// Main Attribute
+		TXString mainAttributeRef = attr->GetUnresolvedMainAttribute();
+		if ( ! mainAttributeRef.IsEmpty())
+		{
+			GdtfAttributePtr mainAttribute = getAttributeByRef(mainAttributeRef);
+			
+			ASSERTN(kEveryone, mainAttribute != nullptr);
+			if (mainAttribute != nullptr)	{ attr->SetMainAttribute(mainAttribute); }
+			else
+			{
+				IXMLFileNodePtr node;
+				attr->GetNode(node);		
+				GdtfParsingError error (GdtfDefines::EGdtfParsingError::eAttributeUnresolvedMainAttribute, node);
+				SceneData::GdtfFixture::AddError(error);
+			}
+		}
+	}
+}
+
+void GdtfFixture::ResolveMacroRefs(GdtfDmxModePtr dmxMode)
+{
+	for (GdtfMacroPtr macro : dmxMode->GetDmxMacrosArray())
+	{
+		if (CheckAbort()) { return; }
+		TXString unresolvedChannelFunction = macro->GetUnresolvedChannelFunction();
+		if ( ! unresolvedChannelFunction.IsEmpty())
+		{
+			GdtfDmxChannelFunctionPtr channelFunctionPtr = getDmxFunctionByRef(unresolvedChannelFunction, dmxMode);
+			macro->SetChannelFunction(channelFunctionPtr);
+		}
+
+		if(macro->GetMacroDMX())
+		{
+			for (GdtfMacroDMXStepPtr step : macro->GetMacroDMX()->GetStepArray())
+			{
+				if (CheckAbort()) { return; }
+				for(GdtfMacroDMXValuePtr value : step->GetDMXValueArray())
+				{
+					if (CheckAbort()) { return; }
+					IXMLFileNodePtr node;
+					value->GetNode(node);
+
+					{
+						GdtfDmxChannelPtr ch = dmxMode->GetChannelByIndex(value->GetUnresolvedDMXChannel());
+						if (ch) { value->SetDMXChannel(ch); }
+					}
+
+					if(value->GetDMXChannel())
+					{
+						
+						DmxValue dmxVal = 0;						
+						GdtfConverter::ConvertDMXValue(value->GetUnresolvedDMXValue(), node, value->GetDMXChannel()->GetChannelBitResolution(), dmxVal);
+						value->SetValue(dmxVal);
+					}
+					else
+					{
+						GdtfParsingError error (GdtfDefines::EGdtfParsingError::eDmxMacroDmxValueChannelReference, node);
+						SceneData::GdtfFixture::AddError(error);
+					}
+				}
+			}
+		}
+
+		if(macro->GetMacroVisual())
+		{
+			for (GdtfMacroVisualStepPtr step : macro->GetMacroVisual()->GetVisualStepArray())
+			{
+				if (CheckAbort()) { return; }
+				for (GdtfMacroVisualValuePtr value : step->GetVisualValueArray())
+				{
+					if (CheckAbort()) { return; }
+					{
+						GdtfDmxChannelFunctionPtr channelFunction = dmxMode->GetFunctionByIndex(value->GetUnresolvedChannelFunctionRef());
+						if (channelFunction)
+						{
+							value->SetChannelFunction(channelFunction);
+
+							IXMLFileNodePtr node;
+							value->GetNode(node);
+						
+							DmxValue dmxVal = 0;
+							GdtfConverter::ConvertDMXValue(value->GetUnresolvedDMXValue(), node, channelFunction->GetParentDMXChannel()->GetChannelBitResolution(), dmxVal);
+							value->SetDmxValue(dmxVal);
+						}
+					}
+				}
+			}
+		}
+	}
+}
+
+void GdtfFixture::ResolveDmxModeRefs()
+{	
+	for (GdtfDmxModePtr dmxMode : fDmxModes)
+	{
+		if (CheckAbort()) { return; }
+		//---------------------------------------------------------------------------------------
+		// DmxMode.Geometry
+		TXString 		unresolvedgeomRef	= dmxMode->GetUnresolvedGeomRef();
+		GdtfGeometryPtr geomPtr				= nullptr;
+		if( ! unresolvedgeomRef.IsEmpty())
+		{
+			for (GdtfGeometryPtr geo : fGeometries)
+			{
+				if (geo->GetNodeReference() == unresolvedgeomRef) { geomPtr = geo; break; }
+			}
+		}
+
+		// Check if there is a
+		ASSERTN(kEveryone, geomPtr != nullptr);
+		if (geomPtr != nullptr) { dmxMode->SetGeomRef(geomPtr); }
+		else
+		{
+			IXMLFileNodePtr node;
+			dmxMode->GetNode(node);				
+			GdtfParsingError error (GdtfDefines::EGdtfParsingError::eDmxModeUnresolvedGeometry, node);
+			SceneData::GdtfFixture::AddError(error);
+		}
+		
+		// First Link all the stuff for DMX Channels
+		ResolveDmxChannelRefs(dmxMode);
+		dmxMode->BuildModeIndexes();
+		
+		// Afer Geometry is linked to the base geometry, we can generate the names
+        AutoGenerateNames(dmxMode);
+		
+		// Then we have all the information for this
+		ResolveDmxRelationRefs(dmxMode);
+
+		ResolveMacroRefs(dmxMode);
+	}	
+}
+
+void GdtfFixture::ResolveDMXModeMasters()
+{	
+	for (GdtfDmxModePtr mode : fDmxModes)
+	{
+		if (CheckAbort()) { return; }
+
+		for(GdtfDmxChannelPtr channel : mode->GetChannelArray())
+		{
+			if (CheckAbort()) { return; }
+
+			for(GdtfDmxLogicalChannelPtr logicalChannel : channel->GetLogicalChannelArray())
+			{
+				if (CheckAbort()) { return; }
+
+				for(GdtfDmxChannelFunctionPtr function : logicalChannel->GetDmxChannelFunctions())
+				{
+					if (CheckAbort()) { return; }
+					// ----------------------------------------------------------------------------------------
+					// DmxChanelFunction Mode Master Channel (Optional)
+					TXString unresolvedModeMaster = function->getUnresolvedModeMasterRef();
+					if(! unresolvedModeMaster.IsEmpty())
+					{
+						bool 						resolved 	= false;
+						EGdtfChannelBitResolution 	resolution 	= EGdtfChannelBitResolution::eGdtfChannelBitResolution_8;
+
+						GdtfDmxChannelPtr channelPtr = getDmxChannelByRef(unresolvedModeMaster, mode);
+						if(! resolved && channelPtr)
+						{ 
+							function->SetModeMaster_Channel(channelPtr); 
+							resolved = true; 
+							resolution = channelPtr->GetChannelBitResolution(); 
+						}
+
+						if(! resolved)
+						{
+							GdtfDmxChannelFunctionPtr functionPtr = getDmxFunctionByRef(unresolvedModeMaster, mode);
+							if(functionPtr) 
+							{ 
+								function->SetModeMaster_Function(functionPtr);
+								resolved = true; 
+								resolution = functionPtr->GetParentDMXChannel()->GetChannelBitResolution();
+							}
+						}
+						
+						ASSERTN(kEveryone, resolved);
+						if(resolved) { function->ResolveModeMasterDmx(resolution); }
+						else
+						{
+							IXMLFileNodePtr node;
+							channel->GetNode(node);
+							GdtfParsingError error (GdtfDefines::EGdtfParsingError::eDMXModeMastersUnresolved, node);
+							SceneData::GdtfFixture::AddError(error);
+						}
+					}
+				}
+			}
+		}
+	}	
+}
+
+
+GdtfDmxModePtr GdtfFixture::ResolveDMXMode(const TXString& unresolvedDMXmode)
+{
+    for (GdtfDmxModePtr dmxMode : fDmxModes) 
+    {
+        if (dmxMode->GetModeName() == unresolvedDMXmode) 
+        {
+            return dmxMode;
+        }    
+    }
+    
+    return nullptr;
+}
+
+void GdtfFixture::ResolveDMXPersonalityRefs()
+{
+    GdtfFTRDM* rdm =  fProtocollContainer.GetRDM();
+
+    if (rdm)
+    {
+        for (GdtfSoftwareVersionID* softID : rdm->GetSoftwareVersIDs() ) 
+        {
+			if (CheckAbort()) { return; }
+            for (GdtfDMXPersonality* dmxPerso : softID->GetDMXPersonalityArray() ) 
+            {
+				if (CheckAbort()) { return; }
+                GdtfDmxModePtr dmxMode =  ResolveDMXMode(dmxPerso->GetUnresolvedDMXMode()); 
+            
+				ASSERTN(kEveryone, dmxMode != nullptr);
+                if (dmxMode != nullptr) { dmxPerso->SetDMXMode(dmxMode);  }
+				else
+				{
+					IXMLFileNodePtr node;
+					dmxPerso->GetNode(node);
+					GdtfParsingError error (GdtfDefines::EGdtfParsingError::eValueError_UnresolvedRdmPersonalityMode, node);
+					SceneData::GdtfFixture::AddError(error);
+				}
+            }
+        }
+    }
+}
+
+void GdtfFixture::ResolveDmxRelationRefs(GdtfDmxModePtr dmxMode)
+{
+	for (GdtfDmxRelationPtr rel : dmxMode->GetDmxRelations())
+	{	
+		if (CheckAbort()) { return; }
+		// DMXChannel (Master)
+		GdtfDmxChannelPtr			master	= dmxMode->GetMasterByRef(rel->GetUnresolvedMasterRef() );
+		GdtfDmxChannelFunctionPtr	slave	= dmxMode->GetSlaveByRef(rel->GetUnresolvedSlaveRef() );
+		rel->SetMasterChannel(master);
+        rel->SetSlaveChannel(slave);
+
+	}	
+}
+
+void GdtfFixture::ResolveDmxChannelRefs(GdtfDmxModePtr dmxMode)
+{	
+	static constexpr size_t kDuplicateCheckThreshold = 64;
+	std::unordered_set<TXString, TXStringNoCaseHash> seenGeoAttrPairs;
+	std::unordered_set<TXString, TXStringNoCaseHash>* seenPairsPtr = 
+		(dmxMode->GetChannelArray().size() >= kDuplicateCheckThreshold) ? &seenGeoAttrPairs : nullptr;
+	for (GdtfDmxChannelPtr chnl: dmxMode->GetChannelArray() )
+	{
+		if (CheckAbort()) { return; }
+		// ----------------------------------------------------------------------------------------
+		// DmxChannel.Geometry
+		GdtfGeometryPtr geomPtr = nullptr;
+		TXString unresolvedGeoRef	= chnl->GetUnresolvedGeomRef();
+		ASSERTN(kEveryone, ! unresolvedGeoRef.IsEmpty() );
+		if (!unresolvedGeoRef.IsEmpty())
+		{
+			if (fUseIndexes)
+			{
+				auto it = fGeometryIndex.find(unresolvedGeoRef);
+				if (it != fGeometryIndex.end()) { geomPtr = it->second; }
+			}
+			else
+			{
+				for (GdtfGeometryPtr geom : fGeometries)
+				{
+					if (geom->GetNodeReference() == unresolvedGeoRef) { geomPtr = geom; break; }
+					geomPtr = ResolveGeometryRef(unresolvedGeoRef, geom->GetInternalGeometries());
+					if (geomPtr != nullptr) { break; }
+				}
+			}
+			
+			ASSERTN(kEveryone, geomPtr != nullptr);
+			if (geomPtr){ chnl->SetGeomRef (geomPtr); }
+			else
+			{
+				IXMLFileNodePtr node;
+				chnl->GetNode(node);
+				GdtfParsingError error (GdtfDefines::EGdtfParsingError::eFixtureDMXChannelMissingGeometryLink, node);
+				SceneData::GdtfFixture::AddError(error);
+			}
+		}
+		else
+		{
+			IXMLFileNodePtr node;
+			chnl->GetNode(node);
+			GdtfParsingError error (GdtfDefines::EGdtfParsingError::eFixtureDMXChannelMissingGeometryLink, node);
+			SceneData::GdtfFixture::AddError(error);
+		}
+		
+		// ----------------------------------------------------------------------------------------
+		// DmxChannel.LogicalChannelArray
+		ResolveDmxLogicalChanRefs(chnl, seenPairsPtr);
+
+		// ----------------------------------------------------------------------------------------
+		// DmxChannel.InitialFunction
+		GdtfDmxChannelFunctionPtr initialFunctionPtr = nullptr;
+		TXString unresolvedInitialFunction = chnl->GetUnresolvedInitialFunction();
+		if (!unresolvedInitialFunction.IsEmpty())
+		{
+			for (GdtfDmxLogicalChannelPtr logicalChannel : chnl->GetLogicalChannelArray())
+			{
+				if(CheckAbort()) { return; }
+				for (GdtfDmxChannelFunctionPtr channelFunction : logicalChannel->GetDmxChannelFunctions())
+				{
+					if(CheckAbort()) { return; }
+					if (channelFunction->GetNodeReference() == unresolvedInitialFunction) { initialFunctionPtr = channelFunction; break;}
+				}
+				
+				if (initialFunctionPtr != nullptr) { break; }
+			}
+			
+			ASSERTN(kEveryone, initialFunctionPtr != nullptr);
+			if (initialFunctionPtr) { chnl->SetInitialFunction(initialFunctionPtr); }
+			else
+			{
+				IXMLFileNodePtr node;
+				chnl->GetNode(node);
+				GdtfParsingError error (GdtfDefines::EGdtfParsingError::eFixtureDMXChannelUnresolvedChannelFunction, node);
+				SceneData::GdtfFixture::AddError(error);
+			}
+		}
+		else
+		{
+			//If there is no initialfunction defined, we set the first one by default
+			if(chnl->GetLogicalChannelArray().size() > 0 && chnl->GetLogicalChannelArray()[0]->GetDmxChannelFunctions().size() > 0)
+			{
+				chnl->SetInitialFunction(chnl->GetLogicalChannelArray()[0]->GetDmxChannelFunctions()[0]);
+			}
+			else
+			{
+				IXMLFileNodePtr node;
+				chnl->GetNode(node);
+				GdtfParsingError error (GdtfDefines::EGdtfParsingError::eFixtureDMXChannelMissingChannelFunction, node);
+				SceneData::GdtfFixture::AddError(error);
+			}
+			
+		}
+	} 	
+}
+
+GdtfGeometryPtr GdtfFixture::ResolveGeometryRef(const TXString& unresolvedGeoRef, const TGdtfGeometryArray& geometryArray)
+{
+	if (fUseIndexes)
+	{
+		auto it = fGeometryIndex.find(unresolvedGeoRef);
+		if (it != fGeometryIndex.end()) { return it->second; }
+		return nullptr;
+	}
+
+	// Fallback: recursive tree walk
+	GdtfGeometryPtr matched = nullptr;
+	for (GdtfGeometryPtr geom : geometryArray)
+	{
+		if (geom->GetNodeReference() == unresolvedGeoRef) { return geom; }
+		matched = ResolveGeometryRef(unresolvedGeoRef, geom->GetInternalGeometries());
+		if (matched) { return matched; }
+	}
+	return nullptr;
+}
+
+void GdtfFixture::ResolveDmxLogicalChanRefs(GdtfDmxChannelPtr dmxChnl, std::unordered_set<TXString, TXStringNoCaseHash>* seenGeoAttrPairs)
+{		
+	for ( GdtfDmxLogicalChannelPtr logChnl : dmxChnl->GetLogicalChannelArray() )
+	{
+		if(CheckAbort()) { return; }
+		IXMLFileNodePtr node;
+		logChnl->GetNode(node);
+
+		// ----------------------------------------------------------------------------------------
+		// DmxLogicalChannel.Attribute		
+		GdtfAttributePtr attrPtr = getAttributeByRef(logChnl->GetUnresolvedAttribRef());
+				
+		ASSERTN(kEveryone, attrPtr != nullptr);
+		if (attrPtr != nullptr)
+		{
+			//Check for logical channels with the same geometry/attribute combination
+			TXString attributeName = attrPtr->GetName();
+
+			GdtfGeometryPtr geoRef = dmxChnl->GetGeomRef();
+			TXString geometryName;
+			if(geoRef)
+			{
+				// If this doesn't exist, EGdtfParsingError::eFixtureDMXChannelMissingGeometryLink has been raised in the ResolveDmxChannelRefs() function
+				geometryName = geoRef->GetName();
+			}
+
+			// Allow NoFeature and Dummy attributes to be linked multiple times to the same geometry
+			bool isNoFeatureAttribute = (attrPtr == fNoFeature) || (attributeName.EqualNoCase("NoFeature"));
+			bool isDummyAttribute = attributeName.EqualNoCase("Dummy");
+			
+			bool alreadyExists = false;
+			if (!isNoFeatureAttribute && !isDummyAttribute)
+			{
+				if (seenGeoAttrPairs)
+				{
+					TXString pairKey = geometryName + "|" + attributeName;
+					pairKey.MakeLower();
+					alreadyExists = (seenGeoAttrPairs->count(pairKey) > 0);
+					seenGeoAttrPairs->insert(pairKey);
+				}
+				else
+				{
+					GdtfDmxModePtr mode = dmxChnl->GetParentMode();
+					
+					for(GdtfDmxChannelPtr channel : mode->GetChannelArray())
+					{
+						GdtfGeometryPtr currentGeometry = channel->GetGeomRef();
+						if(currentGeometry == nullptr) { break; }
+						TXString currentGeometryName = currentGeometry->GetName();
+						for(GdtfDmxLogicalChannelPtr logicalChannel : channel->GetLogicalChannelArray())
+						{
+							TXString currentAttributeName = "";
+							GdtfAttributePtr currentAttribute = logicalChannel->GetAttribute();
+							if(currentAttribute != nullptr)
+							{
+								currentAttributeName = currentAttribute->GetName();
+							}
+
+							if(geometryName.EqualNoCase(currentGeometryName) && attributeName.EqualNoCase(currentAttributeName))
+							{
+								alreadyExists = true;
+								break;
+							}
+						}
+
+						if(alreadyExists) { break; }
+					}
+				}
+			}
+
+			if(alreadyExists)
+			{
+				GdtfParsingError error (GdtfDefines::EGdtfParsingError::eFixtureLogicalChannelNoUniqueGeometryAttribute, node);
+				SceneData::GdtfFixture::AddError(error);
+			}
+
+			//--------------------------
+			//Set Attribute
+			logChnl->SetAttribute(attrPtr);
+			
+		}
+		else
+		{
+			GdtfParsingError error (GdtfDefines::EGdtfParsingError::eFixtureLogicalChannelMissingAttribute, node);
+			SceneData::GdtfFixture::AddError(error);
+		}
+		
+		
+		// ----------------------------------------------------------------------------------------
+		// DmxChannelFuntionArray
+		ResolveDmxChanelFunctionRefs(logChnl);
+	}
+}
+
+void GdtfFixture::ResolveDmxChanelFunctionRefs(GdtfDmxLogicalChannelPtr dmxLogChnl)
+{
+	for (GdtfDmxChannelFunctionPtr chnlFunc : dmxLogChnl->GetDmxChannelFunctions())
+	{
+		if(CheckAbort()) { return; }
+		// ----------------------------------------------------------------------------------------
+		// DmxChanelFunction.Attribute
+		GdtfAttributePtr attrPtr = getAttributeByRef(chnlFunc->getUnresolvedAttrRef());
+
+		ASSERTN(kEveryone, attrPtr != nullptr);
+		if (attrPtr != nullptr)	{ chnlFunc->SetAttribute(attrPtr); }
+		else
+		{
+			IXMLFileNodePtr node;
+			chnlFunc->GetNode(node);
+			GdtfParsingError error (GdtfDefines::EGdtfParsingError::eChannelFunctionMissingAttribute, node); SceneData::GdtfFixture::AddError(error);
+		}
+		
+		// ----------------------------------------------------------------------------------------
+		// DmxChanelFunction.WheelPtr (Optional)
+		TXString unresolvedWheelRef = chnlFunc->getUnresolvedWheelRef();
+		if( ! unresolvedWheelRef.IsEmpty())
+		{
+			GdtfWheelPtr whlPtr = getWheelByRef(unresolvedWheelRef);
+			chnlFunc->SetWheel(whlPtr);
+		}
+		
+		// ----------------------------------------------------------------------------------------		
+		TXString unresolvedEmitterRef = chnlFunc->getUnresolvedEmitterRef();
+		if ( ! unresolvedEmitterRef.IsEmpty())
+		{
+			GdtfPhysicalEmitterPtr emtPtr = getEmiterByRef(unresolvedEmitterRef);
+			chnlFunc->SetEmitter(emtPtr);
+		}
+
+        // ----------------------------------------------------------------------------------------		
+        // Filter Refs
+        TXString unresolvedFilterRef = chnlFunc->getUnresolvedFilterRef();
+        if (!unresolvedFilterRef.IsEmpty()) 
+        {
+            GdtfFilter* filter = getFilterByRef(unresolvedFilterRef);
+            chnlFunc->SetFilter(filter);
+        }
+        // ----------------------------------------------------------------------------------------
+		// DmxChannelFunction.Default (For GDTF 1.0 files)
+		if(chnlFunc->GetDefaultValue() == 0)
+		{
+			DmxValue oldDefault = dmxLogChnl->GetParentDMXChannel()->GetOldDefaultValue();
+			if(oldDefault > 0)
+			{
+				chnlFunc->SetDefaultValue(oldDefault);
+			}
+		}
+
+		// ----------------------------------------------------------------------------------------		
+        // ColorSpace Refs
+        TXString unresolvedColorSpaceRef = chnlFunc->getUnresolvedColorSpaceRef();
+        if (!unresolvedColorSpaceRef.IsEmpty()) 
+        {
+            GdtfColorSpace* colorSpace = getColorSpaceByRef(unresolvedColorSpaceRef);
+            chnlFunc->SetColorSpace(colorSpace);
+        }
+
+		// ----------------------------------------------------------------------------------------		
+        // Gamut Refs
+        TXString unresolvedGamutRef = chnlFunc->getUnresolvedGamutRef();
+        if (!unresolvedGamutRef.IsEmpty()) 
+        {
+            GdtfGamut* gamut = getGamutByRef(unresolvedGamutRef);
+            chnlFunc->SetGamut(gamut);
+        }
+
+		// ----------------------------------------------------------------------------------------		
+        // DMXProfile Refs
+        TXString unresolvedDMXProfileRef = chnlFunc->getUnresolvedDMXProfileRef();
+        if (!unresolvedDMXProfileRef.IsEmpty()) 
+        {
+            GdtfDMXProfile* dmxProfile = getDMXProfileByRef(unresolvedDMXProfileRef);
+            chnlFunc->SetDMXProfile(dmxProfile);
+        }
+		
+		ResolveDmxSubChannelSetRefs(chnlFunc);
+	}
+}
+
+void GdtfFixture::ResolveDmxSubChannelSetRefs(GdtfDmxChannelFunctionPtr channelFunction)
+{
+	for (GdtfDmxSubChannelSetPtr subChannelSet : channelFunction->GetSubChannelSets())
+	{
+		if(CheckAbort()) { return; }
+		// ----------------------------------------------------------------------------------------		
+        // SubPhysicalUnit Refs
+        TXString unresolvedSubPhysicalUnitRef = subChannelSet->GetUnresolvedSubPhysicalUnitRef();
+        if (!unresolvedSubPhysicalUnitRef.IsEmpty()) 
+        {
+            GdtfSubPhysicalUnit* subPhysicalUnit = getSubPhysicalUnitByRef(unresolvedSubPhysicalUnitRef);
+            subChannelSet->SetSubPhysicalUnit(subPhysicalUnit);
+        }
+
+		// ----------------------------------------------------------------------------------------		
+        // DMXProfile Refs
+        TXString unresolvedDMXProfileRef = subChannelSet->GetUnresolvedDMXProfileRef();
+        if (!unresolvedDMXProfileRef.IsEmpty()) 
+        {
+            GdtfDMXProfile* dmxProfile = getDMXProfileByRef(unresolvedDMXProfileRef);
+            subChannelSet->SetDMXProfile(dmxProfile);
+        }
+	}
+}
+
+void GdtfFixture::CheckForMissingModeMasters()
+{	
+	for (GdtfDmxModePtr mode : fDmxModes)
+	{
+		if (CheckAbort()) { return; }
+		for(GdtfDmxChannelPtr channel : mode->GetChannelArray())
+		{
+			if (CheckAbort()) { return; }
+			for(GdtfDmxLogicalChannelPtr logicalChannel : channel->GetLogicalChannelArray())
+			{
+				if (CheckAbort()) { return; }
+				TGdtfDmxChannelFuntionArray channelFunctions = logicalChannel->GetDmxChannelFunctions();
+
+                if(channelFunctions.size() > 0)
+                {
+                    for(size_t i = 0; i < channelFunctions.size() - 1; i++)
+                    {
+						if(CheckAbort()) { return; }
+                        GdtfDmxChannelFunctionPtr function = channelFunctions[i];
+                        // ----------------------------------------------------------------------------------------
+                        DmxValue functionStart 	= function->GetStartAdress();
+                        DmxValue functionEnd	= function->GetEndAdress();
+
+                        for(size_t j = i+1; j < channelFunctions.size(); j++)
+                        {
+							if(CheckAbort()) { return; }
+                            GdtfDmxChannelFunctionPtr currentFunction = channelFunctions[j];
+
+                            DmxValue currentFunctionStart	= currentFunction->GetStartAdress();
+                            DmxValue currentFunctionEnd		= currentFunction->GetEndAdress();
+                            
+                            if(functionStart <= currentFunctionEnd && currentFunctionStart <= functionEnd)
+                            {
+                                //These two functions have conflicting DMX ranges.
+
+                                GdtfDmxChannel* 		functionMMChannel 	= function->GetModeMaster_Channel();
+                                GdtfDmxChannelFunction* functionMMFunction 	= function->GetModeMaster_Function();
+
+                                //First we check if a mode master is defined
+                                if(!functionMMChannel && !functionMMFunction)
+                                {
+                                    //If not, we throw an error.
+                                    GdtfParsingError error (GdtfDefines::EGdtfParsingError::eFixtureChannelFunctionMissingModeMaster);
+                                    SceneData::GdtfFixture::AddError(error);
+                                }
+                                else
+                                {
+                                    //If there is one, we have to check if they're the same.
+                                    GdtfDmxChannel* 		currentFunctionMMChannel 	= currentFunction->GetModeMaster_Channel();
+                                    GdtfDmxChannelFunction* currentFunctionMMFunction	= currentFunction->GetModeMaster_Function();
+                                    if((functionMMChannel && functionMMChannel == currentFunctionMMChannel) || (functionMMFunction && functionMMFunction == currentFunctionMMFunction))
+                                    {
+                                        //If they're the same we have to check that their ranges don't overlap.
+                                        DmxValue functionMMStart 		= function->GetModeMasterDmxStart();
+                                        DmxValue functionMMEnd			= function->GetModeMasterDmxEnd();
+
+                                        DmxValue currentFunctionMMStart	= currentFunction->GetModeMasterDmxStart();
+                                        DmxValue currentFunctionMMEnd	= currentFunction->GetModeMasterDmxEnd();
+                                        
+                                        if(functionMMStart <= currentFunctionMMEnd && currentFunctionMMStart <= functionMMEnd)
+                                        {
+                                            //If they do, we throw an error.
+                                            GdtfParsingError error (GdtfDefines::EGdtfParsingError::eFixtureChannelFunctionModeMasterOverlap);
+                                            SceneData::GdtfFixture::AddError(error);
+                                        }
+                                    }
+                                }
+                                break;
+                            }
+                        }
+                    }
+                }
+			}
+		}
+	}	
+}
+
+GdtfFixture::GdtfFixture()
+{
+	fThumbnailOffsetX 		= 0;
+	fThumbnailOffsetY 		= 0;
+	fReaded					= false;
+	fHasLinkedGuid			= false;     
+	fNoFeature				= nullptr;   
+	fCanHaveChildren 		= false;
+	fHasLinkedGuid 			= false;
+}
+
+GdtfFixture::~GdtfFixture()
+{   
+
+    for (GdtfActivationGroupPtr obj		: fActivationGroups){ delete obj; }
+    for (GdtfFeatureGroupPtr obj		: fFeatureGroups)   { delete obj; }
+    for (GdtfAttributePtr obj			: fAttributes)      { delete obj; }
+	for (GdtfWheelPtr obj				: fWheels)			{ delete obj; }
+	for (GdtfGeometry* obj				: fGeometries)		{ delete obj; }
+	for (GdtfModel* obj					: fModels)			{ delete obj; }	
+	for (GdtfDmxModePtr obj				: fDmxModes)		{ delete obj; }
+	for (GdtfRevisionPtr obj			: fRevisions)		{ delete obj; }
+
+    // Delete Local Files
+	for (size_t i = 0; i < fLocalFiles.size(); i++)
+	{
+		IFileIdentifierPtr file = fLocalFiles[i];
+		file->DeleteOnDisk();
+	}
+
+	//Delete buffers
+	for (auto it = fFileBuffers.begin(); it != fFileBuffers.end(); it++)
+	{
+		free(it->second.first);
+	}
+}
+
+size_t GdtfFixture::GetAttachedFileCount()
+{
+    return fLocalFilesFullPath.size();
+}
+
+bool GdtfFixture::GetAttachedFileCountAt(size_t at, TXString*& outFile)
+{
+	bool retVal = (at < fLocalFilesFullPath.size());
+	if(retVal)	{ outFile = &fLocalFilesFullPath.at(at); }
+
+    return retVal;
+}
+
+bool  GdtfFixture::IsReaded()
+{
+	return fReaded;
+}
+
+void  GdtfFixture::GetWorkingFolder(IFolderIdentifierPtr& folder)
+{
+	folder = fWorkingFolder;
+}
+
+void GdtfFixture::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnPrintToFile(pNode);
+	
+	// ------------------------------------------------------------------------------------
+	// Print node attributes
+	pNode->SetNodeAttributeValue(XML_GDTF_FixtureName,				fName);
+	pNode->SetNodeAttributeValue(XML_GDTF_FixtureShortName,			fShortName);
+	pNode->SetNodeAttributeValue(XML_GDTF_FixtureLongName,			fLongName);
+	pNode->SetNodeAttributeValue(XML_GDTF_FixtureManufacturer,		fManufacturer);
+	pNode->SetNodeAttributeValue(XML_GDTF_FixtureDescription,		fFixtureTypeDescription);
+	pNode->SetNodeAttributeValue(XML_GDTF_FixtureTypeID,			GdtfConverter::ConvertUUID(fGuid));
+	pNode->SetNodeAttributeValue(XML_GDTF_FixtureThumbnail,			fTumbnailName);
+	pNode->SetNodeAttributeValue(XML_GDTF_FixtureThumbnailOffsetX,	GdtfConverter::ConvertInteger(fThumbnailOffsetX));
+	pNode->SetNodeAttributeValue(XML_GDTF_FixtureThumbnailOffsetY,	GdtfConverter::ConvertInteger(fThumbnailOffsetY));
+	pNode->SetNodeAttributeValue(XML_GDTF_FixtureCanHaveChildren,	GdtfConverter::ConvertEGdtfCanHaveChildren(fCanHaveChildren));
+	
+	if(fHasLinkedGuid)
+	{
+		pNode->SetNodeAttributeValue(XML_GDTF_LinkedUuid,			GdtfConverter::ConvertUUID(fLinkedGuid));
+	}
+	else
+	{
+		pNode->SetNodeAttributeValue(XML_GDTF_LinkedUuid,			"");
+	}
+	
+	// ------------------------------------------------------------------------------------
+	// Activation Groups
+	IXMLFileNodePtr attributeDefintion;
+	if (VCOM_SUCCEEDED(pNode->CreateChildNode(XML_GDTF_FixtureChildNodeAttributeDef, & attributeDefintion)))
+	{
+		// Add ActivationsGroupDef
+		IXMLFileNodePtr activationGroupContainer;
+		if (VCOM_SUCCEEDED(attributeDefintion->CreateChildNode(XML_GDTF_FixtureChildNodeActivationGroupDef, & activationGroupContainer)))
+		{
+			for (auto  actGroup: fActivationGroups)
+			{
+				actGroup->WriteToNode(activationGroupContainer);
+			}
+		}
+		
+		// Add Feature GroupDef
+		IXMLFileNodePtr featureGroupContainer;
+		if (VCOM_SUCCEEDED(attributeDefintion->CreateChildNode(XML_GDTF_FixtureChildNodeFeatureGroupDef, & featureGroupContainer)))
+		{
+			for (auto  featureGroup: fFeatureGroups)
+			{
+				featureGroup->WriteToNode(featureGroupContainer);
+			}
+		}
+		
+		
+		// Add Attributes
+		// Add Feature GroupDef
+		IXMLFileNodePtr attributesContainer;
+		if (VCOM_SUCCEEDED(attributeDefintion->CreateChildNode(XML_GDTF_FixtureChildNodeAttributesDef, & attributesContainer)))
+		{
+			for (auto  featureGroup: fAttributes)
+			{
+				featureGroup->WriteToNode(attributesContainer);
+			}
+		}
+	}
+	
+	// ------------------------------------------------------------------------------------
+	// Print wheels
+	IXMLFileNodePtr wheels;
+	if (VCOM_SUCCEEDED(pNode->CreateChildNode(XML_GDTF_FixtureChildNodeWheels, & wheels)))
+	{
+		for (GdtfWheelPtr wheelObj : fWheels)
+		{
+			wheelObj->WriteToNode(wheels);
+		}
+	}
+	
+	// ------------------------------------------------------------------------------------
+	// Print PhysicalDescriptions    
+    fPhysicalDesciptions.WriteToNode(pNode);
+    	
+	// ------------------------------------------------------------------------------------
+	// Print models
+	IXMLFileNodePtr models;
+	if (VCOM_SUCCEEDED(pNode->CreateChildNode(XML_GDTF_FixtureChildNodeModels, & models)))
+	{
+		for (GdtfModel* modelObj : fModels)
+		{
+			modelObj->WriteToNode(models);
+		}
+	}
+	
+	// ------------------------------------------------------------------------------------
+	// Print geometries
+	IXMLFileNodePtr geometries;
+	if (VCOM_SUCCEEDED(pNode->CreateChildNode(XML_GDTF_FixtureChildNodeGeomertries, & geometries)))
+	{
+		for (GdtfGeometry* geometryObj : fGeometries)
+		{
+			geometryObj->WriteToNode(geometries);
+		}
+	}
+	
+	// ------------------------------------------------------------------------------------
+	// Print dmxModes
+	IXMLFileNodePtr dmxModes;
+	if (VCOM_SUCCEEDED(pNode->CreateChildNode(XML_GDTF_FixtureChildNodeDMX, & dmxModes)))
+	{
+		for (GdtfDmxMode* dmxObj : fDmxModes)
+		{
+			dmxObj->WriteToNode(dmxModes);
+		}
+	}
+	
+	// ------------------------------------------------------------------------------------
+	// Print Revisions
+	IXMLFileNodePtr revisions;
+	if (VCOM_SUCCEEDED(pNode->CreateChildNode(XML_GDTF_FixtureChildNodeRevisions, & revisions)))
+	{
+		for (GdtfRevision* revisionObj : fRevisions)
+		{
+			revisionObj->WriteToNode(revisions);
+		}
+	}
+	
+	// ------------------------------------------------------------------------------------
+	// Print presets
+	IXMLFileNodePtr presets;
+	if (VCOM_SUCCEEDED(pNode->CreateChildNode(XML_GDTF_FixtureChildNodePresets, & presets)))
+	{
+		for (GdtfUserPreset* presetObj : fPresets)
+		{
+			presetObj->WriteToNode(presets);
+		}
+	}
+	
+	// ------------------------------------------------------------------------------------
+	// Print Prorocols
+    fProtocollContainer.WriteToNode(pNode);
+}
+
+void GdtfFixture::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	if ( CheckAbort() ) return;
+	FixtureFeedback feedback;
+	feedback.fTotalNumberOfNodes = fTotalNodesCount;
+
+	pNode->GetNodeAttributeValue(XML_GDTF_FixtureName,						fName);
+    fName.Replace("/", "_");
+
+	feedback.fFileName = fName;
+	VectorworksMVR::FeedbackDispatcher::Send(feedback);
+
+	pNode->GetNodeAttributeValue(XML_GDTF_FixtureShortName,					fShortName);
+	pNode->GetNodeAttributeValue(XML_GDTF_FixtureLongName,					fLongName);
+	pNode->GetNodeAttributeValue(XML_GDTF_FixtureManufacturer,				fManufacturer);
+	pNode->GetNodeAttributeValue(XML_GDTF_FixtureDescription,				fFixtureTypeDescription);
+	TXString uuid; pNode->GetNodeAttributeValue(XML_GDTF_FixtureTypeID,		uuid );	GdtfConverter::ConvertUUID(uuid, pNode, fGuid);
+	pNode->GetNodeAttributeValue(XML_GDTF_FixtureThumbnail,					fTumbnailName);
+	TXString thumbnailOffsetX; 	pNode->GetNodeAttributeValue(XML_GDTF_FixtureThumbnailOffsetX, thumbnailOffsetX); 	GdtfConverter::ConvertInteger(thumbnailOffsetX, pNode, fThumbnailOffsetX);
+	TXString thumbnailOffsetY; 	pNode->GetNodeAttributeValue(XML_GDTF_FixtureThumbnailOffsetY, thumbnailOffsetY); 	GdtfConverter::ConvertInteger(thumbnailOffsetY, pNode, fThumbnailOffsetY);
+	TXString canHaveChildren; 	pNode->GetNodeAttributeValue(XML_GDTF_FixtureCanHaveChildren,	 canHaveChildren); 	GdtfConverter::ConvertEGdtfCanHaveChildren(canHaveChildren, pNode, fCanHaveChildren);
+
+	TXString linkedUuid;
+	pNode->GetNodeAttributeValue(XML_GDTF_LinkedUuid,		linkedUuid );
+	fHasLinkedGuid = GdtfConverter::ConvertUUID(linkedUuid, pNode, fLinkedGuid);
+	
+	if ( CheckAbort() ) return;
+
+    // ------------------------------------------------------------------------------------
+	// Read Prorocols
+    IXMLFileNodePtr protoNode;
+    if (VCOM_SUCCEEDED(pNode->GetChildNode(XML_GDTF_Protocols, &protoNode))) 
+    {   
+		TXString nodeName;
+		protoNode->GetNodeName( nodeName );
+        fProtocollContainer.ReadFromNode(protoNode); 
+
+		feedback.fTotalCompletedNodes++;
+		VectorworksMVR::FeedbackDispatcher::Send(feedback);
+		if ( CheckAbort() ) return;
+    } 
+
+    // Read PhysicalDesciptions
+    IXMLFileNodePtr physDescrNode;
+    if (VCOM_SUCCEEDED(pNode->GetChildNode(XML_GDTF_FixtureChildNodePhysicalDesrip, &physDescrNode) ))
+    {
+        fPhysicalDesciptions.ReadFromNode(physDescrNode);
+		feedback.fTotalCompletedNodes++;
+		VectorworksMVR::FeedbackDispatcher::Send(feedback);
+		if ( CheckAbort() ) return;
+    }
+
+    // ------------------------------------------------------------------------------------
+    // Read AttributeDefinitions
+    
+    IXMLFileNodePtr attrDefs;
+    if (VCOM_SUCCEEDED(pNode->GetChildNode(XML_GDTF_FixtureChildNodeAttributeDef, & attrDefs)))
+    
+    {
+        // ------------------------------------------------------------------------------------
+        // Read fActivationGroups
+        GdtfConverter::TraverseNodes(attrDefs, XML_GDTF_FixtureChildNodeActivationGroupDef, XML_GDTF_ActivationGroupNode, [this] (IXMLFileNodePtr objNode) -> void
+                                     { 
+										 if ( CheckAbort() ) return;
+
+                                         GdtfActivationGroupPtr pActicationGroup = new GdtfActivationGroup();
+                                         
+                                         pActicationGroup->ReadFromNode(objNode);
+                                         
+                                         fActivationGroups.push_back(pActicationGroup);
+										
+                                         return;
+                                     });
+        
+        // ------------------------------------------------------------------------------------
+        // Read fFeatureGroups
+        GdtfConverter::TraverseNodes(attrDefs, XML_GDTF_FixtureChildNodeFeatureGroupDef, XML_GDTF_FeatureGroupNode, [this] (IXMLFileNodePtr objNode) -> void
+                                     {
+										 if ( CheckAbort() ) return;
+
+										 GdtfFeatureGroupPtr pFeatureGroup = new GdtfFeatureGroup();
+										 
+										 pFeatureGroup->ReadFromNode(objNode);
+										 
+										 fFeatureGroups.push_back( pFeatureGroup );
+
+                                         return;
+                                     });
+        
+        // ------------------------------------------------------------------------------------
+        // Read fAttributes
+        GdtfConverter::TraverseNodes(attrDefs, XML_GDTF_FixtureChildNodeAttributesDef, XML_GDTF_AttributeNode, [this] (IXMLFileNodePtr objNode) -> void
+                                     {
+										 if ( CheckAbort() ) return;
+
+										 GdtfAttributePtr pAttr = new GdtfAttribute();
+										 
+										 pAttr->ReadFromNode(objNode);
+										 
+										 fAttributes.push_back(pAttr);
+
+                                         return;
+                                     });
+    }
+
+	feedback.fTotalCompletedNodes++;
+	VectorworksMVR::FeedbackDispatcher::Send(feedback);
+    
+    
+	// ------------------------------------------------------------------------------------
+	// Read Wheels
+	GdtfConverter::TraverseNodes(pNode, XML_GDTF_FixtureChildNodeWheels, XML_GDTF_WheelNodeName, [this] (IXMLFileNodePtr objNode) -> void
+						{
+							if ( CheckAbort() ) return;
+
+							// Create the object
+							GdtfWheelPtr wheel = new GdtfWheel(this);
+							
+							// Read from node
+							wheel->ReadFromNode(objNode);
+							
+							// Add to list
+							fWheels.push_back(wheel);
+							
+							return;
+						});
+	
+	feedback.fTotalCompletedNodes++;
+	VectorworksMVR::FeedbackDispatcher::Send(feedback);
+	
+	// ------------------------------------------------------------------------------------
+	// Read Geometry
+	GdtfConverter::TraverseNodes(pNode, XML_GDTF_FixtureChildNodeModels, XML_GDTF_ModelNodeName, [this] (IXMLFileNodePtr objNode) -> void
+						{
+							if ( CheckAbort() ) return;
+
+							// Create the object
+							GdtfModel* model = new GdtfModel(this);
+							
+							// Read from node
+							model->ReadFromNode(objNode);
+							
+							// Add to list
+							fModels.push_back(model);
+							
+							return;
+						});
+
+	
+	feedback.fTotalCompletedNodes++;
+	VectorworksMVR::FeedbackDispatcher::Send(feedback);
+
+	
+	// ------------------------------------------------------------------------------------
+	// Read Geometries
+	GdtfConverter::TraverseMultiNodes(pNode, XML_GDTF_FixtureChildNodeGeomertries, [this] (IXMLFileNodePtr objNode,const TXString& childNodeName) -> void
+						{
+							if ( CheckAbort() ) return;
+
+							GdtfGeometryPtr geometry = nullptr;
+							if		(childNodeName == XML_GDTF_GeometryAxisNodeName)		{ geometry = new GdtfGeometryAxis(nullptr);}
+							else if (childNodeName == XML_GDTF_GeometryNodeName)			{ geometry = new GdtfGeometry(nullptr);}
+							else if (childNodeName == XML_GDTF_FilterBeamNodeName)			{ geometry = new GdtfGeometryBeamFilter(nullptr);}
+							else if (childNodeName == XML_GDTF_FilterColorNodeName)			{ geometry = new GdtfGeometryColorFilter(nullptr);}
+							else if (childNodeName == XML_GDTF_FilterGoboNodeName)			{ geometry = new GdtfGeometryGoboFilter(nullptr);}
+							else if (childNodeName == XML_GDTF_FilterShaperNodeName)		{ geometry = new GdtfGeometryShaperFilter(nullptr);}
+							else if (childNodeName == XML_GDTF_LampNodeName)				{ geometry = new GdtfGeometryLamp(nullptr);}
+							else if (childNodeName == XML_GDTF_MediaServerCameraNodeName)	{ geometry = new GdtfGeometryMediaServerCamera(nullptr);}
+							else if (childNodeName == XML_GDTF_MediaServerLayerNodeName)	{ geometry = new GdtfGeometryMediaServerLayer(nullptr);}
+							else if (childNodeName == XML_GDTF_MediaServerMasterNodeName)	{ geometry = new GdtfGeometryMediaServerMaster(nullptr);}
+							else if (childNodeName == XML_GDTF_GeometryReferenceNodeName)	{ geometry = new GdtfGeometryReference(nullptr);}
+							else if (childNodeName == XML_GDTF_DisplayNodeName)				{ geometry = new GdtfGeometryDisplay(nullptr);}
+							else if (childNodeName == XML_GDTF_LaserNodeName)				{ geometry = new GdtfGeometryLaser(nullptr);}
+							else if (childNodeName == XML_GDTF_WiringObjectNodeName)		{ geometry = new GdtfGeometryWiringObject(nullptr);}
+							else if (childNodeName == XML_GDTF_InventoryNodeName)			{ geometry = new GdtfGeometryInventory(nullptr);}
+							else if (childNodeName == XML_GDTF_StructureNodeName)			{ geometry = new GdtfGeometryStructure(nullptr);}
+							else if (childNodeName == XML_GDTF_SupportNodeName)				{ geometry = new GdtfGeometrySupport(nullptr);}
+							else if (childNodeName == XML_GDTF_MagnetNodeName)				{ geometry = new GdtfGeometryMagnet(nullptr);}
+							else															{ DSTOP((kEveryone,"There is a node that was not expected!")); }
+							
+							ASSERTN(kEveryone, geometry != nullptr);
+							if (geometry)
+							{
+								geometry->ReadFromNode(objNode);
+								fGeometries.push_back(geometry);
+							}
+							else
+							{
+								GdtfParsingError error (GdtfDefines::EGdtfParsingError::eNodeWrongName, objNode);
+								SceneData::GdtfFixture::AddError(error);
+							}
+							return;
+						});
+	
+	feedback.fTotalCompletedNodes++;
+	VectorworksMVR::FeedbackDispatcher::Send(feedback);
+	
+	// ------------------------------------------------------------------------------------
+	// Read dmxModes
+	GdtfConverter::TraverseNodes(pNode, XML_GDTF_FixtureChildNodeDMX, XML_GDTF_DMXModeNodeName, [this] (IXMLFileNodePtr objNode) -> void
+								 { 
+									 if ( CheckAbort() ) return;
+									 // Create the object
+									 GdtfDmxModePtr dmxMode = new GdtfDmxMode(this, "");
+									 
+									 // Read from node
+									 dmxMode->ReadFromNode(objNode);
+									 
+									 // Add to list
+									 fDmxModes.push_back(dmxMode);
+									
+
+									 return;
+								 });
+	
+	feedback.fTotalCompletedNodes++;
+	VectorworksMVR::FeedbackDispatcher::Send(feedback);
+
+	// ------------------------------------------------------------------------------------
+	// Read Revision
+	GdtfConverter::TraverseNodes(pNode, XML_GDTF_FixtureChildNodeRevisions, XML_GDTF_RevisionNodeName, [this] (IXMLFileNodePtr objNode) -> void
+								 {
+									 if ( CheckAbort() ) return;	
+									 // Create the object
+									 GdtfRevisionPtr rev = new GdtfRevision();
+									 
+									 // Read from node
+									 rev->ReadFromNode(objNode);
+									 
+									 // Add to list
+									 fRevisions.push_back(rev);
+									
+									 return;
+								 });
+
+	feedback.fTotalCompletedNodes++;
+	VectorworksMVR::FeedbackDispatcher::Send(feedback);
+
+	// ------------------------------------------------------------------------------------
+	// Read presets
+    // -
+	
+	// ------------------------------------------------------------------------------------
+	// Read macros
+    // -
+}
+
+void GdtfFixture::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_FixtureName);
+	needed.push_back(XML_GDTF_FixtureShortName);
+	needed.push_back(XML_GDTF_FixtureLongName);
+	needed.push_back(XML_GDTF_FixtureManufacturer);
+	needed.push_back(XML_GDTF_FixtureDescription);
+	needed.push_back(XML_GDTF_FixtureTypeID);
+	optional.push_back(XML_GDTF_FixtureThumbnail);
+	optional.push_back(XML_GDTF_LinkedUuid);
+	optional.push_back(XML_GDTF_FixtureThumbnailOffsetX);
+	optional.push_back(XML_GDTF_FixtureThumbnailOffsetY);
+	optional.push_back(XML_GDTF_FixtureCanHaveChildren);
+
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfFixture::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfFixture;
+}
+TXString GdtfFixture::GetNodeName()
+{
+	return XML_GDTF_FixtureNodeName;
+}
+
+bool GdtfFixture::ExportToFile(IZIPFilePtr& zipfile)
+{
+	//------------------------------------------------------------------------------------
+	// Create XML File
+	IXMLFilePtr xmlFile (IID_XMLFile);
+	xmlFile->CreateNew(XML_GDTF_ROOTNODENAME);
+	
+	
+	//------------------------------------------------------------------------------------
+	// Create root node
+	IXMLFileNodePtr rootNode;
+	if (VCOM_SUCCEEDED(xmlFile->GetRootNode( & rootNode)))
+	{
+		// Set Version Tag
+		rootNode->SetNodeAttributeValue(XML_GDTF_ROOTNODEATTRVERSION, XML_GDTF_CurrentVersion);
+		
+		// Write the fixture
+		this->WriteToNode(rootNode);
+	}
+	
+
+	//------------------------------------------------------------------------------------
+	// Write to disk
+	SceneData::IXMLFileIOBufferImpl buffer;
+	xmlFile->WriteBuffer( &buffer, eXMLEncoding_UTF8);
+	
+	
+	// Prepare Temp Storage for ZIP buffer
+	size_t	size = 0;
+	void*	data = nullptr;
+	
+	// Get the data from the XML
+	buffer.GetDataSize(size);
+	buffer.GetData(data);
+	
+	
+	// Copy into the Buffer for the ZIP
+	ISceneDataZipBuffer zipXmlBuffer;
+	zipXmlBuffer.SetData(data, size);
+	
+	
+	//------------------------------------------------------------------------------------
+	// Add to ZIP
+	SceneDataZip::AddFileToZip(zipfile, zipXmlBuffer, TXString(XML_GDTF_GDTFFILENAME) );
+
+	//------------------------------------------------------------------------------------
+	// Add meshes
+
+	for (auto it = fFileBuffers.begin(); it != fFileBuffers.end(); it++)
+	{
+		TXString strFileName;
+
+		if(it->first.EndsWith("3ds"))
+		{
+			strFileName = SceneData::SceneDataZip::GetResourceSubFolder(ERessourceType::Model3DS) + it->first;
+		}
+
+		if(it->first.EndsWith("svg"))
+		{
+			strFileName = SceneData::SceneDataZip::GetResourceSubFolder(ERessourceType::ModelSVG) + it->first;
+		}
+
+		if(it->first.EndsWith("glb"))
+		{
+			strFileName = SceneData::SceneDataZip::GetResourceSubFolder(ERessourceType::ModelGLTF) + it->first;
+		}
+
+		if(!strFileName.IsEmpty())
+		{
+			CZIPFileIOBufferImpl* bufferzip = new CZIPFileIOBufferImpl();
+			bufferzip->SetData((void*)it->second.first, it->second.second);
+			zipfile->AddFile(strFileName, bufferzip);
+
+			delete bufferzip;
+		}
+	}
+	
+	return true;
+}
+
+
+GdtfRevisionPtr GdtfFixture::AddRevision(const TXString& text, const STime& date)
+{
+	GdtfRevision* revision = new GdtfRevision();
+	revision->SetText(text);
+	revision->SetDate(date);
+	
+	fRevisions.push_back(revision);
+	
+	return revision;
+}
+
+GdtfAttributePtr GdtfFixture::AddAttribute(const TXString& name, const TXString& prettyName)
+{
+	GdtfAttributePtr attr = new GdtfAttribute(name, prettyName);
+
+	fAttributes.push_back(attr);
+	
+	return attr;
+}
+
+GdtfWheelPtr GdtfFixture::AddWheel(TXString name)
+{
+	// Create new Wheel
+	GdtfWheel* wheel = new GdtfWheel(this, name);
+
+	// Add to array
+	fWheels.push_back(wheel);
+	
+	return wheel;
+
+}
+
+GdtfModel* GdtfFixture::AddModel(const TXString& name)
+{
+	GdtfModel* model = new  GdtfModel(name, this);
+	fModels.push_back(model);
+	
+	return model;
+}
+
+GdtfGeometryPtr GdtfFixture::AddGeometryWithAxis(const TXString& name, GdtfModelPtr refToModel,const VWTransformMatrix& ma)
+{
+	GdtfGeometryAxis* axis = new GdtfGeometryAxis(name, refToModel, ma, nullptr);
+	
+	fGeometries.push_back(axis);
+	
+	return axis;
+}
+
+GdtfGeometryPtr GdtfFixture::AddGeometryWithLamp(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
+{
+	GdtfGeometryLamp* lamp = new GdtfGeometryLamp(name, refToModel, ma, nullptr);
+	
+	fGeometries.push_back(lamp);
+	
+	return lamp;
+}
+
+GdtfGeometryPtr GdtfFixture::AddGeometry(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
+{
+	GdtfGeometry* geo = new GdtfGeometry(name, refToModel, ma, nullptr);
+	
+	fGeometries.push_back(geo);
+	
+	return geo;
+}
+
+GdtfGeometryPtr GdtfFixture::AddGeometryReference(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
+{
+	GdtfGeometry* geo = new GdtfGeometryReference(name, refToModel, ma, nullptr);
+	
+	fGeometries.push_back(geo);
+	
+	return geo;
+}
+
+GdtfGeometryPtr GdtfFixture::AddGeometryShaper(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
+{
+	GdtfGeometry* geo = new GdtfGeometryShaperFilter(name, refToModel, ma, nullptr);
+	
+	fGeometries.push_back(geo);
+	
+	return geo;
+}
+
+GdtfGeometryPtr GdtfFixture::AddGeometryColor(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
+{
+	GdtfGeometry* geo = new GdtfGeometryColorFilter(name, refToModel, ma, nullptr);
+	
+	fGeometries.push_back(geo);
+	
+	return geo;
+}
+
+GdtfGeometryPtr GdtfFixture::AddGeometryGobo(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
+{
+	GdtfGeometry* geo = new GdtfGeometryGoboFilter(name, refToModel, ma, nullptr);
+	
+	fGeometries.push_back(geo);
+	
+	return geo;
+}
+
+GdtfGeometryPtr GdtfFixture::AddGeometryBeam(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
+{
+	GdtfGeometry* geo = new GdtfGeometryBeamFilter(name, refToModel, ma, nullptr);
+	
+	fGeometries.push_back(geo);
+	
+	return geo;
+}
+
+GdtfGeometryPtr GdtfFixture::AddGeometryMediaServerCamera(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
+{
+	GdtfGeometry* geo = new GdtfGeometryMediaServerCamera(name, refToModel, ma, nullptr);
+	
+	fGeometries.push_back(geo);
+	
+	return geo;
+}
+
+GdtfGeometryPtr GdtfFixture::AddGeometryMediaServerLayer(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
+{
+	GdtfGeometry* geo = new GdtfGeometryMediaServerLayer(name, refToModel, ma, nullptr);
+	
+	fGeometries.push_back(geo);
+	
+	return geo;
+}
+
+GdtfGeometryPtr GdtfFixture::AddGeometryMediaServerMaster(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
+{
+	GdtfGeometry* geo = new GdtfGeometryMediaServerMaster(name, refToModel, ma, nullptr);
+	
+	fGeometries.push_back(geo);
+	
+	return geo;
+}
+
+GdtfGeometryPtr GdtfFixture::AddGeometryDisplay(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
+{
+	GdtfGeometry* geo = new GdtfGeometryDisplay(name, refToModel, ma, nullptr);
+
+	fGeometries.push_back(geo);
+	
+	return geo;
+}
+
+GdtfGeometryPtr GdtfFixture::AddGeometryLaser(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
+{
+	GdtfGeometry* geo = new GdtfGeometryLaser(name, refToModel, ma, nullptr);
+
+	fGeometries.push_back(geo);
+	
+	return geo;
+}
+
+GdtfGeometryPtr GdtfFixture::AddGeometryWiringObject(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
+{
+	GdtfGeometry* geo = new GdtfGeometryWiringObject(name, refToModel, ma, nullptr);
+
+	fGeometries.push_back(geo);
+	
+	return geo;
+}
+
+GdtfGeometryPtr GdtfFixture::AddGeometryInventory(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
+{
+	GdtfGeometry* geo = new GdtfGeometryInventory(name, refToModel, ma, nullptr);
+
+	fGeometries.push_back(geo);
+	
+	return geo;
+}
+
+GdtfGeometryPtr GdtfFixture::AddGeometryStructure(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
+{
+	GdtfGeometry* geo = new GdtfGeometryStructure(name, refToModel, ma, nullptr);
+
+	fGeometries.push_back(geo);
+	
+	return geo;
+}
+
+GdtfGeometryPtr GdtfFixture::AddGeometrySupport(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
+{
+	GdtfGeometry* geo = new GdtfGeometrySupport(name, refToModel, ma, nullptr);
+
+	fGeometries.push_back(geo);
+	
+	return geo;
+}
+
+GdtfGeometryPtr GdtfFixture::AddGeometryMagnet(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
+{
+	GdtfGeometry* geo = new GdtfGeometryMagnet(name, refToModel, ma, nullptr);
+
+	fGeometries.push_back(geo);
+	
+	return geo;
+}
+
+GdtfDmxMode* GdtfFixture::AddDmxMode(const TXString& name)
+{
+	GdtfDmxMode* mode = new  GdtfDmxMode(this, name);
+	
+	fDmxModes.push_back(mode);
+	
+	return mode;
+}
+
+GdtfUserPresetPtr GdtfFixture::AddUserPreset()
+{
+	GdtfUserPresetPtr preset = new  GdtfUserPreset();
+	
+	fPresets.push_back(preset);
+	
+	return preset;
+}
+
+GdtfFeatureGroupPtr GdtfFixture::AddFeatureGroup(const TXString& name, const TXString& prettyName)
+{
+	GdtfFeatureGroupPtr featureGroup = new  GdtfFeatureGroup(name, prettyName);
+	
+	fFeatureGroups.push_back(featureGroup);
+	
+	return featureGroup;
+}
+
+GdtfActivationGroupPtr GdtfFixture::AddActivationGroup(const TXString& name)
+{
+	GdtfActivationGroupPtr actGroup = new  GdtfActivationGroup(name);
+	
+	fActivationGroups.push_back(actGroup);
+	
+	return actGroup;
+}
+
+const TGdtfWheelArray& GdtfFixture::GetWheelArray()
+{
+	return fWheels;
+}
+
+const TGdtfActivationGroupArray& GdtfFixture::GetActivationGroupArray()
+{
+    return fActivationGroups;
+}
+
+const TGdtfFeatureGroupArray& GdtfFixture::GetFeatureGroupArray()
+{
+    return fFeatureGroups;
+}
+
+const TGdtfAttributeArray& GdtfFixture::GetAttributeArray()
+{
+    return fAttributes;
+}
+
+const TGdtfGeometryArray& GdtfFixture::GetGeometryArray()
+{
+	return fGeometries;
+}
+
+const TGdtfDmxModeArray& GdtfFixture::GetDmxModeArray()
+{
+	return fDmxModes;
+}
+
+const TGdtfModelArray& GdtfFixture::GetModelArray()
+{
+    return fModels;
+}
+
+const TGdtfRevisionArray& GdtfFixture::GetRevisionArray()
+{
+    return fRevisions;
+}
+
+const TGdtfUserPresetArray& GdtfFixture::GetPresetArray()
+{
+    return fPresets;
+}
+
+const std::map<TXString, std::pair<char*, size_t> >& GdtfFixture::GetFileBuffers()
+{
+	return fFileBuffers;
+}
+
+GdtfProtocols& GdtfFixture::GetProtocollContainer()
+{
+	return fProtocollContainer;
+}
+
+const TXString& GdtfFixture::GetName() const
+{
+	return fName;
+}
+
+const TXString& GdtfFixture::GetShortName() const
+{
+    return fShortName;
+}
+
+const TXString& GdtfFixture::GetLongName() const
+{
+    return fLongName;
+}
+
+const TXString& GdtfFixture::GetManufacturer() const
+{
+    return fManufacturer;
+}
+
+const TXString& GdtfFixture::GetFixtureTypeDescription() const
+{
+    return fFixtureTypeDescription;
+}
+
+GdtfFixtureGUID GdtfFixture::GetGuid() const
+{
+    return fGuid;
+}
+
+GdtfFixtureGUID GdtfFixture::GetLinkedGuid() const
+{
+	return fLinkedGuid;
+}
+
+bool GdtfFixture::HasLinkedGuid() const
+{
+	return fHasLinkedGuid;
+}
+
+const TXString& GdtfFixture::GetThumbnailName() const
+{
+    return fTumbnailName;
+}
+
+Sint32 GdtfFixture::GetThumbnailOffsetX() const
+{
+    return fThumbnailOffsetX;
+}
+
+Sint32 GdtfFixture::GetThumbnailOffsetY() const
+{
+    return fThumbnailOffsetY;
+}
+
+bool GdtfFixture::GetCanHaveChildren() const
+{
+    return fCanHaveChildren;
+}
+
+TXString GdtfFixture::GetFullThumbNailPath (const TXString& fileExtension) 
+{
+	// Set to store
+	TXString fileName = fTumbnailName + fileExtension;
+
+    // Check if file exists:
+    IFileIdentifierPtr file (IID_FileIdentifier);
+    file->Set(fWorkingFolder, fileName);
+    
+    bool exists = false;  
+	VCOM_SUCCEEDED(file->ExistsOnDisk(exists));
+    if ( ! exists)	{ return ""; }
+
+	TXString fullPath;
+	file->GetFileFullPath(fullPath);
+
+	return fullPath;
+}
+
+const GdtfPNGFile& GdtfFixture::GetPNGThumnailFullPath()
+{
+	// Set to store
+    fTumbnailFullPath_PNG = GetFullThumbNailPath(".png");
+
+	return fTumbnailFullPath_PNG;
+}
+
+const TXString & SceneData::GdtfFixture::GetSVGThumnailFullPath()
+{
+	// Set to store
+    fTumbnailFullPath_SVG = GetFullThumbNailPath(".svg");
+
+	return fTumbnailFullPath_SVG;
+}
+
+GdtfPhysicalDescriptions& SceneData::GdtfFixture::GetPhysicalDesciptionsContainer()
+{
+    return fPhysicalDesciptions;
+}
+
+Sint32 GdtfFixture::GetMajorVersion() const
+{
+	return fMajorVersion;
+}
+
+Sint32 GdtfFixture::GetMinorVersion() const
+{
+	return fMinorVersion;
+}
+
+void GdtfFixture::SetName(const TXString& name)
+{
+	fName = name;
+}
+
+void GdtfFixture::SetShortName(const TXString& shortName)
+{
+	fShortName = shortName;
+}
+
+void GdtfFixture::SetLongName(const TXString& longName)
+{
+	fLongName = longName;
+}
+
+void GdtfFixture::SetManufacturer(const TXString& manu)
+{
+	fManufacturer = manu;
+}
+
+void GdtfFixture::SetFixtureTypeDescription(const TXString& desc)
+{
+	fFixtureTypeDescription = desc;
+}
+
+void GdtfFixture::SetGuid(const VWFC::Tools::VWUUID& uuid)
+{
+	fGuid = uuid;
+}
+
+void GdtfFixture::SetLinkedGuid(const VWFC::Tools::VWUUID& uuid)
+{
+	fHasLinkedGuid = true;
+	fLinkedGuid = uuid;
+}
+
+void GdtfFixture::SetThumbnailName(const TXString& fileName)
+{
+	fTumbnailName = fileName;
+}
+
+void GdtfFixture::SetThumbnailOffsetX(Sint32 thumbnailOffsetX)
+{
+	fThumbnailOffsetX = thumbnailOffsetX;
+}
+
+void GdtfFixture::SetThumbnailOffsetY(Sint32 thumbnailOffsetY)
+{
+	fThumbnailOffsetY = thumbnailOffsetY;
+}
+
+void GdtfFixture::SetCanHaveChildren(bool canHaveChildren)
+{
+	fCanHaveChildren = canHaveChildren;
+}
+
+void GdtfFixture::SetMajorVersion( Sint32 majorVersion )
+{
+	fMajorVersion = majorVersion;
+}
+
+void GdtfFixture::SetMinorVersion( Sint32 minorVersion )
+{
+	fMinorVersion = minorVersion;
+}
+
+//------------------------------------------------------------------------------------
+// Point
+SceneData::GdtfPoint::GdtfPoint()
+{
+	fDMXPercentage = 0;
+	fCFC3 = 0;
+	fCFC2 = 0;
+	fCFC1 = 0;
+	fCFC0 = 0;
+}
+
+SceneData::GdtfPoint::GdtfPoint(double DMXPercentage, double CFC3, double CFC2, double CFC1, double CFC0)
+{
+	fDMXPercentage = DMXPercentage;
+	fCFC3 = CFC3;
+	fCFC2 = CFC2;
+	fCFC1 = CFC1;
+	fCFC0 = CFC0;
+}
+
+SceneData::GdtfPoint::~GdtfPoint()
+{
+}
+
+EGdtfObjectType SceneData::GdtfPoint::GetObjectType()
+{
+    return EGdtfObjectType::eGdtfPoint;
+}
+
+// Getters
+double SceneData::GdtfPoint::GetDMXPercentage() const
+{
+	return fDMXPercentage;
+}
+
+double SceneData::GdtfPoint::GetCFC3() const
+{
+	return fCFC3;
+}
+
+double SceneData::GdtfPoint::GetCFC2() const
+{
+	return fCFC2;
+}
+
+double SceneData::GdtfPoint::GetCFC1() const
+{
+	return fCFC1;
+}
+
+double SceneData::GdtfPoint::GetCFC0() const
+{
+	return fCFC0;
+}
+        
+// Setters
+void SceneData::GdtfPoint::SetDMXPercentage(double dmxPercentage)
+{
+	fDMXPercentage = dmxPercentage;
+}
+
+void SceneData::GdtfPoint::SetCFC3(double CFC3)
+{
+	fCFC3 = CFC3;
+}
+
+void SceneData::GdtfPoint::SetCFC2(double CFC2)
+{
+	fCFC2 = CFC2;
+}
+
+void SceneData::GdtfPoint::SetCFC1(double CFC1)
+{
+	fCFC1 = CFC1;
+}
+
+void SceneData::GdtfPoint::SetCFC0(double CFC0)
+{
+	fCFC0 = CFC0;
+}
+
+TXString SceneData::GdtfPoint::GetNodeName()
+{
+    return XML_GDTF_Point;
+}
+
+void SceneData::GdtfPoint::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnPrintToFile(pNode);
+	
+	//------------------------------------------------------------------------------------
+    // Print the attributes
+	pNode->SetNodeAttributeValue(XML_GDTF_PointDMXPercentage, 	GdtfConverter::ConvertDouble(fDMXPercentage) );
+	pNode->SetNodeAttributeValue(XML_GDTF_PointCFC3, 			GdtfConverter::ConvertDouble(fCFC3) );
+	pNode->SetNodeAttributeValue(XML_GDTF_PointCFC2, 			GdtfConverter::ConvertDouble(fCFC2) );
+	pNode->SetNodeAttributeValue(XML_GDTF_PointCFC1, 			GdtfConverter::ConvertDouble(fCFC1) );
+	pNode->SetNodeAttributeValue(XML_GDTF_PointCFC0, 			GdtfConverter::ConvertDouble(fCFC0) );
+
+}
+
+void SceneData::GdtfPoint::OnReadFromNode(const IXMLFileNodePtr & pNode)
+{
+    //------------------------------------------------------------------------------------
+    // Call the parent
+    GdtfObject::OnReadFromNode(pNode);
+
+    //------------------------------------------------------------------------------------
+    // Get the attributes	
+    TXString dmxPercentage;	pNode->GetNodeAttributeValue(XML_GDTF_PointDMXPercentage, dmxPercentage); 	GdtfConverter::ConvertDouble(dmxPercentage, pNode, fDMXPercentage);
+	TXString cfc3;			pNode->GetNodeAttributeValue(XML_GDTF_PointCFC3, cfc3); 					GdtfConverter::ConvertDouble(cfc3, pNode, fCFC3);
+	TXString cfc2;			pNode->GetNodeAttributeValue(XML_GDTF_PointCFC2, cfc2); 					GdtfConverter::ConvertDouble(cfc2, pNode, fCFC2);
+	TXString cfc1;			pNode->GetNodeAttributeValue(XML_GDTF_PointCFC1, cfc1); 					GdtfConverter::ConvertDouble(cfc1, pNode, fCFC1);
+	TXString cfc0;			pNode->GetNodeAttributeValue(XML_GDTF_PointCFC0, cfc0); 					GdtfConverter::ConvertDouble(cfc0, pNode, fCFC0);
+}
+
+void SceneData::GdtfPoint::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	optional.push_back(XML_GDTF_PointDMXPercentage);
+	optional.push_back(XML_GDTF_PointCFC3);
+	optional.push_back(XML_GDTF_PointCFC2);
+	optional.push_back(XML_GDTF_PointCFC1);
+	optional.push_back(XML_GDTF_PointCFC0);
+
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+//------------------------------------------------------------------------------------
+// DMXProfile
+
+SceneData::GdtfDMXProfile::GdtfDMXProfile()
+{
+	fUniqueName = "";
+}
+
+SceneData::GdtfDMXProfile::~GdtfDMXProfile()
+{
+	for(GdtfPointPtr point : fPoints) { delete point; }
+}
+
+EGdtfObjectType SceneData::GdtfDMXProfile::GetObjectType()
+{
+    return EGdtfObjectType::eGdtfDMXProfile;
+}
+
+TXString SceneData::GdtfDMXProfile::GetNodeReference()
+{
+	return fUniqueName;
+}
+
+const TXString&	SceneData::GdtfDMXProfile::GetName() const
+{
+	return fUniqueName;
+}
+
+TGdtfPointArray SceneData::GdtfDMXProfile::GetPointArray() const
+{
+	return fPoints;
+}
+
+void SceneData::GdtfDMXProfile::SetName(const TXString& name)
+{
+	fUniqueName = name;
+}
+
+GdtfPointPtr SceneData::GdtfDMXProfile::AddPoint(double DMXPercentage, double CFC3, double CFC2, double CFC1, double CFC0)
+{
+	GdtfPointPtr point = new GdtfPoint(DMXPercentage, CFC3, CFC2, CFC1, CFC0);
+	fPoints.push_back(point);
+	return point;
+}
+
+TXString SceneData::GdtfDMXProfile::GetNodeName()
+{
+    return XML_GDTF_DMX_Profile;
+}
+
+void SceneData::GdtfDMXProfile::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnPrintToFile(pNode);
+	
+	//------------------------------------------------------------------------------------
+    // Print the attributes
+    pNode->SetNodeAttributeValue(XML_GDTF_DMX_ProfileName, fUniqueName);
+
+    //------------------------------------------------------------------------------------
+    // Print the children
+    for (GdtfPoint* point : fPoints)
+    {
+        point->WriteToNode(pNode);
+    }
+}
+
+void SceneData::GdtfDMXProfile::OnReadFromNode(const IXMLFileNodePtr & pNode)
+{
+    //------------------------------------------------------------------------------------
+    // Call the parent
+    GdtfObject::OnReadFromNode(pNode);
+
+    //------------------------------------------------------------------------------------
+    // Get the attributes	
+    pNode->GetNodeAttributeValue(XML_GDTF_DMX_ProfileName, fUniqueName);
+
+    // Read the children
+    GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_Point, [this](IXMLFileNodePtr objNode) -> void
+    {
+		if ( CheckAbort() ) return;
+
+        GdtfPoint* point = new GdtfPoint();
+
+        point->ReadFromNode(objNode);
+
+        fPoints.push_back(point);
+
+        return;
+    });
+}
+
+void SceneData::GdtfDMXProfile::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	optional.push_back(XML_GDTF_DMX_ProfileName);
+
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+SceneData::GdtfCRIGroup::GdtfCRIGroup()
+{
+    fColorTemperature = 6000;
+}
+
+SceneData::GdtfCRIGroup::GdtfCRIGroup(double colorTemp)
+{
+    fColorTemperature = colorTemp;
+}
+
+SceneData::GdtfCRIGroup::~GdtfCRIGroup()
+{
+	for(GdtfCRIPtr ptr : fCRI_Array) { delete ptr; }
+}
+
+EGdtfObjectType SceneData::GdtfCRIGroup::GetObjectType()
+{
+    return EGdtfObjectType::eGdtfCRIGroup;
+}
+
+double SceneData::GdtfCRIGroup::GetColorTemperature() const
+{
+    return fColorTemperature;
+}
+
+TGdtf_CRIArray SceneData::GdtfCRIGroup::GetCRI_Array() const
+{
+    return fCRI_Array;
+}
+
+void SceneData::GdtfCRIGroup::SetColorTemperature(double val)
+{
+    fColorTemperature = val;
+}
+
+GdtfCRIPtr SceneData::GdtfCRIGroup::Add_CRI(EGdtfColorSample ces, Sint32 colorTemp)
+{
+    GdtfCRIPtr cri = new GdtfCRI(ces, colorTemp);
+    
+    fCRI_Array.push_back(cri);
+
+    return cri;
+}
+
+TXString SceneData::GdtfCRIGroup::GetNodeName()
+{
+    return XML_GDTF_ColorRenderingIndexGroup;
+}
+
+void SceneData::GdtfCRIGroup::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+    //------------------------------------------------------------------------------------
+    // Call the parent
+    GdtfObject::OnPrintToFile(pNode);
+
+    //------------------------------------------------------------------------------------
+    // Print the attributes
+    pNode->SetNodeAttributeValue(XML_GDTF_ColorRenderingIndexGroup_ColorTemp, GdtfConverter::ConvertDouble(fColorTemperature) );
+
+    //------------------------------------------------------------------------------------
+    // Print the children
+    for (GdtfCRI* cri : fCRI_Array)
+    {
+        cri->WriteToNode(pNode);
+    }
+}
+
+void SceneData::GdtfCRIGroup::OnReadFromNode(const IXMLFileNodePtr & pNode)
+{
+    //------------------------------------------------------------------------------------
+    // Call the parent
+    GdtfObject::OnReadFromNode(pNode);
+
+    //------------------------------------------------------------------------------------
+    // Get the attributes	
+    TXString colorTempStr; pNode->GetNodeAttributeValue(XML_GDTF_ColorRenderingIndexGroup_ColorTemp, colorTempStr);
+    GdtfConverter::ConvertDouble(colorTempStr, pNode, fColorTemperature);
+
+    // Read the children
+    GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_ColorRenderingIndex, [this](IXMLFileNodePtr objNode) -> void
+    {
+		if ( CheckAbort() ) return;
+
+        GdtfCRI* cri = new GdtfCRI();
+
+        cri->ReadFromNode(objNode);
+
+        fCRI_Array.push_back(cri);
+
+        return;
+    });
+}
+
+void SceneData::GdtfCRIGroup::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	optional.push_back(XML_GDTF_ColorRenderingIndexGroup_ColorTemp);
+
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+SceneData::GdtfCRI::GdtfCRI()
+{
+    fCES = EGdtfColorSample::CES_01;  // Default CES01
+    fCRI = 100;          // The color rendering index for this sample.Size: 1 byte; Default value : 100
+}
+
+SceneData::GdtfCRI::GdtfCRI(EGdtfColorSample ces, Uint8 cri)
+{
+    fCES = ces;
+    fCRI = cri;
+}
+
+SceneData::GdtfCRI::~GdtfCRI()
+{
+}
+
+EGdtfObjectType SceneData::GdtfCRI::GetObjectType()
+{
+    return EGdtfObjectType::eGdtfCRI;
+}
+
+EGdtfColorSample SceneData::GdtfCRI::GetColorSample() const
+{
+    return fCES;
+}
+
+Uint8 SceneData::GdtfCRI::GetColorRenderingIndex() const
+{
+    return fCRI;
+}
+
+void SceneData::GdtfCRI::SetColorSample(EGdtfColorSample val)
+{
+    fCES = val;
+}
+
+void SceneData::GdtfCRI::SetColorRenderingIndex(Uint8 val)
+{
+    fCRI = val;
+}
+
+TXString SceneData::GdtfCRI::GetNodeName()
+{
+    return XML_GDTF_ColorRenderingIndex;
+}
+
+void SceneData::GdtfCRI::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+    //------------------------------------------------------------------------------------
+    // Call the parent
+    GdtfObject::OnPrintToFile(pNode);
+
+    //------------------------------------------------------------------------------------
+    // Print the attributes
+    pNode->SetNodeAttributeValue(XML_GDTF_ColorRenderingIndex_CES, GdtfConverter::ConvertEGdtfColorSampleEnum(fCES) );
+    
+    pNode->SetNodeAttributeValue(XML_GDTF_ColorRenderingIndex_CRI, GdtfConverter::ConvertInteger(fCRI) );
+}
+
+void SceneData::GdtfCRI::OnReadFromNode(const IXMLFileNodePtr & pNode)
+{
+    //------------------------------------------------------------------------------------
+    // Call the parent
+    GdtfObject::OnReadFromNode(pNode);
+
+    //------------------------------------------------------------------------------------
+    // Get the attributes	
+    TXString cesStr;  pNode->GetNodeAttributeValue(XML_GDTF_ColorRenderingIndex_CES, cesStr);
+    GdtfConverter::ConvertEGdtfColorSampleEnum(cesStr, pNode, fCES);
+    //
+    TXString colorRenderingIndexStr; pNode->GetNodeAttributeValue(XML_GDTF_ColorRenderingIndex_CRI, colorRenderingIndexStr);
+    GdtfConverter::ConvertInteger(colorRenderingIndexStr, pNode, fCRI);
+}
+
+void SceneData::GdtfCRI::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	optional.push_back(XML_GDTF_ColorRenderingIndex_CES);
+	optional.push_back(XML_GDTF_ColorRenderingIndex_CRI);
+
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+
+TXString SceneData::GdtfFTRDM::GetNodeName()
+{
+	return XML_GDTF_FTRDM;
+}
+
+void SceneData::GdtfFTRDM::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnPrintToFile(pNode);
+	//------------------------------------------------------------------------------------
+	// Print the attributes
+	pNode->SetNodeAttributeValue(XML_GDTF_FTRDM_AttrManufacturerID, GdtfConverter::ConvertHexValue(fManufacturerID) );
+	pNode->SetNodeAttributeValue(XML_GDTF_FTRDM_AttrDeviceModelID,  GdtfConverter::ConvertHexValue(fDeviceModelID)  );	 
+	//------------------------------------------------------------------------------------
+    // Print the Childs
+	for (GdtfSoftwareVersionIDPtr softID : fSoftwareVersionIDArray)
+	{
+		softID->WriteToNode(pNode);
+	}
+}
+
+void SceneData::GdtfFTRDM::OnReadFromNode(const IXMLFileNodePtr & pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnReadFromNode(pNode);
+	
+	//------------------------------------------------------------------------------------
+	// Get the attributes
+	TXString manufactStr; pNode->GetNodeAttributeValue(XML_GDTF_FTRDM_AttrManufacturerID, manufactStr);
+	GdtfConverter::ConvertHexValue(manufactStr, pNode, fManufacturerID);
+	
+	TXString deviceModelStr;  pNode->GetNodeAttributeValue(XML_GDTF_FTRDM_AttrDeviceModelID, deviceModelStr);
+	GdtfConverter::ConvertHexValue(deviceModelStr, pNode, fDeviceModelID);
+    
+    //------------------------------------------------------------------------------------
+	// Read the childs
+	GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_SoftwareVersionID_NodeNam, [this](IXMLFileNodePtr objNode) -> void
+								 {
+									 if ( CheckAbort() ) return;
+
+									 GdtfSoftwareVersionIDPtr  softID = new GdtfSoftwareVersionID();
+									 
+									 softID->ReadFromNode(objNode);
+									 
+									 fSoftwareVersionIDArray.push_back(softID);
+									 return;
+								 });	
+}
+
+void SceneData::GdtfFTRDM::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_FTRDM_AttrManufacturerID);
+	needed.push_back(XML_GDTF_FTRDM_AttrDeviceModelID);	
+
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+SceneData::GdtfFTRDM::GdtfFTRDM()
+{
+	fManufacturerID = 0;
+	fDeviceModelID  = 0;
+}
+
+SceneData::GdtfFTRDM::GdtfFTRDM(size_t manufacturerID, size_t deviceModelID) : GdtfFTRDM()
+{
+	fManufacturerID = manufacturerID;
+	fDeviceModelID  = deviceModelID;
+}
+
+SceneData::GdtfFTRDM::~GdtfFTRDM()
+{	    
+     for (GdtfSoftwareVersionID* obj : fSoftwareVersionIDArray){ delete obj; }
+}
+
+EGdtfObjectType SceneData::GdtfFTRDM::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfFTRDM;
+}
+
+size_t SceneData::GdtfFTRDM::GetManufacturerID() const
+{
+	return fManufacturerID;
+}
+
+size_t SceneData::GdtfFTRDM::GetDeviceModelID() const
+{
+	return fDeviceModelID;
+}
+
+const TGdtfSoftwareVersionIDArray& SceneData::GdtfFTRDM::GetSoftwareVersIDs() const
+{
+	return fSoftwareVersionIDArray;
+}
+
+void SceneData::GdtfFTRDM::SetManufacturerID(size_t val)
+{
+	fManufacturerID = val;
+}
+
+void SceneData::GdtfFTRDM::SetDeviceModelID(size_t val)
+{
+	fDeviceModelID = val;
+}
+
+
+GdtfSoftwareVersionIDPtr SceneData::GdtfFTRDM::AddSoftwareVersID(size_t value)
+{
+    GdtfSoftwareVersionIDPtr softID = new GdtfSoftwareVersionID(value);
+	
+    fSoftwareVersionIDArray.push_back(softID);
+
+    return softID;
+}
+
+SceneData::GdtfDMXPersonality::GdtfDMXPersonality()
+{
+    fValue = 0;
+    fDMXMode = nullptr;
+    fDMXMode_Unresolved = "";
+}
+
+SceneData::GdtfDMXPersonality::GdtfDMXPersonality(size_t value, GdtfDmxModePtr dmxMode)
+{
+    fValue   = value;
+    fDMXMode = dmxMode;
+    fDMXMode_Unresolved = "";
+}
+
+SceneData::GdtfDMXPersonality::~GdtfDMXPersonality()
+{     
+}
+
+EGdtfObjectType SceneData::GdtfDMXPersonality::GetObjectType()
+{
+    return EGdtfObjectType::eGdtfDMXPersonality;
+}
+
+size_t SceneData::GdtfDMXPersonality::GetValue() const
+{
+    return fValue;
+}
+
+const TXString & SceneData::GdtfDMXPersonality::GetUnresolvedDMXMode() const
+{
+    return fDMXMode_Unresolved;
+}
+
+GdtfDmxModePtr SceneData::GdtfDMXPersonality::GetDMXMode() const
+{
+    return fDMXMode;
+}
+
+void SceneData::GdtfDMXPersonality::SetValue(size_t val)
+{
+    fValue = val;
+}
+
+void SceneData::GdtfDMXPersonality::SetDMXMode(GdtfDmxModePtr mode)
+{
+    fDMXMode = mode;
+}
+
+TXString SceneData::GdtfDMXPersonality::GetNodeName()
+{
+    return XML_GDTF_DMXPersonalityNodeNam;
+}
+
+void GdtfDMXPersonality::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+    //------------------------------------------------------------------------------------
+    // Call the parent
+    GdtfObject::OnPrintToFile(pNode);
+
+    //------------------------------------------------------------------------------------
+    // Print the attributes
+    pNode->SetNodeAttributeValue(XML_GDTF_DMXPersonalityValue, GdtfConverter::ConvertHexValue(fValue));
+    pNode->SetNodeAttributeValue(XML_GDTF_DMXPersonalityDMXMode, fDMXMode->GetModeName() );
+}
+
+void GdtfDMXPersonality::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+    //------------------------------------------------------------------------------------
+    // Call the parent
+    GdtfObject::OnReadFromNode(pNode);
+
+    //------------------------------------------------------------------------------------
+    // Get the attributes	
+    TXString valueStr;
+    pNode->GetNodeAttributeValue(XML_GDTF_DMXPersonalityValue, valueStr);
+    GdtfConverter::ConvertHexValue(valueStr, pNode, fValue);
+
+    pNode->GetNodeAttributeValue(XML_GDTF_DMXPersonalityDMXMode, fDMXMode_Unresolved);
+}
+
+SceneData::GdtfProtocols::GdtfProtocols()
+{
+	fRDM              = nullptr;
+	fArtNet           = nullptr;
+	fsACN             = nullptr;
+	fKiNET            = nullptr;
+	fPosiStageNet     = nullptr;
+	fOpenSoundControl = nullptr;
+	fCITP             = nullptr;
+}
+
+SceneData::GdtfProtocols::~GdtfProtocols()
+{
+	if (fRDM)              {delete fRDM;}
+	if (fArtNet)           {delete fArtNet;}
+	if (fsACN)             {delete fsACN;}
+	if (fKiNET)            {delete fKiNET;}
+	if (fPosiStageNet)     {delete fPosiStageNet;}
+	if (fOpenSoundControl) {delete fOpenSoundControl;}
+	if (fCITP)             {delete fCITP;}
+}
+
+EGdtfObjectType SceneData::GdtfProtocols::GetObjectType()
+{
+	return EGdtfObjectType::eProtocols;
+}
+
+GdtfFTRDM * SceneData::GdtfProtocols::GetRDM()
+{
+	return fRDM;
+}
+
+GdtfArtNet * SceneData::GdtfProtocols::GetArtNet()
+{
+	return fArtNet;
+}
+
+GdtfsAcn * SceneData::GdtfProtocols::GetSACN()
+{
+	return fsACN;
+}
+
+GdtfKiNET * SceneData::GdtfProtocols::GetKiNET()
+{
+	return fKiNET;
+}
+
+GdtfPosiStageNet * SceneData::GdtfProtocols::GetPosiStageNet()
+{
+	return fPosiStageNet;
+}
+
+GdtfOpenSoundControl * SceneData::GdtfProtocols::GetOpenSoundControl()
+{
+	return fOpenSoundControl;
+}
+
+GdtfCITP * SceneData::GdtfProtocols::GetCITP()
+{
+	return fCITP;
+}
+
+GdtfFTRDM * SceneData::GdtfProtocols::CreateRDM()
+{
+	fRDM = new GdtfFTRDM();
+	return fRDM;
+}
+
+GdtfArtNet* SceneData::GdtfProtocols::CreateArtNet()
+{
+	fArtNet = new GdtfArtNet();
+	return fArtNet;
+}
+
+GdtfsAcn* SceneData::GdtfProtocols::CreateSACN()
+{
+	fsACN = new GdtfsAcn();
+	return fsACN;
+}
+
+void SceneData::GdtfProtocols::SetKiNET(GdtfKiNET * val)
+{
+	fKiNET = val;
+}
+
+void SceneData::GdtfProtocols::SetPosiStageNet(GdtfPosiStageNet * val)
+{
+	fPosiStageNet = val;
+}
+
+void SceneData::GdtfProtocols::SetOpenSoundControl(GdtfOpenSoundControl * val)
+{
+	fOpenSoundControl = val;
+}
+
+void SceneData::GdtfProtocols::SetCITP(GdtfCITP * val)
+{
+	fCITP = val;
+}
+
+TXString SceneData::GdtfProtocols::GetNodeName()
+{
+	return XML_GDTF_Protocols;
+}
+
+void SceneData::GdtfProtocols::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnPrintToFile(pNode);
+	//------------------------------------------------------------------------------------
+	// Print the childs
+	if (fRDM)              { fRDM->WriteToNode(pNode); }
+	if (fArtNet)           { fArtNet->WriteToNode(pNode); }
+	if (fsACN)             { fsACN->WriteToNode(pNode); }
+	if (fKiNET)            { fKiNET->WriteToNode(pNode); }
+	if (fPosiStageNet)     { fPosiStageNet->WriteToNode(pNode); }
+	if (fOpenSoundControl) { fOpenSoundControl->WriteToNode(pNode); }
+	if (fCITP)             { fCITP->WriteToNode(pNode); }
+}
+
+void SceneData::GdtfProtocols::OnReadFromNode(const IXMLFileNodePtr & pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	 GdtfObject::OnReadFromNode(pNode);
+	
+	//------------------------------------------------------------------------------------
+	// Read the childs	
+	IXMLFileNodePtr ftrdmNode;
+	if (VCOM_SUCCEEDED( pNode->GetChildNode(XML_GDTF_FTRDM, &ftrdmNode)) )
+	{
+		fRDM = new GdtfFTRDM();
+		fRDM->ReadFromNode(ftrdmNode);
+	}
+	
+	IXMLFileNodePtr artNetNode;
+	if (VCOM_SUCCEEDED(pNode->GetChildNode(XML_GDTF_ArtNet, &artNetNode)))
+	{
+		fArtNet = new GdtfArtNet();
+		fArtNet->ReadFromNode(artNetNode);
+	}
+	
+	IXMLFileNodePtr sAcnNode;
+	if (VCOM_SUCCEEDED(pNode->GetChildNode(XML_GDTF_sACN, &sAcnNode)))
+	{
+		fsACN = new GdtfsAcn();
+		fsACN->ReadFromNode(sAcnNode);
+	}
+	
+	IXMLFileNodePtr kinetNode;
+	if (VCOM_SUCCEEDED(pNode->GetChildNode(XML_GDTF_KiNET, &kinetNode)))
+	{
+		fKiNET = new GdtfKiNET();
+		fKiNET->ReadFromNode(kinetNode);
+	}
+	
+	IXMLFileNodePtr posiStageNetNode;
+	if (VCOM_SUCCEEDED(pNode->GetChildNode(XML_GDTF_PosiStageNet, &posiStageNetNode)))
+	{
+		fPosiStageNet = new GdtfPosiStageNet();
+		fPosiStageNet->ReadFromNode(posiStageNetNode);
+	}
+	
+	IXMLFileNodePtr openSoundControlNode;
+	if (VCOM_SUCCEEDED(pNode->GetChildNode(XML_GDTF_OpenSoundControl, &openSoundControlNode)))
+	{
+		fOpenSoundControl = new GdtfOpenSoundControl();
+		fOpenSoundControl->ReadFromNode(openSoundControlNode);
+	}
+	
+	IXMLFileNodePtr ctipNode;
+	if (VCOM_SUCCEEDED(pNode->GetChildNode(XML_GDTF_CITP, &ctipNode)))
+	{
+		fCITP = new GdtfCITP();
+		fCITP->ReadFromNode(ctipNode);
+	}
+}
+
+void SceneData::GdtfProtocols::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+//------------------------------------------------------------------------------------
+// GdtfMap
+GdtfMap::GdtfMap()
+{
+}
+
+GdtfMap::GdtfMap(Uint32 key, Uint32 value)
+{
+	fKey 	= key;
+	fValue 	= value;
+}
+
+GdtfMap::~GdtfMap()
+{
+}
+
+Uint32 GdtfMap::GetKey() const
+{
+	return fKey;
+}
+
+Uint32 GdtfMap::GetValue() const
+{
+	return fValue;
+}
+
+void GdtfMap::SetKey(Uint32 key)
+{
+	fKey = key;
+}
+
+void GdtfMap::SetValue(Uint32 value)
+{
+	fValue = value;
+}
+
+void GdtfMap::OnPrintToFile(IXMLFileNodePtr pNode) 
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnPrintToFile(pNode);
+
+	pNode->SetNodeAttributeValue(XML_GDTF_MapKey,	GdtfConverter::ConvertInteger(fKey));
+	pNode->SetNodeAttributeValue(XML_GDTF_MapValue,	GdtfConverter::ConvertInteger(fValue));
+}
+
+void GdtfMap::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnReadFromNode(pNode);
+
+	TXString key;	pNode->GetNodeAttributeValue(XML_GDTF_MapKey,	key);	GdtfConverter::ConvertInteger(key, pNode, fKey);
+	TXString value;	pNode->GetNodeAttributeValue(XML_GDTF_MapValue,	value);	GdtfConverter::ConvertInteger(value, pNode,	fValue);
+}
+
+void GdtfMap::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_MapKey);
+	needed.push_back(XML_GDTF_MapValue);
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfMap::GetObjectType() 
+{
+	return EGdtfObjectType::eGdtfMap;
+}
+
+TXString GdtfMap::GetNodeName()
+{
+	return XML_GDTF_MapNodeName;
+}
+
+//------------------------------------------------------------------------------------
+// GdtfArtNet
+
+SceneData::GdtfArtNet::GdtfArtNet()
+{
+}
+
+SceneData::GdtfArtNet::~GdtfArtNet()
+{
+	for(GdtfMapPtr map : fMaps) { delete map; }
+}
+
+const TGdtfMapArray& GdtfArtNet::GetMapArray()
+{
+	return fMaps;
+}
+
+GdtfMapPtr GdtfArtNet::CreateMap(Uint32 key, Uint32 value)
+{
+	GdtfMapPtr map = new GdtfMap(key, value);
+	fMaps.push_back(map);
+	return map;
+}
+
+void GdtfArtNet::OnPrintToFile(IXMLFileNodePtr pNode) 
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnPrintToFile(pNode);
+
+	for(GdtfMapPtr map : fMaps)
+	{
+		map->WriteToNode(pNode);
+	}
+}
+
+void GdtfArtNet::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnReadFromNode(pNode);
+
+	// Read the children
+    GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_MapNodeName, [this](IXMLFileNodePtr objNode) -> void
+    {
+		if ( CheckAbort() ) return;
+
+        GdtfMapPtr map = new GdtfMap();
+
+        map->ReadFromNode(objNode);
+
+        fMaps.push_back(map);
+
+        return;
+    });
+
+}
+
+EGdtfObjectType SceneData::GdtfArtNet::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfArtNet;
+}
+
+TXString SceneData::GdtfArtNet::GetNodeName()
+{
+	return XML_GDTF_ArtNet;
+}
+
+//------------------------------------------------------------------------------------
+// GdtfsAcn
+
+SceneData::GdtfsAcn::GdtfsAcn()
+{
+}
+
+SceneData::GdtfsAcn::~GdtfsAcn()
+{
+	for(GdtfMapPtr map : fMaps) { delete map; }
+}
+
+const TGdtfMapArray& GdtfsAcn::GetMapArray()
+{
+	return fMaps;
+}
+
+GdtfMapPtr GdtfsAcn::CreateMap(Uint32 key, Uint32 value)
+{
+	GdtfMapPtr map = new GdtfMap(key, value);
+	fMaps.push_back(map);
+	return map;
+}
+
+void GdtfsAcn::OnPrintToFile(IXMLFileNodePtr pNode) 
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnPrintToFile(pNode);
+
+	for(GdtfMapPtr map : fMaps)
+	{
+		map->WriteToNode(pNode);
+	}
+}
+
+void GdtfsAcn::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnReadFromNode(pNode);
+
+	// Read the children
+    GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_MapNodeName, [this](IXMLFileNodePtr objNode) -> void
+    {
+		if ( CheckAbort() ) return;
+
+        GdtfMapPtr map = new GdtfMap();
+
+        map->ReadFromNode(objNode);
+
+        fMaps.push_back(map);
+
+        return;
+    });
+
+}
+
+EGdtfObjectType SceneData::GdtfsAcn::GetObjectType()
+{
+	return EGdtfObjectType::eGdtf_sACN;
+}
+
+TXString SceneData::GdtfsAcn::GetNodeName()
+{
+	return XML_GDTF_sACN;
+}
+
+//------------------------------------------------------------------------------------
+// GdtfKiNET
+
+SceneData::GdtfKiNET::GdtfKiNET()
+{
+}
+
+SceneData::GdtfKiNET::~GdtfKiNET()
+{
+}
+
+EGdtfObjectType SceneData::GdtfKiNET::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfKiNET;
+}
+
+TXString SceneData::GdtfKiNET::GetNodeName()
+{
+	return XML_GDTF_KiNET;
+}
+
+//------------------------------------------------------------------------------------
+// GdtfPosiStageNet
+
+SceneData::GdtfPosiStageNet::GdtfPosiStageNet()
+{
+}
+
+SceneData::GdtfPosiStageNet::~GdtfPosiStageNet()
+{
+}
+
+EGdtfObjectType SceneData::GdtfPosiStageNet::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfPosiStageNet;
+}
+
+TXString SceneData::GdtfPosiStageNet::GetNodeName()
+{
+	return XML_GDTF_PosiStageNet;
+}
+
+//------------------------------------------------------------------------------------
+// GdtfOpenSoundControl
+
+SceneData::GdtfOpenSoundControl::GdtfOpenSoundControl()
+{
+}
+
+SceneData::GdtfOpenSoundControl::~GdtfOpenSoundControl()
+{
+}
+
+EGdtfObjectType SceneData::GdtfOpenSoundControl::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfOpenSoundControl;
+}
+
+TXString SceneData::GdtfOpenSoundControl::GetNodeName()
+{
+	return XML_GDTF_OpenSoundControl;
+}
+
+//------------------------------------------------------------------------------------
+// GdtfCITP
+
+SceneData::GdtfCITP::GdtfCITP()
+{
+}
+
+SceneData::GdtfCITP::~GdtfCITP()
+{
+}
+
+EGdtfObjectType SceneData::GdtfCITP::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfCITP;
+}
+
+TXString SceneData::GdtfCITP::GetNodeName()
+{
+	return XML_GDTF_CITP;
+}
+
+//------------------------------------------------------------------------------------
+// GdtfMacroDMX
+
+SceneData::GdtfMacroDMX::GdtfMacroDMX()
+{
+}
+
+SceneData::GdtfMacroDMX::~GdtfMacroDMX()
+{
+}
+
+EGdtfObjectType SceneData::GdtfMacroDMX::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfMacroDMX;
+}
+
+TGdtfMacroDMXStepArray SceneData::GdtfMacroDMX::GetStepArray()
+{
+	return fDMXSetps;
+}
+
+GdtfMacroDMXStepPtr SceneData::GdtfMacroDMX::AddDmxStep(double& duration)
+{
+	GdtfMacroDMXStepPtr dmxStep = new GdtfMacroDMXStep(duration);
+	fDMXSetps.push_back(dmxStep);
+	
+	return dmxStep;
+}
+
+TXString SceneData::GdtfMacroDMX::GetNodeName()
+{
+	return XML_GDTF_MacroDMX;
+}
+
+void SceneData::GdtfMacroDMX::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnPrintToFile(pNode);
+	
+	//------------------------------------------------------------------------------------
+	// Print the attributes
+	// -
+	//------------------------------------------------------------------------------------
+	// Print the childs
+	for (GdtfMacroDMXStep* dmxStep : fDMXSetps)
+	{
+		dmxStep->WriteToNode(pNode);
+	}
+}
+
+void SceneData::GdtfMacroDMX::OnReadFromNode(const IXMLFileNodePtr & pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnReadFromNode(pNode);
+	
+	//------------------------------------------------------------------------------------
+	// Get the attributes
+	// -
+	// Read the childs
+	GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_MacroDMXStep, [this](IXMLFileNodePtr objNode) -> void
+								 {
+									 if ( CheckAbort() ) return;
+									 GdtfMacroDMXStepPtr  dmxStep = new GdtfMacroDMXStep();
+									 
+									 dmxStep->ReadFromNode(objNode);
+									 
+									 fDMXSetps.push_back(dmxStep);
+									 return;
+								 });
+}
+
+SceneData::GdtfMacroDMXValue::GdtfMacroDMXValue()
+{
+	fDMXChannel = nullptr;
+}
+
+SceneData::GdtfMacroDMXValue::GdtfMacroDMXValue(DmxValue dmxVal, GdtfDmxChannelPtr dmxChannel)
+{
+	fValue = dmxVal;
+	funresolvedDMXChannel = "";
+	fDMXChannel = dmxChannel;
+}
+
+SceneData::GdtfMacroDMXValue::~GdtfMacroDMXValue()
+{
+	if (fDMXChannel) { delete fDMXChannel; }
+}
+
+SceneData::GdtfMacroDMXStep::GdtfMacroDMXStep()
+{
+}
+
+SceneData::GdtfMacroDMXStep::GdtfMacroDMXStep(double duration)
+{
+	fDuration = duration;
+}
+
+SceneData::GdtfMacroDMXStep::~GdtfMacroDMXStep()
+{
+}
+
+EGdtfObjectType SceneData::GdtfMacroDMXStep::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfMacroDMXStep;
+}
+
+double SceneData::GdtfMacroDMXStep::GetDuration() const
+{
+	return fDuration;
+}
+
+TGdtfMacroDMXValueArray SceneData::GdtfMacroDMXStep::GetDMXValueArray() const
+{
+	return fDMXValues;
+}
+
+void SceneData::GdtfMacroDMXStep::SetDuration(double d)
+{
+	fDuration = d;
+}
+
+GdtfMacroDMXValuePtr SceneData::GdtfMacroDMXStep::AddDmxValue(DmxValue dmxVal, GdtfDmxChannelPtr dmxChannel)
+{
+	GdtfMacroDMXValuePtr val = new GdtfMacroDMXValue(dmxVal, dmxChannel);
+	fDMXValues.push_back(val);
+	
+	return val;
+}
+
+TXString SceneData::GdtfMacroDMXStep::GetNodeName()
+{
+	return XML_GDTF_MacroDMXStep;
+}
+
+void SceneData::GdtfMacroDMXStep::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnPrintToFile(pNode);
+	
+	//------------------------------------------------------------------------------------
+	// Print the attributes
+	pNode->SetNodeAttributeValue(XML_GDTF_MacroDMXStepDuration, GdtfConverter::ConvertDouble(fDuration) );
+	
+	//------------------------------------------------------------------------------------
+	// Print the childs
+	for (GdtfMacroDMXValuePtr dmxVal : fDMXValues)
+	{
+		dmxVal->WriteToNode(pNode);
+	}
+}
+
+void SceneData::GdtfMacroDMXStep::OnReadFromNode(const IXMLFileNodePtr & pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnReadFromNode(pNode);
+	//------------------------------------------------------------------------------------
+	// Get the attributes
+	TXString durationStr;
+	pNode->GetNodeAttributeValue(XML_GDTF_MacroDMXStepDuration, durationStr);
+	GdtfConverter::ConvertDouble(durationStr, pNode, fDuration);
+	// Read the childs
+	GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_MacroDMXValue, [this](IXMLFileNodePtr objNode) -> void
+								 {
+									 if ( CheckAbort() ) return;
+									 GdtfMacroDMXValuePtr dmxValue= new GdtfMacroDMXValue();
+									 
+									 dmxValue->ReadFromNode(objNode);
+									 
+									 fDMXValues.push_back(dmxValue);
+									 return;
+								 });
+}
+
+void SceneData::GdtfMacroDMXStep::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	optional.push_back(XML_GDTF_MacroDMXStepDuration);
+
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType SceneData::GdtfMacroDMXValue::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfMacroDMXValue;
+}
+
+const TXString & SceneData::GdtfMacroDMXValue::GetUnresolvedDMXValue() const
+{
+	return funresolvedValue;
+}
+
+DmxValue SceneData::GdtfMacroDMXValue::GetValue() const
+{
+	return fValue;
+}
+
+const TXString & SceneData::GdtfMacroDMXValue::GetUnresolvedDMXChannel() const
+{
+	return funresolvedDMXChannel;
+}
+
+GdtfDmxChannelPtr SceneData::GdtfMacroDMXValue::GetDMXChannel() const
+{
+	return fDMXChannel;
+}
+
+void SceneData::GdtfMacroDMXValue::SetValue(DmxValue val)
+{
+	fValue = val;
+}
+
+void SceneData::GdtfMacroDMXValue::SetDMXChannel(GdtfDmxChannelPtr chnl)
+{
+	fDMXChannel = chnl;
+}
+
+TXString SceneData::GdtfMacroDMXValue::GetNodeName()
+{
+	return XML_GDTF_MacroDMXValue;
+}
+
+void SceneData::GdtfMacroDMXValue::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnPrintToFile(pNode);
+
+	EGdtfChannelBitResolution resolution = EGdtfChannelBitResolution::eGdtfChannelBitResolution_8;
+	ASSERTN(kEveryone, fDMXChannel != nullptr);
+	if(fDMXChannel)
+	{
+		resolution = fDMXChannel->GetChannelBitResolution();
+	}
+
+	//------------------------------------------------------------------------------------
+	// Print the attributes
+	pNode->SetNodeAttributeValue(XML_GDTF_MacroDMXValue_AttrValue, GdtfConverter::ConvertDMXValue(fValue, resolution));
+	//
+	pNode->SetNodeAttributeValue(XML_GDTF_MacroDMXValue_AttrChannel, fDMXChannel->GetNodeReference() );
+}
+
+void SceneData::GdtfMacroDMXValue::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnReadFromNode(pNode);	
+	//------------------------------------------------------------------------------------
+	// Get the attributes
+	pNode->GetNodeAttributeValue(XML_GDTF_MacroDMXValue_AttrValue, funresolvedValue);
+	//
+	pNode->GetNodeAttributeValue(XML_GDTF_MacroDMXValue_AttrChannel, funresolvedDMXChannel);
+}
+
+void SceneData::GdtfMacroDMXValue::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_MacroDMXValue_AttrValue);
+	needed.push_back(XML_GDTF_MacroDMXValue_AttrChannel);
+
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+SceneData::GdtfMacroVisual::GdtfMacroVisual()
+{
+}
+
+SceneData::GdtfMacroVisual::~GdtfMacroVisual()
+{
+
+}
+
+EGdtfObjectType SceneData::GdtfMacroVisual::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfMacroVisual;
+}
+
+TGdtfMacroVisualStepArray SceneData::GdtfMacroVisual::GetVisualStepArray()
+{
+	return fVisualSteps;
+}
+
+GdtfMacroVisualStepPtr SceneData::GdtfMacroVisual::AddVisualStep()
+{
+	GdtfMacroVisualStepPtr visuealStep = new GdtfMacroVisualStep();
+	fVisualSteps.push_back(visuealStep);
+	
+	return visuealStep;
+}
+
+TXString SceneData::GdtfMacroVisual::GetNodeName()
+{
+	return XML_GDTF_MacroVisual;
+}
+
+void SceneData::GdtfMacroVisual::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnPrintToFile(pNode);
+	
+	//------------------------------------------------------------------------------------
+	// Print the attributes
+	// -
+	//------------------------------------------------------------------------------------
+	// Print the childs
+	for (GdtfMacroVisualStepPtr visualStep : fVisualSteps)
+	{
+		visualStep->WriteToNode(pNode);
+	}
+}
+
+void SceneData::GdtfMacroVisual::OnReadFromNode(const IXMLFileNodePtr & pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnReadFromNode(pNode);
+	
+	//------------------------------------------------------------------------------------
+	// Get the attributes
+	// -
+	// Read the childs
+	GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_MacroVisualStep, [this](IXMLFileNodePtr objNode) -> void
+								 {
+									 if ( CheckAbort() ) return;
+									 GdtfMacroVisualStepPtr macroVisual= new GdtfMacroVisualStep();
+									 
+									 macroVisual->ReadFromNode(objNode);
+									 
+									 fVisualSteps.push_back(macroVisual);
+									 return;
+								 });
+}
+
+SceneData::GdtfMacroVisualStep::GdtfMacroVisualStep()
+{
+	fDuration = 1; // Default value: 1; Size 1 byte; Unit: DMX frame.
+	fFade = 0;     // Default value: 0.0. Unit: milliseconds.
+	fDelay = 0;    // Default value: 0.0. Unit: milliseconds.
+}
+
+SceneData::GdtfMacroVisualStep::~GdtfMacroVisualStep()
+{
+	for(const auto& i: fVisualValues){ delete i; }
+}
+
+TGdtfMacroVisualValueArray SceneData::GdtfMacroVisualStep::GetVisualValueArray()
+{
+	return fVisualValues;
+}
+
+EGdtfObjectType SceneData::GdtfMacroVisualStep::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfMacroVisualStep;
+}
+
+double SceneData::GdtfMacroVisualStep::getDuration()
+{
+	return fDuration;
+}
+
+double SceneData::GdtfMacroVisualStep::getFade()
+{
+	return fFade;
+}
+
+double SceneData::GdtfMacroVisualStep::getDelay()
+{
+	return fDelay;
+}
+
+void SceneData::GdtfMacroVisualStep::setDuration(double d)
+{
+	fDuration = d;
+}
+
+void SceneData::GdtfMacroVisualStep::setFade(double f)
+{
+	fFade = f;
+}
+
+void SceneData::GdtfMacroVisualStep::setDelay(double d)
+{
+	fDelay = d;
+}
+
+GdtfMacroVisualValue* SceneData::GdtfMacroVisualStep::AddVisualValue(DmxValue& dmxVal, GdtfDmxChannelFunctionPtr channelFunctionRef)
+{
+	GdtfMacroVisualValue* val = new GdtfMacroVisualValue(dmxVal, channelFunctionRef);
+	
+	fVisualValues.push_back(val);
+	
+	return val;
+}
+
+TXString SceneData::GdtfMacroVisualStep::GetNodeName()
+{
+	return XML_GDTF_MacroVisualStep;
+}
+
+void SceneData::GdtfMacroVisualStep::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnPrintToFile(pNode);
+	
+	//------------------------------------------------------------------------------------
+	// Print the attributes
+	pNode->SetNodeAttributeValue(XML_GDTF_MacroVisualStep_AttrDuration, GdtfConverter::ConvertDouble(fDuration));
+	pNode->SetNodeAttributeValue(XML_GDTF_MacroVisualStep_AttrFade,     GdtfConverter::ConvertDouble (fFade));
+	pNode->SetNodeAttributeValue(XML_GDTF_MacroVisualStep_AttrDelay,    GdtfConverter::ConvertDouble (fDelay));
+	
+	//------------------------------------------------------------------------------------
+	// Print the childs
+	for (GdtfMacroVisualValuePtr visualVal : fVisualValues)
+	{
+		visualVal->WriteToNode(pNode);
+	}
+}
+
+void SceneData::GdtfMacroVisualStep::OnReadFromNode(const IXMLFileNodePtr & pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnReadFromNode(pNode);
+	
+	//------------------------------------------------------------------------------------
+	// Get the attributes
+	TXString durationStr; pNode->GetNodeAttributeValue(XML_GDTF_MacroVisualStep_AttrDuration, durationStr);
+	GdtfConverter::ConvertDouble(durationStr, pNode, fDuration);
+	TXString fadeStr;     pNode->GetNodeAttributeValue(XML_GDTF_MacroVisualStep_AttrFade, fadeStr);
+	GdtfConverter::ConvertDouble(fadeStr, pNode, fFade);
+	TXString delayStr;    pNode->GetNodeAttributeValue(XML_GDTF_MacroVisualStep_AttrDelay, delayStr);
+	GdtfConverter::ConvertDouble(delayStr, pNode, fDelay);
+	
+	// Read the childs
+	GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_MacroVisualValue, [this](IXMLFileNodePtr objNode) -> void
+								 {
+									 if ( CheckAbort() ) return;
+									 GdtfMacroVisualValuePtr visuealVal = new GdtfMacroVisualValue();
+									 
+									 visuealVal->ReadFromNode(objNode);
+									 
+									 fVisualValues.push_back(visuealVal);
+									 return;
+								 });
+}
+
+void SceneData::GdtfMacroVisualStep::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	optional.push_back(XML_GDTF_MacroVisualStep_AttrDuration);
+	optional.push_back(XML_GDTF_MacroVisualStep_AttrFade);
+	optional.push_back(XML_GDTF_MacroVisualStep_AttrDelay);
+
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+SceneData::GdtfMacroVisualValue::GdtfMacroVisualValue()
+{
+	fChannelFunctionRef = nullptr;
+}
+
+SceneData::GdtfMacroVisualValue::GdtfMacroVisualValue(DmxValue dmxVal, GdtfDmxChannelFunctionPtr channelFunctionRef)
+{
+	fDmxValue = dmxVal;
+	fChannelFunctionRef = channelFunctionRef;
+}
+
+SceneData::GdtfMacroVisualValue::~GdtfMacroVisualValue()
+{
+	if (fChannelFunctionRef) { delete fChannelFunctionRef; }
+}
+
+EGdtfObjectType SceneData::GdtfMacroVisualValue::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfMacroVisualValue;
+}
+
+const TXString & SceneData::GdtfMacroVisualValue::GetUnresolvedDMXValue() const
+{
+	return funresolvedValue;
+}
+
+DmxValue SceneData::GdtfMacroVisualValue::GetDmxValue() const
+{
+	return fDmxValue;
+}
+
+const TXString & SceneData::GdtfMacroVisualValue::GetUnresolvedChannelFunctionRef() const
+{
+	return fUnresolvedChannelFunctionRef;
+}
+
+GdtfDmxChannelFunctionPtr SceneData::GdtfMacroVisualValue::GetChannelFunctionRef() const
+{
+	return fChannelFunctionRef;
+}
+
+void SceneData::GdtfMacroVisualValue::SetDmxValue(DmxValue val)
+{
+	fDmxValue = val;
+}
+
+void SceneData::GdtfMacroVisualValue::SetUnresolvedChannelFunctionRef(const TXString& ref)
+{
+	fUnresolvedChannelFunctionRef = ref;
+}
+
+void SceneData::GdtfMacroVisualValue::SetChannelFunction(GdtfDmxChannelFunctionPtr ref)
+{
+	fChannelFunctionRef = ref;
+}
+
+TXString SceneData::GdtfMacroVisualValue::GetNodeName()
+{
+	return XML_GDTF_MacroVisualValue;
+}
+
+void SceneData::GdtfMacroVisualValue::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnPrintToFile(pNode);
+
+	EGdtfChannelBitResolution resolution = EGdtfChannelBitResolution::eGdtfChannelBitResolution_8;
+	ASSERTN(kEveryone, fChannelFunctionRef != nullptr);
+	if(fChannelFunctionRef) {resolution = fChannelFunctionRef->GetParentDMXChannel()->GetChannelBitResolution(); }
+	
+	//------------------------------------------------------------------------------------
+	// Print the attributes
+	pNode->SetNodeAttributeValue(XML_GDTF_MacroVisualValue_AttrValue, GdtfConverter::ConvertDMXValue(fDmxValue, resolution));
+	pNode->SetNodeAttributeValue(XML_GDTF_MacroVisualValue_AttrChanFunc, fChannelFunctionRef->GetNodeReference() );
+}
+
+void SceneData::GdtfMacroVisualValue::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnReadFromNode(pNode);
+
+	pNode->GetNodeAttributeValue(XML_GDTF_MacroVisualValue_AttrValue, funresolvedValue);
+	//
+	pNode->GetNodeAttributeValue(XML_GDTF_MacroVisualValue_AttrChanFunc, fUnresolvedChannelFunctionRef);
+}
+
+void SceneData::GdtfMacroVisualValue::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_MacroVisualValue_AttrValue);
+	needed.push_back(XML_GDTF_MacroVisualValue_AttrChanFunc);
+
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+SceneData::GdtfSoftwareVersionID::GdtfSoftwareVersionID()
+{
+    fValue = 0;
+}
+
+SceneData::GdtfSoftwareVersionID::GdtfSoftwareVersionID(size_t value)
+{
+    fValue = value;
+}
+
+SceneData::GdtfSoftwareVersionID::~GdtfSoftwareVersionID()
+{
+     for (GdtfDMXPersonalityPtr obj		: fDmxPersonalityArray){ delete obj; }
+}
+
+EGdtfObjectType SceneData::GdtfSoftwareVersionID::GetObjectType()
+{
+    return EGdtfObjectType::eGdtfSoftwareVersionID;
+}
+
+size_t SceneData::GdtfSoftwareVersionID::GetValue() const
+{
+    return fValue;
+}
+
+const TGdtfDMXPersonalityArray& SceneData::GdtfSoftwareVersionID::GetDMXPersonalityArray()
+{
+    return fDmxPersonalityArray;
+}
+
+void SceneData::GdtfSoftwareVersionID::SetValue(size_t val)
+{
+    fValue = val;
+}
+
+GdtfDMXPersonalityPtr SceneData::GdtfSoftwareVersionID::AddDMXPersonality(size_t value, GdtfDmxModePtr dmxMode)
+{
+    GdtfDMXPersonalityPtr dmxPerso = new GdtfDMXPersonality(value, dmxMode);
+    fDmxPersonalityArray.push_back(dmxPerso);
+
+    return dmxPerso;
+}
+
+TXString SceneData::GdtfSoftwareVersionID::GetNodeName()
+{
+    return XML_GDTF_SoftwareVersionID_NodeNam;
+}
+
+void SceneData::GdtfSoftwareVersionID::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+    //------------------------------------------------------------------------------------
+    // Call the parent
+    GdtfObject::OnPrintToFile(pNode);
+
+    //------------------------------------------------------------------------------------
+    // Print the attributes
+    pNode->SetNodeAttributeValue(XML_GDTF_SoftwareVersionID_Value, GdtfConverter::ConvertHexValue(fValue));
+
+    //------------------------------------------------------------------------------------
+    // Print the childs
+    for (GdtfDMXPersonalityPtr dmxPerso: fDmxPersonalityArray)
+    {
+        dmxPerso->WriteToNode(pNode);
+    }
+}
+
+void SceneData::GdtfSoftwareVersionID::OnReadFromNode(const IXMLFileNodePtr & pNode)
+{
+    //------------------------------------------------------------------------------------
+    // Call the parent
+    GdtfObject::OnReadFromNode(pNode);
+
+    //------------------------------------------------------------------------------------
+    // Get the attributes
+    TXString valueStr; pNode->GetNodeAttributeValue(XML_GDTF_SoftwareVersionID_Value, valueStr);
+    GdtfConverter::ConvertHexValue( valueStr, pNode, fValue);
+
+    // Read the childs
+    GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_DMXPersonalityNodeNam, [this](IXMLFileNodePtr objNode) -> void
+    {
+		if ( CheckAbort() ) return;
+        GdtfDMXPersonalityPtr dmxPerso = new GdtfDMXPersonality();
+
+        dmxPerso->ReadFromNode(objNode);
+
+        fDmxPersonalityArray.push_back(dmxPerso);
+        return;
+    });
+}
+
+//------------------------------------------------------------------------------------
+// GdtfGamut
+GdtfGamut::GdtfGamut()
+{
+}
+
+GdtfGamut::GdtfGamut(const TXString& name, CCieColorPtr color)
+{
+	fUniqueName = name;
+
+	fGamutPoints.push_back(color);
+}
+
+GdtfGamut::~GdtfGamut()
+{
+	for(CCieColorPtr color : fGamutPoints) { delete color; }
+}
+
+const TXString&	GdtfGamut::GetName() const
+{
+	return fUniqueName;
+}
+
+const TCCieColorArray& GdtfGamut::GetGamutPoints() const
+{
+	return fGamutPoints;
+}
+
+void GdtfGamut::SetName(const TXString& name)
+{
+	fUniqueName = name;
+}
+
+void GdtfGamut::AddGamutPoint(CCieColorPtr newPoint)
+{
+	fGamutPoints.push_back(newPoint);
+}
+
+void GdtfGamut::OnPrintToFile(IXMLFileNodePtr pNode) 
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnPrintToFile(pNode);
+
+	pNode->SetNodeAttributeValue(XML_GDTF_GamutName, 	fUniqueName);
+	pNode->SetNodeAttributeValue(XML_GDTF_GamutPoints,	GdtfConverter::ConvertColorArray(fGamutPoints));
+}
+
+void GdtfGamut::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnReadFromNode(pNode);
+
+							pNode->GetNodeAttributeValue(XML_GDTF_GamutName, fUniqueName);
+	TXString gamutPoints; 	pNode->GetNodeAttributeValue(XML_GDTF_GamutPoints, gamutPoints); GdtfConverter::ConvertColorArray(gamutPoints, pNode, fGamutPoints);
+}
+
+void GdtfGamut::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_GamutName);
+	needed.push_back(XML_GDTF_GamutPoints);
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfGamut::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfGamut;
+}
+
+TXString GdtfGamut::GetNodeName()
+{
+	return XML_GDTF_GamutNodeName;
+}
+
+TXString GdtfGamut::GetNodeReference()
+{
+	return fUniqueName;
+}
+
+//------------------------------------------------------------------------------------
+// GdtfPhysicalDescriptions
+
+SceneData::GdtfPhysicalDescriptions::GdtfPhysicalDescriptions()
+{
+	fOperatingTemperatureLow 	= 0.0;
+	fOperatingTemperatureHigh 	= 40.0;
+	fWeight 					= 0.0;
+	fLegHeight 					= 0.0;
+}
+
+SceneData::GdtfPhysicalDescriptions::~GdtfPhysicalDescriptions()
+{
+    for (GdtfColorSpace* 		o : fAdditionalColorSpaces)	{ delete o; }
+    for (GdtfGamut* 			o : fGamuts)				{ delete o; }
+    for (GdtfPhysicalEmitter* 	o : fEmitters)    			{ delete o; }
+    for (GdtfFilter*          	o : fFilters)     			{ delete o; }
+    for (GdtfDMXProfile*      	o : fDmxProfiles) 			{ delete o; }
+    for (GdtfCRIGroup*        	o : fCRI_Groups)  			{ delete o; }
+	for (GdtfConnector*       	o : fConnectors)  			{ delete o; }
+}
+
+EGdtfObjectType SceneData::GdtfPhysicalDescriptions::GetObjectType()
+{
+    return EGdtfObjectType::eGdtfPhysicalDescription;
+}
+
+GdtfColorSpace* SceneData::GdtfPhysicalDescriptions::GetColorSpace()
+{
+    return & fColorSpace;
+}
+
+const TGdtfColorSpaceArray& SceneData::GdtfPhysicalDescriptions::GetAdditionalColorSpaceArray()
+{
+    return fAdditionalColorSpaces;
+}
+
+const TGdtfGamutArray& SceneData::GdtfPhysicalDescriptions::GetGamutArray()
+{
+    return fGamuts;
+}
+
+const TGdtfPhysicalEmitterArray& SceneData::GdtfPhysicalDescriptions::GetPhysicalEmitterArray()
+{
+    return fEmitters;
+}
+
+const TGdtfFilterArray & SceneData::GdtfPhysicalDescriptions::GetFilterArray()
+{
+    return fFilters;
+}
+
+const TGdtfDMXProfileArray& SceneData::GdtfPhysicalDescriptions::GetDmxProfileArray()
+{
+    return fDmxProfiles;
+}
+
+const TGdtf_CRIGroupArray & SceneData::GdtfPhysicalDescriptions::GetCRIGroupArray()
+{
+    return fCRI_Groups;
+}
+
+const TGdtfConnectorArray & SceneData::GdtfPhysicalDescriptions::GetConnectorArray()
+{
+    return fConnectors;
+}
+
+double GdtfPhysicalDescriptions::GetOperatingTemperatureLow()
+{
+    return fOperatingTemperatureLow;
+}
+
+double GdtfPhysicalDescriptions::GetOperatingTemperatureHigh()
+{
+    return fOperatingTemperatureHigh;
+}
+
+double GdtfPhysicalDescriptions::GetWeight()
+{
+    return fWeight;
+}
+
+double GdtfPhysicalDescriptions::GetLegHeight()
+{
+    return fLegHeight;
+}
+
+void GdtfPhysicalDescriptions::SetOperatingTemperatureLow(double value)
+{
+	fOperatingTemperatureLow = value;
+}
+
+void GdtfPhysicalDescriptions::SetOperatingTemperatureHigh(double value)
+{
+	fOperatingTemperatureHigh = value;
+}
+
+void GdtfPhysicalDescriptions::SetWeight(double value)
+{
+	fWeight = value;
+}
+
+void GdtfPhysicalDescriptions::SetLegHeight(double value)
+{
+	fLegHeight = value;
+}
+
+GdtfColorSpacePtr SceneData::GdtfPhysicalDescriptions::AddAdditionalColorSpace(const TXString & name, EGdtfColorSpace colorSpace)
+{
+	GdtfColorSpacePtr gdtfColorSpace = new GdtfColorSpace(name, colorSpace);
+	
+	fAdditionalColorSpaces.push_back(gdtfColorSpace);
+	
+	return gdtfColorSpace;
+}
+
+GdtfGamutPtr SceneData::GdtfPhysicalDescriptions::AddGamut(const TXString & name, CCieColorPtr color)
+{
+	GdtfGamutPtr gdtfGamut = new GdtfGamut(name, color);
+	
+	fGamuts.push_back(gdtfGamut);
+	
+	return gdtfGamut;
+}
+
+GdtfPhysicalEmitterPtr SceneData::GdtfPhysicalDescriptions::AddEmitter(const TXString & name, CCieColor color)
+{
+	GdtfPhysicalEmitterPtr emitter = new  GdtfPhysicalEmitter(name, color);
+	
+	fEmitters.push_back(emitter);
+	
+	return emitter;
+}
+
+GdtfFilterPtr SceneData::GdtfPhysicalDescriptions::AddFilter(const TXString& name, CCieColor color)
+{
+    GdtfFilterPtr filter = new GdtfFilter(name, color);
+
+    fFilters.push_back(filter);
+
+    return filter;
+}
+
+GdtfDMXProfilePtr SceneData::GdtfPhysicalDescriptions::AddDmxProfile()
+{
+    GdtfDMXProfilePtr dmxProf = new GdtfDMXProfile();
+    
+    fDmxProfiles.push_back(dmxProf);
+    
+    return dmxProf;
+}
+
+GdtfCRIGroupPtr SceneData::GdtfPhysicalDescriptions::AddCRIGroup(double colorTsemp)
+{
+    GdtfCRIGroupPtr criGroup = new GdtfCRIGroup(colorTsemp);
+    fCRI_Groups.push_back(criGroup);
+
+    return criGroup;
+}
+
+GdtfConnectorPtr SceneData::GdtfPhysicalDescriptions::AddConnector(const TXString& name,  const TXString& type)
+{
+    GdtfConnectorPtr connector = new GdtfConnector(name, type);
+    fConnectors.push_back(connector);
+
+    return connector;
+}
+
+TXString SceneData::GdtfPhysicalDescriptions::GetNodeName()
+{
+    return XML_GDTF_FixtureChildNodePhysicalDesrip;
+}
+
+void SceneData::GdtfPhysicalDescriptions::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+    //------------------------------------------------------------------------------------
+    // Call the parent
+    GdtfObject::OnPrintToFile(pNode);
+    
+    //------------------------------------------------------------------------------------
+    // Print the attributes        
+    fColorSpace.WriteToNode(pNode);
+
+	// Print AdditionalColorSpaces (physicalDescription child)
+	IXMLFileNodePtr additionalColorSpaceGroupNode;
+	if (VCOM_SUCCEEDED(pNode->CreateChildNode(XML_GDTF_PhysicalDescriptionsColorSpaceCollect, & additionalColorSpaceGroupNode)))
+	{
+		for (GdtfColorSpacePtr colorSpace : fAdditionalColorSpaces)
+		{
+			colorSpace->WriteToNode(additionalColorSpaceGroupNode);
+		}
+	}
+
+	// Print Gamuts (physicalDescription child)
+	IXMLFileNodePtr gamutsGroupNode;
+	if (VCOM_SUCCEEDED(pNode->CreateChildNode(XML_GDTF_PhysicalDescriptionsGamutCollect, & gamutsGroupNode)))
+	{
+		for (GdtfGamutPtr gamut : fGamuts)
+		{
+			gamut->WriteToNode(gamutsGroupNode);
+		}
+	}
+    
+    //------------------------------------------------------------------------------------
+    // Print Filter        
+    IXMLFileNodePtr filtersGroupNode;
+    if (VCOM_SUCCEEDED(pNode->CreateChildNode(XML_GDTF_FiltersCollect, &filtersGroupNode))) 
+    {
+        for (GdtfFilter* filter : fFilters)
+        {
+            filter->WriteToNode(filtersGroupNode);
+        }
+    }
+    
+    // Print Emitters (physicalDescription child)
+	IXMLFileNodePtr emittersGroupNode;
+	if (VCOM_SUCCEEDED(pNode->CreateChildNode(XML_GDTF_PhysicalDescriptionsEmitterCollect, & emittersGroupNode)))
+	{
+		for (GdtfPhysicalEmitterPtr emitter : fEmitters)
+		{
+			emitter->WriteToNode(emittersGroupNode);
+		}
+	}
+		
+	// Print DmxProfiles (physicalDescription child)
+	IXMLFileNodePtr dmxProfGroupNode;
+	if (VCOM_SUCCEEDED(pNode->CreateChildNode(XML_GDTF_DMX_ProfileCollect, &dmxProfGroupNode)))
+	{
+		for (GdtfDMXProfilePtr dmxProfile : fDmxProfiles)
+		{
+			dmxProfile->WriteToNode(dmxProfGroupNode);
+		}
+	}
+		
+	// CRI_Collect (PhysicalDescription child)
+	IXMLFileNodePtr CRI_CollectNode;
+	if (VCOM_SUCCEEDED(pNode->CreateChildNode(XML_GDTF_ColorRenderingIndexCollect, &CRI_CollectNode)))
+	{
+		for (GdtfCRIGroupPtr criGroup : fCRI_Groups)
+		{
+			criGroup->WriteToNode(CRI_CollectNode);
+		}
+		
+	}
+
+	// Print Connectors (physicalDescription child)
+	IXMLFileNodePtr ConnectorNode;
+	if (VCOM_SUCCEEDED(pNode->CreateChildNode(XML_GDTF_ConnectorCollect, &ConnectorNode)))
+	{
+		for (GdtfConnectorPtr connector : fConnectors)
+		{
+			connector->WriteToNode(ConnectorNode);
+		}
+		
+	}
+
+	// Print Properties (physicalDescription child)
+	IXMLFileNodePtr PropertiesNode;
+	if (VCOM_SUCCEEDED(pNode->CreateChildNode(XML_GDTF_PropertiesCollect, &PropertiesNode)))
+	{
+		IXMLFileNodePtr OperatingTemperatureNode;
+		if(VCOM_SUCCEEDED(PropertiesNode->CreateChildNode(XML_GDTF_OperatingTemperatureNodeName, &OperatingTemperatureNode)))
+		{
+			OperatingTemperatureNode->SetNodeAttributeValue(XML_GDTF_OperatingTemperatureLow,	GdtfConverter::ConvertDouble(fOperatingTemperatureLow));
+			OperatingTemperatureNode->SetNodeAttributeValue(XML_GDTF_OperatingTemperatureHigh, GdtfConverter::ConvertDouble(fOperatingTemperatureHigh));
+		}
+
+		IXMLFileNodePtr WeightNode;
+		if(VCOM_SUCCEEDED(PropertiesNode->CreateChildNode(XML_GDTF_WeightNodeName, &WeightNode)))
+		{
+			WeightNode->SetNodeAttributeValue(XML_GDTF_WeightValue,	GdtfConverter::ConvertDouble(fWeight));
+		}
+
+		IXMLFileNodePtr LegHeightNode;
+		if(VCOM_SUCCEEDED(PropertiesNode->CreateChildNode(XML_GDTF_LegHeightNodeName, &LegHeightNode)))
+		{
+			LegHeightNode->SetNodeAttributeValue(XML_GDTF_LegHeightValue,	GdtfConverter::ConvertDouble(fLegHeight));
+		}
+
+	}
+
+}
+
+void SceneData::GdtfPhysicalDescriptions::OnReadFromNode(const IXMLFileNodePtr & pNode)
+{
+	IXMLFileNodePtr colorSpace;
+	if(VCOM_SUCCEEDED(pNode->GetChildNode(XML_GDTF_ColorSpaceNode, & colorSpace)))
+	{
+		fColorSpace.ReadFromNode(colorSpace);
+	}
+
+	// ------------------------------------------------------------------------------------
+	// Read AdditionalColorSpaces (PhysicalDescription Child)
+	GdtfConverter::TraverseNodes(pNode, XML_GDTF_PhysicalDescriptionsColorSpaceCollect, XML_GDTF_ColorSpaceNode, [this] (IXMLFileNodePtr objNode) -> void
+									{
+										if ( CheckAbort() ) return;
+										// Create the object
+										GdtfColorSpacePtr colorSpace = new GdtfColorSpace();
+										 
+										// Read from node
+										colorSpace->ReadFromNode(objNode);
+										 
+										// Add to list
+										fAdditionalColorSpaces.push_back(colorSpace);
+										return;
+									});
+	
+	// Read Gamuts (PhysicalDescription Child)
+	GdtfConverter::TraverseNodes(pNode, XML_GDTF_PhysicalDescriptionsGamutCollect, XML_GDTF_GamutNodeName, [this] (IXMLFileNodePtr objNode) -> void
+									{
+										if ( CheckAbort() ) return;	
+										// Create the object
+										GdtfGamutPtr gamut = new GdtfGamut();
+										 
+										// Read from node
+										gamut->ReadFromNode(objNode);
+										 
+										// Add to list
+										fGamuts.push_back(gamut);
+										return;
+									});
+
+	// Read Filters
+	GdtfConverter::TraverseNodes(pNode, XML_GDTF_FiltersCollect, XML_GDTF_FilterNode, [this] (IXMLFileNodePtr objNode) -> void
+									{
+										if ( CheckAbort() ) return;
+										// Create the object
+										GdtfFilterPtr filter = new GdtfFilter();
+										 
+										// Read from node
+										filter->ReadFromNode(objNode);
+										 
+										// Add to list
+										fFilters.push_back(filter);
+										return;
+									});
+
+    // Read Emitters (PhysicalDescription Child)
+	GdtfConverter::TraverseNodes(pNode, XML_GDTF_PhysicalDescriptionsEmitterCollect, XML_GDTF_EmitterNodeName, [this] (IXMLFileNodePtr objNode) -> void
+									{
+										if ( CheckAbort() ) return;
+										// Create the object
+										GdtfPhysicalEmitterPtr emitter = new GdtfPhysicalEmitter();
+										 
+										// Read from node
+										emitter->ReadFromNode(objNode);
+										 
+										// Add to list
+										fEmitters.push_back(emitter);
+										return;
+									});
+    // Read DmxProfiles (PhysicalDescription Child) 
+    GdtfConverter::TraverseNodes(pNode, XML_GDTF_DMX_ProfileCollect, XML_GDTF_DMX_Profile, [this](IXMLFileNodePtr objNode) -> void
+    {
+		if ( CheckAbort() ) return;
+        // Create the object
+        GdtfDMXProfilePtr dmxProfile = new GdtfDMXProfile();
+
+        // Read from node
+        dmxProfile->ReadFromNode(objNode);
+
+        // Add to list
+        fDmxProfiles.push_back(dmxProfile);
+        return;
+    });
+		
+	// ------------------------------------------------------------------------------------
+    // Read CRIs
+	GdtfConverter::TraverseNodes(pNode, XML_GDTF_ColorRenderingIndexCollect, XML_GDTF_ColorRenderingIndexGroup, [this](IXMLFileNodePtr objNode) -> void
+									{
+										if ( CheckAbort() ) return;
+										GdtfCRIGroupPtr criGroup = new GdtfCRIGroup();
+											
+										// Read from node
+										criGroup->ReadFromNode(objNode);
+											
+										fCRI_Groups.push_back(criGroup);
+										return;
+									});
+	
+	// Read Connectors (PhysicalDescription Child)
+	GdtfConverter::TraverseNodes(pNode, XML_GDTF_ConnectorCollect, XML_GDTF_ConnectorNodeName, [this] (IXMLFileNodePtr objNode) -> void
+									{
+										if ( CheckAbort() ) return;
+										// Create the object
+										GdtfConnectorPtr connector = new GdtfConnector();
+										 
+										// Read from node
+										connector->ReadFromNode(objNode);
+										 
+										// Add to list
+										fConnectors.push_back(connector);
+										return;
+									});
+	
+	// Read Properties (PhysicalDescription Child)
+	
+	IXMLFileNodePtr PropertiesNode;
+	if(VCOM_SUCCEEDED(pNode->GetChildNode(XML_GDTF_PropertiesCollect, & PropertiesNode)))
+	{
+		//OperatingTemperature
+		IXMLFileNodePtr OperatingTemperatureNode;
+		PropertiesNode->GetChildNode(XML_GDTF_OperatingTemperatureNodeName, &OperatingTemperatureNode);
+		if(OperatingTemperatureNode != nullptr)
+		{
+			TXString operatingTemperatureLowStr; OperatingTemperatureNode->GetNodeAttributeValue(XML_GDTF_OperatingTemperatureLow, operatingTemperatureLowStr);
+			GdtfConverter::ConvertDouble(operatingTemperatureLowStr, OperatingTemperatureNode, fOperatingTemperatureLow);
+
+			TXString operatingTemperatureHighStr; OperatingTemperatureNode->GetNodeAttributeValue(XML_GDTF_OperatingTemperatureHigh, operatingTemperatureHighStr);
+			GdtfConverter::ConvertDouble(operatingTemperatureHighStr, OperatingTemperatureNode, fOperatingTemperatureHigh);	
+		}
+
+		//Weight
+		IXMLFileNodePtr WeightNode;
+		PropertiesNode->GetChildNode(XML_GDTF_WeightNodeName, &WeightNode);
+		if(WeightNode != nullptr)
+		{
+			TXString weightStr; WeightNode->GetNodeAttributeValue(XML_GDTF_WeightValue, weightStr);
+			GdtfConverter::ConvertDouble(weightStr, WeightNode, fWeight);	
+		}
+
+		//LegHeight
+		IXMLFileNodePtr LegHeightNode;
+		PropertiesNode->GetChildNode(XML_GDTF_LegHeightNodeName, &LegHeightNode);
+		if(LegHeightNode != nullptr)
+		{
+			TXString legHeightStr; LegHeightNode->GetNodeAttributeValue(XML_GDTF_LegHeightValue, legHeightStr);
+			GdtfConverter::ConvertDouble(legHeightStr, LegHeightNode, fLegHeight);	
+		}
+	}
+	
+}
+
+SceneData::GdtfColorSpace::GdtfColorSpace()
+{
+	fUniqueName = "";
+    fColorSpace = EGdtfColorSpace::sRGB;
+}
+
+SceneData::GdtfColorSpace::GdtfColorSpace(const TXString& name, EGdtfColorSpace colorSpace)
+{
+	fUniqueName = name;
+    fColorSpace = colorSpace;
+}
+
+SceneData::GdtfColorSpace::~GdtfColorSpace()
+{
+}
+
+EGdtfObjectType SceneData::GdtfColorSpace::GetObjectType()
+{
+    return EGdtfObjectType::eGdtfColorSpace;
+}
+
+TXString SceneData::GdtfColorSpace::GetNodeReference()
+{
+	return fUniqueName;
+}
+
+const TXString& SceneData::GdtfColorSpace::GetName() const
+{
+	return fUniqueName;
+}
+
+EGdtfColorSpace SceneData::GdtfColorSpace::GetColorSpace()
+{
+    return fColorSpace;
+}
+
+CCieColor SceneData::GdtfColorSpace::GetRed()
+{
+	CCieColor color = fRed;
+	if(fColorSpace == EGdtfColorSpace::ANSI) 		{ color = CCieColor(0.7347, 0.2653, 100); }
+	if(fColorSpace == EGdtfColorSpace::ProPhoto) 	{ color = CCieColor(0.7347, 0.2653, 100); }
+	if(fColorSpace == EGdtfColorSpace::sRGB) 		{ color = CCieColor(0.6400, 0.3300, 21.26); }
+    return color;
+}
+
+CCieColor SceneData::GdtfColorSpace::GetGreen()
+{
+	CCieColor color = fGreen;
+	if(fColorSpace == EGdtfColorSpace::ANSI) 		{ color = CCieColor(0.1596, 0.8404, 100); }
+	if(fColorSpace == EGdtfColorSpace::ProPhoto) 	{ color = CCieColor(0.1596, 0.8404, 100); }
+	if(fColorSpace == EGdtfColorSpace::sRGB) 		{ color = CCieColor(0.3000, 0.6000, 71.52); }
+    return color;
+}
+
+CCieColor SceneData::GdtfColorSpace::GetBlue()
+{
+	CCieColor color = fBlue;
+	if(fColorSpace == EGdtfColorSpace::ANSI) 		{ color = CCieColor(0.0366, 0.001, 100); }
+	if(fColorSpace == EGdtfColorSpace::ProPhoto) 	{ color = CCieColor(0.0366, 0.0001, 100); }
+	if(fColorSpace == EGdtfColorSpace::sRGB) 		{ color = CCieColor(0.1500, 0.0600, 7.22); }
+    return color;
+}
+
+CCieColor SceneData::GdtfColorSpace::GetWhite()
+{
+	CCieColor color = fWhitePoint;
+	if(fColorSpace == EGdtfColorSpace::ANSI) 		{ color = CCieColor(0.4254, 0.4044, 100); }
+	if(fColorSpace == EGdtfColorSpace::ProPhoto) 	{ color = CCieColor(0.3457, 0.3585, 100); }
+	if(fColorSpace == EGdtfColorSpace::sRGB) 		{ color = CCieColor(0.3127, 0.3290, 100); }
+    return color;
+}
+
+void SceneData::GdtfColorSpace::SetName(const TXString& name)
+{
+	fUniqueName = name;
+}
+
+void SceneData::GdtfColorSpace::SetColorSpace(EGdtfColorSpace val)
+{
+    fColorSpace = val;
+}
+
+void SceneData::GdtfColorSpace::SetRed(CCieColor val)
+{
+    fRed = val;
+}
+
+void SceneData::GdtfColorSpace::SetGreen(CCieColor val)
+{
+    fGreen = val;
+}
+
+void SceneData::GdtfColorSpace::SetBlue(CCieColor val)
+{
+    fBlue = val;
+}
+
+void SceneData::GdtfColorSpace::SetWhite(CCieColor val)
+{
+    fWhitePoint = val;
+}
+
+TXString SceneData::GdtfColorSpace::GetNodeName()
+{
+    return XML_GDTF_ColorSpaceNode;
+}
+
+void SceneData::GdtfColorSpace::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+    //------------------------------------------------------------------------------------
+    // Call the parent
+    GdtfObject::OnPrintToFile(pNode);
+
+    //------------------------------------------------------------------------------------
+    // Print the attributes
+	pNode->SetNodeAttributeValue(XML_GDTF_ColorSpace_Name, fUniqueName);     
+    pNode->SetNodeAttributeValue(XML_GDTF_ColorSpace_Mode, GdtfConverter::ConvertEGdtfColorSpace(fColorSpace) );
+    
+    if (fColorSpace == EGdtfColorSpace::Custom)
+    {
+        pNode->SetNodeAttributeValue(XML_GDTF_ColorSpace_Red,        GdtfConverter::ConvertColor(fRed) );
+        pNode->SetNodeAttributeValue(XML_GDTF_ColorSpace_Green,      GdtfConverter::ConvertColor(fGreen) );
+        pNode->SetNodeAttributeValue(XML_GDTF_ColorSpace_Blue,	     GdtfConverter::ConvertColor(fBlue) );
+        pNode->SetNodeAttributeValue(XML_GDTF_ColorSpace_WhitePoint, GdtfConverter::ConvertColor(fWhitePoint) );
+    }
+}
+
+void SceneData::GdtfColorSpace::OnReadFromNode(const IXMLFileNodePtr & pNode)
+{
+    //------------------------------------------------------------------------------------
+    // Call the parent
+    GdtfObject::OnReadFromNode(pNode);
+
+    //------------------------------------------------------------------------------------
+    // Get the attributes
+	pNode->GetNodeAttributeValue(XML_GDTF_ColorSpace_Name, fUniqueName);
+
+    TXString colorSpaceStr; pNode->GetNodeAttributeValue(XML_GDTF_ColorSpace_Mode, colorSpaceStr);
+    GdtfConverter::ConvertEGdtfColorSpace( colorSpaceStr, pNode, fColorSpace);
+    
+    if (fColorSpace == EGdtfColorSpace::Custom)
+    {
+		TXString value_red;     pNode->GetNodeAttributeValue(XML_GDTF_ColorSpace_Red,     	 value_red );  	GdtfConverter::ConvertColor(value_red   , pNode, fRed);
+		TXString value_green;   pNode->GetNodeAttributeValue(XML_GDTF_ColorSpace_Green,      value_green ); GdtfConverter::ConvertColor(value_green , pNode, fGreen);
+		TXString value_blue;    pNode->GetNodeAttributeValue(XML_GDTF_ColorSpace_Blue,       value_blue );  GdtfConverter::ConvertColor(value_blue  , pNode, fBlue);
+		TXString value_white;   pNode->GetNodeAttributeValue(XML_GDTF_ColorSpace_WhitePoint, value_white ); GdtfConverter::ConvertColor(value_white , pNode, fWhitePoint);
+    }
+}
+
+void SceneData::GdtfColorSpace::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	optional.push_back(XML_GDTF_ColorSpace_Red);
+	optional.push_back(XML_GDTF_ColorSpace_Green);
+	optional.push_back(XML_GDTF_ColorSpace_Blue);
+	optional.push_back(XML_GDTF_ColorSpace_WhitePoint);
+	optional.push_back(XML_GDTF_ColorSpace_Mode);
+	optional.push_back(XML_GDTF_ColorSpace_Name);
+
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+SceneData::GdtfFilter::GdtfFilter()
+{
+    fName = "";
+}
+
+SceneData::GdtfFilter::GdtfFilter(const TXString & name, const CCieColor &col)
+{
+    fName = name;
+    fColor = col;
+}
+
+SceneData::GdtfFilter::~GdtfFilter()
+{
+    for (GdtfMeasurement* o : fMeasurementsArray) { delete o; };
+}
+
+EGdtfObjectType SceneData::GdtfFilter::GetObjectType()
+{
+    return EGdtfObjectType::eGdtfFilter;
+}
+
+const TXString & SceneData::GdtfFilter::GetName()
+{
+    return fName;
+}
+
+CCieColor SceneData::GdtfFilter::GetColor()
+{
+    return fColor;
+}
+
+const TGdtfMeasurementArray & SceneData::GdtfFilter::GetMeasurementsArray()
+{
+    return fMeasurementsArray;
+}
+
+void SceneData::GdtfFilter::SetName(const TXString & name)
+{
+    fName = name;
+}
+
+void SceneData::GdtfFilter::SetColor(CCieColor val)
+{
+    fColor = val;
+}
+
+GdtfMeasurement* SceneData::GdtfFilter::CreateMeasurement()
+{
+    GdtfMeasurement* m= new GdtfMeasurement(true);    
+    fMeasurementsArray.push_back(m);
+
+    return m;
+}
+
+TXString SceneData::GdtfFilter::GetNodeName()
+{
+    return XML_GDTF_FilterNode;
+}
+
+void SceneData::GdtfFilter::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+    //------------------------------------------------------------------------------------
+    // Call the parent
+    GdtfObject::OnPrintToFile(pNode);
+
+    //------------------------------------------------------------------------------------
+    // Print the attributes
+    pNode->SetNodeAttributeValue(XML_GDTF_Filter_Name, fName);
+    pNode->SetNodeAttributeValue(XML_GDTF_FilterColor, GdtfConverter::ConvertColor(fColor));
+
+    //------------------------------------------------------------------------------------
+    // Print the childs
+    for (GdtfMeasurement* mes : fMeasurementsArray)
+    {
+         mes->WriteToNode(pNode);
+    }
+}
+
+void SceneData::GdtfFilter::OnReadFromNode(const IXMLFileNodePtr & pNode)
+{
+    //------------------------------------------------------------------------------------
+    // Call the parent
+    GdtfObject::OnReadFromNode(pNode);
+
+    //------------------------------------------------------------------------------------
+    // Get the attributes	
+    pNode->GetNodeAttributeValue(XML_GDTF_Filter_Name, fName);    
+    
+	// ------------------------------------------------------------------------------------
+	// Get Color
+	TXString color;
+    if (VCOM_SUCCEEDED(pNode->GetNodeAttributeValue(XML_GDTF_FilterColor, color)))
+    {
+        if (color.IsEmpty() == false)
+        {
+            GdtfConverter::ConvertColor(color, pNode, fColor);
+        }
+    }	
+
+    // Read the childs
+    GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_MeasurementNodeName, [this](IXMLFileNodePtr objNode) -> void
+    {
+		if ( CheckAbort() ) return;
+        GdtfMeasurement* measurePt = new GdtfMeasurement(true);
+
+        measurePt->ReadFromNode(objNode);
+
+        fMeasurementsArray.push_back(measurePt);
+        return;
+    });
+}
+
+TXString SceneData::GdtfFilter::GetNodeReference() 
+{
+    return GetName();
+}
+
+SceneData::GdtfMeasurement::GdtfMeasurement(bool forFilter)
+{
+    fPhysical 				= 0;
+    fLuminousIntensity 		= 0;
+    fTransmission 			= 0;
+    fInterpolationTo 		= EGdtfInterpolationTo::Linear;
+	fIsForFilter 			= forFilter;
+}
+
+SceneData::GdtfMeasurement::~GdtfMeasurement()
+{
+    for (GdtfMeasurementPoint* o : fMeasurementPoints) { delete o; };
+}
+
+EGdtfObjectType SceneData::GdtfMeasurement::GetObjectType()
+{
+    return EGdtfObjectType::eGdtfMeasurement;
+}
+
+double SceneData::GdtfMeasurement::GetPhysical()
+{
+    return fPhysical;
+}
+
+double SceneData::GdtfMeasurement::GetLuminousIntensity()
+{
+    return fLuminousIntensity;
+}
+
+double SceneData::GdtfMeasurement::GetTransmission()
+{
+    return fTransmission;
+}
+
+EGdtfInterpolationTo SceneData::GdtfMeasurement::GetInterpolationTo()
+{
+    return fInterpolationTo;
+}
+
+const TGdtfMeasurementPointArray & SceneData::GdtfMeasurement::GetMeasurementPointsArray()
+{
+    return fMeasurementPoints;
+}
+
+void SceneData::GdtfMeasurement::SetPhysical(double val)
+{
+    fPhysical = val;
+}
+
+void SceneData::GdtfMeasurement::SetLuminousIntensity(double val)
+{
+    fLuminousIntensity = val;
+}
+
+void SceneData::GdtfMeasurement::SetTransmission(double val)
+{
+    fTransmission = val;
+}
+
+void SceneData::GdtfMeasurement::SetInterpolationTo(EGdtfInterpolationTo val)
+{
+    fInterpolationTo = val;
+}
+
+GdtfMeasurementPoint* SceneData::GdtfMeasurement::CreateMeasurementPoint()
+{
+    GdtfMeasurementPointPtr mP = new GdtfMeasurementPoint();
+    fMeasurementPoints.push_back(mP);
+	return mP;
+}
+
+TXString SceneData::GdtfMeasurement::GetNodeName()
+{
+    return XML_GDTF_MeasurementNodeName;
+}
+
+void SceneData::GdtfMeasurement::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+    //------------------------------------------------------------------------------------
+    // Call the parent
+    GdtfObject::OnPrintToFile(pNode);
+
+    //------------------------------------------------------------------------------------
+    // Print the attributes 
+    pNode->SetNodeAttributeValue(XML_GDTF_MeasurementPhysical,          GdtfConverter::ConvertDouble(fPhysical) );
+
+	if(fIsForFilter) { pNode->SetNodeAttributeValue(XML_GDTF_MeasurementTransmission,      GdtfConverter::ConvertDouble(fTransmission) ); }
+	else			 { pNode->SetNodeAttributeValue(XML_GDTF_MeasurementLuminousIntensity, GdtfConverter::ConvertDouble(fLuminousIntensity) ); }
+
+    
+    pNode->SetNodeAttributeValue(XML_GDTF_MeasurementInterpolationTo,   GdtfConverter::ConvertEGdtfInterpolationTo(fInterpolationTo) );
+    //------------------------------------------------------------------------------------
+    // Print the childs
+    for (GdtfMeasurementPoint* mesPt: fMeasurementPoints)
+    {
+        mesPt->WriteToNode(pNode);
+    }
+}
+
+void SceneData::GdtfMeasurement::OnReadFromNode(const IXMLFileNodePtr & pNode)
+{
+    //------------------------------------------------------------------------------------
+    // Call the parent
+    GdtfObject::OnReadFromNode(pNode);
+
+    //------------------------------------------------------------------------------------
+    // Get the attributes	
+    TXString   physStr; pNode->GetNodeAttributeValue(XML_GDTF_MeasurementPhysical, physStr);
+    GdtfConverter::ConvertDouble( physStr, pNode, fPhysical);
+
+    TXString   lumiStr; pNode->GetNodeAttributeValue(XML_GDTF_MeasurementLuminousIntensity,  lumiStr);
+    GdtfConverter::ConvertDouble( lumiStr, pNode, fLuminousIntensity);
+
+	TXString   transmStr; pNode->GetNodeAttributeValue(XML_GDTF_MeasurementTransmission,  transmStr);    
+	GdtfConverter::ConvertDouble( transmStr, pNode, fTransmission);
+
+	TXString   interpolStr; pNode->GetNodeAttributeValue(XML_GDTF_MeasurementInterpolationTo, interpolStr);
+	GdtfConverter::ConvertEGdtfInterpolationTo(interpolStr, pNode, fInterpolationTo);
+
+    // Read the childs
+    GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_MeasurementPointNode, [this](IXMLFileNodePtr objNode) -> void
+    {
+		if ( CheckAbort() ) return;
+        GdtfMeasurementPoint* measurePt = new GdtfMeasurementPoint();
+
+        measurePt->ReadFromNode(objNode);
+
+        fMeasurementPoints.push_back(measurePt);
+        return;
+    });
+}
+
+//------------------------------------------------------------------------------------
+// GdtfConnector
+GdtfConnector::GdtfConnector()
+{
+	fDmxBreak 	= 0;
+    fGender 	= 0;
+    fLength 	= 0.0;
+}
+
+GdtfConnector::GdtfConnector(const TXString& name, const TXString& type)
+{
+	fName		= name;
+	fType		= type;
+	fDmxBreak 	= 0;
+    fGender 	= 0;
+    fLength 	= 0.0;
+}
+
+GdtfConnector::~GdtfConnector()
+{
+}
+
+void GdtfConnector::SetName(const TXString &name)
+{
+	fName = name;
+}
+
+void GdtfConnector::SetType(const TXString &type)
+{
+	fType = type;
+}
+
+void SceneData::GdtfConnector::SetDmxBreak(Uint32 dmxBreak)
+{
+    fDmxBreak = dmxBreak;
+}
+
+void SceneData::GdtfConnector::SetGender(Sint32 gender)
+{
+    fGender = gender;
+}
+
+void SceneData::GdtfConnector::SetLength(double length)
+{
+    fLength = length;
+}
+
+void GdtfConnector::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnPrintToFile(pNode);
+	
+	// ------------------------------------------------------------------------------------
+	// Print node attributes
+	pNode->SetNodeAttributeValue(XML_GDTF_ConnectorName,		fName);
+	pNode->SetNodeAttributeValue(XML_GDTF_ConnectorType,		fType);
+	pNode->SetNodeAttributeValue(XML_GDTF_ConnectorDmxBreak, 	GdtfConverter::ConvertInteger(fDmxBreak));
+	pNode->SetNodeAttributeValue(XML_GDTF_ConnectorGender,		GdtfConverter::ConvertInteger(fGender));
+    pNode->SetNodeAttributeValue(XML_GDTF_ConnectorLength, 		GdtfConverter::ConvertDouble(fLength));
+}
+
+void GdtfConnector::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnReadFromNode(pNode);
+	
+	// ------------------------------------------------------------------------------------
+	// Read node attributes
+	pNode->GetNodeAttributeValue(XML_GDTF_ConnectorName, fName);
+	pNode->GetNodeAttributeValue(XML_GDTF_ConnectorType, fType);
+
+    TXString dmxBreakStr;   pNode->GetNodeAttributeValue(XML_GDTF_ConnectorDmxBreak, dmxBreakStr);		
+    GdtfConverter::ConvertInteger(dmxBreakStr, pNode, fDmxBreak);
+	TXString genderStr;   pNode->GetNodeAttributeValue(XML_GDTF_ConnectorGender, genderStr);		
+    GdtfConverter::ConvertInteger(genderStr, pNode, fGender);
+	TXString lengthStr;   pNode->GetNodeAttributeValue(XML_GDTF_ConnectorLength, lengthStr);		
+    GdtfConverter::ConvertDouble(lengthStr, pNode, fLength);
+}
+
+void GdtfConnector::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_ConnectorName);
+	needed.push_back(XML_GDTF_ConnectorType);
+	    
+	optional.push_back(XML_GDTF_ConnectorDmxBreak);
+	optional.push_back(XML_GDTF_ConnectorGender);
+    optional.push_back(XML_GDTF_ConnectorLength);
+
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfConnector::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfConnector;
+}
+
+TXString GdtfConnector::GetNodeReference() 
+{
+    return GetName();
+}
+
+TXString GdtfConnector::GetNodeName()
+{
+	return XML_GDTF_ConnectorNodeName;
+}
+
+const TXString& GdtfConnector::GetName() const
+{
+	return fName;
+}
+
+const TXString& GdtfConnector::GetType() const
+{
+	return fType;
+}
+
+Uint32 GdtfConnector::GetDmxBreak()
+{
+	return fDmxBreak;
+}
+
+Sint32 GdtfConnector::GetGender()
+{
+    return fGender;
+}
+
+double GdtfConnector::GetLength()
+{
+    return fLength;
+}
-- 
2.43.0


From 079108c3bd6f58661410991379124e3717eb4785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:48 +0000
Subject: [PATCH 05/96] fix: names of channels and logical channels follow
 their geometry and attribute

---
 src/GDTFManager.cpp | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/src/GDTFManager.cpp b/src/GDTFManager.cpp
index 53041df..8108fdc 100644
--- a/src/GDTFManager.cpp
+++ b/src/GDTFManager.cpp
@@ -5649,18 +5649,13 @@ TXString GdtfDmxChannel::GetNodeName()
 
 const TXString& GdtfDmxChannel::GetName()
 {
-	if(fName_AutoGenerated.IsEmpty())
-	{
-		TXString dmxChannelName;
-		if(fGeomRef) { dmxChannelName += fGeomRef->GetName(); }
-		dmxChannelName += "_";
-		if(fLogicalChannels.size() > 0) { dmxChannelName += fLogicalChannels[0]->GetAttribute()->GetName(); }
-		
-		this->SetName(dmxChannelName);
+	// The name follows from the geometry and the first attribute, so it changes when they do
+	TXString dmxChannelName;
+	if(fGeomRef) { dmxChannelName += fGeomRef->GetName(); }
+	dmxChannelName += "_";
+	if(fLogicalChannels.size() > 0 && fLogicalChannels[0]->GetAttribute()) { dmxChannelName += fLogicalChannels[0]->GetAttribute()->GetName(); }
 
-		ASSERTN(kEveryone, fGeomRef != nullptr);
-		ASSERTN(kEveryone, fLogicalChannels.size() > 0);
-	}
+	if( ! fName_AutoGenerated.Equal(dmxChannelName)) { this->SetName(dmxChannelName); }
 
 	return fName_AutoGenerated;
 }
@@ -5950,14 +5945,13 @@ TXString GdtfDmxLogicalChannel::GetNodeName()
 
 const TXString& GdtfDmxLogicalChannel::GetName()
 {
-	if(fName_AutoGenerated.IsEmpty())
-	{
-		TXString name;
-		ASSERTN(kEveryone, fAttribute != nullptr);
-		if(fAttribute){ name +=fAttribute->GetName(); }
+	// The name is the one of the attribute, so it changes with it
+	TXString name;
+	ASSERTN(kEveryone, fAttribute != nullptr);
+	if(fAttribute){ name +=fAttribute->GetName(); }
+
+	if( ! fName_AutoGenerated.Equal(name)) { this->SetName(name); }
 
-		this->SetName(name);
-	}
 	return fName_AutoGenerated;
 }
 
-- 
2.43.0


From eac90c50e585f48a9ad857465dd237f1b1382ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:24 +0000
Subject: [PATCH 06/96] fix: an attribute reference that names nothing is
 reported, not taken for NoFeature

---
 src/GDTFManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GDTFManager.cpp b/src/GDTFManager.cpp
index 8108fdc..c3c0cc4 100644
--- a/src/GDTFManager.cpp
+++ b/src/GDTFManager.cpp
@@ -8149,7 +8149,7 @@ GdtfAttributePtr GdtfFixture::getAttributeByRef(const TXString& ref)
 
 	// When this line is reached nothing was found.
 	DSTOP ((kEveryone, "Failed to resolve GdtfAttributePtr."));
-	return fNoFeature;
+	return nullptr;
 }
 
 void GdtfFixture::CreateNoFeatureAttribute()
-- 
2.43.0


From 96f79fde1af00e2c0f967a79e5b279efa76073d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:24 +0000
Subject: [PATCH 07/96] fix: resolve the main attribute of attributes without a
 feature, and NoFeature as main attribute

---
 src/GDTFManager.cpp | 40 ++++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/src/GDTFManager.cpp b/src/GDTFManager.cpp
index c3c0cc4..b100c04 100644
--- a/src/GDTFManager.cpp
+++ b/src/GDTFManager.cpp
@@ -8668,8 +8668,11 @@ void GdtfFixture::ResolveWheelSlots()
 
 void GdtfFixture::ResolveAttribRefs()
 {
-	for (GdtfAttributePtr attr : fAttributes)
+	// Resolving a main attribute may append the NoFeature attribute to the array
+	const size_t attributeCount = fAttributes.size();
+	for (size_t attributeIndex = 0; attributeIndex < attributeCount; attributeIndex++)
 	{
+		GdtfAttributePtr attr = fAttributes[attributeIndex];
 		if (CheckAbort()) { return; }
 		// ------------------------------------------------------------------------------------------
 		// Attributes.ActivationGroup
@@ -8697,24 +8700,25 @@ void GdtfFixture::ResolveAttribRefs()
 		// Attributes.Feature
 		GdtfFeaturePtr featPtr = nullptr;
 		TXString unresolvedFeat = attr->GetUnresolvedFeature();
-		if(unresolvedFeat.IsEmpty()) { continue; }
-
-		for (GdtfFeatureGroupPtr featGrp : fFeatureGroups)
-		{	
-			if(CheckAbort()) { return; }
-			for (GdtfFeaturePtr feat : featGrp->GetFeatureArray() )
-			{				
-				if (unresolvedFeat == feat->GetNodeReference() ) { featPtr = feat; break; }
-			}
-		}
-		ASSERTN(kEveryone, featPtr != nullptr);
-		if (featPtr != nullptr)	{ attr->SetFeature (featPtr); }
-		else
+		if( ! unresolvedFeat.IsEmpty())
 		{
-			IXMLFileNodePtr node;
-			attr->GetNode(node);
-			GdtfParsingError error (GdtfDefines::EGdtfParsingError::eAttributeUnresolvedFeature, node);
-			SceneData::GdtfFixture::AddError(error);
+			for (GdtfFeatureGroupPtr featGrp : fFeatureGroups)
+			{	
+				if(CheckAbort()) { return; }
+				for (GdtfFeaturePtr feat : featGrp->GetFeatureArray() )
+				{				
+					if (unresolvedFeat == feat->GetNodeReference() ) { featPtr = feat; break; }
+				}
+			}
+			ASSERTN(kEveryone, featPtr != nullptr);
+			if (featPtr != nullptr)	{ attr->SetFeature (featPtr); }
+			else
+			{
+				IXMLFileNodePtr node;
+				attr->GetNode(node);
+				GdtfParsingError error (GdtfDefines::EGdtfParsingError::eAttributeUnresolvedFeature, node);
+				SceneData::GdtfFixture::AddError(error);
+			}
 		}
 		
 		// ------------------------------------------------------------------------------------------
-- 
2.43.0


From eeef81df746eed99155eb120154961d4b2509735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:24 +0000
Subject: [PATCH 08/96] fix: a sub channel set refers to the sub physical unit
 of its own attribute

---
 src/GDTFManager.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/GDTFManager.cpp b/src/GDTFManager.cpp
index b100c04..2903746 100644
--- a/src/GDTFManager.cpp
+++ b/src/GDTFManager.cpp
@@ -9280,7 +9280,16 @@ void GdtfFixture::ResolveDmxSubChannelSetRefs(GdtfDmxChannelFunctionPtr channelF
         TXString unresolvedSubPhysicalUnitRef = subChannelSet->GetUnresolvedSubPhysicalUnitRef();
         if (!unresolvedSubPhysicalUnitRef.IsEmpty()) 
         {
-            GdtfSubPhysicalUnit* subPhysicalUnit = getSubPhysicalUnitByRef(unresolvedSubPhysicalUnitRef);
+            // The unit is the one of the function's own attribute, types repeat between attributes
+            GdtfSubPhysicalUnit* subPhysicalUnit = nullptr;
+            if (GdtfAttribute* functionAttribute = channelFunction->GetAttribute())
+            {
+                for (GdtfSubPhysicalUnitPtr unit : functionAttribute->GetSubPhysicalUnitArray())
+                {
+                    if (unit->GetNodeReference() == unresolvedSubPhysicalUnitRef) { subPhysicalUnit = unit; break; }
+                }
+            }
+            if (subPhysicalUnit == nullptr) { subPhysicalUnit = getSubPhysicalUnitByRef(unresolvedSubPhysicalUnitRef); }
             subChannelSet->SetSubPhysicalUnit(subPhysicalUnit);
         }
 
-- 
2.43.0


From 9f96295aac66bd6c65c5915e5c99a22b1ffceadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:03 +0000
Subject: [PATCH 09/96] fix: a ColorSpace without the optional Mode is sRGB

---
 src/XmlFileHelper.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/XmlFileHelper.cpp b/src/XmlFileHelper.cpp
index 8faca3a..9223d2c 100644
--- a/src/XmlFileHelper.cpp
+++ b/src/XmlFileHelper.cpp
@@ -1728,6 +1728,7 @@ CieColor SceneData::GdtfConverter::ConvertCColor(const CCieColor & color)
      else if   (inVal == XML_GDTF_ColorSpaceEnum_Custom)    { outVal = EGdtfColorSpace::Custom; }
      else if   (inVal == XML_GDTF_ColorSpaceEnum_ProPhoto)  { outVal = EGdtfColorSpace::ProPhoto; }
      else if   (inVal == XML_GDTF_ColorSpaceEnumr_ANSI)     { outVal = EGdtfColorSpace::ANSI;  }
+     else if   (inVal.IsEmpty())                            { outVal = EGdtfColorSpace::sRGB;  }
      else 
      {
         DSTOP((kEveryone, "Unknown Value for EGdtfColorSpace"));
-- 
2.43.0


From 6ab463794a5156cd7f2215583616e670a6da8836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:42 +0000
Subject: [PATCH 10/96] fix: reading a damaged ZIP container stays inside of it
 and ends

---
 src/Wrapper/ZIPFileBuffer.cpp | 20 ++++++++++--
 src/Wrapper/ZIPFileImpl.cpp   | 58 +++++++++++++++++++++++++++--------
 src/Wrapper/ZIPFileImpl.h     |  2 +-
 3 files changed, 63 insertions(+), 17 deletions(-)

diff --git a/src/Wrapper/ZIPFileBuffer.cpp b/src/Wrapper/ZIPFileBuffer.cpp
index baaa00f..de54dfc 100644
--- a/src/Wrapper/ZIPFileBuffer.cpp
+++ b/src/Wrapper/ZIPFileBuffer.cpp
@@ -13,6 +13,7 @@ ZIPFileBuffer::ZIPFileBuffer()
 	fpZIPFileBuffer		 = nullptr;
 	fZIPFileBufferSize	 = 0;
 	fAllocatedMemorySize = 0;
+	fOpenForRead		 = false;
 }
 
 ZIPFileBuffer::~ZIPFileBuffer()
@@ -36,10 +37,16 @@ VCOMError ZIPFileBuffer::Open(VectorworksMVR::Filing::IFileIdentifier* pFileID,
 		IRawOSFilePtr file(IID_RawOSFile);
 
 		// open file
-		file->Open(pFileID, true, false, false, false);
+		if (VCOM_FAILED(file->Open(pFileID, true, false, false, false)))
+		{
+			return kVCOMError_Failed;
+		}
 
 		// get filesize
-		file->GetFileSize(fZIPFileBufferSize);
+		if (VCOM_FAILED(file->GetFileSize(fZIPFileBufferSize)))
+		{
+			fZIPFileBufferSize = 0;
+		}
 		// load in buffer
 		fpZIPFileBuffer      = new Uint8[fZIPFileBufferSize];
 		fAllocatedMemorySize = fZIPFileBufferSize;
@@ -94,7 +101,14 @@ VCOMError ZIPFileBuffer::GetFileSize(Uint64& outValue)
 
 VCOMError ZIPFileBuffer::Read(Uint64 position, Uint64& inoutSize, void* pOutBuffer)
 {
-	memcpy(pOutBuffer, fpZIPFileBuffer + position, (size_t)inoutSize);
+	// A damaged container can refer to positions outside of it, never read more than there is
+	if (position >= fZIPFileBufferSize)						{ inoutSize = 0; }
+	else if (inoutSize > fZIPFileBufferSize - position)		{ inoutSize = fZIPFileBufferSize - position; }
+
+	if (inoutSize > 0)
+	{
+		memcpy(pOutBuffer, fpZIPFileBuffer + position, (size_t)inoutSize);
+	}
 	return kVCOMError_NoError;
 }
 
diff --git a/src/Wrapper/ZIPFileImpl.cpp b/src/Wrapper/ZIPFileImpl.cpp
index 3c3944e..3a67c74 100644
--- a/src/Wrapper/ZIPFileImpl.cpp
+++ b/src/Wrapper/ZIPFileImpl.cpp
@@ -262,6 +262,8 @@ VCOMError CZIPFileImpl::GetNextFile(const std::string& path, std::string& outPat
 	if ( path != "" )
 	{
 		this->GetFileCentralHeaderPosition( path, currentReadPosition );
+		if ( !currentReadPosition )
+			return kVCOMError_Failed;
 		currentReadPosition += ( 6 * kShortLength ) + ( 4 * kLongLength );
 
 		Uint16 fileNameLength = 0;
@@ -274,23 +276,42 @@ VCOMError CZIPFileImpl::GetNextFile(const std::string& path, std::string& outPat
 		currentReadPosition += ( 2 * kShortLength ) + ( 2 * kLongLength ) + fileNameLength + extraFieldLength + fileCommentLength;
 	}
 
-	Uint32 signature;
-	this->ReadLong( signature, currentReadPosition );
-	if ( signature != kCentralDirSignature )
-		err =  kVCOMError_False;
-
-	if ( err == kVCOMError_NoError )
+	bool bFound = false;
+	while ( err == kVCOMError_NoError && !bFound )
 	{
+		Uint32 startPosition = currentReadPosition;
+		Uint32 signature = 0;
+		this->ReadLong( signature, currentReadPosition );
+		if ( signature != kCentralDirSignature )
+		{
+			err =  kVCOMError_False;
+			break;
+		}
+
 		Uint16 fileNameLength = 0;
+		Uint16 extraFieldLength = 0;
+		Uint16 fileCommentLength = 0;
 		currentReadPosition += ( 6 * kShortLength ) + ( 3 * kLongLength ); // the file name length will be found here
 		this->ReadShort( fileNameLength, currentReadPosition );
-		currentReadPosition += ( 4 * kShortLength ) + ( 2 * kLongLength ); // the file name will be found here
+		this->ReadShort( extraFieldLength, currentReadPosition );
+		this->ReadShort( fileCommentLength, currentReadPosition );
+		currentReadPosition += ( 2 * kShortLength ) + ( 2 * kLongLength ); // the file name will be found here
 		Uint64 inOutReadSize = (Uint64)fileNameLength;
 		this->ReadFromFile( currentReadPosition, inOutReadSize, (void*) fReadFileName );
 
-		if ( ( (size_t)inOutReadSize == fileNameLength ) &&  0 != strcmp(fReadFileName, ""))
+		if ( ( (size_t)inOutReadSize == fileNameLength ) && 0 != fileNameLength )
 		{
-			outPath  = std::string( fReadFileName, fileNameLength );
+			// A name that is in the container again is found by its first entry only,
+			// going on from there would start over endless
+			std::string fileName( fReadFileName, fileNameLength );
+			Uint32 firstPosition = 0;
+			this->GetFileCentralHeaderPosition( fileName, firstPosition );
+			if ( firstPosition == startPosition )
+			{
+				outPath = fileName;
+				bFound  = true;
+			}
+			currentReadPosition += extraFieldLength + fileCommentLength;
 		}
 		else 
 		{
@@ -342,7 +363,8 @@ VCOMError CZIPFileImpl::GetFileInfo(const std::string& path, SZIPFileInfo& outIn
 
 	Uint32 currentReadPosition = 0;
 	this->GetFileCentralHeaderPosition( path, currentReadPosition );
-
+	if ( !currentReadPosition )
+		return kVCOMError_False;
 	
 	Uint16 fileNameLength		= 0;
 	Uint16 extraFieldLength		= 0;
@@ -414,7 +436,9 @@ VCOMError CZIPFileImpl::GetFile(const std::string& path, IZIPFileIOBuffer* outpu
 		return kVCOMError_NotInitialized;
 	
 	SZIPFileInfo fileInfo;
-	this->GetFileInfo( path, fileInfo );
+	err = this->GetFileInfo( path, fileInfo );
+	if ( err != kVCOMError_NoError )
+		return err;
 	
 	Uint32 currentReadPosition = fileInfo.dwOffsetOfLocalHeader;
 	currentReadPosition += ( 5 * kShortLength ) + ( 4 * kLongLength ); // start of variable data
@@ -427,6 +451,12 @@ VCOMError CZIPFileImpl::GetFile(const std::string& path, IZIPFileIOBuffer* outpu
 
 	currentReadPosition += fileNameLength + extraFieldLength;
 
+	// the data must be inside of the container
+	Uint64 containerSize = 0;
+	this->GetSize( containerSize );
+	if ( (Uint64)currentReadPosition + fileInfo.dwCompressedSize > containerSize )
+		return kVCOMError_Failed;
+
 	// read the raw data
 	char* readData = new char[ fileInfo.dwCompressedSize ]; 
 	Uint64 inOutReadSize = (Uint64)fileInfo.dwCompressedSize;
@@ -1015,6 +1045,7 @@ void CZIPFileImpl::ReadLong( Uint32& outRead, Uint32& currentReadPosition )
 		else
 		{
 			Uint64 size = sizeof(Uint32);
+			outRead = 0;
 			fpOpenedFile->Read( currentReadPosition, size, (void*)&outRead );
 			currentReadPosition +=sizeof(Uint32);
 		}
@@ -1035,6 +1066,7 @@ void CZIPFileImpl::ReadShort( Uint16& outRead, Uint32& currentReadPosition )
 		else
 		{
 			Uint64 size = sizeof(Uint16);
+			outRead = 0;
 			fpOpenedFile->Read( currentReadPosition, size, (void*)&outRead );
 			currentReadPosition +=sizeof(Uint16);
 		}
@@ -1227,7 +1259,7 @@ void CZIPFileImpl::GetFileLocalHeaderPosition( const std::string& path, Uint32&
 			return;
 		}
 
-		if (((size_t)path.size() == fileNameLength ) &&  0 == memcmp(fReadFileName, path.c_str(), fileNameLength))
+		if (!bError && ((size_t)path.size() == fileNameLength ) &&  0 == memcmp(fReadFileName, path.c_str(), fileNameLength))
 		{
 			outPosition = localHeaderOffset;
 			bFound = true;
@@ -1280,7 +1312,7 @@ void CZIPFileImpl::GetFileCentralHeaderPosition( const std::string& path, Uint32
 			bError = true;
 		}
 
-		if (((size_t)path.size() == fileNameLength ) &&  0 == memcmp(fReadFileName, path.c_str(), fileNameLength))
+		if (!bError && ((size_t)path.size() == fileNameLength ) &&  0 == memcmp(fReadFileName, path.c_str(), fileNameLength))
 		{
 			bFound = true;
 			outPosition = startOffset;
diff --git a/src/Wrapper/ZIPFileImpl.h b/src/Wrapper/ZIPFileImpl.h
index 2fbdadb..b8f8c99 100644
--- a/src/Wrapper/ZIPFileImpl.h
+++ b/src/Wrapper/ZIPFileImpl.h
@@ -131,7 +131,7 @@ namespace VectorworksMVR
 
 			TXString						fOpenedFileFullPath;
 			TXString						fFolderPath;
-			char							fReadFileName[1024];
+			char							fReadFileName[65536]; // The length of a name is stored in 16 bits
 		private:
 			static VCOMError				fLastError;
 
-- 
2.43.0


From 18987272c41eabe1215673eec4e52d26dde890bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:59 +0000
Subject: [PATCH 11/96] fix: removing a file from a ZIP keeps the other files

---
 src/Wrapper/ZIPFileImpl.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/Wrapper/ZIPFileImpl.cpp b/src/Wrapper/ZIPFileImpl.cpp
index 3a67c74..dc8ed79 100644
--- a/src/Wrapper/ZIPFileImpl.cpp
+++ b/src/Wrapper/ZIPFileImpl.cpp
@@ -707,7 +707,7 @@ VCOMError CZIPFileImpl::AddFile(const TXString& path, IFileIdentifier* inputFile
 VCOMError CZIPFileImpl::RemoveFile(const TXString& path)
 {
 	VCOMError err = kVCOMError_NoError;
-	if ( !fpOpenedFile )
+	if ( !fpOpenedFile || !fbOpenedWrite )
 		return kVCOMError_NotInitialized;
 
 	Uint32 centralFileHeaderPosition = 0;
@@ -715,7 +715,7 @@ VCOMError CZIPFileImpl::RemoveFile(const TXString& path)
 	this->GetFileCentralHeaderPosition( path.GetStdString(), centralFileHeaderPosition );
 
 	if ( !centralFileHeaderPosition )
-		err =  kVCOMError_Failed;
+		return kVCOMError_Failed;
 
 	if ( err == kVCOMError_NoError )
 	{
@@ -760,7 +760,7 @@ VCOMError CZIPFileImpl::RemoveFile(const TXString& path)
 			{
 				currentFileInfo.dwOffsetOfLocalHeader -= removedLocalDataSize;
 			}
-			if ( currentFile == path )
+			if ( currentFile == path.GetStdString() )
 				bFound = true;
 			else
 				arrFileInfos.push_back( currentFileInfo );
@@ -769,21 +769,24 @@ VCOMError CZIPFileImpl::RemoveFile(const TXString& path)
 				break;
 			currentFile = nextFile;
 		}
+		// the data of the other files ends where the central directory starts
+		Uint32 centralDirPosition = zipArchiveInfo.dwOffsetCentralDir;
 		zipArchiveInfo.dwOffsetCentralDir -= removedLocalDataSize;
 		zipArchiveInfo.dwSizeOfCentralDir -= removedCentralDataSize;
 		zipArchiveInfo.dwNumberOfEntriesOnThisDisk--;
 		zipArchiveInfo.dwTotalNumberOfEntries--;
 	
 		char* readData1 = new char[(size_t)localFileHeaderPosition]; 
-		char* readData2 = new char[(size_t)centralFileHeaderPosition - localFileHeaderPosition - removedLocalDataSize]; 
+		char* readData2 = new char[(size_t)centralDirPosition - localFileHeaderPosition - removedLocalDataSize]; 
 		Uint64 readSize1 = (Uint64)localFileHeaderPosition;
-		Uint64 readSize2 = (Uint64)( centralFileHeaderPosition - localFileHeaderPosition - removedLocalDataSize);
+		Uint64 readSize2 = (Uint64)( centralDirPosition - localFileHeaderPosition - removedLocalDataSize);
 
 		fpOpenedFile->Read( 0, readSize1, (void*)readData1 );
 		fpOpenedFile->Read( localFileHeaderPosition + removedLocalDataSize, readSize2, (void*)readData2 );
 	
 		fpOpenedFile->Close();
 		fpOpenedFile->Open( fpOpenedFileID, false );
+		fpOpenedFile->CleanBuffer();
 	
 		Uint64 currentWritePosition = 0;
 		this->WriteToFile( (void*)readData1, currentWritePosition, readSize1 );
-- 
2.43.0


From ad5a1e702cdc8764872c1e675b658e151bd6025b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:59 +0000
Subject: [PATCH 12/96] fix: adding an empty file to an uncompressed ZIP is no
 failure

---
 src/Wrapper/ZIPFileImpl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Wrapper/ZIPFileImpl.cpp b/src/Wrapper/ZIPFileImpl.cpp
index dc8ed79..c56d1ac 100644
--- a/src/Wrapper/ZIPFileImpl.cpp
+++ b/src/Wrapper/ZIPFileImpl.cpp
@@ -568,7 +568,7 @@ VCOMError CZIPFileImpl::AddFile(const TXString& inPath, IZIPFileIOBuffer* inputB
 				memcpy( (void*)outData, (void*)deflateBuffer, compressedSize );
 			}
 
-			if ( !compressedSize )
+			if ( !compressedSize && uncompressedSize ) // an empty file is stored with no data
 				err = kVCOMError_Failed;
 
 			zipFileInfo.bFolder = (uncompressedSize)?false:true;
@@ -645,7 +645,7 @@ VCOMError CZIPFileImpl::AddFile(const TXString& inPath, IZIPFileIOBuffer* inputB
 				memcpy( (void*)outData, (void*)deflateBuffer, compressedSize );
 			}
 
-			if ( !compressedSize )
+			if ( !compressedSize && uncompressedSize ) // an empty file is stored with no data
 				err = kVCOMError_Failed;
 		
 			zipFileInfo.bFolder = (uncompressedSize)?false:true;
-- 
2.43.0


From f9d4f4184dc33746eed5bf4c7df7ab7326d39162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:59 +0000
Subject: [PATCH 13/96] fix: mark ZIP entry names as the UTF-8 they are written
 in

---
 src/Wrapper/ZIPFileImpl.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Wrapper/ZIPFileImpl.cpp b/src/Wrapper/ZIPFileImpl.cpp
index c56d1ac..b124c41 100644
--- a/src/Wrapper/ZIPFileImpl.cpp
+++ b/src/Wrapper/ZIPFileImpl.cpp
@@ -41,6 +41,7 @@ const int				kLocalFileHeaderLength		= 30;
 const int				kCentralFileHeaderLength	= 46;
 //const int				kEndHeaderLength			= 22;
 
+const Uint16			kUTF8NameFlag				= 0x0800; // file names are written in UTF-8
 const int				kMinimumZipFileSize			= 22;
 const int				kMaxWBITS					= 15;	
 
@@ -577,7 +578,7 @@ VCOMError CZIPFileImpl::AddFile(const TXString& inPath, IZIPFileIOBuffer* inputB
 			zipFileInfo.dwCompressedSize = (Uint32)compressedSize; 
 			zipFileInfo.dwUncompressedSize = (Uint32)uncompressedSize; 
 			zipFileInfo.dwCompressionMethod = compressionMethod;
-			zipFileInfo.dwFlags = 0;
+			zipFileInfo.dwFlags = kUTF8NameFlag;
 			zipFileInfo.dwExternalAttrib = 0;
 			zipFileInfo.dwInternalAttrib = 0;
 			zipFileInfo.dwOffsetOfLocalHeader = (Uint32)centralDirPosition;
@@ -656,7 +657,7 @@ VCOMError CZIPFileImpl::AddFile(const TXString& inPath, IZIPFileIOBuffer* inputB
 			zipFileInfo.dwCompressionMethod = compressionMethod;
 			zipFileInfo.dwDosTime = 0;
 			zipFileInfo.dwDosDate = 0;
-			zipFileInfo.dwFlags = 0;
+			zipFileInfo.dwFlags = kUTF8NameFlag;
 			zipFileInfo.dwExternalAttrib = 0;
 			zipFileInfo.dwInternalAttrib = 0;
 			zipFileInfo.dwOffsetOfLocalHeader = 0;
-- 
2.43.0


From 8bb99f8bbb53bbb9d249d377fd157b6fd8efb644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:04 +0000
Subject: [PATCH 14/96] fix: a model returns the 3DS and SVG buffer it has

---
 src/GDTFManager.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GDTFManager.cpp b/src/GDTFManager.cpp
index 2903746..e4cb469 100644
--- a/src/GDTFManager.cpp
+++ b/src/GDTFManager.cpp
@@ -1989,7 +1989,7 @@ EGdtfModel_PrimitiveType GdtfModel::GetPrimitiveType() const
 
 void GdtfModel::GetBuffer3DS(void** bufferToCopy, size_t& length)
 {
-	if(fBuffer3DS)
+	if(!fBuffer3DS)
 	{
 		return;
 	}
@@ -2005,7 +2005,7 @@ void GdtfModel::GetBuffer3DS(void** bufferToCopy, size_t& length)
 
 void GdtfModel::GetBufferSVG(void** bufferToCopy, size_t& length)
 {
-	if(fBufferSVG)
+	if(!fBufferSVG)
 	{
 		return;
 	}
-- 
2.43.0


From d1a4203be586e9c707043a544e347a225f60137a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:45 +0000
Subject: [PATCH 15/96] fix: refreshing a read GDTF keeps all of its files,
 models find their buffers

---
 src/GDTFManager.cpp | 67 ++++++++++++++-------------------------------
 src/GDTFManager.h   |  4 +--
 2 files changed, 23 insertions(+), 48 deletions(-)

diff --git a/src/GDTFManager.cpp b/src/GDTFManager.cpp
index e4cb469..3cba980 100644
--- a/src/GDTFManager.cpp
+++ b/src/GDTFManager.cpp
@@ -1635,46 +1635,38 @@ void GdtfModel::OnReadFromNode(const IXMLFileNodePtr& pNode)
 		TXString filenameSVG = fGeometryFile + ".svg";
 		TXString filenameGLTF = fGeometryFile + ".glb";
 
-		std::map<TXString, std::pair<char*, size_t> > fileBuffers = fParentFixture->GetFileBuffers();
+		std::map<std::string, std::pair<char*, size_t> > fileBuffers = fParentFixture->GetFileBuffers();
 
-		auto buffer = fileBuffers.find(filename3DS);
+		// The files are in the resource folder, but accept them in the root folder too
+		auto findBuffer = [&fileBuffers] (ERessourceType type, const TXString& name)
+		{
+			auto it = fileBuffers.find((SceneData::SceneDataZip::GetResourceSubFolder(type) + name).GetStdString());
+			return it != fileBuffers.end() ? it : fileBuffers.find(name.GetStdString());
+		};
+
+		auto buffer = findBuffer(ERessourceType::Model3DS, filename3DS);
 		if(buffer != fileBuffers.end())
 		{
 			fBufferSize3DS	= buffer->second.second;
 			fBuffer3DS		= new char[fBufferSize3DS];
 			memcpy(fBuffer3DS, buffer->second.first, fBufferSize3DS);
 		}
-		else if(fBufferSize3DS > 0)
-		{
-			std::pair<char*, size_t> bufferPair = std::make_pair(fBuffer3DS, fBufferSize3DS);
-			fileBuffers[filename3DS] = bufferPair;
-		}
 
-		buffer = fileBuffers.find(filenameSVG);
+		buffer = findBuffer(ERessourceType::ModelSVG, filenameSVG);
 		if(buffer != fileBuffers.end())
 		{
 			fBufferSizeSVG	= buffer->second.second;
 			fBufferSVG		= new char[fBufferSizeSVG];
 			memcpy(fBufferSVG, buffer->second.first, fBufferSizeSVG);
 		}
-		else if(fBufferSizeSVG > 0)
-		{
-			std::pair<char*, size_t> bufferPair = std::make_pair(fBufferSVG, fBufferSizeSVG);
-			fileBuffers[filenameSVG] = bufferPair;
-		}
 
-		buffer = fileBuffers.find(filenameGLTF);
+		buffer = findBuffer(ERessourceType::ModelGLTF, filenameGLTF);
 		if(buffer != fileBuffers.end())
 		{
 			fBufferSizeGLTF	= buffer->second.second;
 			fBufferGLTF		= new char[fBufferSizeGLTF];
 			memcpy(fBufferGLTF, buffer->second.first, fBufferSizeGLTF);
 		}
-		else if(fBufferSizeGLTF > 0)
-		{
-			std::pair<char*, size_t> bufferPair = std::make_pair(fBufferGLTF, fBufferSizeGLTF);
-			fileBuffers[filenameGLTF] = bufferPair;
-		}	
 	}
 }
 
@@ -7910,7 +7902,10 @@ bool GdtfFixture::ImportFromZip(IZIPFilePtr& zipfile)
 				size_t	size = 0;							buffer.GetDataSize(size);
 				void*	data = malloc(size * sizeof(char));	buffer.CopyDataInto(data, size); //data is deleted in the GdtfFixture destructor.
 				std::pair<char*, size_t> bufferPair = std::make_pair((char*)data, size);
-				fFileBuffers[fileNameWithoutFolder] = bufferPair;
+				std::string bufferName = fileName; // files in different folders may have the same name
+				std::replace(bufferName.begin(), bufferName.end(), '\\', '/');
+				std::free(fFileBuffers[bufferName].first);
+				fFileBuffers[bufferName] = bufferPair;
 
 				//-----------------------------------------------------------------------------
 				IFolderIdentifierPtr targetFolder (IID_FolderIdentifier);
@@ -9911,35 +9906,15 @@ bool GdtfFixture::ExportToFile(IZIPFilePtr& zipfile)
 	SceneDataZip::AddFileToZip(zipfile, zipXmlBuffer, TXString(XML_GDTF_GDTFFILENAME) );
 
 	//------------------------------------------------------------------------------------
-	// Add meshes
+	// Add the files the fixture was read with
 
 	for (auto it = fFileBuffers.begin(); it != fFileBuffers.end(); it++)
 	{
-		TXString strFileName;
-
-		if(it->first.EndsWith("3ds"))
-		{
-			strFileName = SceneData::SceneDataZip::GetResourceSubFolder(ERessourceType::Model3DS) + it->first;
-		}
+		CZIPFileIOBufferImpl* bufferzip = new CZIPFileIOBufferImpl();
+		bufferzip->SetData((void*)it->second.first, it->second.second);
+		zipfile->AddFile(TXString(it->first.c_str()), bufferzip);
 
-		if(it->first.EndsWith("svg"))
-		{
-			strFileName = SceneData::SceneDataZip::GetResourceSubFolder(ERessourceType::ModelSVG) + it->first;
-		}
-
-		if(it->first.EndsWith("glb"))
-		{
-			strFileName = SceneData::SceneDataZip::GetResourceSubFolder(ERessourceType::ModelGLTF) + it->first;
-		}
-
-		if(!strFileName.IsEmpty())
-		{
-			CZIPFileIOBufferImpl* bufferzip = new CZIPFileIOBufferImpl();
-			bufferzip->SetData((void*)it->second.first, it->second.second);
-			zipfile->AddFile(strFileName, bufferzip);
-
-			delete bufferzip;
-		}
+		delete bufferzip;
 	}
 	
 	return true;
@@ -10229,7 +10204,7 @@ const TGdtfUserPresetArray& GdtfFixture::GetPresetArray()
     return fPresets;
 }
 
-const std::map<TXString, std::pair<char*, size_t> >& GdtfFixture::GetFileBuffers()
+const std::map<std::string, std::pair<char*, size_t> >& GdtfFixture::GetFileBuffers()
 {
 	return fFileBuffers;
 }
diff --git a/src/GDTFManager.h b/src/GDTFManager.h
index 43bdd4c..3c94360 100644
--- a/src/GDTFManager.h
+++ b/src/GDTFManager.h
@@ -2848,7 +2848,7 @@ namespace SceneData
 		// 
 		GdtfAttributePtr 						fNoFeature;
 
-		std::map<TXString, std::pair<char*, size_t> > fFileBuffers;
+		std::map<std::string, std::pair<char*, size_t> > fFileBuffers; // the key is the path in the container
 
 		// Used for big files
 		std::unordered_map<TXString, GdtfAttributePtr, TXStringNoCaseHash>        fAttributeIndex;
@@ -2962,7 +2962,7 @@ namespace SceneData
         const TGdtfUserPresetArray&             GetPresetArray();
         const TGdtfMacroArray&                  GetMacroArray();
 
-		const std::map<TXString, std::pair<char*, size_t> >& GetFileBuffers();
+		const std::map<std::string, std::pair<char*, size_t> >& GetFileBuffers();
         
 	public:
 		virtual EGdtfObjectType					GetObjectType();
-- 
2.43.0


From 4983bd5b73bd7df60e621e2cb13914ea2b8ab085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:00 +0000
Subject: [PATCH 16/96] fix: files added to a GDTF stay in the refreshed buffer

---
 src/Implementation/CGdtfFixture.cpp | 36 +++++++++++++++++++++--------
 src/Implementation/CGdtfFixture.h   |  1 +
 2 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/src/Implementation/CGdtfFixture.cpp b/src/Implementation/CGdtfFixture.cpp
index 30bb1cb..32cb02e 100755
--- a/src/Implementation/CGdtfFixture.cpp
+++ b/src/Implementation/CGdtfFixture.cpp
@@ -155,10 +155,17 @@ VectorworksMVR::VCOMError VectorworksMVR::CGdtfFixtureImpl::AddFileToGdtfFile(Mv
     // Append the SubFoldername for resources.
     strFileName = SceneData::SceneDataZip::GetResourceSubFolder(resType) + strFileName;
 
-	fZipFile->AddFile(strFileName, file);	
-	
-	// Read From File
-	return kVCOMError_NoError;
+    // Keep the data, refreshing the buffer needs it again
+    IRawOSFilePtr rawFile (IID_RawOSFile);
+    if(VCOM_FAILED(rawFile->Open(file, true, false, false, false))) { return kVCOMError_Failed; }
+
+    Uint64 size = 0;
+    rawFile->GetFileSize(size);
+    std::vector<char> data((size_t)size);
+    if(size > 0) { rawFile->Read(0, size, data.data()); }
+    rawFile->Close();
+
+    return AddResource(strFileName, data.data(), (size_t)size);
 }
 
 VectorworksMVR::VCOMError VectorworksMVR::CGdtfFixtureImpl::AddBufferToGdtfFile(MvrString filename, const char* inBuffer, size_t length, GdtfDefines::ERessourceType resType)
@@ -170,14 +177,25 @@ VectorworksMVR::VCOMError VectorworksMVR::CGdtfFixtureImpl::AddBufferToGdtfFile(
     // Append the SubFoldername for resources.
     strFileName = SceneData::SceneDataZip::GetResourceSubFolder(resType) + strFileName;
 
+    return AddResource(strFileName, inBuffer, length);
+}
+
+VectorworksMVR::VCOMError VectorworksMVR::CGdtfFixtureImpl::AddResource(const TXString& fileName, const char* inBuffer, size_t length)
+{
+    // There is already a file with this name
+    for(const auto& b : fBuffersAdded)
+    {
+        if(b.first.GetStdString() == fileName.GetStdString()) { return kVCOMError_InvalidArg; }
+    }
+    if(fFixtureObject->GetFileBuffers().count(fileName.GetStdString())) { return kVCOMError_InvalidArg; }
+
     CZIPFileIOBufferImpl* buffer = new CZIPFileIOBufferImpl();
     buffer->SetData((void*)inBuffer, length);
-    fBuffersAdded.push_back({strFileName, buffer});
+    fBuffersAdded.push_back({fileName, buffer});
 
-	fZipFile->AddFile(strFileName, buffer);	
-	
-	// Read From File
-	return kVCOMError_NoError;
+    fZipFile->AddFile(fileName, buffer);
+
+    return kVCOMError_NoError;
 }
 
 VectorworksMVR::VCOMError VectorworksMVR::CGdtfFixtureImpl::Close()
diff --git a/src/Implementation/CGdtfFixture.h b/src/Implementation/CGdtfFixture.h
index 1c83d09..2d0e771 100755
--- a/src/Implementation/CGdtfFixture.h
+++ b/src/Implementation/CGdtfFixture.h
@@ -157,6 +157,7 @@ namespace VectorworksMVR
 
         private:
         void FreeBuffer();
+        VCOMError AddResource(const TXString& fileName, const char* buffer, size_t length);
 
         // GDTF 1.1
         virtual VCOMError VCOM_CALLTYPE     GetCanHaveChildren(bool& value);
-- 
2.43.0


From 41b9f3643d0b2674ad16707839d792cbc441224f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:57 +0000
Subject: [PATCH 17/96] fix: text that is not valid UTF-8 or UTF-16 does not
 throw out of the library

---
 src/GSString.cpp | 78 ++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 73 insertions(+), 5 deletions(-)

diff --git a/src/GSString.cpp b/src/GSString.cpp
index 05cbb36..2b902ce 100644
--- a/src/GSString.cpp
+++ b/src/GSString.cpp
@@ -41,6 +41,77 @@ inline void utf32BufferToTXCharBuffer(const char32_t* input, TXChar* output, siz
 inline void txCharBufferToUtf32Buffer(const TXChar* input, char32_t* output, size_t bufElemNum = -1);
 inline void utf8BufferToTXCharBuffer(const char* const input, TXChar* output, size_t inputLen);
 
+#if GS_LIN
+//=======================================================================================
+// Text comes from files and from the network: whatever is no valid UTF-8 or UTF-16 is
+// replaced by U+FFFD, std::wstring_convert would throw.
+static std::u16string Utf8ToUtf16(const std::string& src)
+{
+	const char32_t	kReplacement	= 0xFFFD;
+	std::u16string	result;
+	result.reserve(src.size());
+
+	for (size_t at = 0; at < src.size(); )
+	{
+		unsigned char	lead	= (unsigned char)src[at++];
+		char32_t		code	= lead;
+		size_t			follow	= lead < 0x80 ? 0 : lead < 0xC2 ? 4 : lead < 0xE0 ? 1 : lead < 0xF0 ? 2 : lead < 0xF5 ? 3 : 4;
+
+		if		(follow == 4)	{ code = kReplacement; follow = 0; }
+		else if	(follow != 0)	{ code = lead & (0x3F >> follow); }
+
+		for (size_t i = 0; i < follow; i++)
+		{
+			unsigned char next	= at < src.size() ? (unsigned char)src[at] : 0;
+			unsigned char low	= i > 0 ? 0x80 : lead == 0xE0 ? 0xA0 : lead == 0xF0 ? 0x90 : 0x80;
+			unsigned char high	= i > 0 ? 0xBF : lead == 0xED ? 0x9F : lead == 0xF4 ? 0x8F : 0xBF;
+
+			if (next < low || next > high) { code = kReplacement; break; }
+
+			code = (code << 6) | (next & 0x3F);
+			at++;
+		}
+
+		if (code > 0xFFFF)
+		{
+			result.push_back((char16_t)(0xD800 + ((code - 0x10000) >> 10)));
+			result.push_back((char16_t)(0xDC00 + ((code - 0x10000) & 0x3FF)));
+		}
+		else
+		{
+			result.push_back((char16_t)code);
+		}
+	}
+
+	return result;
+}
+
+static std::string Utf16ToUtf8(const std::u16string& src)
+{
+	std::string result;
+	result.reserve(src.size());
+
+	for (size_t at = 0; at < src.size(); at++)
+	{
+		char32_t code = src[at];
+
+		if (code >= 0xD800 && code <= 0xDFFF)
+		{
+			bool pair = code <= 0xDBFF && at + 1 < src.size() && src[at + 1] >= 0xDC00 && src[at + 1] <= 0xDFFF;
+			code = pair ? 0x10000 + ((code - 0xD800) << 10) + (src[++at] - 0xDC00) : 0xFFFD;
+		}
+
+		if		(code < 0x80)		{ result.push_back((char)code); continue; }
+		else if	(code < 0x800)		{ result.push_back((char)(0xC0 | (code >> 6))); }
+		else if	(code < 0x10000)	{ result.push_back((char)(0xE0 | (code >> 12)));	result.push_back((char)(0x80 | ((code >> 6) & 0x3F))); }
+		else						{ result.push_back((char)(0xF0 | (code >> 18)));	result.push_back((char)(0x80 | ((code >> 12) & 0x3F)));	result.push_back((char)(0x80 | ((code >> 6) & 0x3F))); }
+		result.push_back((char)(0x80 | (code & 0x3F)));
+	}
+
+	return result;
+}
+#endif
+
 //#######################################################################################
 // TXString class
 //#######################################################################################
@@ -2407,8 +2478,7 @@ void TXString::PrepareCharBuffer(ETXEncoding encoding) const
 		charPtr = (char*)::operator new(charBufSize);
 	}
 
-	std::wstring_convert<std::codecvt_utf8_utf16<char16_t>, char16_t> convert;
-	std::string str = convert.to_bytes(stdUStr);
+	std::string str = Utf16ToUtf8(stdUStr);
 
 	size_t strLen = str.size();
 	for (size_t i = 0; i < charBufSize && i < strLen; i++)
@@ -2524,9 +2594,7 @@ void TXString::SetStdUStrFromCharBuffer(const char* src, size_t srcLenToUse, ETX
     }
 #elif GS_LIN
 	// LINUX_IMPLEMENTATION - done
-	std::wstring_convert<std::codecvt_utf8_utf16<char16_t>, char16_t> converter;
-	std::string strSrc = std::string(src, strLen);
-	stdUStr = converter.from_bytes(strSrc);
+	stdUStr = Utf8ToUtf16(std::string(src, strLen));
 #else	// Mac
 	if(encoding == ETXEncoding::eUTF8)
 	{
-- 
2.43.0


From 1b042eeb177ae54af901a8622b4f8bbf7e311c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:18 +0000
Subject: [PATCH 18/96] fix: a damaged compressed ZIP entry does not inflate
 endlessly

---
 src/Wrapper/ZIPFileImpl.cpp | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/Wrapper/ZIPFileImpl.cpp b/src/Wrapper/ZIPFileImpl.cpp
index b124c41..83d7428 100644
--- a/src/Wrapper/ZIPFileImpl.cpp
+++ b/src/Wrapper/ZIPFileImpl.cpp
@@ -856,19 +856,22 @@ bool CZIPFileImpl::Inflate( void* pData, size_t dataSize, IZIPFileIOBuffer* outB
 	streamToInflate->total_in = 0;
 	streamToInflate->data_type = 0;
 	
-	CZIPFileIOBufferImpl zipBuffer;
+	std::vector<Uint8> zipBuffer;
 	bool bOk = false;
 	bool bFinished = false;
 
+	// Deflate never makes more out of the data, only a damaged stream does not end
+	const size_t maxInflatedSize = dataSize * 1032 + 1032;
+
 	Uint8* inflateBuffer = new Uint8[ dataSize ];
 	while ( !bFinished )
 	{
 		streamToInflate->next_out = inflateBuffer;
 		streamToInflate->avail_out = (unsigned int)dataSize; 
 		int result = inflate( streamToInflate, Z_NO_FLUSH  );
-		zipBuffer.AppendData( inflateBuffer, ( dataSize - streamToInflate->avail_out ) );
+		zipBuffer.insert( zipBuffer.end(), inflateBuffer, inflateBuffer + ( dataSize - streamToInflate->avail_out ) );
 		bOk = result == Z_STREAM_END;
-		bool bError = result < 0;
+		bool bError = result < 0 || zipBuffer.size() > maxInflatedSize;
 		if ( bError || bOk )
 		{
 			bFinished = true;
@@ -877,13 +880,7 @@ bool CZIPFileImpl::Inflate( void* pData, size_t dataSize, IZIPFileIOBuffer* outB
 	}
 	if ( bOk )
 	{
-		zipBuffer.GetDataSize( dataSize  );
-		Uint8* tempBuffer = new Uint8[ dataSize ];
-		zipBuffer.CopyDataInto( tempBuffer, dataSize );
-		outBuffer->SetData( tempBuffer, dataSize );
-
-		if ( tempBuffer )
-			delete [] tempBuffer;
+		outBuffer->SetData( zipBuffer.data(), zipBuffer.size() );
 	}
 
 	if ( inflateBuffer )
-- 
2.43.0


From 6a9fa66c7e9b8ddd6c8ce6c5e7a622717bde8906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:26 +0000
Subject: [PATCH 19/96] fix: files of a container are only extracted inside of
 the working folder

---
 src/GDTFManager.cpp                  |  2 +-
 src/Implementation/CSceneObjImpl.cpp |  5 +++++
 src/SceneDataExchange.cpp            |  3 ++-
 src/Utility.cpp                      | 24 ++++++++++++++++++++++++
 src/Utility.h                        |  1 +
 5 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/src/GDTFManager.cpp b/src/GDTFManager.cpp
index 3cba980..d441c60 100644
--- a/src/GDTFManager.cpp
+++ b/src/GDTFManager.cpp
@@ -7882,7 +7882,7 @@ bool GdtfFixture::ImportFromZip(IZIPFilePtr& zipfile)
 				// House keeping
 				std::free(data);
 			}
-			else
+			else if (SystemUtil::IsPathInsideOfFolder(fileName))
 			{
 				//-----------------------------------------------------------------------------
 				// Prepare pointer to the new files            
diff --git a/src/Implementation/CSceneObjImpl.cpp b/src/Implementation/CSceneObjImpl.cpp
index 1da2d4f..8a29a74 100644
--- a/src/Implementation/CSceneObjImpl.cpp
+++ b/src/Implementation/CSceneObjImpl.cpp
@@ -431,6 +431,8 @@ VectorworksMVR::VCOMError VectorworksMVR::CSceneObjImpl::GetGdtfFixture(IGdtfFix
 	
 	if (gdtfName.Find(".gdtf") == ptrdiff_t(-1)) { gdtfName += ".gdtf";}
 	
+	if (!SystemUtil::IsPathInsideOfFolder(gdtfName.GetStdString())) { return kVCOMError_FileNotFound; }
+	
 	IFolderIdentifierPtr workingFolder = fContext->GetWorkingFolder();
 	
 	IFileIdentifierPtr gdtfFile (IID_FileIdentifier);
@@ -447,6 +449,9 @@ VectorworksMVR::VCOMError VectorworksMVR::CSceneObjImpl::GetGdtfFixture(IGdtfFix
 	TXString workingFolderName;
 	gdtfFile->GetFileNameWithoutExtension(workingFolderName);
 	
+	// A file called "...gdtf" would make the parent folder the working folder
+	if (!workingFolderName.IsEmpty() && !SystemUtil::IsPathInsideOfFolder(workingFolderName.GetStdString())) { return kVCOMError_FileNotFound; }
+	
 	//---------------------------------------------------------------------------
 	// Initialize Object
 	CGdtfFixtureImpl*	pGdtfFixture	= nullptr;
diff --git a/src/SceneDataExchange.cpp b/src/SceneDataExchange.cpp
index b231634..06822bd 100644
--- a/src/SceneDataExchange.cpp
+++ b/src/SceneDataExchange.cpp
@@ -6,6 +6,7 @@
 #include "HashManager.h"
 #include "GDTFManager.h"
 #include "XmlFileHelper.h"
+#include "Utility.h"
 
 using namespace SceneData;
 
@@ -3753,7 +3754,7 @@ bool SceneDataExchange::ReadFromFile(const IFileIdentifierPtr& file)
 			// House keeping
 			std::free(data);
         }
-        else
+        else if (SystemUtil::IsPathInsideOfFolder(outPath))
         {
 			// Prepare pointer to the new files
 			IFileIdentifierPtr file (IID_FileIdentifier);
diff --git a/src/Utility.cpp b/src/Utility.cpp
index ace1742..b081471 100644
--- a/src/Utility.cpp
+++ b/src/Utility.cpp
@@ -3,6 +3,7 @@
 //-----------------------------------------------------------------------------
 #include "Prefix/StdAfx.h"
 #include "Utility.h"
+#include <algorithm>
 #include <string>
 
 using VectorworksMVR::Filing::IFolderIdentifierPtr; 
@@ -60,6 +61,29 @@ Converts a VWPoint3D to a SVector3.
     svector.z = vector.z;
 }
 
+bool SystemUtil::IsPathInsideOfFolder(const std::string& relativePath)
+/*
+   Checks a path that comes from a container: it must name a file, and it must not leave the folder it is put in.
+*/
+{
+    std::string path = relativePath;
+    std::replace(path.begin(), path.end(), '\\', '/');
+
+    //-----------------------------------------------------------------------------
+    // No empty names, no folders, no absolute paths, no drive letters
+    if (path.empty() || path.front() == '/' || path.back() == '/')  { return false; }
+#ifdef _WINDOWS
+    if (path.find(':') != std::string::npos)                        { return false; }
+#endif
+
+    //-----------------------------------------------------------------------------
+    // A ':' in a file name stands for a '/'
+    std::replace(path.begin(), path.end(), ':', '/');
+
+    path = "/" + path + "/";
+    return path.find("/../") == std::string::npos && path.find("/./") == std::string::npos;
+}
+
 TXString SystemUtil::ExtractFolderFromPath(TXString& path) 
 /* 
    Deletes the folder part from the incoming string so that only the fileNam remains and returns it.    
diff --git a/src/Utility.h b/src/Utility.h
index 1efbc85..d2b9fc9 100644
--- a/src/Utility.h
+++ b/src/Utility.h
@@ -32,5 +32,6 @@ namespace VectorworksMVR
 	{
 	public:
 		static TXString ExtractFolderFromPath(TXString & path);
+		static bool IsPathInsideOfFolder(const std::string& relativePath);
 	};
 }
\ No newline at end of file
-- 
2.43.0


From a76a9a56c808a104fc8e4a982bc44b851ece4488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:57 +0000
Subject: [PATCH 20/96] fix: keep the line endings of GDTFManager.cpp as they
 were before a2567e7

---
 src/GDTFManager.cpp | 26632 +++++++++++++++++++++---------------------
 1 file changed, 13316 insertions(+), 13316 deletions(-)

diff --git a/src/GDTFManager.cpp b/src/GDTFManager.cpp
index d441c60..98fcb90 100644
--- a/src/GDTFManager.cpp
+++ b/src/GDTFManager.cpp
@@ -1,13316 +1,13316 @@
-//-----------------------------------------------------------------------------
-//----- Copyright deersoft 2015 - 2017 www.deersoft.de
-//-----------------------------------------------------------------------------
-#include "GDTFManager.h"
-#include "SceneDataExchange.h"
-#include "XmlFileHelper.h"
-#include "HashManager.h"
-#include <iostream>
-#include "Utility.h"
-#include "FeedbackDispatcher.h"
-#include "Wrapper/ZIPFileImpl.h"
-
-using namespace SceneData;
-
-static std::function<void( bool& )> fAbortCallback;
-static std::mutex fAbortCallbackMutex;
-
-//------------------------------------------------------------------------------------
-// GdtfObject
-GdtfObject::GdtfObject()
-{
-	fBindValue = nullptr;
-}
-
-GdtfObject::~GdtfObject()
-{
-}
-
-void GdtfObject::WriteToNode(IXMLFileNodePtr pContainerNode)
-{
-	// Create the new node
-	IXMLFileNodePtr pNode;
-	if ( VCOM_SUCCEEDED( pContainerNode->CreateChildNode( this->GetNodeName(), & pNode ) ) )
-	{
-		// Store Node
-		fNode = pNode;
-		//-------------------------------------------------------------------------------------
-		// Now Print Everything
-		this->OnPrintToFile(pNode);
-	}
-}
-
-void GdtfObject::ReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	// Store Node
-	fNode = pNode;
-
-	TXString nodeName;
-	pNode->GetNodeName(nodeName);
-	ASSERTN(kEveryone, nodeName == GetNodeName());
-	
-	this->OnReadFromNode(pNode);
-	this->OnErrorCheck(pNode);
-}
-
-void GdtfObject::GetNode(IXMLFileNodePtr& pNode)
-{
-	pNode = fNode;
-}
-
-void GdtfObject::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	// Nothing to do here
-}
-
-void GdtfObject::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	// Nothing to read here
-}
-
-void GdtfObject::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	// Nothing to check here
-}
-
-void GdtfObject::SetBind(void* ptr)
-{
-	fBindValue = ptr;
-}
-
-void* GdtfObject::GetBind()
-{
-	return fBindValue;
-}
-
-void GdtfObject::SetAbortCallback( const std::function<void( bool& )>& cb )
-{
-	std::lock_guard<std::mutex> lock(fAbortCallbackMutex);
-	fAbortCallback = cb;
-}
-
-bool GdtfObject::CheckAbort()
-{
-	std::lock_guard<std::mutex> lock(fAbortCallbackMutex);
-	if (fAbortCallback)
-	{
-		bool abort = false;
-		fAbortCallback(abort);
-		if ( abort )
-		{
-			fAbortReading = abort;
-		}
-		return abort;
-	}
-	return false;
-}
-
-TXString GdtfObject::GetNodeReference()
-{
-	// Nothing to read here
-	DSTOP((kEveryone, "This should be never be executed. You call GetNodeReference on an object that doesn't support this."));
-	return "";
-}
-
-//------------------------------------------------------------------------------------
-// Attributes
-GdtfActivationGroup::GdtfActivationGroup(const TXString& name)
-{
-    fName = name;
-}
-
-GdtfActivationGroup::GdtfActivationGroup()
-{
-
-}
-
-GdtfActivationGroup::~GdtfActivationGroup()
-{
-    
-}
-
-void GdtfActivationGroup::SetName(const TXString & name)
-{
-	fName = name;
-}
-
-void GdtfActivationGroup::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnPrintToFile(pNode);
-	
-	
-	//------------------------------------------------------------------------------------
-	// Print the attributes
-	pNode->SetNodeAttributeValue(XML_GDTF_ActivationGroupName,				fName);
-
-}
-
-void GdtfActivationGroup::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnReadFromNode(pNode);
-	
-	
-	//------------------------------------------------------------------------------------
-	// Get the attributes
-	pNode->GetNodeAttributeValue(XML_GDTF_AttributeName,			fName);
-
-}
-
-void GdtfActivationGroup::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_ActivationGroupName);
-
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfActivationGroup::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfActivationGroup;
-}
-
-TXString GdtfActivationGroup::GetNodeName()
-{
-	return XML_GDTF_ActivationGroupNode;
-}
-
-const TXString& GdtfActivationGroup::GetName() const
-{
-	return fName;
-}
-
-const TGdtfAttributeArray& GdtfActivationGroup::GetLinkedAttributes() const
-{
-	return fLinkedAttributes;
-}
-
-void GdtfActivationGroup::AddLinkedAttribute(GdtfAttribute* attr)
-{
-	fLinkedAttributes.push_back(attr);
-}
-
-TXString GdtfActivationGroup::GetNodeReference()
-{
-	return GetName();
-}
-
-
-//------------------------------------------------------------------------------------
-// GdtfFeature
-GdtfFeature::GdtfFeature(GdtfFeatureGroup* parent)
-{    
-	ASSERTN (kEveryone, parent);	
-	fParent = parent;
-}
-
-GdtfFeature::~GdtfFeature()
-{
-}
-
-void GdtfFeature::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnPrintToFile(pNode);
-	
-	
-	//------------------------------------------------------------------------------------
-	// Print the attributes
-	pNode->SetNodeAttributeValue(XML_GDTF_FeatureName,				fName);
-
-}
-
-void GdtfFeature::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnReadFromNode(pNode);
-	
-	
-	//------------------------------------------------------------------------------------
-	// Get the attributes
-	pNode->GetNodeAttributeValue(XML_GDTF_FeatureName,			fName);
-
-}
-
-void GdtfFeature::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_FeatureName);
-	
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfFeature::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfFeature;
-}
-
-TXString GdtfFeature::GetNodeName()
-{
-	return XML_GDTF_FeatureNode;
-}
-
-const TXString& GdtfFeature::GetName() const
-{
-	return fName;
-}
-
-GdtfFeatureGroup* GdtfFeature::GetFeatureGroup() const
-{
-	return fParent;
-}
-
-const TGdtfAttributeArray& GdtfFeature::GetLinkedAttributes() const
-{
-	return fLinkedAttributes;
-}
-
-void GdtfFeature::AddLinkedAttribute(GdtfAttribute* attr)
-{
-	fLinkedAttributes.push_back(attr);
-}
-
-
-void GdtfFeature::SetName(const TXString & name)
-{
-	fName = name;
-}
-
-TXString GdtfFeature::GetNodeReference()
-{
-	TXString ref = fParent->GetName() + "." + GetName();
-	return ref;
-}
-
-//------------------------------------------------------------------------------------
-// Attributes
-GdtfFeatureGroup::GdtfFeatureGroup()
-{
-	
-}
-
-GdtfFeatureGroup::GdtfFeatureGroup(const TXString& name, const TXString& prettyName)
-{
-	fName = name;
-	fPrettyName = prettyName;
-}
-
-GdtfFeatureGroup::~GdtfFeatureGroup()
-{
-	for (GdtfFeaturePtr pFeature : fFeatures) { delete pFeature; }
-}
-
-void GdtfFeatureGroup::SetName(const TXString& name)
-{
-	fName = name;
-}
-
-void GdtfFeatureGroup::SetPrettyName(const TXString& prettyName)
-{
-	fPrettyName = prettyName;
-}
-
-void GdtfFeatureGroup::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnPrintToFile(pNode);
-	
-	
-	//------------------------------------------------------------------------------------
-	// Print the attributes
-	pNode->SetNodeAttributeValue(XML_GDTF_FeatureGroupName,					fName);
-	pNode->SetNodeAttributeValue(XML_GDTF_FeatureGroupPrettyName,			fPrettyName);
-	
-	//------------------------------------------------------------------------------------
-	// Print the childs
-	for (GdtfFeature* feature : fFeatures)
-	{
-		feature->WriteToNode(pNode);
-	}	
-}
-
-void GdtfFeatureGroup::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnReadFromNode(pNode);
-	
-	
-	//------------------------------------------------------------------------------------
-	// Get the attributes
-	pNode->GetNodeAttributeValue(XML_GDTF_FeatureGroupName,					fName);
-	pNode->GetNodeAttributeValue(XML_GDTF_FeatureGroupPrettyName,			fPrettyName);
-	
-
-	
-	//------------------------------------------------------------------------------------
-	// Read the childs
-	GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_FeatureNode, [this] (IXMLFileNodePtr objNode) -> void
-								 { 
-									 if ( CheckAbort() ) return;
-									 GdtfFeaturePtr feature = new GdtfFeature(this);
-									 
-									 feature->ReadFromNode(objNode);
-									 
-									 fFeatures.push_back(feature);
-									 return;
-								 });
-	
-}
-
-void GdtfFeatureGroup::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_FeatureGroupName);
-	needed.push_back(XML_GDTF_FeatureGroupPrettyName);
-	
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfFeatureGroup::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfFeatureGroup;
-}
-TXString GdtfFeatureGroup::GetNodeName()
-{
-	return XML_GDTF_FeatureGroupNode;
-}
-
-GdtfFeature* GdtfFeatureGroup::AddFeature(const TXString& name)
-{
-	GdtfFeature* feature = new GdtfFeature(this);
-	feature->SetName(name);
-	fFeatures.push_back(feature);
-	return feature;
-}
-
-
-const TXString& GdtfFeatureGroup::GetName() const
-{
-	return fName;
-}
-
-const TXString& GdtfFeatureGroup::GetPrettyName() const
-{
-	return fPrettyName;
-}
-
-const TGdtfFeatureArray& GdtfFeatureGroup::GetFeatureArray()
-{
-	return fFeatures;
-}
-
-//------------------------------------------------------------------------------------
-// GdtfSubPhysicalUnit
-GdtfSubPhysicalUnit::GdtfSubPhysicalUnit()
-{
-	fType = EGdtfSubPhysicalUnitType::PlacementOffset;
-	fPhysicalUnit = EGdtfPhysicalUnit::None;
-	fPhysicalFrom = 0.0;
-	fPhysicalTo = 0.0;
-}
-
-GdtfSubPhysicalUnit::GdtfSubPhysicalUnit(EGdtfSubPhysicalUnitType type)
-{
-	fType 			= type;
-	fPhysicalUnit 	= GdtfConverter::GetUnitFromSubPhysical(type);
-	fPhysicalFrom = 0.0;
-	fPhysicalTo = 0.0;
-}
-
-GdtfSubPhysicalUnit::~GdtfSubPhysicalUnit()
-{
-}
-
-EGdtfSubPhysicalUnitType GdtfSubPhysicalUnit::GetType() const
-{
-	return fType;
-}
-
-EGdtfPhysicalUnit GdtfSubPhysicalUnit::GetPhysicalUnit() const
-{
-	return fPhysicalUnit;
-}
-
-double GdtfSubPhysicalUnit::GetPhysicalFrom() const
-{
-	return fPhysicalFrom;
-}
-
-double GdtfSubPhysicalUnit::GetPhysicalTo() const
-{
-	return fPhysicalTo;
-}
-
-void GdtfSubPhysicalUnit::SetType(const EGdtfSubPhysicalUnitType& type)
-{
-	fType 			= type;
-	fPhysicalUnit 	= GdtfConverter::GetUnitFromSubPhysical(type);
-}
-
-void GdtfSubPhysicalUnit::SetPhysicalUnit(const EGdtfPhysicalUnit& physicalUnit)
-{
-	fPhysicalUnit = physicalUnit;
-}
-
-void GdtfSubPhysicalUnit::SetPhysicalFrom(double physicalFrom)
-{
-	fPhysicalFrom = physicalFrom;
-}
-
-void GdtfSubPhysicalUnit::SetPhysicalTo(double physicalTo)
-{
-	fPhysicalTo = physicalTo;
-}
-
-void GdtfSubPhysicalUnit::OnPrintToFile(IXMLFileNodePtr pNode) 
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnPrintToFile(pNode);
-
-	pNode->SetNodeAttributeValue(XML_GDTF_SubPhysicalUnitType,			GdtfConverter::ConvertSubPhysicalUnitTypeEnum(fType));
-	pNode->SetNodeAttributeValue(XML_GDTF_SubPhysicalUnitPhysicalUnit,	GdtfConverter::ConvertPhysicalUnitEnum(fPhysicalUnit));
-	pNode->SetNodeAttributeValue(XML_GDTF_SubPhysicalUnitPhysicalFrom,	GdtfConverter::ConvertDouble(fPhysicalFrom));
-	pNode->SetNodeAttributeValue(XML_GDTF_SubPhysicalUnitPhysicalTo,	GdtfConverter::ConvertDouble(fPhysicalTo));
-}
-
-void GdtfSubPhysicalUnit::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnReadFromNode(pNode);
-
-	TXString type;			pNode->GetNodeAttributeValue(XML_GDTF_SubPhysicalUnitType,	type);					GdtfConverter::ConvertSubPhysicalUnitTypeEnum(type, 	pNode,	fType);
-	TXString physicalUnit;	pNode->GetNodeAttributeValue(XML_GDTF_SubPhysicalUnitPhysicalUnit,	physicalUnit);	GdtfConverter::ConvertPhysicalUnitEnum(physicalUnit, 	pNode,	fPhysicalUnit);
-	TXString physicalFrom;	pNode->GetNodeAttributeValue(XML_GDTF_SubPhysicalUnitPhysicalFrom,	physicalFrom);	GdtfConverter::ConvertDouble(physicalFrom, 	pNode,	fPhysicalFrom);
-	TXString physicalTo;	pNode->GetNodeAttributeValue(XML_GDTF_SubPhysicalUnitPhysicalTo,	physicalTo);	GdtfConverter::ConvertDouble(physicalTo, 	pNode,	fPhysicalTo);
-}
-
-void GdtfSubPhysicalUnit::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_SubPhysicalUnitType);
-	needed.push_back(XML_GDTF_SubPhysicalUnitPhysicalUnit);
-	optional.push_back(XML_GDTF_SubPhysicalUnitPhysicalFrom);
-	optional.push_back(XML_GDTF_SubPhysicalUnitPhysicalTo);
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfSubPhysicalUnit::GetObjectType() 
-{
-	return EGdtfObjectType::eGdtfSubPhysicalUnit;
-}
-
-TXString GdtfSubPhysicalUnit::GetNodeReference() 
-{
-	return GdtfConverter::ConvertSubPhysicalUnitTypeEnum(fType);
-}
-
-TXString GdtfSubPhysicalUnit::GetNodeName()
-{
-	return XML_GDTF_SubPhysicalUnitNodeName;
-}
-
-//------------------------------------------------------------------------------------
-// Attributes
-GdtfAttribute::GdtfAttribute()
-{
-	fActivationGroup	= nullptr;
-	fFeature            = nullptr;
-    fMainAttribute      = nullptr;
-    fPhysicalUnit       = EGdtfPhysicalUnit::None;
-	fHasColor 			= false;
-
-}
-
-GdtfAttribute::GdtfAttribute(const TXString& name, const TXString& prettyName)
-{
-	fName				= name;
-	fPrettyName			= prettyName;
-	fActivationGroup	= nullptr;
-	fFeature            = nullptr;    
-    fMainAttribute      = nullptr;
-    fPhysicalUnit       = EGdtfPhysicalUnit::None;
-	fHasColor 			= false;
-}
-
-GdtfAttribute::~GdtfAttribute()
-{
-	for(GdtfSubPhysicalUnitPtr subPhysicalUnit : fSubPhysicalUnits) { delete subPhysicalUnit; }
-}
-
-void GdtfAttribute::SetName(const TXString &name)
-{
-	fName = name;
-}
-
-void GdtfAttribute::SetPrettyName(const TXString &name)
-{
-	fPrettyName = name;
-}
-
-void GdtfAttribute::SetActivationGroup(GdtfActivationGroupPtr ptr)
-{
-	ASSERTN(kEveryone, fActivationGroup == nullptr);
-	fActivationGroup = ptr;
-	
-	ASSERTN(kEveryone, ptr != nullptr);
-	if (ptr) { ptr->AddLinkedAttribute(this); }
-}
-
-void SceneData::GdtfAttribute::SetMainAttribute(GdtfAttribute * attr)
-{
-    fMainAttribute = attr;
-}
-
-void SceneData::GdtfAttribute::SetPhysicalUnit(EGdtfPhysicalUnit unit)
-{
-    fPhysicalUnit = unit;
-}
-
-void SceneData::GdtfAttribute::SetColor(const CCieColor & col)
-{
-	fHasColor = true;
-    fColor = col;
-}
-
-GdtfSubPhysicalUnitPtr GdtfAttribute::CreateSubPhysicalUnit(EGdtfSubPhysicalUnitType type)
-{
-	GdtfSubPhysicalUnitPtr subPhysicalUnit = new GdtfSubPhysicalUnit(type);
-    fSubPhysicalUnits.push_back(subPhysicalUnit);
-	return subPhysicalUnit;
-}
-
-void GdtfAttribute::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnPrintToFile(pNode);
-	
-	ASSERTN(kEveryone, fFeature);
-
-	//------------------------------------------------------------------------------------
-	// Print the attributes
-	pNode->SetNodeAttributeValue(XML_GDTF_AttributeName,				fName);
-	pNode->SetNodeAttributeValue(XML_GDTF_AttributePrettyName,			fPrettyName);
-	if (fActivationGroup)	{ pNode->SetNodeAttributeValue(XML_GDTF_AttributeActGroup,	fActivationGroup->GetNodeReference()); }
-	if (fFeature)			{ pNode->SetNodeAttributeValue(XML_GDTF_AttributeFeature,	fFeature->GetNodeReference() );	}	
-    if (fMainAttribute)     { pNode->SetNodeAttributeValue(XML_GDTF_AttributefMainAttribute, fMainAttribute->GetNodeReference()); }
-	if(fHasColor) 			{ pNode->SetNodeAttributeValue(XML_GDTF_AttributeColor, GdtfConverter::ConvertColor(fColor)); }
-
-    pNode->SetNodeAttributeValue(XML_GDTF_AttributePhysicalUnit, GdtfConverter::ConvertPhysicalUnitEnum(fPhysicalUnit));
-
-	for(GdtfSubPhysicalUnitPtr subPhysicalUnit : fSubPhysicalUnits)
-	{
-		subPhysicalUnit->WriteToNode(pNode);
-	}
-	
-}
-
-void GdtfAttribute::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{    
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnReadFromNode(pNode);
-	
-	
-	//------------------------------------------------------------------------------------
-	// Get the attributes
-	pNode->GetNodeAttributeValue(XML_GDTF_AttributeName,			fName);
-	pNode->GetNodeAttributeValue(XML_GDTF_AttributePrettyName,		fPrettyName);
-	
-	pNode->GetNodeAttributeValue(XML_GDTF_AttributeActGroup, fUnresolvedActGroup);
-	pNode->GetNodeAttributeValue(XML_GDTF_AttributeFeature, fUnresolvedFeature);   
-    pNode->GetNodeAttributeValue(XML_GDTF_AttributefMainAttribute, fUnresolvedMainAttrib);
-    TXString physicalUnitStr; pNode->GetNodeAttributeValue(XML_GDTF_AttributePhysicalUnit, physicalUnitStr); 	GdtfConverter::ConvertPhysicalUnitEnum(physicalUnitStr, pNode, fPhysicalUnit);
-
-	TXString colorStr; 
-	if(VCOM_SUCCEEDED(pNode->GetNodeAttributeValue(XML_GDTF_AttributeColor, colorStr)))
-	{
-		GdtfConverter::ConvertColor(colorStr, pNode, fColor);
-		fHasColor = true;
-	}
-
-	GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_SubPhysicalUnitNodeName, [this] (IXMLFileNodePtr objNode) -> void
-								 {
-									if ( CheckAbort() ) return;
-									 // Create the object
-									 GdtfSubPhysicalUnitPtr subPhysicalUnit = new GdtfSubPhysicalUnit();
-									 
-									 // Read from node
-									 subPhysicalUnit->ReadFromNode(objNode);
-									 
-									 // Add to list
-									 fSubPhysicalUnits.push_back(subPhysicalUnit);
-									 return;
-								 });
-}
-
-void GdtfAttribute::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_AttributeName);
-	needed.push_back(XML_GDTF_AttributePrettyName);
-	needed.push_back(XML_GDTF_AttributeFeature);
-	optional.push_back(XML_GDTF_AttributeActGroup);
-	optional.push_back(XML_GDTF_AttributefMainAttribute);
-	optional.push_back(XML_GDTF_AttributePhysicalUnit);
-	optional.push_back(XML_GDTF_AttributeColor);
-
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfAttribute::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfAttribute;
-}
-TXString GdtfAttribute::GetNodeName()
-{
-	return XML_GDTF_AttributeNode;
-}
-
-const TXString& GdtfAttribute::GetName() const
-{
-	return fName;
-}
-
-const TXString& GdtfAttribute::GetPrettyName() const
-{
-	return fPrettyName;
-}
-
-GdtfActivationGroupPtr GdtfAttribute::GetActivationGroup() const
-{
-	return fActivationGroup;
-}
-
-GdtfFeaturePtr GdtfAttribute::GetFeature() const
-{
-	return fFeature;
-}
-
-bool GdtfAttribute::HasColor() const
-{
-	return fHasColor;
-}
-
-const TGdtfSubPhysicalUnitArray& GdtfAttribute::GetSubPhysicalUnitArray() const
-{
-	return fSubPhysicalUnits;
-}		
-
-void GdtfAttribute::SetFeature(GdtfFeaturePtr newFeat)
-{
-	ASSERTN(kEveryone, fFeature == nullptr);
-	fFeature = newFeat;
-	
-	ASSERTN(kEveryone, newFeat != nullptr);
-	if (newFeat) { newFeat->AddLinkedAttribute(this); }
-}
-
-GdtfAttribute * SceneData::GdtfAttribute::GetMainAttribute()
-{
-    return fMainAttribute;
-}
-
-EGdtfPhysicalUnit SceneData::GdtfAttribute::GetPhysicalUnit()
-{
-    return fPhysicalUnit;
-}
-
-CCieColor SceneData::GdtfAttribute::GetColor()
-{
-    return fColor;
-}
-
-TXString GdtfAttribute::GetNodeReference()
-{
-	return GetName();
-}
-
-const TXString& GdtfAttribute::GetUnresolvedActGroup() const
-{
-	return fUnresolvedActGroup;
-}
-
-const TXString& GdtfAttribute::GetUnresolvedMainAttribute() const
-{
-	return fUnresolvedMainAttrib;
-}
-
-const TXString& GdtfAttribute::GetUnresolvedFeature() const
-{
-	return fUnresolvedFeature;
-}
-
-//------------------------------------------------------------------------------------
-// GdtfWheel
-GdtfWheel::GdtfWheel(GdtfFixture* parentFixture)
-{
-	fParentFixture	= parentFixture;
-}
-
-GdtfWheel::GdtfWheel(GdtfFixture* parentFixture, const TXString& name)
-{
-	fName			= name;
-	fParentFixture	= parentFixture;
-}
-
-GdtfWheel::~GdtfWheel()
-{
-	for (GdtfWheelSlotPtr ptr : fWheelSlots) { delete ptr; }
-}
-
-GdtfWheelSlotPtr GdtfWheel::AddWheelSlot(const TXString& name)
-{
-	// Add Slot
-	GdtfWheelSlot* slot  = new GdtfWheelSlot(name, this);
-	
-	fWheelSlots.push_back(slot);
-	
-	return slot;
-}
-
-void GdtfWheel::SetName(const TXString &name)
-{
-	fName = name;
-}
-
-bool GdtfWheel::IsGoboWheel() const
-{
-	for (GdtfWheelSlot* slot : fWheelSlots)
-	{
-		if (slot->GetGobo().IsEmpty()) { return false; }
-	}
-	
-	return true;
-}
-
-TXString GdtfWheel::GetNodeReference()
-{
-	return GetName();
-}
-
-GdtfFixture* GdtfWheel::GetParentFixture() const
-{
-	return fParentFixture;
-}
-
-const TGdtfWheelSlotArray& GdtfWheel::GetWheelSlotArray() const
-{
-	return fWheelSlots;
-}
-
-void GdtfWheel::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnPrintToFile(pNode);
-	
-	//------------------------------------------------------------------------------------
-	// Print the attributes
-	pNode->SetNodeAttributeValue(XML_GDTF_WheelName,			fName);
-	
-	//------------------------------------------------------------------------------------
-	// Print the childs
-	for (GdtfWheelSlot* wheelSlotObj : fWheelSlots)
-	{
-		wheelSlotObj->WriteToNode(pNode);
-	}
-}
-
-void GdtfWheel::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnReadFromNode(pNode);
-	
-	
-	//------------------------------------------------------------------------------------
-	// Get the attributes
-	pNode->GetNodeAttributeValue(XML_GDTF_WheelName,			fName);
-		
-	//------------------------------------------------------------------------------------
-	// Read the wheel slots
-	GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_WheelSlotNodeName, [this] (IXMLFileNodePtr objNode) -> void
-								 {   
-									if ( CheckAbort() ) return;
-									 // Create the object
-									 GdtfWheelSlotPtr wheelSlot = new GdtfWheelSlot(this);
-									 
-									 // Read from node
-									 wheelSlot->ReadFromNode(objNode);
-									 
-									 // Add to list
-									 fWheelSlots.push_back(wheelSlot);
-									 return;
-								 });
-
-	
-}
-
-void GdtfWheel::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_WheelName);
-	
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfWheel::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfWheel;
-}
-
-TXString GdtfWheel::GetNodeName()
-{
-	return XML_GDTF_WheelNodeName;
-}
-
-const TXString& GdtfWheel::GetName() const
-{
-	return fName;
-}
-
-//------------------------------------------------------------------------------------
-// GdtfWheelSlotPrismFacet
-GdtfWheelSlotPrismFacet::GdtfWheelSlotPrismFacet()
-{
-	fColor = CCieColor(0.3127,0.3290,100.0);
-}
-
-GdtfWheelSlotPrismFacet::~GdtfWheelSlotPrismFacet()
-{
-}
-
-void GdtfWheelSlotPrismFacet::SetColor(const CCieColor &color)
-{
-	fColor = color;
-}
-
-void GdtfWheelSlotPrismFacet::SetTransformMatrix(const VWFC::Math::VWTransformMatrix &ma)
-{
-	fTransform = ma;
-}
-
-void GdtfWheelSlotPrismFacet::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnPrintToFile(pNode);
-	
-	pNode->SetNodeAttributeValue(XML_GDTF_PrismFacetColor,		GdtfConverter::ConvertColor(fColor));
-	pNode->SetNodeAttributeValue(XML_GDTF_PrismFacetRotation,	GdtfConverter::ConvertRotation(fTransform));
-}
-
-CCieColor GdtfWheelSlotPrismFacet::GetColor()
-{
-	return fColor;
-}
-
-VWTransformMatrix GdtfWheelSlotPrismFacet::GetTransformMatrix()
-{
-	return fTransform;
-}
-
-void GdtfWheelSlotPrismFacet::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnReadFromNode(pNode);
-	
-	TXString color;		pNode->GetNodeAttributeValue(XML_GDTF_PrismFacetColor,		color);		GdtfConverter::ConvertColor(color, pNode, fColor);
-	TXString transfrom;	pNode->GetNodeAttributeValue(XML_GDTF_PrismFacetRotation,	transfrom);	GdtfConverter::ConvertRotation(transfrom, pNode, fTransform);
-	
-}
-
-void GdtfWheelSlotPrismFacet::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_PrismFacetRotation);
-	optional.push_back(XML_GDTF_PrismFacetColor);
-	
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfWheelSlotPrismFacet::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfPrismFacet;
-}
-TXString GdtfWheelSlotPrismFacet::GetNodeName()
-{
-	return XML_GDTF_PrismFacetNodeName;
-}
-
-//------------------------------------------------------------------------------------
-// GdtfWheelSlotAnimationSystem
-GdtfWheelSlotAnimationSystem::GdtfWheelSlotAnimationSystem()
-{
-}
-
-GdtfWheelSlotAnimationSystem::~GdtfWheelSlotAnimationSystem()
-{
-}
-
-double GdtfWheelSlotAnimationSystem::GetP1_X()
-{
-	return fP1_X;
-}
-
-double GdtfWheelSlotAnimationSystem::GetP1_Y()
-{
-	return fP1_Y;
-}
-
-double GdtfWheelSlotAnimationSystem::GetP2_X()
-{
-	return fP2_X;
-}
-
-double GdtfWheelSlotAnimationSystem::GetP2_Y()
-{
-	return fP2_Y;
-}
-
-double GdtfWheelSlotAnimationSystem::GetP3_X()
-{
-	return fP3_X;
-}
-
-double GdtfWheelSlotAnimationSystem::GetP3_Y()
-{
-	return fP3_Y;
-}
-
-double GdtfWheelSlotAnimationSystem::GetRadius()
-{
-	return fRadius;
-}
-
-void GdtfWheelSlotAnimationSystem::SetP1_X(double p1_X)
-{
-	fP1_X = p1_X;
-}
-
-void GdtfWheelSlotAnimationSystem::SetP1_Y(double p1_Y)
-{
-	fP1_Y = p1_Y;
-}
-
-void GdtfWheelSlotAnimationSystem::SetP2_X(double p2_X)
-{
-	fP2_X = p2_X;
-}
-
-void GdtfWheelSlotAnimationSystem::SetP2_Y(double p2_Y)
-{
-	fP2_Y = p2_Y;
-}
-
-void GdtfWheelSlotAnimationSystem::SetP3_X(double p3_X)
-{
-	fP3_X = p3_X;
-}
-
-void GdtfWheelSlotAnimationSystem::SetP3_Y(double p3_Y)
-{
-	fP3_Y = p3_Y;
-}
-
-void GdtfWheelSlotAnimationSystem::SetRadius(double radius)
-{
-	fRadius = radius;
-}
-
-void GdtfWheelSlotAnimationSystem::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnPrintToFile(pNode);
-	
-	pNode->SetNodeAttributeValue(XML_GDTF_AnimationSystemP1,		GdtfConverter::Convert2DPoint(fP1_X, fP1_Y));
-	pNode->SetNodeAttributeValue(XML_GDTF_AnimationSystemP2,		GdtfConverter::Convert2DPoint(fP2_X, fP2_Y));
-	pNode->SetNodeAttributeValue(XML_GDTF_AnimationSystemP3,		GdtfConverter::Convert2DPoint(fP3_X, fP3_Y));
-	pNode->SetNodeAttributeValue(XML_GDTF_AnimationSystemRadius,	GdtfConverter::ConvertDouble(fRadius));
-}
-
-void GdtfWheelSlotAnimationSystem::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnReadFromNode(pNode);
-	
-	TXString p1;		pNode->GetNodeAttributeValue(XML_GDTF_AnimationSystemP1,		p1);		GdtfConverter::Convert2DPoint(p1, pNode, fP1_X, fP1_Y);
-	TXString p2;		pNode->GetNodeAttributeValue(XML_GDTF_AnimationSystemP2,		p2);		GdtfConverter::Convert2DPoint(p2, pNode, fP2_X, fP2_Y);
-	TXString p3;		pNode->GetNodeAttributeValue(XML_GDTF_AnimationSystemP3,		p3);		GdtfConverter::Convert2DPoint(p3, pNode, fP3_X, fP3_Y);
-	TXString radius;	pNode->GetNodeAttributeValue(XML_GDTF_AnimationSystemRadius,	radius);	GdtfConverter::ConvertDouble(radius, pNode, fRadius);
-}
-
-void GdtfWheelSlotAnimationSystem::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_AnimationSystemP1);
-	needed.push_back(XML_GDTF_AnimationSystemP2);
-	needed.push_back(XML_GDTF_AnimationSystemP3);
-	needed.push_back(XML_GDTF_AnimationSystemRadius);
-	
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfWheelSlotAnimationSystem::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfAnimationSystem;
-}
-
-TXString GdtfWheelSlotAnimationSystem::GetNodeName()
-{
-	return XML_GDTF_AnimationSystemNodeName;
-}
-
-//------------------------------------------------------------------------------------
-// GdtfWheelSlot
-GdtfWheelSlot::GdtfWheelSlot(GdtfWheel* parent)
-{
-	fWheelParent 		= parent;
-	fFilter 	 		= nullptr;
-	fAnimationSystem	= nullptr;
-	fDuration			= 0.0;
-	fWidth				= 0;
-	fHeight				= 0;
-	fFPS				= 0;
-}
-
-GdtfWheelSlot::GdtfWheelSlot(const TXString& name, GdtfWheel* parent)
-{
-	fName		 		= name;
-	fWheelParent 		= parent;
-	fFilter		 		= nullptr;
-	fAnimationSystem	= nullptr;
-	fDuration			= 0.0;
-	fWidth				= 0;
-	fHeight				= 0;
-	fFPS				= 0;
-}
-
-
-GdtfWheelSlot::~GdtfWheelSlot()
-{
-	for(GdtfWheelSlotPrismFacet* facet : fPrismFacts) { delete facet; };
-	if(fAnimationSystem){
-		delete fAnimationSystem;
-	}
-}
-
-void GdtfWheelSlot::SetName(const TXString &name)
-{
-	fName = name;
-}
-
-void GdtfWheelSlot::SetGobo(const GdtfPNGFile& png)
-{
-	fGobo = png;
-}
-
-void GdtfWheelSlot::SetColor(const CCieColor& color)
-{
-	fColor = color;
-}
-
-void GdtfWheelSlot::SetFilter(GdtfFilter* filter)
-{
-	fFilter = filter;
-}
-
-GdtfWheelSlotPrismFacet* GdtfWheelSlot::AddPrismFacet()
-{
-	GdtfWheelSlotPrismFacet* prism = new GdtfWheelSlotPrismFacet();
-	fPrismFacts.push_back(prism);
-	return prism;
-}
-
-GdtfWheelSlotAnimationSystem* GdtfWheelSlot::AddAnimationSystem()
-{
-	if(fAnimationSystem){
-		delete fAnimationSystem;
-	}
-	GdtfWheelSlotAnimationSystem* animationSystem = new GdtfWheelSlotAnimationSystem();
-	fAnimationSystem = animationSystem;
-	return animationSystem;
-}
-
-const TXString&	GdtfWheelSlot::GetGobo() const
-{
-	return fGobo;
-}
-
-GdtfFilter*	GdtfWheelSlot::GetFilter() const
-{
-	return fFilter;
-}
-
-const TXString&	GdtfWheelSlot::GetUnresolvedFilter() const
-{
-	return fUnresolvedFilter;
-}
-
-const TXString&	GdtfWheelSlot::GetGoboFileFullPath()
-{
-	fGoboFile = "";
-
-	IFolderIdentifierPtr	folder;
-	fWheelParent->GetParentFixture()->GetWorkingFolder(folder);
-
-	IFolderIdentifierPtr wheelsFolder (IID_FolderIdentifier);
- 	wheelsFolder->Set(folder, "wheels");
-	
-	IFileIdentifierPtr file (IID_FileIdentifier);		 	
- 	file->Set(wheelsFolder, fGobo + ".png");
-	bool fileExists = false;
- 	if(VCOM_SUCCEEDED(file->ExistsOnDisk(fileExists)) && fileExists)		 	
-	{			
-		file->GetFileFullPath(fGoboFile);				
-	}			
-
-	
-	// Return
-	return fGoboFile;
-}
-
-CCieColor GdtfWheelSlot::GetColor() const
-{
-	return fColor;
-}
-
-const TXString& GdtfWheelSlot::GetName() const
-{
-	return fName;
-}
-
-void GdtfWheelSlot::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnPrintToFile(pNode);
-	
-	
-	// ------------------------------------------------------------------------------------
-	// Print node attributes
-	pNode->SetNodeAttributeValue(XML_GDTF_WheelSlotName,	fName);
-	pNode->SetNodeAttributeValue(XML_GDTF_WheelSlotColor,		GdtfConverter::ConvertColor(fColor));
-	if(fGobo != "")	{ pNode->SetNodeAttributeValue(XML_GDTF_WheelSlotPicture,	fGobo); }
-	if(fFilter)	{ pNode->SetNodeAttributeValue(XML_GDTF_WheelSlotFilter,		fFilter->GetNodeReference()); }
-	if(fDuration != 0.0)	{ pNode->SetNodeAttributeValue(XML_GDTF_WheelSlotDuration,	GdtfConverter::ConvertDouble(fDuration)); }
-	if(fWidth != 0)			{ pNode->SetNodeAttributeValue(XML_GDTF_WheelSlotWidth,		GdtfConverter::ConvertInteger(fWidth)); }
-	if(fHeight != 0)		{ pNode->SetNodeAttributeValue(XML_GDTF_WheelSlotHeight,	GdtfConverter::ConvertInteger(fHeight)); }
-	if(fFPS != 0)			{ pNode->SetNodeAttributeValue(XML_GDTF_WheelSlotFPS,		GdtfConverter::ConvertInteger(fFPS)); }
-	
-	//------------------------------------------------------------------------------------
-	// Print the children
-	for (GdtfWheelSlotPrismFacet* prism : fPrismFacts)
-	{
-		prism->WriteToNode(pNode);
-	}
-
-	//------------------------------------------------------------------------------------
-	// Print the animation system
-	if(fAnimationSystem) { fAnimationSystem->WriteToNode(pNode); }
-}
-
-void GdtfWheelSlot::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnReadFromNode(pNode);
-
-	
-	// ------------------------------------------------------------------------------------
-	// Get Name
-	pNode->GetNodeAttributeValue(XML_GDTF_WheelSlotName,	fName);
-	
-	// ------------------------------------------------------------------------------------
-	// Get Color
-	TXString color;
-	if (VCOM_SUCCEEDED(pNode->GetNodeAttributeValue(XML_GDTF_WheelSlotColor, color)))
-	{
-		if (color.IsEmpty() == false)
-		{
-            GdtfConverter::ConvertColor(color, pNode, this->fColor);
-		}
-	}
-	
-	// ------------------------------------------------------------------------------------
-	// Get Gobo
-	pNode->GetNodeAttributeValue(XML_GDTF_WheelSlotPicture, fGobo);
-	
-
-	pNode->GetNodeAttributeValue(XML_GDTF_WheelSlotFilter,	fUnresolvedFilter);
-
-	TXString duration, width, height, fps;
-	pNode->GetNodeAttributeValue(XML_GDTF_WheelSlotDuration,	duration);
-	pNode->GetNodeAttributeValue(XML_GDTF_WheelSlotWidth,		width);
-	pNode->GetNodeAttributeValue(XML_GDTF_WheelSlotHeight,		height);
-	pNode->GetNodeAttributeValue(XML_GDTF_WheelSlotFPS,			fps);
-	if(!duration.IsEmpty())	{ GdtfConverter::ConvertDouble(duration,	pNode, fDuration); }
-	if(!width.IsEmpty())	{ GdtfConverter::ConvertInteger(width,		pNode, fWidth); }
-	if(!height.IsEmpty())	{ GdtfConverter::ConvertInteger(height,		pNode, fHeight); }
-	if(!fps.IsEmpty())		{ GdtfConverter::ConvertInteger(fps,		pNode, fFPS); }
-	
-	//------------------------------------------------------------------------------------
-	// Read the wheel slots
-	GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_PrismFacetNodeName, [this] (IXMLFileNodePtr objNode) -> void
-								{
-									if ( CheckAbort() ) return;
-									// Create the object
-									GdtfWheelSlotPrismFacetPtr facet = new GdtfWheelSlotPrismFacet();
-									
-									// Read from node
-									facet->ReadFromNode(objNode);
-									
-									// Add to list
-									fPrismFacts.push_back(facet);
-									return;
-								});
-	
-	//Animation System
-	IXMLFileNodePtr animationSystemNode;
-	pNode->GetChildNode(XML_GDTF_AnimationSystemNodeName, &animationSystemNode);
-	if(animationSystemNode != nullptr)
-	{
-		if(fAnimationSystem){
-			delete fAnimationSystem;
-		}
-		GdtfWheelSlotAnimationSystemPtr animationSystem = new GdtfWheelSlotAnimationSystem();
-		animationSystem->ReadFromNode(animationSystemNode);
-		fAnimationSystem = animationSystem;
-	}
-	
-
-}
-
-void GdtfWheelSlot::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_WheelSlotName);
-	optional.push_back(XML_GDTF_WheelSlotColor);
-	optional.push_back(XML_GDTF_WheelSlotPicture);
-	optional.push_back(XML_GDTF_WheelSlotFilter);
-	optional.push_back(XML_GDTF_WheelSlotDuration);
-	optional.push_back(XML_GDTF_WheelSlotWidth);
-	optional.push_back(XML_GDTF_WheelSlotHeight);
-	optional.push_back(XML_GDTF_WheelSlotFPS);
-
-	
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfWheelSlot::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfWheelSlot;
-}
-TXString GdtfWheelSlot::GetNodeName()
-{
-	return XML_GDTF_WheelSlotNodeName;
-}
-
-TGdtfWheelSlotPrismFacetArray GdtfWheelSlot::GetPrismFacets()
-{
-	return fPrismFacts;
-}
-
-TXString GdtfWheelSlot::GetNodeReference()
-{
-	TXString ref = fWheelParent->GetNodeReference() + "." + GetName();
-	return ref;
-}
-
-GdtfWheelSlotAnimationSystem* GdtfWheelSlot::GetAnimationSystem() const
-{
-	return fAnimationSystem;
-}
-
-double GdtfWheelSlot::GetDuration() const { return fDuration; }
-size_t GdtfWheelSlot::GetWidth()    const { return fWidth; }
-size_t GdtfWheelSlot::GetHeight()   const { return fHeight; }
-size_t GdtfWheelSlot::GetFPS()      const { return fFPS; }
-
-void GdtfWheelSlot::SetDuration(double duration) { fDuration = duration; }
-void GdtfWheelSlot::SetWidth(size_t width)       { fWidth = width; }
-void GdtfWheelSlot::SetHeight(size_t height)     { fHeight = height; }
-void GdtfWheelSlot::SetFPS(size_t fps)           { fFPS = fps; }
-
-//------------------------------------------------------------------------------------
-// GdtfModel
-GdtfModel::GdtfModel(GdtfFixture* fixture)
-{
-	fUniqueName		= "";
-	fLength			= 0;
-	fWidth			= 0;
-	fHeight			= 0;
-	fPrimitiveType	= eGdtfModel_PrimitiveType_Undefined;
-	fGeometryFile	= "";
-	fParentFixture	= fixture;
-	fBuffer3DS 		= nullptr;
-	fBufferSVG 		= nullptr;
-	fBufferGLTF		= nullptr;
-	fBufferSize3DS	= 0;
-	fBufferSizeSVG	= 0;
-	fBufferSizeGLTF	= 0;
-
-	fSVGOffsetX			= 0;
-	fSVGOffsetY			= 0;
-	fSVGSideOffsetX		= 0;
-	fSVGSideOffsetY		= 0;
-	fSVGFrontOffsetX	= 0;
-	fSVGFrontOffsetY	= 0;
-}
-
-GdtfModel::GdtfModel(const TXString& name, GdtfFixture* fixture)
-{
-	fUniqueName		= name;
-	fLength			= 0;
-	fWidth			= 0;
-	fHeight			= 0;
-	fPrimitiveType	= eGdtfModel_PrimitiveType_Undefined;
-	fGeometryFile	= "";
-	fParentFixture	= fixture;
-	fBuffer3DS 		= nullptr;
-	fBufferSVG 		= nullptr;
-	fBufferGLTF		= nullptr;
-	fBufferSize3DS	= 0;
-	fBufferSizeSVG	= 0;
-	fBufferSizeGLTF	= 0;
-
-	fSVGOffsetX			= 0;
-	fSVGOffsetY			= 0;
-	fSVGSideOffsetX		= 0;
-	fSVGSideOffsetY		= 0;
-	fSVGFrontOffsetX	= 0;
-	fSVGFrontOffsetY	= 0;
-}
-
-GdtfModel::~GdtfModel()
-{
-	if(fBuffer3DS) 	{ delete[] fBuffer3DS; 	fBufferSize3DS = 0; }
-	if(fBufferSVG)	{ delete[] fBufferSVG; 	fBufferSizeSVG = 0; }
-	if(fBufferGLTF) { delete[] fBufferGLTF; fBufferSizeGLTF = 0; }
-}
-
-void GdtfModel::SetName(const TXString& name)
-{
-	fUniqueName = name;
-}
-
-void GdtfModel::SetLength(const double& length)
-{
-	fLength = length;
-}
-
-void GdtfModel::SetWidth(const double& width)
-{
-	fWidth = width;
-}
-
-void GdtfModel::SetHeight(const double &height)
-{
-	fHeight = height;
-}
-
-void GdtfModel::SetPrimitiveType(const EGdtfModel_PrimitiveType &type)
-{
-	fPrimitiveType = type;
-}
-
-void GdtfModel::SetGeometryFile(const TXString &file)
-{
-	fGeometryFile = file;
-}
-
-void GdtfModel::SetBuffer3DS(void* bufferToCopy, size_t length)
-{
-	if(fBuffer3DS)
-	{
-		delete[] fBuffer3DS;
-		fBuffer3DS = nullptr;
-	}
-
-	fBuffer3DS		= new char[length];
-	fBufferSize3DS	= length;
-	memcpy(fBuffer3DS, bufferToCopy, length);
-}
-
-void GdtfModel::SetBufferSVG(void* bufferToCopy, size_t length)
-{
-	if(fBufferSVG)
-	{
-		delete[] fBufferSVG;
-		fBufferSVG = nullptr;
-	}
-
-	fBufferSVG 		= new char[length];
-	fBufferSizeSVG 	= length;
-	memcpy(fBufferSVG, bufferToCopy, length);
-}
-
-void GdtfModel::SetBufferGLTF(void* bufferToCopy, size_t length)
-{
-	if(fBufferGLTF)
-	{
-		delete[] fBufferGLTF;
-		fBufferGLTF = nullptr;
-	}
-
-	fBufferGLTF			= new char[length];
-	fBufferSizeGLTF 	= length;
-	memcpy(fBufferGLTF, bufferToCopy, length);
-}
-
-void GdtfModel::SetSVGOffsetX(double svgOffsetX)
-{
-	fSVGOffsetX = svgOffsetX;
-}
-
-void GdtfModel::SetSVGOffsetY(double svgOffsetY)
-{
-	fSVGOffsetY = svgOffsetY;
-}
-
-void GdtfModel::SetSVGSideOffsetX(double svgSideOffsetX)
-{
-	fSVGSideOffsetX = svgSideOffsetX;
-}
-
-void GdtfModel::SetSVGSideOffsetY(double svgSideOffsetY)
-{
-	fSVGSideOffsetY = svgSideOffsetY;
-}
-
-void GdtfModel::SetSVGFrontOffsetX(double svgFrontOffsetX)
-{
-	fSVGFrontOffsetX = svgFrontOffsetX;
-}
-
-void GdtfModel::SetSVGFrontOffsetY(double svgFrontOffsetY)
-{
-	fSVGFrontOffsetY = svgFrontOffsetY;
-}
-
-void GdtfModel::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnPrintToFile(pNode);
-	
-	
-	// ------------------------------------------------------------------------------------
-	// Print node attributes
-	pNode->SetNodeAttributeValue(XML_GDTF_ModelName,			fUniqueName);
-	pNode->SetNodeAttributeValue(XML_GDTF_ModelLength,			GdtfConverter::ConvertDouble(fLength));
-	pNode->SetNodeAttributeValue(XML_GDTF_ModelWidth,			GdtfConverter::ConvertDouble(fWidth));
-	pNode->SetNodeAttributeValue(XML_GDTF_ModelHeight,			GdtfConverter::ConvertDouble(fHeight));
-	pNode->SetNodeAttributeValue(XML_GDTF_ModelPrimitiveType,	GdtfConverter::ConvertPrimitiveType(fPrimitiveType));
-	pNode->SetNodeAttributeValue(XML_GDTF_ModelFile,			fGeometryFile);
-	pNode->SetNodeAttributeValue(XML_GDTF_ModelSVGOffsetX,		GdtfConverter::ConvertDouble(fSVGOffsetX));
-	pNode->SetNodeAttributeValue(XML_GDTF_ModelSVGOffsetY,		GdtfConverter::ConvertDouble(fSVGOffsetY));
-	pNode->SetNodeAttributeValue(XML_GDTF_ModelSVGSideOffsetX,	GdtfConverter::ConvertDouble(fSVGSideOffsetX));
-	pNode->SetNodeAttributeValue(XML_GDTF_ModelSVGSideOffsetY,	GdtfConverter::ConvertDouble(fSVGSideOffsetY));
-	pNode->SetNodeAttributeValue(XML_GDTF_ModelSVGFrontOffsetX,	GdtfConverter::ConvertDouble(fSVGFrontOffsetX));
-	pNode->SetNodeAttributeValue(XML_GDTF_ModelSVGFrontOffsetY,	GdtfConverter::ConvertDouble(fSVGFrontOffsetY));
-}
-
-void GdtfModel::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnReadFromNode(pNode);
-
-	
-	// ------------------------------------------------------------------------------------
-	// Read node attributes
-	pNode->GetNodeAttributeValue(XML_GDTF_ModelName,			fUniqueName);
-	
-	// Convert Doubles
-	TXString length;			pNode->GetNodeAttributeValue(XML_GDTF_ModelLength,			length);			GdtfConverter::ConvertDouble(length, 			pNode, 	fLength);
-	TXString width;				pNode->GetNodeAttributeValue(XML_GDTF_ModelWidth,			width);				GdtfConverter::ConvertDouble(width, 			pNode,  fWidth);
-	TXString height;			pNode->GetNodeAttributeValue(XML_GDTF_ModelHeight,			height);			GdtfConverter::ConvertDouble(height, 			pNode, 	fHeight);
-	TXString svgOffsetX;		pNode->GetNodeAttributeValue(XML_GDTF_ModelSVGOffsetX,		svgOffsetX);		GdtfConverter::ConvertDouble(svgOffsetX, 		pNode, 	fSVGOffsetX);
-	TXString svgOffsetY;		pNode->GetNodeAttributeValue(XML_GDTF_ModelSVGOffsetY,		svgOffsetY);		GdtfConverter::ConvertDouble(svgOffsetY, 		pNode, 	fSVGOffsetY);
-	TXString svgSideOffsetX;	pNode->GetNodeAttributeValue(XML_GDTF_ModelSVGSideOffsetX,	svgSideOffsetX);	GdtfConverter::ConvertDouble(svgSideOffsetX, 	pNode, 	fSVGSideOffsetX);
-	TXString svgSideOffsetY;	pNode->GetNodeAttributeValue(XML_GDTF_ModelSVGSideOffsetY,	svgSideOffsetY);	GdtfConverter::ConvertDouble(svgSideOffsetY, 	pNode, 	fSVGSideOffsetY);
-	TXString svgFrontOffsetX;	pNode->GetNodeAttributeValue(XML_GDTF_ModelSVGFrontOffsetX,	svgFrontOffsetX);	GdtfConverter::ConvertDouble(svgFrontOffsetX,	pNode, 	fSVGFrontOffsetX);
-	TXString svgFrontOffsetY;	pNode->GetNodeAttributeValue(XML_GDTF_ModelSVGFrontOffsetY,	svgFrontOffsetY);	GdtfConverter::ConvertDouble(svgFrontOffsetY, 	pNode, 	fSVGFrontOffsetY);
-	TXString type;				pNode->GetNodeAttributeValue(XML_GDTF_ModelPrimitiveType,	type);				GdtfConverter::ConvertPrimitiveType(type, 		pNode, 	fPrimitiveType);
-								pNode->GetNodeAttributeValue(XML_GDTF_ModelFile,			fGeometryFile);
-
-	if(!fGeometryFile.IsEmpty())
-	{
-		TXString filename3DS = fGeometryFile + ".3ds";
-		TXString filenameSVG = fGeometryFile + ".svg";
-		TXString filenameGLTF = fGeometryFile + ".glb";
-
-		std::map<std::string, std::pair<char*, size_t> > fileBuffers = fParentFixture->GetFileBuffers();
-
-		// The files are in the resource folder, but accept them in the root folder too
-		auto findBuffer = [&fileBuffers] (ERessourceType type, const TXString& name)
-		{
-			auto it = fileBuffers.find((SceneData::SceneDataZip::GetResourceSubFolder(type) + name).GetStdString());
-			return it != fileBuffers.end() ? it : fileBuffers.find(name.GetStdString());
-		};
-
-		auto buffer = findBuffer(ERessourceType::Model3DS, filename3DS);
-		if(buffer != fileBuffers.end())
-		{
-			fBufferSize3DS	= buffer->second.second;
-			fBuffer3DS		= new char[fBufferSize3DS];
-			memcpy(fBuffer3DS, buffer->second.first, fBufferSize3DS);
-		}
-
-		buffer = findBuffer(ERessourceType::ModelSVG, filenameSVG);
-		if(buffer != fileBuffers.end())
-		{
-			fBufferSizeSVG	= buffer->second.second;
-			fBufferSVG		= new char[fBufferSizeSVG];
-			memcpy(fBufferSVG, buffer->second.first, fBufferSizeSVG);
-		}
-
-		buffer = findBuffer(ERessourceType::ModelGLTF, filenameGLTF);
-		if(buffer != fileBuffers.end())
-		{
-			fBufferSizeGLTF	= buffer->second.second;
-			fBufferGLTF		= new char[fBufferSizeGLTF];
-			memcpy(fBufferGLTF, buffer->second.first, fBufferSizeGLTF);
-		}
-	}
-}
-
-void GdtfModel::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_ModelName);
-	optional.push_back(XML_GDTF_ModelFile);
-	optional.push_back(XML_GDTF_ModelLength);
-	optional.push_back(XML_GDTF_ModelWidth);
-	optional.push_back(XML_GDTF_ModelHeight);
-	optional.push_back(XML_GDTF_ModelPrimitiveType);
-	optional.push_back(XML_GDTF_ModelSVGOffsetX);
-	optional.push_back(XML_GDTF_ModelSVGOffsetY);
-	optional.push_back(XML_GDTF_ModelSVGSideOffsetX);
-	optional.push_back(XML_GDTF_ModelSVGSideOffsetY);
-	optional.push_back(XML_GDTF_ModelSVGFrontOffsetX);
-	optional.push_back(XML_GDTF_ModelSVGFrontOffsetY);
-
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfModel::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfModel;
-}
-TXString GdtfModel::GetNodeName()
-{
-	return XML_GDTF_ModelNodeName;
-}
-
-TXString GdtfModel::GetNodeReference()
-{
-	return GetName();
-}
-
-const TXString& GdtfModel::GetGeometryFileName() const
-{
-	return fGeometryFile;
-}
-
-const TXString& GdtfModel::GetGeometryFile_3DS_FullPath()
-{
-	fFullPath3DS = "";
-	// Set to store
-	IFolderIdentifierPtr folder (IID_FolderIdentifier);
-	fParentFixture->GetWorkingFolder(folder);
-
-	IFolderIdentifierPtr model3DsFolder (IID_FolderIdentifier);
-	model3DsFolder->Set(folder, "models3ds");
-
-	IFileIdentifierPtr file (IID_FileIdentifier);
-	file->Set(model3DsFolder, fGeometryFile + ".3ds");
-
-	bool fileExists = false;
-	if(VCOM_SUCCEEDED(file->ExistsOnDisk(fileExists)) && fileExists)
-	{
-		file->GetFileFullPath(fFullPath3DS);
-	}
-	
-	return fFullPath3DS;
-}
-
-const TXString& GdtfModel::GetGeometryFile_3DSLow_FullPath()
-{
-	fFullPath3DS = "";
-	// Set to store
-	IFolderIdentifierPtr folder (IID_FolderIdentifier);
-	fParentFixture->GetWorkingFolder(folder);
-
-	IFolderIdentifierPtr model3DsFolder (IID_FolderIdentifier);
-	model3DsFolder->Set(folder, "models3ds_low");
-
-	IFileIdentifierPtr file (IID_FileIdentifier);
-	file->Set(model3DsFolder, fGeometryFile + ".3ds");
-
-	bool fileExists = false;
-	if(VCOM_SUCCEEDED(file->ExistsOnDisk(fileExists)) && fileExists)
-	{
-		file->GetFileFullPath(fFullPath3DS);
-	}
-	
-	return fFullPath3DS;
-}
-
-const TXString& GdtfModel::GetGeometryFile_3DSHigh_FullPath()
-{
-	fFullPath3DS = "";
-	// Set to store
-	IFolderIdentifierPtr folder (IID_FolderIdentifier);
-	fParentFixture->GetWorkingFolder(folder);
-
-	IFolderIdentifierPtr model3DsFolder (IID_FolderIdentifier);
-	model3DsFolder->Set(folder, "models3ds_high");
-
-	IFileIdentifierPtr file (IID_FileIdentifier);
-	file->Set(model3DsFolder, fGeometryFile + ".3ds");
-
-	bool fileExists = false;
-	if(VCOM_SUCCEEDED(file->ExistsOnDisk(fileExists)) && fileExists)
-	{
-		file->GetFileFullPath(fFullPath3DS);
-	}
-	
-	return fFullPath3DS;
-}
-
-const TXString & SceneData::GdtfModel::GetGeometryFile_SVG_FullPath()
-{
-	// Set to store
-	fFullPathSVG = "";
-	// Set to store
-	IFolderIdentifierPtr folder (IID_FolderIdentifier);
-	fParentFixture->GetWorkingFolder(folder);
-
-	IFolderIdentifierPtr svgModelsFolder (IID_FolderIdentifier);
-	svgModelsFolder->Set(folder, "modelssvg");
-
-	IFileIdentifierPtr file (IID_FileIdentifier);
-	file->Set(svgModelsFolder, fGeometryFile + ".svg");
-
-
-	bool fileExists = false;
-	if(VCOM_SUCCEEDED(file->ExistsOnDisk(fileExists)) && fileExists)
-	{
-		file->GetFileFullPath(fFullPathSVG);
-	}
-	
-	return fFullPathSVG;
-}
-
-const TXString & SceneData::GdtfModel::GetGeometryFile_SVGSide_FullPath()
-{
-	// Set to store
-	fFullPathSVG = "";
-	// Set to store
-	IFolderIdentifierPtr folder (IID_FolderIdentifier);
-	fParentFixture->GetWorkingFolder(folder);
-
-	IFolderIdentifierPtr svgModelsFolder (IID_FolderIdentifier);
-	svgModelsFolder->Set(folder, "modelssvg_side");
-
-	IFileIdentifierPtr file (IID_FileIdentifier);
-	file->Set(svgModelsFolder, fGeometryFile + ".svg");
-
-
-	bool fileExists = false;
-	if(VCOM_SUCCEEDED(file->ExistsOnDisk(fileExists)) && fileExists)
-	{
-		file->GetFileFullPath(fFullPathSVG);
-	}
-	
-	return fFullPathSVG;
-}
-
-const TXString & SceneData::GdtfModel::GetGeometryFile_SVGFront_FullPath()
-{
-	// Set to store
-	fFullPathSVG = "";
-	// Set to store
-	IFolderIdentifierPtr folder (IID_FolderIdentifier);
-	fParentFixture->GetWorkingFolder(folder);
-
-	IFolderIdentifierPtr svgModelsFolder (IID_FolderIdentifier);
-	svgModelsFolder->Set(folder, "modelssvg_front");
-
-	IFileIdentifierPtr file (IID_FileIdentifier);
-	file->Set(svgModelsFolder, fGeometryFile + ".svg");
-
-
-	bool fileExists = false;
-	if(VCOM_SUCCEEDED(file->ExistsOnDisk(fileExists)) && fileExists)
-	{
-		file->GetFileFullPath(fFullPathSVG);
-	}
-	
-	return fFullPathSVG;
-}
-
-const TXString & SceneData::GdtfModel::GetGeometryFile_GLTF_FullPath()
-{
-	// Set to store
-	fFullPathGLTF = "";
-	// Set to store
-	IFolderIdentifierPtr folder (IID_FolderIdentifier);
-	fParentFixture->GetWorkingFolder(folder);
-
-	IFolderIdentifierPtr gltfModelsFolder (IID_FolderIdentifier);
-	gltfModelsFolder->Set(folder, "modelsgltf");
-
-	IFileIdentifierPtr file (IID_FileIdentifier);
-	file->Set(gltfModelsFolder, fGeometryFile + ".glb");
-
-	bool fileExists = false;
-	if(VCOM_SUCCEEDED(file->ExistsOnDisk(fileExists)) && fileExists)
-	{
-		file->GetFileFullPath(fFullPathGLTF);
-	}
-	else
-	{
-		//There are two glTF file format: binary (.glb) or JSON-like (.gltf)
-		//If we don't find a .glb file, we try with .gltf
-		file->Set(gltfModelsFolder, fGeometryFile + ".gltf");
-		if(VCOM_SUCCEEDED(file->ExistsOnDisk(fileExists)) && fileExists)
-		{
-			file->GetFileFullPath(fFullPathGLTF);
-		}
-	}
-	
-	return fFullPathGLTF;
-}
-
-const TXString & SceneData::GdtfModel::GetGeometryFile_GLTFLow_FullPath()
-{
-	// Set to store
-	fFullPathGLTF = "";
-	// Set to store
-	IFolderIdentifierPtr folder (IID_FolderIdentifier);
-	fParentFixture->GetWorkingFolder(folder);
-
-	IFolderIdentifierPtr gltfModelsFolder (IID_FolderIdentifier);
-	gltfModelsFolder->Set(folder, "modelsgltf_low");
-
-	IFileIdentifierPtr file (IID_FileIdentifier);
-	file->Set(gltfModelsFolder, fGeometryFile + ".glb");
-
-	bool fileExists = false;
-	if(VCOM_SUCCEEDED(file->ExistsOnDisk(fileExists)) && fileExists)
-	{
-		file->GetFileFullPath(fFullPathGLTF);
-	}
-	else
-	{
-		//There are two glTF file format: binary (.glb) or JSON-like (.gltf)
-		//If we don't find a .glb file, we try with .gltf
-		file->Set(gltfModelsFolder, fGeometryFile + ".gltf");
-		if(VCOM_SUCCEEDED(file->ExistsOnDisk(fileExists)) && fileExists)
-		{
-			file->GetFileFullPath(fFullPathGLTF);
-		}
-	}
-	
-	return fFullPathGLTF;
-}
-
-const TXString & SceneData::GdtfModel::GetGeometryFile_GLTFHigh_FullPath()
-{
-	// Set to store
-	fFullPathGLTF = "";
-	// Set to store
-	IFolderIdentifierPtr folder (IID_FolderIdentifier);
-	fParentFixture->GetWorkingFolder(folder);
-
-	IFolderIdentifierPtr gltfModelsFolder (IID_FolderIdentifier);
-	gltfModelsFolder->Set(folder, "modelsgltf_high");
-
-	IFileIdentifierPtr file (IID_FileIdentifier);
-	file->Set(gltfModelsFolder, fGeometryFile + ".glb");
-
-	bool fileExists = false;
-	if(VCOM_SUCCEEDED(file->ExistsOnDisk(fileExists)) && fileExists)
-	{
-		file->GetFileFullPath(fFullPathGLTF);
-	}
-	else
-	{
-		//There are two glTF file format: binary (.glb) or JSON-like (.gltf)
-		//If we don't find a .glb file, we try with .gltf
-		file->Set(gltfModelsFolder, fGeometryFile + ".gltf");
-		if(VCOM_SUCCEEDED(file->ExistsOnDisk(fileExists)) && fileExists)
-		{
-			file->GetFileFullPath(fFullPathGLTF);
-		}
-	}
-	
-	return fFullPathGLTF;
-}
-
-const TXString& GdtfModel::GetName() const
-{
-	return fUniqueName;
-}
-
-double GdtfModel::GetLength() const
-{
-	return fLength;
-}
-
-double GdtfModel::GetWidth() const
-{
-	return fWidth;
-}
-
-double GdtfModel::GetHeight() const
-{
-	return fHeight;
-}
-
-EGdtfModel_PrimitiveType GdtfModel::GetPrimitiveType() const
-{
-	return fPrimitiveType;
-}
-
-void GdtfModel::GetBuffer3DS(void** bufferToCopy, size_t& length)
-{
-	if(!fBuffer3DS)
-	{
-		return;
-	}
-	if (*bufferToCopy)
-	{
-		return;
-	}
-
-	*bufferToCopy = new char[fBufferSize3DS];
-	length = fBufferSize3DS;
-	memcpy(*bufferToCopy, fBuffer3DS, fBufferSize3DS);
-}
-
-void GdtfModel::GetBufferSVG(void** bufferToCopy, size_t& length)
-{
-	if(!fBufferSVG)
-	{
-		return;
-	}
-	if (*bufferToCopy)
-	{
-		return;
-	}
-
-	*bufferToCopy = new char[fBufferSizeSVG];
-	length = fBufferSizeSVG;
-	memcpy(*bufferToCopy, fBufferSVG, fBufferSizeSVG);
-}
-
-void GdtfModel::GetBufferGLTF(void** bufferToCopy, size_t& length)
-{
-	if(!fBufferGLTF)
-	{
-		return;
-	}
-	if (*bufferToCopy)
-	{
-		return;
-	}
-
-	*bufferToCopy = new char[fBufferSizeGLTF];
-	length = fBufferSizeGLTF;
-	memcpy(*bufferToCopy, fBufferGLTF, fBufferSizeGLTF);
-}
-
-double GdtfModel::GetSVGOffsetX() const
-{
-	return fSVGOffsetX;
-}
-
-double GdtfModel::GetSVGOffsetY() const
-{
-	return fSVGOffsetY;
-}
-
-double GdtfModel::GetSVGSideOffsetX() const
-{
-	return fSVGSideOffsetX;
-}
-
-double GdtfModel::GetSVGSideOffsetY() const
-{
-	return fSVGSideOffsetY;
-}
-
-double GdtfModel::GetSVGFrontOffsetX() const
-{
-	return fSVGFrontOffsetX;
-}
-
-double GdtfModel::GetSVGFrontOffsetY() const
-{
-	return fSVGFrontOffsetY;
-}
-
-//------------------------------------------------------------------------------------
-// GdtfGeometry
-GdtfGeometry::GdtfGeometry( GdtfGeometry* parent )
-{
-	fParent			= parent;
-	fUniqueName		= "";
-	fMatrix			= VWTransformMatrix();
-	fModelReference = nullptr;
-}
-
-GdtfGeometry::GdtfGeometry(const TXString& name, GdtfModelPtr refToModel,const VWTransformMatrix& ma, GdtfGeometry* parent)
-{
-	fParent			= parent;
-	fUniqueName		= name;
-	fMatrix			= ma;
-	fModelReference = refToModel;
-}
-
-GdtfGeometry::~GdtfGeometry()
-{
-	for (GdtfGeometryPtr ptr : fInternalGeometries) { delete ptr; }
-}
-
-void GdtfGeometry::SetName(const TXString &name)
-{
-	fUniqueName = name;
-}
-
-void GdtfGeometry::SetTransformMatrix(const VWFC::Math::VWTransformMatrix &ma)
-{
-	fMatrix = ma;
-}
-
-void GdtfGeometry::SetModel(GdtfModelPtr model)
-{
-	fModelReference = model;
-}
-
-GdtfGeometryPtr GdtfGeometry::AddGeometryWithAxis(const TXString& name, GdtfModelPtr refToModel,const VWTransformMatrix& ma)
-{
-	GdtfGeometryAxis* axis = new GdtfGeometryAxis(name, refToModel, ma, this);
-	
-	fInternalGeometries.push_back(axis);
-	
-	return axis;
-}
-
-GdtfGeometryPtr GdtfGeometry::AddGeometryWithLamp(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
-{
-	GdtfGeometryLamp* lamp = new GdtfGeometryLamp(name, refToModel, ma, this);
-	
-	fInternalGeometries.push_back(lamp);
-	
-	return lamp;
-}
-
-GdtfGeometryPtr GdtfGeometry::AddGeometry(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
-{
-	GdtfGeometry* geo = new GdtfGeometry(name, refToModel, ma, this);
-	
-	fInternalGeometries.push_back(geo);
-	
-	return geo;
-}
-
-GdtfGeometryPtr GdtfGeometry::AddGeometryReference(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
-{
-	GdtfGeometry* geo = new GdtfGeometryReference(name, refToModel, ma, this);
-	
-	fInternalGeometries.push_back(geo);
-	
-	return geo;
-}
-
-GdtfGeometryPtr GdtfGeometry::AddGeometryShaper(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
-{
-	GdtfGeometry* geo = new GdtfGeometryShaperFilter(name, refToModel, ma, this);
-	
-	fInternalGeometries.push_back(geo);
-	
-	return geo;
-}
-
-GdtfGeometryPtr GdtfGeometry::AddGeometryColor(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
-{
-	GdtfGeometry* geo = new GdtfGeometryColorFilter(name, refToModel, ma, this);
-	
-	fInternalGeometries.push_back(geo);
-	
-	return geo;
-}
-
-GdtfGeometryPtr GdtfGeometry::AddGeometryGobo(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
-{
-	GdtfGeometry* geo = new GdtfGeometryGoboFilter(name, refToModel, ma, this);
-	
-	fInternalGeometries.push_back(geo);
-	
-	return geo;
-}
-
-GdtfGeometryPtr GdtfGeometry::AddGeometryBeam(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
-{
-	GdtfGeometry* geo = new GdtfGeometryBeamFilter(name, refToModel, ma, this);
-	
-	fInternalGeometries.push_back(geo);
-	
-	return geo;
-}
-
-GdtfGeometryPtr GdtfGeometry::AddGeometryMediaServerCamera(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
-{
-	GdtfGeometry* geo = new GdtfGeometryMediaServerCamera(name, refToModel, ma, this);
-	
-	fInternalGeometries.push_back(geo);
-	
-	return geo;
-}
-
-GdtfGeometryPtr GdtfGeometry::AddGeometryMediaServerLayer(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
-{
-	GdtfGeometry* geo = new GdtfGeometryMediaServerLayer(name, refToModel, ma, this);
-	
-	fInternalGeometries.push_back(geo);
-	
-	return geo;
-}
-
-GdtfGeometryPtr GdtfGeometry::AddGeometryMediaServerMaster(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
-{
-	GdtfGeometry* geo = new GdtfGeometryMediaServerMaster(name, refToModel, ma, this);
-	
-	fInternalGeometries.push_back(geo);
-	
-	return geo;
-}
-
-GdtfGeometryPtr GdtfGeometry::AddGeometryDisplay(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
-{
-	GdtfGeometry* geo = new GdtfGeometryDisplay(name, refToModel, ma, this);
-
-	fInternalGeometries.push_back(geo);
-
-	return geo;
-}
-
-GdtfGeometryPtr GdtfGeometry::AddGeometryLaser(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
-{
-	GdtfGeometry* geo = new GdtfGeometryLaser(name, refToModel, ma, this);
-
-	fInternalGeometries.push_back(geo);
-
-	return geo;
-}
-
-GdtfGeometryPtr GdtfGeometry::AddGeometryWiringObject(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
-{
-	GdtfGeometry* geo = new GdtfGeometryWiringObject(name, refToModel, ma, this);
-
-	fInternalGeometries.push_back(geo);
-
-	return geo;
-}
-
-GdtfGeometryPtr GdtfGeometry::AddGeometryInventory(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
-{
-	GdtfGeometry* geo = new GdtfGeometryInventory(name, refToModel, ma, this);
-
-	fInternalGeometries.push_back(geo);
-
-	return geo;
-}
-
-GdtfGeometryPtr GdtfGeometry::AddGeometryStructure(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
-{
-	GdtfGeometry* geo = new GdtfGeometryStructure(name, refToModel, ma, this);
-
-	fInternalGeometries.push_back(geo);
-
-	return geo;
-}
-
-GdtfGeometryPtr GdtfGeometry::AddGeometrySupport(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
-{
-	GdtfGeometry* geo = new GdtfGeometrySupport(name, refToModel, ma, this);
-
-	fInternalGeometries.push_back(geo);
-
-	return geo;
-}
-
-GdtfGeometryPtr GdtfGeometry::AddGeometryMagnet(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
-{
-	GdtfGeometry* geo = new GdtfGeometryMagnet(name, refToModel, ma, this);
-
-	fInternalGeometries.push_back(geo);
-
-	return geo;
-}
-
-void GdtfGeometry::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnPrintToFile(pNode);
-	
-	
-	// ------------------------------------------------------------------------------------
-	// Print node attributes
-	pNode->SetNodeAttributeValue(XML_GDTF_GeometryName,				fUniqueName);
-	
-	pNode->SetNodeAttributeValue(XML_GDTF_GeometryMatrix,			GdtfConverter::ConvertMatrix(fMatrix, true));
-
-	if (fModelReference) { pNode->SetNodeAttributeValue(XML_GDTF_GeometryModelRef,	fModelReference->GetNodeReference()); }
-	
-	// ------------------------------------------------------------------------------------
-	// Print Internal geometry
-	for (GdtfGeometry* geoObj : fInternalGeometries)
-	{
-		geoObj->WriteToNode(pNode);
-	}
-}
-
-void GdtfGeometry::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnReadFromNode(pNode);
-	
-	// Get Node Name
-	pNode->GetNodeAttributeValue(XML_GDTF_GeometryName,				fUniqueName);
-	
-	// Get Matrix
-	TXString matrix;
-	pNode->GetNodeAttributeValue(XML_GDTF_GeometryMatrix,			matrix);
-	GdtfConverter::ConvertMatrix(matrix, pNode, fMatrix);
-	
-	// Get Node Reference
-	pNode->GetNodeAttributeValue(XML_GDTF_GeometryModelRef,			fUnresolvedModelRef);
-	
-	// ------------------------------------------------------------------------------------
-	// Print geometries
-	GdtfConverter::TraverseMultiNodes(pNode, "", [this] (IXMLFileNodePtr objNode,const TXString& childNodeName) -> void
-									{
-										bool hasBreak = false;
-										
-										GdtfGeometryPtr geometry = nullptr;
-										if	  (childNodeName == XML_GDTF_GeometryAxisNodeName)			{ geometry = new GdtfGeometryAxis(this);}
-										else if (childNodeName == XML_GDTF_GeometryNodeName)			{ geometry = new GdtfGeometry(this);}
-										else if (childNodeName == XML_GDTF_FilterBeamNodeName)			{ geometry = new GdtfGeometryBeamFilter(this);}
-										else if (childNodeName == XML_GDTF_FilterColorNodeName)			{ geometry = new GdtfGeometryColorFilter(this);}
-										else if (childNodeName == XML_GDTF_FilterGoboNodeName)			{ geometry = new GdtfGeometryGoboFilter(this);}
-										else if (childNodeName == XML_GDTF_FilterShaperNodeName)		{ geometry = new GdtfGeometryShaperFilter(this);}
-										else if (childNodeName == XML_GDTF_LampNodeName)				{ geometry = new GdtfGeometryLamp(this);}
-										else if (childNodeName == XML_GDTF_MediaServerCameraNodeName)	{ geometry = new GdtfGeometryMediaServerCamera(this);}
-										else if (childNodeName == XML_GDTF_MediaServerLayerNodeName)	{ geometry = new GdtfGeometryMediaServerLayer(this);}
-										else if (childNodeName == XML_GDTF_MediaServerMasterNodeName)	{ geometry = new GdtfGeometryMediaServerMaster(this);}
-										else if (childNodeName == XML_GDTF_GeometryReferenceNodeName)	{ geometry = new GdtfGeometryReference(this);}
-										else if (childNodeName == XML_GDTF_DisplayNodeName)				{ geometry = new GdtfGeometryDisplay(this);}
-										else if (childNodeName == XML_GDTF_LaserNodeName)				{ geometry = new GdtfGeometryLaser(this);}
-										else if (childNodeName == XML_GDTF_WiringObjectNodeName)		{ geometry = new GdtfGeometryWiringObject(this);}
-										else if (childNodeName == XML_GDTF_InventoryNodeName)			{ geometry = new GdtfGeometryInventory(this);}
-										else if (childNodeName == XML_GDTF_StructureNodeName)			{ geometry = new GdtfGeometryStructure(this);}
-										else if (childNodeName == XML_GDTF_SupportNodeName)				{ geometry = new GdtfGeometrySupport(this);}
-										else if (childNodeName == XML_GDTF_MagnetNodeName)				{ geometry = new GdtfGeometryMagnet(this);}
-										else if (childNodeName == XML_GDTF_BreakNodeName)				{ hasBreak = true; }
-										else if (childNodeName == XML_GDTF_LaserProtocolNodeName)		{ return; /* Laser Protocols are handled in the Laser OnReadFromNode function */ }
-										else if (childNodeName == XML_GDTF_PinPatchNodeName)			{ return; /* Pin Patches are handled in the WiringObject OnReadFromNode function */ }
-										else															{ DSTOP((kEveryone,"There is a node that was not expected!")); }
-										
-										
-										if (hasBreak)
-										{
-											// This is only allowed in Geometry Refs
-											ASSERTN(kEveryone, this->GetObjectType() == eGdtfGeometryReference);
-											if (this->GetObjectType() == eGdtfGeometryReference)
-											{
-												GdtfBreakPtr breakObj = new GdtfBreak();
-												breakObj->ReadFromNode(objNode);
-												
-												GdtfGeometryReferencePtr refGeo = static_cast<GdtfGeometryReferencePtr>(this);
-												refGeo->fBreaks.push_back(breakObj);
-												return;
-											}
-											else
-											{
-												GdtfParsingError error (GdtfDefines::EGdtfParsingError::eBreakObjectInNonGeometryReference, objNode);
-												SceneData::GdtfFixture::AddError(error);
-											}
-										}
-										
-										ASSERTN(kEveryone, geometry != nullptr);
-										if (geometry)
-										{
-											geometry->ReadFromNode(objNode);
-											fInternalGeometries.push_back(geometry);
-										}
-										else
-										{
-											GdtfParsingError error (GdtfDefines::EGdtfParsingError::eNodeWrongName, objNode);
-											SceneData::GdtfFixture::AddError(error);
-										}
-										return;
-									});
-}
-
-void GdtfGeometry::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	needed.push_back(XML_GDTF_GeometryName);
-	needed.push_back(XML_GDTF_GeometryMatrix);
-	
-	TXStringArray optional;
-	optional.push_back(XML_GDTF_GeometryModelRef);
-
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-GdtfModelPtr GdtfGeometry::GetModelRef() const
-{
-	return fModelReference;
-}
-
-void GdtfGeometry::GetTransformMatrix(VWTransformMatrix& ma) const
-{
-	ma = fMatrix;
-}
-
-const TXString& GdtfGeometry::GetUnresolvedModelRef() const
-{
-	return fUnresolvedModelRef;
-}
-
-void GdtfGeometry::SetUnresolvedModelRef(GdtfModelPtr ref)
-{
-	ASSERTN(kEveryone, ref != nullptr);
-	fModelReference = ref;
-}
-
-TXString GdtfGeometry::GetNodeName()
-{
-	return XML_GDTF_GeometryNodeName;
-}
-
-EGdtfObjectType GdtfGeometry::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfGeometry;
-}
-
-const TXString& GdtfGeometry::GetName() const
-{
-	return fUniqueName;
-}
-
-const std::vector<GdtfGeometry*>& GdtfGeometry::GetInternalGeometries()
-{
-	return fInternalGeometries;
-}
-
-TXString GdtfGeometry::GetNodeReference()
-{
-	TXString nodeRef;
-	nodeRef = GetName();
-	return nodeRef;
-}
-
-GdtfGeometryPtr GdtfGeometry::GetParentGeometry()
-{
-	return fParent;
-}
-
-//------------------------------------------------------------------------------------
-// GdtfGeometryAxis
-GdtfGeometryAxis::GdtfGeometryAxis(GdtfGeometry* parent) 
-				: GdtfGeometry(parent)
-{
-	
-}
-
-GdtfGeometryAxis::GdtfGeometryAxis(const TXString& name, GdtfModelPtr refToModel,const VWTransformMatrix& ma, GdtfGeometry* parent)
-				: GdtfGeometry(name,refToModel,ma, parent)
-{
-
-}
-
-GdtfGeometryAxis::~GdtfGeometryAxis()
-{
-}
-
-void GdtfGeometryAxis::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfGeometry::OnPrintToFile(pNode);
-	
-
-}
-
-void GdtfGeometryAxis::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfGeometry::OnReadFromNode(pNode);
-	
-}
-
-void GdtfGeometryAxis::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_GeometryName);
-	optional.push_back(XML_GDTF_GeometryModelRef);
-	needed.push_back(XML_GDTF_GeometryMatrix);
-	
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfGeometryAxis::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfGeometryAxis;
-}
-
-TXString GdtfGeometryAxis::GetNodeName()
-{
-	return XML_GDTF_GeometryAxisNodeName;
-}
-
-//------------------------------------------------------------------------------------
-// GdtfGeometryBeamFilter
-GdtfGeometryBeamFilter::GdtfGeometryBeamFilter(GdtfGeometry* parent) : GdtfGeometry(parent)
-{
-	
-}
-
-GdtfGeometryBeamFilter::GdtfGeometryBeamFilter(const TXString& name, GdtfModelPtr refToModel,const VWTransformMatrix& ma, GdtfGeometry* parent) : GdtfGeometry(name,refToModel,ma, parent)
-{
-
-}
-
-GdtfGeometryBeamFilter::~GdtfGeometryBeamFilter()
-{
-}
-
-void GdtfGeometryBeamFilter::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfGeometry::OnPrintToFile(pNode);
-	
-}
-
-void GdtfGeometryBeamFilter::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfGeometry::OnReadFromNode(pNode);
-}
-
-void GdtfGeometryBeamFilter::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_GeometryName);
-	optional.push_back(XML_GDTF_GeometryModelRef);
-	needed.push_back(XML_GDTF_GeometryMatrix);
-
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfGeometryBeamFilter::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfGeometryBeamFilter;
-}
-
-TXString GdtfGeometryBeamFilter::GetNodeName()
-{
-	return XML_GDTF_FilterBeamNodeName;
-}
-
-//------------------------------------------------------------------------------------
-// GdtfGeometryColorFilter
-GdtfGeometryColorFilter::GdtfGeometryColorFilter(GdtfGeometry* parent) 
-					   : GdtfGeometry(parent)
-{
-	
-}
-
-GdtfGeometryColorFilter::GdtfGeometryColorFilter(const TXString& name, GdtfModelPtr refToModel,const VWTransformMatrix& ma, GdtfGeometry* parent) 
-					   : GdtfGeometry(name,refToModel,ma, parent)
-{
-	
-}
-
-GdtfGeometryColorFilter::~GdtfGeometryColorFilter()
-{
-}
-
-void GdtfGeometryColorFilter::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfGeometry::OnPrintToFile(pNode);
-	
-}
-
-void GdtfGeometryColorFilter::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfGeometry::OnReadFromNode(pNode);
-}
-
-void GdtfGeometryColorFilter::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_GeometryName);
-	optional.push_back(XML_GDTF_GeometryModelRef);
-	needed.push_back(XML_GDTF_GeometryMatrix);
-
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfGeometryColorFilter::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfGeometryColorFilter;
-}
-
-TXString GdtfGeometryColorFilter::GetNodeName()
-{
-	return XML_GDTF_FilterColorNodeName;
-}
-
-//------------------------------------------------------------------------------------
-// GdtfGeometryShaperFilter
-GdtfGeometryShaperFilter::GdtfGeometryShaperFilter(GdtfGeometry* parent) 
-						: GdtfGeometry(parent)
-{
-	
-}
-
-GdtfGeometryShaperFilter::GdtfGeometryShaperFilter(const TXString& name, GdtfModelPtr refToModel,const VWTransformMatrix& ma, GdtfGeometry* parent) 
-						: GdtfGeometry(name,refToModel,ma, parent)
-{
-	
-}
-
-GdtfGeometryShaperFilter::~GdtfGeometryShaperFilter()
-{
-}
-
-void GdtfGeometryShaperFilter::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfGeometry::OnPrintToFile(pNode);
-	
-}
-
-void GdtfGeometryShaperFilter::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfGeometry::OnReadFromNode(pNode);
-}
-
-void GdtfGeometryShaperFilter::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_GeometryName);
-	optional.push_back(XML_GDTF_GeometryModelRef);
-	needed.push_back(XML_GDTF_GeometryMatrix);
-
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfGeometryShaperFilter::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfGeometryShaperFilter;
-}
-
-TXString GdtfGeometryShaperFilter::GetNodeName()
-{
-	return XML_GDTF_FilterShaperNodeName;
-}
-
-//------------------------------------------------------------------------------------
-// GdtfGeometryGoboFilter
-GdtfGeometryGoboFilter::GdtfGeometryGoboFilter(GdtfGeometry* parent) : GdtfGeometry(parent)
-{
-	
-}
-
-GdtfGeometryGoboFilter::GdtfGeometryGoboFilter(const TXString& name, GdtfModelPtr refToModel,const VWTransformMatrix& ma, GdtfGeometry* parent) 
-					  : GdtfGeometry(name,refToModel,ma, parent)
-{
-	
-}
-
-GdtfGeometryGoboFilter::~GdtfGeometryGoboFilter()
-{
-}
-
-void GdtfGeometryGoboFilter::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfGeometry::OnPrintToFile(pNode);
-	
-}
-
-void GdtfGeometryGoboFilter::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfGeometry::OnReadFromNode(pNode);
-}
-
-void GdtfGeometryGoboFilter::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_GeometryName);
-	optional.push_back(XML_GDTF_GeometryModelRef);
-	needed.push_back(XML_GDTF_GeometryMatrix);
-
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfGeometryGoboFilter::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfGeometryGoboFilter;
-}
-
-TXString GdtfGeometryGoboFilter::GetNodeName()
-{
-	return XML_GDTF_FilterGoboNodeName;
-}
-
-//------------------------------------------------------------------------------------
-// GdtfGeometryMediaServerCamera
-GdtfGeometryMediaServerCamera::GdtfGeometryMediaServerCamera(GdtfGeometry* parent) : GdtfGeometry(parent)
-{
-	
-}
-
-GdtfGeometryMediaServerCamera::GdtfGeometryMediaServerCamera(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma, GdtfGeometry* parent) 
-					  		 : GdtfGeometry(name, refToModel, ma, parent)
-{
-	
-}
-
-GdtfGeometryMediaServerCamera::~GdtfGeometryMediaServerCamera()
-{
-}
-
-void GdtfGeometryMediaServerCamera::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfGeometry::OnPrintToFile(pNode);
-	
-}
-
-void GdtfGeometryMediaServerCamera::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfGeometry::OnReadFromNode(pNode);
-}
-
-void GdtfGeometryMediaServerCamera::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_GeometryName);
-	optional.push_back(XML_GDTF_GeometryModelRef);
-	needed.push_back(XML_GDTF_GeometryMatrix);
-
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfGeometryMediaServerCamera::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfGeometryMediaServerCamera;
-}
-
-TXString GdtfGeometryMediaServerCamera::GetNodeName()
-{
-	return XML_GDTF_MediaServerCameraNodeName;
-}
-
-//------------------------------------------------------------------------------------
-// GdtfGeometryMediaServerLayer
-GdtfGeometryMediaServerLayer::GdtfGeometryMediaServerLayer(GdtfGeometry* parent) : GdtfGeometry(parent)
-{
-	
-}
-
-GdtfGeometryMediaServerLayer::GdtfGeometryMediaServerLayer(const TXString& name, GdtfModelPtr refToModel,const VWTransformMatrix& ma, GdtfGeometry* parent) 
-					  		: GdtfGeometry(name,refToModel,ma, parent)
-{
-	
-}
-
-GdtfGeometryMediaServerLayer::~GdtfGeometryMediaServerLayer()
-{
-}
-
-void GdtfGeometryMediaServerLayer::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfGeometry::OnPrintToFile(pNode);
-	
-}
-
-void GdtfGeometryMediaServerLayer::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfGeometry::OnReadFromNode(pNode);
-}
-
-void GdtfGeometryMediaServerLayer::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_GeometryName);
-	optional.push_back(XML_GDTF_GeometryModelRef);
-	needed.push_back(XML_GDTF_GeometryMatrix);
-
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfGeometryMediaServerLayer::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfGeometryMediaServerLayer;
-}
-
-TXString GdtfGeometryMediaServerLayer::GetNodeName()
-{
-	return XML_GDTF_MediaServerLayerNodeName;
-}
-
-//------------------------------------------------------------------------------------
-// GdtfGeometryMediaServerMaster
-GdtfGeometryMediaServerMaster::GdtfGeometryMediaServerMaster(GdtfGeometry* parent) : GdtfGeometry(parent)
-{
-	
-}
-
-GdtfGeometryMediaServerMaster::GdtfGeometryMediaServerMaster(const TXString& name, GdtfModelPtr refToModel,const VWTransformMatrix& ma, GdtfGeometry* parent) 
-					  		 : GdtfGeometry(name,refToModel,ma, parent)
-{
-	
-}
-
-GdtfGeometryMediaServerMaster::~GdtfGeometryMediaServerMaster()
-{
-}
-
-void GdtfGeometryMediaServerMaster::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfGeometry::OnPrintToFile(pNode);
-	
-}
-
-void GdtfGeometryMediaServerMaster::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfGeometry::OnReadFromNode(pNode);
-}
-
-void GdtfGeometryMediaServerMaster::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_GeometryName);
-	optional.push_back(XML_GDTF_GeometryModelRef);
-	needed.push_back(XML_GDTF_GeometryMatrix);
-
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfGeometryMediaServerMaster::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfGeometryMediaServerMaster;
-}
-
-TXString GdtfGeometryMediaServerMaster::GetNodeName()
-{
-	return XML_GDTF_MediaServerMasterNodeName;
-}
-
-//------------------------------------------------------------------------------------
-// GdtfGeometryDisplay
-GdtfGeometryDisplay::GdtfGeometryDisplay(GdtfGeometry* parent)
-					:GdtfGeometry(parent)
-{
-	fTexture = "";
-}
-
-GdtfGeometryDisplay::GdtfGeometryDisplay(const TXString& name, GdtfModelPtr refToModel,const VWTransformMatrix& ma, GdtfGeometry* parent) 
-					:GdtfGeometry(name,refToModel,ma, parent)
-{
-	fTexture = "";
-}
-
-GdtfGeometryDisplay::~GdtfGeometryDisplay()
-{
-}
-
-const TXString& GdtfGeometryDisplay::GetTexture() 
-{
-	return fTexture;
-}
-
-void GdtfGeometryDisplay::SetTexture(const TXString& texture) 
-{
-	fTexture = texture;
-}
-
-const size_t& GdtfGeometryDisplay::GetWidth() const
-{
-	return fWidth;
-}
-
-void GdtfGeometryDisplay::SetWidth( size_t width )
-{
-	fWidth = width;
-}
-
-const size_t& GdtfGeometryDisplay::GetHeight() const
-{
-	return fHeight;
-}
-
-void GdtfGeometryDisplay::SetHeight( size_t height )
-{
-	fHeight = height;
-}
-
-void GdtfGeometryDisplay::SetIsCurved( const bool& isCurved )
-{
-	fIsCurved = isCurved;
-}
-
-void GdtfGeometryDisplay::GetIsCurved( bool& curvedRadius ) const
-{
-	curvedRadius = fIsCurved;
-}
-
-void GdtfGeometryDisplay::OnPrintToFile(IXMLFileNodePtr pNode) 
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfGeometry::OnPrintToFile(pNode);
-	pNode->SetNodeAttributeValue( XML_GDTF_DisplayTexture,		fTexture );
-	pNode->SetNodeAttributeValue( XML_GDTF_DisplayWidth,		GdtfConverter::ConvertInteger(fWidth) );
-	pNode->SetNodeAttributeValue( XML_GDTF_DisplayHeight,		GdtfConverter::ConvertInteger( fHeight ) );
-	pNode->SetNodeAttributeValue( XML_GDTF_DisplayIsCurved,		fIsCurved ? "true" : "false" );
-}
-
-void GdtfGeometryDisplay::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfGeometry::OnReadFromNode(pNode);
-
-	TXString width, height, isCurved = "";
-
-	pNode->GetNodeAttributeValue( XML_GDTF_DisplayTexture, fTexture);
-	pNode->GetNodeAttributeValue( XML_GDTF_DisplayWidth, width );
-	pNode->GetNodeAttributeValue( XML_GDTF_DisplayHeight, height );
-	pNode->GetNodeAttributeValue( XML_GDTF_DisplayIsCurved, isCurved );
-
-	GdtfConverter::ConvertInteger(	width,			pNode,		fWidth );
-	GdtfConverter::ConvertInteger(	height,			pNode,		fHeight );
-	GdtfConverter::ConvertBool(		isCurved,		pNode,		fIsCurved );
-}
-
-void GdtfGeometryDisplay::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_GeometryName);
-	optional.push_back(XML_GDTF_GeometryModelRef);
-	needed.push_back(XML_GDTF_GeometryMatrix);
-	needed.push_back(XML_GDTF_DisplayTexture);
-	optional.push_back(XML_GDTF_DisplayWidth);
-	optional.push_back(XML_GDTF_DisplayHeight);
-	optional.push_back(XML_GDTF_DisplayIsCurved);
-
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfGeometryDisplay::GetObjectType() 
-{
-	return EGdtfObjectType::eGdtfGeometryDisplay;
-}
-
-TXString GdtfGeometryDisplay::GetNodeName()
-{
-	return XML_GDTF_DisplayNodeName;
-}
-
-//------------------------------------------------------------------------------------
-// GdtfLaserProtocol
-GdtfLaserProtocol::GdtfLaserProtocol()
-{
-	fName = "";
-}
-
-GdtfLaserProtocol::GdtfLaserProtocol(const TXString& name)
-{
-	fName = name;
-}
-
-GdtfLaserProtocol::~GdtfLaserProtocol()
-{
-}
-
-const TXString&	GdtfLaserProtocol::GetName() const
-{
-	return fName;
-}
-
-void GdtfLaserProtocol::SetName(const TXString& name)
-{
-	fName = name;
-}
-
-void GdtfLaserProtocol::OnPrintToFile(IXMLFileNodePtr pNode) 
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnPrintToFile(pNode);
-
-	pNode->SetNodeAttributeValue(XML_GDTF_LaserProtocolName, fName);
-}
-
-void GdtfLaserProtocol::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnReadFromNode(pNode);
-
-	pNode->GetNodeAttributeValue(XML_GDTF_LaserProtocolName, fName);
-}
-
-void GdtfLaserProtocol::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_LaserProtocolName);
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfLaserProtocol::GetObjectType() 
-{
-	return EGdtfObjectType::eGdtfLaserProtocol;
-}
-
-TXString GdtfLaserProtocol::GetNodeName()
-{
-	return XML_GDTF_LaserProtocolNodeName;
-}
-
-//------------------------------------------------------------------------------------
-// GdtfGeometryLaser
-GdtfGeometryLaser::GdtfGeometryLaser(GdtfGeometry* parent)
-					:GdtfGeometry(parent)
-{
-	fColorType 	= EGdtfLaserColorType::RGB;
-	fEmitter 	= nullptr;
-}
-
-GdtfGeometryLaser::GdtfGeometryLaser(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma, GdtfGeometry* parent) 
-					:GdtfGeometry(name, refToModel, ma, parent)
-{
-	fColorType 	= EGdtfLaserColorType::RGB;
-	fEmitter 	= nullptr;
-}
-
-GdtfGeometryLaser::~GdtfGeometryLaser()
-{
-	for(GdtfLaserProtocolPtr laserProtocol : fLaserProtocols) { delete laserProtocol; }
-}
-
-EGdtfLaserColorType	GdtfGeometryLaser::GetColorType() const
-{
-	return fColorType;
-}
-
-double GdtfGeometryLaser::GetColor() const
-{
-	return fColor;
-}
-double GdtfGeometryLaser::GetOutputStrength() const
-{
-	return fOutputStrength;
-}
-
-GdtfPhysicalEmitter* GdtfGeometryLaser::GetEmitter() const
-{
-	return fEmitter;
-}
-
-double GdtfGeometryLaser::GetBeamDiameter() const
-{
-	return fBeamDiameter;
-}
-
-double GdtfGeometryLaser::GetBeamDivergenceMin() const
-{
-	return fBeamDivergenceMin;
-}
-
-double GdtfGeometryLaser::GetBeamDivergenceMax() const
-{
-	return fBeamDivergenceMax;
-}
-
-double GdtfGeometryLaser::GetScanAnglePan() const
-{
-	return fScanAnglePan;
-}
-
-double GdtfGeometryLaser::GetScanAngleTilt() const
-{
-	return fScanAngleTilt;
-}
-
-double GdtfGeometryLaser::GetScanSpeed() const
-{
-	return fScanSpeed;
-}
-
-const TXString&	GdtfGeometryLaser::GetUnresolvedEmitter() const
-{
-	return fUnresolvedEmitter;
-}
-
-const TGdtfLaserProtocolArray& GdtfGeometryLaser::GetLaserProtocolArray() const
-{
-	return fLaserProtocols;
-}
-
-void GdtfGeometryLaser::SetColorType(const EGdtfLaserColorType& colorType)
-{
-	fColorType = colorType;
-}
-
-void GdtfGeometryLaser::SetColor(double waveLength)
-{
-	fColor = waveLength;
-}
-
-void GdtfGeometryLaser::SetOutputStrength(double outputStrength)
-{
-	fOutputStrength = outputStrength;
-}
-
-void GdtfGeometryLaser::SetEmitter(GdtfPhysicalEmitter* emitter)
-{
-	fEmitter = emitter;
-}
-
-void GdtfGeometryLaser::SetBeamDiameter(double beamDiameter)
-{
-	fBeamDiameter = beamDiameter;
-}
-
-void GdtfGeometryLaser::SetBeamDivergenceMin(double beamDivergenceMin)
-{
-	fBeamDivergenceMin = beamDivergenceMin;
-}
-
-void GdtfGeometryLaser::SetBeamDivergenceMax(double beamDivergenceMax)
-{
-	fBeamDivergenceMax = beamDivergenceMax;
-}
-
-void GdtfGeometryLaser::SetScanAnglePan(double scanAnglePan)
-{
-	fScanAnglePan = scanAnglePan;
-}
-
-void GdtfGeometryLaser::SetScanAngleTilt(double scanAngleTilt)
-{
-	fScanAngleTilt = scanAngleTilt;
-}
-
-void GdtfGeometryLaser::SetScanSpeed(double scanSpeed)
-{
-	fScanSpeed = scanSpeed;
-}
-
-GdtfLaserProtocolPtr GdtfGeometryLaser::CreateLaserProtocol(const TXString& name)
-{
-	GdtfLaserProtocolPtr laserProtocol = new GdtfLaserProtocol(name);
-    fLaserProtocols.push_back(laserProtocol);
-	return laserProtocol;
-}
-
-void GdtfGeometryLaser::OnPrintToFile(IXMLFileNodePtr pNode) 
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfGeometry::OnPrintToFile(pNode);
-
-	// Attributes
-	pNode->SetNodeAttributeValue(XML_GDTF_LaserColorType, 			GdtfConverter::ConvertLaserColorTypeEnum(fColorType));
-	pNode->SetNodeAttributeValue(XML_GDTF_LaserColor,				GdtfConverter::ConvertDouble(fColor));
-	pNode->SetNodeAttributeValue(XML_GDTF_LaserOutputStrength,		GdtfConverter::ConvertDouble(fOutputStrength));
-	if(fEmitter)	{ pNode->SetNodeAttributeValue(XML_GDTF_LaserEmitter, fEmitter->GetNodeReference()); }
-	pNode->SetNodeAttributeValue(XML_GDTF_LaserBeamDiameter,		GdtfConverter::ConvertDouble(fBeamDiameter));
-	pNode->SetNodeAttributeValue(XML_GDTF_LaserBeamDivergenceMin,	GdtfConverter::ConvertDouble(fBeamDivergenceMin));
-	pNode->SetNodeAttributeValue(XML_GDTF_LaserBeamDivergenceMax,	GdtfConverter::ConvertDouble(fBeamDivergenceMax));
-	pNode->SetNodeAttributeValue(XML_GDTF_LaserScanAnglePan,		GdtfConverter::ConvertDouble(fScanAnglePan));
-	pNode->SetNodeAttributeValue(XML_GDTF_LaserScanAngleTilt,		GdtfConverter::ConvertDouble(fScanAngleTilt));
-	pNode->SetNodeAttributeValue(XML_GDTF_LaserScanSpeed,			GdtfConverter::ConvertDouble(fScanSpeed));
-
-	// Children
-	for(GdtfLaserProtocolPtr laserProtocol : fLaserProtocols)
-	{
-		laserProtocol->WriteToNode(pNode);
-	}
-}
-
-void GdtfGeometryLaser::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfGeometry::OnReadFromNode(pNode);
-
-	TXString colorType;			pNode->GetNodeAttributeValue(XML_GDTF_LaserColorType,			colorType);			GdtfConverter::ConvertLaserColorTypeEnum(colorType, pNode, fColorType);
-	TXString color;				pNode->GetNodeAttributeValue(XML_GDTF_LaserColor,				color);				GdtfConverter::ConvertDouble(color, pNode, fColor);
-	TXString outputStrength;	pNode->GetNodeAttributeValue(XML_GDTF_LaserOutputStrength,		outputStrength);	GdtfConverter::ConvertDouble(outputStrength, pNode, fOutputStrength);
-	pNode->GetNodeAttributeValue(XML_GDTF_LaserEmitter,	fUnresolvedEmitter);
-	TXString beamDiameter;		pNode->GetNodeAttributeValue(XML_GDTF_LaserBeamDiameter,		beamDiameter);		GdtfConverter::ConvertDouble(beamDiameter, pNode, fBeamDiameter);
-	TXString beamDivergenceMin;	pNode->GetNodeAttributeValue(XML_GDTF_LaserBeamDivergenceMin,	beamDivergenceMin);	GdtfConverter::ConvertDouble(beamDivergenceMin, pNode, fBeamDivergenceMin);
-	TXString beamDivergenceMax;	pNode->GetNodeAttributeValue(XML_GDTF_LaserBeamDivergenceMax,	beamDivergenceMax);	GdtfConverter::ConvertDouble(beamDivergenceMax, pNode, fBeamDivergenceMax);
-	TXString scanAnglePan;		pNode->GetNodeAttributeValue(XML_GDTF_LaserScanAnglePan,		scanAnglePan);		GdtfConverter::ConvertDouble(scanAnglePan, pNode, fScanAnglePan);
-	TXString scanAngleTilt;		pNode->GetNodeAttributeValue(XML_GDTF_LaserScanAngleTilt,		scanAngleTilt);		GdtfConverter::ConvertDouble(scanAngleTilt, pNode, fScanAngleTilt);
-	TXString scanSpeed;			pNode->GetNodeAttributeValue(XML_GDTF_LaserScanSpeed,			scanSpeed);			GdtfConverter::ConvertDouble(scanSpeed, pNode, fScanSpeed);
-
-	GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_LaserProtocolNodeName, [this] (IXMLFileNodePtr objNode) -> void
-								{ 
-									if ( CheckAbort() ) return;
-									GdtfLaserProtocolPtr laserProtocol = new GdtfLaserProtocol();
-									
-									laserProtocol->ReadFromNode(objNode);
-									
-									fLaserProtocols.push_back(laserProtocol);
-									return;
-								});
-}
-
-void GdtfGeometryLaser::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_GeometryName);
-	optional.push_back(XML_GDTF_GeometryModelRef);
-	needed.push_back(XML_GDTF_GeometryMatrix);
-
-	needed.push_back(XML_GDTF_LaserColorType);
-	if(fColorType == EGdtfLaserColorType::SingleWaveLength) { needed.push_back(XML_GDTF_LaserColor); }
-	else 													{ optional.push_back(XML_GDTF_LaserColor); }
-	needed.push_back(XML_GDTF_LaserOutputStrength);
-	optional.push_back(XML_GDTF_LaserEmitter);
-	needed.push_back(XML_GDTF_LaserBeamDiameter);
-	needed.push_back(XML_GDTF_LaserBeamDivergenceMin);
-	needed.push_back(XML_GDTF_LaserBeamDivergenceMax);
-	needed.push_back(XML_GDTF_LaserScanAnglePan);
-	needed.push_back(XML_GDTF_LaserScanAngleTilt);
-	needed.push_back(XML_GDTF_LaserScanSpeed);
-
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfGeometryLaser::GetObjectType() 
-{
-	return EGdtfObjectType::eGdtfGeometryLaser;
-}
-
-TXString GdtfGeometryLaser::GetNodeName()
-{
-	return XML_GDTF_LaserNodeName;
-}
-
-//------------------------------------------------------------------------------------
-// GdtfPinPatch
-GdtfPinPatch::GdtfPinPatch()
-{
-	fToWiringObject = nullptr;
-}
-
-GdtfPinPatch::GdtfPinPatch(GdtfGeometryWiringObjectPtr toWiringObject, size_t fromPin, size_t toPin)
-{
-	fToWiringObject = toWiringObject;
-	fFromPin 		= fromPin;
-	fToPin 			= toPin;
-}
-
-GdtfPinPatch::~GdtfPinPatch()
-{
-}
-
-GdtfGeometryWiringObjectPtr GdtfPinPatch::GetToWiringObject() const
-{
-	return fToWiringObject;
-}
-
-size_t GdtfPinPatch::GetFromPin() const
-{
-	return fFromPin;
-}
-
-size_t GdtfPinPatch::GetToPin() const
-{
-	return fToPin;
-}
-
-const TXString&	GdtfPinPatch::GetUnresolvedWiringObject() const
-{
-	return fUnresolvedWiringObject;
-}
-
-void GdtfPinPatch::SetToWiringObject(GdtfGeometryWiringObjectPtr toWiringObject)
-{
-	fToWiringObject = toWiringObject;
-}
-
-void GdtfPinPatch::SetFromPin(size_t fromPin)
-{
-	fFromPin = fromPin;
-}
-
-void GdtfPinPatch::SetToPin(size_t toPin)
-{
-	fToPin = toPin;
-}
-
-void GdtfPinPatch::OnPrintToFile(IXMLFileNodePtr pNode) 
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnPrintToFile(pNode);
-
-	if(fToWiringObject)	{ pNode->SetNodeAttributeValue(XML_GDTF_PinPatchToWiringObject, fToWiringObject->GetNodeReference()); }
-	pNode->SetNodeAttributeValue(XML_GDTF_PinPatchFromPin,	GdtfConverter::ConvertInteger(fFromPin));
-	pNode->SetNodeAttributeValue(XML_GDTF_PinPatchToPin,	GdtfConverter::ConvertInteger(fToPin));
-}
-
-void GdtfPinPatch::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnReadFromNode(pNode);
-
-	pNode->GetNodeAttributeValue(XML_GDTF_PinPatchToWiringObject, fUnresolvedWiringObject);
-	TXString fromPin;	pNode->GetNodeAttributeValue(XML_GDTF_PinPatchFromPin,	fromPin);	GdtfConverter::ConvertInteger(fromPin, 	pNode,	fFromPin);
-	TXString toPin;		pNode->GetNodeAttributeValue(XML_GDTF_PinPatchToPin,	toPin);		GdtfConverter::ConvertInteger(toPin, 	pNode,	fToPin);
-}
-
-void GdtfPinPatch::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_PinPatchToWiringObject);
-	needed.push_back(XML_GDTF_PinPatchFromPin);
-	needed.push_back(XML_GDTF_PinPatchToPin);
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfPinPatch::GetObjectType() 
-{
-	return EGdtfObjectType::eGdtfPinPatch;
-}
-
-TXString GdtfPinPatch::GetNodeName()
-{
-	return XML_GDTF_PinPatchNodeName;
-}
-
-//------------------------------------------------------------------------------------
-// GdtfGeometryWiringObject
-GdtfGeometryWiringObject::GdtfGeometryWiringObject(GdtfGeometry* parent)
-					:GdtfGeometry(parent)
-{
-	fComponentType 	= EGdtfComponentType::Input;
-	fOrientation 	= EGdtfOrientation::Left;
-	fFuseRating 	= EGdtfFuseRating::B;
-	fPinCount			= 0;
-	fSignalLayer		= 0;
-	fElectricalPayLoad	= 0; 
-	fVoltageRangeMin	= 0; 	
-	fVoltageRangeMax	= 0; 	
-	fFrequencyRangeMin	= 0; 
-	fFrequencyRangeMax	= 0; 
-	fCosPhi				= 0; 			
-	fMaxPayLoad			= 0;
-	fVoltage			= 0; 			
-	fFuseCurrent		= 0; 		
-}
-
-GdtfGeometryWiringObject::GdtfGeometryWiringObject(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma, GdtfGeometry* parent) 
-					:GdtfGeometry(name, refToModel, ma, parent)
-{
-	fComponentType 	= EGdtfComponentType::Input;
-	fOrientation 	= EGdtfOrientation::Left;
-	fFuseRating 	= EGdtfFuseRating::B;
-	fPinCount			= 0;
-	fSignalLayer		= 0;
-	fElectricalPayLoad	= 0; 
-	fVoltageRangeMin	= 0; 	
-	fVoltageRangeMax	= 0; 	
-	fFrequencyRangeMin	= 0; 
-	fFrequencyRangeMax	= 0; 
-	fCosPhi				= 0; 			
-	fMaxPayLoad			= 0;
-	fVoltage			= 0; 			
-	fFuseCurrent		= 0; 	
-}
-
-GdtfGeometryWiringObject::~GdtfGeometryWiringObject()
-{
-	for(GdtfPinPatchPtr pinPatch : fPinPatches) { delete pinPatch; }
-}
-
-const TXString&	GdtfGeometryWiringObject::GetConnectorType() const
-{
-	return fConnectorType;
-}
-
-EGdtfComponentType GdtfGeometryWiringObject::GetComponentType() const
-{
-	return fComponentType;
-}
-
-const TXString& GdtfGeometryWiringObject::GetSignalType() const
-{
-	return fSignalType;
-}
-
-size_t GdtfGeometryWiringObject::GetPinCount() const
-{
-	return fPinCount;
-}
-
-size_t GdtfGeometryWiringObject::GetSignalLayer() const
-{
-	return fSignalLayer;
-}
-
-EGdtfOrientation GdtfGeometryWiringObject::GetOrientation() const
-{
-	return fOrientation;
-}
-
-const TXString& GdtfGeometryWiringObject::GetWireGroup() const
-{
-	return fWireGroup;
-}
-
-double GdtfGeometryWiringObject::GetElectricalPayLoad() const
-{
-	return fElectricalPayLoad;
-}
-
-double GdtfGeometryWiringObject::GetVoltageRangeMin() const
-{
-	return fVoltageRangeMin;
-}
-
-double GdtfGeometryWiringObject::GetVoltageRangeMax() const
-{
-	return fVoltageRangeMax;
-}
-
-double GdtfGeometryWiringObject::GetFrequencyRangeMin() const
-{
-	return fFrequencyRangeMin;
-}
-
-double GdtfGeometryWiringObject::GetFrequencyRangeMax() const
-{
-	return fFrequencyRangeMax;
-}
-
-double GdtfGeometryWiringObject::GetCosPhi() const
-{
-	return fCosPhi;
-}
-
-double GdtfGeometryWiringObject::GetMaxPayLoad() const
-{
-	return fMaxPayLoad;
-}
-
-double GdtfGeometryWiringObject::GetVoltage() const
-{
-	return fVoltage;
-}
-
-double GdtfGeometryWiringObject::GetFuseCurrent() const
-{
-	return fFuseCurrent;
-}
-
-EGdtfFuseRating GdtfGeometryWiringObject::GetFuseRating() const
-{
-	return fFuseRating;
-}
-
-const TGdtfPinPatchArray& GdtfGeometryWiringObject::GetPinPatchArray() const
-{
-	return fPinPatches;
-}
-
-void GdtfGeometryWiringObject::SetConnectorType(const TXString& connectorType)
-{
-	fConnectorType = connectorType;
-}
-
-void GdtfGeometryWiringObject::SetComponentType(const EGdtfComponentType& componentType)
-{
-	fComponentType = componentType;
-}
-
-void GdtfGeometryWiringObject::SetSignalType(const TXString& signalType)
-{
-	fSignalType = signalType;
-}
-
-void GdtfGeometryWiringObject::SetPinCount(size_t pinCount)
-{
-	fPinCount = pinCount;
-}
-
-void GdtfGeometryWiringObject::SetSignalLayer(size_t signalLayer)
-{
-	fSignalLayer = signalLayer;
-}
-
-void GdtfGeometryWiringObject::SetOrientation(const EGdtfOrientation& orientation)
-{
-	fOrientation = orientation;
-}
-
-void GdtfGeometryWiringObject::SetWireGroup(const TXString& wireGroup)
-{
-	fWireGroup = wireGroup;
-}
-
-void GdtfGeometryWiringObject::SetElectricalPayLoad(double electricalPayLoad)
-{
-	fElectricalPayLoad = electricalPayLoad;
-}
-
-void GdtfGeometryWiringObject::SetVoltageRangeMin(double voltageRangeMin)
-{
-	fVoltageRangeMin = voltageRangeMin;
-}
-
-void GdtfGeometryWiringObject::SetVoltageRangeMax(double voltageRangeMax)
-{
-	fVoltageRangeMax = voltageRangeMax;
-}
-
-void GdtfGeometryWiringObject::SetFrequencyRangeMin(double frequencyRangeMin)
-{
-	fFrequencyRangeMin = frequencyRangeMin;
-}
-
-void GdtfGeometryWiringObject::SetFrequencyRangeMax(double frequencyRangeMax)
-{
-	fFrequencyRangeMax = frequencyRangeMax;
-}
-
-void GdtfGeometryWiringObject::SetCosPhi(double cosPhi)
-{
-	fCosPhi = cosPhi;
-}
-
-void GdtfGeometryWiringObject::SetMaxPayLoad(double maxPayload)
-{
-	fMaxPayLoad = maxPayload;
-}
-
-void GdtfGeometryWiringObject::SetVoltage(double voltage)
-{
-	fVoltage = voltage;
-}
-
-void GdtfGeometryWiringObject::SetFuseCurrent(double fuseCurrent)
-{
-	fFuseCurrent = fuseCurrent;
-}
-
-void GdtfGeometryWiringObject::SetFuseRating(const EGdtfFuseRating& fuseRating)
-{
-	fFuseRating = fuseRating;
-}
-
-GdtfPinPatchPtr GdtfGeometryWiringObject::CreatePinPatch(GdtfGeometryWiringObject* toWiringObject, size_t fromPin, size_t toPin)
-{
-	GdtfPinPatchPtr pinPatch = new GdtfPinPatch(toWiringObject, fromPin, toPin);
-    fPinPatches.push_back(pinPatch);
-	return pinPatch;
-}
-
-void GdtfGeometryWiringObject::OnPrintToFile(IXMLFileNodePtr pNode) 
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfGeometry::OnPrintToFile(pNode);
-
-	pNode->SetNodeAttributeValue(XML_GDTF_WiringObjectComponentType, 		GdtfConverter::ConvertComponentTypeEnum(fComponentType));
-	pNode->SetNodeAttributeValue(XML_GDTF_WiringObjectConnectorType, 		fConnectorType);
-	pNode->SetNodeAttributeValue(XML_GDTF_WiringObjectSignalType, 			fSignalType);
-	pNode->SetNodeAttributeValue(XML_GDTF_WiringObjectPinCount,				GdtfConverter::ConvertInteger(fPinCount));
-	pNode->SetNodeAttributeValue(XML_GDTF_WiringObjectSignalLayer,			GdtfConverter::ConvertInteger(fSignalLayer));
-	pNode->SetNodeAttributeValue(XML_GDTF_WiringObjectOrientation, 			GdtfConverter::ConvertOrientationEnum(fOrientation));
-	pNode->SetNodeAttributeValue(XML_GDTF_WiringObjectWireGroup, 			fWireGroup);
-	pNode->SetNodeAttributeValue(XML_GDTF_WiringObjectElectricalPayLoad,	GdtfConverter::ConvertDouble(fElectricalPayLoad));
-	pNode->SetNodeAttributeValue(XML_GDTF_WiringObjectVoltageRangeMin,		GdtfConverter::ConvertDouble(fVoltageRangeMin));
-	pNode->SetNodeAttributeValue(XML_GDTF_WiringObjectVoltageRangeMax,		GdtfConverter::ConvertDouble(fVoltageRangeMax));
-	pNode->SetNodeAttributeValue(XML_GDTF_WiringObjectFrequencyRangeMin,	GdtfConverter::ConvertDouble(fFrequencyRangeMin));
-	pNode->SetNodeAttributeValue(XML_GDTF_WiringObjectFrequencyRangeMax,	GdtfConverter::ConvertDouble(fFrequencyRangeMax));
-	pNode->SetNodeAttributeValue(XML_GDTF_WiringObjectCosPhi,				GdtfConverter::ConvertDouble(fCosPhi));
-	pNode->SetNodeAttributeValue(XML_GDTF_WiringObjectMaxPayLoad,			GdtfConverter::ConvertDouble(fMaxPayLoad));
-	pNode->SetNodeAttributeValue(XML_GDTF_WiringObjectVoltage,				GdtfConverter::ConvertDouble(fVoltage));
-	pNode->SetNodeAttributeValue(XML_GDTF_WiringObjectFuseCurrent,			GdtfConverter::ConvertDouble(fFuseCurrent));
-	pNode->SetNodeAttributeValue(XML_GDTF_WiringObjectFuseRating, 			GdtfConverter::ConvertFuseRatingEnum(fFuseRating));
-
-	for(GdtfPinPatchPtr pinPatch : fPinPatches)
-	{
-		pinPatch->WriteToNode(pNode);
-	}
-
-}
-
-void GdtfGeometryWiringObject::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfGeometry::OnReadFromNode(pNode);
-
-	TXString componentType;		pNode->GetNodeAttributeValue(XML_GDTF_WiringObjectComponentType, componentType); 			GdtfConverter::ConvertComponentTypeEnum(componentType, pNode, fComponentType);
-								pNode->GetNodeAttributeValue(XML_GDTF_WiringObjectConnectorType, fConnectorType);
-								pNode->GetNodeAttributeValue(XML_GDTF_WiringObjectSignalType, fSignalType);
-	TXString pinCount;			pNode->GetNodeAttributeValue(XML_GDTF_WiringObjectPinCount, pinCount); 						GdtfConverter::ConvertInteger(pinCount, pNode, fPinCount);
-	TXString signalLayer;		pNode->GetNodeAttributeValue(XML_GDTF_WiringObjectSignalLayer, signalLayer); 				GdtfConverter::ConvertInteger(signalLayer, pNode, fSignalLayer);
-	TXString orientation;		pNode->GetNodeAttributeValue(XML_GDTF_WiringObjectOrientation, orientation); 				GdtfConverter::ConvertOrientationEnum(orientation, pNode, fOrientation);
-								pNode->GetNodeAttributeValue(XML_GDTF_WiringObjectWireGroup, fWireGroup);
-	TXString electricalPayLoad;	pNode->GetNodeAttributeValue(XML_GDTF_WiringObjectElectricalPayLoad, electricalPayLoad); 	GdtfConverter::ConvertDouble(electricalPayLoad, pNode, fElectricalPayLoad);
-	TXString voltageRangeMin;	pNode->GetNodeAttributeValue(XML_GDTF_WiringObjectVoltageRangeMin, voltageRangeMin); 		GdtfConverter::ConvertDouble(voltageRangeMin, pNode, fVoltageRangeMin);
-	TXString voltageRangeMax;	pNode->GetNodeAttributeValue(XML_GDTF_WiringObjectVoltageRangeMax, voltageRangeMax); 		GdtfConverter::ConvertDouble(voltageRangeMax, pNode, fVoltageRangeMax);
-	TXString frequencyRangeMin;	pNode->GetNodeAttributeValue(XML_GDTF_WiringObjectFrequencyRangeMin, frequencyRangeMin); 	GdtfConverter::ConvertDouble(frequencyRangeMin, pNode, fFrequencyRangeMin);
-	TXString frequencyRangeMax;	pNode->GetNodeAttributeValue(XML_GDTF_WiringObjectFrequencyRangeMax, frequencyRangeMax); 	GdtfConverter::ConvertDouble(frequencyRangeMax, pNode, fFrequencyRangeMax);
-	TXString cosPhi;			pNode->GetNodeAttributeValue(XML_GDTF_WiringObjectCosPhi, cosPhi); 							GdtfConverter::ConvertDouble(cosPhi, pNode, fCosPhi);
-	TXString maxPayLoad;		pNode->GetNodeAttributeValue(XML_GDTF_WiringObjectMaxPayLoad, maxPayLoad); 					GdtfConverter::ConvertDouble(maxPayLoad, pNode, fMaxPayLoad);
-	TXString voltage;			pNode->GetNodeAttributeValue(XML_GDTF_WiringObjectVoltage, voltage); 						GdtfConverter::ConvertDouble(voltage, pNode, fVoltage);
-	TXString fuseCurrent;		pNode->GetNodeAttributeValue(XML_GDTF_WiringObjectFuseCurrent, fuseCurrent); 				GdtfConverter::ConvertDouble(fuseCurrent, pNode, fFuseCurrent);
-	TXString fuseRating;		pNode->GetNodeAttributeValue(XML_GDTF_WiringObjectFuseRating, fuseRating); 					GdtfConverter::ConvertFuseRatingEnum(fuseRating, pNode, fFuseRating);
-
-	GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_PinPatchNodeName, [this] (IXMLFileNodePtr objNode) -> void
-								{ 
-									if ( CheckAbort() ) return;		
-									GdtfPinPatchPtr pinPatch = new GdtfPinPatch();
-									
-									pinPatch->ReadFromNode(objNode);
-									
-									fPinPatches.push_back(pinPatch);
-									return;
-								});
-
-}
-
-void GdtfGeometryWiringObject::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_GeometryName);
-	optional.push_back(XML_GDTF_GeometryModelRef);
-	needed.push_back(XML_GDTF_GeometryMatrix);
-
-	needed.push_back(XML_GDTF_WiringObjectComponentType);
-	needed.push_back(XML_GDTF_WiringObjectConnectorType);
-	needed.push_back(XML_GDTF_WiringObjectSignalType);
-	needed.push_back(XML_GDTF_WiringObjectPinCount);
-	needed.push_back(XML_GDTF_WiringObjectSignalLayer);
-	needed.push_back(XML_GDTF_WiringObjectOrientation);
-	needed.push_back(XML_GDTF_WiringObjectWireGroup);
-	if(fComponentType == EGdtfComponentType::Consumer)
-	{
-		needed.push_back(XML_GDTF_WiringObjectElectricalPayLoad);
-		needed.push_back(XML_GDTF_WiringObjectVoltageRangeMin);
-		needed.push_back(XML_GDTF_WiringObjectVoltageRangeMax);
-		needed.push_back(XML_GDTF_WiringObjectFrequencyRangeMin);
-		needed.push_back(XML_GDTF_WiringObjectFrequencyRangeMax);
-		needed.push_back(XML_GDTF_WiringObjectCosPhi);
-	}
-	else
-	{
-		optional.push_back(XML_GDTF_WiringObjectElectricalPayLoad);
-		optional.push_back(XML_GDTF_WiringObjectVoltageRangeMin);
-		optional.push_back(XML_GDTF_WiringObjectVoltageRangeMax);
-		optional.push_back(XML_GDTF_WiringObjectFrequencyRangeMin);
-		optional.push_back(XML_GDTF_WiringObjectFrequencyRangeMax);
-		optional.push_back(XML_GDTF_WiringObjectCosPhi);
-
-	}
-
-	if(fComponentType == EGdtfComponentType::PowerSource)
-	{
-		needed.push_back(XML_GDTF_WiringObjectMaxPayLoad);
-		needed.push_back(XML_GDTF_WiringObjectVoltage);
-	}
-	else
-	{
-		optional.push_back(XML_GDTF_WiringObjectMaxPayLoad);
-		optional.push_back(XML_GDTF_WiringObjectVoltage);
-	}
-
-	if(fComponentType == EGdtfComponentType::Fuse)
-	{
-		needed.push_back(XML_GDTF_WiringObjectFuseCurrent);
-		needed.push_back(XML_GDTF_WiringObjectFuseRating);
-	}
-	else
-	{
-		optional.push_back(XML_GDTF_WiringObjectFuseCurrent);
-		optional.push_back(XML_GDTF_WiringObjectFuseRating);
-	}
-
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfGeometryWiringObject::GetObjectType() 
-{
-	return EGdtfObjectType::eGdtfGeometryWiringObject;
-}
-
-TXString GdtfGeometryWiringObject::GetNodeName()
-{
-	return XML_GDTF_WiringObjectNodeName;
-}
-
-//------------------------------------------------------------------------------------
-// GdtfGeometryInventory
-GdtfGeometryInventory::GdtfGeometryInventory(GdtfGeometry* parent)
-					:GdtfGeometry(parent)
-{
-}
-
-GdtfGeometryInventory::GdtfGeometryInventory(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma, GdtfGeometry* parent) 
-					:GdtfGeometry(name, refToModel, ma, parent)
-{
-}
-
-GdtfGeometryInventory::~GdtfGeometryInventory()
-{
-}
-
-size_t GdtfGeometryInventory::GetCount() const
-{
-	return fCount;
-}
-
-void GdtfGeometryInventory::SetCount(size_t count)
-{
-	fCount = count;
-}
-
-void GdtfGeometryInventory::OnPrintToFile(IXMLFileNodePtr pNode) 
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfGeometry::OnPrintToFile(pNode);
-
-	pNode->SetNodeAttributeValue(XML_GDTF_InventoryCount,	GdtfConverter::ConvertInteger(fCount));
-}
-
-void GdtfGeometryInventory::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfGeometry::OnReadFromNode(pNode);
-
-	TXString count;	pNode->GetNodeAttributeValue(XML_GDTF_InventoryCount, count);	GdtfConverter::ConvertInteger(count, pNode, fCount);
-}
-
-void GdtfGeometryInventory::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_GeometryName);
-	optional.push_back(XML_GDTF_GeometryModelRef);
-	needed.push_back(XML_GDTF_GeometryMatrix);
-	needed.push_back(XML_GDTF_InventoryCount);
-
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfGeometryInventory::GetObjectType() 
-{
-	return EGdtfObjectType::eGdtfGeometryInventory;
-}
-
-TXString GdtfGeometryInventory::GetNodeName()
-{
-	return XML_GDTF_InventoryNodeName;
-}
-
-//------------------------------------------------------------------------------------
-// GdtfGeometryStructure
-GdtfGeometryStructure::GdtfGeometryStructure(GdtfGeometry* parent)
-					:GdtfGeometry(parent)
-{
-	fLinkedGeometry = nullptr;
-	fTrussCrossSection = "";
-}
-
-GdtfGeometryStructure::GdtfGeometryStructure(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma, GdtfGeometry* parent) 
-					:GdtfGeometry(name, refToModel, ma, parent)
-{
-	fLinkedGeometry = nullptr;
-	fTrussCrossSection = "";
-}
-
-GdtfGeometryStructure::~GdtfGeometryStructure()
-{
-}
-
-GdtfGeometry* GdtfGeometryStructure::GetLinkedGeometry() const
-{
-	return fLinkedGeometry;
-}
-
-EGdtfStructureType GdtfGeometryStructure::GetStructureType() const
-{
-	return fStructureType;
-}
-
-EGdtfCrossSectionType GdtfGeometryStructure::GetCrossSectionType() const
-{
-	return fCrossSectionType;
-}
-
-double GdtfGeometryStructure::GetCrossSectionHeight() const
-{
-	return fCrossSectionHeight;
-}
-
-double GdtfGeometryStructure::GetCrossSectionWallThickness() const
-{
-	return fCrossSectionWallThickness;
-}
-
-const TXString& GdtfGeometryStructure::GetTrussCrossSection() const
-{
-	return fTrussCrossSection;
-}
-
-const TXString&	GdtfGeometryStructure::GetUnresolvedLinkedGeometry() const
-{
-	return fUnresolvedLinkedGeometry;
-}
-
-void GdtfGeometryStructure::SetLinkedGeometry(GdtfGeometry* linkedGeometry)
-{
-	fLinkedGeometry = linkedGeometry;
-}
-
-void GdtfGeometryStructure::SetStructureType(const EGdtfStructureType& structureType)
-{
-	fStructureType = structureType;
-}
-
-void GdtfGeometryStructure::SetCrossSectionType(const EGdtfCrossSectionType& crossSectionType)
-{
-	fCrossSectionType = crossSectionType;
-}
-
-void GdtfGeometryStructure::SetCrossSectionHeight(double crossSectionHeight)
-{
-	fCrossSectionHeight = crossSectionHeight;
-}
-
-void GdtfGeometryStructure::SetCrossSectionWallThickness(double crossSectionWallThickness)
-{
-	fCrossSectionWallThickness = crossSectionWallThickness;
-}
-
-void GdtfGeometryStructure::SetTrussCrossSection(const TXString& trussCrossSection)
-{
-	fTrussCrossSection = trussCrossSection;
-}
-
-void GdtfGeometryStructure::OnPrintToFile(IXMLFileNodePtr pNode) 
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfGeometry::OnPrintToFile(pNode);
-
-	TXString linkedGeometry = "";
-	if(fLinkedGeometry) { linkedGeometry = fLinkedGeometry->GetNodeReference(); }
-
-	pNode->SetNodeAttributeValue(XML_GDTF_StructureLinkedGeometry,				linkedGeometry);
-	pNode->SetNodeAttributeValue(XML_GDTF_StructureStructureType,				GdtfConverter::ConvertStructureTypeEnum(fStructureType));
-	pNode->SetNodeAttributeValue(XML_GDTF_StructureCrossSectionType,			GdtfConverter::ConvertCrossSectionTypeEnum(fCrossSectionType));
-	pNode->SetNodeAttributeValue(XML_GDTF_StructureCrossSectionHeight,			GdtfConverter::ConvertDouble(fCrossSectionHeight));
-	pNode->SetNodeAttributeValue(XML_GDTF_StructureCrossSectionWallThickness,	GdtfConverter::ConvertDouble(fCrossSectionWallThickness));
-	pNode->SetNodeAttributeValue(XML_GDTF_StructureTrussCrossSection,			fTrussCrossSection);
-}
-
-void GdtfGeometryStructure::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfGeometry::OnReadFromNode(pNode);
-										pNode->GetNodeAttributeValue(XML_GDTF_StructureLinkedGeometry, fUnresolvedLinkedGeometry);
-	TXString structureType;				pNode->GetNodeAttributeValue(XML_GDTF_StructureStructureType, structureType);							GdtfConverter::ConvertStructureTypeEnum(structureType, pNode, fStructureType);
-	TXString crossSectionType;			pNode->GetNodeAttributeValue(XML_GDTF_StructureCrossSectionType, crossSectionType);						GdtfConverter::ConvertCrossSectionTypeEnum(crossSectionType, pNode, fCrossSectionType);
-	TXString crossSectionHeight;		pNode->GetNodeAttributeValue(XML_GDTF_StructureCrossSectionHeight, crossSectionHeight);					GdtfConverter::ConvertDouble(crossSectionHeight, pNode, fCrossSectionHeight);
-	TXString crossSectionWallThickness;	pNode->GetNodeAttributeValue(XML_GDTF_StructureCrossSectionWallThickness, crossSectionWallThickness);	GdtfConverter::ConvertDouble(crossSectionWallThickness, pNode, fCrossSectionWallThickness);
-										pNode->GetNodeAttributeValue(XML_GDTF_StructureTrussCrossSection, fTrussCrossSection);
-}
-
-void GdtfGeometryStructure::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_GeometryName);
-	optional.push_back(XML_GDTF_GeometryModelRef);
-	needed.push_back(XML_GDTF_GeometryMatrix);
-	optional.push_back(XML_GDTF_StructureLinkedGeometry);
-	needed.push_back(XML_GDTF_StructureStructureType);
-	optional.push_back(XML_GDTF_StructureCrossSectionType);
-	if(fCrossSectionType == EGdtfCrossSectionType::Tube)
-	{
-		needed.push_back(XML_GDTF_StructureCrossSectionHeight);
-		needed.push_back(XML_GDTF_StructureCrossSectionWallThickness);
-		optional.push_back(XML_GDTF_StructureTrussCrossSection);
-	}
-	else /* TrussFramework */
-	{
-		optional.push_back(XML_GDTF_StructureCrossSectionHeight);
-		optional.push_back(XML_GDTF_StructureCrossSectionWallThickness);
-		needed.push_back(XML_GDTF_StructureTrussCrossSection);
-	}
-
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfGeometryStructure::GetObjectType() 
-{
-	return EGdtfObjectType::eGdtfGeometryStructure;
-}
-
-TXString GdtfGeometryStructure::GetNodeName()
-{
-	return XML_GDTF_StructureNodeName;
-}
-
-//------------------------------------------------------------------------------------
-// GdtfGeometrySupport
-GdtfGeometrySupport::GdtfGeometrySupport(GdtfGeometry* parent)
-					:GdtfGeometry(parent)
-{
-	fRopeCrossSection = "";
-}
-
-GdtfGeometrySupport::GdtfGeometrySupport(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma, GdtfGeometry* parent) 
-					:GdtfGeometry(name, refToModel, ma, parent)
-{
-	fRopeCrossSection = "";
-}
-
-GdtfGeometrySupport::~GdtfGeometrySupport()
-{
-}
-
-EGdtfSupportType GdtfGeometrySupport::GetSupportType() const
-{
-	return fSupportType;
-}
-
-double GdtfGeometrySupport::GetCapacityX() const
-{
-	return fCapacityX;
-}
-
-double GdtfGeometrySupport::GetCapacityY() const
-{
-	return fCapacityY;
-}
-
-double GdtfGeometrySupport::GetCapacityZ() const
-{
-	return fCapacityZ;
-}
-
-double GdtfGeometrySupport::GetCapacityXX() const
-{
-	return fCapacityXX;
-}
-
-double GdtfGeometrySupport::GetCapacityYY() const
-{
-	return fCapacityYY;
-}
-
-double GdtfGeometrySupport::GetCapacityZZ() const
-{
-	return fCapacityZZ;
-}
-
-const TXString& GdtfGeometrySupport::GetRopeCrossSection() const
-{
-	return fRopeCrossSection;
-}
-
-VWPoint3D GdtfGeometrySupport::GetRopeOffset()
-{
-	return fRopeOffset;
-}
-
-double GdtfGeometrySupport::GetResistanceX() const
-{
-	return fResistanceX;
-}
-
-double GdtfGeometrySupport::GetResistanceY() const
-{
-	return fResistanceY;
-}
-
-double GdtfGeometrySupport::GetResistanceZ() const
-{
-	return fResistanceZ;
-}
-
-double GdtfGeometrySupport::GetResistanceXX() const
-{
-	return fResistanceXX;
-}
-
-double GdtfGeometrySupport::GetResistanceYY() const
-{
-	return fResistanceYY;
-}
-
-double GdtfGeometrySupport::GetResistanceZZ() const
-{
-	return fResistanceZZ;
-}
-
-void GdtfGeometrySupport::SetSupportType(const EGdtfSupportType& supportType)
-{
-	fSupportType = supportType;
-}
-
-void GdtfGeometrySupport::SetCapacityX(double capacityX)
-{
-	fCapacityX = capacityX;
-}
-
-void GdtfGeometrySupport::SetCapacityY(double capacityY)
-{
-	fCapacityY = capacityY;
-}
-
-void GdtfGeometrySupport::SetCapacityZ(double capacityZ)
-{
-	fCapacityZ = capacityZ;
-}
-
-void GdtfGeometrySupport::SetCapacityXX(double capacityXX)
-{
-	fCapacityXX = capacityXX;
-}
-
-void GdtfGeometrySupport::SetCapacityYY(double capacityYY)
-{
-	fCapacityYY = capacityYY;
-}
-
-void GdtfGeometrySupport::SetCapacityZZ(double capacityZZ)
-{
-	fCapacityZZ = capacityZZ;
-}
-
-void GdtfGeometrySupport::SetRopeCrossSection(const TXString& ropeCrossSection)
-{
-	fRopeCrossSection = ropeCrossSection;
-}
-
-void GdtfGeometrySupport::SetRopeOffset(double x, double y, double z)
-{
-	fRopeOffset.SetPoint(x, y, z);
-}
-
-void GdtfGeometrySupport::SetResistanceX(double resistanceX)
-{
-	fResistanceX = resistanceX;
-}
-
-void GdtfGeometrySupport::SetResistanceY(double resistanceY)
-{
-	fResistanceY = resistanceY;
-}
-
-void GdtfGeometrySupport::SetResistanceZ(double resistanceZ)
-{
-	fResistanceZ = resistanceZ;
-}
-
-void GdtfGeometrySupport::SetResistanceXX(double resistanceXX)
-{
-	fResistanceXX = resistanceXX;
-}
-
-void GdtfGeometrySupport::SetResistanceYY(double resistanceYY)
-{
-	fResistanceYY = resistanceYY;
-}
-
-void GdtfGeometrySupport::SetResistanceZZ(double resistanceZZ)
-{
-	fResistanceZZ = resistanceZZ;
-}
-
-void GdtfGeometrySupport::OnPrintToFile(IXMLFileNodePtr pNode) 
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfGeometry::OnPrintToFile(pNode);
-
-	pNode->SetNodeAttributeValue(XML_GDTF_SupportSupportType,		GdtfConverter::ConvertSupportTypeEnum(fSupportType));
-	pNode->SetNodeAttributeValue(XML_GDTF_SupportCapacityX,			GdtfConverter::ConvertDouble(fCapacityX));
-	pNode->SetNodeAttributeValue(XML_GDTF_SupportCapacityY,			GdtfConverter::ConvertDouble(fCapacityY));
-	pNode->SetNodeAttributeValue(XML_GDTF_SupportCapacityZ,			GdtfConverter::ConvertDouble(fCapacityZ));
-	pNode->SetNodeAttributeValue(XML_GDTF_SupportCapacityXX,		GdtfConverter::ConvertDouble(fCapacityXX));
-	pNode->SetNodeAttributeValue(XML_GDTF_SupportCapacityYY,		GdtfConverter::ConvertDouble(fCapacityYY));
-	pNode->SetNodeAttributeValue(XML_GDTF_SupportCapacityZZ,		GdtfConverter::ConvertDouble(fCapacityZZ));
-	pNode->SetNodeAttributeValue(XML_GDTF_SupportRopeCrossSection,	fRopeCrossSection);
-	pNode->SetNodeAttributeValue(XML_GDTF_SupportRopeOffset,		GdtfConverter::ConvertVector3(fRopeOffset));
-	pNode->SetNodeAttributeValue(XML_GDTF_SupportResistanceX,		GdtfConverter::ConvertDouble(fResistanceX));
-	pNode->SetNodeAttributeValue(XML_GDTF_SupportResistanceY,		GdtfConverter::ConvertDouble(fResistanceY));
-	pNode->SetNodeAttributeValue(XML_GDTF_SupportResistanceZ,		GdtfConverter::ConvertDouble(fResistanceZ));
-	pNode->SetNodeAttributeValue(XML_GDTF_SupportResistanceXX,		GdtfConverter::ConvertDouble(fResistanceXX));
-	pNode->SetNodeAttributeValue(XML_GDTF_SupportResistanceYY,		GdtfConverter::ConvertDouble(fResistanceYY));
-	pNode->SetNodeAttributeValue(XML_GDTF_SupportResistanceZZ,		GdtfConverter::ConvertDouble(fResistanceZZ));
-}
-
-void GdtfGeometrySupport::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfGeometry::OnReadFromNode(pNode);
-	TXString supportType;	pNode->GetNodeAttributeValue(XML_GDTF_SupportSupportType, supportType);		GdtfConverter::ConvertSupportTypeEnum(supportType, pNode, fSupportType);
-	TXString capacityX;		pNode->GetNodeAttributeValue(XML_GDTF_SupportCapacityX, capacityX);			GdtfConverter::ConvertDouble(capacityX, pNode, fCapacityX);
-	TXString capacityY;		pNode->GetNodeAttributeValue(XML_GDTF_SupportCapacityY, capacityY);			GdtfConverter::ConvertDouble(capacityY, pNode, fCapacityY);
-	TXString capacityZ;		pNode->GetNodeAttributeValue(XML_GDTF_SupportCapacityZ, capacityZ);			GdtfConverter::ConvertDouble(capacityZ, pNode, fCapacityZ);
-	TXString capacityXX;	pNode->GetNodeAttributeValue(XML_GDTF_SupportCapacityXX, capacityXX);		GdtfConverter::ConvertDouble(capacityXX, pNode, fCapacityXX);
-	TXString capacityYY;	pNode->GetNodeAttributeValue(XML_GDTF_SupportCapacityYY, capacityYY);		GdtfConverter::ConvertDouble(capacityYY, pNode, fCapacityYY);
-	TXString capacityZZ;	pNode->GetNodeAttributeValue(XML_GDTF_SupportCapacityZZ, capacityZZ);		GdtfConverter::ConvertDouble(capacityZZ, pNode, fCapacityZZ);
-							pNode->GetNodeAttributeValue(XML_GDTF_SupportRopeCrossSection, fRopeCrossSection);
-	TXString ropeOffset;	pNode->GetNodeAttributeValue(XML_GDTF_SupportRopeOffset, ropeOffset);		GdtfConverter::ConvertVector3(ropeOffset, pNode, fRopeOffset);
-	TXString resistanceX;	pNode->GetNodeAttributeValue(XML_GDTF_SupportResistanceX, resistanceX);		GdtfConverter::ConvertDouble(resistanceX, pNode, fResistanceX);
-	TXString resistanceY;	pNode->GetNodeAttributeValue(XML_GDTF_SupportResistanceY, resistanceY);		GdtfConverter::ConvertDouble(resistanceY, pNode, fResistanceY);
-	TXString resistanceZ;	pNode->GetNodeAttributeValue(XML_GDTF_SupportResistanceZ, resistanceZ);		GdtfConverter::ConvertDouble(resistanceZ, pNode, fResistanceZ);
-	TXString resistanceXX;	pNode->GetNodeAttributeValue(XML_GDTF_SupportResistanceXX, resistanceXX);	GdtfConverter::ConvertDouble(resistanceXX, pNode, fResistanceXX);
-	TXString resistanceYY;	pNode->GetNodeAttributeValue(XML_GDTF_SupportResistanceYY, resistanceYY);	GdtfConverter::ConvertDouble(resistanceYY, pNode, fResistanceYY);
-	TXString resistanceZZ;	pNode->GetNodeAttributeValue(XML_GDTF_SupportResistanceZZ, resistanceZZ);	GdtfConverter::ConvertDouble(resistanceZZ, pNode, fResistanceZZ);
-}
-
-void GdtfGeometrySupport::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_GeometryName);
-	optional.push_back(XML_GDTF_GeometryModelRef);
-	needed.push_back(XML_GDTF_GeometryMatrix);
-	needed.push_back(XML_GDTF_SupportSupportType);
-	
-	if(fSupportType == EGdtfSupportType::Rope)
-	{
-		needed.push_back(XML_GDTF_SupportRopeCrossSection);
-		needed.push_back(XML_GDTF_SupportRopeOffset);
-		optional.push_back(XML_GDTF_SupportCapacityX);
-		optional.push_back(XML_GDTF_SupportCapacityY);
-		optional.push_back(XML_GDTF_SupportCapacityZ);
-		optional.push_back(XML_GDTF_SupportCapacityXX);
-		optional.push_back(XML_GDTF_SupportCapacityYY);
-		optional.push_back(XML_GDTF_SupportCapacityZZ);
-		optional.push_back(XML_GDTF_SupportResistanceX);
-		optional.push_back(XML_GDTF_SupportResistanceY);
-		optional.push_back(XML_GDTF_SupportResistanceZ);
-		optional.push_back(XML_GDTF_SupportResistanceXX);
-		optional.push_back(XML_GDTF_SupportResistanceYY);
-		optional.push_back(XML_GDTF_SupportResistanceZZ);
-	}
-	else /* GroundSupport */
-	{
-		optional.push_back(XML_GDTF_SupportRopeCrossSection);
-		optional.push_back(XML_GDTF_SupportRopeOffset);
-		needed.push_back(XML_GDTF_SupportCapacityX);
-		needed.push_back(XML_GDTF_SupportCapacityY);
-		needed.push_back(XML_GDTF_SupportCapacityZ);
-		needed.push_back(XML_GDTF_SupportCapacityXX);
-		needed.push_back(XML_GDTF_SupportCapacityYY);
-		needed.push_back(XML_GDTF_SupportCapacityZZ);
-		needed.push_back(XML_GDTF_SupportResistanceX);
-		needed.push_back(XML_GDTF_SupportResistanceY);
-		needed.push_back(XML_GDTF_SupportResistanceZ);
-		needed.push_back(XML_GDTF_SupportResistanceXX);
-		needed.push_back(XML_GDTF_SupportResistanceYY);
-		needed.push_back(XML_GDTF_SupportResistanceZZ);
-	}
-
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfGeometrySupport::GetObjectType() 
-{
-	return EGdtfObjectType::eGdtfGeometrySupport;
-}
-
-TXString GdtfGeometrySupport::GetNodeName()
-{
-	return XML_GDTF_SupportNodeName;
-}
-
-//------------------------------------------------------------------------------------
-// GdtfGeometryMagnet
-GdtfGeometryMagnet::GdtfGeometryMagnet(GdtfGeometry* parent)
-					:GdtfGeometry(parent)
-{
-}
-
-GdtfGeometryMagnet::GdtfGeometryMagnet(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma, GdtfGeometry* parent) 
-					:GdtfGeometry(name, refToModel, ma, parent)
-{
-}
-
-GdtfGeometryMagnet::~GdtfGeometryMagnet()
-{
-}
-
-void GdtfGeometryMagnet::OnPrintToFile(IXMLFileNodePtr pNode) 
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfGeometry::OnPrintToFile(pNode);
-}
-
-void GdtfGeometryMagnet::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfGeometry::OnReadFromNode(pNode);
-}
-
-void GdtfGeometryMagnet::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_GeometryName);
-	optional.push_back(XML_GDTF_GeometryModelRef);
-	needed.push_back(XML_GDTF_GeometryMatrix);
-
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfGeometryMagnet::GetObjectType() 
-{
-	return EGdtfObjectType::eGdtfGeometryMagnet;
-}
-
-TXString GdtfGeometryMagnet::GetNodeName()
-{
-	return XML_GDTF_MagnetNodeName;
-}
-
-//------------------------------------------------------------------------------------
-// GdtfGeometryLamp
-GdtfGeometryLamp::GdtfGeometryLamp(GdtfGeometry* parent) 
-				: GdtfGeometry(parent)
-{
-    InitializeMembersWithDefaultsVals(); // Call this function at first
-}
-
-GdtfGeometryLamp::GdtfGeometryLamp(const TXString& name, GdtfModelPtr refToModel,const VWTransformMatrix& ma, GdtfGeometry* parent)
-				: GdtfGeometry(name,refToModel,ma, parent)
-{
-    InitializeMembersWithDefaultsVals(); // Call this function at first
-}
-
-void GdtfGeometryLamp::InitializeMembersWithDefaultsVals() 
-{
-	fLampType			= EGdtfLampType::eGdtfLampType_Dischange;
-	fPowerConsuption	= 1000;
-	fLuminousIntensity	= 10000;
-	fColorTemperature	= 6000;
-	fBeamAngle			= 25;
-    fFieldAngle         = 25;
-	fBeamRadius			= 50; //0.05m
-	fThrowRatio			= 1;
-	fRectangleRatio		= 1.7777;
-	fBeamType			= EGdtfBeamType::eGdtfBeamType_Wash;
-	fColorIndex			= 100;
-	fEmitterSpectrum	= nullptr;
-}
-
-GdtfGeometryLamp::~GdtfGeometryLamp()
-{
-}
-
-void GdtfGeometryLamp::SetLampType(EGdtfLampType type)
-{
-	fLampType = type;
-}
-
-void GdtfGeometryLamp::SetPowerConsumption(double powerConsumption)
-{
-	fPowerConsuption = powerConsumption;
-}
-
-void GdtfGeometryLamp::SetLuminousIntensity(double intensity)
-{
-	fLuminousIntensity = intensity;
-}
-
-void GdtfGeometryLamp::SetColorTemperature(double temperature)
-{
-	fColorTemperature = temperature;
-}
-
-void GdtfGeometryLamp::SetBeamAngle(double angle)
-{
-	fBeamAngle = angle;
-}
-
-void SceneData::GdtfGeometryLamp::SetFieldAngle(double angle)
-{
-    fFieldAngle = angle;
-}
-
-void SceneData::GdtfGeometryLamp::SetBeamRadius(double radius)
-{
-    fBeamRadius = radius;
-}
-
-void SceneData::GdtfGeometryLamp::SetThrowRatio(double ratio)
-{
-    fThrowRatio = ratio;
-}
-
-void SceneData::GdtfGeometryLamp::SetRectangleRatio(double ratio)
-{
-    fRectangleRatio = ratio;
-}
-
-void SceneData::GdtfGeometryLamp::SetBeamType(EGdtfBeamType type)
-{
-    fBeamType = type;
-}
-
-void SceneData::GdtfGeometryLamp::SetColorIndex(Sint32 idx)
-{
-    fColorIndex = idx;
-}
-
-void GdtfGeometryLamp::SetEmitterSpectrum(GdtfPhysicalEmitter* emitterSpectrum)
-{
-    fEmitterSpectrum = emitterSpectrum;
-}
-
-void GdtfGeometryLamp::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfGeometry::OnPrintToFile(pNode);
-	
-	
-	// ------------------------------------------------------------------------------------
-	// Print node attributes
-	pNode->SetNodeAttributeValue(XML_GDTF_LampLampType,				GdtfConverter::ConvertLampeType(fLampType));
-	pNode->SetNodeAttributeValue(XML_GDTF_LampPowerConsumption,		GdtfConverter::ConvertDouble(fPowerConsuption));
-	pNode->SetNodeAttributeValue(XML_GDTF_LampLuminousFlux,	        GdtfConverter::ConvertDouble(fLuminousIntensity));
-	pNode->SetNodeAttributeValue(XML_GDTF_ColorTemperature,			GdtfConverter::ConvertDouble(fColorTemperature));
-	pNode->SetNodeAttributeValue(XML_GDTF_BeamAngle,				GdtfConverter::ConvertDouble(fBeamAngle));
-	pNode->SetNodeAttributeValue(XML_GDTF_BeamRadius,				GdtfConverter::ConvertDouble(fBeamRadius));
-	pNode->SetNodeAttributeValue(XML_GDTF_FieldAngle,				GdtfConverter::ConvertDouble(fFieldAngle));
-	pNode->SetNodeAttributeValue(XML_GDTF_ThrowRatio,				GdtfConverter::ConvertDouble(fThrowRatio));
-	pNode->SetNodeAttributeValue(XML_GDTF_RectangleRatio,			GdtfConverter::ConvertDouble(fRectangleRatio));
-	pNode->SetNodeAttributeValue(XML_GDTF_BeamType,					GdtfConverter::ConvertBeamType(fBeamType));
-	pNode->SetNodeAttributeValue(XML_GDTF_BeamColorRenderingIndex,	GdtfConverter::ConvertInteger(fColorIndex));
-
-	if (fEmitterSpectrum) {pNode->SetNodeAttributeValue(XML_GDTF_BeamEmitterSpectrum, fEmitterSpectrum->GetNodeReference()); };
-	
-}
-
-void GdtfGeometryLamp::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfGeometry::OnReadFromNode(pNode);
-	
-	
-	// ------------------------------------------------------------------------------------
-	// Print node attributes
-	TXString lampType;		pNode->GetNodeAttributeValue(XML_GDTF_LampLampType,				lampType);		GdtfConverter::ConvertLampeType(lampType, 	pNode,	fLampType);
-	TXString power;			pNode->GetNodeAttributeValue(XML_GDTF_LampPowerConsumption,		power);			GdtfConverter::ConvertDouble(power, 		pNode,	fPowerConsuption);
-	TXString lum;			pNode->GetNodeAttributeValue(XML_GDTF_LampLuminousFlux,			lum);			GdtfConverter::ConvertDouble(lum, 			pNode,	fLuminousIntensity);
-	TXString colorTemp;		pNode->GetNodeAttributeValue(XML_GDTF_ColorTemperature,			colorTemp);		GdtfConverter::ConvertDouble(colorTemp, 	pNode,	fColorTemperature);
-	TXString angle;			pNode->GetNodeAttributeValue(XML_GDTF_BeamAngle,				angle);			GdtfConverter::ConvertDouble(angle, 		pNode,	fBeamAngle);
-	TXString radius;		pNode->GetNodeAttributeValue(XML_GDTF_BeamRadius,				radius);		GdtfConverter::ConvertDouble(radius, 		pNode,	fBeamRadius);
-	TXString fieldAngle;	pNode->GetNodeAttributeValue(XML_GDTF_FieldAngle,				fieldAngle);	GdtfConverter::ConvertDouble(fieldAngle, 	pNode,	fFieldAngle);
-	TXString throwRatio;	pNode->GetNodeAttributeValue(XML_GDTF_ThrowRatio,				throwRatio);	GdtfConverter::ConvertDouble(throwRatio, 	pNode,	fThrowRatio);
-	TXString rectangleRatio;pNode->GetNodeAttributeValue(XML_GDTF_RectangleRatio,			rectangleRatio);GdtfConverter::ConvertDouble(rectangleRatio,pNode,	fRectangleRatio);
-	TXString type;			pNode->GetNodeAttributeValue(XML_GDTF_BeamType,					type);			GdtfConverter::ConvertBeamType(type, 		pNode,	fBeamType);
-	TXString colorIndex;	pNode->GetNodeAttributeValue(XML_GDTF_BeamColorRenderingIndex,	colorIndex);	GdtfConverter::ConvertInteger(colorIndex, 	pNode,	fColorIndex);
-
-	pNode->GetNodeAttributeValue(XML_GDTF_BeamEmitterSpectrum, fUnresolvedEmitterRef);
-}
-
-void GdtfGeometryLamp::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_GeometryName);
-	needed.push_back(XML_GDTF_GeometryMatrix);
-	optional.push_back(XML_GDTF_LampLampType);
-	optional.push_back(XML_GDTF_LampPowerConsumption);
-	optional.push_back(XML_GDTF_LampLuminousFlux);
-	optional.push_back(XML_GDTF_ColorTemperature);
-	optional.push_back(XML_GDTF_BeamAngle);
-	optional.push_back(XML_GDTF_FieldAngle);
-	optional.push_back(XML_GDTF_BeamRadius);
-	optional.push_back(XML_GDTF_ThrowRatio);
-	optional.push_back(XML_GDTF_RectangleRatio);
-	optional.push_back(XML_GDTF_BeamType);
-	optional.push_back(XML_GDTF_BeamColorRenderingIndex);
-	optional.push_back(XML_GDTF_GeometryModelRef);
-	optional.push_back(XML_GDTF_BeamEmitterSpectrum);
-
-	
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfGeometryLamp::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfGeometryLamp;
-}
-
-TXString GdtfGeometryLamp::GetNodeName()
-{
-	return XML_GDTF_LampNodeName;
-}
-
-EGdtfLampType GdtfGeometryLamp::GetLampType()
-{
-	return fLampType;
-}
-
-double GdtfGeometryLamp::GetPowerConsumption()
-{
-	return fPowerConsuption;
-}
-
-double GdtfGeometryLamp::GetLuminousIntensity()
-{
-	return fLuminousIntensity;
-}
-
-double GdtfGeometryLamp::GetColorTemperature()
-{
-	return fColorTemperature;
-}
-
-double GdtfGeometryLamp::GetBeamAngle()
-{
-	return fBeamAngle;
-}
-
-double GdtfGeometryLamp::GetFieldAngle()
-{
-    return fFieldAngle;
-}
-
-double GdtfGeometryLamp::GetBeamRadius()
-{
-    return fBeamRadius;
-}
-
-double GdtfGeometryLamp::GetThrowRatio()
-{
-	return fThrowRatio;
-}
-
-double GdtfGeometryLamp::GetRectangleRatio()
-{
-	return fRectangleRatio;
-}
-
-EGdtfBeamType GdtfGeometryLamp::GetBeamType()
-{
-    return fBeamType;
-}
-
-Sint32 GdtfGeometryLamp::GetColorIndex()
-{
-    return fColorIndex;
-}
-
-GdtfPhysicalEmitter* GdtfGeometryLamp::GetEmitterSpectrum()
-{
-    return fEmitterSpectrum;
-}
-
-const TXString& GdtfGeometryLamp::GetUnresolvedEmitterRef() const
-{
-	return fUnresolvedEmitterRef;
-}
-
-//------------------------------------------------------------------------------------
-// GdtfGeometryReference
-GdtfBreak::GdtfBreak() : GdtfObject()
-{
-	fDmxBreak	= 1;
-	fDmxAdress	= 1;
-}
-
-
-GdtfBreak::~GdtfBreak()
-{
-}
-
-void GdtfBreak::SetDmxBreak(Sint32 dmxBreak)
-{
-	fDmxBreak = dmxBreak;
-}
-
-void GdtfBreak::SetDmxAddress(DMXAddress dmxAddress)
-{
-	fDmxAdress = dmxAddress;
-}
-
-void GdtfBreak::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnPrintToFile(pNode);
-	
-	
-	// ------------------------------------------------------------------------------------
-	// Print node attributes
-	pNode->SetNodeAttributeValue(XML_GDTF_BreakDMXBreak,	GdtfConverter::ConvertInteger(fDmxBreak));
-	pNode->SetNodeAttributeValue(XML_GDTF_BreakOffset,		GdtfConverter::ConvertDMXAdress(fDmxAdress));
-	
-}
-
-void GdtfBreak::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnReadFromNode(pNode);
-	
-	
-	// ------------------------------------------------------------------------------------
-	// Print node attributes
-	TXString dmxbreak;	pNode->GetNodeAttributeValue(XML_GDTF_BreakDMXBreak,dmxbreak	); GdtfConverter::ConvertInteger(dmxbreak, pNode, fDmxBreak);
-	TXString dmxAdress;	pNode->GetNodeAttributeValue(XML_GDTF_BreakOffset,	dmxAdress	); GdtfConverter::ConvertDMXAdress(dmxAdress, pNode, fDmxAdress);
-}
-
-void GdtfBreak::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	optional.push_back(XML_GDTF_BreakOffset);
-	optional.push_back(XML_GDTF_BreakDMXBreak);
-	
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfBreak::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfBreak;
-}
-
-TXString GdtfBreak::GetNodeName()
-{
-	return XML_GDTF_BreakNodeName;
-}
-
-Sint32 GdtfBreak::GetDmxBreak()
-{
-	return fDmxBreak;
-}
-
-DMXAddress GdtfBreak::GetDmxAddress()
-{
-	return fDmxAdress;
-}
-
-
-
-//------------------------------------------------------------------------------------
-// GdtfGeometryReference
-GdtfGeometryReference::GdtfGeometryReference(GdtfGeometry* parent) 
-					 : GdtfGeometry(parent)
-{
-	fLinkedGeometry = nullptr;
-}
-
-GdtfGeometryReference::GdtfGeometryReference(const TXString& name, GdtfModelPtr refToModel,const VWTransformMatrix& ma, GdtfGeometry* parent) 
-					 : GdtfGeometry(name,refToModel,ma, parent)
-{
-	fLinkedGeometry = nullptr;
-}
-
-GdtfGeometryReference::~GdtfGeometryReference()
-{
-	for (GdtfBreakPtr ptr : fBreaks) { delete ptr; }
-}
-
-GdtfBreak* GdtfGeometryReference::AddBreak()
-{
-	GdtfBreak* gdtfBreak = new GdtfBreak();
-	fBreaks.push_back(gdtfBreak);
-	return gdtfBreak;
-}
-
-GdtfGeometry* GdtfGeometryReference::GetLinkedGeometry()
-{
-	return fLinkedGeometry;
-}
-
-const TXString& GdtfGeometryReference::GetUnresolvedLinkedGeometry()
-{
-	return fUnresolvedGeoRef;
-}
-
-void GdtfGeometryReference::SetLinkedGeometry(GdtfGeometry* ptr)
-{
-	fLinkedGeometry = ptr;
-}
-
-void GdtfGeometryReference::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfGeometry::OnPrintToFile(pNode);
-	
-	
-	//------------------------------------------------------------------------------------
-	// Print the content
-	for (GdtfBreak* breakObj : fBreaks)
-	{
-		breakObj->WriteToNode(pNode);
-	}
-
-	if(fLinkedGeometry) { pNode->SetNodeAttributeValue(XML_GDTF_GeometryReferenceLinkedGeo, fLinkedGeometry->GetNodeReference()); }
-
-	
-}
-
-void GdtfGeometryReference::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfGeometry::OnReadFromNode(pNode);
-	
-	// The breaks are read in the parent OnReadFromNode
-
-	pNode->GetNodeAttributeValue(XML_GDTF_GeometryReferenceLinkedGeo, fUnresolvedGeoRef); 
-
-	
-}
-
-void GdtfGeometryReference::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_GeometryName);
-	optional.push_back(XML_GDTF_GeometryModelRef);
-	needed.push_back(XML_GDTF_GeometryReferenceLinkedGeo);
-	needed.push_back(XML_GDTF_GeometryMatrix);
-
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfGeometryReference::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfGeometryReference;
-}
-
-TXString GdtfGeometryReference::GetNodeName()
-{
-	return XML_GDTF_GeometryReferenceNodeName;
-}
-
-TGdtfBreakArray GdtfGeometryReference::GetBreakArray()
-{
-	return fBreaks;
-}
-
-//------------------------------------------------------------------------------------
-// GdtfDmxMode
-
-GdtfDmxMode::GdtfDmxMode(GdtfFixture* fixture, const TXString& name)
-{
-	fName		= name;
-	fGeomRef    = nullptr;
-	fFixture    = fixture;
-}
-
-GdtfDmxMode::~GdtfDmxMode()
-{
-    // Housekeeping
-    for (GdtfDmxChannelPtr	ptr : fChannels)	{ delete ptr; }
-	for (GdtfDmxRelationPtr	ptr : fRelations)	{ delete ptr; }
-	for (GdtfMacroPtr		ptr : fMacros)		{ delete ptr; }
-    
-}
-
-void GdtfDmxMode::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnPrintToFile(pNode);
-	
-	
-	// ------------------------------------------------------------------------------------
-	// Print node attributes
-	pNode->SetNodeAttributeValue(XML_GDTF_DMXModeName, 			fName);
-	pNode->SetNodeAttributeValue(XML_GDTF_DMXModeDescription, 	fDescription);
-	if (fGeomRef) { pNode->SetNodeAttributeValue(XML_GDTF_DMXModeGeometryRef,		fGeomRef->GetNodeReference()); } ;
-	
-	// ------------------------------------------------------------------------------------
-	// Print Channels
-	IXMLFileNodePtr wheels;
-	if (VCOM_SUCCEEDED(pNode->CreateChildNode(XML_GDTF_DMXModeDMXChannels, & wheels)))
-	{
-		for (GdtfDmxChannel* channdelObj : fChannels)
-		{
-			channdelObj->WriteToNode(wheels);
-		}
-	}
-	
-	// ------------------------------------------------------------------------------------
-	// Print Relations
-	IXMLFileNodePtr models;
-	if (VCOM_SUCCEEDED(pNode->CreateChildNode(XML_GDTF_DMXModeRelations, & models)))
-	{
-		for (GdtfDmxRelation* relObj : fRelations)
-		{
-			relObj->WriteToNode(models);
-		}
-	}
-	
-	// ------------------------------------------------------------------------------------
-	// Print Macros
-	IXMLFileNodePtr macros;
-	if (VCOM_SUCCEEDED(pNode->CreateChildNode(XML_GDTF_DMXModeMacros, &macros)))
-	{
-		for (GdtfMacro* macrosObj : fMacros)
-		{
-			macrosObj->WriteToNode(macros);
-		}
-	}
-
-}
-
-void GdtfDmxMode::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnReadFromNode(pNode);
-	
-	
-	// ------------------------------------------------------------------------------------
-	// Print node attributes
-	pNode->GetNodeAttributeValue(XML_GDTF_DMXModeName,		  	fName);
-	pNode->GetNodeAttributeValue(XML_GDTF_DMXModeDescription,	fDescription);
-	pNode->GetNodeAttributeValue(XML_GDTF_DMXModeGeometryRef, 	fUnresolvedGeomRef);
-	// ------------------------------------------------------------------------------------
-	// Print Channels
-	
-	GdtfConverter::TraverseNodes(pNode, XML_GDTF_DMXModeDMXChannels, XML_GDTF_DMXChannelNodeName, [this] (IXMLFileNodePtr pNode) -> void
-								 {	
-									 if ( CheckAbort() ) return;
-									 GdtfDmxChannelPtr channel = new GdtfDmxChannel(this);
-									 channel->ReadFromNode(pNode);
-									 fChannels.push_back(channel);
-								 }
-								 );
-
-	
-	// ------------------------------------------------------------------------------------
-	// Print Relations
-	GdtfConverter::TraverseNodes(pNode, XML_GDTF_DMXModeRelations, XML_GDTF_DMXRelationNodeName, [this] (IXMLFileNodePtr pNode) -> void
-								 {
-									 if ( CheckAbort() ) return;
-									 GdtfDmxRelationPtr relation = new GdtfDmxRelation();
-									 relation->ReadFromNode(pNode);
-									 fRelations.push_back(relation);
-								 }
-								 );
-	
-
-	// ------------------------------------------------------------------------------------
-	// Print Macros
-	GdtfConverter::TraverseNodes(pNode, XML_GDTF_DMXModeMacros, XML_GDTF_MacroNodeName, [this](IXMLFileNodePtr pNode) -> void
-								{
-									if ( CheckAbort() ) return;
-									GdtfMacroPtr macro = new GdtfMacro();
-									macro->ReadFromNode(pNode);
-									fMacros.push_back(macro);
-								}
-								);
-
-}
-
-void GdtfDmxMode::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_DMXModeName);
-	needed.push_back(XML_GDTF_DMXModeGeometryRef);
-	optional.push_back(XML_GDTF_DMXModeDescription);
-	
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfDmxMode::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfDmxMode;
-}
-
-TXString GdtfDmxMode::GetNodeName()
-{
-	return XML_GDTF_DMXModeNodeName;
-}
-
-GdtfDmxChannel* GdtfDmxMode::AddChannel()
-{
-	GdtfDmxChannel* channel = new GdtfDmxChannel(this);
-	fChannels.push_back(channel);
-	
-	return channel;
-}
-
-const TGdtfDmxChannelArray& GdtfDmxMode::GetChannelArray() const
-{
-	return fChannels;
-}
-
-GdtfDmxChannelPtr GdtfDmxMode::GetMasterByRef(const TXString& ref) const
-{
-	if (!fChannelIndex.empty())
-	{
-		auto it = fChannelIndex.find(ref);
-		if (it != fChannelIndex.end()) { return it->second; }
-	}
-	else
-	{
-		for (GdtfDmxChannelPtr chnl : fChannels)
-		{
-			if (chnl->GetNodeReference() == ref) { return chnl; }
-		}
-	}
-
-	// When this line is reached nothing was found.
-	DSTOP ((kEveryone, "Failed to resolve GdtfDmxChannelPtr."));
-	return nullptr;
-}
-
-GdtfDmxChannelFunctionPtr GdtfDmxMode::GetSlaveByRef(const TXString& ref) const
-{
-	if (!fFunctionIndex.empty())
-	{
-		auto it = fFunctionIndex.find(ref);
-		if (it != fFunctionIndex.end()) { return it->second; }
-	}
-	else
-	{
-		for (GdtfDmxChannelPtr dmxChannel : fChannels)
-		{
-			for(GdtfDmxLogicalChannelPtr logicalChannel : dmxChannel->GetLogicalChannelArray())
-			{
-				for (GdtfDmxChannelFunctionPtr function : logicalChannel->GetDmxChannelFunctions())
-				{
-					TXString nodeRef = function->GetNodeReference();
-					if (nodeRef == ref) { return function; }
-				}
-			}
-		}
-	}
-	
-	// When this line is reached nothing was found.
-	DSTOP ((kEveryone, "Failed to resolve GdtfDmxChannelFuntionPtr."));
-	return nullptr;
-}
-
-void GdtfDmxMode::BuildModeIndexes()
-{
-	static constexpr size_t kModeIndexThreshold = 64;
-	if (fChannels.size() < kModeIndexThreshold)
-	{
-		return;  // Maps stay empty; accessors use linear fallback
-	}
-
-	fChannelIndex.clear();
-	fFunctionIndex.clear();
-	for (GdtfDmxChannelPtr ch : fChannels)
-	{
-		fChannelIndex.emplace(ch->GetNodeReference(), ch);
-		for (GdtfDmxLogicalChannelPtr lc : ch->GetLogicalChannelArray())
-		{
-			for (GdtfDmxChannelFunctionPtr fn : lc->GetDmxChannelFunctions())
-			{
-				fFunctionIndex.emplace(fn->GetNodeReference(), fn);
-			}
-		}
-	}
-}
-
-GdtfDmxChannelPtr GdtfDmxMode::GetChannelByIndex(const TXString& ref) const
-{
-	if (!fChannelIndex.empty())
-	{
-		auto it = fChannelIndex.find(ref);
-		if (it != fChannelIndex.end()) { return it->second; }
-		return nullptr;
-	}
-	for (GdtfDmxChannelPtr ch : fChannels)
-	{
-		if (ch->GetNodeReference() == ref) { return ch; }
-	}
-	return nullptr;
-}
-
-GdtfDmxChannelFunctionPtr GdtfDmxMode::GetFunctionByIndex(const TXString& ref) const
-{
-	if (!fFunctionIndex.empty())
-	{
-		auto it = fFunctionIndex.find(ref);
-		if (it != fFunctionIndex.end()) { return it->second; }
-		return nullptr;
-	}
-	for (GdtfDmxChannelPtr ch : fChannels)
-	{
-		for (GdtfDmxLogicalChannelPtr lc : ch->GetLogicalChannelArray())
-		{
-			for (GdtfDmxChannelFunctionPtr fn : lc->GetDmxChannelFunctions())
-			{
-				if (fn->GetNodeReference() == ref) { return fn; }
-			}
-		}
-	}
-	return nullptr;
-}
-
-
-const TXString& GdtfDmxMode::GetModeName() const
-{
-	return fName;
-}
-
-void GdtfDmxMode::SetName(const TXString &name)
-{
-	fName = name;
-}
-
-const TXString& GdtfDmxMode::GetDescription() const
-{
-	return fDescription;
-}
-
-void GdtfDmxMode::SetDescription(const TXString &description)
-{
-	fDescription = description;
-}
-
-void GdtfDmxMode::SetGeomRef(GdtfGeometryPtr ptr)
-{
-	fGeomRef = ptr;
-}
-
-GdtfDmxRelation* GdtfDmxMode::AddDmxRelation(GdtfDmxChannel* master, GdtfDmxChannelFunctionPtr slave, const TXString &name)
-{
-	GdtfDmxRelation* relation = new GdtfDmxRelation(master, slave, name);
-	fRelations.push_back(relation);
-	return relation;
-}
-
-GdtfMacro* GdtfDmxMode::AddMacro(const TXString &name)
-{
-	GdtfMacro* macro = new GdtfMacro(name);
-	fMacros.push_back(macro);
-	return macro;
-}
-
-GdtfGeometryPtr	GdtfDmxMode::GetGeomRef()
-{
-	return fGeomRef;
-}
-
-TGdtfDmxChannelArray GdtfDmxMode::GetChannelsForGeometry(GdtfGeometryPtr geometry)
-{
-	TGdtfDmxChannelArray array;
-	for (GdtfDmxChannelPtr channel : GetChannelArray())
-	{
-		if(channel->GetGeomRef() == geometry)
-		{
-			array.push_back(channel);
-		}
-	}
-	
-	return array;
-}
-
-const TXString& GdtfDmxMode::GetUnresolvedGeomRef()
-{
-	return fUnresolvedGeomRef;
-}
-
-const TGdtfDmxRelationArray& GdtfDmxMode::GetDmxRelations()
-{
-	return fRelations;
-}
-
-TSint32Array GdtfDmxMode::GetBreakArray() const
-{
-	//------------------------------------------------------------------------------------------------------------
-	// Prepare Arrays
-	TSint32Array 							breaks;
-	std::vector<GdtfGeometryReferencePtr>  	geometryRefs;
-	TGdtfGeometryArray  					geometrysToCheck;
-
-	if(fGeomRef)
-	{
-		geometrysToCheck.push_back(fGeomRef);
-	}
-    
-	//------------------------------------------------------------------------------------------------------------
-	// Get All Geometry References
-	while(geometrysToCheck.size() > 0)
-	{
-		// Get First Entry and delete it then
-		GdtfGeometryPtr geometry = geometrysToCheck.back();
-		geometrysToCheck.pop_back();
-
-		// Get all the internal geometries and prepare to check them
-
-		if ( geometry != nullptr )
-		{
-			for ( GdtfGeometryPtr child : geometry->GetInternalGeometries() )
-			{
-				geometrysToCheck.push_back( child );
-			}
-
-
-			// Handle Geo Refs
-			if ( geometry->GetObjectType() == eGdtfGeometryReference )
-			{
-				GdtfGeometryReferencePtr geoRef = static_cast<GdtfGeometryReferencePtr>( geometry );
-				ASSERTN( kEveryone, geoRef != nullptr );
-				if ( geoRef )
-				{
-					geometrysToCheck.push_back( geoRef->GetLinkedGeometry() );
-					geometryRefs.push_back( geoRef );
-				}
-			}
-		}
-	}
-
-	//------------------------------------------------------------------------------------------------------------
-	// Check all the channels
-	for (GdtfDmxChannelPtr channel : fChannels)
-	{
-		Sint32 breakId = channel->GetDmxBreak();
-		
-		// Check if Override
-		if(breakId == kDmxBreakOverwriteValue)
-		{
-			for(GdtfGeometryReferencePtr geoRef : geometryRefs)
-			{
-				if(geoRef->GetLinkedGeometry() == channel->GetGeomRef())
-				{
-					TGdtfBreakArray refBreaks = geoRef->GetBreakArray();
-					if(std::find(breaks.begin(), breaks.end(), refBreaks.back()->GetDmxBreak()) == breaks.end())
-					{
-						breaks.push_back(refBreaks.back()->GetDmxBreak());
-					}
-				}
-			}
-		}
-		else
-		{
-			if(std::find(breaks.begin(), breaks.end(), breakId) == breaks.end())
-			{
-				breaks.push_back(breakId);
-			}
-		}
-	}
-
-	//------------------------------------------------------------------------------------------------------------
-	// Sort the found break
-	std::sort(breaks.begin(), breaks.end());
-
-	return breaks;
-}
-
-size_t GdtfDmxMode::GetFootPrintForBreak(size_t breakId)
-{
-	//------------------------------------------------------------------------------------------------------------
-	// check if break exists
-	TSint32Array breaks = this->GetBreakArray();
-	if(std::find(breaks.begin(), breaks.end(), breakId) == breaks.end()) 
-	{ 
-		return 0; 
-	}
-
-	//------------------------------------------------------------------------------------------------------------
-	// Prepare arrays
-	TDMXAddressArray 	addresses;
-    TGdtfGeometryArray  geometriesInGeoTree;
-    
-    if(fGeomRef)
-    {
-        geometriesInGeoTree.push_back(fGeomRef);
-    }
-
-	// iterate through every geometry in the geometry tree of the mode 
-	while(geometriesInGeoTree.size() > 0)
-	{
-		TDMXAddressArray addressesOfGeo;
-		GdtfGeometryPtr  geoToCheck = geometriesInGeoTree.back();
-		geometriesInGeoTree.pop_back();
-
-		for (GdtfGeometryPtr child : geoToCheck->GetInternalGeometries()) { geometriesInGeoTree.push_back(child); }
-
-		// if channel is linked to the current geometry and the breaks match add the dmx addresses to the footprint 
-		for (GdtfDmxChannelPtr channel : fChannels)
-		{
-			if(CheckAbort()) { return 0; }
-			if(channel->GetGeomRef() == geoToCheck && channel->GetDmxBreak() == (Sint32)breakId && ! channel->IsVirtual()) 
-			{
-				GetAddressesFromChannel(addressesOfGeo, channel, 0);
-			}
-		}
-
-		// if the current geometry is a geometry reference do stuff
-		if(geoToCheck->GetObjectType() == eGdtfGeometryReference)
-		{
-			GdtfGeometryReferencePtr geoRef 	= static_cast<GdtfGeometryReferencePtr>(geoToCheck); ASSERTN(kEveryone, geoRef);
-			GdtfGeometryPtr 		 refedGeo   = geoRef->GetLinkedGeometry();
-			TSint32Array 			 breakIdsOfReference;
-			TGdtfGeometryArray 		 geometriesInReferencedTree = {refedGeo};
-			bool 				     overwrite = false;
-			
-			// go through every child of the referenced geometry and get every used break id
-			while (geometriesInReferencedTree.size() > 0)
-			{
-				GdtfGeometryPtr geometryInRefToCheck = geometriesInReferencedTree.back();
-				geometriesInReferencedTree.pop_back();
-
-				if ( geometryInRefToCheck != nullptr )
-				{
-					for (GdtfGeometryPtr childOfRef : geometryInRefToCheck->GetInternalGeometries()){ geometriesInReferencedTree.push_back(childOfRef); }
-
-					for (GdtfDmxChannelPtr channel : fChannels)
-					{
-						if(CheckAbort()) { return 0; }
-						if(channel->GetGeomRef() == geometryInRefToCheck)
-						{
-							if(channel->GetDmxBreak() != kDmxBreakOverwriteValue)
-							{
-								if(std::find(breakIdsOfReference.begin(), breakIdsOfReference.end(), channel->GetDmxBreak()) == breakIdsOfReference.end())
-								{
-									breakIdsOfReference.push_back(channel->GetDmxBreak());
-								}
-							}
-							else 
-							{
-								overwrite = true;
-							}
-						}
-					}
-				}
-			}
-
-			std::sort(breakIdsOfReference.begin(), breakIdsOfReference.end());
-
-			TSint32Array::iterator foundIndex = std::find(breakIdsOfReference.begin(), breakIdsOfReference.end(), breakId);
-			// if the reference contains geometries that are linked to a dmx channel that has a matching break, then add the address + offset to the footprint
-			if(foundIndex != breakIdsOfReference.end())
-			{
-				size_t 				indexOfBreak 				= std::distance(breakIdsOfReference.begin(),foundIndex);
-				size_t 				offset 						= geoRef->GetBreakArray()[indexOfBreak]->GetDmxAddress()-1;
-				TGdtfGeometryArray  geometriesInReferencedTree 	= {refedGeo};
-
-				while (geometriesInReferencedTree.size() > 0)
-				{
-					GdtfGeometryPtr geometryInRefToCheck = geometriesInReferencedTree.back();
-					geometriesInReferencedTree.pop_back();
-
-					for (GdtfGeometryPtr childOfRef : geometryInRefToCheck->GetInternalGeometries()) { geometriesInReferencedTree.push_back(childOfRef); }
-
-					for(GdtfDmxChannelPtr channel : fChannels)
-					{
-						if(CheckAbort()) { return 0; }
-						if(channel->GetGeomRef() == geometryInRefToCheck 
-							&& channel->GetDmxBreak() == (Sint32)breakId &&
-							! channel->IsVirtual())  
-						{
-							GetAddressesFromChannel(addressesOfGeo, channel, offset);
-						}
-					}
-				}
-			}
-
-			// if the channel of a child geometry has the break value overwrite and the last break of the ref has a matching break Id, then add addresses + offset 
-			if(overwrite)
-			{
-				GdtfBreakPtr overwriteBreak = geoRef->GetBreakArray().back();
-				if(overwriteBreak->GetDmxBreak() == (Sint32)breakId)
-				{
-					TGdtfGeometryArray geometriesInReferencedTree = {refedGeo};
-					while (geometriesInReferencedTree.size() > 0)
-					{
-						GdtfGeometryPtr geometryInRefToCheck = geometriesInReferencedTree.back();
-						geometriesInReferencedTree.pop_back();
-
-						for (GdtfGeometryPtr childOfRef : geometryInRefToCheck->GetInternalGeometries()) { geometriesInReferencedTree.push_back(childOfRef); }
-
-						for(GdtfDmxChannelPtr channel : fChannels)
-						{
-							if(CheckAbort()) { return 0; }
-							if(channel->GetGeomRef() == geometryInRefToCheck && channel->GetDmxBreak() == kDmxBreakOverwriteValue  && ! channel->IsVirtual()) 
-							{
-								GetAddressesFromChannel(addressesOfGeo, channel, overwriteBreak->GetDmxAddress()-1);
-							}
-						}
-					}
-				}
-			}
-		}
-
-		// make addresses unique
-		for(DMXAddress address : addressesOfGeo)
-		{
-			if(std::find(addresses.begin(), addresses.end(), address) == addresses.end())
-			{
-				addresses.push_back(address);
-			}
-		}
-	}
-
-	DMXAddress max = 0, min = 512;
-	for (DMXAddress adr : addresses)
-	{
-		if(adr > max) max = adr;
-		if(adr < min) min = adr;
-	}
-
-	DMXAddress footprint = max - min + 1;
-
-	return footprint;
-}
-void GdtfDmxMode::GetAddressesFromChannel(TDMXAddressArray& addresses, GdtfDmxChannel* channel, DMXAddress offset) const
-{
-	EGdtfChannelBitResolution resolution = channel->GetChannelBitResolution();
-	if(resolution >= eGdtfChannelBitResolution_8) 	{ addresses.push_back(channel->GetCoarse()  + offset);}
-	if(resolution >= eGdtfChannelBitResolution_16) 	{ addresses.push_back(channel->GetFine()	+ offset);}
-	if(resolution >= eGdtfChannelBitResolution_24) 	{ addresses.push_back(channel->GetUltra()   + offset);}
-	if(resolution >= eGdtfChannelBitResolution_32) 	{ addresses.push_back(channel->GetUber()	+ offset);}
-
-}
-
-const TGdtfMacroArray& GdtfDmxMode::GetDmxMacrosArray()
-{
-	return fMacros;
-}
-
-//------------------------------------------------------------------------------------
-// GdtfDmxChannel
-GdtfDmxChannel::GdtfDmxChannel(GdtfDmxMode* parent)
-{
-	fName_AutoGenerated					= "";
-	fDmxBreak				= 1;
-	fCoarse					= 0;
-	fFine					= 0;
-	fUltra					= 0;
-	fUber					= 0;
-	fHeighlight				= 0;	fHeighlightNone = true;
-	fDefaultValue_old		= 0;
-	fGeomRef				= nullptr;
-	fInitialFunction		= nullptr;
-
-	ASSERTN(kEveryone, parent != nullptr);
-	fParent = parent;
-}
-
-GdtfDmxChannel::~GdtfDmxChannel()
-{
-	for (GdtfDmxLogicalChannelPtr ptr :fLogicalChannels) { delete ptr; }
-}
-
-void GdtfDmxChannel::SetName(const TXString& name)
-{
-	fName_AutoGenerated = name;
-}
-
-void GdtfDmxChannel::SetDmxBreak(Sint32 dmxBreak)
-{
-	fDmxBreak = dmxBreak;
-}
-
-void GdtfDmxChannel::SetDmxCoarse(Sint32 coarse)
-{
-	fCoarse = coarse;
-	
-}
-
-void GdtfDmxChannel::SetDmxFine(Sint32 fine)
-{
-	ASSERTN(kEveryone, fCoarse > 0);
-	fFine = fine;
-}
-
-void GdtfDmxChannel::SetDmxUltra(Sint32 ultra)
-{
-	ASSERTN(kEveryone, fCoarse > 0);
-	ASSERTN(kEveryone, fFine > 0);
-	fUltra = ultra;
-}
-
-void SceneData::GdtfDmxChannel::SetDmxUber(Sint32 uber)
-{
-	ASSERTN(kEveryone, fCoarse > 0);
-	ASSERTN(kEveryone, fFine > 0);
-	ASSERTN(kEveryone, fUltra > 0);
-	fUber = uber;
-}
-
-void GdtfDmxChannel::SetHighlight(DmxValue highlight)
-{
-	fHeighlight = highlight;
-	fHeighlightNone = false;
-}
-
-GdtfDmxLogicalChannel* GdtfDmxChannel::AddLogicalChannel()
-{
-	GdtfDmxLogicalChannel* channel = new GdtfDmxLogicalChannel(this);
-	if( ! fLogicalChannels.empty()) { fLogicalChannels.back()->SetNextLogicalChannel(channel); }
-
-	fLogicalChannels.push_back(channel);
-	return channel;
-}
-
-void GdtfDmxChannel::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnPrintToFile(pNode);
-	
-	EGdtfChannelBitResolution chanelReso = GetChannelBitResolution();
-	// ------------------------------------------------------------------------------------
-	// Print node attributes
-	pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelDMXBreak,			GdtfConverter::ConvertDmxBreak(fDmxBreak));
-	pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelOffset,				GdtfConverter::ConvertDmxOffset(fCoarse, fFine, fUltra, fUber));
-	pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelHighlight,			GdtfConverter::ConvertDMXValue(fHeighlight,	chanelReso, fHeighlightNone));
-	if (fGeomRef) 			{ pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelGeometry,			fGeomRef->GetNodeReference()); }
-	if (fInitialFunction) 	{ pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelInitialFunction,	fInitialFunction->GetNodeReference()); }
-	
-	// ------------------------------------------------------------------------------------
-	// LogicalChannels
-	for (GdtfDmxLogicalChannel* channelObj : fLogicalChannels)
-	{
-		channelObj->WriteToNode(pNode);
-	}
-}
-
-void GdtfDmxChannel::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnReadFromNode(pNode);
-		
-	// ------------------------------------------------------------------------------------
-	// Print node attributes
-	TXString dmxBreak;	pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelDMXBreak,			dmxBreak);	GdtfConverter::ConvertDmxBreak(dmxBreak, pNode,		fDmxBreak);
-	//
-	TXString offset;	
-	if (pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelOffset, offset) == kVCOMError_NoError) 
-	{
-		GdtfConverter::ConvertDmxOffset(offset, pNode, fCoarse, fFine, fUltra, fUber);
-	}	
-
-	// In GDTF 1.0, default value was in the DMX channel, this is for old files :
-	TXString defVal;	
-	if (pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelFuntionDefault, defVal) == kVCOMError_NoError)
-	{
-		GdtfConverter::ConvertDMXValue(defVal, pNode, this->GetChannelBitResolution(), fDefaultValue_old);
-	}
-	// ------------------------------------------------------------------------------------
-
-	//
-	TXString highlight;	
-	if(VCOM_SUCCEEDED(pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelHighlight,			highlight)	))
-	{
-		GdtfConverter::ConvertDMXValue(highlight, pNode, this->GetChannelBitResolution(), fHeighlight, fHeighlightNone);
-	}	
-	
-	pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelGeometry, 			fUnresolvedGeomRef);
-	pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelInitialFunction, 	fUnresolvedInitialFunction);	
-	
-	// ------------------------------------------------------------------------------------
-	// LogicalChannels	
-	GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_DMXLogicalChannelNodeName, [this] (IXMLFileNodePtr objNode) -> void
-								 {
-									 if ( CheckAbort() ) return;
-									 // Create the object
-									 GdtfDmxLogicalChannelPtr logicalChan = new GdtfDmxLogicalChannel(this);
-
-									 // Read from node
-									 logicalChan->ReadFromNode(objNode);
-									
-									// If there is already a logical channel
-									if( ! fLogicalChannels.empty())
-									{
-										// Get the prev array and the new array
-										const TGdtfDmxChannelFuntionArray& prevArr = fLogicalChannels.back()->GetDmxChannelFunctions();
-										const TGdtfDmxChannelFuntionArray& currArr = logicalChan->GetDmxChannelFunctions();
-
-										// If bouth arrays are not empty, link them togheter
-										if( (! prevArr.empty()) && (! currArr.empty()) )
-										{
-											prevArr.back()->SetNextFunction(currArr.front());
-										}
-									}
-								
-									 fLogicalChannels.push_back(logicalChan);
-
-									
-									 return;
-								 });
-}
-
-void GdtfDmxChannel::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_DMXChannelGeometry);
-	optional.push_back(XML_GDTF_DMXChannelInitialFunction);
-	optional.push_back(XML_GDTF_DMXChannelDMXBreak);
-	optional.push_back(XML_GDTF_DMXChannelOffset);
-	optional.push_back(XML_GDTF_DMXChannelHighlight);
-	//Default for GDTF 1.0 files
-	optional.push_back(XML_GDTF_DMXChannelFuntionDefault);
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfDmxChannel::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfDmxChannel;
-}
-
-TXString GdtfDmxChannel::GetNodeReference()
-{
-	return GetName();
-}
-
-GdtfDmxMode* GdtfDmxChannel::GetParentMode()
-{
-	return fParent;
-}
-
-TXString GdtfDmxChannel::GetNodeName()
-{
-	return XML_GDTF_DMXChannelNodeName;
-}
-
-const TXString& GdtfDmxChannel::GetName()
-{
-	// The name follows from the geometry and the first attribute, so it changes when they do
-	TXString dmxChannelName;
-	if(fGeomRef) { dmxChannelName += fGeomRef->GetName(); }
-	dmxChannelName += "_";
-	if(fLogicalChannels.size() > 0 && fLogicalChannels[0]->GetAttribute()) { dmxChannelName += fLogicalChannels[0]->GetAttribute()->GetName(); }
-
-	if( ! fName_AutoGenerated.Equal(dmxChannelName)) { this->SetName(dmxChannelName); }
-
-	return fName_AutoGenerated;
-}
-
-Sint32 GdtfDmxChannel::GetDmxBreak() const
-{
-	return fDmxBreak;
-}
-
-Sint32 GdtfDmxChannel::GetCoarse() const
-{
-	return fCoarse;
-}
-
-Sint32 GdtfDmxChannel::GetFine() const
-{
-	return fFine;
-}
-
-Sint32 GdtfDmxChannel::GetUltra() const
-{
-	return fUltra;
-}
-
-Sint32 GdtfDmxChannel::GetUber() const
-{
-	return fUber;
-}
-
-DmxValue GdtfDmxChannel::GetHighlight() const
-{
-	return fHeighlight;
-}
-
-bool GdtfDmxChannel::HasHighlight() const
-{
-	return !fHeighlightNone;
-}
-
-DmxValue GdtfDmxChannel::GetOldDefaultValue() const
-{
-	return fDefaultValue_old;
-}
-
-void GdtfDmxChannel::SetGeomRef(GdtfGeometryPtr newGeom)
-{
-	fGeomRef = newGeom;
-}
-
-GdtfGeometryPtr GdtfDmxChannel::GetGeomRef()
-{
-	return fGeomRef;
-}
-
-const TXString& GdtfDmxChannel::GetUnresolvedGeomRef() const
-{
-	return fUnresolvedGeomRef;
-}
-
-void GdtfDmxChannel::SetInitialFunction(GdtfDmxChannelFunctionPtr initialFunction)
-{
-	fInitialFunction = initialFunction;
-}
-
-GdtfDmxChannelFunctionPtr GdtfDmxChannel::GetInitialFunction()
-{
-	return fInitialFunction;
-}
-
-const TXString& GdtfDmxChannel::GetUnresolvedInitialFunction() const
-{
-	return fUnresolvedInitialFunction;
-}
-
-const TGdtfDmxLogicalChannelArray& GdtfDmxChannel::GetLogicalChannelArray()
-{
-	return fLogicalChannels;
-}
-
-EGdtfChannelBitResolution SceneData::GdtfDmxChannel::GetChannelBitResolution()
-{
-	if		(!fCoarse)	{ return EGdtfChannelBitResolution::eGdtfChannelBitResolution_16; }
-	else if	(!fFine)	{ return EGdtfChannelBitResolution::eGdtfChannelBitResolution_8; }
-	else if (!fUltra)	{ return EGdtfChannelBitResolution::eGdtfChannelBitResolution_16; }
-	else if (!fUber )	{ return EGdtfChannelBitResolution::eGdtfChannelBitResolution_24; }
-
-	return EGdtfChannelBitResolution::eGdtfChannelBitResolution_32;
-}
-
-DmxValue SceneData::GdtfDmxChannel::GetChannelMaxDmx()
-{
-	return GdtfConverter::GetChannelMaxDmx(this->GetChannelBitResolution());
-}
-
-bool SceneData::GdtfDmxChannel::IsVirtual() const
-{
-	if(fCoarse == 0 && fFine == 0 && fUltra == 0 && fUber == 0)	return true;
-	else 														return false;
-}
-
-//------------------------------------------------------------------------------------
-// GdtfDmxChannel
-GdtfDmxLogicalChannel::GdtfDmxLogicalChannel(GdtfDmxChannel* parent)
-{
-	fSnap					= EGdtfDmxSnap::eGdtfDmxMaster_No;
-	fAttribute				= nullptr;
-	fDmxMaster				= eGdtfDmxMaster_None;
-	fParentDmxChannel		= parent;
-	fNextLogicalChannel		= nullptr;
-	fMoveInBlackFrames		= 0;
-	fDmxChangeTimeLimit		= 0;
-}
-
-GdtfDmxLogicalChannel::~GdtfDmxLogicalChannel()
-{
-	for (GdtfDmxChannelFunctionPtr ptr : fFunctions) { delete ptr; }
-}
-
-void GdtfDmxLogicalChannel::SetName(const TXString &name)
-{
-	fName_AutoGenerated = name;
-}
-
-void GdtfDmxLogicalChannel::SetAttribute(GdtfAttributePtr attr)
-{
-	fAttribute = attr;
-}
-
-void GdtfDmxLogicalChannel::SetDmxSnap(EGdtfDmxSnap snap)
-{
-	fSnap = snap;
-}
-
-void GdtfDmxLogicalChannel::SetDmxMaster(EGdtfDmxMaster master)
-{
-	fDmxMaster = master;
-}
-
-void GdtfDmxLogicalChannel::SetNextLogicalChannel(GdtfDmxLogicalChannel* next)
-{
-	ASSERTN(kEveryone, fNextLogicalChannel == nullptr);
-	fNextLogicalChannel = next;
-}
-
-void SceneData::GdtfDmxLogicalChannel::SetMoveInBlackFrames(double moveInBlackFrames)
-{
-    fMoveInBlackFrames = moveInBlackFrames;
-}
-
-void SceneData::GdtfDmxLogicalChannel::SetDmxChangeTimeLimit(double changeLimit)
-{
-    fDmxChangeTimeLimit = changeLimit;
-}
-
-GdtfDmxLogicalChannelPtr GdtfDmxLogicalChannel::GetNextLogicalChannel()
-{
-	return fNextLogicalChannel;
-}
-
-double SceneData::GdtfDmxLogicalChannel::GetMoveInBlackFrames() const
-{
-    return fMoveInBlackFrames;
-}
-
-double SceneData::GdtfDmxLogicalChannel::GetDmxChangeTimeLimit() const
-{
-    return fDmxChangeTimeLimit;
-}
-
-GdtfDmxChannelFunctionPtr GdtfDmxLogicalChannel::AddDmxChannelFunction(const TXString &name)
-{
-	GdtfDmxChannelFunctionPtr function = new GdtfDmxChannelFunction(name, this);
-
-	// Also set next function here
-	if(fFunctions.size() > 0)	{ fFunctions.back()->SetNextFunction(function); }
-
-	fFunctions.push_back(function);
-
-	return function;
-}
-
-void GdtfDmxLogicalChannel::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnPrintToFile(pNode);
-	
-	
-	// ------------------------------------------------------------------------------------
-	// Print node attributes
-	if (fAttribute) {pNode->SetNodeAttributeValue(XML_GDTF_DMXLogicalChannelAttribute, fAttribute->GetNodeReference()); };
-	pNode->SetNodeAttributeValue(XML_GDTF_DMXLogicalChannelSnap,		GdtfConverter::ConvertSnapEnum(fSnap));
-	pNode->SetNodeAttributeValue(XML_GDTF_DMXLogicalChannelMaster,		GdtfConverter::ConvertMasterEnum(fDmxMaster));
-	pNode->SetNodeAttributeValue(XML_GDTF_DMXLogicalChannelMibFadeFrames,		GdtfConverter::ConvertDouble(fMoveInBlackFrames));
-	pNode->SetNodeAttributeValue(XML_GDTF_DMXLogicalChannelDMXChangeTimeLimit,	GdtfConverter::ConvertDouble(fDmxChangeTimeLimit));		
-	// ------------------------------------------------------------------------------------
-	// LogicalChannels
-	for (GdtfDmxChannelFunctionPtr functionObj : fFunctions)
-	{
-		functionObj->WriteToNode(pNode);
-	}
-}
-
-void GdtfDmxLogicalChannel::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnReadFromNode(pNode);
-	
-	
-	// ------------------------------------------------------------------------------------
-	// Print node attributes
-	pNode->GetNodeAttributeValue(XML_GDTF_DMXLogicalChannelAttribute, fUnresolvedAttribRef);
-	TXString snap; 	pNode->GetNodeAttributeValue(XML_GDTF_DMXLogicalChannelSnap,	snap);		GdtfConverter::ConvertSnapEnum(snap, 	 pNode, fSnap);
-	TXString master;pNode->GetNodeAttributeValue(XML_GDTF_DMXLogicalChannelMaster,	master);	GdtfConverter::ConvertMasterEnum(master, pNode,	fDmxMaster);
-	//
-	TXString mib;		pNode->GetNodeAttributeValue(XML_GDTF_DMXLogicalChannelMibFadeFrames,		mib);		GdtfConverter::ConvertDouble(mib, 		pNode,	fMoveInBlackFrames);
-	TXString timelimit;	pNode->GetNodeAttributeValue(XML_GDTF_DMXLogicalChannelDMXChangeTimeLimit,	timelimit);	GdtfConverter::ConvertDouble(timelimit, pNode,	fDmxChangeTimeLimit);
-	
-	// ------------------------------------------------------------------------------------
-	// Read LogicalChannels
-	GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_DMXChannelFuntionNodeName, [this] (IXMLFileNodePtr objNode) -> void
-								 {
-									 if ( CheckAbort() ) return;
-
-									 // Create the object
-									 GdtfDmxChannelFunctionPtr function = new GdtfDmxChannelFunction(this);
-									 
-									 // Read from node
-									 function->ReadFromNode(objNode);
-
-									 if(fFunctions.size() > 0)	{ fFunctions.back()->SetNextFunction(function); }
-									 
-									 if(fFunctions.size() == 0)	
-									 { 
-										if(function->GetStartAdress() != 0)
-										{
-											GdtfParsingError error (GdtfDefines::EGdtfParsingError::eChannelFunctionNotStartingWithZero, objNode);
-        									SceneData::GdtfFixture::AddError(error);
-											function->SetStartAddress(0);
-										}
-									 }
-									 
-									 // Add to list
-									 fFunctions.push_back(function);
-
-									 
-									 
-									 return;
-								 });
-}
-
-void GdtfDmxLogicalChannel::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_DMXLogicalChannelAttribute);
-	optional.push_back(XML_GDTF_DMXLogicalChannelSnap);
-	optional.push_back(XML_GDTF_DMXLogicalChannelMaster);
-    optional.push_back(XML_GDTF_DMXLogicalChannelMibFadeFrames);
-	optional.push_back(XML_GDTF_DMXLogicalChannelDMXChangeTimeLimit);	
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfDmxLogicalChannel::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfDmxLogicalChannel;
-}
-
-TXString GdtfDmxLogicalChannel::GetNodeReference()
-{
-	return fParentDmxChannel->GetNodeReference() + "." + GetName();
-}
-
-TXString GdtfDmxLogicalChannel::GetNodeName()
-{
-	return XML_GDTF_DMXLogicalChannelNodeName;
-}
-
-const TXString& GdtfDmxLogicalChannel::GetName()
-{
-	// The name is the one of the attribute, so it changes with it
-	TXString name;
-	ASSERTN(kEveryone, fAttribute != nullptr);
-	if(fAttribute){ name +=fAttribute->GetName(); }
-
-	if( ! fName_AutoGenerated.Equal(name)) { this->SetName(name); }
-
-	return fName_AutoGenerated;
-}
-
-GdtfAttribute* GdtfDmxLogicalChannel::GetAttribute()
-{
-	return fAttribute;
-}
-
-EGdtfDmxSnap GdtfDmxLogicalChannel::GetDmxSnap() const
-{
-	return fSnap;
-}
-
-EGdtfDmxMaster GdtfDmxLogicalChannel::GetDmxMaster() const
-{
-	return fDmxMaster;
-}
-
-const TGdtfDmxChannelFuntionArray& GdtfDmxLogicalChannel::GetDmxChannelFunctions()
-{
-	return fFunctions;
-}
-
-const TXString& GdtfDmxLogicalChannel::GetUnresolvedAttribRef() const
-{
-	return fUnresolvedAttribRef;
-}
-
-GdtfDmxChannel* GdtfDmxLogicalChannel::GetParentDMXChannel() const 
-{
-	return fParentDmxChannel;
-}
-
-//------------------------------------------------------------------------------------
-// GdtfDmxChannelFunction
-GdtfDmxChannelFunction::GdtfDmxChannelFunction(GdtfDmxLogicalChannel* parent)
-{
-	fDefaultValue			= 0;
-	fAdressStart			= 0;
-	fPhysicalStart			= 0;
-	fPhysicalEnd			= 1;
-	fRealFade				= 0;
-	fRealAcceleration 		= 0;
-	fOnWheel				= nullptr;
-	fEmitter				= nullptr;
-	fAttribute				= nullptr;
-	fParentLogicalChannel	= parent;
-	fNextFunction			= nullptr;
-
-	fModeMaster_Channel		= nullptr;
-	fModeMaster_Function	= nullptr;
-	fDmxModeStart			= 0;
-	fDmxModeEnd				= 0;
-
-	fFilter                	= nullptr;
-	fColorSpace             = nullptr;
-	fGamut                	= nullptr;
-	fDMXProfile             = nullptr;
-
-	fMin 					= 0;
-	fMax 					= 1;
-
-    fUnresolvedFilterRef   		= "";
-    fUnresolvedColorSpaceRef	= "";
-    fUnresolvedGamutRef   		= "";
-    fUnresolvedDMXProfileRef 	= "";
-}
-
-GdtfDmxChannelFunction::GdtfDmxChannelFunction(const TXString& name, GdtfDmxLogicalChannel* parent)
-{
-	fName					= name;
-	fDefaultValue			= 0;
-	fAdressStart			= 0;
-	fPhysicalStart			= 0;
-	fPhysicalEnd			= 1;
-	fRealFade				= 0;
-	fRealAcceleration 		= 0;
-	fOnWheel				= nullptr;
-	fEmitter				= nullptr;				
-	fAttribute				= nullptr;
-	fParentLogicalChannel	= parent;
-	fNextFunction			= nullptr;
-
-	fModeMaster_Channel		= nullptr;
-	fModeMaster_Function	= nullptr;
-	fDmxModeStart			= 0;
-	fDmxModeEnd				= 0;
-
-    fFilter                	= nullptr;
-	fColorSpace             = nullptr;
-	fGamut                	= nullptr;
-	fDMXProfile             = nullptr;
-
-	fMin 					= 0;
-	fMax 					= 1;
-
-    fUnresolvedFilterRef   		= "";
-    fUnresolvedColorSpaceRef	= "";
-    fUnresolvedGamutRef   		= "";
-    fUnresolvedDMXProfileRef 	= "";
-}
-
-GdtfDmxChannelFunction::~GdtfDmxChannelFunction()
-{
-	for (GdtfDmxChannelSetPtr ptr 		: fChannelSets) 	{ delete ptr; }
-	for (GdtfDmxSubChannelSetPtr ptr 	: fSubChannelSets) 	{ delete ptr; }
-}
-
-void GdtfDmxChannelFunction::SetNextFunction(GdtfDmxChannelFunction* next)
-{
-	ASSERTN(kEveryone, fNextFunction == nullptr);
-	fNextFunction = next;
-}
-
-void GdtfDmxChannelFunction::SetName(const TXString &name)
-{
-	fName = name;
-}
-
-void GdtfDmxChannelFunction::SetAttribute(GdtfAttribute* newAttr)
-{
-	fAttribute = newAttr;
-}
-
-void GdtfDmxChannelFunction::SetOriginalAttribute(const TXString &attribute)
-{
-	fOrignalAttribute = attribute;
-}
-
-void GdtfDmxChannelFunction::SetDefaultValue(DmxValue defaultValue)
-{
-	fDefaultValue = defaultValue;
-}
-
-void GdtfDmxChannelFunction::SetStartAddress(DmxValue address)
-{
-	fAdressStart = address;
-}
-
-void GdtfDmxChannelFunction::SetPhysicalStart(double start)
-{
-	fPhysicalStart = start;
-}
-
-void GdtfDmxChannelFunction::SetPhysicalEnd(double end)
-{
-	fPhysicalEnd = end;
-}
-
-void GdtfDmxChannelFunction::SetRealFade(double fade)
-{
-	fRealFade = fade;
-}
-
-void GdtfDmxChannelFunction::SetRealAcceleration(double acceleration)
-{
-	fRealAcceleration = acceleration;
-}
-
-GdtfDmxChannelSet* GdtfDmxChannelFunction::AddChannelSet(const TXString &name)
-{
-	GdtfDmxChannelSet* channelSet = new GdtfDmxChannelSet(name, this);
-	fChannelSets.push_back(channelSet);
-	return channelSet;
-}
-
-GdtfDmxSubChannelSet* GdtfDmxChannelFunction::AddSubChannelSet(GdtfSubPhysicalUnit* subPhysicalUnit, const TXString& name)
-{
-	GdtfDmxSubChannelSet* subChannelSet = new GdtfDmxSubChannelSet(subPhysicalUnit, name);
-	fSubChannelSets.push_back(subChannelSet);
-	return subChannelSet;
-}
-
-void GdtfDmxChannelFunction::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnPrintToFile(pNode);
-	
-	EGdtfChannelBitResolution chanelReso = GetParentDMXChannel()->GetChannelBitResolution();
-
-	// ------------------------------------------------------------------------------------
-	// Print node attributes
-	pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFuntionName,				fName);
-
-	pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFuntionDefault,				GdtfConverter::ConvertDMXValue(fDefaultValue, chanelReso));
-	pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFuntionDMXFrom,				GdtfConverter::ConvertDMXValue(fAdressStart, chanelReso));
-	pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFuntionPhysicalFrom,		GdtfConverter::ConvertDouble(fPhysicalStart));
-	pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFuntionPhysicalTo,			GdtfConverter::ConvertDouble(fPhysicalEnd));
-	pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFuntionRealFade,			GdtfConverter::ConvertDouble(fRealFade));
-	pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFuntionRealAcceleration,	GdtfConverter::ConvertDouble(fRealAcceleration));
-	pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFunctionMin,				GdtfConverter::ConvertDouble(fMin));
-	pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFunctionMax,				GdtfConverter::ConvertDouble(fMax));
-	pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFunctionCustomName,			fCustomName);
-
-	
-	pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFuntionOriginalAttribute,								fOrignalAttribute);
-	if (fAttribute)		    { pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFuntionAttribute,			    fAttribute->GetNodeReference()); }
-	if (fOnWheel)			{ pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFuntionWheelRef,				fOnWheel->GetNodeReference()); }
-	if (fEmitter)			{ pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelEmitter,						fEmitter->GetNodeReference() ); }
-	if (fFilter) 			{ pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFuntionFilter, 				fFilter->GetNodeReference()); }
-	if (fColorSpace) 		{ pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFunctionColorSpace, 			fColorSpace->GetNodeReference()); }
-	if (fGamut) 			{ pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFunctionGamut, 				fGamut->GetNodeReference()); }
-	if (fDMXProfile) 		{ pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFunctionDMXProfile, 			fDMXProfile->GetNodeReference()); }
-	
-
-	if(fModeMaster_Channel)
-	{
-		ASSERTN(kEveryone, (fModeMaster_Function == nullptr));
-
-		pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFuntionModeMaster,				fModeMaster_Channel->GetNodeReference());	
-		pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFuntionModeFrom,				GdtfConverter::ConvertDMXValue(fDmxModeStart, fModeMaster_Channel->GetChannelBitResolution()));	
-		pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFuntionModeTo,					GdtfConverter::ConvertDMXValue(fDmxModeEnd,   fModeMaster_Channel->GetChannelBitResolution()));	
-	}
-	if(fModeMaster_Function)
-	{
-		ASSERTN(kEveryone, (fModeMaster_Channel == nullptr));
-
-		pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFuntionModeMaster,				fModeMaster_Function->GetNodeReference());	
-		pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFuntionModeFrom,				GdtfConverter::ConvertDMXValue(fDmxModeStart, fModeMaster_Function->GetParentDMXChannel()->GetChannelBitResolution()));	
-		pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFuntionModeTo,					GdtfConverter::ConvertDMXValue(fDmxModeEnd,   fModeMaster_Function->GetParentDMXChannel()->GetChannelBitResolution()));	
-	}
-
-	// ------------------------------------------------------------------------------------
-	// Prepare No Feature Channel Set
-	TGdtfDmxChannelSetArray tempArr;
-	bool					hasChannelSets = fChannelSets.size() > 0;
-	
-	// Sort from low to high
-	std::sort(fChannelSets.begin(), fChannelSets.end(), [](const GdtfDmxChannelSetPtr & a, const GdtfDmxChannelSetPtr & b) -> bool { return a->GetDmxStart() < b->GetDmxStart(); });
-	
-	// If it has channel sets, process first obj
-	if(hasChannelSets)
-	{
-		GdtfDmxChannelSetPtr firstChannelSet = fChannelSets[0];
-		
-		if(firstChannelSet->GetDmxStart() > this->GetStartAdress())
-		{
-			GdtfDmxChannelSetPtr noFeature = new GdtfDmxChannelSet("", this);
-			noFeature->SetDmxStart(this->GetStartAdress());
-			noFeature->SetDmxEnd(firstChannelSet->GetDmxStart()-1);
-			tempArr.push_back(noFeature);
-		}
-		
-		// add the first one
-		tempArr.push_back(firstChannelSet);
-	}
-	
-	// Process the spaces between the channel sets
-	for (size_t i = 1; i < fChannelSets.size(); i++)
-	{
-		GdtfDmxChannelSetPtr first  = fChannelSets[i-1];
-		GdtfDmxChannelSetPtr second = fChannelSets[ i ];
-		
-		DmxValue diff = second ->GetDmxStart() - first->GetDmxEnd();
-		
-		if (diff > 1)
-		{
-			GdtfDmxChannelSetPtr noFeature = new GdtfDmxChannelSet("", this);
-			noFeature->SetDmxStart(first->GetDmxEnd()  + 1);
-			noFeature->SetDmxEnd(second->GetDmxStart() - 1);
-			tempArr.push_back(noFeature);
-		}
-		else if(diff < 1)	{ DSTOP((kEveryone, "Wrong Formated ChannelSet")); }
-		
-		tempArr.push_back(second);
-		
-	}
-	
-	// Process the last channel set
-	if(hasChannelSets)
-	{
-		GdtfDmxChannelSetPtr lastChannelSet = fChannelSets.back();
-
-		if(lastChannelSet->GetDmxEnd() < this->GetEndAdress())
-		{
-			GdtfDmxChannelSetPtr noFeature = new GdtfDmxChannelSet("", this);
-			noFeature->SetDmxStart(lastChannelSet->GetDmxEnd() + 1);
-			noFeature->SetDmxEnd(this->GetEndAdress());
-			tempArr.push_back(noFeature);
-		}
-	}
-	
-	
-	// ------------------------------------------------------------------------------------
-	// Now print them to the node
-	for (GdtfDmxChannelSet* channelObj : tempArr)
-	{
-		channelObj->WriteToNode(pNode);
-	}
-	fChannelSets = tempArr;
-
-	// ------------------------------------------------------------------------------------
-	// SubChannelSets
-	for(GdtfDmxSubChannelSet* subChannelSet : fSubChannelSets)
-	{
-		subChannelSet->WriteToNode(pNode);
-	}
-}
-
-void GdtfDmxChannelFunction::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnReadFromNode(pNode);
-	
-	// ------------------------------------------------------------------------------------
-	// Print node attributes
-	EGdtfChannelBitResolution channelReso = fParentLogicalChannel->GetParentDMXChannel()->GetChannelBitResolution();
-
-							pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelFuntionName,				fName);
-							pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelFuntionOriginalAttribute,	fOrignalAttribute);
-	TXString defaultValue;	pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelFuntionDefault,				defaultValue);		GdtfConverter::ConvertDMXValue(defaultValue,	pNode,	channelReso,fDefaultValue);
-	TXString dmxFrom;		pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelFuntionDMXFrom,				dmxFrom);			GdtfConverter::ConvertDMXValue(dmxFrom, 		pNode,	channelReso,fAdressStart);
-	TXString physFrom;		pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelFuntionPhysicalFrom,		physFrom);			GdtfConverter::ConvertDouble(physFrom, 			pNode,				fPhysicalStart);
-	TXString physTo;		pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelFuntionPhysicalTo,			physTo);			GdtfConverter::ConvertDouble(physTo, 			pNode,				fPhysicalEnd);
-	TXString realFade;		pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelFuntionRealFade,			realFade);			GdtfConverter::ConvertDouble(realFade, 			pNode,				fRealFade);
-	TXString realAcc;		pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelFuntionRealAcceleration,	realAcc);			GdtfConverter::ConvertDouble(realAcc, 			pNode,				fRealAcceleration);
-	TXString min;			pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelFunctionMin,				min);				GdtfConverter::ConvertDouble(min, 				pNode,				fMin);
-	TXString max;			pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelFunctionMax,				max);				GdtfConverter::ConvertDouble(max, 				pNode,				fMax);
-							pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelFunctionCustomName,			fCustomName);
-	// Unresolved refs
-	pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelFuntionAttribute, 	fUnresolvedAttrRef);	
-	pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelFuntionWheelRef, 	fUnresolvedWheelRef);
-	pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelEmitter, 			fUnresolvedEmitterRef);
-    pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelFuntionFilter,		fUnresolvedFilterRef);
-    pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelFunctionColorSpace,	fUnresolvedColorSpaceRef);
-    pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelFunctionGamut,		fUnresolvedGamutRef);
-    pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelFunctionDMXProfile,	fUnresolvedDMXProfileRef);
-
-	// Read Mode Master
-	pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelFuntionModeMaster,	fUnresolvedModeMaster);	
-	pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelFuntionModeFrom,	fUnresolvedDmxModeStart);	
-	pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelFuntionModeTo,		fUnresolvedDmxModeEnd);	
-
-    
-
-	// ------------------------------------------------------------------------------------
-	// GdtfDmxChannelSet
-	GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_DMXChannelSetNodeName, [this] (IXMLFileNodePtr objNode) -> void
-	{	
-		if ( CheckAbort() ) return;
-
-		// Create the object
-		GdtfDmxChannelSetPtr channelSet = new GdtfDmxChannelSet(this);
-		
-		// Read from node
-		channelSet->ReadFromNode(objNode);
-
-		if( ! channelSet->IsValid()) { delete channelSet; return; }
-
-		// For old virtual channels with recalculated DMX values(32->16), ensure unique DMXFrom values
-		if (this->GetParentDMXChannel()->IsVirtual())
-		{
-			DmxValue maxDmxValue = this->GetParentDMXChannel()->GetChannelMaxDmx();
-
-			if (fChannelSets.size() >= maxDmxValue)
-			{
-				GdtfParsingError error (GdtfDefines::EGdtfParsingError::eValueError_DmxValueHasWrongValue, objNode);
-				SceneData::GdtfFixture::AddError(error);
-				delete channelSet;
-				return;
-			}
-			
-			DmxValue currentValue = channelSet->GetDmxStart();
-
-			bool hasDuplicate = true;
-			
-			while (hasDuplicate && currentValue < maxDmxValue)
-			{
-				hasDuplicate = false;
-				for (size_t i = 0; i < fChannelSets.size(); i++)
-				{
-					if (fChannelSets[i]->GetDmxStart() == currentValue)
-					{
-						hasDuplicate = true;
-						currentValue++;
-						break;
-					}
-				}
-			}
-			
-			// If we reached the maximum and still have a duplicate, use cascading backward decrement
-			if (hasDuplicate && currentValue >= maxDmxValue)
-			{
-				for (int i = fChannelSets.size() - 1; i >= 0; i--)
-				{
-					DmxValue nextValue = (i == (int)fChannelSets.size() - 1) ? maxDmxValue : fChannelSets[i + 1]->GetDmxStart();
-					DmxValue currentElem = fChannelSets[i]->GetDmxStart();
-					DmxValue maxAllowed = (nextValue > 0) ? (nextValue - 1) : 0;
-					
-					if (currentElem >= nextValue && maxAllowed >= 0)
-					{
-						fChannelSets[i]->SetDmxStart(maxAllowed);
-					}
-				}
-				
-				currentValue = maxDmxValue;
-			}
-			
-			if (currentValue != channelSet->GetDmxStart())
-			{
-				channelSet->SetDmxStart(currentValue);
-			}
-		}
-	
-		// Link with next
-		if(!fChannelSets.empty()) 
-		{ 
-			bool validDmxRange = fChannelSets.back()->SetNextChannelSet(channelSet, objNode);
-			if(! validDmxRange) { delete channelSet; return; }
-		}
-		
-		// Add to list
-		fChannelSets.push_back(channelSet);
-		
-		return;
-	});
-	
-	// Now calculate end values
-	for (size_t i = 1; i < fChannelSets.size() ; i++)
-	{
-		GdtfDmxChannelSetPtr first  = fChannelSets[i-1];
-		GdtfDmxChannelSetPtr second = fChannelSets[ i ];
-		
-		first->SetDmxEnd(second->GetDmxStart() - 1);
-	}
-
-	// ------------------------------------------------------------------------------------
-	// GdtfDmxSubChannelSet
-	GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_DMXSubChannelSetNodeName, [this] (IXMLFileNodePtr objNode) -> void
-	{
-		if ( CheckAbort() ) return;
-
-		// Create the object
-		GdtfDmxSubChannelSetPtr subChannelSet = new GdtfDmxSubChannelSet();
-		
-		// Read from node
-		subChannelSet->ReadFromNode(objNode);
-
-		// Add to list
-		fSubChannelSets.push_back(subChannelSet);
-
-		return;
-	});
-}
-
-void GdtfDmxChannelFunction::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	optional.push_back(XML_GDTF_DMXChannelFuntionName);
-	optional.push_back(XML_GDTF_DMXChannelFuntionAttribute);
-	optional.push_back(XML_GDTF_DMXChannelFuntionOriginalAttribute);
-	optional.push_back(XML_GDTF_DMXChannelFuntionDefault);
-	optional.push_back(XML_GDTF_DMXChannelFuntionDMXFrom);
-	optional.push_back(XML_GDTF_DMXChannelFuntionPhysicalFrom);
-	optional.push_back(XML_GDTF_DMXChannelFuntionPhysicalTo);
-	optional.push_back(XML_GDTF_DMXChannelFuntionWheelRef);
-	optional.push_back(XML_GDTF_DMXChannelEmitter);	
-	optional.push_back(XML_GDTF_DMXChannelFuntionModeMaster);
-	optional.push_back(XML_GDTF_DMXChannelFuntionModeFrom);
-	optional.push_back(XML_GDTF_DMXChannelFuntionModeTo);
-	optional.push_back(XML_GDTF_DMXChannelFuntionRealFade);
-    optional.push_back(XML_GDTF_DMXChannelFuntionFilter);
-	optional.push_back(XML_GDTF_DMXChannelFuntionRealAcceleration);
-	optional.push_back(XML_GDTF_DMXChannelFunctionColorSpace);
-	optional.push_back(XML_GDTF_DMXChannelFunctionGamut);
-	optional.push_back(XML_GDTF_DMXChannelFunctionDMXProfile);
-	optional.push_back(XML_GDTF_DMXChannelFunctionMin);
-	optional.push_back(XML_GDTF_DMXChannelFunctionMax);
-	optional.push_back(XML_GDTF_DMXChannelFunctionCustomName);
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfDmxChannelFunction::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfDmxChannelFuntion;
-}
-
-TXString GdtfDmxChannelFunction::GetNodeName()
-{
-	return XML_GDTF_DMXChannelFuntionNodeName;
-}
-
-TXString GdtfDmxChannelFunction::GetNodeReference()
-{
-	TXString functionName = GetName();
-	if(functionName.IsEmpty())
-	{
-		ASSERTN(kEveryone, GetAttribute() != nullptr);
-		if(GetAttribute() != nullptr)
-		{
-			functionName = GetAttribute()->GetName();
-			functionName += " ";
-			functionName += TXString().itoa(GetNumberInParent());
-		}
-		
-	}
-	return fParentLogicalChannel->GetNodeReference() + "." + functionName;
-}
-
-size_t GdtfDmxChannelFunction::GetNumberInParent() const
-{
-	size_t count = fParentLogicalChannel->GetDmxChannelFunctions().size();
-	for(size_t i = 0; i < count; i++)
-	{
-		if(fParentLogicalChannel->GetDmxChannelFunctions()[i] == this)
-		{
-			return (i+1);
-		}
-	}
-	
-	DSTOP("Failed to get GetNumberInParent");
-	return 1;
-}
-
-const TXString& GdtfDmxChannelFunction::GetName() const
-{
-	return fName;
-}
-
-GdtfAttribute* GdtfDmxChannelFunction::GetAttribute()
-{
-	return fAttribute;
-}
-
-const TXString& GdtfDmxChannelFunction::GetOriginalAttribute()
-{
-	return fOrignalAttribute;
-}
-
-DmxValue GdtfDmxChannelFunction::GetDefaultValue() const
-{
-	return fDefaultValue;
-}
-
-DmxValue GdtfDmxChannelFunction::GetStartAdress() const
-{
-	return fAdressStart;
-}
-
-DmxValue GdtfDmxChannelFunction::GetEndAdress() const
-{
-	if(fNextFunction)
-	{
-		// There could be serveral Channel Function that have the same start adress, step over them 
-		if(fNextFunction->GetStartAdress() <= this->GetStartAdress()) { fParentLogicalChannel->GetParentDMXChannel()->GetChannelMaxDmx(); }
-		// If the Start Adress differrs, the end Adress is based on the start adress of this channel 
-		else { return(fNextFunction->GetStartAdress() - 1);  }	
-	}
-	
-	// Otherwise return the max for this feature
-	return fParentLogicalChannel->GetParentDMXChannel()->GetChannelMaxDmx();
-}
-
-double GdtfDmxChannelFunction::GetPhysicalStart() const
-{
-	return fPhysicalStart;
-}
-
-double GdtfDmxChannelFunction::GetPhysicalEnd() const
-{
-	return fPhysicalEnd;
-}
-
-double GdtfDmxChannelFunction::GetRealFade() const
-{
-	return fRealFade;
-}
-
-double GdtfDmxChannelFunction::GetRealAcceleration() const
-{
-	return fRealAcceleration;
-}
-
-GdtfWheelPtr GdtfDmxChannelFunction::GetOnWheel() const
-{
-	return fOnWheel;
-}
-
-GdtfPhysicalEmitter * SceneData::GdtfDmxChannelFunction::GetEmitter() const
-{
-    return fEmitter;
-}
-
-GdtfFilterPtr SceneData::GdtfDmxChannelFunction::GetFilter() const
-{
-    return fFilter;
-}
-
-GdtfColorSpacePtr SceneData::GdtfDmxChannelFunction::GetColorSpace() const
-{
-    return fColorSpace;
-}
-
-GdtfGamutPtr SceneData::GdtfDmxChannelFunction::GetGamut() const
-{
-    return fGamut;
-}
-
-GdtfDMXProfilePtr SceneData::GdtfDmxChannelFunction::GetDMXProfile() const
-{
-    return fDMXProfile;
-}
-
-double GdtfDmxChannelFunction::GetMin() const
-{
-	return fMin;
-}
-
-double GdtfDmxChannelFunction::GetMax() const
-{
-	return fMax;
-}
-
-const TXString& GdtfDmxChannelFunction::GetCustomName() const
-{
-	return fCustomName;
-}
-
-void GdtfDmxChannelFunction::SetWheel(GdtfWheelPtr newWhl)
-{
-	fOnWheel = newWhl;
-}
-
-const TGdtfDmxChannelSetArray& GdtfDmxChannelFunction::GetChannelSets() const
-{
-	return fChannelSets;
-}
-
-const TGdtfDmxSubChannelSetArray& GdtfDmxChannelFunction::GetSubChannelSets() const
-{
-	return fSubChannelSets;
-}
-
-GdtfDmxChannel* GdtfDmxChannelFunction::GetModeMaster_Channel() const
-{
-	return fModeMaster_Channel;
-}
-
-GdtfDmxChannelFunction* GdtfDmxChannelFunction::GetModeMaster_Function() const
-{
-	return fModeMaster_Function;
-}
-
-DmxValue GdtfDmxChannelFunction::GetModeMasterDmxStart() const
-{
-	return fDmxModeStart;
-}
-
-DmxValue GdtfDmxChannelFunction::GetModeMasterDmxEnd() const
-{
-	return fDmxModeEnd;
-}
-
-void GdtfDmxChannelFunction::ResolveModeMasterDmx(EGdtfChannelBitResolution resolution)
-{
-	IXMLFileNodePtr node;
-	this->GetNode(node);
-
-	GdtfConverter::ConvertDMXValue(fUnresolvedDmxModeStart, node, resolution, fDmxModeStart);
-	GdtfConverter::ConvertDMXValue(fUnresolvedDmxModeEnd,node, resolution, fDmxModeEnd);
-}
-
-void GdtfDmxChannelFunction::SetModeMaster_Channel(GdtfDmxChannel* channel)
-{
-	ASSERTN(kEveryone, fModeMaster_Function == nullptr);
-	fModeMaster_Function = nullptr;
-	fModeMaster_Channel = channel;
-}
-
-void GdtfDmxChannelFunction::SetModeMaster_Function(GdtfDmxChannelFunction* function)
-{
-	ASSERTN(kEveryone, fModeMaster_Channel == nullptr);
-	fModeMaster_Channel = nullptr;
-	fModeMaster_Function = function;
-}
-
-void GdtfDmxChannelFunction::SetModeMasterDmxStart(DmxValue start)
-{
-	fDmxModeStart = start;
-}
-
-void GdtfDmxChannelFunction::SetModeMasterDmxEnd(DmxValue end)
-{
-	fDmxModeEnd = end;
-}
-
-void GdtfDmxChannelFunction::SetEmitter(GdtfPhysicalEmitter* newEmit)
-{
-	fEmitter = newEmit;
-}
-
-void SceneData::GdtfDmxChannelFunction::SetFilter(GdtfFilterPtr val)
-{
-    fFilter = val;
-}
-
-void SceneData::GdtfDmxChannelFunction::SetColorSpace(GdtfColorSpacePtr colorSpace)
-{
-    fColorSpace = colorSpace;
-}
-
-void SceneData::GdtfDmxChannelFunction::SetGamut(GdtfGamutPtr gamut)
-{
-    fGamut = gamut;
-}
-
-void SceneData::GdtfDmxChannelFunction::SetDMXProfile(GdtfDMXProfilePtr dmxProfile)
-{
-    fDMXProfile = dmxProfile;
-}
-
-void SceneData::GdtfDmxChannelFunction::SetMin(double min)
-{
-    fMin = min;
-}
-
-void SceneData::GdtfDmxChannelFunction::SetMax(double max)
-{
-    fMax = max;
-}
-
-void SceneData::GdtfDmxChannelFunction::SetCustomName(const TXString& customName)
-{
-    fCustomName = customName;
-}
-
-const TXString& GdtfDmxChannelFunction::getUnresolvedAttrRef() const
-{
-	return fUnresolvedAttrRef;
-}
-
-const TXString& GdtfDmxChannelFunction::getUnresolvedWheelRef() const
-{
-	return fUnresolvedWheelRef;
-}
-
-const TXString& GdtfDmxChannelFunction::getUnresolvedEmitterRef() const
-{
-	return fUnresolvedEmitterRef;
-}
-
-const TXString& GdtfDmxChannelFunction::getUnresolvedModeMasterRef() const
-{
-	return fUnresolvedModeMaster;
-}
-
-const TXString & SceneData::GdtfDmxChannelFunction::getUnresolvedFilterRef()
-{
-    return fUnresolvedFilterRef;
-}
-
-const TXString& SceneData::GdtfDmxChannelFunction::getUnresolvedColorSpaceRef() const
-{
-    return fUnresolvedColorSpaceRef;
-}
-
-const TXString& SceneData::GdtfDmxChannelFunction::getUnresolvedGamutRef() const
-{
-    return fUnresolvedGamutRef;
-}
-
-const TXString& SceneData::GdtfDmxChannelFunction::getUnresolvedDMXProfileRef() const
-{
-    return fUnresolvedDMXProfileRef;
-}
-
-GdtfDmxChannel * SceneData::GdtfDmxChannelFunction::GetParentDMXChannel() const
-{
-	return fParentLogicalChannel->GetParentDMXChannel();
-}
-
-GdtfDmxLogicalChannel * SceneData::GdtfDmxChannelFunction::GetParentLogicalChannel() const
-{
-	return fParentLogicalChannel;
-}
-
-GdtfDmxChannelFunction* SceneData::GdtfDmxChannelFunction::GetNextFunction() const
-{
-	return fNextFunction;
-}
-
-//------------------------------------------------------------------------------------
-// GdtfDmxChannelSet
-GdtfDmxChannelSet::GdtfDmxChannelSet(GdtfDmxChannelFunction* parent)
-{
-	fDmxStart		= 0;
-	fDmxEnd			= -1;
-	fPhysicalStart	= 0.0;
-	fPhysicalEnd	= 1.0;	
-	fWheelSlotIdx	= 0;
-	fSetPhysical	= false;
-	fNextChannelSet = nullptr;
-	fParentChnlFunction = parent;
-	fValid = true;
-}
-
-GdtfDmxChannelSet::GdtfDmxChannelSet(const TXString& name, GdtfDmxChannelFunction* parent)
-{
-	fUniqueName = name;
-	fDmxStart		= 0;
-	fDmxEnd			= -1;
-	fPhysicalStart	= 0.0;
-	fPhysicalEnd	= 1.0;	
-	fWheelSlotIdx	= 0;
-	fSetPhysical	= false;
-	fNextChannelSet = nullptr;
-	fParentChnlFunction = parent;
-	fValid = true;
-}
-
-GdtfDmxChannelSet::~GdtfDmxChannelSet()
-{
-}
-
-bool GdtfDmxChannelSet::SetNextChannelSet(GdtfDmxChannelSet* next, IXMLFileNodePtr objNode)
-{
-	if(this->GetDmxStart() >= next->GetDmxStart())
-	{
-		GdtfParsingError error (GdtfDefines::EGdtfParsingError::eValueError_DmxValueHasWrongValue, objNode);
-        SceneData::GdtfFixture::AddError(error);
-		return false;
-	}
-
-	ASSERTN(kEveryone, fNextChannelSet == nullptr);
-	fNextChannelSet = next;
-	return true;
-}
-
-void GdtfDmxChannelSet::SetName(const TXString& name)
-{
-	fUniqueName = name;
-}
-
-void GdtfDmxChannelSet::SetDmxStart(DmxValue start)
-{
-	fDmxStart = start;
-}
-
-void GdtfDmxChannelSet::SetDmxEnd(DmxValue end)
-{
-	fDmxEnd = end;
-}
-
-void GdtfDmxChannelSet::SetPhysicalStart(double start)
-{
-	fPhysicalStart = start;
-	fSetPhysical	= true;
-}
-
-void GdtfDmxChannelSet::SetPhysicalEnd(double end)
-{
-	fPhysicalEnd = end;
-	fSetPhysical	= true;
-}
-
-void GdtfDmxChannelSet::SetWheelSlot(Sint32 slotIndex)
-{
-	fWheelSlotIdx = slotIndex;
-}
-
-bool GdtfDmxChannelSet::IsValid()
-{
-	return fValid;
-}
-
-void GdtfDmxChannelSet::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnPrintToFile(pNode);
-	
-	EGdtfChannelBitResolution chanelReso = GetParentDMXChannel()->GetChannelBitResolution();
-	// ------------------------------------------------------------------------------------
-	// Print node attributes
-	pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelSetName,				fUniqueName);
-	pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelSetDMXFrom,				GdtfConverter::ConvertDMXValue(fDmxStart, chanelReso));
-	pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelSetWheelSlotIndexRef,	GdtfConverter::ConvertInteger(fWheelSlotIdx));
-	
-	if(fSetPhysical)
-	{
-		pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelSetPhysicalFrom,		GdtfConverter::ConvertDouble(fPhysicalStart));
-		pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelSetPhysicalTo,			GdtfConverter::ConvertDouble(fPhysicalEnd));
-	}
-	
-}
-
-void GdtfDmxChannelSet::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnReadFromNode(pNode);
-	
-	
-	// ------------------------------------------------------------------------------------
-	// Print node attributes
-	pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelSetName,				fUniqueName);
-	
-	EGdtfChannelBitResolution channelReso = fParentChnlFunction->GetParentDMXChannel()->GetChannelBitResolution();
-
-	TXString dmxfrom;	pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelSetDMXFrom,				dmxfrom);	fValid = GdtfConverter::ConvertDMXValue (dmxfrom, pNode, channelReso, fDmxStart);
-	TXString wheelId;	pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelSetWheelSlotIndexRef,	wheelId);	GdtfConverter::ConvertInteger(wheelId, pNode,  fWheelSlotIdx);
-	
-	
-	TXString physFrom; pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelSetPhysicalFrom,		physFrom);
-	TXString physTo;   pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelSetPhysicalTo,	    physTo);
-	
-	bool b1 = GdtfConverter::ConvertDouble(physTo, pNode,	fPhysicalEnd);
-	bool b2 = GdtfConverter::ConvertDouble(physFrom, pNode,	fPhysicalStart);
-	fSetPhysical = (b1 && b2);
-
-}
-
-void GdtfDmxChannelSet::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	optional.push_back(XML_GDTF_DMXChannelSetName);
-	optional.push_back(XML_GDTF_DMXChannelSetDMXFrom);
-	optional.push_back(XML_GDTF_DMXChannelSetWheelSlotIndexRef);
-
-	if(fSetPhysical)
-	{
-		needed.push_back(XML_GDTF_DMXChannelSetPhysicalFrom);
-		needed.push_back(XML_GDTF_DMXChannelSetPhysicalTo);
-
-	}
-	else
-	{
-		optional.push_back(XML_GDTF_DMXChannelSetPhysicalFrom);
-		optional.push_back(XML_GDTF_DMXChannelSetPhysicalTo);
-	}
-	
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfDmxChannelSet::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfDmxChannelSet;
-}
-
-TXString GdtfDmxChannelSet::GetNodeName()
-{
-	return XML_GDTF_DMXChannelSetNodeName;
-}
-
-const TXString& GdtfDmxChannelSet::GetName() const
-{
-	return fUniqueName;
-}
-
-bool GdtfDmxChannelSet::GetUsePhysicalFromParent() const
-{
-	return !fSetPhysical;
-}
-
-DmxValue GdtfDmxChannelSet::GetDmxStart() const
-{
-	return fDmxStart;
-}
-
-DmxValue GdtfDmxChannelSet::GetDmxEnd() const
-{
-	if(fNextChannelSet == nullptr && fDmxEnd == size_t(-1)) {  return fParentChnlFunction->GetEndAdress(); }
-	return fDmxEnd;
-}
-
-double GdtfDmxChannelSet::GetPhysicalStart() const
-{
-	return fPhysicalStart;
-}
-
-double GdtfDmxChannelSet::GetPhysicalEnd() const
-{
-	return fPhysicalEnd;
-}
-
-Sint32 GdtfDmxChannelSet::GetWheelSlot()
-{
-	return fWheelSlotIdx;
-}
-
-GdtfDmxChannel * SceneData::GdtfDmxChannelSet::GetParentDMXChannel() const
-{
-	return fParentChnlFunction->GetParentDMXChannel();
-}
-
-//------------------------------------------------------------------------------------
-// GdtfDmxSubChannelSet
-GdtfDmxSubChannelSet::GdtfDmxSubChannelSet()
-{
-	fUniqueName 		= "";
-	fPhysicalFrom		= 0.0;
-	fPhysicalTo			= 1.0;
-	fSubPhysicalUnit 	= nullptr;
-	fDMXProfile 		= nullptr;
-}
-
-GdtfDmxSubChannelSet::GdtfDmxSubChannelSet(GdtfSubPhysicalUnitPtr subPhysicalUnit, const TXString& name)
-{
-	fUniqueName 		= name;
-	fPhysicalFrom		= 0.0;
-	fPhysicalTo			= 1.0;
-	fSubPhysicalUnit 	= subPhysicalUnit;
-	fDMXProfile 		= nullptr;
-	if(subPhysicalUnit)
-	{
-		fPhysicalFrom 	= subPhysicalUnit->GetPhysicalFrom();
-		fPhysicalTo		= subPhysicalUnit->GetPhysicalTo();
-	}
-}
-
-GdtfDmxSubChannelSet::~GdtfDmxSubChannelSet()
-{
-}
-
-void GdtfDmxSubChannelSet::SetName(const TXString& name)
-{
-	fUniqueName = name;
-}
-
-void GdtfDmxSubChannelSet::SetPhysicalFrom(double from)
-{
-	fPhysicalFrom = from;
-}
-
-void GdtfDmxSubChannelSet::SetPhysicalTo(double to)
-{
-	fPhysicalTo = to;
-}
-
-void GdtfDmxSubChannelSet::SetSubPhysicalUnit(GdtfSubPhysicalUnitPtr subPhysicalUnit)
-{
-	fSubPhysicalUnit = subPhysicalUnit;
-}
-
-void GdtfDmxSubChannelSet::SetDMXProfile(GdtfDMXProfilePtr dmxProfile)
-{
-	fDMXProfile = dmxProfile;
-}
-
-void GdtfDmxSubChannelSet::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnPrintToFile(pNode);
-
-	// ------------------------------------------------------------------------------------
-	// Print node attributes
-								pNode->SetNodeAttributeValue(XML_GDTF_DMXSubChannelSetName,				fUniqueName);
-								pNode->SetNodeAttributeValue(XML_GDTF_DMXSubChannelSetPhysicalFrom,		GdtfConverter::ConvertDouble(fPhysicalFrom));
-								pNode->SetNodeAttributeValue(XML_GDTF_DMXSubChannelSetPhysicalTo,		GdtfConverter::ConvertDouble(fPhysicalTo));
-	if(fSubPhysicalUnit) 	{	pNode->SetNodeAttributeValue(XML_GDTF_DMXSubChannelSetSubPhysicalUnit, 	fSubPhysicalUnit->GetNodeReference()); }
-	if(fDMXProfile) 		{	pNode->SetNodeAttributeValue(XML_GDTF_DMXSubChannelSetDMXProfile,		fDMXProfile->GetNodeReference()); }
-
-}
-
-void GdtfDmxSubChannelSet::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnReadFromNode(pNode);
-	
-	// ------------------------------------------------------------------------------------
-	// Read node attributes
-							pNode->GetNodeAttributeValue(XML_GDTF_DMXSubChannelSetName,				fUniqueName);	
-	TXString physicalFrom; 	pNode->GetNodeAttributeValue(XML_GDTF_DMXSubChannelSetPhysicalFrom,		physicalFrom); 	GdtfConverter::ConvertDouble(physicalFrom, pNode, fPhysicalFrom);
-	TXString physicalTo;   	pNode->GetNodeAttributeValue(XML_GDTF_DMXSubChannelSetPhysicalTo,		physicalTo); 	GdtfConverter::ConvertDouble(physicalTo, pNode, fPhysicalTo);
-							pNode->GetNodeAttributeValue(XML_GDTF_DMXSubChannelSetSubPhysicalUnit,	fUnresolvedSubPhysicalUnitRef);	
-							pNode->GetNodeAttributeValue(XML_GDTF_DMXSubChannelSetDMXProfile,		fUnresolvedDMXProfileRef);	
-}
-
-void GdtfDmxSubChannelSet::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	optional.push_back(XML_GDTF_DMXSubChannelSetName);
-	optional.push_back(XML_GDTF_DMXSubChannelSetPhysicalFrom);
-	optional.push_back(XML_GDTF_DMXSubChannelSetPhysicalTo);
-	optional.push_back(XML_GDTF_DMXSubChannelSetDMXProfile);
-	needed.push_back(XML_GDTF_DMXSubChannelSetSubPhysicalUnit);
-	
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfDmxSubChannelSet::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfDmxSubChannelSet;
-}
-
-TXString GdtfDmxSubChannelSet::GetNodeName()
-{
-	return XML_GDTF_DMXSubChannelSetNodeName;
-}
-
-const TXString& GdtfDmxSubChannelSet::GetName() const
-{
-	return fUniqueName;
-}
-
-double GdtfDmxSubChannelSet::GetPhysicalFrom() const
-{
-	return fPhysicalFrom;
-}
-
-double GdtfDmxSubChannelSet::GetPhysicalTo() const
-{
-	return fPhysicalTo;
-}
-
-GdtfSubPhysicalUnitPtr GdtfDmxSubChannelSet::GetSubPhysicalUnit() const
-{
-	return fSubPhysicalUnit;
-}
-
-GdtfDMXProfilePtr GdtfDmxSubChannelSet::GetDMXProfile() const
-{
-	return fDMXProfile;
-}
-
-const TXString& GdtfDmxSubChannelSet::GetUnresolvedSubPhysicalUnitRef() const
-{
-	return fUnresolvedSubPhysicalUnitRef;
-}
-
-const TXString& GdtfDmxSubChannelSet::GetUnresolvedDMXProfileRef() const
-{
-	return fUnresolvedDMXProfileRef;
-}
-
-//------------------------------------------------------------------------------------
-// GdtfDmxRelation
-GdtfDmxRelation::GdtfDmxRelation()
-{
-	fMasterDmxChannel		= nullptr;
-	fSlaveChannelFunction	= nullptr;
-	fRelationType			= EGdtfDmxRelationType::eGdtfDmxRelationType_Override;
-
-}
-
-GdtfDmxRelation::GdtfDmxRelation(GdtfDmxChannelPtr master, GdtfDmxChannelFunctionPtr slave, const TXString& name)
-{
-	fUniqueName				= name;
-	fMasterDmxChannel		= master;
-	fSlaveChannelFunction	= slave;
-	fRelationType			= EGdtfDmxRelationType::eGdtfDmxRelationType_Override;
-}
-
-GdtfDmxRelation::~GdtfDmxRelation()
-{
-}
-
-void GdtfDmxRelation::SetName(const TXString& name)
-{
-	fUniqueName = name;
-}
-
-void GdtfDmxRelation::SetRelationType(EGdtfDmxRelationType type)
-{
-	fRelationType = type;
-}
-
-void GdtfDmxRelation::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnPrintToFile(pNode);
-	
-	// ------------------------------------------------------------------------------------
-	// Print node attributes
-	pNode->SetNodeAttributeValue(XML_GDTF_DMXRelationName,				fUniqueName);
-	if (fMasterDmxChannel) 		{ pNode->SetNodeAttributeValue(XML_GDTF_DMXRelationMaster,			fMasterDmxChannel->GetNodeReference());}
-	if (fSlaveChannelFunction)  { pNode->SetNodeAttributeValue(XML_GDTF_DMXRelationSlave,			fSlaveChannelFunction->GetNodeReference());}
-	pNode->SetNodeAttributeValue(XML_GDTF_DMXRelationType,		GdtfConverter::ConvertRelationEnum(fRelationType));
-
-
-}
-
-void GdtfDmxRelation::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnReadFromNode(pNode);	
-	
-	// ------------------------------------------------------------------------------------
-	// Print node attributes
-	pNode->GetNodeAttributeValue(XML_GDTF_DMXRelationName,	 fUniqueName);
-	pNode->GetNodeAttributeValue(XML_GDTF_DMXRelationMaster, fUnresolvedMasterRef);
-	pNode->GetNodeAttributeValue(XML_GDTF_DMXRelationSlave,	 fUnresolvedSlaveRef);
-    TXString type;		pNode->GetNodeAttributeValue(XML_GDTF_DMXRelationType,		type);		GdtfConverter::ConvertRelationEnum(type, pNode,	fRelationType); 
-}
-
-void GdtfDmxRelation::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_DMXRelationName);
-	needed.push_back(XML_GDTF_DMXRelationMaster);
-	needed.push_back(XML_GDTF_DMXRelationSlave);
-	needed.push_back(XML_GDTF_DMXRelationType);
-	
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfDmxRelation::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfDmxRelation;
-}
-
-TXString GdtfDmxRelation::GetNodeName()
-{
-	return XML_GDTF_DMXRelationNodeName;
-}
-
-const TXString& GdtfDmxRelation::GetName() const
-{
-	return fUniqueName;
-}
-
-GdtfDmxChannelPtr GdtfDmxRelation::GetMasterChannel() const
-{
-	return fMasterDmxChannel;
-}
-
-void GdtfDmxRelation::SetMasterChannel(GdtfDmxChannelPtr newMaster)
-{
-	fMasterDmxChannel = newMaster;
-}
-
-GdtfDmxChannelFunctionPtr GdtfDmxRelation::GetSlaveChannel() const
-{
-	return fSlaveChannelFunction;
-}
-
-void GdtfDmxRelation::SetSlaveChannel(GdtfDmxChannelFunctionPtr newSlave)
-{
-	fSlaveChannelFunction = newSlave;
-}
-
-const TXString& GdtfDmxRelation::GetUnresolvedMasterRef() const
-{
-	return fUnresolvedMasterRef;
-}
-
-const TXString& GdtfDmxRelation::GetUnresolvedSlaveRef() const
-{
-	return fUnresolvedSlaveRef;
-}
-
-EGdtfDmxRelationType GdtfDmxRelation::GetRelationType() const
-{
-	return fRelationType;
-}
-
-//------------------------------------------------------------------------------------
-// GdtfRevision
-GdtfRevision::GdtfRevision()
-{
-    fText 			= "";
-	fUserId 		= 0;
-	fDateS.fYear	= 0;
-	fDateS.fMonth	= 0;
-	fDateS.fDay		= 0;
-	fDateS.fHour	= 0;
-	fDateS.fMinute	= 0;
-	fDateS.fSecond	= 0;
-	fModifiedBy 	= "";
-    
-}
-
-GdtfRevision::~GdtfRevision()
-{
-}
-
-void GdtfRevision::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnPrintToFile(pNode);
-	
-	
-	// ------------------------------------------------------------------------------------
-	// Print node attributes
-	pNode->SetNodeAttributeValue(XML_GDTF_RevisionText,			fText);
-	pNode->SetNodeAttributeValue(XML_GDTF_RevisionDate,			SceneData::GdtfConverter::ConvertDate(fDateS));
-	pNode->SetNodeAttributeValue(XML_GDTF_RevisionUserId,		SceneData::GdtfConverter::ConvertInteger(fUserId));
-	pNode->SetNodeAttributeValue(XML_GDTF_RevisionModifiedBy,	fModifiedBy);
-	
-}
-
-void GdtfRevision::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnReadFromNode(pNode);
-	
-	
-	// ------------------------------------------------------------------------------------
-	// Print node attributes
-						pNode->GetNodeAttributeValue(XML_GDTF_RevisionText,			fText);
-	TXString date;		pNode->GetNodeAttributeValue(XML_GDTF_RevisionDate, 		date);		GdtfConverter::ConvertDate(date, pNode, fDateS);
-	TXString userid;	pNode->GetNodeAttributeValue(XML_GDTF_RevisionUserId, 		userid);	GdtfConverter::ConvertInteger(userid, pNode, fUserId);
-						pNode->GetNodeAttributeValue(XML_GDTF_RevisionModifiedBy,	fModifiedBy);
-
-}
-
-void GdtfRevision::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_RevisionDate);
-	optional.push_back(XML_GDTF_RevisionText);
-	optional.push_back(XML_GDTF_RevisionUserId);
-	optional.push_back(XML_GDTF_RevisionModifiedBy);
-
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfRevision::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfRevision;
-}
-
-TXString GdtfRevision::GetNodeName()
-{
-	return XML_GDTF_RevisionNodeName;
-}
-
-void GdtfRevision::SetText(const TXString& text)
-{
-	fText = text;
-}
-
-void GdtfRevision::SetDate(const STime& date)
-{
-	fDateS.fYear	= date.fYear;
-	fDateS.fMonth	= date.fMonth;
-	fDateS.fDay		= date.fDay;
-	fDateS.fHour	= date.fHour;
-	fDateS.fMinute	= date.fMinute;
-	fDateS.fSecond	= date.fSecond;
-}
-
-void GdtfRevision::SetUserId(size_t value) 
-{
-	fUserId = value;
-}
-
-void GdtfRevision::SetModifiedBy(const TXString& modifiedBy)
-{
-	fModifiedBy = modifiedBy;
-}
-
-const TXString& GdtfRevision::GetText() const
-{
-	return fText;
-}
-
-const STime& GdtfRevision::GetDate() const
-{
-	return fDateS;
-}
-
-size_t GdtfRevision::GetUserId() const
-{
-	return fUserId;
-}
-
-const TXString& GdtfRevision::GetModifiedBy() const
-{
-	return fModifiedBy;
-}
-
-
-
-//------------------------------------------------------------------------------------
-// GdtfPhysicalEmitter
-GdtfPhysicalEmitter::GdtfPhysicalEmitter()
-{
-	fColor		= CRGBColor(255, 255, 255);
-    fDominantWaveLength = 0;
-    fDiodePart = "";
-}
-
-GdtfPhysicalEmitter::GdtfPhysicalEmitter(const TXString& name, CCieColor color)
-{
-	fColor		= color;
-	fName		= name;
-    fDominantWaveLength = 0;
-    fDiodePart = "";
-}
-
-GdtfPhysicalEmitter::~GdtfPhysicalEmitter()
-{
-	for (GdtfMeasurementPtr ptr : fMeasurements) { delete ptr; }
-}
-
-void GdtfPhysicalEmitter::SetName(const TXString &name)
-{
-	fName = name;
-}
-
-void GdtfPhysicalEmitter::SetColor(CCieColor color)
-{
-	fColor = color;
-}
-
-void SceneData::GdtfPhysicalEmitter::SetDiodePart(const TXString& val)
-{
-    fDiodePart = val;
-}
-
-void SceneData::GdtfPhysicalEmitter::SetDominantWaveLength(double val)
-{
-    fDominantWaveLength = val;
-}
-
-GdtfMeasurement* GdtfPhysicalEmitter::AddMeasurement()
-{
-	GdtfMeasurement* mes = new GdtfMeasurement(false);
-	fMeasurements.push_back(mes);
-	return mes;
-}
-
-void GdtfPhysicalEmitter::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnPrintToFile(pNode);
-	
-	// ------------------------------------------------------------------------------------
-	// Print node attributes
-	pNode->SetNodeAttributeValue(XML_GDTF_EmitterName,				 fName);
-	pNode->SetNodeAttributeValue(XML_GDTF_EmitterColor,				 GdtfConverter::ConvertColor(fColor) );
-    pNode->SetNodeAttributeValue(XML_GDTF_EmitterDominantWaveLength, GdtfConverter::ConvertDouble(fDominantWaveLength) );
-    pNode->SetNodeAttributeValue(XML_GDTF_EmitterDiodePart,          fDiodePart );
-	//------------------------------------------------------------------------------------
-	// Write Measurement
-	for (GdtfMeasurement* mes: fMeasurements)
-	{
-		mes->WriteToNode(pNode);
-	}
-}
-
-void GdtfPhysicalEmitter::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnReadFromNode(pNode);
-	
-	// ------------------------------------------------------------------------------------
-	// Print node attributes
-	pNode->GetNodeAttributeValue(XML_GDTF_EmitterName,				fName);
-	
-    TXString color;		   pNode->GetNodeAttributeValue(XML_GDTF_EmitterColor,	color);		
-    GdtfConverter::ConvertColor(color, pNode, fColor);
-
-    TXString waveLenStr;   pNode->GetNodeAttributeValue(XML_GDTF_EmitterDominantWaveLength,	waveLenStr);		
-    GdtfConverter::ConvertDouble(waveLenStr, pNode, fDominantWaveLength);
-
-    pNode->GetNodeAttributeValue(XML_GDTF_EmitterDiodePart, fDiodePart);
-	
-	// ------------------------------------------------------------------------------------
-	// Read Measurements
-	GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_MeasurementNodeName, [this] (IXMLFileNodePtr objNode) -> void
-								 {
-									 if ( CheckAbort() ) return;
-
-									 // Create the object
-									 GdtfMeasurementPtr mes = new GdtfMeasurement(false);
-									 
-									 // Read from node
-									 mes->ReadFromNode(objNode);
-									 
-									 // Add to list
-									 fMeasurements.push_back(mes);
-
-									 return;
-								 });
-}
-
-void GdtfPhysicalEmitter::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_EmitterName);
-	needed.push_back(XML_GDTF_EmitterColor);
-	    
-		
-	optional.push_back(XML_GDTF_EmitterDominantWaveLength);
-    optional.push_back(XML_GDTF_EmitterDiodePart);
-
-	
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfPhysicalEmitter::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfPhysicalEmitter;
-}
-
-TXString GdtfPhysicalEmitter::GetNodeName()
-{
-	return XML_GDTF_EmitterNodeName;
-}
-
-const TXString& GdtfPhysicalEmitter::GetName() const
-{
-	return fName;
-}
-
-CCieColor GdtfPhysicalEmitter::GetColor() const
-{
-	return fColor;
-}
-
-const TGdtfMeasurementArray GdtfPhysicalEmitter::GetMeasurements()
-{
-	return fMeasurements;
-}
-
-TXString GdtfPhysicalEmitter::GetNodeReference()
-{
-	return GetName();
-}
-
-const TXString& SceneData::GdtfPhysicalEmitter::GetDiodePart()
-{
-    return fDiodePart;
-}
-
-double SceneData::GdtfPhysicalEmitter::GetDominantWaveLength()
-{
-    return fDominantWaveLength;
-}
-
-//------------------------------------------------------------------------------------
-// Macro
-GdtfUserPreset::GdtfUserPreset()
-{
-}
-
-GdtfUserPreset::~GdtfUserPreset()
-{
-}
-
-void GdtfUserPreset::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnPrintToFile(pNode);
-}
-
-void GdtfUserPreset::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnReadFromNode(pNode);
-}
-
-EGdtfObjectType GdtfUserPreset::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfUserPreset;
-}
-
-TXString GdtfUserPreset::GetNodeName()
-{
-	return XML_GDTF_UserPresetNodeName;
-}
-
-//------------------------------------------------------------------------------------
-// Macro
-GdtfMacro::GdtfMacro()
-{
-	fChannelFunction = nullptr;
-	fMacroDMX = nullptr;
-	fMacroVisual = nullptr;
-}
-
-GdtfMacro::GdtfMacro(const TXString& name)
-{
-    fName = name;
-	fChannelFunction = nullptr;
-    fMacroDMX = nullptr;
-    fMacroVisual = nullptr;
-}
-
-GdtfMacro::~GdtfMacro()
-{    
-    if (fMacroDMX)    { delete fMacroDMX; }
-    if (fMacroVisual) { delete fMacroVisual; }    
-}
-
-void GdtfMacro::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-    //------------------------------------------------------------------------------------
-    // Call the parent
-    GdtfObject::OnPrintToFile(pNode);
-    
-	// ------------------------------------------------------------------------------------
-	// Print node attributes
-	pNode->SetNodeAttributeValue(XML_GDTF_MacroName, fName);
-
-	if(fChannelFunction) { pNode->SetNodeAttributeValue(XML_GDTF_MacroChannelFunction, fChannelFunction->GetNodeReference()); }
-
-	//------------------------------------------------------------------------------------
-    // Print the children
-    if (fMacroDMX != nullptr) 
-    {
-        fMacroDMX->WriteToNode(pNode);
-    }    
-    if (fMacroVisual != nullptr)
-    {
-        fMacroVisual->WriteToNode(pNode);
-    }
-}
-
-void GdtfMacro::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnReadFromNode(pNode);
-    //------------------------------------------------------------------------------------
-    // Get the attributes	
-    pNode->GetNodeAttributeValue(XML_GDTF_MacroName, fName);
-    pNode->GetNodeAttributeValue(XML_GDTF_MacroChannelFunction, fUnresolvedChannelFunction);
-
-    //------------------------------------------------------------------------------------
-    // Read the children
-	IXMLFileNodePtr macroDmxNode;
-    if(VCOM_SUCCEEDED(pNode->GetChildNode(XML_GDTF_MacroDMX, &macroDmxNode)))
-	{
-		if (fMacroDMX) { delete fMacroDMX; }
-		this->fMacroDMX = new GdtfMacroDMX();
-		this->fMacroDMX->ReadFromNode(macroDmxNode);
-	}
-	
-	IXMLFileNodePtr macroVisualNode;
-    if(VCOM_SUCCEEDED(pNode->GetChildNode(XML_GDTF_MacroVisual, &macroVisualNode)))
-	{
-		if (fMacroVisual) { delete fMacroVisual; }
-		this->fMacroVisual = new GdtfMacroVisual();
-		this->fMacroVisual->ReadFromNode(macroVisualNode);
-	}
-}
-
-void GdtfMacro::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_MacroName);
-	optional.push_back(XML_GDTF_MacroChannelFunction);
-	
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-const TXString & SceneData::GdtfMacro::GetName() const
-{
-    return fName;
-}
-
-GdtfMacroDMX* SceneData::GdtfMacro::GetMacroDMX() const
-{
-    return fMacroDMX;
-}
-
-GdtfDmxChannelFunction* SceneData::GdtfMacro::GetChannelFunction() const
-{
-    return fChannelFunction;
-}
-
-const TXString & SceneData::GdtfMacro::GetUnresolvedChannelFunction() const
-{
-    return fUnresolvedChannelFunction;
-}
-
-GdtfMacroVisual* SceneData::GdtfMacro::GetMacroVisual() const
-{
-    return fMacroVisual;
-}
-
-void SceneData::GdtfMacro::SetName(const TXString & name)
-{
-    fName = name;
-}
-
-void SceneData::GdtfMacro::SetChannelFunction(GdtfDmxChannelFunction* channelFunction)
-{
-    fChannelFunction = channelFunction;
-}
-
-void SceneData::GdtfMacro::SetMacroDMX(GdtfMacroDMX* val)
-{
-	if(fMacroDMX) {delete fMacroDMX; }
-    fMacroDMX = val;
-}
-
-void SceneData::GdtfMacro::SetMacroVisual(GdtfMacroVisual* val)
-{
-	if(fMacroVisual) {delete fMacroVisual; }
-    fMacroVisual = val;
-}
-
-EGdtfObjectType GdtfMacro::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfMacro;
-}
-
-TXString GdtfMacro::GetNodeName()
-{
-	return XML_GDTF_MacroNodeName;
-}
-
-//------------------------------------------------------------------------------------
-// GdtfMeasurementPoint
-GdtfMeasurementPoint::GdtfMeasurementPoint()
-{
-	fWaveLength		= 0;
-	fEngergy		= 0;
-}
-
-GdtfMeasurementPoint::~GdtfMeasurementPoint()
-{
-}
-
-void GdtfMeasurementPoint::SetWavelength(double wavelength)
-{
-	fWaveLength = wavelength;
-}
-
-void GdtfMeasurementPoint::SetEnergy(double energy)
-{
-	fEngergy = energy;
-}
-
-void GdtfMeasurementPoint::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnPrintToFile(pNode);
-	
-	// ------------------------------------------------------------------------------------
-	// Print node attributes
-	pNode->SetNodeAttributeValue(XML_GDTF_MeasurementWaveLegth,	GdtfConverter::ConvertDouble(fWaveLength));
-	pNode->SetNodeAttributeValue(XML_GDTF_MeasurementEnergy,	GdtfConverter::ConvertDouble(fEngergy));
-}
-
-void GdtfMeasurementPoint::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnReadFromNode(pNode);
-	
-	// ------------------------------------------------------------------------------------
-	// Print node attributes
-	TXString waveLength;	pNode->GetNodeAttributeValue(XML_GDTF_MeasurementWaveLegth,	waveLength);	GdtfConverter::ConvertDouble(waveLength, pNode, fWaveLength);
-	TXString energy;		pNode->GetNodeAttributeValue(XML_GDTF_MeasurementEnergy,	energy);		GdtfConverter::ConvertDouble(energy, pNode, fEngergy);
-}
-
-void GdtfMeasurementPoint::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_MeasurementWaveLegth);
-	needed.push_back(XML_GDTF_MeasurementEnergy);
-
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfMeasurementPoint::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfMeasurementPoint;
-}
-
-TXString GdtfMeasurementPoint::GetNodeName()
-{
-	return XML_GDTF_MeasurementPointNode;
-}
-
-double GdtfMeasurementPoint::GetWavelength()
-{
-	return fWaveLength;
-}
-
-double GdtfMeasurementPoint::GetEnergy()
-{
-	return fEngergy;
-}
-
-//------------------------------------------------------------------------------------
-// GdtfFixture
-TGdtfParsingErrorArray* GdtfFixture::__ERROR_CONTAINER_POINTER = nullptr;
-
-void GdtfFixture::ImportFromFile(IFileIdentifierPtr inZipFile, const TXString& folder)
-{
-	PrepareWorkingFolder(folder);
-	
-	IZIPFilePtr zipfile ( IID_ZIPFile );
-	zipfile->OpenRead(inZipFile);
-
-	ImportFromZip(zipfile);
-}
-
-void GdtfFixture::ImportFromBuffer(const char*buffer, size_t length, const TXString& folder)
-{
-	PrepareWorkingFolder(folder);
-	
-	IZIPFilePtr zipfile ( IID_ZIPFile );
-	zipfile->OpenRead(buffer, length);
-
-	ImportFromZip(zipfile);
-}
-
-void GdtfFixture::PrepareWorkingFolder(TXString folderName)
-{
-	//-------------------------------------------------------------------------------------------------
-	// Working Directory
-	if(folderName.IsEmpty()){ folderName = "GdtfGroup"; }
-
-	fWorkingFolder = (IID_FolderIdentifier);
-
-	IFolderIdentifierPtr folder ( IID_FolderIdentifier );
-	folder->Set( EFolderSpecifier::kSpotlightFolder, true, "GDTFs" );
-	folder->CreateOnDisk();
-
-	fWorkingFolder->Set(folder, folderName );
-
-	
-	//---------------------------------------------------------------------------------------------
-	// Always start with a empty folder
-	bool exists = false;
-	fWorkingFolder->ExistsOnDisk(exists);
-	if (exists) { fWorkingFolder->DeleteOnDisk(); }
-	
-	// Create new Folder
-	fWorkingFolder->CreateOnDisk();
-	
-	//---------------------------------------------------------------------------------------------
-	// check if this was good
-	fWorkingFolder->ExistsOnDisk(exists);
-	ASSERTN(kEveryone, exists == true);
-}
-
-bool GdtfFixture::ImportFromZip(IZIPFilePtr& zipfile)
-{
-	ASSERTN(kEveryone, __ERROR_CONTAINER_POINTER == nullptr);
-	__ERROR_CONTAINER_POINTER = & this->fErrorContainer; 
-
-	ISceneDataZipBuffer xmlFileBuffer;
-		
-	//-------------------------------------------------------------------------------------------------
-	// Decompress the files
-	std::string fileName				= "";
-	std::string inPath					= "";
-	while (VCOM_SUCCEEDED( zipfile->GetNextFile(inPath, fileName)))
-	{
-		// This is the current file that we are reading
-		ISceneDataZipBuffer buffer;
-		if(VCOM_SUCCEEDED(zipfile->GetFile(fileName, &buffer)))
-		{
-			if (fileName == "description.xml")
-			{
-				// Read the data
-				size_t	size = 0;							buffer.GetDataSize(size);
-				void*	data = malloc(size * sizeof(char));	buffer.CopyDataInto(data, size);
-				
-				// Set the buffer object
-				xmlFileBuffer.SetData(data, size);
-				
-				// House keeping
-				std::free(data);
-			}
-			else if (SystemUtil::IsPathInsideOfFolder(fileName))
-			{
-				//-----------------------------------------------------------------------------
-				// Prepare pointer to the new files            
-				
-				// Separate filename und folder
-				TXString fileNameWithoutFolder = TXString(fileName).Replace("/", TXString(kSeperator) );	
-	#ifndef _WINDOWS
-				fileNameWithoutFolder          = TXString(fileName).Replace("\\", TXString(kSeperator) ); // It seems some zips come also with this.
-	#endif
-				TXString subFolder 			   = SystemUtil::ExtractFolderFromPath(fileNameWithoutFolder);        
-				
-				// flatten the folder structure
-				subFolder = subFolder.Replace(TXString(kSeperator), "");
-				subFolder = TXString(kSeperator) + subFolder;
-
-				// write the data into the filebuffer map.
-				size_t	size = 0;							buffer.GetDataSize(size);
-				void*	data = malloc(size * sizeof(char));	buffer.CopyDataInto(data, size); //data is deleted in the GdtfFixture destructor.
-				std::pair<char*, size_t> bufferPair = std::make_pair((char*)data, size);
-				std::string bufferName = fileName; // files in different folders may have the same name
-				std::replace(bufferName.begin(), bufferName.end(), '\\', '/');
-				std::free(fFileBuffers[bufferName].first);
-				fFileBuffers[bufferName] = bufferPair;
-
-				//-----------------------------------------------------------------------------
-				IFolderIdentifierPtr targetFolder (IID_FolderIdentifier);
-				targetFolder->Set(fWorkingFolder, subFolder);
-				
-				bool exists = false;
-				targetFolder->ExistsOnDisk(exists);
-				if( ! exists )	{ targetFolder->CreateOnDisk(); }
-				
-				
-				IFileIdentifierPtr file (IID_FileIdentifier);
-				file->Set(targetFolder, fileNameWithoutFolder);
-				
-				// dump buffer into file
-				buffer.WriteToFile(file);
-				
-				// Add it into the file list
-				fLocalFiles.push_back(file);
-
-				TXString fullPathRessource;
-				file->GetFileFullPath(fullPathRessource);
-				fLocalFilesFullPath.push_back(fullPathRessource);
-
-
-			}
-		}
-		
-		inPath = fileName;
-	}
-	
-	zipfile->Close();
-	
-	//-------------------------------------------------------------------------------------------------
-	// Decompress the files
-	fReaded = xmlFileBuffer.IsSet();
-	if ( ! fReaded)
-	{
-		GdtfParsingError error (GdtfDefines::EGdtfParsingError::eFixtureNoGdtfFileInXmlBuffer);
-		SceneData::GdtfFixture::AddError(error);
-		fReaded = false;
-	}
-	else
-	{
-		IXMLFilePtr xmlFile (IID_XMLFile);
-
-		size_t	size = 0;								xmlFileBuffer.GetDataSize(size);
-		void*	data = malloc(size * sizeof(char));		xmlFileBuffer.CopyDataInto(data, size);
-		
-		// Set the data
-		IXMLFileIOBufferImpl xmlBuffer;
-		xmlBuffer.SetData(data, size);
-		
-		// Housekeeping
-		std::free(data);
-		
-		if (VCOM_SUCCEEDED(xmlFile->ReadBuffer( &xmlBuffer, EXMLEncoding::eXMLEncoding_UTF8)))
-		{
-			IXMLFileNodePtr rootNode;
-			if (VCOM_SUCCEEDED(xmlFile->GetRootNode( & rootNode)))
-			{
-				TXString version;
-				rootNode->GetNodeAttributeValue( XML_GDTF_ROOTNODEATTRVERSION, version );
-				
-				int majorVersion = 0;
-				int minorVersion = 0;
-				size_t dotPos = version.Find(".");
-				if (dotPos != std::string::npos) {
-					TXString majorStr = version.Mid(0, dotPos);
-					TXString minorStr = version.Mid(dotPos + 1);
-					try {
-						majorVersion = std::stoi(majorStr.GetStdWString());
-						minorVersion = std::stoi(minorStr.GetStdWString());
-					} catch (...) {
-						majorVersion = 0;
-						minorVersion = 0;
-					}
-				}
-
-				this->SetMajorVersion( majorVersion );
-				this->SetMinorVersion( minorVersion );
-
-				IXMLFileNodePtr fixtureNode;
-				if (VCOM_SUCCEEDED(rootNode->GetChildNode(XML_GDTF_FixtureNodeName, &fixtureNode)))
-				{
-					//---------------------------------------------------------------------------------------------
-					// Read Stuff
-					this->GetFileNodesCount( fixtureNode );
-					this->ReadFromNode(fixtureNode);
-					this->ResolveAllReferences();		
-				}
-			}
-		}
-	}
-
-	__ERROR_CONTAINER_POINTER = nullptr;
-
-	return true;
-}
-
-void GdtfFixture::GetFileNodesCount(const IXMLFileNodePtr& rootNode)
-{
-	IXMLFileNodePtr node;
-	rootNode->GetFirstChildNode( &node );
-
-	while ( node != nullptr )
-	{
-		fTotalNodesCount++;
-		if ( VCOM_FAILED(( node->GetNextSiblingNode( &node ))))
-		{
-			node = nullptr;
-		}
-	}
-
-	fTotalNodesCount--;
-}
-
-/*static*/ void	GdtfFixture::AddError(const GdtfParsingError& error)
-{
-	
-	if(__ERROR_CONTAINER_POINTER)
-	{
-		__ERROR_CONTAINER_POINTER->push_back(error);
-	}
-}
-
-TGdtfParsingErrorArray& GdtfFixture::GetParsingErrorArray()
-{
-	return fErrorContainer;
-}
-
-void GdtfFixture::AutoGenerateNames(GdtfDmxModePtr dmxMode)
-{
-		for (GdtfDmxChannelPtr dmxChannel : dmxMode->GetChannelArray())
-		{
-			if ( CheckAbort() ) return;
-			//------------------------------------------------------------------------------------------------
-			//  Create Names for DMX Channel
-			ASSERTN(kEveryone, dmxChannel->GetGeomRef() != nullptr);
-			if (dmxChannel->GetGeomRef() == nullptr){ /* Error comes later*/ continue; }
-			
-			GdtfAttributePtr 	firstAttr = nullptr;
-			
-			for (GdtfDmxLogicalChannelPtr logicalChannel : dmxChannel->GetLogicalChannelArray())
-			{
-				if(CheckAbort()) { return; }
-				//------------------------------------------------------------------------------------------------
-				//  Create Names for Logical Channels
-				if ( logicalChannel->GetAttribute() != nullptr )
-				{
-					logicalChannel->SetName(logicalChannel->GetAttribute()->GetName());
-				}
-				else
-				{
-					IXMLFileNodePtr node;
-					logicalChannel->GetNode(node);
-					GdtfParsingError error (GdtfDefines::EGdtfParsingError::eFixtureLogicalChannelMissingAttribute, node);
-					SceneData::GdtfFixture::AddError(error);
-					ASSERTN(kEveryone, logicalChannel->GetAttribute() != nullptr);
-					continue;
-				}
-				
-				// Set first Attribute
-				if (firstAttr == nullptr) { firstAttr = logicalChannel->GetAttribute(); }
-				
-				//------------------------------------------------------------------------------------------------
-				//  Create Names for Channel Functions
-				Sint64 channelFunctionNumber = 1;
-				for (GdtfDmxChannelFunctionPtr function : logicalChannel->GetDmxChannelFunctions())
-				{
-					if(CheckAbort()) { return; }
-					//
-					if (function->GetName().IsEmpty())
-					{
-						ASSERTN(kEveryone, function->GetAttribute() != nullptr);
-						if (function->GetAttribute() == nullptr)
-						{
-							IXMLFileNodePtr node;
-							function->GetNode(node);
-							GdtfParsingError error (GdtfDefines::EGdtfParsingError::eFixtureChannelFunctionMissingAttribute, node);
-							SceneData::GdtfFixture::AddError(error);
-							continue;
-						}
-						TXString functionName; 
-						functionName += function->GetAttribute()->GetName();
-						functionName += " ";
-						functionName += TXString().itoa(channelFunctionNumber);
-						
-						function->SetName(functionName);
-					}
-					
-					channelFunctionNumber++;
-				}
-			}
-			
-			//------------------------------------------------------------------------------------------------
-			//  Set the DMX Name
-			ASSERTN(kEveryone, firstAttr != nullptr);
-			ASSERTN(kEveryone, dmxChannel->GetGeomRef() != nullptr);
-			if(firstAttr) { dmxChannel->SetName(dmxChannel->GetGeomRef()->GetName() + "_" + firstAttr->GetName()); }
-			
-		}
-}
-
-GdtfAttributePtr GdtfFixture::getAttributeByRef(const TXString& ref)
-{	
-	if(ref == XML_GDTF_AttributeNoFeature_nullptr)							   
-	{
-		if(fNoFeature == nullptr)
-		{
-			CreateNoFeatureAttribute();
-		} 
-		return fNoFeature; 
-	}
-
-	if (fUseIndexes)
-	{
-		auto it = fAttributeIndex.find(ref);
-		if (it != fAttributeIndex.end()) { return it->second; }
-	}
-	else
-	{
-		for (GdtfAttributePtr attr : fAttributes)
-		{
-			if (attr->GetNodeReference() == ref) { return attr; }
-		}
-	}
-
-	if(ref.IsEmpty())
-	{
-		if(fNoFeature == nullptr)
-		{
-			CreateNoFeatureAttribute();
-		} 
-		return fNoFeature; 
-	}
-
-	// When this line is reached nothing was found.
-	DSTOP ((kEveryone, "Failed to resolve GdtfAttributePtr."));
-	return nullptr;
-}
-
-void GdtfFixture::CreateNoFeatureAttribute()
-{
-	//------------------------------------------------------------
-	// Create Attribute
-	ASSERTN(kEveryone, fNoFeature == nullptr);
-	fNoFeature = new GdtfAttribute("NoFeature", "NoFeature");
-	fAttributes.push_back(fNoFeature);
-
-	//------------------------------------------------------------
-	// Create Feature Group
-	GdtfFeatureGroupPtr controlFeatureGroup = nullptr;
-	for (GdtfFeatureGroupPtr featGrp : fFeatureGroups)
-	{	
-		if(featGrp->GetName() == "Control")
-		{
-			controlFeatureGroup = featGrp;
-			break;
-		}
-	}
-
-	if(controlFeatureGroup == nullptr)
-	{
-		controlFeatureGroup = new GdtfFeatureGroup("Control", "Control");
-		fFeatureGroups.push_back(controlFeatureGroup);
-	}
-	ASSERTN(kEveryone, controlFeatureGroup != nullptr)
-
-	//------------------------------------------------------------
-	// Create Feature
-	GdtfFeaturePtr linkedFeature = nullptr;
-	for (GdtfFeaturePtr feature : controlFeatureGroup->GetFeatureArray())
-	{	
-		if(feature->GetName() == "Control")
-		{
-			linkedFeature = feature;
-			break;
-		}
-	}
-
-	if(linkedFeature == nullptr)
-	{
-		linkedFeature = controlFeatureGroup->AddFeature("Control");
-	}
-
-	fNoFeature->SetFeature(linkedFeature);
-
-}
-
-GdtfWheelPtr GdtfFixture::getWheelByRef(const TXString& ref)
-{
-	if (fUseIndexes)
-	{
-		auto it = fWheelIndex.find(ref);
-		if (it != fWheelIndex.end()) { return it->second; }
-	}
-	else
-	{
-		for (GdtfWheelPtr whl : fWheels)
-		{
-			if (whl->GetNodeReference() == ref) { return whl; }
-		}
-	}
-	
-	// When this line is reached nothing was found.
-	DSTOP ((kEveryone, "Failed to resolve GdtfWheelPtr."));
-	return nullptr;
-}
-
-GdtfPhysicalEmitterPtr GdtfFixture::getEmiterByRef(const TXString& ref)
-{
-	if (fUseIndexes)
-	{
-		auto it = fEmitterIndex.find(ref);
-		if (it != fEmitterIndex.end()) { return it->second; }
-	}
-	else
-	{
-		for (GdtfPhysicalEmitterPtr emt : fPhysicalDesciptions.GetPhysicalEmitterArray())
-		{
-			if (emt->GetNodeReference() == ref) { return emt; }
-		}
-	}
-
-	// When this line is reached nothing was found.
-	DSTOP ((kEveryone, "Failed to resolve GdtfPhysicalEmitterPtr."));
-	return nullptr;
-}
-
-GdtfFilterPtr GdtfFixture::getFilterByRef(const TXString& ref) 
-{
-	if (fUseIndexes)
-	{
-		auto it = fFilterIndex.find(ref);
-		if (it != fFilterIndex.end()) { return it->second; }
-	}
-	else
-	{
-		for (GdtfFilterPtr fltr : fPhysicalDesciptions.GetFilterArray())
-		{
-			if (fltr->GetNodeReference() == ref) { return fltr; }
-		}
-	}
-
-	// When this line is reached nothing was found.
-	DSTOP ((kEveryone, "Failed to resolve GdtfFilter."));
-	return nullptr;
-}
-
-GdtfConnectorPtr GdtfFixture::getConnectorByRef(const TXString& ref) 
-{
-	if (fUseIndexes)
-	{
-		auto it = fConnectorIndex.find(ref);
-		if (it != fConnectorIndex.end()) { return it->second; }
-	}
-	else
-	{
-		for (GdtfConnectorPtr connector : fPhysicalDesciptions.GetConnectorArray())
-		{
-			if (connector->GetNodeReference() == ref) { return connector; }
-		}
-	}
-
-	// When this line is reached nothing was found.
-	DSTOP ((kEveryone, "Failed to resolve GdtfConnectorPtr."));
-	return nullptr;
-}
-
-GdtfColorSpacePtr GdtfFixture::getColorSpaceByRef(const TXString& ref)
-{
-	if (fUseIndexes)
-	{
-		auto it = fColorSpaceIndex.find(ref);
-		if (it != fColorSpaceIndex.end()) { return it->second; }
-	}
-	else
-	{
-		for (GdtfColorSpacePtr colorSpace : fPhysicalDesciptions.GetAdditionalColorSpaceArray())
-		{
-			if (colorSpace->GetNodeReference() == ref) { return colorSpace; }
-		}
-	}
-
-	// If this line is reached, nothing was found.
-	DSTOP ((kEveryone, "Failed to resolve GdtfColorSpace."));
-	return nullptr;
-}
-
-GdtfGamutPtr GdtfFixture::getGamutByRef(const TXString& ref)
-{
-	if (fUseIndexes)
-	{
-		auto it = fGamutIndex.find(ref);
-		if (it != fGamutIndex.end()) { return it->second; }
-	}
-	else
-	{
-		for (GdtfGamutPtr gamut : fPhysicalDesciptions.GetGamutArray())
-		{
-			if (gamut->GetNodeReference() == ref) { return gamut; }
-		}
-	}
-
-	// If this line is reached, nothing was found.
-	DSTOP ((kEveryone, "Failed to resolve GdtfGamut."));
-	return nullptr;
-}
-
-GdtfDMXProfilePtr GdtfFixture::getDMXProfileByRef(const TXString& ref)
-{
-	if (fUseIndexes)
-	{
-		auto it = fDMXProfileIndex.find(ref);
-		if (it != fDMXProfileIndex.end()) { return it->second; }
-	}
-	else
-	{
-		for (GdtfDMXProfilePtr dmxProfile : fPhysicalDesciptions.GetDmxProfileArray())
-		{
-			if (dmxProfile->GetNodeReference() == ref) { return dmxProfile; }
-		}
-	}
-
-	// If this line is reached, nothing was found.
-	DSTOP ((kEveryone, "Failed to resolve GdtfDMXProfile."));
-	return nullptr;
-}
-
-GdtfSubPhysicalUnitPtr GdtfFixture::getSubPhysicalUnitByRef(const TXString& ref)
-{
-	if (fUseIndexes)
-	{
-		auto it = fSubPhysicalUnitIndex.find(ref);
-		if (it != fSubPhysicalUnitIndex.end()) { return it->second; }
-	}
-	else
-	{
-		for (GdtfAttributePtr attr : fAttributes)
-		{
-			for (GdtfSubPhysicalUnitPtr subPhysicalUnit : attr->GetSubPhysicalUnitArray())
-			{
-				if (subPhysicalUnit->GetNodeReference() == ref) { return subPhysicalUnit; }
-			}
-		}
-	}
-
-	// If this line is reached, nothing was found.
-	DSTOP ((kEveryone, "Failed to resolve GdtfSubPhysicalUnit."));
-	return nullptr;
-}
-
-GdtfDmxChannelFunctionPtr GdtfFixture::getDmxFunctionByRef(const TXString& ref, GdtfDmxModePtr mode)
-{
-	return mode->GetFunctionByIndex(ref);
-}
-
-GdtfDmxChannelPtr GdtfFixture::getDmxChannelByRef(const TXString& ref, GdtfDmxModePtr mode)
-{
-	return mode->GetChannelByIndex(ref);
-}
-
-void GdtfFixture::BuildLookupIndexes()
-{
-	// Eagerly detect the NoFeature attribute (needed regardless of indexing)
-	if (fNoFeature == nullptr)
-	{
-		for (GdtfAttributePtr attr : fAttributes)
-		{
-			if (attr->GetNodeReference() == XML_GDTF_AttributeNoFeature_nullptr)
-			{
-				fNoFeature = attr;
-				break;
-			}
-		}
-	}
-
-	// Count total elements to decide if indexing is worthwhile
-	size_t totalElements = fAttributes.size() + fWheels.size() + fModels.size()
-		+ fPhysicalDesciptions.GetPhysicalEmitterArray().size()
-		+ fPhysicalDesciptions.GetFilterArray().size()
-		+ fPhysicalDesciptions.GetConnectorArray().size()
-		+ fPhysicalDesciptions.GetAdditionalColorSpaceArray().size()
-		+ fPhysicalDesciptions.GetGamutArray().size()
-		+ fPhysicalDesciptions.GetDmxProfileArray().size()
-		+ fGeometries.size();
-
-	static constexpr size_t kIndexThreshold = 128;
-	if (totalElements < kIndexThreshold)
-	{
-		fUseIndexes = false;
-		return;
-	}
-	fUseIndexes = true;
-
-	// Attributes
-	fAttributeIndex.clear();
-	fAttributeIndex.reserve(fAttributes.size());
-	for (GdtfAttributePtr attr : fAttributes)
-	{
-		fAttributeIndex.emplace(attr->GetNodeReference(), attr);
-	}
-
-	// Wheels
-	fWheelIndex.clear();
-	fWheelIndex.reserve(fWheels.size());
-	for (GdtfWheelPtr whl : fWheels)
-	{
-		fWheelIndex.emplace(whl->GetNodeReference(), whl);
-	}
-
-	// Models
-	fModelIndex.clear();
-	fModelIndex.reserve(fModels.size());
-	for (GdtfModelPtr mdl : fModels)
-	{
-		fModelIndex.emplace(mdl->GetNodeReference(), mdl);
-	}
-
-	// Emitters
-	fEmitterIndex.clear();
-	for (GdtfPhysicalEmitterPtr emt : fPhysicalDesciptions.GetPhysicalEmitterArray())
-	{
-		fEmitterIndex.emplace(emt->GetNodeReference(), emt);
-	}
-
-	// Filters
-	fFilterIndex.clear();
-	for (GdtfFilterPtr fltr : fPhysicalDesciptions.GetFilterArray())
-	{
-		fFilterIndex.emplace(fltr->GetNodeReference(), fltr);
-	}
-
-	// Connectors
-	fConnectorIndex.clear();
-	for (GdtfConnectorPtr connector : fPhysicalDesciptions.GetConnectorArray())
-	{
-		fConnectorIndex.emplace(connector->GetNodeReference(), connector);
-	}
-
-	// Color Spaces
-	fColorSpaceIndex.clear();
-	for (GdtfColorSpacePtr cs : fPhysicalDesciptions.GetAdditionalColorSpaceArray())
-	{
-		fColorSpaceIndex.emplace(cs->GetNodeReference(), cs);
-	}
-
-	// Gamuts
-	fGamutIndex.clear();
-	for (GdtfGamutPtr gamut : fPhysicalDesciptions.GetGamutArray())
-	{
-		fGamutIndex.emplace(gamut->GetNodeReference(), gamut);
-	}
-
-	// DMX 
-	fDMXProfileIndex.clear();
-	for (GdtfDMXProfilePtr dp : fPhysicalDesciptions.GetDmxProfileArray())
-	{
-		fDMXProfileIndex.emplace(dp->GetNodeReference(), dp);
-	}
-
-	// Sub Physical Units (nested: attributes -> sub-units)
-	fSubPhysicalUnitIndex.clear();
-	for (GdtfAttributePtr attr : fAttributes)
-	{
-		for (GdtfSubPhysicalUnitPtr spu : attr->GetSubPhysicalUnitArray())
-		{
-			fSubPhysicalUnitIndex.emplace(spu->GetNodeReference(), spu);
-		}
-	}
-
-	// Geometry tree (flattened recursively)
-	fGeometryIndex.clear();
-	IndexGeometryTree(fGeometries);
-}
-
-void GdtfFixture::IndexGeometryTree(const TGdtfGeometryArray& geometries)
-{
-	for (GdtfGeometryPtr geom : geometries)
-	{
-		fGeometryIndex.emplace(geom->GetNodeReference(), geom);
-		IndexGeometryTree(geom->GetInternalGeometries());
-	}
-}
-
-void GdtfFixture::ResolveAllReferences()
-{
-	BuildLookupIndexes();
-	ResolveGeometryRefs();
-	ResolveDmxModeRefs();	
-	ResolveDMXModeMasters();
-    ResolveDMXPersonalityRefs();
-	ResolveAttribRefs();
-	ResolveWheelSlots();
-	CheckForMissingModeMasters();
-}
-
-void GdtfFixture::ResolveGeometryRefs()
-{	
-	// Geometry.Model
-	for (GdtfGeometryPtr geometry : fGeometries)
-	{
-		if(CheckAbort()) { return; }
-		ResolveGeometryRefs_Recursive(geometry);
-	}
-}
-
-void GdtfFixture::ResolveGeometryRefs_Recursive(GdtfGeometryPtr geometry)
-{
-	// ----------------------------------------------------------------------------
-	// Resolve Model Refs
-	TXString		unresolvedModelRef	= geometry->GetUnresolvedModelRef();
-	if( ! unresolvedModelRef.IsEmpty())
-	{
-		GdtfModelPtr	linkedModel			= nullptr;
-		
-		if (fUseIndexes)
-		{
-			auto it = fModelIndex.find(unresolvedModelRef);
-			if (it != fModelIndex.end()) { linkedModel = it->second; }
-		}
-		else
-		{
-			for (GdtfModelPtr modelRef: fModels)
-			{
-				if (modelRef->GetNodeReference() == unresolvedModelRef) { linkedModel = modelRef; break; }
-			}
-		}
-		
-		ASSERTN(kEveryone, linkedModel != nullptr);
-		if (linkedModel)	{ geometry->SetUnresolvedModelRef( linkedModel ); }
-		else
-		{
-			IXMLFileNodePtr node;
-			geometry->GetNode(node);
-			GdtfParsingError error (GdtfDefines::EGdtfParsingError::eGeometryUnresolvedModel, node);
-			SceneData::GdtfFixture::AddError(error);
-		}
-	}
-
-	// ----------------------------------------------------------------------------
-	// Resolve Geo Refs
-	if(geometry->GetObjectType() == eGdtfGeometryReference)
-	{
-		GdtfGeometryReferencePtr geoRef = static_cast<GdtfGeometryReferencePtr>(geometry);
-		ASSERTN(kEveryone, geoRef != nullptr);
-		if(geoRef)
-		{
-			GdtfGeometryPtr geo = this->ResolveGeometryRef(geoRef->GetUnresolvedLinkedGeometry(), fGeometries);
-			ASSERTN(kEveryone, geo != nullptr);
-			if (geo == nullptr)
-			{
-				IXMLFileNodePtr node;
-				geoRef->GetNode(node);
-				GdtfParsingError error (GdtfDefines::EGdtfParsingError::eGeometryReferenceUnresolvedLink, node);
-				SceneData::GdtfFixture::AddError(error);
-			}
-
-			geoRef->SetLinkedGeometry(geo);
-		}
-		else
-		{
-			IXMLFileNodePtr node;
-			geometry->GetNode(node);
-			GdtfParsingError error (GdtfDefines::EGdtfParsingError::eGeometryReferenceUnresolvedLink, node);
-			SceneData::GdtfFixture::AddError(error);
-		}
-	}
-	else if (geometry->GetObjectType() == eGdtfGeometryLamp)
-	{
-		GdtfGeometryLampePtr geoLamp = static_cast<GdtfGeometryLampePtr>(geometry);
-
-		TXString unresolvedEmitterRef = geoLamp->GetUnresolvedEmitterRef();
-		if ( ! unresolvedEmitterRef.IsEmpty())
-		{
-			GdtfPhysicalEmitterPtr emitterPtr = getEmiterByRef(unresolvedEmitterRef);
-			geoLamp->SetEmitterSpectrum(emitterPtr);
-
-		}
-	}
-	else if (geometry->GetObjectType() == eGdtfGeometryLaser)
-	{
-		GdtfGeometryLaserPtr geoLaser = static_cast<GdtfGeometryLaserPtr>(geometry);
-		ASSERTN(kEveryone, geoLaser != nullptr);
-		if(geoLaser)
-		{
-			TXString unresolvedEmitterRef = geoLaser->GetUnresolvedEmitter();
-			if ( ! unresolvedEmitterRef.IsEmpty())
-			{
-				GdtfPhysicalEmitterPtr emitterPtr = getEmiterByRef(unresolvedEmitterRef);
-				geoLaser->SetEmitter(emitterPtr);
-			}
-		}
-	}
-	else if (geometry->GetObjectType() == eGdtfGeometryWiringObject)
-	{
-		GdtfGeometryWiringObjectPtr geoWiringObject = static_cast<GdtfGeometryWiringObjectPtr>(geometry);
-		ASSERTN(kEveryone, geoWiringObject != nullptr);
-		if(geoWiringObject)
-		{
-			for(GdtfPinPatchPtr pinPatch : geoWiringObject->GetPinPatchArray())
-			{
-				TXString unresolvedWiringObject = pinPatch->GetUnresolvedWiringObject();
-				if ( ! unresolvedWiringObject.IsEmpty())
-				{
-					GdtfGeometryPtr wiringObjectGeo = ResolveGeometryRef(unresolvedWiringObject, fGeometries);
-					GdtfGeometryWiringObjectPtr toWiringObject = static_cast<GdtfGeometryWiringObjectPtr>(wiringObjectGeo);
-					pinPatch->SetToWiringObject(toWiringObject);
-				}
-			}
-		}
-	}
-	else if (geometry->GetObjectType() == eGdtfGeometryStructure)
-	{
-		GdtfGeometryStructurePtr geoStructure = static_cast<GdtfGeometryStructurePtr>(geometry);
-		ASSERTN(kEveryone, geoStructure != nullptr);
-		if(geoStructure)
-		{
-			TXString unresolvedLinkedGeometry = geoStructure->GetUnresolvedLinkedGeometry();
-			if ( ! unresolvedLinkedGeometry.IsEmpty())
-			{
-				GdtfGeometryPtr linkedGeometry = ResolveGeometryRef(unresolvedLinkedGeometry, fGeometries);
-				geoStructure->SetLinkedGeometry(linkedGeometry);
-			}
-		}
-	}
-
-	
-	
-	// Now traverse child geometry
-	for (GdtfGeometryPtr internalGeometry : geometry->GetInternalGeometries())
-	{
-		if(CheckAbort()) { return; }
-		ResolveGeometryRefs_Recursive(internalGeometry);
-	}
-}
-
-void GdtfFixture::ResolveWheelSlots()
-{
-	for(GdtfWheelPtr wheel : fWheels)
-	{
-		if(CheckAbort()) { return; }
-		for(GdtfWheelSlotPtr slot :  wheel->GetWheelSlotArray())
-		{
-			if(CheckAbort()) { return; }
-			TXString ref = slot->GetUnresolvedFilter();
-			if( ! ref.IsEmpty())
-			{
-				GdtfFilterPtr filter = getFilterByRef(ref);
-				slot->SetFilter(filter);
-			}
-		}
-	}
-}
-
-void GdtfFixture::ResolveAttribRefs()
-{
-	// Resolving a main attribute may append the NoFeature attribute to the array
-	const size_t attributeCount = fAttributes.size();
-	for (size_t attributeIndex = 0; attributeIndex < attributeCount; attributeIndex++)
-	{
-		GdtfAttributePtr attr = fAttributes[attributeIndex];
-		if (CheckAbort()) { return; }
-		// ------------------------------------------------------------------------------------------
-		// Attributes.ActivationGroup
-		TXString attrRef = attr->GetUnresolvedActGroup();
-		if( ! attrRef.IsEmpty())
-		{
-			GdtfActivationGroupPtr actGrpPtr = nullptr;
-			for (GdtfActivationGroupPtr actGroup : fActivationGroups)
-			{
-				if (attrRef == actGroup->GetNodeReference() )	{ actGrpPtr = actGroup; break; }
-			}
-			
-			ASSERTN(kEveryone, actGrpPtr != nullptr);
-			if (actGrpPtr)	{ attr->SetActivationGroup (actGrpPtr); }
-			else
-			{
-				IXMLFileNodePtr node;
-				attr->GetNode(node);
-				GdtfParsingError error (GdtfDefines::EGdtfParsingError::eAttributeUnresolvedActivationGroup, node);
-				SceneData::GdtfFixture::AddError(error);
-			}
-		}
-		
-		// ------------------------------------------------------------------------------------------
-		// Attributes.Feature
-		GdtfFeaturePtr featPtr = nullptr;
-		TXString unresolvedFeat = attr->GetUnresolvedFeature();
-		if( ! unresolvedFeat.IsEmpty())
-		{
-			for (GdtfFeatureGroupPtr featGrp : fFeatureGroups)
-			{	
-				if(CheckAbort()) { return; }
-				for (GdtfFeaturePtr feat : featGrp->GetFeatureArray() )
-				{				
-					if (unresolvedFeat == feat->GetNodeReference() ) { featPtr = feat; break; }
-				}
-			}
-			ASSERTN(kEveryone, featPtr != nullptr);
-			if (featPtr != nullptr)	{ attr->SetFeature (featPtr); }
-			else
-			{
-				IXMLFileNodePtr node;
-				attr->GetNode(node);
-				GdtfParsingError error (GdtfDefines::EGdtfParsingError::eAttributeUnresolvedFeature, node);
-				SceneData::GdtfFixture::AddError(error);
-			}
-		}
-		
-		// ------------------------------------------------------------------------------------------
-		// Main Attribute
-		TXString mainAttributeRef = attr->GetUnresolvedMainAttribute();
-		if ( ! mainAttributeRef.IsEmpty())
-		{
-			GdtfAttributePtr mainAttribute = getAttributeByRef(mainAttributeRef);
-			
-			ASSERTN(kEveryone, mainAttribute != nullptr);
-			if (mainAttribute != nullptr)	{ attr->SetMainAttribute(mainAttribute); }
-			else
-			{
-				IXMLFileNodePtr node;
-				attr->GetNode(node);		
-				GdtfParsingError error (GdtfDefines::EGdtfParsingError::eAttributeUnresolvedMainAttribute, node);
-				SceneData::GdtfFixture::AddError(error);
-			}
-		}
-	}
-}
-
-void GdtfFixture::ResolveMacroRefs(GdtfDmxModePtr dmxMode)
-{
-	for (GdtfMacroPtr macro : dmxMode->GetDmxMacrosArray())
-	{
-		if (CheckAbort()) { return; }
-		TXString unresolvedChannelFunction = macro->GetUnresolvedChannelFunction();
-		if ( ! unresolvedChannelFunction.IsEmpty())
-		{
-			GdtfDmxChannelFunctionPtr channelFunctionPtr = getDmxFunctionByRef(unresolvedChannelFunction, dmxMode);
-			macro->SetChannelFunction(channelFunctionPtr);
-		}
-
-		if(macro->GetMacroDMX())
-		{
-			for (GdtfMacroDMXStepPtr step : macro->GetMacroDMX()->GetStepArray())
-			{
-				if (CheckAbort()) { return; }
-				for(GdtfMacroDMXValuePtr value : step->GetDMXValueArray())
-				{
-					if (CheckAbort()) { return; }
-					IXMLFileNodePtr node;
-					value->GetNode(node);
-
-					{
-						GdtfDmxChannelPtr ch = dmxMode->GetChannelByIndex(value->GetUnresolvedDMXChannel());
-						if (ch) { value->SetDMXChannel(ch); }
-					}
-
-					if(value->GetDMXChannel())
-					{
-						
-						DmxValue dmxVal = 0;						
-						GdtfConverter::ConvertDMXValue(value->GetUnresolvedDMXValue(), node, value->GetDMXChannel()->GetChannelBitResolution(), dmxVal);
-						value->SetValue(dmxVal);
-					}
-					else
-					{
-						GdtfParsingError error (GdtfDefines::EGdtfParsingError::eDmxMacroDmxValueChannelReference, node);
-						SceneData::GdtfFixture::AddError(error);
-					}
-				}
-			}
-		}
-
-		if(macro->GetMacroVisual())
-		{
-			for (GdtfMacroVisualStepPtr step : macro->GetMacroVisual()->GetVisualStepArray())
-			{
-				if (CheckAbort()) { return; }
-				for (GdtfMacroVisualValuePtr value : step->GetVisualValueArray())
-				{
-					if (CheckAbort()) { return; }
-					{
-						GdtfDmxChannelFunctionPtr channelFunction = dmxMode->GetFunctionByIndex(value->GetUnresolvedChannelFunctionRef());
-						if (channelFunction)
-						{
-							value->SetChannelFunction(channelFunction);
-
-							IXMLFileNodePtr node;
-							value->GetNode(node);
-						
-							DmxValue dmxVal = 0;
-							GdtfConverter::ConvertDMXValue(value->GetUnresolvedDMXValue(), node, channelFunction->GetParentDMXChannel()->GetChannelBitResolution(), dmxVal);
-							value->SetDmxValue(dmxVal);
-						}
-					}
-				}
-			}
-		}
-	}
-}
-
-void GdtfFixture::ResolveDmxModeRefs()
-{	
-	for (GdtfDmxModePtr dmxMode : fDmxModes)
-	{
-		if (CheckAbort()) { return; }
-		//---------------------------------------------------------------------------------------
-		// DmxMode.Geometry
-		TXString 		unresolvedgeomRef	= dmxMode->GetUnresolvedGeomRef();
-		GdtfGeometryPtr geomPtr				= nullptr;
-		if( ! unresolvedgeomRef.IsEmpty())
-		{
-			for (GdtfGeometryPtr geo : fGeometries)
-			{
-				if (geo->GetNodeReference() == unresolvedgeomRef) { geomPtr = geo; break; }
-			}
-		}
-
-		// Check if there is a
-		ASSERTN(kEveryone, geomPtr != nullptr);
-		if (geomPtr != nullptr) { dmxMode->SetGeomRef(geomPtr); }
-		else
-		{
-			IXMLFileNodePtr node;
-			dmxMode->GetNode(node);				
-			GdtfParsingError error (GdtfDefines::EGdtfParsingError::eDmxModeUnresolvedGeometry, node);
-			SceneData::GdtfFixture::AddError(error);
-		}
-		
-		// First Link all the stuff for DMX Channels
-		ResolveDmxChannelRefs(dmxMode);
-		dmxMode->BuildModeIndexes();
-		
-		// Afer Geometry is linked to the base geometry, we can generate the names
-        AutoGenerateNames(dmxMode);
-		
-		// Then we have all the information for this
-		ResolveDmxRelationRefs(dmxMode);
-
-		ResolveMacroRefs(dmxMode);
-	}	
-}
-
-void GdtfFixture::ResolveDMXModeMasters()
-{	
-	for (GdtfDmxModePtr mode : fDmxModes)
-	{
-		if (CheckAbort()) { return; }
-
-		for(GdtfDmxChannelPtr channel : mode->GetChannelArray())
-		{
-			if (CheckAbort()) { return; }
-
-			for(GdtfDmxLogicalChannelPtr logicalChannel : channel->GetLogicalChannelArray())
-			{
-				if (CheckAbort()) { return; }
-
-				for(GdtfDmxChannelFunctionPtr function : logicalChannel->GetDmxChannelFunctions())
-				{
-					if (CheckAbort()) { return; }
-					// ----------------------------------------------------------------------------------------
-					// DmxChanelFunction Mode Master Channel (Optional)
-					TXString unresolvedModeMaster = function->getUnresolvedModeMasterRef();
-					if(! unresolvedModeMaster.IsEmpty())
-					{
-						bool 						resolved 	= false;
-						EGdtfChannelBitResolution 	resolution 	= EGdtfChannelBitResolution::eGdtfChannelBitResolution_8;
-
-						GdtfDmxChannelPtr channelPtr = getDmxChannelByRef(unresolvedModeMaster, mode);
-						if(! resolved && channelPtr)
-						{ 
-							function->SetModeMaster_Channel(channelPtr); 
-							resolved = true; 
-							resolution = channelPtr->GetChannelBitResolution(); 
-						}
-
-						if(! resolved)
-						{
-							GdtfDmxChannelFunctionPtr functionPtr = getDmxFunctionByRef(unresolvedModeMaster, mode);
-							if(functionPtr) 
-							{ 
-								function->SetModeMaster_Function(functionPtr);
-								resolved = true; 
-								resolution = functionPtr->GetParentDMXChannel()->GetChannelBitResolution();
-							}
-						}
-						
-						ASSERTN(kEveryone, resolved);
-						if(resolved) { function->ResolveModeMasterDmx(resolution); }
-						else
-						{
-							IXMLFileNodePtr node;
-							channel->GetNode(node);
-							GdtfParsingError error (GdtfDefines::EGdtfParsingError::eDMXModeMastersUnresolved, node);
-							SceneData::GdtfFixture::AddError(error);
-						}
-					}
-				}
-			}
-		}
-	}	
-}
-
-
-GdtfDmxModePtr GdtfFixture::ResolveDMXMode(const TXString& unresolvedDMXmode)
-{
-    for (GdtfDmxModePtr dmxMode : fDmxModes) 
-    {
-        if (dmxMode->GetModeName() == unresolvedDMXmode) 
-        {
-            return dmxMode;
-        }    
-    }
-    
-    return nullptr;
-}
-
-void GdtfFixture::ResolveDMXPersonalityRefs()
-{
-    GdtfFTRDM* rdm =  fProtocollContainer.GetRDM();
-
-    if (rdm)
-    {
-        for (GdtfSoftwareVersionID* softID : rdm->GetSoftwareVersIDs() ) 
-        {
-			if (CheckAbort()) { return; }
-            for (GdtfDMXPersonality* dmxPerso : softID->GetDMXPersonalityArray() ) 
-            {
-				if (CheckAbort()) { return; }
-                GdtfDmxModePtr dmxMode =  ResolveDMXMode(dmxPerso->GetUnresolvedDMXMode()); 
-            
-				ASSERTN(kEveryone, dmxMode != nullptr);
-                if (dmxMode != nullptr) { dmxPerso->SetDMXMode(dmxMode);  }
-				else
-				{
-					IXMLFileNodePtr node;
-					dmxPerso->GetNode(node);
-					GdtfParsingError error (GdtfDefines::EGdtfParsingError::eValueError_UnresolvedRdmPersonalityMode, node);
-					SceneData::GdtfFixture::AddError(error);
-				}
-            }
-        }
-    }
-}
-
-void GdtfFixture::ResolveDmxRelationRefs(GdtfDmxModePtr dmxMode)
-{
-	for (GdtfDmxRelationPtr rel : dmxMode->GetDmxRelations())
-	{	
-		if (CheckAbort()) { return; }
-		// DMXChannel (Master)
-		GdtfDmxChannelPtr			master	= dmxMode->GetMasterByRef(rel->GetUnresolvedMasterRef() );
-		GdtfDmxChannelFunctionPtr	slave	= dmxMode->GetSlaveByRef(rel->GetUnresolvedSlaveRef() );
-		rel->SetMasterChannel(master);
-        rel->SetSlaveChannel(slave);
-
-	}	
-}
-
-void GdtfFixture::ResolveDmxChannelRefs(GdtfDmxModePtr dmxMode)
-{	
-	static constexpr size_t kDuplicateCheckThreshold = 64;
-	std::unordered_set<TXString, TXStringNoCaseHash> seenGeoAttrPairs;
-	std::unordered_set<TXString, TXStringNoCaseHash>* seenPairsPtr = 
-		(dmxMode->GetChannelArray().size() >= kDuplicateCheckThreshold) ? &seenGeoAttrPairs : nullptr;
-	for (GdtfDmxChannelPtr chnl: dmxMode->GetChannelArray() )
-	{
-		if (CheckAbort()) { return; }
-		// ----------------------------------------------------------------------------------------
-		// DmxChannel.Geometry
-		GdtfGeometryPtr geomPtr = nullptr;
-		TXString unresolvedGeoRef	= chnl->GetUnresolvedGeomRef();
-		ASSERTN(kEveryone, ! unresolvedGeoRef.IsEmpty() );
-		if (!unresolvedGeoRef.IsEmpty())
-		{
-			if (fUseIndexes)
-			{
-				auto it = fGeometryIndex.find(unresolvedGeoRef);
-				if (it != fGeometryIndex.end()) { geomPtr = it->second; }
-			}
-			else
-			{
-				for (GdtfGeometryPtr geom : fGeometries)
-				{
-					if (geom->GetNodeReference() == unresolvedGeoRef) { geomPtr = geom; break; }
-					geomPtr = ResolveGeometryRef(unresolvedGeoRef, geom->GetInternalGeometries());
-					if (geomPtr != nullptr) { break; }
-				}
-			}
-			
-			ASSERTN(kEveryone, geomPtr != nullptr);
-			if (geomPtr){ chnl->SetGeomRef (geomPtr); }
-			else
-			{
-				IXMLFileNodePtr node;
-				chnl->GetNode(node);
-				GdtfParsingError error (GdtfDefines::EGdtfParsingError::eFixtureDMXChannelMissingGeometryLink, node);
-				SceneData::GdtfFixture::AddError(error);
-			}
-		}
-		else
-		{
-			IXMLFileNodePtr node;
-			chnl->GetNode(node);
-			GdtfParsingError error (GdtfDefines::EGdtfParsingError::eFixtureDMXChannelMissingGeometryLink, node);
-			SceneData::GdtfFixture::AddError(error);
-		}
-		
-		// ----------------------------------------------------------------------------------------
-		// DmxChannel.LogicalChannelArray
-		ResolveDmxLogicalChanRefs(chnl, seenPairsPtr);
-
-		// ----------------------------------------------------------------------------------------
-		// DmxChannel.InitialFunction
-		GdtfDmxChannelFunctionPtr initialFunctionPtr = nullptr;
-		TXString unresolvedInitialFunction = chnl->GetUnresolvedInitialFunction();
-		if (!unresolvedInitialFunction.IsEmpty())
-		{
-			for (GdtfDmxLogicalChannelPtr logicalChannel : chnl->GetLogicalChannelArray())
-			{
-				if(CheckAbort()) { return; }
-				for (GdtfDmxChannelFunctionPtr channelFunction : logicalChannel->GetDmxChannelFunctions())
-				{
-					if(CheckAbort()) { return; }
-					if (channelFunction->GetNodeReference() == unresolvedInitialFunction) { initialFunctionPtr = channelFunction; break;}
-				}
-				
-				if (initialFunctionPtr != nullptr) { break; }
-			}
-			
-			ASSERTN(kEveryone, initialFunctionPtr != nullptr);
-			if (initialFunctionPtr) { chnl->SetInitialFunction(initialFunctionPtr); }
-			else
-			{
-				IXMLFileNodePtr node;
-				chnl->GetNode(node);
-				GdtfParsingError error (GdtfDefines::EGdtfParsingError::eFixtureDMXChannelUnresolvedChannelFunction, node);
-				SceneData::GdtfFixture::AddError(error);
-			}
-		}
-		else
-		{
-			//If there is no initialfunction defined, we set the first one by default
-			if(chnl->GetLogicalChannelArray().size() > 0 && chnl->GetLogicalChannelArray()[0]->GetDmxChannelFunctions().size() > 0)
-			{
-				chnl->SetInitialFunction(chnl->GetLogicalChannelArray()[0]->GetDmxChannelFunctions()[0]);
-			}
-			else
-			{
-				IXMLFileNodePtr node;
-				chnl->GetNode(node);
-				GdtfParsingError error (GdtfDefines::EGdtfParsingError::eFixtureDMXChannelMissingChannelFunction, node);
-				SceneData::GdtfFixture::AddError(error);
-			}
-			
-		}
-	} 	
-}
-
-GdtfGeometryPtr GdtfFixture::ResolveGeometryRef(const TXString& unresolvedGeoRef, const TGdtfGeometryArray& geometryArray)
-{
-	if (fUseIndexes)
-	{
-		auto it = fGeometryIndex.find(unresolvedGeoRef);
-		if (it != fGeometryIndex.end()) { return it->second; }
-		return nullptr;
-	}
-
-	// Fallback: recursive tree walk
-	GdtfGeometryPtr matched = nullptr;
-	for (GdtfGeometryPtr geom : geometryArray)
-	{
-		if (geom->GetNodeReference() == unresolvedGeoRef) { return geom; }
-		matched = ResolveGeometryRef(unresolvedGeoRef, geom->GetInternalGeometries());
-		if (matched) { return matched; }
-	}
-	return nullptr;
-}
-
-void GdtfFixture::ResolveDmxLogicalChanRefs(GdtfDmxChannelPtr dmxChnl, std::unordered_set<TXString, TXStringNoCaseHash>* seenGeoAttrPairs)
-{		
-	for ( GdtfDmxLogicalChannelPtr logChnl : dmxChnl->GetLogicalChannelArray() )
-	{
-		if(CheckAbort()) { return; }
-		IXMLFileNodePtr node;
-		logChnl->GetNode(node);
-
-		// ----------------------------------------------------------------------------------------
-		// DmxLogicalChannel.Attribute		
-		GdtfAttributePtr attrPtr = getAttributeByRef(logChnl->GetUnresolvedAttribRef());
-				
-		ASSERTN(kEveryone, attrPtr != nullptr);
-		if (attrPtr != nullptr)
-		{
-			//Check for logical channels with the same geometry/attribute combination
-			TXString attributeName = attrPtr->GetName();
-
-			GdtfGeometryPtr geoRef = dmxChnl->GetGeomRef();
-			TXString geometryName;
-			if(geoRef)
-			{
-				// If this doesn't exist, EGdtfParsingError::eFixtureDMXChannelMissingGeometryLink has been raised in the ResolveDmxChannelRefs() function
-				geometryName = geoRef->GetName();
-			}
-
-			// Allow NoFeature and Dummy attributes to be linked multiple times to the same geometry
-			bool isNoFeatureAttribute = (attrPtr == fNoFeature) || (attributeName.EqualNoCase("NoFeature"));
-			bool isDummyAttribute = attributeName.EqualNoCase("Dummy");
-			
-			bool alreadyExists = false;
-			if (!isNoFeatureAttribute && !isDummyAttribute)
-			{
-				if (seenGeoAttrPairs)
-				{
-					TXString pairKey = geometryName + "|" + attributeName;
-					pairKey.MakeLower();
-					alreadyExists = (seenGeoAttrPairs->count(pairKey) > 0);
-					seenGeoAttrPairs->insert(pairKey);
-				}
-				else
-				{
-					GdtfDmxModePtr mode = dmxChnl->GetParentMode();
-					
-					for(GdtfDmxChannelPtr channel : mode->GetChannelArray())
-					{
-						GdtfGeometryPtr currentGeometry = channel->GetGeomRef();
-						if(currentGeometry == nullptr) { break; }
-						TXString currentGeometryName = currentGeometry->GetName();
-						for(GdtfDmxLogicalChannelPtr logicalChannel : channel->GetLogicalChannelArray())
-						{
-							TXString currentAttributeName = "";
-							GdtfAttributePtr currentAttribute = logicalChannel->GetAttribute();
-							if(currentAttribute != nullptr)
-							{
-								currentAttributeName = currentAttribute->GetName();
-							}
-
-							if(geometryName.EqualNoCase(currentGeometryName) && attributeName.EqualNoCase(currentAttributeName))
-							{
-								alreadyExists = true;
-								break;
-							}
-						}
-
-						if(alreadyExists) { break; }
-					}
-				}
-			}
-
-			if(alreadyExists)
-			{
-				GdtfParsingError error (GdtfDefines::EGdtfParsingError::eFixtureLogicalChannelNoUniqueGeometryAttribute, node);
-				SceneData::GdtfFixture::AddError(error);
-			}
-
-			//--------------------------
-			//Set Attribute
-			logChnl->SetAttribute(attrPtr);
-			
-		}
-		else
-		{
-			GdtfParsingError error (GdtfDefines::EGdtfParsingError::eFixtureLogicalChannelMissingAttribute, node);
-			SceneData::GdtfFixture::AddError(error);
-		}
-		
-		
-		// ----------------------------------------------------------------------------------------
-		// DmxChannelFuntionArray
-		ResolveDmxChanelFunctionRefs(logChnl);
-	}
-}
-
-void GdtfFixture::ResolveDmxChanelFunctionRefs(GdtfDmxLogicalChannelPtr dmxLogChnl)
-{
-	for (GdtfDmxChannelFunctionPtr chnlFunc : dmxLogChnl->GetDmxChannelFunctions())
-	{
-		if(CheckAbort()) { return; }
-		// ----------------------------------------------------------------------------------------
-		// DmxChanelFunction.Attribute
-		GdtfAttributePtr attrPtr = getAttributeByRef(chnlFunc->getUnresolvedAttrRef());
-
-		ASSERTN(kEveryone, attrPtr != nullptr);
-		if (attrPtr != nullptr)	{ chnlFunc->SetAttribute(attrPtr); }
-		else
-		{
-			IXMLFileNodePtr node;
-			chnlFunc->GetNode(node);
-			GdtfParsingError error (GdtfDefines::EGdtfParsingError::eChannelFunctionMissingAttribute, node); SceneData::GdtfFixture::AddError(error);
-		}
-		
-		// ----------------------------------------------------------------------------------------
-		// DmxChanelFunction.WheelPtr (Optional)
-		TXString unresolvedWheelRef = chnlFunc->getUnresolvedWheelRef();
-		if( ! unresolvedWheelRef.IsEmpty())
-		{
-			GdtfWheelPtr whlPtr = getWheelByRef(unresolvedWheelRef);
-			chnlFunc->SetWheel(whlPtr);
-		}
-		
-		// ----------------------------------------------------------------------------------------		
-		TXString unresolvedEmitterRef = chnlFunc->getUnresolvedEmitterRef();
-		if ( ! unresolvedEmitterRef.IsEmpty())
-		{
-			GdtfPhysicalEmitterPtr emtPtr = getEmiterByRef(unresolvedEmitterRef);
-			chnlFunc->SetEmitter(emtPtr);
-		}
-
-        // ----------------------------------------------------------------------------------------		
-        // Filter Refs
-        TXString unresolvedFilterRef = chnlFunc->getUnresolvedFilterRef();
-        if (!unresolvedFilterRef.IsEmpty()) 
-        {
-            GdtfFilter* filter = getFilterByRef(unresolvedFilterRef);
-            chnlFunc->SetFilter(filter);
-        }
-        // ----------------------------------------------------------------------------------------
-		// DmxChannelFunction.Default (For GDTF 1.0 files)
-		if(chnlFunc->GetDefaultValue() == 0)
-		{
-			DmxValue oldDefault = dmxLogChnl->GetParentDMXChannel()->GetOldDefaultValue();
-			if(oldDefault > 0)
-			{
-				chnlFunc->SetDefaultValue(oldDefault);
-			}
-		}
-
-		// ----------------------------------------------------------------------------------------		
-        // ColorSpace Refs
-        TXString unresolvedColorSpaceRef = chnlFunc->getUnresolvedColorSpaceRef();
-        if (!unresolvedColorSpaceRef.IsEmpty()) 
-        {
-            GdtfColorSpace* colorSpace = getColorSpaceByRef(unresolvedColorSpaceRef);
-            chnlFunc->SetColorSpace(colorSpace);
-        }
-
-		// ----------------------------------------------------------------------------------------		
-        // Gamut Refs
-        TXString unresolvedGamutRef = chnlFunc->getUnresolvedGamutRef();
-        if (!unresolvedGamutRef.IsEmpty()) 
-        {
-            GdtfGamut* gamut = getGamutByRef(unresolvedGamutRef);
-            chnlFunc->SetGamut(gamut);
-        }
-
-		// ----------------------------------------------------------------------------------------		
-        // DMXProfile Refs
-        TXString unresolvedDMXProfileRef = chnlFunc->getUnresolvedDMXProfileRef();
-        if (!unresolvedDMXProfileRef.IsEmpty()) 
-        {
-            GdtfDMXProfile* dmxProfile = getDMXProfileByRef(unresolvedDMXProfileRef);
-            chnlFunc->SetDMXProfile(dmxProfile);
-        }
-		
-		ResolveDmxSubChannelSetRefs(chnlFunc);
-	}
-}
-
-void GdtfFixture::ResolveDmxSubChannelSetRefs(GdtfDmxChannelFunctionPtr channelFunction)
-{
-	for (GdtfDmxSubChannelSetPtr subChannelSet : channelFunction->GetSubChannelSets())
-	{
-		if(CheckAbort()) { return; }
-		// ----------------------------------------------------------------------------------------		
-        // SubPhysicalUnit Refs
-        TXString unresolvedSubPhysicalUnitRef = subChannelSet->GetUnresolvedSubPhysicalUnitRef();
-        if (!unresolvedSubPhysicalUnitRef.IsEmpty()) 
-        {
-            // The unit is the one of the function's own attribute, types repeat between attributes
-            GdtfSubPhysicalUnit* subPhysicalUnit = nullptr;
-            if (GdtfAttribute* functionAttribute = channelFunction->GetAttribute())
-            {
-                for (GdtfSubPhysicalUnitPtr unit : functionAttribute->GetSubPhysicalUnitArray())
-                {
-                    if (unit->GetNodeReference() == unresolvedSubPhysicalUnitRef) { subPhysicalUnit = unit; break; }
-                }
-            }
-            if (subPhysicalUnit == nullptr) { subPhysicalUnit = getSubPhysicalUnitByRef(unresolvedSubPhysicalUnitRef); }
-            subChannelSet->SetSubPhysicalUnit(subPhysicalUnit);
-        }
-
-		// ----------------------------------------------------------------------------------------		
-        // DMXProfile Refs
-        TXString unresolvedDMXProfileRef = subChannelSet->GetUnresolvedDMXProfileRef();
-        if (!unresolvedDMXProfileRef.IsEmpty()) 
-        {
-            GdtfDMXProfile* dmxProfile = getDMXProfileByRef(unresolvedDMXProfileRef);
-            subChannelSet->SetDMXProfile(dmxProfile);
-        }
-	}
-}
-
-void GdtfFixture::CheckForMissingModeMasters()
-{	
-	for (GdtfDmxModePtr mode : fDmxModes)
-	{
-		if (CheckAbort()) { return; }
-		for(GdtfDmxChannelPtr channel : mode->GetChannelArray())
-		{
-			if (CheckAbort()) { return; }
-			for(GdtfDmxLogicalChannelPtr logicalChannel : channel->GetLogicalChannelArray())
-			{
-				if (CheckAbort()) { return; }
-				TGdtfDmxChannelFuntionArray channelFunctions = logicalChannel->GetDmxChannelFunctions();
-
-                if(channelFunctions.size() > 0)
-                {
-                    for(size_t i = 0; i < channelFunctions.size() - 1; i++)
-                    {
-						if(CheckAbort()) { return; }
-                        GdtfDmxChannelFunctionPtr function = channelFunctions[i];
-                        // ----------------------------------------------------------------------------------------
-                        DmxValue functionStart 	= function->GetStartAdress();
-                        DmxValue functionEnd	= function->GetEndAdress();
-
-                        for(size_t j = i+1; j < channelFunctions.size(); j++)
-                        {
-							if(CheckAbort()) { return; }
-                            GdtfDmxChannelFunctionPtr currentFunction = channelFunctions[j];
-
-                            DmxValue currentFunctionStart	= currentFunction->GetStartAdress();
-                            DmxValue currentFunctionEnd		= currentFunction->GetEndAdress();
-                            
-                            if(functionStart <= currentFunctionEnd && currentFunctionStart <= functionEnd)
-                            {
-                                //These two functions have conflicting DMX ranges.
-
-                                GdtfDmxChannel* 		functionMMChannel 	= function->GetModeMaster_Channel();
-                                GdtfDmxChannelFunction* functionMMFunction 	= function->GetModeMaster_Function();
-
-                                //First we check if a mode master is defined
-                                if(!functionMMChannel && !functionMMFunction)
-                                {
-                                    //If not, we throw an error.
-                                    GdtfParsingError error (GdtfDefines::EGdtfParsingError::eFixtureChannelFunctionMissingModeMaster);
-                                    SceneData::GdtfFixture::AddError(error);
-                                }
-                                else
-                                {
-                                    //If there is one, we have to check if they're the same.
-                                    GdtfDmxChannel* 		currentFunctionMMChannel 	= currentFunction->GetModeMaster_Channel();
-                                    GdtfDmxChannelFunction* currentFunctionMMFunction	= currentFunction->GetModeMaster_Function();
-                                    if((functionMMChannel && functionMMChannel == currentFunctionMMChannel) || (functionMMFunction && functionMMFunction == currentFunctionMMFunction))
-                                    {
-                                        //If they're the same we have to check that their ranges don't overlap.
-                                        DmxValue functionMMStart 		= function->GetModeMasterDmxStart();
-                                        DmxValue functionMMEnd			= function->GetModeMasterDmxEnd();
-
-                                        DmxValue currentFunctionMMStart	= currentFunction->GetModeMasterDmxStart();
-                                        DmxValue currentFunctionMMEnd	= currentFunction->GetModeMasterDmxEnd();
-                                        
-                                        if(functionMMStart <= currentFunctionMMEnd && currentFunctionMMStart <= functionMMEnd)
-                                        {
-                                            //If they do, we throw an error.
-                                            GdtfParsingError error (GdtfDefines::EGdtfParsingError::eFixtureChannelFunctionModeMasterOverlap);
-                                            SceneData::GdtfFixture::AddError(error);
-                                        }
-                                    }
-                                }
-                                break;
-                            }
-                        }
-                    }
-                }
-			}
-		}
-	}	
-}
-
-GdtfFixture::GdtfFixture()
-{
-	fThumbnailOffsetX 		= 0;
-	fThumbnailOffsetY 		= 0;
-	fReaded					= false;
-	fHasLinkedGuid			= false;     
-	fNoFeature				= nullptr;   
-	fCanHaveChildren 		= false;
-	fHasLinkedGuid 			= false;
-}
-
-GdtfFixture::~GdtfFixture()
-{   
-
-    for (GdtfActivationGroupPtr obj		: fActivationGroups){ delete obj; }
-    for (GdtfFeatureGroupPtr obj		: fFeatureGroups)   { delete obj; }
-    for (GdtfAttributePtr obj			: fAttributes)      { delete obj; }
-	for (GdtfWheelPtr obj				: fWheels)			{ delete obj; }
-	for (GdtfGeometry* obj				: fGeometries)		{ delete obj; }
-	for (GdtfModel* obj					: fModels)			{ delete obj; }	
-	for (GdtfDmxModePtr obj				: fDmxModes)		{ delete obj; }
-	for (GdtfRevisionPtr obj			: fRevisions)		{ delete obj; }
-
-    // Delete Local Files
-	for (size_t i = 0; i < fLocalFiles.size(); i++)
-	{
-		IFileIdentifierPtr file = fLocalFiles[i];
-		file->DeleteOnDisk();
-	}
-
-	//Delete buffers
-	for (auto it = fFileBuffers.begin(); it != fFileBuffers.end(); it++)
-	{
-		free(it->second.first);
-	}
-}
-
-size_t GdtfFixture::GetAttachedFileCount()
-{
-    return fLocalFilesFullPath.size();
-}
-
-bool GdtfFixture::GetAttachedFileCountAt(size_t at, TXString*& outFile)
-{
-	bool retVal = (at < fLocalFilesFullPath.size());
-	if(retVal)	{ outFile = &fLocalFilesFullPath.at(at); }
-
-    return retVal;
-}
-
-bool  GdtfFixture::IsReaded()
-{
-	return fReaded;
-}
-
-void  GdtfFixture::GetWorkingFolder(IFolderIdentifierPtr& folder)
-{
-	folder = fWorkingFolder;
-}
-
-void GdtfFixture::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnPrintToFile(pNode);
-	
-	// ------------------------------------------------------------------------------------
-	// Print node attributes
-	pNode->SetNodeAttributeValue(XML_GDTF_FixtureName,				fName);
-	pNode->SetNodeAttributeValue(XML_GDTF_FixtureShortName,			fShortName);
-	pNode->SetNodeAttributeValue(XML_GDTF_FixtureLongName,			fLongName);
-	pNode->SetNodeAttributeValue(XML_GDTF_FixtureManufacturer,		fManufacturer);
-	pNode->SetNodeAttributeValue(XML_GDTF_FixtureDescription,		fFixtureTypeDescription);
-	pNode->SetNodeAttributeValue(XML_GDTF_FixtureTypeID,			GdtfConverter::ConvertUUID(fGuid));
-	pNode->SetNodeAttributeValue(XML_GDTF_FixtureThumbnail,			fTumbnailName);
-	pNode->SetNodeAttributeValue(XML_GDTF_FixtureThumbnailOffsetX,	GdtfConverter::ConvertInteger(fThumbnailOffsetX));
-	pNode->SetNodeAttributeValue(XML_GDTF_FixtureThumbnailOffsetY,	GdtfConverter::ConvertInteger(fThumbnailOffsetY));
-	pNode->SetNodeAttributeValue(XML_GDTF_FixtureCanHaveChildren,	GdtfConverter::ConvertEGdtfCanHaveChildren(fCanHaveChildren));
-	
-	if(fHasLinkedGuid)
-	{
-		pNode->SetNodeAttributeValue(XML_GDTF_LinkedUuid,			GdtfConverter::ConvertUUID(fLinkedGuid));
-	}
-	else
-	{
-		pNode->SetNodeAttributeValue(XML_GDTF_LinkedUuid,			"");
-	}
-	
-	// ------------------------------------------------------------------------------------
-	// Activation Groups
-	IXMLFileNodePtr attributeDefintion;
-	if (VCOM_SUCCEEDED(pNode->CreateChildNode(XML_GDTF_FixtureChildNodeAttributeDef, & attributeDefintion)))
-	{
-		// Add ActivationsGroupDef
-		IXMLFileNodePtr activationGroupContainer;
-		if (VCOM_SUCCEEDED(attributeDefintion->CreateChildNode(XML_GDTF_FixtureChildNodeActivationGroupDef, & activationGroupContainer)))
-		{
-			for (auto  actGroup: fActivationGroups)
-			{
-				actGroup->WriteToNode(activationGroupContainer);
-			}
-		}
-		
-		// Add Feature GroupDef
-		IXMLFileNodePtr featureGroupContainer;
-		if (VCOM_SUCCEEDED(attributeDefintion->CreateChildNode(XML_GDTF_FixtureChildNodeFeatureGroupDef, & featureGroupContainer)))
-		{
-			for (auto  featureGroup: fFeatureGroups)
-			{
-				featureGroup->WriteToNode(featureGroupContainer);
-			}
-		}
-		
-		
-		// Add Attributes
-		// Add Feature GroupDef
-		IXMLFileNodePtr attributesContainer;
-		if (VCOM_SUCCEEDED(attributeDefintion->CreateChildNode(XML_GDTF_FixtureChildNodeAttributesDef, & attributesContainer)))
-		{
-			for (auto  featureGroup: fAttributes)
-			{
-				featureGroup->WriteToNode(attributesContainer);
-			}
-		}
-	}
-	
-	// ------------------------------------------------------------------------------------
-	// Print wheels
-	IXMLFileNodePtr wheels;
-	if (VCOM_SUCCEEDED(pNode->CreateChildNode(XML_GDTF_FixtureChildNodeWheels, & wheels)))
-	{
-		for (GdtfWheelPtr wheelObj : fWheels)
-		{
-			wheelObj->WriteToNode(wheels);
-		}
-	}
-	
-	// ------------------------------------------------------------------------------------
-	// Print PhysicalDescriptions    
-    fPhysicalDesciptions.WriteToNode(pNode);
-    	
-	// ------------------------------------------------------------------------------------
-	// Print models
-	IXMLFileNodePtr models;
-	if (VCOM_SUCCEEDED(pNode->CreateChildNode(XML_GDTF_FixtureChildNodeModels, & models)))
-	{
-		for (GdtfModel* modelObj : fModels)
-		{
-			modelObj->WriteToNode(models);
-		}
-	}
-	
-	// ------------------------------------------------------------------------------------
-	// Print geometries
-	IXMLFileNodePtr geometries;
-	if (VCOM_SUCCEEDED(pNode->CreateChildNode(XML_GDTF_FixtureChildNodeGeomertries, & geometries)))
-	{
-		for (GdtfGeometry* geometryObj : fGeometries)
-		{
-			geometryObj->WriteToNode(geometries);
-		}
-	}
-	
-	// ------------------------------------------------------------------------------------
-	// Print dmxModes
-	IXMLFileNodePtr dmxModes;
-	if (VCOM_SUCCEEDED(pNode->CreateChildNode(XML_GDTF_FixtureChildNodeDMX, & dmxModes)))
-	{
-		for (GdtfDmxMode* dmxObj : fDmxModes)
-		{
-			dmxObj->WriteToNode(dmxModes);
-		}
-	}
-	
-	// ------------------------------------------------------------------------------------
-	// Print Revisions
-	IXMLFileNodePtr revisions;
-	if (VCOM_SUCCEEDED(pNode->CreateChildNode(XML_GDTF_FixtureChildNodeRevisions, & revisions)))
-	{
-		for (GdtfRevision* revisionObj : fRevisions)
-		{
-			revisionObj->WriteToNode(revisions);
-		}
-	}
-	
-	// ------------------------------------------------------------------------------------
-	// Print presets
-	IXMLFileNodePtr presets;
-	if (VCOM_SUCCEEDED(pNode->CreateChildNode(XML_GDTF_FixtureChildNodePresets, & presets)))
-	{
-		for (GdtfUserPreset* presetObj : fPresets)
-		{
-			presetObj->WriteToNode(presets);
-		}
-	}
-	
-	// ------------------------------------------------------------------------------------
-	// Print Prorocols
-    fProtocollContainer.WriteToNode(pNode);
-}
-
-void GdtfFixture::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	if ( CheckAbort() ) return;
-	FixtureFeedback feedback;
-	feedback.fTotalNumberOfNodes = fTotalNodesCount;
-
-	pNode->GetNodeAttributeValue(XML_GDTF_FixtureName,						fName);
-    fName.Replace("/", "_");
-
-	feedback.fFileName = fName;
-	VectorworksMVR::FeedbackDispatcher::Send(feedback);
-
-	pNode->GetNodeAttributeValue(XML_GDTF_FixtureShortName,					fShortName);
-	pNode->GetNodeAttributeValue(XML_GDTF_FixtureLongName,					fLongName);
-	pNode->GetNodeAttributeValue(XML_GDTF_FixtureManufacturer,				fManufacturer);
-	pNode->GetNodeAttributeValue(XML_GDTF_FixtureDescription,				fFixtureTypeDescription);
-	TXString uuid; pNode->GetNodeAttributeValue(XML_GDTF_FixtureTypeID,		uuid );	GdtfConverter::ConvertUUID(uuid, pNode, fGuid);
-	pNode->GetNodeAttributeValue(XML_GDTF_FixtureThumbnail,					fTumbnailName);
-	TXString thumbnailOffsetX; 	pNode->GetNodeAttributeValue(XML_GDTF_FixtureThumbnailOffsetX, thumbnailOffsetX); 	GdtfConverter::ConvertInteger(thumbnailOffsetX, pNode, fThumbnailOffsetX);
-	TXString thumbnailOffsetY; 	pNode->GetNodeAttributeValue(XML_GDTF_FixtureThumbnailOffsetY, thumbnailOffsetY); 	GdtfConverter::ConvertInteger(thumbnailOffsetY, pNode, fThumbnailOffsetY);
-	TXString canHaveChildren; 	pNode->GetNodeAttributeValue(XML_GDTF_FixtureCanHaveChildren,	 canHaveChildren); 	GdtfConverter::ConvertEGdtfCanHaveChildren(canHaveChildren, pNode, fCanHaveChildren);
-
-	TXString linkedUuid;
-	pNode->GetNodeAttributeValue(XML_GDTF_LinkedUuid,		linkedUuid );
-	fHasLinkedGuid = GdtfConverter::ConvertUUID(linkedUuid, pNode, fLinkedGuid);
-	
-	if ( CheckAbort() ) return;
-
-    // ------------------------------------------------------------------------------------
-	// Read Prorocols
-    IXMLFileNodePtr protoNode;
-    if (VCOM_SUCCEEDED(pNode->GetChildNode(XML_GDTF_Protocols, &protoNode))) 
-    {   
-		TXString nodeName;
-		protoNode->GetNodeName( nodeName );
-        fProtocollContainer.ReadFromNode(protoNode); 
-
-		feedback.fTotalCompletedNodes++;
-		VectorworksMVR::FeedbackDispatcher::Send(feedback);
-		if ( CheckAbort() ) return;
-    } 
-
-    // Read PhysicalDesciptions
-    IXMLFileNodePtr physDescrNode;
-    if (VCOM_SUCCEEDED(pNode->GetChildNode(XML_GDTF_FixtureChildNodePhysicalDesrip, &physDescrNode) ))
-    {
-        fPhysicalDesciptions.ReadFromNode(physDescrNode);
-		feedback.fTotalCompletedNodes++;
-		VectorworksMVR::FeedbackDispatcher::Send(feedback);
-		if ( CheckAbort() ) return;
-    }
-
-    // ------------------------------------------------------------------------------------
-    // Read AttributeDefinitions
-    
-    IXMLFileNodePtr attrDefs;
-    if (VCOM_SUCCEEDED(pNode->GetChildNode(XML_GDTF_FixtureChildNodeAttributeDef, & attrDefs)))
-    
-    {
-        // ------------------------------------------------------------------------------------
-        // Read fActivationGroups
-        GdtfConverter::TraverseNodes(attrDefs, XML_GDTF_FixtureChildNodeActivationGroupDef, XML_GDTF_ActivationGroupNode, [this] (IXMLFileNodePtr objNode) -> void
-                                     { 
-										 if ( CheckAbort() ) return;
-
-                                         GdtfActivationGroupPtr pActicationGroup = new GdtfActivationGroup();
-                                         
-                                         pActicationGroup->ReadFromNode(objNode);
-                                         
-                                         fActivationGroups.push_back(pActicationGroup);
-										
-                                         return;
-                                     });
-        
-        // ------------------------------------------------------------------------------------
-        // Read fFeatureGroups
-        GdtfConverter::TraverseNodes(attrDefs, XML_GDTF_FixtureChildNodeFeatureGroupDef, XML_GDTF_FeatureGroupNode, [this] (IXMLFileNodePtr objNode) -> void
-                                     {
-										 if ( CheckAbort() ) return;
-
-										 GdtfFeatureGroupPtr pFeatureGroup = new GdtfFeatureGroup();
-										 
-										 pFeatureGroup->ReadFromNode(objNode);
-										 
-										 fFeatureGroups.push_back( pFeatureGroup );
-
-                                         return;
-                                     });
-        
-        // ------------------------------------------------------------------------------------
-        // Read fAttributes
-        GdtfConverter::TraverseNodes(attrDefs, XML_GDTF_FixtureChildNodeAttributesDef, XML_GDTF_AttributeNode, [this] (IXMLFileNodePtr objNode) -> void
-                                     {
-										 if ( CheckAbort() ) return;
-
-										 GdtfAttributePtr pAttr = new GdtfAttribute();
-										 
-										 pAttr->ReadFromNode(objNode);
-										 
-										 fAttributes.push_back(pAttr);
-
-                                         return;
-                                     });
-    }
-
-	feedback.fTotalCompletedNodes++;
-	VectorworksMVR::FeedbackDispatcher::Send(feedback);
-    
-    
-	// ------------------------------------------------------------------------------------
-	// Read Wheels
-	GdtfConverter::TraverseNodes(pNode, XML_GDTF_FixtureChildNodeWheels, XML_GDTF_WheelNodeName, [this] (IXMLFileNodePtr objNode) -> void
-						{
-							if ( CheckAbort() ) return;
-
-							// Create the object
-							GdtfWheelPtr wheel = new GdtfWheel(this);
-							
-							// Read from node
-							wheel->ReadFromNode(objNode);
-							
-							// Add to list
-							fWheels.push_back(wheel);
-							
-							return;
-						});
-	
-	feedback.fTotalCompletedNodes++;
-	VectorworksMVR::FeedbackDispatcher::Send(feedback);
-	
-	// ------------------------------------------------------------------------------------
-	// Read Geometry
-	GdtfConverter::TraverseNodes(pNode, XML_GDTF_FixtureChildNodeModels, XML_GDTF_ModelNodeName, [this] (IXMLFileNodePtr objNode) -> void
-						{
-							if ( CheckAbort() ) return;
-
-							// Create the object
-							GdtfModel* model = new GdtfModel(this);
-							
-							// Read from node
-							model->ReadFromNode(objNode);
-							
-							// Add to list
-							fModels.push_back(model);
-							
-							return;
-						});
-
-	
-	feedback.fTotalCompletedNodes++;
-	VectorworksMVR::FeedbackDispatcher::Send(feedback);
-
-	
-	// ------------------------------------------------------------------------------------
-	// Read Geometries
-	GdtfConverter::TraverseMultiNodes(pNode, XML_GDTF_FixtureChildNodeGeomertries, [this] (IXMLFileNodePtr objNode,const TXString& childNodeName) -> void
-						{
-							if ( CheckAbort() ) return;
-
-							GdtfGeometryPtr geometry = nullptr;
-							if		(childNodeName == XML_GDTF_GeometryAxisNodeName)		{ geometry = new GdtfGeometryAxis(nullptr);}
-							else if (childNodeName == XML_GDTF_GeometryNodeName)			{ geometry = new GdtfGeometry(nullptr);}
-							else if (childNodeName == XML_GDTF_FilterBeamNodeName)			{ geometry = new GdtfGeometryBeamFilter(nullptr);}
-							else if (childNodeName == XML_GDTF_FilterColorNodeName)			{ geometry = new GdtfGeometryColorFilter(nullptr);}
-							else if (childNodeName == XML_GDTF_FilterGoboNodeName)			{ geometry = new GdtfGeometryGoboFilter(nullptr);}
-							else if (childNodeName == XML_GDTF_FilterShaperNodeName)		{ geometry = new GdtfGeometryShaperFilter(nullptr);}
-							else if (childNodeName == XML_GDTF_LampNodeName)				{ geometry = new GdtfGeometryLamp(nullptr);}
-							else if (childNodeName == XML_GDTF_MediaServerCameraNodeName)	{ geometry = new GdtfGeometryMediaServerCamera(nullptr);}
-							else if (childNodeName == XML_GDTF_MediaServerLayerNodeName)	{ geometry = new GdtfGeometryMediaServerLayer(nullptr);}
-							else if (childNodeName == XML_GDTF_MediaServerMasterNodeName)	{ geometry = new GdtfGeometryMediaServerMaster(nullptr);}
-							else if (childNodeName == XML_GDTF_GeometryReferenceNodeName)	{ geometry = new GdtfGeometryReference(nullptr);}
-							else if (childNodeName == XML_GDTF_DisplayNodeName)				{ geometry = new GdtfGeometryDisplay(nullptr);}
-							else if (childNodeName == XML_GDTF_LaserNodeName)				{ geometry = new GdtfGeometryLaser(nullptr);}
-							else if (childNodeName == XML_GDTF_WiringObjectNodeName)		{ geometry = new GdtfGeometryWiringObject(nullptr);}
-							else if (childNodeName == XML_GDTF_InventoryNodeName)			{ geometry = new GdtfGeometryInventory(nullptr);}
-							else if (childNodeName == XML_GDTF_StructureNodeName)			{ geometry = new GdtfGeometryStructure(nullptr);}
-							else if (childNodeName == XML_GDTF_SupportNodeName)				{ geometry = new GdtfGeometrySupport(nullptr);}
-							else if (childNodeName == XML_GDTF_MagnetNodeName)				{ geometry = new GdtfGeometryMagnet(nullptr);}
-							else															{ DSTOP((kEveryone,"There is a node that was not expected!")); }
-							
-							ASSERTN(kEveryone, geometry != nullptr);
-							if (geometry)
-							{
-								geometry->ReadFromNode(objNode);
-								fGeometries.push_back(geometry);
-							}
-							else
-							{
-								GdtfParsingError error (GdtfDefines::EGdtfParsingError::eNodeWrongName, objNode);
-								SceneData::GdtfFixture::AddError(error);
-							}
-							return;
-						});
-	
-	feedback.fTotalCompletedNodes++;
-	VectorworksMVR::FeedbackDispatcher::Send(feedback);
-	
-	// ------------------------------------------------------------------------------------
-	// Read dmxModes
-	GdtfConverter::TraverseNodes(pNode, XML_GDTF_FixtureChildNodeDMX, XML_GDTF_DMXModeNodeName, [this] (IXMLFileNodePtr objNode) -> void
-								 { 
-									 if ( CheckAbort() ) return;
-									 // Create the object
-									 GdtfDmxModePtr dmxMode = new GdtfDmxMode(this, "");
-									 
-									 // Read from node
-									 dmxMode->ReadFromNode(objNode);
-									 
-									 // Add to list
-									 fDmxModes.push_back(dmxMode);
-									
-
-									 return;
-								 });
-	
-	feedback.fTotalCompletedNodes++;
-	VectorworksMVR::FeedbackDispatcher::Send(feedback);
-
-	// ------------------------------------------------------------------------------------
-	// Read Revision
-	GdtfConverter::TraverseNodes(pNode, XML_GDTF_FixtureChildNodeRevisions, XML_GDTF_RevisionNodeName, [this] (IXMLFileNodePtr objNode) -> void
-								 {
-									 if ( CheckAbort() ) return;	
-									 // Create the object
-									 GdtfRevisionPtr rev = new GdtfRevision();
-									 
-									 // Read from node
-									 rev->ReadFromNode(objNode);
-									 
-									 // Add to list
-									 fRevisions.push_back(rev);
-									
-									 return;
-								 });
-
-	feedback.fTotalCompletedNodes++;
-	VectorworksMVR::FeedbackDispatcher::Send(feedback);
-
-	// ------------------------------------------------------------------------------------
-	// Read presets
-    // -
-	
-	// ------------------------------------------------------------------------------------
-	// Read macros
-    // -
-}
-
-void GdtfFixture::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_FixtureName);
-	needed.push_back(XML_GDTF_FixtureShortName);
-	needed.push_back(XML_GDTF_FixtureLongName);
-	needed.push_back(XML_GDTF_FixtureManufacturer);
-	needed.push_back(XML_GDTF_FixtureDescription);
-	needed.push_back(XML_GDTF_FixtureTypeID);
-	optional.push_back(XML_GDTF_FixtureThumbnail);
-	optional.push_back(XML_GDTF_LinkedUuid);
-	optional.push_back(XML_GDTF_FixtureThumbnailOffsetX);
-	optional.push_back(XML_GDTF_FixtureThumbnailOffsetY);
-	optional.push_back(XML_GDTF_FixtureCanHaveChildren);
-
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfFixture::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfFixture;
-}
-TXString GdtfFixture::GetNodeName()
-{
-	return XML_GDTF_FixtureNodeName;
-}
-
-bool GdtfFixture::ExportToFile(IZIPFilePtr& zipfile)
-{
-	//------------------------------------------------------------------------------------
-	// Create XML File
-	IXMLFilePtr xmlFile (IID_XMLFile);
-	xmlFile->CreateNew(XML_GDTF_ROOTNODENAME);
-	
-	
-	//------------------------------------------------------------------------------------
-	// Create root node
-	IXMLFileNodePtr rootNode;
-	if (VCOM_SUCCEEDED(xmlFile->GetRootNode( & rootNode)))
-	{
-		// Set Version Tag
-		rootNode->SetNodeAttributeValue(XML_GDTF_ROOTNODEATTRVERSION, XML_GDTF_CurrentVersion);
-		
-		// Write the fixture
-		this->WriteToNode(rootNode);
-	}
-	
-
-	//------------------------------------------------------------------------------------
-	// Write to disk
-	SceneData::IXMLFileIOBufferImpl buffer;
-	xmlFile->WriteBuffer( &buffer, eXMLEncoding_UTF8);
-	
-	
-	// Prepare Temp Storage for ZIP buffer
-	size_t	size = 0;
-	void*	data = nullptr;
-	
-	// Get the data from the XML
-	buffer.GetDataSize(size);
-	buffer.GetData(data);
-	
-	
-	// Copy into the Buffer for the ZIP
-	ISceneDataZipBuffer zipXmlBuffer;
-	zipXmlBuffer.SetData(data, size);
-	
-	
-	//------------------------------------------------------------------------------------
-	// Add to ZIP
-	SceneDataZip::AddFileToZip(zipfile, zipXmlBuffer, TXString(XML_GDTF_GDTFFILENAME) );
-
-	//------------------------------------------------------------------------------------
-	// Add the files the fixture was read with
-
-	for (auto it = fFileBuffers.begin(); it != fFileBuffers.end(); it++)
-	{
-		CZIPFileIOBufferImpl* bufferzip = new CZIPFileIOBufferImpl();
-		bufferzip->SetData((void*)it->second.first, it->second.second);
-		zipfile->AddFile(TXString(it->first.c_str()), bufferzip);
-
-		delete bufferzip;
-	}
-	
-	return true;
-}
-
-
-GdtfRevisionPtr GdtfFixture::AddRevision(const TXString& text, const STime& date)
-{
-	GdtfRevision* revision = new GdtfRevision();
-	revision->SetText(text);
-	revision->SetDate(date);
-	
-	fRevisions.push_back(revision);
-	
-	return revision;
-}
-
-GdtfAttributePtr GdtfFixture::AddAttribute(const TXString& name, const TXString& prettyName)
-{
-	GdtfAttributePtr attr = new GdtfAttribute(name, prettyName);
-
-	fAttributes.push_back(attr);
-	
-	return attr;
-}
-
-GdtfWheelPtr GdtfFixture::AddWheel(TXString name)
-{
-	// Create new Wheel
-	GdtfWheel* wheel = new GdtfWheel(this, name);
-
-	// Add to array
-	fWheels.push_back(wheel);
-	
-	return wheel;
-
-}
-
-GdtfModel* GdtfFixture::AddModel(const TXString& name)
-{
-	GdtfModel* model = new  GdtfModel(name, this);
-	fModels.push_back(model);
-	
-	return model;
-}
-
-GdtfGeometryPtr GdtfFixture::AddGeometryWithAxis(const TXString& name, GdtfModelPtr refToModel,const VWTransformMatrix& ma)
-{
-	GdtfGeometryAxis* axis = new GdtfGeometryAxis(name, refToModel, ma, nullptr);
-	
-	fGeometries.push_back(axis);
-	
-	return axis;
-}
-
-GdtfGeometryPtr GdtfFixture::AddGeometryWithLamp(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
-{
-	GdtfGeometryLamp* lamp = new GdtfGeometryLamp(name, refToModel, ma, nullptr);
-	
-	fGeometries.push_back(lamp);
-	
-	return lamp;
-}
-
-GdtfGeometryPtr GdtfFixture::AddGeometry(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
-{
-	GdtfGeometry* geo = new GdtfGeometry(name, refToModel, ma, nullptr);
-	
-	fGeometries.push_back(geo);
-	
-	return geo;
-}
-
-GdtfGeometryPtr GdtfFixture::AddGeometryReference(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
-{
-	GdtfGeometry* geo = new GdtfGeometryReference(name, refToModel, ma, nullptr);
-	
-	fGeometries.push_back(geo);
-	
-	return geo;
-}
-
-GdtfGeometryPtr GdtfFixture::AddGeometryShaper(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
-{
-	GdtfGeometry* geo = new GdtfGeometryShaperFilter(name, refToModel, ma, nullptr);
-	
-	fGeometries.push_back(geo);
-	
-	return geo;
-}
-
-GdtfGeometryPtr GdtfFixture::AddGeometryColor(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
-{
-	GdtfGeometry* geo = new GdtfGeometryColorFilter(name, refToModel, ma, nullptr);
-	
-	fGeometries.push_back(geo);
-	
-	return geo;
-}
-
-GdtfGeometryPtr GdtfFixture::AddGeometryGobo(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
-{
-	GdtfGeometry* geo = new GdtfGeometryGoboFilter(name, refToModel, ma, nullptr);
-	
-	fGeometries.push_back(geo);
-	
-	return geo;
-}
-
-GdtfGeometryPtr GdtfFixture::AddGeometryBeam(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
-{
-	GdtfGeometry* geo = new GdtfGeometryBeamFilter(name, refToModel, ma, nullptr);
-	
-	fGeometries.push_back(geo);
-	
-	return geo;
-}
-
-GdtfGeometryPtr GdtfFixture::AddGeometryMediaServerCamera(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
-{
-	GdtfGeometry* geo = new GdtfGeometryMediaServerCamera(name, refToModel, ma, nullptr);
-	
-	fGeometries.push_back(geo);
-	
-	return geo;
-}
-
-GdtfGeometryPtr GdtfFixture::AddGeometryMediaServerLayer(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
-{
-	GdtfGeometry* geo = new GdtfGeometryMediaServerLayer(name, refToModel, ma, nullptr);
-	
-	fGeometries.push_back(geo);
-	
-	return geo;
-}
-
-GdtfGeometryPtr GdtfFixture::AddGeometryMediaServerMaster(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
-{
-	GdtfGeometry* geo = new GdtfGeometryMediaServerMaster(name, refToModel, ma, nullptr);
-	
-	fGeometries.push_back(geo);
-	
-	return geo;
-}
-
-GdtfGeometryPtr GdtfFixture::AddGeometryDisplay(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
-{
-	GdtfGeometry* geo = new GdtfGeometryDisplay(name, refToModel, ma, nullptr);
-
-	fGeometries.push_back(geo);
-	
-	return geo;
-}
-
-GdtfGeometryPtr GdtfFixture::AddGeometryLaser(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
-{
-	GdtfGeometry* geo = new GdtfGeometryLaser(name, refToModel, ma, nullptr);
-
-	fGeometries.push_back(geo);
-	
-	return geo;
-}
-
-GdtfGeometryPtr GdtfFixture::AddGeometryWiringObject(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
-{
-	GdtfGeometry* geo = new GdtfGeometryWiringObject(name, refToModel, ma, nullptr);
-
-	fGeometries.push_back(geo);
-	
-	return geo;
-}
-
-GdtfGeometryPtr GdtfFixture::AddGeometryInventory(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
-{
-	GdtfGeometry* geo = new GdtfGeometryInventory(name, refToModel, ma, nullptr);
-
-	fGeometries.push_back(geo);
-	
-	return geo;
-}
-
-GdtfGeometryPtr GdtfFixture::AddGeometryStructure(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
-{
-	GdtfGeometry* geo = new GdtfGeometryStructure(name, refToModel, ma, nullptr);
-
-	fGeometries.push_back(geo);
-	
-	return geo;
-}
-
-GdtfGeometryPtr GdtfFixture::AddGeometrySupport(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
-{
-	GdtfGeometry* geo = new GdtfGeometrySupport(name, refToModel, ma, nullptr);
-
-	fGeometries.push_back(geo);
-	
-	return geo;
-}
-
-GdtfGeometryPtr GdtfFixture::AddGeometryMagnet(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
-{
-	GdtfGeometry* geo = new GdtfGeometryMagnet(name, refToModel, ma, nullptr);
-
-	fGeometries.push_back(geo);
-	
-	return geo;
-}
-
-GdtfDmxMode* GdtfFixture::AddDmxMode(const TXString& name)
-{
-	GdtfDmxMode* mode = new  GdtfDmxMode(this, name);
-	
-	fDmxModes.push_back(mode);
-	
-	return mode;
-}
-
-GdtfUserPresetPtr GdtfFixture::AddUserPreset()
-{
-	GdtfUserPresetPtr preset = new  GdtfUserPreset();
-	
-	fPresets.push_back(preset);
-	
-	return preset;
-}
-
-GdtfFeatureGroupPtr GdtfFixture::AddFeatureGroup(const TXString& name, const TXString& prettyName)
-{
-	GdtfFeatureGroupPtr featureGroup = new  GdtfFeatureGroup(name, prettyName);
-	
-	fFeatureGroups.push_back(featureGroup);
-	
-	return featureGroup;
-}
-
-GdtfActivationGroupPtr GdtfFixture::AddActivationGroup(const TXString& name)
-{
-	GdtfActivationGroupPtr actGroup = new  GdtfActivationGroup(name);
-	
-	fActivationGroups.push_back(actGroup);
-	
-	return actGroup;
-}
-
-const TGdtfWheelArray& GdtfFixture::GetWheelArray()
-{
-	return fWheels;
-}
-
-const TGdtfActivationGroupArray& GdtfFixture::GetActivationGroupArray()
-{
-    return fActivationGroups;
-}
-
-const TGdtfFeatureGroupArray& GdtfFixture::GetFeatureGroupArray()
-{
-    return fFeatureGroups;
-}
-
-const TGdtfAttributeArray& GdtfFixture::GetAttributeArray()
-{
-    return fAttributes;
-}
-
-const TGdtfGeometryArray& GdtfFixture::GetGeometryArray()
-{
-	return fGeometries;
-}
-
-const TGdtfDmxModeArray& GdtfFixture::GetDmxModeArray()
-{
-	return fDmxModes;
-}
-
-const TGdtfModelArray& GdtfFixture::GetModelArray()
-{
-    return fModels;
-}
-
-const TGdtfRevisionArray& GdtfFixture::GetRevisionArray()
-{
-    return fRevisions;
-}
-
-const TGdtfUserPresetArray& GdtfFixture::GetPresetArray()
-{
-    return fPresets;
-}
-
-const std::map<std::string, std::pair<char*, size_t> >& GdtfFixture::GetFileBuffers()
-{
-	return fFileBuffers;
-}
-
-GdtfProtocols& GdtfFixture::GetProtocollContainer()
-{
-	return fProtocollContainer;
-}
-
-const TXString& GdtfFixture::GetName() const
-{
-	return fName;
-}
-
-const TXString& GdtfFixture::GetShortName() const
-{
-    return fShortName;
-}
-
-const TXString& GdtfFixture::GetLongName() const
-{
-    return fLongName;
-}
-
-const TXString& GdtfFixture::GetManufacturer() const
-{
-    return fManufacturer;
-}
-
-const TXString& GdtfFixture::GetFixtureTypeDescription() const
-{
-    return fFixtureTypeDescription;
-}
-
-GdtfFixtureGUID GdtfFixture::GetGuid() const
-{
-    return fGuid;
-}
-
-GdtfFixtureGUID GdtfFixture::GetLinkedGuid() const
-{
-	return fLinkedGuid;
-}
-
-bool GdtfFixture::HasLinkedGuid() const
-{
-	return fHasLinkedGuid;
-}
-
-const TXString& GdtfFixture::GetThumbnailName() const
-{
-    return fTumbnailName;
-}
-
-Sint32 GdtfFixture::GetThumbnailOffsetX() const
-{
-    return fThumbnailOffsetX;
-}
-
-Sint32 GdtfFixture::GetThumbnailOffsetY() const
-{
-    return fThumbnailOffsetY;
-}
-
-bool GdtfFixture::GetCanHaveChildren() const
-{
-    return fCanHaveChildren;
-}
-
-TXString GdtfFixture::GetFullThumbNailPath (const TXString& fileExtension) 
-{
-	// Set to store
-	TXString fileName = fTumbnailName + fileExtension;
-
-    // Check if file exists:
-    IFileIdentifierPtr file (IID_FileIdentifier);
-    file->Set(fWorkingFolder, fileName);
-    
-    bool exists = false;  
-	VCOM_SUCCEEDED(file->ExistsOnDisk(exists));
-    if ( ! exists)	{ return ""; }
-
-	TXString fullPath;
-	file->GetFileFullPath(fullPath);
-
-	return fullPath;
-}
-
-const GdtfPNGFile& GdtfFixture::GetPNGThumnailFullPath()
-{
-	// Set to store
-    fTumbnailFullPath_PNG = GetFullThumbNailPath(".png");
-
-	return fTumbnailFullPath_PNG;
-}
-
-const TXString & SceneData::GdtfFixture::GetSVGThumnailFullPath()
-{
-	// Set to store
-    fTumbnailFullPath_SVG = GetFullThumbNailPath(".svg");
-
-	return fTumbnailFullPath_SVG;
-}
-
-GdtfPhysicalDescriptions& SceneData::GdtfFixture::GetPhysicalDesciptionsContainer()
-{
-    return fPhysicalDesciptions;
-}
-
-Sint32 GdtfFixture::GetMajorVersion() const
-{
-	return fMajorVersion;
-}
-
-Sint32 GdtfFixture::GetMinorVersion() const
-{
-	return fMinorVersion;
-}
-
-void GdtfFixture::SetName(const TXString& name)
-{
-	fName = name;
-}
-
-void GdtfFixture::SetShortName(const TXString& shortName)
-{
-	fShortName = shortName;
-}
-
-void GdtfFixture::SetLongName(const TXString& longName)
-{
-	fLongName = longName;
-}
-
-void GdtfFixture::SetManufacturer(const TXString& manu)
-{
-	fManufacturer = manu;
-}
-
-void GdtfFixture::SetFixtureTypeDescription(const TXString& desc)
-{
-	fFixtureTypeDescription = desc;
-}
-
-void GdtfFixture::SetGuid(const VWFC::Tools::VWUUID& uuid)
-{
-	fGuid = uuid;
-}
-
-void GdtfFixture::SetLinkedGuid(const VWFC::Tools::VWUUID& uuid)
-{
-	fHasLinkedGuid = true;
-	fLinkedGuid = uuid;
-}
-
-void GdtfFixture::SetThumbnailName(const TXString& fileName)
-{
-	fTumbnailName = fileName;
-}
-
-void GdtfFixture::SetThumbnailOffsetX(Sint32 thumbnailOffsetX)
-{
-	fThumbnailOffsetX = thumbnailOffsetX;
-}
-
-void GdtfFixture::SetThumbnailOffsetY(Sint32 thumbnailOffsetY)
-{
-	fThumbnailOffsetY = thumbnailOffsetY;
-}
-
-void GdtfFixture::SetCanHaveChildren(bool canHaveChildren)
-{
-	fCanHaveChildren = canHaveChildren;
-}
-
-void GdtfFixture::SetMajorVersion( Sint32 majorVersion )
-{
-	fMajorVersion = majorVersion;
-}
-
-void GdtfFixture::SetMinorVersion( Sint32 minorVersion )
-{
-	fMinorVersion = minorVersion;
-}
-
-//------------------------------------------------------------------------------------
-// Point
-SceneData::GdtfPoint::GdtfPoint()
-{
-	fDMXPercentage = 0;
-	fCFC3 = 0;
-	fCFC2 = 0;
-	fCFC1 = 0;
-	fCFC0 = 0;
-}
-
-SceneData::GdtfPoint::GdtfPoint(double DMXPercentage, double CFC3, double CFC2, double CFC1, double CFC0)
-{
-	fDMXPercentage = DMXPercentage;
-	fCFC3 = CFC3;
-	fCFC2 = CFC2;
-	fCFC1 = CFC1;
-	fCFC0 = CFC0;
-}
-
-SceneData::GdtfPoint::~GdtfPoint()
-{
-}
-
-EGdtfObjectType SceneData::GdtfPoint::GetObjectType()
-{
-    return EGdtfObjectType::eGdtfPoint;
-}
-
-// Getters
-double SceneData::GdtfPoint::GetDMXPercentage() const
-{
-	return fDMXPercentage;
-}
-
-double SceneData::GdtfPoint::GetCFC3() const
-{
-	return fCFC3;
-}
-
-double SceneData::GdtfPoint::GetCFC2() const
-{
-	return fCFC2;
-}
-
-double SceneData::GdtfPoint::GetCFC1() const
-{
-	return fCFC1;
-}
-
-double SceneData::GdtfPoint::GetCFC0() const
-{
-	return fCFC0;
-}
-        
-// Setters
-void SceneData::GdtfPoint::SetDMXPercentage(double dmxPercentage)
-{
-	fDMXPercentage = dmxPercentage;
-}
-
-void SceneData::GdtfPoint::SetCFC3(double CFC3)
-{
-	fCFC3 = CFC3;
-}
-
-void SceneData::GdtfPoint::SetCFC2(double CFC2)
-{
-	fCFC2 = CFC2;
-}
-
-void SceneData::GdtfPoint::SetCFC1(double CFC1)
-{
-	fCFC1 = CFC1;
-}
-
-void SceneData::GdtfPoint::SetCFC0(double CFC0)
-{
-	fCFC0 = CFC0;
-}
-
-TXString SceneData::GdtfPoint::GetNodeName()
-{
-    return XML_GDTF_Point;
-}
-
-void SceneData::GdtfPoint::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnPrintToFile(pNode);
-	
-	//------------------------------------------------------------------------------------
-    // Print the attributes
-	pNode->SetNodeAttributeValue(XML_GDTF_PointDMXPercentage, 	GdtfConverter::ConvertDouble(fDMXPercentage) );
-	pNode->SetNodeAttributeValue(XML_GDTF_PointCFC3, 			GdtfConverter::ConvertDouble(fCFC3) );
-	pNode->SetNodeAttributeValue(XML_GDTF_PointCFC2, 			GdtfConverter::ConvertDouble(fCFC2) );
-	pNode->SetNodeAttributeValue(XML_GDTF_PointCFC1, 			GdtfConverter::ConvertDouble(fCFC1) );
-	pNode->SetNodeAttributeValue(XML_GDTF_PointCFC0, 			GdtfConverter::ConvertDouble(fCFC0) );
-
-}
-
-void SceneData::GdtfPoint::OnReadFromNode(const IXMLFileNodePtr & pNode)
-{
-    //------------------------------------------------------------------------------------
-    // Call the parent
-    GdtfObject::OnReadFromNode(pNode);
-
-    //------------------------------------------------------------------------------------
-    // Get the attributes	
-    TXString dmxPercentage;	pNode->GetNodeAttributeValue(XML_GDTF_PointDMXPercentage, dmxPercentage); 	GdtfConverter::ConvertDouble(dmxPercentage, pNode, fDMXPercentage);
-	TXString cfc3;			pNode->GetNodeAttributeValue(XML_GDTF_PointCFC3, cfc3); 					GdtfConverter::ConvertDouble(cfc3, pNode, fCFC3);
-	TXString cfc2;			pNode->GetNodeAttributeValue(XML_GDTF_PointCFC2, cfc2); 					GdtfConverter::ConvertDouble(cfc2, pNode, fCFC2);
-	TXString cfc1;			pNode->GetNodeAttributeValue(XML_GDTF_PointCFC1, cfc1); 					GdtfConverter::ConvertDouble(cfc1, pNode, fCFC1);
-	TXString cfc0;			pNode->GetNodeAttributeValue(XML_GDTF_PointCFC0, cfc0); 					GdtfConverter::ConvertDouble(cfc0, pNode, fCFC0);
-}
-
-void SceneData::GdtfPoint::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	optional.push_back(XML_GDTF_PointDMXPercentage);
-	optional.push_back(XML_GDTF_PointCFC3);
-	optional.push_back(XML_GDTF_PointCFC2);
-	optional.push_back(XML_GDTF_PointCFC1);
-	optional.push_back(XML_GDTF_PointCFC0);
-
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-//------------------------------------------------------------------------------------
-// DMXProfile
-
-SceneData::GdtfDMXProfile::GdtfDMXProfile()
-{
-	fUniqueName = "";
-}
-
-SceneData::GdtfDMXProfile::~GdtfDMXProfile()
-{
-	for(GdtfPointPtr point : fPoints) { delete point; }
-}
-
-EGdtfObjectType SceneData::GdtfDMXProfile::GetObjectType()
-{
-    return EGdtfObjectType::eGdtfDMXProfile;
-}
-
-TXString SceneData::GdtfDMXProfile::GetNodeReference()
-{
-	return fUniqueName;
-}
-
-const TXString&	SceneData::GdtfDMXProfile::GetName() const
-{
-	return fUniqueName;
-}
-
-TGdtfPointArray SceneData::GdtfDMXProfile::GetPointArray() const
-{
-	return fPoints;
-}
-
-void SceneData::GdtfDMXProfile::SetName(const TXString& name)
-{
-	fUniqueName = name;
-}
-
-GdtfPointPtr SceneData::GdtfDMXProfile::AddPoint(double DMXPercentage, double CFC3, double CFC2, double CFC1, double CFC0)
-{
-	GdtfPointPtr point = new GdtfPoint(DMXPercentage, CFC3, CFC2, CFC1, CFC0);
-	fPoints.push_back(point);
-	return point;
-}
-
-TXString SceneData::GdtfDMXProfile::GetNodeName()
-{
-    return XML_GDTF_DMX_Profile;
-}
-
-void SceneData::GdtfDMXProfile::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnPrintToFile(pNode);
-	
-	//------------------------------------------------------------------------------------
-    // Print the attributes
-    pNode->SetNodeAttributeValue(XML_GDTF_DMX_ProfileName, fUniqueName);
-
-    //------------------------------------------------------------------------------------
-    // Print the children
-    for (GdtfPoint* point : fPoints)
-    {
-        point->WriteToNode(pNode);
-    }
-}
-
-void SceneData::GdtfDMXProfile::OnReadFromNode(const IXMLFileNodePtr & pNode)
-{
-    //------------------------------------------------------------------------------------
-    // Call the parent
-    GdtfObject::OnReadFromNode(pNode);
-
-    //------------------------------------------------------------------------------------
-    // Get the attributes	
-    pNode->GetNodeAttributeValue(XML_GDTF_DMX_ProfileName, fUniqueName);
-
-    // Read the children
-    GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_Point, [this](IXMLFileNodePtr objNode) -> void
-    {
-		if ( CheckAbort() ) return;
-
-        GdtfPoint* point = new GdtfPoint();
-
-        point->ReadFromNode(objNode);
-
-        fPoints.push_back(point);
-
-        return;
-    });
-}
-
-void SceneData::GdtfDMXProfile::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	optional.push_back(XML_GDTF_DMX_ProfileName);
-
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-SceneData::GdtfCRIGroup::GdtfCRIGroup()
-{
-    fColorTemperature = 6000;
-}
-
-SceneData::GdtfCRIGroup::GdtfCRIGroup(double colorTemp)
-{
-    fColorTemperature = colorTemp;
-}
-
-SceneData::GdtfCRIGroup::~GdtfCRIGroup()
-{
-	for(GdtfCRIPtr ptr : fCRI_Array) { delete ptr; }
-}
-
-EGdtfObjectType SceneData::GdtfCRIGroup::GetObjectType()
-{
-    return EGdtfObjectType::eGdtfCRIGroup;
-}
-
-double SceneData::GdtfCRIGroup::GetColorTemperature() const
-{
-    return fColorTemperature;
-}
-
-TGdtf_CRIArray SceneData::GdtfCRIGroup::GetCRI_Array() const
-{
-    return fCRI_Array;
-}
-
-void SceneData::GdtfCRIGroup::SetColorTemperature(double val)
-{
-    fColorTemperature = val;
-}
-
-GdtfCRIPtr SceneData::GdtfCRIGroup::Add_CRI(EGdtfColorSample ces, Sint32 colorTemp)
-{
-    GdtfCRIPtr cri = new GdtfCRI(ces, colorTemp);
-    
-    fCRI_Array.push_back(cri);
-
-    return cri;
-}
-
-TXString SceneData::GdtfCRIGroup::GetNodeName()
-{
-    return XML_GDTF_ColorRenderingIndexGroup;
-}
-
-void SceneData::GdtfCRIGroup::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-    //------------------------------------------------------------------------------------
-    // Call the parent
-    GdtfObject::OnPrintToFile(pNode);
-
-    //------------------------------------------------------------------------------------
-    // Print the attributes
-    pNode->SetNodeAttributeValue(XML_GDTF_ColorRenderingIndexGroup_ColorTemp, GdtfConverter::ConvertDouble(fColorTemperature) );
-
-    //------------------------------------------------------------------------------------
-    // Print the children
-    for (GdtfCRI* cri : fCRI_Array)
-    {
-        cri->WriteToNode(pNode);
-    }
-}
-
-void SceneData::GdtfCRIGroup::OnReadFromNode(const IXMLFileNodePtr & pNode)
-{
-    //------------------------------------------------------------------------------------
-    // Call the parent
-    GdtfObject::OnReadFromNode(pNode);
-
-    //------------------------------------------------------------------------------------
-    // Get the attributes	
-    TXString colorTempStr; pNode->GetNodeAttributeValue(XML_GDTF_ColorRenderingIndexGroup_ColorTemp, colorTempStr);
-    GdtfConverter::ConvertDouble(colorTempStr, pNode, fColorTemperature);
-
-    // Read the children
-    GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_ColorRenderingIndex, [this](IXMLFileNodePtr objNode) -> void
-    {
-		if ( CheckAbort() ) return;
-
-        GdtfCRI* cri = new GdtfCRI();
-
-        cri->ReadFromNode(objNode);
-
-        fCRI_Array.push_back(cri);
-
-        return;
-    });
-}
-
-void SceneData::GdtfCRIGroup::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	optional.push_back(XML_GDTF_ColorRenderingIndexGroup_ColorTemp);
-
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-SceneData::GdtfCRI::GdtfCRI()
-{
-    fCES = EGdtfColorSample::CES_01;  // Default CES01
-    fCRI = 100;          // The color rendering index for this sample.Size: 1 byte; Default value : 100
-}
-
-SceneData::GdtfCRI::GdtfCRI(EGdtfColorSample ces, Uint8 cri)
-{
-    fCES = ces;
-    fCRI = cri;
-}
-
-SceneData::GdtfCRI::~GdtfCRI()
-{
-}
-
-EGdtfObjectType SceneData::GdtfCRI::GetObjectType()
-{
-    return EGdtfObjectType::eGdtfCRI;
-}
-
-EGdtfColorSample SceneData::GdtfCRI::GetColorSample() const
-{
-    return fCES;
-}
-
-Uint8 SceneData::GdtfCRI::GetColorRenderingIndex() const
-{
-    return fCRI;
-}
-
-void SceneData::GdtfCRI::SetColorSample(EGdtfColorSample val)
-{
-    fCES = val;
-}
-
-void SceneData::GdtfCRI::SetColorRenderingIndex(Uint8 val)
-{
-    fCRI = val;
-}
-
-TXString SceneData::GdtfCRI::GetNodeName()
-{
-    return XML_GDTF_ColorRenderingIndex;
-}
-
-void SceneData::GdtfCRI::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-    //------------------------------------------------------------------------------------
-    // Call the parent
-    GdtfObject::OnPrintToFile(pNode);
-
-    //------------------------------------------------------------------------------------
-    // Print the attributes
-    pNode->SetNodeAttributeValue(XML_GDTF_ColorRenderingIndex_CES, GdtfConverter::ConvertEGdtfColorSampleEnum(fCES) );
-    
-    pNode->SetNodeAttributeValue(XML_GDTF_ColorRenderingIndex_CRI, GdtfConverter::ConvertInteger(fCRI) );
-}
-
-void SceneData::GdtfCRI::OnReadFromNode(const IXMLFileNodePtr & pNode)
-{
-    //------------------------------------------------------------------------------------
-    // Call the parent
-    GdtfObject::OnReadFromNode(pNode);
-
-    //------------------------------------------------------------------------------------
-    // Get the attributes	
-    TXString cesStr;  pNode->GetNodeAttributeValue(XML_GDTF_ColorRenderingIndex_CES, cesStr);
-    GdtfConverter::ConvertEGdtfColorSampleEnum(cesStr, pNode, fCES);
-    //
-    TXString colorRenderingIndexStr; pNode->GetNodeAttributeValue(XML_GDTF_ColorRenderingIndex_CRI, colorRenderingIndexStr);
-    GdtfConverter::ConvertInteger(colorRenderingIndexStr, pNode, fCRI);
-}
-
-void SceneData::GdtfCRI::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	optional.push_back(XML_GDTF_ColorRenderingIndex_CES);
-	optional.push_back(XML_GDTF_ColorRenderingIndex_CRI);
-
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-
-TXString SceneData::GdtfFTRDM::GetNodeName()
-{
-	return XML_GDTF_FTRDM;
-}
-
-void SceneData::GdtfFTRDM::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnPrintToFile(pNode);
-	//------------------------------------------------------------------------------------
-	// Print the attributes
-	pNode->SetNodeAttributeValue(XML_GDTF_FTRDM_AttrManufacturerID, GdtfConverter::ConvertHexValue(fManufacturerID) );
-	pNode->SetNodeAttributeValue(XML_GDTF_FTRDM_AttrDeviceModelID,  GdtfConverter::ConvertHexValue(fDeviceModelID)  );	 
-	//------------------------------------------------------------------------------------
-    // Print the Childs
-	for (GdtfSoftwareVersionIDPtr softID : fSoftwareVersionIDArray)
-	{
-		softID->WriteToNode(pNode);
-	}
-}
-
-void SceneData::GdtfFTRDM::OnReadFromNode(const IXMLFileNodePtr & pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnReadFromNode(pNode);
-	
-	//------------------------------------------------------------------------------------
-	// Get the attributes
-	TXString manufactStr; pNode->GetNodeAttributeValue(XML_GDTF_FTRDM_AttrManufacturerID, manufactStr);
-	GdtfConverter::ConvertHexValue(manufactStr, pNode, fManufacturerID);
-	
-	TXString deviceModelStr;  pNode->GetNodeAttributeValue(XML_GDTF_FTRDM_AttrDeviceModelID, deviceModelStr);
-	GdtfConverter::ConvertHexValue(deviceModelStr, pNode, fDeviceModelID);
-    
-    //------------------------------------------------------------------------------------
-	// Read the childs
-	GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_SoftwareVersionID_NodeNam, [this](IXMLFileNodePtr objNode) -> void
-								 {
-									 if ( CheckAbort() ) return;
-
-									 GdtfSoftwareVersionIDPtr  softID = new GdtfSoftwareVersionID();
-									 
-									 softID->ReadFromNode(objNode);
-									 
-									 fSoftwareVersionIDArray.push_back(softID);
-									 return;
-								 });	
-}
-
-void SceneData::GdtfFTRDM::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_FTRDM_AttrManufacturerID);
-	needed.push_back(XML_GDTF_FTRDM_AttrDeviceModelID);	
-
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-SceneData::GdtfFTRDM::GdtfFTRDM()
-{
-	fManufacturerID = 0;
-	fDeviceModelID  = 0;
-}
-
-SceneData::GdtfFTRDM::GdtfFTRDM(size_t manufacturerID, size_t deviceModelID) : GdtfFTRDM()
-{
-	fManufacturerID = manufacturerID;
-	fDeviceModelID  = deviceModelID;
-}
-
-SceneData::GdtfFTRDM::~GdtfFTRDM()
-{	    
-     for (GdtfSoftwareVersionID* obj : fSoftwareVersionIDArray){ delete obj; }
-}
-
-EGdtfObjectType SceneData::GdtfFTRDM::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfFTRDM;
-}
-
-size_t SceneData::GdtfFTRDM::GetManufacturerID() const
-{
-	return fManufacturerID;
-}
-
-size_t SceneData::GdtfFTRDM::GetDeviceModelID() const
-{
-	return fDeviceModelID;
-}
-
-const TGdtfSoftwareVersionIDArray& SceneData::GdtfFTRDM::GetSoftwareVersIDs() const
-{
-	return fSoftwareVersionIDArray;
-}
-
-void SceneData::GdtfFTRDM::SetManufacturerID(size_t val)
-{
-	fManufacturerID = val;
-}
-
-void SceneData::GdtfFTRDM::SetDeviceModelID(size_t val)
-{
-	fDeviceModelID = val;
-}
-
-
-GdtfSoftwareVersionIDPtr SceneData::GdtfFTRDM::AddSoftwareVersID(size_t value)
-{
-    GdtfSoftwareVersionIDPtr softID = new GdtfSoftwareVersionID(value);
-	
-    fSoftwareVersionIDArray.push_back(softID);
-
-    return softID;
-}
-
-SceneData::GdtfDMXPersonality::GdtfDMXPersonality()
-{
-    fValue = 0;
-    fDMXMode = nullptr;
-    fDMXMode_Unresolved = "";
-}
-
-SceneData::GdtfDMXPersonality::GdtfDMXPersonality(size_t value, GdtfDmxModePtr dmxMode)
-{
-    fValue   = value;
-    fDMXMode = dmxMode;
-    fDMXMode_Unresolved = "";
-}
-
-SceneData::GdtfDMXPersonality::~GdtfDMXPersonality()
-{     
-}
-
-EGdtfObjectType SceneData::GdtfDMXPersonality::GetObjectType()
-{
-    return EGdtfObjectType::eGdtfDMXPersonality;
-}
-
-size_t SceneData::GdtfDMXPersonality::GetValue() const
-{
-    return fValue;
-}
-
-const TXString & SceneData::GdtfDMXPersonality::GetUnresolvedDMXMode() const
-{
-    return fDMXMode_Unresolved;
-}
-
-GdtfDmxModePtr SceneData::GdtfDMXPersonality::GetDMXMode() const
-{
-    return fDMXMode;
-}
-
-void SceneData::GdtfDMXPersonality::SetValue(size_t val)
-{
-    fValue = val;
-}
-
-void SceneData::GdtfDMXPersonality::SetDMXMode(GdtfDmxModePtr mode)
-{
-    fDMXMode = mode;
-}
-
-TXString SceneData::GdtfDMXPersonality::GetNodeName()
-{
-    return XML_GDTF_DMXPersonalityNodeNam;
-}
-
-void GdtfDMXPersonality::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-    //------------------------------------------------------------------------------------
-    // Call the parent
-    GdtfObject::OnPrintToFile(pNode);
-
-    //------------------------------------------------------------------------------------
-    // Print the attributes
-    pNode->SetNodeAttributeValue(XML_GDTF_DMXPersonalityValue, GdtfConverter::ConvertHexValue(fValue));
-    pNode->SetNodeAttributeValue(XML_GDTF_DMXPersonalityDMXMode, fDMXMode->GetModeName() );
-}
-
-void GdtfDMXPersonality::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-    //------------------------------------------------------------------------------------
-    // Call the parent
-    GdtfObject::OnReadFromNode(pNode);
-
-    //------------------------------------------------------------------------------------
-    // Get the attributes	
-    TXString valueStr;
-    pNode->GetNodeAttributeValue(XML_GDTF_DMXPersonalityValue, valueStr);
-    GdtfConverter::ConvertHexValue(valueStr, pNode, fValue);
-
-    pNode->GetNodeAttributeValue(XML_GDTF_DMXPersonalityDMXMode, fDMXMode_Unresolved);
-}
-
-SceneData::GdtfProtocols::GdtfProtocols()
-{
-	fRDM              = nullptr;
-	fArtNet           = nullptr;
-	fsACN             = nullptr;
-	fKiNET            = nullptr;
-	fPosiStageNet     = nullptr;
-	fOpenSoundControl = nullptr;
-	fCITP             = nullptr;
-}
-
-SceneData::GdtfProtocols::~GdtfProtocols()
-{
-	if (fRDM)              {delete fRDM;}
-	if (fArtNet)           {delete fArtNet;}
-	if (fsACN)             {delete fsACN;}
-	if (fKiNET)            {delete fKiNET;}
-	if (fPosiStageNet)     {delete fPosiStageNet;}
-	if (fOpenSoundControl) {delete fOpenSoundControl;}
-	if (fCITP)             {delete fCITP;}
-}
-
-EGdtfObjectType SceneData::GdtfProtocols::GetObjectType()
-{
-	return EGdtfObjectType::eProtocols;
-}
-
-GdtfFTRDM * SceneData::GdtfProtocols::GetRDM()
-{
-	return fRDM;
-}
-
-GdtfArtNet * SceneData::GdtfProtocols::GetArtNet()
-{
-	return fArtNet;
-}
-
-GdtfsAcn * SceneData::GdtfProtocols::GetSACN()
-{
-	return fsACN;
-}
-
-GdtfKiNET * SceneData::GdtfProtocols::GetKiNET()
-{
-	return fKiNET;
-}
-
-GdtfPosiStageNet * SceneData::GdtfProtocols::GetPosiStageNet()
-{
-	return fPosiStageNet;
-}
-
-GdtfOpenSoundControl * SceneData::GdtfProtocols::GetOpenSoundControl()
-{
-	return fOpenSoundControl;
-}
-
-GdtfCITP * SceneData::GdtfProtocols::GetCITP()
-{
-	return fCITP;
-}
-
-GdtfFTRDM * SceneData::GdtfProtocols::CreateRDM()
-{
-	fRDM = new GdtfFTRDM();
-	return fRDM;
-}
-
-GdtfArtNet* SceneData::GdtfProtocols::CreateArtNet()
-{
-	fArtNet = new GdtfArtNet();
-	return fArtNet;
-}
-
-GdtfsAcn* SceneData::GdtfProtocols::CreateSACN()
-{
-	fsACN = new GdtfsAcn();
-	return fsACN;
-}
-
-void SceneData::GdtfProtocols::SetKiNET(GdtfKiNET * val)
-{
-	fKiNET = val;
-}
-
-void SceneData::GdtfProtocols::SetPosiStageNet(GdtfPosiStageNet * val)
-{
-	fPosiStageNet = val;
-}
-
-void SceneData::GdtfProtocols::SetOpenSoundControl(GdtfOpenSoundControl * val)
-{
-	fOpenSoundControl = val;
-}
-
-void SceneData::GdtfProtocols::SetCITP(GdtfCITP * val)
-{
-	fCITP = val;
-}
-
-TXString SceneData::GdtfProtocols::GetNodeName()
-{
-	return XML_GDTF_Protocols;
-}
-
-void SceneData::GdtfProtocols::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnPrintToFile(pNode);
-	//------------------------------------------------------------------------------------
-	// Print the childs
-	if (fRDM)              { fRDM->WriteToNode(pNode); }
-	if (fArtNet)           { fArtNet->WriteToNode(pNode); }
-	if (fsACN)             { fsACN->WriteToNode(pNode); }
-	if (fKiNET)            { fKiNET->WriteToNode(pNode); }
-	if (fPosiStageNet)     { fPosiStageNet->WriteToNode(pNode); }
-	if (fOpenSoundControl) { fOpenSoundControl->WriteToNode(pNode); }
-	if (fCITP)             { fCITP->WriteToNode(pNode); }
-}
-
-void SceneData::GdtfProtocols::OnReadFromNode(const IXMLFileNodePtr & pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	 GdtfObject::OnReadFromNode(pNode);
-	
-	//------------------------------------------------------------------------------------
-	// Read the childs	
-	IXMLFileNodePtr ftrdmNode;
-	if (VCOM_SUCCEEDED( pNode->GetChildNode(XML_GDTF_FTRDM, &ftrdmNode)) )
-	{
-		fRDM = new GdtfFTRDM();
-		fRDM->ReadFromNode(ftrdmNode);
-	}
-	
-	IXMLFileNodePtr artNetNode;
-	if (VCOM_SUCCEEDED(pNode->GetChildNode(XML_GDTF_ArtNet, &artNetNode)))
-	{
-		fArtNet = new GdtfArtNet();
-		fArtNet->ReadFromNode(artNetNode);
-	}
-	
-	IXMLFileNodePtr sAcnNode;
-	if (VCOM_SUCCEEDED(pNode->GetChildNode(XML_GDTF_sACN, &sAcnNode)))
-	{
-		fsACN = new GdtfsAcn();
-		fsACN->ReadFromNode(sAcnNode);
-	}
-	
-	IXMLFileNodePtr kinetNode;
-	if (VCOM_SUCCEEDED(pNode->GetChildNode(XML_GDTF_KiNET, &kinetNode)))
-	{
-		fKiNET = new GdtfKiNET();
-		fKiNET->ReadFromNode(kinetNode);
-	}
-	
-	IXMLFileNodePtr posiStageNetNode;
-	if (VCOM_SUCCEEDED(pNode->GetChildNode(XML_GDTF_PosiStageNet, &posiStageNetNode)))
-	{
-		fPosiStageNet = new GdtfPosiStageNet();
-		fPosiStageNet->ReadFromNode(posiStageNetNode);
-	}
-	
-	IXMLFileNodePtr openSoundControlNode;
-	if (VCOM_SUCCEEDED(pNode->GetChildNode(XML_GDTF_OpenSoundControl, &openSoundControlNode)))
-	{
-		fOpenSoundControl = new GdtfOpenSoundControl();
-		fOpenSoundControl->ReadFromNode(openSoundControlNode);
-	}
-	
-	IXMLFileNodePtr ctipNode;
-	if (VCOM_SUCCEEDED(pNode->GetChildNode(XML_GDTF_CITP, &ctipNode)))
-	{
-		fCITP = new GdtfCITP();
-		fCITP->ReadFromNode(ctipNode);
-	}
-}
-
-void SceneData::GdtfProtocols::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-//------------------------------------------------------------------------------------
-// GdtfMap
-GdtfMap::GdtfMap()
-{
-}
-
-GdtfMap::GdtfMap(Uint32 key, Uint32 value)
-{
-	fKey 	= key;
-	fValue 	= value;
-}
-
-GdtfMap::~GdtfMap()
-{
-}
-
-Uint32 GdtfMap::GetKey() const
-{
-	return fKey;
-}
-
-Uint32 GdtfMap::GetValue() const
-{
-	return fValue;
-}
-
-void GdtfMap::SetKey(Uint32 key)
-{
-	fKey = key;
-}
-
-void GdtfMap::SetValue(Uint32 value)
-{
-	fValue = value;
-}
-
-void GdtfMap::OnPrintToFile(IXMLFileNodePtr pNode) 
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnPrintToFile(pNode);
-
-	pNode->SetNodeAttributeValue(XML_GDTF_MapKey,	GdtfConverter::ConvertInteger(fKey));
-	pNode->SetNodeAttributeValue(XML_GDTF_MapValue,	GdtfConverter::ConvertInteger(fValue));
-}
-
-void GdtfMap::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnReadFromNode(pNode);
-
-	TXString key;	pNode->GetNodeAttributeValue(XML_GDTF_MapKey,	key);	GdtfConverter::ConvertInteger(key, pNode, fKey);
-	TXString value;	pNode->GetNodeAttributeValue(XML_GDTF_MapValue,	value);	GdtfConverter::ConvertInteger(value, pNode,	fValue);
-}
-
-void GdtfMap::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_MapKey);
-	needed.push_back(XML_GDTF_MapValue);
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfMap::GetObjectType() 
-{
-	return EGdtfObjectType::eGdtfMap;
-}
-
-TXString GdtfMap::GetNodeName()
-{
-	return XML_GDTF_MapNodeName;
-}
-
-//------------------------------------------------------------------------------------
-// GdtfArtNet
-
-SceneData::GdtfArtNet::GdtfArtNet()
-{
-}
-
-SceneData::GdtfArtNet::~GdtfArtNet()
-{
-	for(GdtfMapPtr map : fMaps) { delete map; }
-}
-
-const TGdtfMapArray& GdtfArtNet::GetMapArray()
-{
-	return fMaps;
-}
-
-GdtfMapPtr GdtfArtNet::CreateMap(Uint32 key, Uint32 value)
-{
-	GdtfMapPtr map = new GdtfMap(key, value);
-	fMaps.push_back(map);
-	return map;
-}
-
-void GdtfArtNet::OnPrintToFile(IXMLFileNodePtr pNode) 
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnPrintToFile(pNode);
-
-	for(GdtfMapPtr map : fMaps)
-	{
-		map->WriteToNode(pNode);
-	}
-}
-
-void GdtfArtNet::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnReadFromNode(pNode);
-
-	// Read the children
-    GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_MapNodeName, [this](IXMLFileNodePtr objNode) -> void
-    {
-		if ( CheckAbort() ) return;
-
-        GdtfMapPtr map = new GdtfMap();
-
-        map->ReadFromNode(objNode);
-
-        fMaps.push_back(map);
-
-        return;
-    });
-
-}
-
-EGdtfObjectType SceneData::GdtfArtNet::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfArtNet;
-}
-
-TXString SceneData::GdtfArtNet::GetNodeName()
-{
-	return XML_GDTF_ArtNet;
-}
-
-//------------------------------------------------------------------------------------
-// GdtfsAcn
-
-SceneData::GdtfsAcn::GdtfsAcn()
-{
-}
-
-SceneData::GdtfsAcn::~GdtfsAcn()
-{
-	for(GdtfMapPtr map : fMaps) { delete map; }
-}
-
-const TGdtfMapArray& GdtfsAcn::GetMapArray()
-{
-	return fMaps;
-}
-
-GdtfMapPtr GdtfsAcn::CreateMap(Uint32 key, Uint32 value)
-{
-	GdtfMapPtr map = new GdtfMap(key, value);
-	fMaps.push_back(map);
-	return map;
-}
-
-void GdtfsAcn::OnPrintToFile(IXMLFileNodePtr pNode) 
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnPrintToFile(pNode);
-
-	for(GdtfMapPtr map : fMaps)
-	{
-		map->WriteToNode(pNode);
-	}
-}
-
-void GdtfsAcn::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnReadFromNode(pNode);
-
-	// Read the children
-    GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_MapNodeName, [this](IXMLFileNodePtr objNode) -> void
-    {
-		if ( CheckAbort() ) return;
-
-        GdtfMapPtr map = new GdtfMap();
-
-        map->ReadFromNode(objNode);
-
-        fMaps.push_back(map);
-
-        return;
-    });
-
-}
-
-EGdtfObjectType SceneData::GdtfsAcn::GetObjectType()
-{
-	return EGdtfObjectType::eGdtf_sACN;
-}
-
-TXString SceneData::GdtfsAcn::GetNodeName()
-{
-	return XML_GDTF_sACN;
-}
-
-//------------------------------------------------------------------------------------
-// GdtfKiNET
-
-SceneData::GdtfKiNET::GdtfKiNET()
-{
-}
-
-SceneData::GdtfKiNET::~GdtfKiNET()
-{
-}
-
-EGdtfObjectType SceneData::GdtfKiNET::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfKiNET;
-}
-
-TXString SceneData::GdtfKiNET::GetNodeName()
-{
-	return XML_GDTF_KiNET;
-}
-
-//------------------------------------------------------------------------------------
-// GdtfPosiStageNet
-
-SceneData::GdtfPosiStageNet::GdtfPosiStageNet()
-{
-}
-
-SceneData::GdtfPosiStageNet::~GdtfPosiStageNet()
-{
-}
-
-EGdtfObjectType SceneData::GdtfPosiStageNet::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfPosiStageNet;
-}
-
-TXString SceneData::GdtfPosiStageNet::GetNodeName()
-{
-	return XML_GDTF_PosiStageNet;
-}
-
-//------------------------------------------------------------------------------------
-// GdtfOpenSoundControl
-
-SceneData::GdtfOpenSoundControl::GdtfOpenSoundControl()
-{
-}
-
-SceneData::GdtfOpenSoundControl::~GdtfOpenSoundControl()
-{
-}
-
-EGdtfObjectType SceneData::GdtfOpenSoundControl::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfOpenSoundControl;
-}
-
-TXString SceneData::GdtfOpenSoundControl::GetNodeName()
-{
-	return XML_GDTF_OpenSoundControl;
-}
-
-//------------------------------------------------------------------------------------
-// GdtfCITP
-
-SceneData::GdtfCITP::GdtfCITP()
-{
-}
-
-SceneData::GdtfCITP::~GdtfCITP()
-{
-}
-
-EGdtfObjectType SceneData::GdtfCITP::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfCITP;
-}
-
-TXString SceneData::GdtfCITP::GetNodeName()
-{
-	return XML_GDTF_CITP;
-}
-
-//------------------------------------------------------------------------------------
-// GdtfMacroDMX
-
-SceneData::GdtfMacroDMX::GdtfMacroDMX()
-{
-}
-
-SceneData::GdtfMacroDMX::~GdtfMacroDMX()
-{
-}
-
-EGdtfObjectType SceneData::GdtfMacroDMX::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfMacroDMX;
-}
-
-TGdtfMacroDMXStepArray SceneData::GdtfMacroDMX::GetStepArray()
-{
-	return fDMXSetps;
-}
-
-GdtfMacroDMXStepPtr SceneData::GdtfMacroDMX::AddDmxStep(double& duration)
-{
-	GdtfMacroDMXStepPtr dmxStep = new GdtfMacroDMXStep(duration);
-	fDMXSetps.push_back(dmxStep);
-	
-	return dmxStep;
-}
-
-TXString SceneData::GdtfMacroDMX::GetNodeName()
-{
-	return XML_GDTF_MacroDMX;
-}
-
-void SceneData::GdtfMacroDMX::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnPrintToFile(pNode);
-	
-	//------------------------------------------------------------------------------------
-	// Print the attributes
-	// -
-	//------------------------------------------------------------------------------------
-	// Print the childs
-	for (GdtfMacroDMXStep* dmxStep : fDMXSetps)
-	{
-		dmxStep->WriteToNode(pNode);
-	}
-}
-
-void SceneData::GdtfMacroDMX::OnReadFromNode(const IXMLFileNodePtr & pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnReadFromNode(pNode);
-	
-	//------------------------------------------------------------------------------------
-	// Get the attributes
-	// -
-	// Read the childs
-	GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_MacroDMXStep, [this](IXMLFileNodePtr objNode) -> void
-								 {
-									 if ( CheckAbort() ) return;
-									 GdtfMacroDMXStepPtr  dmxStep = new GdtfMacroDMXStep();
-									 
-									 dmxStep->ReadFromNode(objNode);
-									 
-									 fDMXSetps.push_back(dmxStep);
-									 return;
-								 });
-}
-
-SceneData::GdtfMacroDMXValue::GdtfMacroDMXValue()
-{
-	fDMXChannel = nullptr;
-}
-
-SceneData::GdtfMacroDMXValue::GdtfMacroDMXValue(DmxValue dmxVal, GdtfDmxChannelPtr dmxChannel)
-{
-	fValue = dmxVal;
-	funresolvedDMXChannel = "";
-	fDMXChannel = dmxChannel;
-}
-
-SceneData::GdtfMacroDMXValue::~GdtfMacroDMXValue()
-{
-	if (fDMXChannel) { delete fDMXChannel; }
-}
-
-SceneData::GdtfMacroDMXStep::GdtfMacroDMXStep()
-{
-}
-
-SceneData::GdtfMacroDMXStep::GdtfMacroDMXStep(double duration)
-{
-	fDuration = duration;
-}
-
-SceneData::GdtfMacroDMXStep::~GdtfMacroDMXStep()
-{
-}
-
-EGdtfObjectType SceneData::GdtfMacroDMXStep::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfMacroDMXStep;
-}
-
-double SceneData::GdtfMacroDMXStep::GetDuration() const
-{
-	return fDuration;
-}
-
-TGdtfMacroDMXValueArray SceneData::GdtfMacroDMXStep::GetDMXValueArray() const
-{
-	return fDMXValues;
-}
-
-void SceneData::GdtfMacroDMXStep::SetDuration(double d)
-{
-	fDuration = d;
-}
-
-GdtfMacroDMXValuePtr SceneData::GdtfMacroDMXStep::AddDmxValue(DmxValue dmxVal, GdtfDmxChannelPtr dmxChannel)
-{
-	GdtfMacroDMXValuePtr val = new GdtfMacroDMXValue(dmxVal, dmxChannel);
-	fDMXValues.push_back(val);
-	
-	return val;
-}
-
-TXString SceneData::GdtfMacroDMXStep::GetNodeName()
-{
-	return XML_GDTF_MacroDMXStep;
-}
-
-void SceneData::GdtfMacroDMXStep::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnPrintToFile(pNode);
-	
-	//------------------------------------------------------------------------------------
-	// Print the attributes
-	pNode->SetNodeAttributeValue(XML_GDTF_MacroDMXStepDuration, GdtfConverter::ConvertDouble(fDuration) );
-	
-	//------------------------------------------------------------------------------------
-	// Print the childs
-	for (GdtfMacroDMXValuePtr dmxVal : fDMXValues)
-	{
-		dmxVal->WriteToNode(pNode);
-	}
-}
-
-void SceneData::GdtfMacroDMXStep::OnReadFromNode(const IXMLFileNodePtr & pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnReadFromNode(pNode);
-	//------------------------------------------------------------------------------------
-	// Get the attributes
-	TXString durationStr;
-	pNode->GetNodeAttributeValue(XML_GDTF_MacroDMXStepDuration, durationStr);
-	GdtfConverter::ConvertDouble(durationStr, pNode, fDuration);
-	// Read the childs
-	GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_MacroDMXValue, [this](IXMLFileNodePtr objNode) -> void
-								 {
-									 if ( CheckAbort() ) return;
-									 GdtfMacroDMXValuePtr dmxValue= new GdtfMacroDMXValue();
-									 
-									 dmxValue->ReadFromNode(objNode);
-									 
-									 fDMXValues.push_back(dmxValue);
-									 return;
-								 });
-}
-
-void SceneData::GdtfMacroDMXStep::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	optional.push_back(XML_GDTF_MacroDMXStepDuration);
-
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType SceneData::GdtfMacroDMXValue::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfMacroDMXValue;
-}
-
-const TXString & SceneData::GdtfMacroDMXValue::GetUnresolvedDMXValue() const
-{
-	return funresolvedValue;
-}
-
-DmxValue SceneData::GdtfMacroDMXValue::GetValue() const
-{
-	return fValue;
-}
-
-const TXString & SceneData::GdtfMacroDMXValue::GetUnresolvedDMXChannel() const
-{
-	return funresolvedDMXChannel;
-}
-
-GdtfDmxChannelPtr SceneData::GdtfMacroDMXValue::GetDMXChannel() const
-{
-	return fDMXChannel;
-}
-
-void SceneData::GdtfMacroDMXValue::SetValue(DmxValue val)
-{
-	fValue = val;
-}
-
-void SceneData::GdtfMacroDMXValue::SetDMXChannel(GdtfDmxChannelPtr chnl)
-{
-	fDMXChannel = chnl;
-}
-
-TXString SceneData::GdtfMacroDMXValue::GetNodeName()
-{
-	return XML_GDTF_MacroDMXValue;
-}
-
-void SceneData::GdtfMacroDMXValue::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnPrintToFile(pNode);
-
-	EGdtfChannelBitResolution resolution = EGdtfChannelBitResolution::eGdtfChannelBitResolution_8;
-	ASSERTN(kEveryone, fDMXChannel != nullptr);
-	if(fDMXChannel)
-	{
-		resolution = fDMXChannel->GetChannelBitResolution();
-	}
-
-	//------------------------------------------------------------------------------------
-	// Print the attributes
-	pNode->SetNodeAttributeValue(XML_GDTF_MacroDMXValue_AttrValue, GdtfConverter::ConvertDMXValue(fValue, resolution));
-	//
-	pNode->SetNodeAttributeValue(XML_GDTF_MacroDMXValue_AttrChannel, fDMXChannel->GetNodeReference() );
-}
-
-void SceneData::GdtfMacroDMXValue::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnReadFromNode(pNode);	
-	//------------------------------------------------------------------------------------
-	// Get the attributes
-	pNode->GetNodeAttributeValue(XML_GDTF_MacroDMXValue_AttrValue, funresolvedValue);
-	//
-	pNode->GetNodeAttributeValue(XML_GDTF_MacroDMXValue_AttrChannel, funresolvedDMXChannel);
-}
-
-void SceneData::GdtfMacroDMXValue::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_MacroDMXValue_AttrValue);
-	needed.push_back(XML_GDTF_MacroDMXValue_AttrChannel);
-
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-SceneData::GdtfMacroVisual::GdtfMacroVisual()
-{
-}
-
-SceneData::GdtfMacroVisual::~GdtfMacroVisual()
-{
-
-}
-
-EGdtfObjectType SceneData::GdtfMacroVisual::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfMacroVisual;
-}
-
-TGdtfMacroVisualStepArray SceneData::GdtfMacroVisual::GetVisualStepArray()
-{
-	return fVisualSteps;
-}
-
-GdtfMacroVisualStepPtr SceneData::GdtfMacroVisual::AddVisualStep()
-{
-	GdtfMacroVisualStepPtr visuealStep = new GdtfMacroVisualStep();
-	fVisualSteps.push_back(visuealStep);
-	
-	return visuealStep;
-}
-
-TXString SceneData::GdtfMacroVisual::GetNodeName()
-{
-	return XML_GDTF_MacroVisual;
-}
-
-void SceneData::GdtfMacroVisual::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnPrintToFile(pNode);
-	
-	//------------------------------------------------------------------------------------
-	// Print the attributes
-	// -
-	//------------------------------------------------------------------------------------
-	// Print the childs
-	for (GdtfMacroVisualStepPtr visualStep : fVisualSteps)
-	{
-		visualStep->WriteToNode(pNode);
-	}
-}
-
-void SceneData::GdtfMacroVisual::OnReadFromNode(const IXMLFileNodePtr & pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnReadFromNode(pNode);
-	
-	//------------------------------------------------------------------------------------
-	// Get the attributes
-	// -
-	// Read the childs
-	GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_MacroVisualStep, [this](IXMLFileNodePtr objNode) -> void
-								 {
-									 if ( CheckAbort() ) return;
-									 GdtfMacroVisualStepPtr macroVisual= new GdtfMacroVisualStep();
-									 
-									 macroVisual->ReadFromNode(objNode);
-									 
-									 fVisualSteps.push_back(macroVisual);
-									 return;
-								 });
-}
-
-SceneData::GdtfMacroVisualStep::GdtfMacroVisualStep()
-{
-	fDuration = 1; // Default value: 1; Size 1 byte; Unit: DMX frame.
-	fFade = 0;     // Default value: 0.0. Unit: milliseconds.
-	fDelay = 0;    // Default value: 0.0. Unit: milliseconds.
-}
-
-SceneData::GdtfMacroVisualStep::~GdtfMacroVisualStep()
-{
-	for(const auto& i: fVisualValues){ delete i; }
-}
-
-TGdtfMacroVisualValueArray SceneData::GdtfMacroVisualStep::GetVisualValueArray()
-{
-	return fVisualValues;
-}
-
-EGdtfObjectType SceneData::GdtfMacroVisualStep::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfMacroVisualStep;
-}
-
-double SceneData::GdtfMacroVisualStep::getDuration()
-{
-	return fDuration;
-}
-
-double SceneData::GdtfMacroVisualStep::getFade()
-{
-	return fFade;
-}
-
-double SceneData::GdtfMacroVisualStep::getDelay()
-{
-	return fDelay;
-}
-
-void SceneData::GdtfMacroVisualStep::setDuration(double d)
-{
-	fDuration = d;
-}
-
-void SceneData::GdtfMacroVisualStep::setFade(double f)
-{
-	fFade = f;
-}
-
-void SceneData::GdtfMacroVisualStep::setDelay(double d)
-{
-	fDelay = d;
-}
-
-GdtfMacroVisualValue* SceneData::GdtfMacroVisualStep::AddVisualValue(DmxValue& dmxVal, GdtfDmxChannelFunctionPtr channelFunctionRef)
-{
-	GdtfMacroVisualValue* val = new GdtfMacroVisualValue(dmxVal, channelFunctionRef);
-	
-	fVisualValues.push_back(val);
-	
-	return val;
-}
-
-TXString SceneData::GdtfMacroVisualStep::GetNodeName()
-{
-	return XML_GDTF_MacroVisualStep;
-}
-
-void SceneData::GdtfMacroVisualStep::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnPrintToFile(pNode);
-	
-	//------------------------------------------------------------------------------------
-	// Print the attributes
-	pNode->SetNodeAttributeValue(XML_GDTF_MacroVisualStep_AttrDuration, GdtfConverter::ConvertDouble(fDuration));
-	pNode->SetNodeAttributeValue(XML_GDTF_MacroVisualStep_AttrFade,     GdtfConverter::ConvertDouble (fFade));
-	pNode->SetNodeAttributeValue(XML_GDTF_MacroVisualStep_AttrDelay,    GdtfConverter::ConvertDouble (fDelay));
-	
-	//------------------------------------------------------------------------------------
-	// Print the childs
-	for (GdtfMacroVisualValuePtr visualVal : fVisualValues)
-	{
-		visualVal->WriteToNode(pNode);
-	}
-}
-
-void SceneData::GdtfMacroVisualStep::OnReadFromNode(const IXMLFileNodePtr & pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnReadFromNode(pNode);
-	
-	//------------------------------------------------------------------------------------
-	// Get the attributes
-	TXString durationStr; pNode->GetNodeAttributeValue(XML_GDTF_MacroVisualStep_AttrDuration, durationStr);
-	GdtfConverter::ConvertDouble(durationStr, pNode, fDuration);
-	TXString fadeStr;     pNode->GetNodeAttributeValue(XML_GDTF_MacroVisualStep_AttrFade, fadeStr);
-	GdtfConverter::ConvertDouble(fadeStr, pNode, fFade);
-	TXString delayStr;    pNode->GetNodeAttributeValue(XML_GDTF_MacroVisualStep_AttrDelay, delayStr);
-	GdtfConverter::ConvertDouble(delayStr, pNode, fDelay);
-	
-	// Read the childs
-	GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_MacroVisualValue, [this](IXMLFileNodePtr objNode) -> void
-								 {
-									 if ( CheckAbort() ) return;
-									 GdtfMacroVisualValuePtr visuealVal = new GdtfMacroVisualValue();
-									 
-									 visuealVal->ReadFromNode(objNode);
-									 
-									 fVisualValues.push_back(visuealVal);
-									 return;
-								 });
-}
-
-void SceneData::GdtfMacroVisualStep::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	optional.push_back(XML_GDTF_MacroVisualStep_AttrDuration);
-	optional.push_back(XML_GDTF_MacroVisualStep_AttrFade);
-	optional.push_back(XML_GDTF_MacroVisualStep_AttrDelay);
-
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-SceneData::GdtfMacroVisualValue::GdtfMacroVisualValue()
-{
-	fChannelFunctionRef = nullptr;
-}
-
-SceneData::GdtfMacroVisualValue::GdtfMacroVisualValue(DmxValue dmxVal, GdtfDmxChannelFunctionPtr channelFunctionRef)
-{
-	fDmxValue = dmxVal;
-	fChannelFunctionRef = channelFunctionRef;
-}
-
-SceneData::GdtfMacroVisualValue::~GdtfMacroVisualValue()
-{
-	if (fChannelFunctionRef) { delete fChannelFunctionRef; }
-}
-
-EGdtfObjectType SceneData::GdtfMacroVisualValue::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfMacroVisualValue;
-}
-
-const TXString & SceneData::GdtfMacroVisualValue::GetUnresolvedDMXValue() const
-{
-	return funresolvedValue;
-}
-
-DmxValue SceneData::GdtfMacroVisualValue::GetDmxValue() const
-{
-	return fDmxValue;
-}
-
-const TXString & SceneData::GdtfMacroVisualValue::GetUnresolvedChannelFunctionRef() const
-{
-	return fUnresolvedChannelFunctionRef;
-}
-
-GdtfDmxChannelFunctionPtr SceneData::GdtfMacroVisualValue::GetChannelFunctionRef() const
-{
-	return fChannelFunctionRef;
-}
-
-void SceneData::GdtfMacroVisualValue::SetDmxValue(DmxValue val)
-{
-	fDmxValue = val;
-}
-
-void SceneData::GdtfMacroVisualValue::SetUnresolvedChannelFunctionRef(const TXString& ref)
-{
-	fUnresolvedChannelFunctionRef = ref;
-}
-
-void SceneData::GdtfMacroVisualValue::SetChannelFunction(GdtfDmxChannelFunctionPtr ref)
-{
-	fChannelFunctionRef = ref;
-}
-
-TXString SceneData::GdtfMacroVisualValue::GetNodeName()
-{
-	return XML_GDTF_MacroVisualValue;
-}
-
-void SceneData::GdtfMacroVisualValue::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnPrintToFile(pNode);
-
-	EGdtfChannelBitResolution resolution = EGdtfChannelBitResolution::eGdtfChannelBitResolution_8;
-	ASSERTN(kEveryone, fChannelFunctionRef != nullptr);
-	if(fChannelFunctionRef) {resolution = fChannelFunctionRef->GetParentDMXChannel()->GetChannelBitResolution(); }
-	
-	//------------------------------------------------------------------------------------
-	// Print the attributes
-	pNode->SetNodeAttributeValue(XML_GDTF_MacroVisualValue_AttrValue, GdtfConverter::ConvertDMXValue(fDmxValue, resolution));
-	pNode->SetNodeAttributeValue(XML_GDTF_MacroVisualValue_AttrChanFunc, fChannelFunctionRef->GetNodeReference() );
-}
-
-void SceneData::GdtfMacroVisualValue::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnReadFromNode(pNode);
-
-	pNode->GetNodeAttributeValue(XML_GDTF_MacroVisualValue_AttrValue, funresolvedValue);
-	//
-	pNode->GetNodeAttributeValue(XML_GDTF_MacroVisualValue_AttrChanFunc, fUnresolvedChannelFunctionRef);
-}
-
-void SceneData::GdtfMacroVisualValue::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_MacroVisualValue_AttrValue);
-	needed.push_back(XML_GDTF_MacroVisualValue_AttrChanFunc);
-
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-SceneData::GdtfSoftwareVersionID::GdtfSoftwareVersionID()
-{
-    fValue = 0;
-}
-
-SceneData::GdtfSoftwareVersionID::GdtfSoftwareVersionID(size_t value)
-{
-    fValue = value;
-}
-
-SceneData::GdtfSoftwareVersionID::~GdtfSoftwareVersionID()
-{
-     for (GdtfDMXPersonalityPtr obj		: fDmxPersonalityArray){ delete obj; }
-}
-
-EGdtfObjectType SceneData::GdtfSoftwareVersionID::GetObjectType()
-{
-    return EGdtfObjectType::eGdtfSoftwareVersionID;
-}
-
-size_t SceneData::GdtfSoftwareVersionID::GetValue() const
-{
-    return fValue;
-}
-
-const TGdtfDMXPersonalityArray& SceneData::GdtfSoftwareVersionID::GetDMXPersonalityArray()
-{
-    return fDmxPersonalityArray;
-}
-
-void SceneData::GdtfSoftwareVersionID::SetValue(size_t val)
-{
-    fValue = val;
-}
-
-GdtfDMXPersonalityPtr SceneData::GdtfSoftwareVersionID::AddDMXPersonality(size_t value, GdtfDmxModePtr dmxMode)
-{
-    GdtfDMXPersonalityPtr dmxPerso = new GdtfDMXPersonality(value, dmxMode);
-    fDmxPersonalityArray.push_back(dmxPerso);
-
-    return dmxPerso;
-}
-
-TXString SceneData::GdtfSoftwareVersionID::GetNodeName()
-{
-    return XML_GDTF_SoftwareVersionID_NodeNam;
-}
-
-void SceneData::GdtfSoftwareVersionID::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-    //------------------------------------------------------------------------------------
-    // Call the parent
-    GdtfObject::OnPrintToFile(pNode);
-
-    //------------------------------------------------------------------------------------
-    // Print the attributes
-    pNode->SetNodeAttributeValue(XML_GDTF_SoftwareVersionID_Value, GdtfConverter::ConvertHexValue(fValue));
-
-    //------------------------------------------------------------------------------------
-    // Print the childs
-    for (GdtfDMXPersonalityPtr dmxPerso: fDmxPersonalityArray)
-    {
-        dmxPerso->WriteToNode(pNode);
-    }
-}
-
-void SceneData::GdtfSoftwareVersionID::OnReadFromNode(const IXMLFileNodePtr & pNode)
-{
-    //------------------------------------------------------------------------------------
-    // Call the parent
-    GdtfObject::OnReadFromNode(pNode);
-
-    //------------------------------------------------------------------------------------
-    // Get the attributes
-    TXString valueStr; pNode->GetNodeAttributeValue(XML_GDTF_SoftwareVersionID_Value, valueStr);
-    GdtfConverter::ConvertHexValue( valueStr, pNode, fValue);
-
-    // Read the childs
-    GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_DMXPersonalityNodeNam, [this](IXMLFileNodePtr objNode) -> void
-    {
-		if ( CheckAbort() ) return;
-        GdtfDMXPersonalityPtr dmxPerso = new GdtfDMXPersonality();
-
-        dmxPerso->ReadFromNode(objNode);
-
-        fDmxPersonalityArray.push_back(dmxPerso);
-        return;
-    });
-}
-
-//------------------------------------------------------------------------------------
-// GdtfGamut
-GdtfGamut::GdtfGamut()
-{
-}
-
-GdtfGamut::GdtfGamut(const TXString& name, CCieColorPtr color)
-{
-	fUniqueName = name;
-
-	fGamutPoints.push_back(color);
-}
-
-GdtfGamut::~GdtfGamut()
-{
-	for(CCieColorPtr color : fGamutPoints) { delete color; }
-}
-
-const TXString&	GdtfGamut::GetName() const
-{
-	return fUniqueName;
-}
-
-const TCCieColorArray& GdtfGamut::GetGamutPoints() const
-{
-	return fGamutPoints;
-}
-
-void GdtfGamut::SetName(const TXString& name)
-{
-	fUniqueName = name;
-}
-
-void GdtfGamut::AddGamutPoint(CCieColorPtr newPoint)
-{
-	fGamutPoints.push_back(newPoint);
-}
-
-void GdtfGamut::OnPrintToFile(IXMLFileNodePtr pNode) 
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnPrintToFile(pNode);
-
-	pNode->SetNodeAttributeValue(XML_GDTF_GamutName, 	fUniqueName);
-	pNode->SetNodeAttributeValue(XML_GDTF_GamutPoints,	GdtfConverter::ConvertColorArray(fGamutPoints));
-}
-
-void GdtfGamut::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnReadFromNode(pNode);
-
-							pNode->GetNodeAttributeValue(XML_GDTF_GamutName, fUniqueName);
-	TXString gamutPoints; 	pNode->GetNodeAttributeValue(XML_GDTF_GamutPoints, gamutPoints); GdtfConverter::ConvertColorArray(gamutPoints, pNode, fGamutPoints);
-}
-
-void GdtfGamut::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_GamutName);
-	needed.push_back(XML_GDTF_GamutPoints);
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfGamut::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfGamut;
-}
-
-TXString GdtfGamut::GetNodeName()
-{
-	return XML_GDTF_GamutNodeName;
-}
-
-TXString GdtfGamut::GetNodeReference()
-{
-	return fUniqueName;
-}
-
-//------------------------------------------------------------------------------------
-// GdtfPhysicalDescriptions
-
-SceneData::GdtfPhysicalDescriptions::GdtfPhysicalDescriptions()
-{
-	fOperatingTemperatureLow 	= 0.0;
-	fOperatingTemperatureHigh 	= 40.0;
-	fWeight 					= 0.0;
-	fLegHeight 					= 0.0;
-}
-
-SceneData::GdtfPhysicalDescriptions::~GdtfPhysicalDescriptions()
-{
-    for (GdtfColorSpace* 		o : fAdditionalColorSpaces)	{ delete o; }
-    for (GdtfGamut* 			o : fGamuts)				{ delete o; }
-    for (GdtfPhysicalEmitter* 	o : fEmitters)    			{ delete o; }
-    for (GdtfFilter*          	o : fFilters)     			{ delete o; }
-    for (GdtfDMXProfile*      	o : fDmxProfiles) 			{ delete o; }
-    for (GdtfCRIGroup*        	o : fCRI_Groups)  			{ delete o; }
-	for (GdtfConnector*       	o : fConnectors)  			{ delete o; }
-}
-
-EGdtfObjectType SceneData::GdtfPhysicalDescriptions::GetObjectType()
-{
-    return EGdtfObjectType::eGdtfPhysicalDescription;
-}
-
-GdtfColorSpace* SceneData::GdtfPhysicalDescriptions::GetColorSpace()
-{
-    return & fColorSpace;
-}
-
-const TGdtfColorSpaceArray& SceneData::GdtfPhysicalDescriptions::GetAdditionalColorSpaceArray()
-{
-    return fAdditionalColorSpaces;
-}
-
-const TGdtfGamutArray& SceneData::GdtfPhysicalDescriptions::GetGamutArray()
-{
-    return fGamuts;
-}
-
-const TGdtfPhysicalEmitterArray& SceneData::GdtfPhysicalDescriptions::GetPhysicalEmitterArray()
-{
-    return fEmitters;
-}
-
-const TGdtfFilterArray & SceneData::GdtfPhysicalDescriptions::GetFilterArray()
-{
-    return fFilters;
-}
-
-const TGdtfDMXProfileArray& SceneData::GdtfPhysicalDescriptions::GetDmxProfileArray()
-{
-    return fDmxProfiles;
-}
-
-const TGdtf_CRIGroupArray & SceneData::GdtfPhysicalDescriptions::GetCRIGroupArray()
-{
-    return fCRI_Groups;
-}
-
-const TGdtfConnectorArray & SceneData::GdtfPhysicalDescriptions::GetConnectorArray()
-{
-    return fConnectors;
-}
-
-double GdtfPhysicalDescriptions::GetOperatingTemperatureLow()
-{
-    return fOperatingTemperatureLow;
-}
-
-double GdtfPhysicalDescriptions::GetOperatingTemperatureHigh()
-{
-    return fOperatingTemperatureHigh;
-}
-
-double GdtfPhysicalDescriptions::GetWeight()
-{
-    return fWeight;
-}
-
-double GdtfPhysicalDescriptions::GetLegHeight()
-{
-    return fLegHeight;
-}
-
-void GdtfPhysicalDescriptions::SetOperatingTemperatureLow(double value)
-{
-	fOperatingTemperatureLow = value;
-}
-
-void GdtfPhysicalDescriptions::SetOperatingTemperatureHigh(double value)
-{
-	fOperatingTemperatureHigh = value;
-}
-
-void GdtfPhysicalDescriptions::SetWeight(double value)
-{
-	fWeight = value;
-}
-
-void GdtfPhysicalDescriptions::SetLegHeight(double value)
-{
-	fLegHeight = value;
-}
-
-GdtfColorSpacePtr SceneData::GdtfPhysicalDescriptions::AddAdditionalColorSpace(const TXString & name, EGdtfColorSpace colorSpace)
-{
-	GdtfColorSpacePtr gdtfColorSpace = new GdtfColorSpace(name, colorSpace);
-	
-	fAdditionalColorSpaces.push_back(gdtfColorSpace);
-	
-	return gdtfColorSpace;
-}
-
-GdtfGamutPtr SceneData::GdtfPhysicalDescriptions::AddGamut(const TXString & name, CCieColorPtr color)
-{
-	GdtfGamutPtr gdtfGamut = new GdtfGamut(name, color);
-	
-	fGamuts.push_back(gdtfGamut);
-	
-	return gdtfGamut;
-}
-
-GdtfPhysicalEmitterPtr SceneData::GdtfPhysicalDescriptions::AddEmitter(const TXString & name, CCieColor color)
-{
-	GdtfPhysicalEmitterPtr emitter = new  GdtfPhysicalEmitter(name, color);
-	
-	fEmitters.push_back(emitter);
-	
-	return emitter;
-}
-
-GdtfFilterPtr SceneData::GdtfPhysicalDescriptions::AddFilter(const TXString& name, CCieColor color)
-{
-    GdtfFilterPtr filter = new GdtfFilter(name, color);
-
-    fFilters.push_back(filter);
-
-    return filter;
-}
-
-GdtfDMXProfilePtr SceneData::GdtfPhysicalDescriptions::AddDmxProfile()
-{
-    GdtfDMXProfilePtr dmxProf = new GdtfDMXProfile();
-    
-    fDmxProfiles.push_back(dmxProf);
-    
-    return dmxProf;
-}
-
-GdtfCRIGroupPtr SceneData::GdtfPhysicalDescriptions::AddCRIGroup(double colorTsemp)
-{
-    GdtfCRIGroupPtr criGroup = new GdtfCRIGroup(colorTsemp);
-    fCRI_Groups.push_back(criGroup);
-
-    return criGroup;
-}
-
-GdtfConnectorPtr SceneData::GdtfPhysicalDescriptions::AddConnector(const TXString& name,  const TXString& type)
-{
-    GdtfConnectorPtr connector = new GdtfConnector(name, type);
-    fConnectors.push_back(connector);
-
-    return connector;
-}
-
-TXString SceneData::GdtfPhysicalDescriptions::GetNodeName()
-{
-    return XML_GDTF_FixtureChildNodePhysicalDesrip;
-}
-
-void SceneData::GdtfPhysicalDescriptions::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-    //------------------------------------------------------------------------------------
-    // Call the parent
-    GdtfObject::OnPrintToFile(pNode);
-    
-    //------------------------------------------------------------------------------------
-    // Print the attributes        
-    fColorSpace.WriteToNode(pNode);
-
-	// Print AdditionalColorSpaces (physicalDescription child)
-	IXMLFileNodePtr additionalColorSpaceGroupNode;
-	if (VCOM_SUCCEEDED(pNode->CreateChildNode(XML_GDTF_PhysicalDescriptionsColorSpaceCollect, & additionalColorSpaceGroupNode)))
-	{
-		for (GdtfColorSpacePtr colorSpace : fAdditionalColorSpaces)
-		{
-			colorSpace->WriteToNode(additionalColorSpaceGroupNode);
-		}
-	}
-
-	// Print Gamuts (physicalDescription child)
-	IXMLFileNodePtr gamutsGroupNode;
-	if (VCOM_SUCCEEDED(pNode->CreateChildNode(XML_GDTF_PhysicalDescriptionsGamutCollect, & gamutsGroupNode)))
-	{
-		for (GdtfGamutPtr gamut : fGamuts)
-		{
-			gamut->WriteToNode(gamutsGroupNode);
-		}
-	}
-    
-    //------------------------------------------------------------------------------------
-    // Print Filter        
-    IXMLFileNodePtr filtersGroupNode;
-    if (VCOM_SUCCEEDED(pNode->CreateChildNode(XML_GDTF_FiltersCollect, &filtersGroupNode))) 
-    {
-        for (GdtfFilter* filter : fFilters)
-        {
-            filter->WriteToNode(filtersGroupNode);
-        }
-    }
-    
-    // Print Emitters (physicalDescription child)
-	IXMLFileNodePtr emittersGroupNode;
-	if (VCOM_SUCCEEDED(pNode->CreateChildNode(XML_GDTF_PhysicalDescriptionsEmitterCollect, & emittersGroupNode)))
-	{
-		for (GdtfPhysicalEmitterPtr emitter : fEmitters)
-		{
-			emitter->WriteToNode(emittersGroupNode);
-		}
-	}
-		
-	// Print DmxProfiles (physicalDescription child)
-	IXMLFileNodePtr dmxProfGroupNode;
-	if (VCOM_SUCCEEDED(pNode->CreateChildNode(XML_GDTF_DMX_ProfileCollect, &dmxProfGroupNode)))
-	{
-		for (GdtfDMXProfilePtr dmxProfile : fDmxProfiles)
-		{
-			dmxProfile->WriteToNode(dmxProfGroupNode);
-		}
-	}
-		
-	// CRI_Collect (PhysicalDescription child)
-	IXMLFileNodePtr CRI_CollectNode;
-	if (VCOM_SUCCEEDED(pNode->CreateChildNode(XML_GDTF_ColorRenderingIndexCollect, &CRI_CollectNode)))
-	{
-		for (GdtfCRIGroupPtr criGroup : fCRI_Groups)
-		{
-			criGroup->WriteToNode(CRI_CollectNode);
-		}
-		
-	}
-
-	// Print Connectors (physicalDescription child)
-	IXMLFileNodePtr ConnectorNode;
-	if (VCOM_SUCCEEDED(pNode->CreateChildNode(XML_GDTF_ConnectorCollect, &ConnectorNode)))
-	{
-		for (GdtfConnectorPtr connector : fConnectors)
-		{
-			connector->WriteToNode(ConnectorNode);
-		}
-		
-	}
-
-	// Print Properties (physicalDescription child)
-	IXMLFileNodePtr PropertiesNode;
-	if (VCOM_SUCCEEDED(pNode->CreateChildNode(XML_GDTF_PropertiesCollect, &PropertiesNode)))
-	{
-		IXMLFileNodePtr OperatingTemperatureNode;
-		if(VCOM_SUCCEEDED(PropertiesNode->CreateChildNode(XML_GDTF_OperatingTemperatureNodeName, &OperatingTemperatureNode)))
-		{
-			OperatingTemperatureNode->SetNodeAttributeValue(XML_GDTF_OperatingTemperatureLow,	GdtfConverter::ConvertDouble(fOperatingTemperatureLow));
-			OperatingTemperatureNode->SetNodeAttributeValue(XML_GDTF_OperatingTemperatureHigh, GdtfConverter::ConvertDouble(fOperatingTemperatureHigh));
-		}
-
-		IXMLFileNodePtr WeightNode;
-		if(VCOM_SUCCEEDED(PropertiesNode->CreateChildNode(XML_GDTF_WeightNodeName, &WeightNode)))
-		{
-			WeightNode->SetNodeAttributeValue(XML_GDTF_WeightValue,	GdtfConverter::ConvertDouble(fWeight));
-		}
-
-		IXMLFileNodePtr LegHeightNode;
-		if(VCOM_SUCCEEDED(PropertiesNode->CreateChildNode(XML_GDTF_LegHeightNodeName, &LegHeightNode)))
-		{
-			LegHeightNode->SetNodeAttributeValue(XML_GDTF_LegHeightValue,	GdtfConverter::ConvertDouble(fLegHeight));
-		}
-
-	}
-
-}
-
-void SceneData::GdtfPhysicalDescriptions::OnReadFromNode(const IXMLFileNodePtr & pNode)
-{
-	IXMLFileNodePtr colorSpace;
-	if(VCOM_SUCCEEDED(pNode->GetChildNode(XML_GDTF_ColorSpaceNode, & colorSpace)))
-	{
-		fColorSpace.ReadFromNode(colorSpace);
-	}
-
-	// ------------------------------------------------------------------------------------
-	// Read AdditionalColorSpaces (PhysicalDescription Child)
-	GdtfConverter::TraverseNodes(pNode, XML_GDTF_PhysicalDescriptionsColorSpaceCollect, XML_GDTF_ColorSpaceNode, [this] (IXMLFileNodePtr objNode) -> void
-									{
-										if ( CheckAbort() ) return;
-										// Create the object
-										GdtfColorSpacePtr colorSpace = new GdtfColorSpace();
-										 
-										// Read from node
-										colorSpace->ReadFromNode(objNode);
-										 
-										// Add to list
-										fAdditionalColorSpaces.push_back(colorSpace);
-										return;
-									});
-	
-	// Read Gamuts (PhysicalDescription Child)
-	GdtfConverter::TraverseNodes(pNode, XML_GDTF_PhysicalDescriptionsGamutCollect, XML_GDTF_GamutNodeName, [this] (IXMLFileNodePtr objNode) -> void
-									{
-										if ( CheckAbort() ) return;	
-										// Create the object
-										GdtfGamutPtr gamut = new GdtfGamut();
-										 
-										// Read from node
-										gamut->ReadFromNode(objNode);
-										 
-										// Add to list
-										fGamuts.push_back(gamut);
-										return;
-									});
-
-	// Read Filters
-	GdtfConverter::TraverseNodes(pNode, XML_GDTF_FiltersCollect, XML_GDTF_FilterNode, [this] (IXMLFileNodePtr objNode) -> void
-									{
-										if ( CheckAbort() ) return;
-										// Create the object
-										GdtfFilterPtr filter = new GdtfFilter();
-										 
-										// Read from node
-										filter->ReadFromNode(objNode);
-										 
-										// Add to list
-										fFilters.push_back(filter);
-										return;
-									});
-
-    // Read Emitters (PhysicalDescription Child)
-	GdtfConverter::TraverseNodes(pNode, XML_GDTF_PhysicalDescriptionsEmitterCollect, XML_GDTF_EmitterNodeName, [this] (IXMLFileNodePtr objNode) -> void
-									{
-										if ( CheckAbort() ) return;
-										// Create the object
-										GdtfPhysicalEmitterPtr emitter = new GdtfPhysicalEmitter();
-										 
-										// Read from node
-										emitter->ReadFromNode(objNode);
-										 
-										// Add to list
-										fEmitters.push_back(emitter);
-										return;
-									});
-    // Read DmxProfiles (PhysicalDescription Child) 
-    GdtfConverter::TraverseNodes(pNode, XML_GDTF_DMX_ProfileCollect, XML_GDTF_DMX_Profile, [this](IXMLFileNodePtr objNode) -> void
-    {
-		if ( CheckAbort() ) return;
-        // Create the object
-        GdtfDMXProfilePtr dmxProfile = new GdtfDMXProfile();
-
-        // Read from node
-        dmxProfile->ReadFromNode(objNode);
-
-        // Add to list
-        fDmxProfiles.push_back(dmxProfile);
-        return;
-    });
-		
-	// ------------------------------------------------------------------------------------
-    // Read CRIs
-	GdtfConverter::TraverseNodes(pNode, XML_GDTF_ColorRenderingIndexCollect, XML_GDTF_ColorRenderingIndexGroup, [this](IXMLFileNodePtr objNode) -> void
-									{
-										if ( CheckAbort() ) return;
-										GdtfCRIGroupPtr criGroup = new GdtfCRIGroup();
-											
-										// Read from node
-										criGroup->ReadFromNode(objNode);
-											
-										fCRI_Groups.push_back(criGroup);
-										return;
-									});
-	
-	// Read Connectors (PhysicalDescription Child)
-	GdtfConverter::TraverseNodes(pNode, XML_GDTF_ConnectorCollect, XML_GDTF_ConnectorNodeName, [this] (IXMLFileNodePtr objNode) -> void
-									{
-										if ( CheckAbort() ) return;
-										// Create the object
-										GdtfConnectorPtr connector = new GdtfConnector();
-										 
-										// Read from node
-										connector->ReadFromNode(objNode);
-										 
-										// Add to list
-										fConnectors.push_back(connector);
-										return;
-									});
-	
-	// Read Properties (PhysicalDescription Child)
-	
-	IXMLFileNodePtr PropertiesNode;
-	if(VCOM_SUCCEEDED(pNode->GetChildNode(XML_GDTF_PropertiesCollect, & PropertiesNode)))
-	{
-		//OperatingTemperature
-		IXMLFileNodePtr OperatingTemperatureNode;
-		PropertiesNode->GetChildNode(XML_GDTF_OperatingTemperatureNodeName, &OperatingTemperatureNode);
-		if(OperatingTemperatureNode != nullptr)
-		{
-			TXString operatingTemperatureLowStr; OperatingTemperatureNode->GetNodeAttributeValue(XML_GDTF_OperatingTemperatureLow, operatingTemperatureLowStr);
-			GdtfConverter::ConvertDouble(operatingTemperatureLowStr, OperatingTemperatureNode, fOperatingTemperatureLow);
-
-			TXString operatingTemperatureHighStr; OperatingTemperatureNode->GetNodeAttributeValue(XML_GDTF_OperatingTemperatureHigh, operatingTemperatureHighStr);
-			GdtfConverter::ConvertDouble(operatingTemperatureHighStr, OperatingTemperatureNode, fOperatingTemperatureHigh);	
-		}
-
-		//Weight
-		IXMLFileNodePtr WeightNode;
-		PropertiesNode->GetChildNode(XML_GDTF_WeightNodeName, &WeightNode);
-		if(WeightNode != nullptr)
-		{
-			TXString weightStr; WeightNode->GetNodeAttributeValue(XML_GDTF_WeightValue, weightStr);
-			GdtfConverter::ConvertDouble(weightStr, WeightNode, fWeight);	
-		}
-
-		//LegHeight
-		IXMLFileNodePtr LegHeightNode;
-		PropertiesNode->GetChildNode(XML_GDTF_LegHeightNodeName, &LegHeightNode);
-		if(LegHeightNode != nullptr)
-		{
-			TXString legHeightStr; LegHeightNode->GetNodeAttributeValue(XML_GDTF_LegHeightValue, legHeightStr);
-			GdtfConverter::ConvertDouble(legHeightStr, LegHeightNode, fLegHeight);	
-		}
-	}
-	
-}
-
-SceneData::GdtfColorSpace::GdtfColorSpace()
-{
-	fUniqueName = "";
-    fColorSpace = EGdtfColorSpace::sRGB;
-}
-
-SceneData::GdtfColorSpace::GdtfColorSpace(const TXString& name, EGdtfColorSpace colorSpace)
-{
-	fUniqueName = name;
-    fColorSpace = colorSpace;
-}
-
-SceneData::GdtfColorSpace::~GdtfColorSpace()
-{
-}
-
-EGdtfObjectType SceneData::GdtfColorSpace::GetObjectType()
-{
-    return EGdtfObjectType::eGdtfColorSpace;
-}
-
-TXString SceneData::GdtfColorSpace::GetNodeReference()
-{
-	return fUniqueName;
-}
-
-const TXString& SceneData::GdtfColorSpace::GetName() const
-{
-	return fUniqueName;
-}
-
-EGdtfColorSpace SceneData::GdtfColorSpace::GetColorSpace()
-{
-    return fColorSpace;
-}
-
-CCieColor SceneData::GdtfColorSpace::GetRed()
-{
-	CCieColor color = fRed;
-	if(fColorSpace == EGdtfColorSpace::ANSI) 		{ color = CCieColor(0.7347, 0.2653, 100); }
-	if(fColorSpace == EGdtfColorSpace::ProPhoto) 	{ color = CCieColor(0.7347, 0.2653, 100); }
-	if(fColorSpace == EGdtfColorSpace::sRGB) 		{ color = CCieColor(0.6400, 0.3300, 21.26); }
-    return color;
-}
-
-CCieColor SceneData::GdtfColorSpace::GetGreen()
-{
-	CCieColor color = fGreen;
-	if(fColorSpace == EGdtfColorSpace::ANSI) 		{ color = CCieColor(0.1596, 0.8404, 100); }
-	if(fColorSpace == EGdtfColorSpace::ProPhoto) 	{ color = CCieColor(0.1596, 0.8404, 100); }
-	if(fColorSpace == EGdtfColorSpace::sRGB) 		{ color = CCieColor(0.3000, 0.6000, 71.52); }
-    return color;
-}
-
-CCieColor SceneData::GdtfColorSpace::GetBlue()
-{
-	CCieColor color = fBlue;
-	if(fColorSpace == EGdtfColorSpace::ANSI) 		{ color = CCieColor(0.0366, 0.001, 100); }
-	if(fColorSpace == EGdtfColorSpace::ProPhoto) 	{ color = CCieColor(0.0366, 0.0001, 100); }
-	if(fColorSpace == EGdtfColorSpace::sRGB) 		{ color = CCieColor(0.1500, 0.0600, 7.22); }
-    return color;
-}
-
-CCieColor SceneData::GdtfColorSpace::GetWhite()
-{
-	CCieColor color = fWhitePoint;
-	if(fColorSpace == EGdtfColorSpace::ANSI) 		{ color = CCieColor(0.4254, 0.4044, 100); }
-	if(fColorSpace == EGdtfColorSpace::ProPhoto) 	{ color = CCieColor(0.3457, 0.3585, 100); }
-	if(fColorSpace == EGdtfColorSpace::sRGB) 		{ color = CCieColor(0.3127, 0.3290, 100); }
-    return color;
-}
-
-void SceneData::GdtfColorSpace::SetName(const TXString& name)
-{
-	fUniqueName = name;
-}
-
-void SceneData::GdtfColorSpace::SetColorSpace(EGdtfColorSpace val)
-{
-    fColorSpace = val;
-}
-
-void SceneData::GdtfColorSpace::SetRed(CCieColor val)
-{
-    fRed = val;
-}
-
-void SceneData::GdtfColorSpace::SetGreen(CCieColor val)
-{
-    fGreen = val;
-}
-
-void SceneData::GdtfColorSpace::SetBlue(CCieColor val)
-{
-    fBlue = val;
-}
-
-void SceneData::GdtfColorSpace::SetWhite(CCieColor val)
-{
-    fWhitePoint = val;
-}
-
-TXString SceneData::GdtfColorSpace::GetNodeName()
-{
-    return XML_GDTF_ColorSpaceNode;
-}
-
-void SceneData::GdtfColorSpace::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-    //------------------------------------------------------------------------------------
-    // Call the parent
-    GdtfObject::OnPrintToFile(pNode);
-
-    //------------------------------------------------------------------------------------
-    // Print the attributes
-	pNode->SetNodeAttributeValue(XML_GDTF_ColorSpace_Name, fUniqueName);     
-    pNode->SetNodeAttributeValue(XML_GDTF_ColorSpace_Mode, GdtfConverter::ConvertEGdtfColorSpace(fColorSpace) );
-    
-    if (fColorSpace == EGdtfColorSpace::Custom)
-    {
-        pNode->SetNodeAttributeValue(XML_GDTF_ColorSpace_Red,        GdtfConverter::ConvertColor(fRed) );
-        pNode->SetNodeAttributeValue(XML_GDTF_ColorSpace_Green,      GdtfConverter::ConvertColor(fGreen) );
-        pNode->SetNodeAttributeValue(XML_GDTF_ColorSpace_Blue,	     GdtfConverter::ConvertColor(fBlue) );
-        pNode->SetNodeAttributeValue(XML_GDTF_ColorSpace_WhitePoint, GdtfConverter::ConvertColor(fWhitePoint) );
-    }
-}
-
-void SceneData::GdtfColorSpace::OnReadFromNode(const IXMLFileNodePtr & pNode)
-{
-    //------------------------------------------------------------------------------------
-    // Call the parent
-    GdtfObject::OnReadFromNode(pNode);
-
-    //------------------------------------------------------------------------------------
-    // Get the attributes
-	pNode->GetNodeAttributeValue(XML_GDTF_ColorSpace_Name, fUniqueName);
-
-    TXString colorSpaceStr; pNode->GetNodeAttributeValue(XML_GDTF_ColorSpace_Mode, colorSpaceStr);
-    GdtfConverter::ConvertEGdtfColorSpace( colorSpaceStr, pNode, fColorSpace);
-    
-    if (fColorSpace == EGdtfColorSpace::Custom)
-    {
-		TXString value_red;     pNode->GetNodeAttributeValue(XML_GDTF_ColorSpace_Red,     	 value_red );  	GdtfConverter::ConvertColor(value_red   , pNode, fRed);
-		TXString value_green;   pNode->GetNodeAttributeValue(XML_GDTF_ColorSpace_Green,      value_green ); GdtfConverter::ConvertColor(value_green , pNode, fGreen);
-		TXString value_blue;    pNode->GetNodeAttributeValue(XML_GDTF_ColorSpace_Blue,       value_blue );  GdtfConverter::ConvertColor(value_blue  , pNode, fBlue);
-		TXString value_white;   pNode->GetNodeAttributeValue(XML_GDTF_ColorSpace_WhitePoint, value_white ); GdtfConverter::ConvertColor(value_white , pNode, fWhitePoint);
-    }
-}
-
-void SceneData::GdtfColorSpace::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	optional.push_back(XML_GDTF_ColorSpace_Red);
-	optional.push_back(XML_GDTF_ColorSpace_Green);
-	optional.push_back(XML_GDTF_ColorSpace_Blue);
-	optional.push_back(XML_GDTF_ColorSpace_WhitePoint);
-	optional.push_back(XML_GDTF_ColorSpace_Mode);
-	optional.push_back(XML_GDTF_ColorSpace_Name);
-
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-SceneData::GdtfFilter::GdtfFilter()
-{
-    fName = "";
-}
-
-SceneData::GdtfFilter::GdtfFilter(const TXString & name, const CCieColor &col)
-{
-    fName = name;
-    fColor = col;
-}
-
-SceneData::GdtfFilter::~GdtfFilter()
-{
-    for (GdtfMeasurement* o : fMeasurementsArray) { delete o; };
-}
-
-EGdtfObjectType SceneData::GdtfFilter::GetObjectType()
-{
-    return EGdtfObjectType::eGdtfFilter;
-}
-
-const TXString & SceneData::GdtfFilter::GetName()
-{
-    return fName;
-}
-
-CCieColor SceneData::GdtfFilter::GetColor()
-{
-    return fColor;
-}
-
-const TGdtfMeasurementArray & SceneData::GdtfFilter::GetMeasurementsArray()
-{
-    return fMeasurementsArray;
-}
-
-void SceneData::GdtfFilter::SetName(const TXString & name)
-{
-    fName = name;
-}
-
-void SceneData::GdtfFilter::SetColor(CCieColor val)
-{
-    fColor = val;
-}
-
-GdtfMeasurement* SceneData::GdtfFilter::CreateMeasurement()
-{
-    GdtfMeasurement* m= new GdtfMeasurement(true);    
-    fMeasurementsArray.push_back(m);
-
-    return m;
-}
-
-TXString SceneData::GdtfFilter::GetNodeName()
-{
-    return XML_GDTF_FilterNode;
-}
-
-void SceneData::GdtfFilter::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-    //------------------------------------------------------------------------------------
-    // Call the parent
-    GdtfObject::OnPrintToFile(pNode);
-
-    //------------------------------------------------------------------------------------
-    // Print the attributes
-    pNode->SetNodeAttributeValue(XML_GDTF_Filter_Name, fName);
-    pNode->SetNodeAttributeValue(XML_GDTF_FilterColor, GdtfConverter::ConvertColor(fColor));
-
-    //------------------------------------------------------------------------------------
-    // Print the childs
-    for (GdtfMeasurement* mes : fMeasurementsArray)
-    {
-         mes->WriteToNode(pNode);
-    }
-}
-
-void SceneData::GdtfFilter::OnReadFromNode(const IXMLFileNodePtr & pNode)
-{
-    //------------------------------------------------------------------------------------
-    // Call the parent
-    GdtfObject::OnReadFromNode(pNode);
-
-    //------------------------------------------------------------------------------------
-    // Get the attributes	
-    pNode->GetNodeAttributeValue(XML_GDTF_Filter_Name, fName);    
-    
-	// ------------------------------------------------------------------------------------
-	// Get Color
-	TXString color;
-    if (VCOM_SUCCEEDED(pNode->GetNodeAttributeValue(XML_GDTF_FilterColor, color)))
-    {
-        if (color.IsEmpty() == false)
-        {
-            GdtfConverter::ConvertColor(color, pNode, fColor);
-        }
-    }	
-
-    // Read the childs
-    GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_MeasurementNodeName, [this](IXMLFileNodePtr objNode) -> void
-    {
-		if ( CheckAbort() ) return;
-        GdtfMeasurement* measurePt = new GdtfMeasurement(true);
-
-        measurePt->ReadFromNode(objNode);
-
-        fMeasurementsArray.push_back(measurePt);
-        return;
-    });
-}
-
-TXString SceneData::GdtfFilter::GetNodeReference() 
-{
-    return GetName();
-}
-
-SceneData::GdtfMeasurement::GdtfMeasurement(bool forFilter)
-{
-    fPhysical 				= 0;
-    fLuminousIntensity 		= 0;
-    fTransmission 			= 0;
-    fInterpolationTo 		= EGdtfInterpolationTo::Linear;
-	fIsForFilter 			= forFilter;
-}
-
-SceneData::GdtfMeasurement::~GdtfMeasurement()
-{
-    for (GdtfMeasurementPoint* o : fMeasurementPoints) { delete o; };
-}
-
-EGdtfObjectType SceneData::GdtfMeasurement::GetObjectType()
-{
-    return EGdtfObjectType::eGdtfMeasurement;
-}
-
-double SceneData::GdtfMeasurement::GetPhysical()
-{
-    return fPhysical;
-}
-
-double SceneData::GdtfMeasurement::GetLuminousIntensity()
-{
-    return fLuminousIntensity;
-}
-
-double SceneData::GdtfMeasurement::GetTransmission()
-{
-    return fTransmission;
-}
-
-EGdtfInterpolationTo SceneData::GdtfMeasurement::GetInterpolationTo()
-{
-    return fInterpolationTo;
-}
-
-const TGdtfMeasurementPointArray & SceneData::GdtfMeasurement::GetMeasurementPointsArray()
-{
-    return fMeasurementPoints;
-}
-
-void SceneData::GdtfMeasurement::SetPhysical(double val)
-{
-    fPhysical = val;
-}
-
-void SceneData::GdtfMeasurement::SetLuminousIntensity(double val)
-{
-    fLuminousIntensity = val;
-}
-
-void SceneData::GdtfMeasurement::SetTransmission(double val)
-{
-    fTransmission = val;
-}
-
-void SceneData::GdtfMeasurement::SetInterpolationTo(EGdtfInterpolationTo val)
-{
-    fInterpolationTo = val;
-}
-
-GdtfMeasurementPoint* SceneData::GdtfMeasurement::CreateMeasurementPoint()
-{
-    GdtfMeasurementPointPtr mP = new GdtfMeasurementPoint();
-    fMeasurementPoints.push_back(mP);
-	return mP;
-}
-
-TXString SceneData::GdtfMeasurement::GetNodeName()
-{
-    return XML_GDTF_MeasurementNodeName;
-}
-
-void SceneData::GdtfMeasurement::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-    //------------------------------------------------------------------------------------
-    // Call the parent
-    GdtfObject::OnPrintToFile(pNode);
-
-    //------------------------------------------------------------------------------------
-    // Print the attributes 
-    pNode->SetNodeAttributeValue(XML_GDTF_MeasurementPhysical,          GdtfConverter::ConvertDouble(fPhysical) );
-
-	if(fIsForFilter) { pNode->SetNodeAttributeValue(XML_GDTF_MeasurementTransmission,      GdtfConverter::ConvertDouble(fTransmission) ); }
-	else			 { pNode->SetNodeAttributeValue(XML_GDTF_MeasurementLuminousIntensity, GdtfConverter::ConvertDouble(fLuminousIntensity) ); }
-
-    
-    pNode->SetNodeAttributeValue(XML_GDTF_MeasurementInterpolationTo,   GdtfConverter::ConvertEGdtfInterpolationTo(fInterpolationTo) );
-    //------------------------------------------------------------------------------------
-    // Print the childs
-    for (GdtfMeasurementPoint* mesPt: fMeasurementPoints)
-    {
-        mesPt->WriteToNode(pNode);
-    }
-}
-
-void SceneData::GdtfMeasurement::OnReadFromNode(const IXMLFileNodePtr & pNode)
-{
-    //------------------------------------------------------------------------------------
-    // Call the parent
-    GdtfObject::OnReadFromNode(pNode);
-
-    //------------------------------------------------------------------------------------
-    // Get the attributes	
-    TXString   physStr; pNode->GetNodeAttributeValue(XML_GDTF_MeasurementPhysical, physStr);
-    GdtfConverter::ConvertDouble( physStr, pNode, fPhysical);
-
-    TXString   lumiStr; pNode->GetNodeAttributeValue(XML_GDTF_MeasurementLuminousIntensity,  lumiStr);
-    GdtfConverter::ConvertDouble( lumiStr, pNode, fLuminousIntensity);
-
-	TXString   transmStr; pNode->GetNodeAttributeValue(XML_GDTF_MeasurementTransmission,  transmStr);    
-	GdtfConverter::ConvertDouble( transmStr, pNode, fTransmission);
-
-	TXString   interpolStr; pNode->GetNodeAttributeValue(XML_GDTF_MeasurementInterpolationTo, interpolStr);
-	GdtfConverter::ConvertEGdtfInterpolationTo(interpolStr, pNode, fInterpolationTo);
-
-    // Read the childs
-    GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_MeasurementPointNode, [this](IXMLFileNodePtr objNode) -> void
-    {
-		if ( CheckAbort() ) return;
-        GdtfMeasurementPoint* measurePt = new GdtfMeasurementPoint();
-
-        measurePt->ReadFromNode(objNode);
-
-        fMeasurementPoints.push_back(measurePt);
-        return;
-    });
-}
-
-//------------------------------------------------------------------------------------
-// GdtfConnector
-GdtfConnector::GdtfConnector()
-{
-	fDmxBreak 	= 0;
-    fGender 	= 0;
-    fLength 	= 0.0;
-}
-
-GdtfConnector::GdtfConnector(const TXString& name, const TXString& type)
-{
-	fName		= name;
-	fType		= type;
-	fDmxBreak 	= 0;
-    fGender 	= 0;
-    fLength 	= 0.0;
-}
-
-GdtfConnector::~GdtfConnector()
-{
-}
-
-void GdtfConnector::SetName(const TXString &name)
-{
-	fName = name;
-}
-
-void GdtfConnector::SetType(const TXString &type)
-{
-	fType = type;
-}
-
-void SceneData::GdtfConnector::SetDmxBreak(Uint32 dmxBreak)
-{
-    fDmxBreak = dmxBreak;
-}
-
-void SceneData::GdtfConnector::SetGender(Sint32 gender)
-{
-    fGender = gender;
-}
-
-void SceneData::GdtfConnector::SetLength(double length)
-{
-    fLength = length;
-}
-
-void GdtfConnector::OnPrintToFile(IXMLFileNodePtr pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnPrintToFile(pNode);
-	
-	// ------------------------------------------------------------------------------------
-	// Print node attributes
-	pNode->SetNodeAttributeValue(XML_GDTF_ConnectorName,		fName);
-	pNode->SetNodeAttributeValue(XML_GDTF_ConnectorType,		fType);
-	pNode->SetNodeAttributeValue(XML_GDTF_ConnectorDmxBreak, 	GdtfConverter::ConvertInteger(fDmxBreak));
-	pNode->SetNodeAttributeValue(XML_GDTF_ConnectorGender,		GdtfConverter::ConvertInteger(fGender));
-    pNode->SetNodeAttributeValue(XML_GDTF_ConnectorLength, 		GdtfConverter::ConvertDouble(fLength));
-}
-
-void GdtfConnector::OnReadFromNode(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnReadFromNode(pNode);
-	
-	// ------------------------------------------------------------------------------------
-	// Read node attributes
-	pNode->GetNodeAttributeValue(XML_GDTF_ConnectorName, fName);
-	pNode->GetNodeAttributeValue(XML_GDTF_ConnectorType, fType);
-
-    TXString dmxBreakStr;   pNode->GetNodeAttributeValue(XML_GDTF_ConnectorDmxBreak, dmxBreakStr);		
-    GdtfConverter::ConvertInteger(dmxBreakStr, pNode, fDmxBreak);
-	TXString genderStr;   pNode->GetNodeAttributeValue(XML_GDTF_ConnectorGender, genderStr);		
-    GdtfConverter::ConvertInteger(genderStr, pNode, fGender);
-	TXString lengthStr;   pNode->GetNodeAttributeValue(XML_GDTF_ConnectorLength, lengthStr);		
-    GdtfConverter::ConvertDouble(lengthStr, pNode, fLength);
-}
-
-void GdtfConnector::OnErrorCheck(const IXMLFileNodePtr& pNode)
-{
-	//------------------------------------------------------------------------------------
-	// Call the parent
-	GdtfObject::OnErrorCheck(pNode);
-
-	//------------------------------------------------------------------------------------
-	// Create needed and optional Attribute Arrays
-	TXStringArray needed;
-	TXStringArray optional;
-	needed.push_back(XML_GDTF_ConnectorName);
-	needed.push_back(XML_GDTF_ConnectorType);
-	    
-	optional.push_back(XML_GDTF_ConnectorDmxBreak);
-	optional.push_back(XML_GDTF_ConnectorGender);
-    optional.push_back(XML_GDTF_ConnectorLength);
-
-	//------------------------------------------------------------------------------------
-	// Check Attributes for node
-	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
-}
-
-EGdtfObjectType GdtfConnector::GetObjectType()
-{
-	return EGdtfObjectType::eGdtfConnector;
-}
-
-TXString GdtfConnector::GetNodeReference() 
-{
-    return GetName();
-}
-
-TXString GdtfConnector::GetNodeName()
-{
-	return XML_GDTF_ConnectorNodeName;
-}
-
-const TXString& GdtfConnector::GetName() const
-{
-	return fName;
-}
-
-const TXString& GdtfConnector::GetType() const
-{
-	return fType;
-}
-
-Uint32 GdtfConnector::GetDmxBreak()
-{
-	return fDmxBreak;
-}
-
-Sint32 GdtfConnector::GetGender()
-{
-    return fGender;
-}
-
-double GdtfConnector::GetLength()
-{
-    return fLength;
-}
+//-----------------------------------------------------------------------------
+//----- Copyright deersoft 2015 - 2017 www.deersoft.de
+//-----------------------------------------------------------------------------
+#include "GDTFManager.h"
+#include "SceneDataExchange.h"
+#include "XmlFileHelper.h"
+#include "HashManager.h"
+#include <iostream>
+#include "Utility.h"
+#include "FeedbackDispatcher.h"
+#include "Wrapper/ZIPFileImpl.h"
+
+using namespace SceneData;
+
+static std::function<void( bool& )> fAbortCallback;
+static std::mutex fAbortCallbackMutex;
+
+//------------------------------------------------------------------------------------
+// GdtfObject
+GdtfObject::GdtfObject()
+{
+	fBindValue = nullptr;
+}
+
+GdtfObject::~GdtfObject()
+{
+}
+
+void GdtfObject::WriteToNode(IXMLFileNodePtr pContainerNode)
+{
+	// Create the new node
+	IXMLFileNodePtr pNode;
+	if ( VCOM_SUCCEEDED( pContainerNode->CreateChildNode( this->GetNodeName(), & pNode ) ) )
+	{
+		// Store Node
+		fNode = pNode;
+		//-------------------------------------------------------------------------------------
+		// Now Print Everything
+		this->OnPrintToFile(pNode);
+	}
+}
+
+void GdtfObject::ReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	// Store Node
+	fNode = pNode;
+
+	TXString nodeName;
+	pNode->GetNodeName(nodeName);
+	ASSERTN(kEveryone, nodeName == GetNodeName());
+	
+	this->OnReadFromNode(pNode);
+	this->OnErrorCheck(pNode);
+}
+
+void GdtfObject::GetNode(IXMLFileNodePtr& pNode)
+{
+	pNode = fNode;
+}
+
+void GdtfObject::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	// Nothing to do here
+}
+
+void GdtfObject::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	// Nothing to read here
+}
+
+void GdtfObject::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	// Nothing to check here
+}
+
+void GdtfObject::SetBind(void* ptr)
+{
+	fBindValue = ptr;
+}
+
+void* GdtfObject::GetBind()
+{
+	return fBindValue;
+}
+
+void GdtfObject::SetAbortCallback( const std::function<void( bool& )>& cb )
+{
+	std::lock_guard<std::mutex> lock(fAbortCallbackMutex);
+	fAbortCallback = cb;
+}
+
+bool GdtfObject::CheckAbort()
+{
+	std::lock_guard<std::mutex> lock(fAbortCallbackMutex);
+	if (fAbortCallback)
+	{
+		bool abort = false;
+		fAbortCallback(abort);
+		if ( abort )
+		{
+			fAbortReading = abort;
+		}
+		return abort;
+	}
+	return false;
+}
+
+TXString GdtfObject::GetNodeReference()
+{
+	// Nothing to read here
+	DSTOP((kEveryone, "This should be never be executed. You call GetNodeReference on an object that doesn't support this."));
+	return "";
+}
+
+//------------------------------------------------------------------------------------
+// Attributes
+GdtfActivationGroup::GdtfActivationGroup(const TXString& name)
+{
+    fName = name;
+}
+
+GdtfActivationGroup::GdtfActivationGroup()
+{
+
+}
+
+GdtfActivationGroup::~GdtfActivationGroup()
+{
+    
+}
+
+void GdtfActivationGroup::SetName(const TXString & name)
+{
+	fName = name;
+}
+
+void GdtfActivationGroup::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnPrintToFile(pNode);
+	
+	
+	//------------------------------------------------------------------------------------
+	// Print the attributes
+	pNode->SetNodeAttributeValue(XML_GDTF_ActivationGroupName,				fName);
+
+}
+
+void GdtfActivationGroup::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnReadFromNode(pNode);
+	
+	
+	//------------------------------------------------------------------------------------
+	// Get the attributes
+	pNode->GetNodeAttributeValue(XML_GDTF_AttributeName,			fName);
+
+}
+
+void GdtfActivationGroup::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_ActivationGroupName);
+
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfActivationGroup::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfActivationGroup;
+}
+
+TXString GdtfActivationGroup::GetNodeName()
+{
+	return XML_GDTF_ActivationGroupNode;
+}
+
+const TXString& GdtfActivationGroup::GetName() const
+{
+	return fName;
+}
+
+const TGdtfAttributeArray& GdtfActivationGroup::GetLinkedAttributes() const
+{
+	return fLinkedAttributes;
+}
+
+void GdtfActivationGroup::AddLinkedAttribute(GdtfAttribute* attr)
+{
+	fLinkedAttributes.push_back(attr);
+}
+
+TXString GdtfActivationGroup::GetNodeReference()
+{
+	return GetName();
+}
+
+
+//------------------------------------------------------------------------------------
+// GdtfFeature
+GdtfFeature::GdtfFeature(GdtfFeatureGroup* parent)
+{    
+	ASSERTN (kEveryone, parent);	
+	fParent = parent;
+}
+
+GdtfFeature::~GdtfFeature()
+{
+}
+
+void GdtfFeature::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnPrintToFile(pNode);
+	
+	
+	//------------------------------------------------------------------------------------
+	// Print the attributes
+	pNode->SetNodeAttributeValue(XML_GDTF_FeatureName,				fName);
+
+}
+
+void GdtfFeature::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnReadFromNode(pNode);
+	
+	
+	//------------------------------------------------------------------------------------
+	// Get the attributes
+	pNode->GetNodeAttributeValue(XML_GDTF_FeatureName,			fName);
+
+}
+
+void GdtfFeature::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_FeatureName);
+	
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfFeature::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfFeature;
+}
+
+TXString GdtfFeature::GetNodeName()
+{
+	return XML_GDTF_FeatureNode;
+}
+
+const TXString& GdtfFeature::GetName() const
+{
+	return fName;
+}
+
+GdtfFeatureGroup* GdtfFeature::GetFeatureGroup() const
+{
+	return fParent;
+}
+
+const TGdtfAttributeArray& GdtfFeature::GetLinkedAttributes() const
+{
+	return fLinkedAttributes;
+}
+
+void GdtfFeature::AddLinkedAttribute(GdtfAttribute* attr)
+{
+	fLinkedAttributes.push_back(attr);
+}
+
+
+void GdtfFeature::SetName(const TXString & name)
+{
+	fName = name;
+}
+
+TXString GdtfFeature::GetNodeReference()
+{
+	TXString ref = fParent->GetName() + "." + GetName();
+	return ref;
+}
+
+//------------------------------------------------------------------------------------
+// Attributes
+GdtfFeatureGroup::GdtfFeatureGroup()
+{
+	
+}
+
+GdtfFeatureGroup::GdtfFeatureGroup(const TXString& name, const TXString& prettyName)
+{
+	fName = name;
+	fPrettyName = prettyName;
+}
+
+GdtfFeatureGroup::~GdtfFeatureGroup()
+{
+	for (GdtfFeaturePtr pFeature : fFeatures) { delete pFeature; }
+}
+
+void GdtfFeatureGroup::SetName(const TXString& name)
+{
+	fName = name;
+}
+
+void GdtfFeatureGroup::SetPrettyName(const TXString& prettyName)
+{
+	fPrettyName = prettyName;
+}
+
+void GdtfFeatureGroup::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnPrintToFile(pNode);
+	
+	
+	//------------------------------------------------------------------------------------
+	// Print the attributes
+	pNode->SetNodeAttributeValue(XML_GDTF_FeatureGroupName,					fName);
+	pNode->SetNodeAttributeValue(XML_GDTF_FeatureGroupPrettyName,			fPrettyName);
+	
+	//------------------------------------------------------------------------------------
+	// Print the childs
+	for (GdtfFeature* feature : fFeatures)
+	{
+		feature->WriteToNode(pNode);
+	}	
+}
+
+void GdtfFeatureGroup::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnReadFromNode(pNode);
+	
+	
+	//------------------------------------------------------------------------------------
+	// Get the attributes
+	pNode->GetNodeAttributeValue(XML_GDTF_FeatureGroupName,					fName);
+	pNode->GetNodeAttributeValue(XML_GDTF_FeatureGroupPrettyName,			fPrettyName);
+	
+
+	
+	//------------------------------------------------------------------------------------
+	// Read the childs
+	GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_FeatureNode, [this] (IXMLFileNodePtr objNode) -> void
+								 { 
+									 if ( CheckAbort() ) return;
+									 GdtfFeaturePtr feature = new GdtfFeature(this);
+									 
+									 feature->ReadFromNode(objNode);
+									 
+									 fFeatures.push_back(feature);
+									 return;
+								 });
+	
+}
+
+void GdtfFeatureGroup::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_FeatureGroupName);
+	needed.push_back(XML_GDTF_FeatureGroupPrettyName);
+	
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfFeatureGroup::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfFeatureGroup;
+}
+TXString GdtfFeatureGroup::GetNodeName()
+{
+	return XML_GDTF_FeatureGroupNode;
+}
+
+GdtfFeature* GdtfFeatureGroup::AddFeature(const TXString& name)
+{
+	GdtfFeature* feature = new GdtfFeature(this);
+	feature->SetName(name);
+	fFeatures.push_back(feature);
+	return feature;
+}
+
+
+const TXString& GdtfFeatureGroup::GetName() const
+{
+	return fName;
+}
+
+const TXString& GdtfFeatureGroup::GetPrettyName() const
+{
+	return fPrettyName;
+}
+
+const TGdtfFeatureArray& GdtfFeatureGroup::GetFeatureArray()
+{
+	return fFeatures;
+}
+
+//------------------------------------------------------------------------------------
+// GdtfSubPhysicalUnit
+GdtfSubPhysicalUnit::GdtfSubPhysicalUnit()
+{
+	fType = EGdtfSubPhysicalUnitType::PlacementOffset;
+	fPhysicalUnit = EGdtfPhysicalUnit::None;
+	fPhysicalFrom = 0.0;
+	fPhysicalTo = 0.0;
+}
+
+GdtfSubPhysicalUnit::GdtfSubPhysicalUnit(EGdtfSubPhysicalUnitType type)
+{
+	fType 			= type;
+	fPhysicalUnit 	= GdtfConverter::GetUnitFromSubPhysical(type);
+	fPhysicalFrom = 0.0;
+	fPhysicalTo = 0.0;
+}
+
+GdtfSubPhysicalUnit::~GdtfSubPhysicalUnit()
+{
+}
+
+EGdtfSubPhysicalUnitType GdtfSubPhysicalUnit::GetType() const
+{
+	return fType;
+}
+
+EGdtfPhysicalUnit GdtfSubPhysicalUnit::GetPhysicalUnit() const
+{
+	return fPhysicalUnit;
+}
+
+double GdtfSubPhysicalUnit::GetPhysicalFrom() const
+{
+	return fPhysicalFrom;
+}
+
+double GdtfSubPhysicalUnit::GetPhysicalTo() const
+{
+	return fPhysicalTo;
+}
+
+void GdtfSubPhysicalUnit::SetType(const EGdtfSubPhysicalUnitType& type)
+{
+	fType 			= type;
+	fPhysicalUnit 	= GdtfConverter::GetUnitFromSubPhysical(type);
+}
+
+void GdtfSubPhysicalUnit::SetPhysicalUnit(const EGdtfPhysicalUnit& physicalUnit)
+{
+	fPhysicalUnit = physicalUnit;
+}
+
+void GdtfSubPhysicalUnit::SetPhysicalFrom(double physicalFrom)
+{
+	fPhysicalFrom = physicalFrom;
+}
+
+void GdtfSubPhysicalUnit::SetPhysicalTo(double physicalTo)
+{
+	fPhysicalTo = physicalTo;
+}
+
+void GdtfSubPhysicalUnit::OnPrintToFile(IXMLFileNodePtr pNode) 
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnPrintToFile(pNode);
+
+	pNode->SetNodeAttributeValue(XML_GDTF_SubPhysicalUnitType,			GdtfConverter::ConvertSubPhysicalUnitTypeEnum(fType));
+	pNode->SetNodeAttributeValue(XML_GDTF_SubPhysicalUnitPhysicalUnit,	GdtfConverter::ConvertPhysicalUnitEnum(fPhysicalUnit));
+	pNode->SetNodeAttributeValue(XML_GDTF_SubPhysicalUnitPhysicalFrom,	GdtfConverter::ConvertDouble(fPhysicalFrom));
+	pNode->SetNodeAttributeValue(XML_GDTF_SubPhysicalUnitPhysicalTo,	GdtfConverter::ConvertDouble(fPhysicalTo));
+}
+
+void GdtfSubPhysicalUnit::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnReadFromNode(pNode);
+
+	TXString type;			pNode->GetNodeAttributeValue(XML_GDTF_SubPhysicalUnitType,	type);					GdtfConverter::ConvertSubPhysicalUnitTypeEnum(type, 	pNode,	fType);
+	TXString physicalUnit;	pNode->GetNodeAttributeValue(XML_GDTF_SubPhysicalUnitPhysicalUnit,	physicalUnit);	GdtfConverter::ConvertPhysicalUnitEnum(physicalUnit, 	pNode,	fPhysicalUnit);
+	TXString physicalFrom;	pNode->GetNodeAttributeValue(XML_GDTF_SubPhysicalUnitPhysicalFrom,	physicalFrom);	GdtfConverter::ConvertDouble(physicalFrom, 	pNode,	fPhysicalFrom);
+	TXString physicalTo;	pNode->GetNodeAttributeValue(XML_GDTF_SubPhysicalUnitPhysicalTo,	physicalTo);	GdtfConverter::ConvertDouble(physicalTo, 	pNode,	fPhysicalTo);
+}
+
+void GdtfSubPhysicalUnit::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_SubPhysicalUnitType);
+	needed.push_back(XML_GDTF_SubPhysicalUnitPhysicalUnit);
+	optional.push_back(XML_GDTF_SubPhysicalUnitPhysicalFrom);
+	optional.push_back(XML_GDTF_SubPhysicalUnitPhysicalTo);
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfSubPhysicalUnit::GetObjectType() 
+{
+	return EGdtfObjectType::eGdtfSubPhysicalUnit;
+}
+
+TXString GdtfSubPhysicalUnit::GetNodeReference() 
+{
+	return GdtfConverter::ConvertSubPhysicalUnitTypeEnum(fType);
+}
+
+TXString GdtfSubPhysicalUnit::GetNodeName()
+{
+	return XML_GDTF_SubPhysicalUnitNodeName;
+}
+
+//------------------------------------------------------------------------------------
+// Attributes
+GdtfAttribute::GdtfAttribute()
+{
+	fActivationGroup	= nullptr;
+	fFeature            = nullptr;
+    fMainAttribute      = nullptr;
+    fPhysicalUnit       = EGdtfPhysicalUnit::None;
+	fHasColor 			= false;
+
+}
+
+GdtfAttribute::GdtfAttribute(const TXString& name, const TXString& prettyName)
+{
+	fName				= name;
+	fPrettyName			= prettyName;
+	fActivationGroup	= nullptr;
+	fFeature            = nullptr;    
+    fMainAttribute      = nullptr;
+    fPhysicalUnit       = EGdtfPhysicalUnit::None;
+	fHasColor 			= false;
+}
+
+GdtfAttribute::~GdtfAttribute()
+{
+	for(GdtfSubPhysicalUnitPtr subPhysicalUnit : fSubPhysicalUnits) { delete subPhysicalUnit; }
+}
+
+void GdtfAttribute::SetName(const TXString &name)
+{
+	fName = name;
+}
+
+void GdtfAttribute::SetPrettyName(const TXString &name)
+{
+	fPrettyName = name;
+}
+
+void GdtfAttribute::SetActivationGroup(GdtfActivationGroupPtr ptr)
+{
+	ASSERTN(kEveryone, fActivationGroup == nullptr);
+	fActivationGroup = ptr;
+	
+	ASSERTN(kEveryone, ptr != nullptr);
+	if (ptr) { ptr->AddLinkedAttribute(this); }
+}
+
+void SceneData::GdtfAttribute::SetMainAttribute(GdtfAttribute * attr)
+{
+    fMainAttribute = attr;
+}
+
+void SceneData::GdtfAttribute::SetPhysicalUnit(EGdtfPhysicalUnit unit)
+{
+    fPhysicalUnit = unit;
+}
+
+void SceneData::GdtfAttribute::SetColor(const CCieColor & col)
+{
+	fHasColor = true;
+    fColor = col;
+}
+
+GdtfSubPhysicalUnitPtr GdtfAttribute::CreateSubPhysicalUnit(EGdtfSubPhysicalUnitType type)
+{
+	GdtfSubPhysicalUnitPtr subPhysicalUnit = new GdtfSubPhysicalUnit(type);
+    fSubPhysicalUnits.push_back(subPhysicalUnit);
+	return subPhysicalUnit;
+}
+
+void GdtfAttribute::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnPrintToFile(pNode);
+	
+	ASSERTN(kEveryone, fFeature);
+
+	//------------------------------------------------------------------------------------
+	// Print the attributes
+	pNode->SetNodeAttributeValue(XML_GDTF_AttributeName,				fName);
+	pNode->SetNodeAttributeValue(XML_GDTF_AttributePrettyName,			fPrettyName);
+	if (fActivationGroup)	{ pNode->SetNodeAttributeValue(XML_GDTF_AttributeActGroup,	fActivationGroup->GetNodeReference()); }
+	if (fFeature)			{ pNode->SetNodeAttributeValue(XML_GDTF_AttributeFeature,	fFeature->GetNodeReference() );	}	
+    if (fMainAttribute)     { pNode->SetNodeAttributeValue(XML_GDTF_AttributefMainAttribute, fMainAttribute->GetNodeReference()); }
+	if(fHasColor) 			{ pNode->SetNodeAttributeValue(XML_GDTF_AttributeColor, GdtfConverter::ConvertColor(fColor)); }
+
+    pNode->SetNodeAttributeValue(XML_GDTF_AttributePhysicalUnit, GdtfConverter::ConvertPhysicalUnitEnum(fPhysicalUnit));
+
+	for(GdtfSubPhysicalUnitPtr subPhysicalUnit : fSubPhysicalUnits)
+	{
+		subPhysicalUnit->WriteToNode(pNode);
+	}
+	
+}
+
+void GdtfAttribute::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{    
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnReadFromNode(pNode);
+	
+	
+	//------------------------------------------------------------------------------------
+	// Get the attributes
+	pNode->GetNodeAttributeValue(XML_GDTF_AttributeName,			fName);
+	pNode->GetNodeAttributeValue(XML_GDTF_AttributePrettyName,		fPrettyName);
+	
+	pNode->GetNodeAttributeValue(XML_GDTF_AttributeActGroup, fUnresolvedActGroup);
+	pNode->GetNodeAttributeValue(XML_GDTF_AttributeFeature, fUnresolvedFeature);   
+    pNode->GetNodeAttributeValue(XML_GDTF_AttributefMainAttribute, fUnresolvedMainAttrib);
+    TXString physicalUnitStr; pNode->GetNodeAttributeValue(XML_GDTF_AttributePhysicalUnit, physicalUnitStr); 	GdtfConverter::ConvertPhysicalUnitEnum(physicalUnitStr, pNode, fPhysicalUnit);
+
+	TXString colorStr; 
+	if(VCOM_SUCCEEDED(pNode->GetNodeAttributeValue(XML_GDTF_AttributeColor, colorStr)))
+	{
+		GdtfConverter::ConvertColor(colorStr, pNode, fColor);
+		fHasColor = true;
+	}
+
+	GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_SubPhysicalUnitNodeName, [this] (IXMLFileNodePtr objNode) -> void
+								 {
+									if ( CheckAbort() ) return;
+									 // Create the object
+									 GdtfSubPhysicalUnitPtr subPhysicalUnit = new GdtfSubPhysicalUnit();
+									 
+									 // Read from node
+									 subPhysicalUnit->ReadFromNode(objNode);
+									 
+									 // Add to list
+									 fSubPhysicalUnits.push_back(subPhysicalUnit);
+									 return;
+								 });
+}
+
+void GdtfAttribute::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_AttributeName);
+	needed.push_back(XML_GDTF_AttributePrettyName);
+	needed.push_back(XML_GDTF_AttributeFeature);
+	optional.push_back(XML_GDTF_AttributeActGroup);
+	optional.push_back(XML_GDTF_AttributefMainAttribute);
+	optional.push_back(XML_GDTF_AttributePhysicalUnit);
+	optional.push_back(XML_GDTF_AttributeColor);
+
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfAttribute::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfAttribute;
+}
+TXString GdtfAttribute::GetNodeName()
+{
+	return XML_GDTF_AttributeNode;
+}
+
+const TXString& GdtfAttribute::GetName() const
+{
+	return fName;
+}
+
+const TXString& GdtfAttribute::GetPrettyName() const
+{
+	return fPrettyName;
+}
+
+GdtfActivationGroupPtr GdtfAttribute::GetActivationGroup() const
+{
+	return fActivationGroup;
+}
+
+GdtfFeaturePtr GdtfAttribute::GetFeature() const
+{
+	return fFeature;
+}
+
+bool GdtfAttribute::HasColor() const
+{
+	return fHasColor;
+}
+
+const TGdtfSubPhysicalUnitArray& GdtfAttribute::GetSubPhysicalUnitArray() const
+{
+	return fSubPhysicalUnits;
+}		
+
+void GdtfAttribute::SetFeature(GdtfFeaturePtr newFeat)
+{
+	ASSERTN(kEveryone, fFeature == nullptr);
+	fFeature = newFeat;
+	
+	ASSERTN(kEveryone, newFeat != nullptr);
+	if (newFeat) { newFeat->AddLinkedAttribute(this); }
+}
+
+GdtfAttribute * SceneData::GdtfAttribute::GetMainAttribute()
+{
+    return fMainAttribute;
+}
+
+EGdtfPhysicalUnit SceneData::GdtfAttribute::GetPhysicalUnit()
+{
+    return fPhysicalUnit;
+}
+
+CCieColor SceneData::GdtfAttribute::GetColor()
+{
+    return fColor;
+}
+
+TXString GdtfAttribute::GetNodeReference()
+{
+	return GetName();
+}
+
+const TXString& GdtfAttribute::GetUnresolvedActGroup() const
+{
+	return fUnresolvedActGroup;
+}
+
+const TXString& GdtfAttribute::GetUnresolvedMainAttribute() const
+{
+	return fUnresolvedMainAttrib;
+}
+
+const TXString& GdtfAttribute::GetUnresolvedFeature() const
+{
+	return fUnresolvedFeature;
+}
+
+//------------------------------------------------------------------------------------
+// GdtfWheel
+GdtfWheel::GdtfWheel(GdtfFixture* parentFixture)
+{
+	fParentFixture	= parentFixture;
+}
+
+GdtfWheel::GdtfWheel(GdtfFixture* parentFixture, const TXString& name)
+{
+	fName			= name;
+	fParentFixture	= parentFixture;
+}
+
+GdtfWheel::~GdtfWheel()
+{
+	for (GdtfWheelSlotPtr ptr : fWheelSlots) { delete ptr; }
+}
+
+GdtfWheelSlotPtr GdtfWheel::AddWheelSlot(const TXString& name)
+{
+	// Add Slot
+	GdtfWheelSlot* slot  = new GdtfWheelSlot(name, this);
+	
+	fWheelSlots.push_back(slot);
+	
+	return slot;
+}
+
+void GdtfWheel::SetName(const TXString &name)
+{
+	fName = name;
+}
+
+bool GdtfWheel::IsGoboWheel() const
+{
+	for (GdtfWheelSlot* slot : fWheelSlots)
+	{
+		if (slot->GetGobo().IsEmpty()) { return false; }
+	}
+	
+	return true;
+}
+
+TXString GdtfWheel::GetNodeReference()
+{
+	return GetName();
+}
+
+GdtfFixture* GdtfWheel::GetParentFixture() const
+{
+	return fParentFixture;
+}
+
+const TGdtfWheelSlotArray& GdtfWheel::GetWheelSlotArray() const
+{
+	return fWheelSlots;
+}
+
+void GdtfWheel::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnPrintToFile(pNode);
+	
+	//------------------------------------------------------------------------------------
+	// Print the attributes
+	pNode->SetNodeAttributeValue(XML_GDTF_WheelName,			fName);
+	
+	//------------------------------------------------------------------------------------
+	// Print the childs
+	for (GdtfWheelSlot* wheelSlotObj : fWheelSlots)
+	{
+		wheelSlotObj->WriteToNode(pNode);
+	}
+}
+
+void GdtfWheel::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnReadFromNode(pNode);
+	
+	
+	//------------------------------------------------------------------------------------
+	// Get the attributes
+	pNode->GetNodeAttributeValue(XML_GDTF_WheelName,			fName);
+		
+	//------------------------------------------------------------------------------------
+	// Read the wheel slots
+	GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_WheelSlotNodeName, [this] (IXMLFileNodePtr objNode) -> void
+								 {   
+									if ( CheckAbort() ) return;
+									 // Create the object
+									 GdtfWheelSlotPtr wheelSlot = new GdtfWheelSlot(this);
+									 
+									 // Read from node
+									 wheelSlot->ReadFromNode(objNode);
+									 
+									 // Add to list
+									 fWheelSlots.push_back(wheelSlot);
+									 return;
+								 });
+
+	
+}
+
+void GdtfWheel::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_WheelName);
+	
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfWheel::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfWheel;
+}
+
+TXString GdtfWheel::GetNodeName()
+{
+	return XML_GDTF_WheelNodeName;
+}
+
+const TXString& GdtfWheel::GetName() const
+{
+	return fName;
+}
+
+//------------------------------------------------------------------------------------
+// GdtfWheelSlotPrismFacet
+GdtfWheelSlotPrismFacet::GdtfWheelSlotPrismFacet()
+{
+	fColor = CCieColor(0.3127,0.3290,100.0);
+}
+
+GdtfWheelSlotPrismFacet::~GdtfWheelSlotPrismFacet()
+{
+}
+
+void GdtfWheelSlotPrismFacet::SetColor(const CCieColor &color)
+{
+	fColor = color;
+}
+
+void GdtfWheelSlotPrismFacet::SetTransformMatrix(const VWFC::Math::VWTransformMatrix &ma)
+{
+	fTransform = ma;
+}
+
+void GdtfWheelSlotPrismFacet::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnPrintToFile(pNode);
+	
+	pNode->SetNodeAttributeValue(XML_GDTF_PrismFacetColor,		GdtfConverter::ConvertColor(fColor));
+	pNode->SetNodeAttributeValue(XML_GDTF_PrismFacetRotation,	GdtfConverter::ConvertRotation(fTransform));
+}
+
+CCieColor GdtfWheelSlotPrismFacet::GetColor()
+{
+	return fColor;
+}
+
+VWTransformMatrix GdtfWheelSlotPrismFacet::GetTransformMatrix()
+{
+	return fTransform;
+}
+
+void GdtfWheelSlotPrismFacet::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnReadFromNode(pNode);
+	
+	TXString color;		pNode->GetNodeAttributeValue(XML_GDTF_PrismFacetColor,		color);		GdtfConverter::ConvertColor(color, pNode, fColor);
+	TXString transfrom;	pNode->GetNodeAttributeValue(XML_GDTF_PrismFacetRotation,	transfrom);	GdtfConverter::ConvertRotation(transfrom, pNode, fTransform);
+	
+}
+
+void GdtfWheelSlotPrismFacet::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_PrismFacetRotation);
+	optional.push_back(XML_GDTF_PrismFacetColor);
+	
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfWheelSlotPrismFacet::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfPrismFacet;
+}
+TXString GdtfWheelSlotPrismFacet::GetNodeName()
+{
+	return XML_GDTF_PrismFacetNodeName;
+}
+
+//------------------------------------------------------------------------------------
+// GdtfWheelSlotAnimationSystem
+GdtfWheelSlotAnimationSystem::GdtfWheelSlotAnimationSystem()
+{
+}
+
+GdtfWheelSlotAnimationSystem::~GdtfWheelSlotAnimationSystem()
+{
+}
+
+double GdtfWheelSlotAnimationSystem::GetP1_X()
+{
+	return fP1_X;
+}
+
+double GdtfWheelSlotAnimationSystem::GetP1_Y()
+{
+	return fP1_Y;
+}
+
+double GdtfWheelSlotAnimationSystem::GetP2_X()
+{
+	return fP2_X;
+}
+
+double GdtfWheelSlotAnimationSystem::GetP2_Y()
+{
+	return fP2_Y;
+}
+
+double GdtfWheelSlotAnimationSystem::GetP3_X()
+{
+	return fP3_X;
+}
+
+double GdtfWheelSlotAnimationSystem::GetP3_Y()
+{
+	return fP3_Y;
+}
+
+double GdtfWheelSlotAnimationSystem::GetRadius()
+{
+	return fRadius;
+}
+
+void GdtfWheelSlotAnimationSystem::SetP1_X(double p1_X)
+{
+	fP1_X = p1_X;
+}
+
+void GdtfWheelSlotAnimationSystem::SetP1_Y(double p1_Y)
+{
+	fP1_Y = p1_Y;
+}
+
+void GdtfWheelSlotAnimationSystem::SetP2_X(double p2_X)
+{
+	fP2_X = p2_X;
+}
+
+void GdtfWheelSlotAnimationSystem::SetP2_Y(double p2_Y)
+{
+	fP2_Y = p2_Y;
+}
+
+void GdtfWheelSlotAnimationSystem::SetP3_X(double p3_X)
+{
+	fP3_X = p3_X;
+}
+
+void GdtfWheelSlotAnimationSystem::SetP3_Y(double p3_Y)
+{
+	fP3_Y = p3_Y;
+}
+
+void GdtfWheelSlotAnimationSystem::SetRadius(double radius)
+{
+	fRadius = radius;
+}
+
+void GdtfWheelSlotAnimationSystem::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnPrintToFile(pNode);
+	
+	pNode->SetNodeAttributeValue(XML_GDTF_AnimationSystemP1,		GdtfConverter::Convert2DPoint(fP1_X, fP1_Y));
+	pNode->SetNodeAttributeValue(XML_GDTF_AnimationSystemP2,		GdtfConverter::Convert2DPoint(fP2_X, fP2_Y));
+	pNode->SetNodeAttributeValue(XML_GDTF_AnimationSystemP3,		GdtfConverter::Convert2DPoint(fP3_X, fP3_Y));
+	pNode->SetNodeAttributeValue(XML_GDTF_AnimationSystemRadius,	GdtfConverter::ConvertDouble(fRadius));
+}
+
+void GdtfWheelSlotAnimationSystem::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnReadFromNode(pNode);
+	
+	TXString p1;		pNode->GetNodeAttributeValue(XML_GDTF_AnimationSystemP1,		p1);		GdtfConverter::Convert2DPoint(p1, pNode, fP1_X, fP1_Y);
+	TXString p2;		pNode->GetNodeAttributeValue(XML_GDTF_AnimationSystemP2,		p2);		GdtfConverter::Convert2DPoint(p2, pNode, fP2_X, fP2_Y);
+	TXString p3;		pNode->GetNodeAttributeValue(XML_GDTF_AnimationSystemP3,		p3);		GdtfConverter::Convert2DPoint(p3, pNode, fP3_X, fP3_Y);
+	TXString radius;	pNode->GetNodeAttributeValue(XML_GDTF_AnimationSystemRadius,	radius);	GdtfConverter::ConvertDouble(radius, pNode, fRadius);
+}
+
+void GdtfWheelSlotAnimationSystem::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_AnimationSystemP1);
+	needed.push_back(XML_GDTF_AnimationSystemP2);
+	needed.push_back(XML_GDTF_AnimationSystemP3);
+	needed.push_back(XML_GDTF_AnimationSystemRadius);
+	
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfWheelSlotAnimationSystem::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfAnimationSystem;
+}
+
+TXString GdtfWheelSlotAnimationSystem::GetNodeName()
+{
+	return XML_GDTF_AnimationSystemNodeName;
+}
+
+//------------------------------------------------------------------------------------
+// GdtfWheelSlot
+GdtfWheelSlot::GdtfWheelSlot(GdtfWheel* parent)
+{
+	fWheelParent 		= parent;
+	fFilter 	 		= nullptr;
+	fAnimationSystem	= nullptr;
+	fDuration			= 0.0;
+	fWidth				= 0;
+	fHeight				= 0;
+	fFPS				= 0;
+}
+
+GdtfWheelSlot::GdtfWheelSlot(const TXString& name, GdtfWheel* parent)
+{
+	fName		 		= name;
+	fWheelParent 		= parent;
+	fFilter		 		= nullptr;
+	fAnimationSystem	= nullptr;
+	fDuration			= 0.0;
+	fWidth				= 0;
+	fHeight				= 0;
+	fFPS				= 0;
+}
+
+
+GdtfWheelSlot::~GdtfWheelSlot()
+{
+	for(GdtfWheelSlotPrismFacet* facet : fPrismFacts) { delete facet; };
+	if(fAnimationSystem){
+		delete fAnimationSystem;
+	}
+}
+
+void GdtfWheelSlot::SetName(const TXString &name)
+{
+	fName = name;
+}
+
+void GdtfWheelSlot::SetGobo(const GdtfPNGFile& png)
+{
+	fGobo = png;
+}
+
+void GdtfWheelSlot::SetColor(const CCieColor& color)
+{
+	fColor = color;
+}
+
+void GdtfWheelSlot::SetFilter(GdtfFilter* filter)
+{
+	fFilter = filter;
+}
+
+GdtfWheelSlotPrismFacet* GdtfWheelSlot::AddPrismFacet()
+{
+	GdtfWheelSlotPrismFacet* prism = new GdtfWheelSlotPrismFacet();
+	fPrismFacts.push_back(prism);
+	return prism;
+}
+
+GdtfWheelSlotAnimationSystem* GdtfWheelSlot::AddAnimationSystem()
+{
+	if(fAnimationSystem){
+		delete fAnimationSystem;
+	}
+	GdtfWheelSlotAnimationSystem* animationSystem = new GdtfWheelSlotAnimationSystem();
+	fAnimationSystem = animationSystem;
+	return animationSystem;
+}
+
+const TXString&	GdtfWheelSlot::GetGobo() const
+{
+	return fGobo;
+}
+
+GdtfFilter*	GdtfWheelSlot::GetFilter() const
+{
+	return fFilter;
+}
+
+const TXString&	GdtfWheelSlot::GetUnresolvedFilter() const
+{
+	return fUnresolvedFilter;
+}
+
+const TXString&	GdtfWheelSlot::GetGoboFileFullPath()
+{
+	fGoboFile = "";
+
+	IFolderIdentifierPtr	folder;
+	fWheelParent->GetParentFixture()->GetWorkingFolder(folder);
+
+	IFolderIdentifierPtr wheelsFolder (IID_FolderIdentifier);
+ 	wheelsFolder->Set(folder, "wheels");
+	
+	IFileIdentifierPtr file (IID_FileIdentifier);		 	
+ 	file->Set(wheelsFolder, fGobo + ".png");
+	bool fileExists = false;
+ 	if(VCOM_SUCCEEDED(file->ExistsOnDisk(fileExists)) && fileExists)		 	
+	{			
+		file->GetFileFullPath(fGoboFile);				
+	}			
+
+	
+	// Return
+	return fGoboFile;
+}
+
+CCieColor GdtfWheelSlot::GetColor() const
+{
+	return fColor;
+}
+
+const TXString& GdtfWheelSlot::GetName() const
+{
+	return fName;
+}
+
+void GdtfWheelSlot::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnPrintToFile(pNode);
+	
+	
+	// ------------------------------------------------------------------------------------
+	// Print node attributes
+	pNode->SetNodeAttributeValue(XML_GDTF_WheelSlotName,	fName);
+	pNode->SetNodeAttributeValue(XML_GDTF_WheelSlotColor,		GdtfConverter::ConvertColor(fColor));
+	if(fGobo != "")	{ pNode->SetNodeAttributeValue(XML_GDTF_WheelSlotPicture,	fGobo); }
+	if(fFilter)	{ pNode->SetNodeAttributeValue(XML_GDTF_WheelSlotFilter,		fFilter->GetNodeReference()); }
+	if(fDuration != 0.0)	{ pNode->SetNodeAttributeValue(XML_GDTF_WheelSlotDuration,	GdtfConverter::ConvertDouble(fDuration)); }
+	if(fWidth != 0)			{ pNode->SetNodeAttributeValue(XML_GDTF_WheelSlotWidth,		GdtfConverter::ConvertInteger(fWidth)); }
+	if(fHeight != 0)		{ pNode->SetNodeAttributeValue(XML_GDTF_WheelSlotHeight,	GdtfConverter::ConvertInteger(fHeight)); }
+	if(fFPS != 0)			{ pNode->SetNodeAttributeValue(XML_GDTF_WheelSlotFPS,		GdtfConverter::ConvertInteger(fFPS)); }
+	
+	//------------------------------------------------------------------------------------
+	// Print the children
+	for (GdtfWheelSlotPrismFacet* prism : fPrismFacts)
+	{
+		prism->WriteToNode(pNode);
+	}
+
+	//------------------------------------------------------------------------------------
+	// Print the animation system
+	if(fAnimationSystem) { fAnimationSystem->WriteToNode(pNode); }
+}
+
+void GdtfWheelSlot::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnReadFromNode(pNode);
+
+	
+	// ------------------------------------------------------------------------------------
+	// Get Name
+	pNode->GetNodeAttributeValue(XML_GDTF_WheelSlotName,	fName);
+	
+	// ------------------------------------------------------------------------------------
+	// Get Color
+	TXString color;
+	if (VCOM_SUCCEEDED(pNode->GetNodeAttributeValue(XML_GDTF_WheelSlotColor, color)))
+	{
+		if (color.IsEmpty() == false)
+		{
+            GdtfConverter::ConvertColor(color, pNode, this->fColor);
+		}
+	}
+	
+	// ------------------------------------------------------------------------------------
+	// Get Gobo
+	pNode->GetNodeAttributeValue(XML_GDTF_WheelSlotPicture, fGobo);
+	
+
+	pNode->GetNodeAttributeValue(XML_GDTF_WheelSlotFilter,	fUnresolvedFilter);
+
+	TXString duration, width, height, fps;
+	pNode->GetNodeAttributeValue(XML_GDTF_WheelSlotDuration,	duration);
+	pNode->GetNodeAttributeValue(XML_GDTF_WheelSlotWidth,		width);
+	pNode->GetNodeAttributeValue(XML_GDTF_WheelSlotHeight,		height);
+	pNode->GetNodeAttributeValue(XML_GDTF_WheelSlotFPS,			fps);
+	if(!duration.IsEmpty())	{ GdtfConverter::ConvertDouble(duration,	pNode, fDuration); }
+	if(!width.IsEmpty())	{ GdtfConverter::ConvertInteger(width,		pNode, fWidth); }
+	if(!height.IsEmpty())	{ GdtfConverter::ConvertInteger(height,		pNode, fHeight); }
+	if(!fps.IsEmpty())		{ GdtfConverter::ConvertInteger(fps,		pNode, fFPS); }
+	
+	//------------------------------------------------------------------------------------
+	// Read the wheel slots
+	GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_PrismFacetNodeName, [this] (IXMLFileNodePtr objNode) -> void
+								{
+									if ( CheckAbort() ) return;
+									// Create the object
+									GdtfWheelSlotPrismFacetPtr facet = new GdtfWheelSlotPrismFacet();
+									
+									// Read from node
+									facet->ReadFromNode(objNode);
+									
+									// Add to list
+									fPrismFacts.push_back(facet);
+									return;
+								});
+	
+	//Animation System
+	IXMLFileNodePtr animationSystemNode;
+	pNode->GetChildNode(XML_GDTF_AnimationSystemNodeName, &animationSystemNode);
+	if(animationSystemNode != nullptr)
+	{
+		if(fAnimationSystem){
+			delete fAnimationSystem;
+		}
+		GdtfWheelSlotAnimationSystemPtr animationSystem = new GdtfWheelSlotAnimationSystem();
+		animationSystem->ReadFromNode(animationSystemNode);
+		fAnimationSystem = animationSystem;
+	}
+	
+
+}
+
+void GdtfWheelSlot::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_WheelSlotName);
+	optional.push_back(XML_GDTF_WheelSlotColor);
+	optional.push_back(XML_GDTF_WheelSlotPicture);
+	optional.push_back(XML_GDTF_WheelSlotFilter);
+	optional.push_back(XML_GDTF_WheelSlotDuration);
+	optional.push_back(XML_GDTF_WheelSlotWidth);
+	optional.push_back(XML_GDTF_WheelSlotHeight);
+	optional.push_back(XML_GDTF_WheelSlotFPS);
+
+	
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfWheelSlot::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfWheelSlot;
+}
+TXString GdtfWheelSlot::GetNodeName()
+{
+	return XML_GDTF_WheelSlotNodeName;
+}
+
+TGdtfWheelSlotPrismFacetArray GdtfWheelSlot::GetPrismFacets()
+{
+	return fPrismFacts;
+}
+
+TXString GdtfWheelSlot::GetNodeReference()
+{
+	TXString ref = fWheelParent->GetNodeReference() + "." + GetName();
+	return ref;
+}
+
+GdtfWheelSlotAnimationSystem* GdtfWheelSlot::GetAnimationSystem() const
+{
+	return fAnimationSystem;
+}
+
+double GdtfWheelSlot::GetDuration() const { return fDuration; }
+size_t GdtfWheelSlot::GetWidth()    const { return fWidth; }
+size_t GdtfWheelSlot::GetHeight()   const { return fHeight; }
+size_t GdtfWheelSlot::GetFPS()      const { return fFPS; }
+
+void GdtfWheelSlot::SetDuration(double duration) { fDuration = duration; }
+void GdtfWheelSlot::SetWidth(size_t width)       { fWidth = width; }
+void GdtfWheelSlot::SetHeight(size_t height)     { fHeight = height; }
+void GdtfWheelSlot::SetFPS(size_t fps)           { fFPS = fps; }
+
+//------------------------------------------------------------------------------------
+// GdtfModel
+GdtfModel::GdtfModel(GdtfFixture* fixture)
+{
+	fUniqueName		= "";
+	fLength			= 0;
+	fWidth			= 0;
+	fHeight			= 0;
+	fPrimitiveType	= eGdtfModel_PrimitiveType_Undefined;
+	fGeometryFile	= "";
+	fParentFixture	= fixture;
+	fBuffer3DS 		= nullptr;
+	fBufferSVG 		= nullptr;
+	fBufferGLTF		= nullptr;
+	fBufferSize3DS	= 0;
+	fBufferSizeSVG	= 0;
+	fBufferSizeGLTF	= 0;
+
+	fSVGOffsetX			= 0;
+	fSVGOffsetY			= 0;
+	fSVGSideOffsetX		= 0;
+	fSVGSideOffsetY		= 0;
+	fSVGFrontOffsetX	= 0;
+	fSVGFrontOffsetY	= 0;
+}
+
+GdtfModel::GdtfModel(const TXString& name, GdtfFixture* fixture)
+{
+	fUniqueName		= name;
+	fLength			= 0;
+	fWidth			= 0;
+	fHeight			= 0;
+	fPrimitiveType	= eGdtfModel_PrimitiveType_Undefined;
+	fGeometryFile	= "";
+	fParentFixture	= fixture;
+	fBuffer3DS 		= nullptr;
+	fBufferSVG 		= nullptr;
+	fBufferGLTF		= nullptr;
+	fBufferSize3DS	= 0;
+	fBufferSizeSVG	= 0;
+	fBufferSizeGLTF	= 0;
+
+	fSVGOffsetX			= 0;
+	fSVGOffsetY			= 0;
+	fSVGSideOffsetX		= 0;
+	fSVGSideOffsetY		= 0;
+	fSVGFrontOffsetX	= 0;
+	fSVGFrontOffsetY	= 0;
+}
+
+GdtfModel::~GdtfModel()
+{
+	if(fBuffer3DS) 	{ delete[] fBuffer3DS; 	fBufferSize3DS = 0; }
+	if(fBufferSVG)	{ delete[] fBufferSVG; 	fBufferSizeSVG = 0; }
+	if(fBufferGLTF) { delete[] fBufferGLTF; fBufferSizeGLTF = 0; }
+}
+
+void GdtfModel::SetName(const TXString& name)
+{
+	fUniqueName = name;
+}
+
+void GdtfModel::SetLength(const double& length)
+{
+	fLength = length;
+}
+
+void GdtfModel::SetWidth(const double& width)
+{
+	fWidth = width;
+}
+
+void GdtfModel::SetHeight(const double &height)
+{
+	fHeight = height;
+}
+
+void GdtfModel::SetPrimitiveType(const EGdtfModel_PrimitiveType &type)
+{
+	fPrimitiveType = type;
+}
+
+void GdtfModel::SetGeometryFile(const TXString &file)
+{
+	fGeometryFile = file;
+}
+
+void GdtfModel::SetBuffer3DS(void* bufferToCopy, size_t length)
+{
+	if(fBuffer3DS)
+	{
+		delete[] fBuffer3DS;
+		fBuffer3DS = nullptr;
+	}
+
+	fBuffer3DS		= new char[length];
+	fBufferSize3DS	= length;
+	memcpy(fBuffer3DS, bufferToCopy, length);
+}
+
+void GdtfModel::SetBufferSVG(void* bufferToCopy, size_t length)
+{
+	if(fBufferSVG)
+	{
+		delete[] fBufferSVG;
+		fBufferSVG = nullptr;
+	}
+
+	fBufferSVG 		= new char[length];
+	fBufferSizeSVG 	= length;
+	memcpy(fBufferSVG, bufferToCopy, length);
+}
+
+void GdtfModel::SetBufferGLTF(void* bufferToCopy, size_t length)
+{
+	if(fBufferGLTF)
+	{
+		delete[] fBufferGLTF;
+		fBufferGLTF = nullptr;
+	}
+
+	fBufferGLTF			= new char[length];
+	fBufferSizeGLTF 	= length;
+	memcpy(fBufferGLTF, bufferToCopy, length);
+}
+
+void GdtfModel::SetSVGOffsetX(double svgOffsetX)
+{
+	fSVGOffsetX = svgOffsetX;
+}
+
+void GdtfModel::SetSVGOffsetY(double svgOffsetY)
+{
+	fSVGOffsetY = svgOffsetY;
+}
+
+void GdtfModel::SetSVGSideOffsetX(double svgSideOffsetX)
+{
+	fSVGSideOffsetX = svgSideOffsetX;
+}
+
+void GdtfModel::SetSVGSideOffsetY(double svgSideOffsetY)
+{
+	fSVGSideOffsetY = svgSideOffsetY;
+}
+
+void GdtfModel::SetSVGFrontOffsetX(double svgFrontOffsetX)
+{
+	fSVGFrontOffsetX = svgFrontOffsetX;
+}
+
+void GdtfModel::SetSVGFrontOffsetY(double svgFrontOffsetY)
+{
+	fSVGFrontOffsetY = svgFrontOffsetY;
+}
+
+void GdtfModel::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnPrintToFile(pNode);
+	
+	
+	// ------------------------------------------------------------------------------------
+	// Print node attributes
+	pNode->SetNodeAttributeValue(XML_GDTF_ModelName,			fUniqueName);
+	pNode->SetNodeAttributeValue(XML_GDTF_ModelLength,			GdtfConverter::ConvertDouble(fLength));
+	pNode->SetNodeAttributeValue(XML_GDTF_ModelWidth,			GdtfConverter::ConvertDouble(fWidth));
+	pNode->SetNodeAttributeValue(XML_GDTF_ModelHeight,			GdtfConverter::ConvertDouble(fHeight));
+	pNode->SetNodeAttributeValue(XML_GDTF_ModelPrimitiveType,	GdtfConverter::ConvertPrimitiveType(fPrimitiveType));
+	pNode->SetNodeAttributeValue(XML_GDTF_ModelFile,			fGeometryFile);
+	pNode->SetNodeAttributeValue(XML_GDTF_ModelSVGOffsetX,		GdtfConverter::ConvertDouble(fSVGOffsetX));
+	pNode->SetNodeAttributeValue(XML_GDTF_ModelSVGOffsetY,		GdtfConverter::ConvertDouble(fSVGOffsetY));
+	pNode->SetNodeAttributeValue(XML_GDTF_ModelSVGSideOffsetX,	GdtfConverter::ConvertDouble(fSVGSideOffsetX));
+	pNode->SetNodeAttributeValue(XML_GDTF_ModelSVGSideOffsetY,	GdtfConverter::ConvertDouble(fSVGSideOffsetY));
+	pNode->SetNodeAttributeValue(XML_GDTF_ModelSVGFrontOffsetX,	GdtfConverter::ConvertDouble(fSVGFrontOffsetX));
+	pNode->SetNodeAttributeValue(XML_GDTF_ModelSVGFrontOffsetY,	GdtfConverter::ConvertDouble(fSVGFrontOffsetY));
+}
+
+void GdtfModel::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnReadFromNode(pNode);
+
+	
+	// ------------------------------------------------------------------------------------
+	// Read node attributes
+	pNode->GetNodeAttributeValue(XML_GDTF_ModelName,			fUniqueName);
+	
+	// Convert Doubles
+	TXString length;			pNode->GetNodeAttributeValue(XML_GDTF_ModelLength,			length);			GdtfConverter::ConvertDouble(length, 			pNode, 	fLength);
+	TXString width;				pNode->GetNodeAttributeValue(XML_GDTF_ModelWidth,			width);				GdtfConverter::ConvertDouble(width, 			pNode,  fWidth);
+	TXString height;			pNode->GetNodeAttributeValue(XML_GDTF_ModelHeight,			height);			GdtfConverter::ConvertDouble(height, 			pNode, 	fHeight);
+	TXString svgOffsetX;		pNode->GetNodeAttributeValue(XML_GDTF_ModelSVGOffsetX,		svgOffsetX);		GdtfConverter::ConvertDouble(svgOffsetX, 		pNode, 	fSVGOffsetX);
+	TXString svgOffsetY;		pNode->GetNodeAttributeValue(XML_GDTF_ModelSVGOffsetY,		svgOffsetY);		GdtfConverter::ConvertDouble(svgOffsetY, 		pNode, 	fSVGOffsetY);
+	TXString svgSideOffsetX;	pNode->GetNodeAttributeValue(XML_GDTF_ModelSVGSideOffsetX,	svgSideOffsetX);	GdtfConverter::ConvertDouble(svgSideOffsetX, 	pNode, 	fSVGSideOffsetX);
+	TXString svgSideOffsetY;	pNode->GetNodeAttributeValue(XML_GDTF_ModelSVGSideOffsetY,	svgSideOffsetY);	GdtfConverter::ConvertDouble(svgSideOffsetY, 	pNode, 	fSVGSideOffsetY);
+	TXString svgFrontOffsetX;	pNode->GetNodeAttributeValue(XML_GDTF_ModelSVGFrontOffsetX,	svgFrontOffsetX);	GdtfConverter::ConvertDouble(svgFrontOffsetX,	pNode, 	fSVGFrontOffsetX);
+	TXString svgFrontOffsetY;	pNode->GetNodeAttributeValue(XML_GDTF_ModelSVGFrontOffsetY,	svgFrontOffsetY);	GdtfConverter::ConvertDouble(svgFrontOffsetY, 	pNode, 	fSVGFrontOffsetY);
+	TXString type;				pNode->GetNodeAttributeValue(XML_GDTF_ModelPrimitiveType,	type);				GdtfConverter::ConvertPrimitiveType(type, 		pNode, 	fPrimitiveType);
+								pNode->GetNodeAttributeValue(XML_GDTF_ModelFile,			fGeometryFile);
+
+	if(!fGeometryFile.IsEmpty())
+	{
+		TXString filename3DS = fGeometryFile + ".3ds";
+		TXString filenameSVG = fGeometryFile + ".svg";
+		TXString filenameGLTF = fGeometryFile + ".glb";
+
+		std::map<std::string, std::pair<char*, size_t> > fileBuffers = fParentFixture->GetFileBuffers();
+
+		// The files are in the resource folder, but accept them in the root folder too
+		auto findBuffer = [&fileBuffers] (ERessourceType type, const TXString& name)
+		{
+			auto it = fileBuffers.find((SceneData::SceneDataZip::GetResourceSubFolder(type) + name).GetStdString());
+			return it != fileBuffers.end() ? it : fileBuffers.find(name.GetStdString());
+		};
+
+		auto buffer = findBuffer(ERessourceType::Model3DS, filename3DS);
+		if(buffer != fileBuffers.end())
+		{
+			fBufferSize3DS	= buffer->second.second;
+			fBuffer3DS		= new char[fBufferSize3DS];
+			memcpy(fBuffer3DS, buffer->second.first, fBufferSize3DS);
+		}
+
+		buffer = findBuffer(ERessourceType::ModelSVG, filenameSVG);
+		if(buffer != fileBuffers.end())
+		{
+			fBufferSizeSVG	= buffer->second.second;
+			fBufferSVG		= new char[fBufferSizeSVG];
+			memcpy(fBufferSVG, buffer->second.first, fBufferSizeSVG);
+		}
+
+		buffer = findBuffer(ERessourceType::ModelGLTF, filenameGLTF);
+		if(buffer != fileBuffers.end())
+		{
+			fBufferSizeGLTF	= buffer->second.second;
+			fBufferGLTF		= new char[fBufferSizeGLTF];
+			memcpy(fBufferGLTF, buffer->second.first, fBufferSizeGLTF);
+		}
+	}
+}
+
+void GdtfModel::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_ModelName);
+	optional.push_back(XML_GDTF_ModelFile);
+	optional.push_back(XML_GDTF_ModelLength);
+	optional.push_back(XML_GDTF_ModelWidth);
+	optional.push_back(XML_GDTF_ModelHeight);
+	optional.push_back(XML_GDTF_ModelPrimitiveType);
+	optional.push_back(XML_GDTF_ModelSVGOffsetX);
+	optional.push_back(XML_GDTF_ModelSVGOffsetY);
+	optional.push_back(XML_GDTF_ModelSVGSideOffsetX);
+	optional.push_back(XML_GDTF_ModelSVGSideOffsetY);
+	optional.push_back(XML_GDTF_ModelSVGFrontOffsetX);
+	optional.push_back(XML_GDTF_ModelSVGFrontOffsetY);
+
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfModel::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfModel;
+}
+TXString GdtfModel::GetNodeName()
+{
+	return XML_GDTF_ModelNodeName;
+}
+
+TXString GdtfModel::GetNodeReference()
+{
+	return GetName();
+}
+
+const TXString& GdtfModel::GetGeometryFileName() const
+{
+	return fGeometryFile;
+}
+
+const TXString& GdtfModel::GetGeometryFile_3DS_FullPath()
+{
+	fFullPath3DS = "";
+	// Set to store
+	IFolderIdentifierPtr folder (IID_FolderIdentifier);
+	fParentFixture->GetWorkingFolder(folder);
+
+	IFolderIdentifierPtr model3DsFolder (IID_FolderIdentifier);
+	model3DsFolder->Set(folder, "models3ds");
+
+	IFileIdentifierPtr file (IID_FileIdentifier);
+	file->Set(model3DsFolder, fGeometryFile + ".3ds");
+
+	bool fileExists = false;
+	if(VCOM_SUCCEEDED(file->ExistsOnDisk(fileExists)) && fileExists)
+	{
+		file->GetFileFullPath(fFullPath3DS);
+	}
+	
+	return fFullPath3DS;
+}
+
+const TXString& GdtfModel::GetGeometryFile_3DSLow_FullPath()
+{
+	fFullPath3DS = "";
+	// Set to store
+	IFolderIdentifierPtr folder (IID_FolderIdentifier);
+	fParentFixture->GetWorkingFolder(folder);
+
+	IFolderIdentifierPtr model3DsFolder (IID_FolderIdentifier);
+	model3DsFolder->Set(folder, "models3ds_low");
+
+	IFileIdentifierPtr file (IID_FileIdentifier);
+	file->Set(model3DsFolder, fGeometryFile + ".3ds");
+
+	bool fileExists = false;
+	if(VCOM_SUCCEEDED(file->ExistsOnDisk(fileExists)) && fileExists)
+	{
+		file->GetFileFullPath(fFullPath3DS);
+	}
+	
+	return fFullPath3DS;
+}
+
+const TXString& GdtfModel::GetGeometryFile_3DSHigh_FullPath()
+{
+	fFullPath3DS = "";
+	// Set to store
+	IFolderIdentifierPtr folder (IID_FolderIdentifier);
+	fParentFixture->GetWorkingFolder(folder);
+
+	IFolderIdentifierPtr model3DsFolder (IID_FolderIdentifier);
+	model3DsFolder->Set(folder, "models3ds_high");
+
+	IFileIdentifierPtr file (IID_FileIdentifier);
+	file->Set(model3DsFolder, fGeometryFile + ".3ds");
+
+	bool fileExists = false;
+	if(VCOM_SUCCEEDED(file->ExistsOnDisk(fileExists)) && fileExists)
+	{
+		file->GetFileFullPath(fFullPath3DS);
+	}
+	
+	return fFullPath3DS;
+}
+
+const TXString & SceneData::GdtfModel::GetGeometryFile_SVG_FullPath()
+{
+	// Set to store
+	fFullPathSVG = "";
+	// Set to store
+	IFolderIdentifierPtr folder (IID_FolderIdentifier);
+	fParentFixture->GetWorkingFolder(folder);
+
+	IFolderIdentifierPtr svgModelsFolder (IID_FolderIdentifier);
+	svgModelsFolder->Set(folder, "modelssvg");
+
+	IFileIdentifierPtr file (IID_FileIdentifier);
+	file->Set(svgModelsFolder, fGeometryFile + ".svg");
+
+
+	bool fileExists = false;
+	if(VCOM_SUCCEEDED(file->ExistsOnDisk(fileExists)) && fileExists)
+	{
+		file->GetFileFullPath(fFullPathSVG);
+	}
+	
+	return fFullPathSVG;
+}
+
+const TXString & SceneData::GdtfModel::GetGeometryFile_SVGSide_FullPath()
+{
+	// Set to store
+	fFullPathSVG = "";
+	// Set to store
+	IFolderIdentifierPtr folder (IID_FolderIdentifier);
+	fParentFixture->GetWorkingFolder(folder);
+
+	IFolderIdentifierPtr svgModelsFolder (IID_FolderIdentifier);
+	svgModelsFolder->Set(folder, "modelssvg_side");
+
+	IFileIdentifierPtr file (IID_FileIdentifier);
+	file->Set(svgModelsFolder, fGeometryFile + ".svg");
+
+
+	bool fileExists = false;
+	if(VCOM_SUCCEEDED(file->ExistsOnDisk(fileExists)) && fileExists)
+	{
+		file->GetFileFullPath(fFullPathSVG);
+	}
+	
+	return fFullPathSVG;
+}
+
+const TXString & SceneData::GdtfModel::GetGeometryFile_SVGFront_FullPath()
+{
+	// Set to store
+	fFullPathSVG = "";
+	// Set to store
+	IFolderIdentifierPtr folder (IID_FolderIdentifier);
+	fParentFixture->GetWorkingFolder(folder);
+
+	IFolderIdentifierPtr svgModelsFolder (IID_FolderIdentifier);
+	svgModelsFolder->Set(folder, "modelssvg_front");
+
+	IFileIdentifierPtr file (IID_FileIdentifier);
+	file->Set(svgModelsFolder, fGeometryFile + ".svg");
+
+
+	bool fileExists = false;
+	if(VCOM_SUCCEEDED(file->ExistsOnDisk(fileExists)) && fileExists)
+	{
+		file->GetFileFullPath(fFullPathSVG);
+	}
+	
+	return fFullPathSVG;
+}
+
+const TXString & SceneData::GdtfModel::GetGeometryFile_GLTF_FullPath()
+{
+	// Set to store
+	fFullPathGLTF = "";
+	// Set to store
+	IFolderIdentifierPtr folder (IID_FolderIdentifier);
+	fParentFixture->GetWorkingFolder(folder);
+
+	IFolderIdentifierPtr gltfModelsFolder (IID_FolderIdentifier);
+	gltfModelsFolder->Set(folder, "modelsgltf");
+
+	IFileIdentifierPtr file (IID_FileIdentifier);
+	file->Set(gltfModelsFolder, fGeometryFile + ".glb");
+
+	bool fileExists = false;
+	if(VCOM_SUCCEEDED(file->ExistsOnDisk(fileExists)) && fileExists)
+	{
+		file->GetFileFullPath(fFullPathGLTF);
+	}
+	else
+	{
+		//There are two glTF file format: binary (.glb) or JSON-like (.gltf)
+		//If we don't find a .glb file, we try with .gltf
+		file->Set(gltfModelsFolder, fGeometryFile + ".gltf");
+		if(VCOM_SUCCEEDED(file->ExistsOnDisk(fileExists)) && fileExists)
+		{
+			file->GetFileFullPath(fFullPathGLTF);
+		}
+	}
+	
+	return fFullPathGLTF;
+}
+
+const TXString & SceneData::GdtfModel::GetGeometryFile_GLTFLow_FullPath()
+{
+	// Set to store
+	fFullPathGLTF = "";
+	// Set to store
+	IFolderIdentifierPtr folder (IID_FolderIdentifier);
+	fParentFixture->GetWorkingFolder(folder);
+
+	IFolderIdentifierPtr gltfModelsFolder (IID_FolderIdentifier);
+	gltfModelsFolder->Set(folder, "modelsgltf_low");
+
+	IFileIdentifierPtr file (IID_FileIdentifier);
+	file->Set(gltfModelsFolder, fGeometryFile + ".glb");
+
+	bool fileExists = false;
+	if(VCOM_SUCCEEDED(file->ExistsOnDisk(fileExists)) && fileExists)
+	{
+		file->GetFileFullPath(fFullPathGLTF);
+	}
+	else
+	{
+		//There are two glTF file format: binary (.glb) or JSON-like (.gltf)
+		//If we don't find a .glb file, we try with .gltf
+		file->Set(gltfModelsFolder, fGeometryFile + ".gltf");
+		if(VCOM_SUCCEEDED(file->ExistsOnDisk(fileExists)) && fileExists)
+		{
+			file->GetFileFullPath(fFullPathGLTF);
+		}
+	}
+	
+	return fFullPathGLTF;
+}
+
+const TXString & SceneData::GdtfModel::GetGeometryFile_GLTFHigh_FullPath()
+{
+	// Set to store
+	fFullPathGLTF = "";
+	// Set to store
+	IFolderIdentifierPtr folder (IID_FolderIdentifier);
+	fParentFixture->GetWorkingFolder(folder);
+
+	IFolderIdentifierPtr gltfModelsFolder (IID_FolderIdentifier);
+	gltfModelsFolder->Set(folder, "modelsgltf_high");
+
+	IFileIdentifierPtr file (IID_FileIdentifier);
+	file->Set(gltfModelsFolder, fGeometryFile + ".glb");
+
+	bool fileExists = false;
+	if(VCOM_SUCCEEDED(file->ExistsOnDisk(fileExists)) && fileExists)
+	{
+		file->GetFileFullPath(fFullPathGLTF);
+	}
+	else
+	{
+		//There are two glTF file format: binary (.glb) or JSON-like (.gltf)
+		//If we don't find a .glb file, we try with .gltf
+		file->Set(gltfModelsFolder, fGeometryFile + ".gltf");
+		if(VCOM_SUCCEEDED(file->ExistsOnDisk(fileExists)) && fileExists)
+		{
+			file->GetFileFullPath(fFullPathGLTF);
+		}
+	}
+	
+	return fFullPathGLTF;
+}
+
+const TXString& GdtfModel::GetName() const
+{
+	return fUniqueName;
+}
+
+double GdtfModel::GetLength() const
+{
+	return fLength;
+}
+
+double GdtfModel::GetWidth() const
+{
+	return fWidth;
+}
+
+double GdtfModel::GetHeight() const
+{
+	return fHeight;
+}
+
+EGdtfModel_PrimitiveType GdtfModel::GetPrimitiveType() const
+{
+	return fPrimitiveType;
+}
+
+void GdtfModel::GetBuffer3DS(void** bufferToCopy, size_t& length)
+{
+	if(!fBuffer3DS)
+	{
+		return;
+	}
+	if (*bufferToCopy)
+	{
+		return;
+	}
+
+	*bufferToCopy = new char[fBufferSize3DS];
+	length = fBufferSize3DS;
+	memcpy(*bufferToCopy, fBuffer3DS, fBufferSize3DS);
+}
+
+void GdtfModel::GetBufferSVG(void** bufferToCopy, size_t& length)
+{
+	if(!fBufferSVG)
+	{
+		return;
+	}
+	if (*bufferToCopy)
+	{
+		return;
+	}
+
+	*bufferToCopy = new char[fBufferSizeSVG];
+	length = fBufferSizeSVG;
+	memcpy(*bufferToCopy, fBufferSVG, fBufferSizeSVG);
+}
+
+void GdtfModel::GetBufferGLTF(void** bufferToCopy, size_t& length)
+{
+	if(!fBufferGLTF)
+	{
+		return;
+	}
+	if (*bufferToCopy)
+	{
+		return;
+	}
+
+	*bufferToCopy = new char[fBufferSizeGLTF];
+	length = fBufferSizeGLTF;
+	memcpy(*bufferToCopy, fBufferGLTF, fBufferSizeGLTF);
+}
+
+double GdtfModel::GetSVGOffsetX() const
+{
+	return fSVGOffsetX;
+}
+
+double GdtfModel::GetSVGOffsetY() const
+{
+	return fSVGOffsetY;
+}
+
+double GdtfModel::GetSVGSideOffsetX() const
+{
+	return fSVGSideOffsetX;
+}
+
+double GdtfModel::GetSVGSideOffsetY() const
+{
+	return fSVGSideOffsetY;
+}
+
+double GdtfModel::GetSVGFrontOffsetX() const
+{
+	return fSVGFrontOffsetX;
+}
+
+double GdtfModel::GetSVGFrontOffsetY() const
+{
+	return fSVGFrontOffsetY;
+}
+
+//------------------------------------------------------------------------------------
+// GdtfGeometry
+GdtfGeometry::GdtfGeometry( GdtfGeometry* parent )
+{
+	fParent			= parent;
+	fUniqueName		= "";
+	fMatrix			= VWTransformMatrix();
+	fModelReference = nullptr;
+}
+
+GdtfGeometry::GdtfGeometry(const TXString& name, GdtfModelPtr refToModel,const VWTransformMatrix& ma, GdtfGeometry* parent)
+{
+	fParent			= parent;
+	fUniqueName		= name;
+	fMatrix			= ma;
+	fModelReference = refToModel;
+}
+
+GdtfGeometry::~GdtfGeometry()
+{
+	for (GdtfGeometryPtr ptr : fInternalGeometries) { delete ptr; }
+}
+
+void GdtfGeometry::SetName(const TXString &name)
+{
+	fUniqueName = name;
+}
+
+void GdtfGeometry::SetTransformMatrix(const VWFC::Math::VWTransformMatrix &ma)
+{
+	fMatrix = ma;
+}
+
+void GdtfGeometry::SetModel(GdtfModelPtr model)
+{
+	fModelReference = model;
+}
+
+GdtfGeometryPtr GdtfGeometry::AddGeometryWithAxis(const TXString& name, GdtfModelPtr refToModel,const VWTransformMatrix& ma)
+{
+	GdtfGeometryAxis* axis = new GdtfGeometryAxis(name, refToModel, ma, this);
+	
+	fInternalGeometries.push_back(axis);
+	
+	return axis;
+}
+
+GdtfGeometryPtr GdtfGeometry::AddGeometryWithLamp(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
+{
+	GdtfGeometryLamp* lamp = new GdtfGeometryLamp(name, refToModel, ma, this);
+	
+	fInternalGeometries.push_back(lamp);
+	
+	return lamp;
+}
+
+GdtfGeometryPtr GdtfGeometry::AddGeometry(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
+{
+	GdtfGeometry* geo = new GdtfGeometry(name, refToModel, ma, this);
+	
+	fInternalGeometries.push_back(geo);
+	
+	return geo;
+}
+
+GdtfGeometryPtr GdtfGeometry::AddGeometryReference(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
+{
+	GdtfGeometry* geo = new GdtfGeometryReference(name, refToModel, ma, this);
+	
+	fInternalGeometries.push_back(geo);
+	
+	return geo;
+}
+
+GdtfGeometryPtr GdtfGeometry::AddGeometryShaper(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
+{
+	GdtfGeometry* geo = new GdtfGeometryShaperFilter(name, refToModel, ma, this);
+	
+	fInternalGeometries.push_back(geo);
+	
+	return geo;
+}
+
+GdtfGeometryPtr GdtfGeometry::AddGeometryColor(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
+{
+	GdtfGeometry* geo = new GdtfGeometryColorFilter(name, refToModel, ma, this);
+	
+	fInternalGeometries.push_back(geo);
+	
+	return geo;
+}
+
+GdtfGeometryPtr GdtfGeometry::AddGeometryGobo(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
+{
+	GdtfGeometry* geo = new GdtfGeometryGoboFilter(name, refToModel, ma, this);
+	
+	fInternalGeometries.push_back(geo);
+	
+	return geo;
+}
+
+GdtfGeometryPtr GdtfGeometry::AddGeometryBeam(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
+{
+	GdtfGeometry* geo = new GdtfGeometryBeamFilter(name, refToModel, ma, this);
+	
+	fInternalGeometries.push_back(geo);
+	
+	return geo;
+}
+
+GdtfGeometryPtr GdtfGeometry::AddGeometryMediaServerCamera(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
+{
+	GdtfGeometry* geo = new GdtfGeometryMediaServerCamera(name, refToModel, ma, this);
+	
+	fInternalGeometries.push_back(geo);
+	
+	return geo;
+}
+
+GdtfGeometryPtr GdtfGeometry::AddGeometryMediaServerLayer(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
+{
+	GdtfGeometry* geo = new GdtfGeometryMediaServerLayer(name, refToModel, ma, this);
+	
+	fInternalGeometries.push_back(geo);
+	
+	return geo;
+}
+
+GdtfGeometryPtr GdtfGeometry::AddGeometryMediaServerMaster(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
+{
+	GdtfGeometry* geo = new GdtfGeometryMediaServerMaster(name, refToModel, ma, this);
+	
+	fInternalGeometries.push_back(geo);
+	
+	return geo;
+}
+
+GdtfGeometryPtr GdtfGeometry::AddGeometryDisplay(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
+{
+	GdtfGeometry* geo = new GdtfGeometryDisplay(name, refToModel, ma, this);
+
+	fInternalGeometries.push_back(geo);
+
+	return geo;
+}
+
+GdtfGeometryPtr GdtfGeometry::AddGeometryLaser(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
+{
+	GdtfGeometry* geo = new GdtfGeometryLaser(name, refToModel, ma, this);
+
+	fInternalGeometries.push_back(geo);
+
+	return geo;
+}
+
+GdtfGeometryPtr GdtfGeometry::AddGeometryWiringObject(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
+{
+	GdtfGeometry* geo = new GdtfGeometryWiringObject(name, refToModel, ma, this);
+
+	fInternalGeometries.push_back(geo);
+
+	return geo;
+}
+
+GdtfGeometryPtr GdtfGeometry::AddGeometryInventory(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
+{
+	GdtfGeometry* geo = new GdtfGeometryInventory(name, refToModel, ma, this);
+
+	fInternalGeometries.push_back(geo);
+
+	return geo;
+}
+
+GdtfGeometryPtr GdtfGeometry::AddGeometryStructure(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
+{
+	GdtfGeometry* geo = new GdtfGeometryStructure(name, refToModel, ma, this);
+
+	fInternalGeometries.push_back(geo);
+
+	return geo;
+}
+
+GdtfGeometryPtr GdtfGeometry::AddGeometrySupport(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
+{
+	GdtfGeometry* geo = new GdtfGeometrySupport(name, refToModel, ma, this);
+
+	fInternalGeometries.push_back(geo);
+
+	return geo;
+}
+
+GdtfGeometryPtr GdtfGeometry::AddGeometryMagnet(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
+{
+	GdtfGeometry* geo = new GdtfGeometryMagnet(name, refToModel, ma, this);
+
+	fInternalGeometries.push_back(geo);
+
+	return geo;
+}
+
+void GdtfGeometry::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnPrintToFile(pNode);
+	
+	
+	// ------------------------------------------------------------------------------------
+	// Print node attributes
+	pNode->SetNodeAttributeValue(XML_GDTF_GeometryName,				fUniqueName);
+	
+	pNode->SetNodeAttributeValue(XML_GDTF_GeometryMatrix,			GdtfConverter::ConvertMatrix(fMatrix, true));
+
+	if (fModelReference) { pNode->SetNodeAttributeValue(XML_GDTF_GeometryModelRef,	fModelReference->GetNodeReference()); }
+	
+	// ------------------------------------------------------------------------------------
+	// Print Internal geometry
+	for (GdtfGeometry* geoObj : fInternalGeometries)
+	{
+		geoObj->WriteToNode(pNode);
+	}
+}
+
+void GdtfGeometry::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnReadFromNode(pNode);
+	
+	// Get Node Name
+	pNode->GetNodeAttributeValue(XML_GDTF_GeometryName,				fUniqueName);
+	
+	// Get Matrix
+	TXString matrix;
+	pNode->GetNodeAttributeValue(XML_GDTF_GeometryMatrix,			matrix);
+	GdtfConverter::ConvertMatrix(matrix, pNode, fMatrix);
+	
+	// Get Node Reference
+	pNode->GetNodeAttributeValue(XML_GDTF_GeometryModelRef,			fUnresolvedModelRef);
+	
+	// ------------------------------------------------------------------------------------
+	// Print geometries
+	GdtfConverter::TraverseMultiNodes(pNode, "", [this] (IXMLFileNodePtr objNode,const TXString& childNodeName) -> void
+									{
+										bool hasBreak = false;
+										
+										GdtfGeometryPtr geometry = nullptr;
+										if	  (childNodeName == XML_GDTF_GeometryAxisNodeName)			{ geometry = new GdtfGeometryAxis(this);}
+										else if (childNodeName == XML_GDTF_GeometryNodeName)			{ geometry = new GdtfGeometry(this);}
+										else if (childNodeName == XML_GDTF_FilterBeamNodeName)			{ geometry = new GdtfGeometryBeamFilter(this);}
+										else if (childNodeName == XML_GDTF_FilterColorNodeName)			{ geometry = new GdtfGeometryColorFilter(this);}
+										else if (childNodeName == XML_GDTF_FilterGoboNodeName)			{ geometry = new GdtfGeometryGoboFilter(this);}
+										else if (childNodeName == XML_GDTF_FilterShaperNodeName)		{ geometry = new GdtfGeometryShaperFilter(this);}
+										else if (childNodeName == XML_GDTF_LampNodeName)				{ geometry = new GdtfGeometryLamp(this);}
+										else if (childNodeName == XML_GDTF_MediaServerCameraNodeName)	{ geometry = new GdtfGeometryMediaServerCamera(this);}
+										else if (childNodeName == XML_GDTF_MediaServerLayerNodeName)	{ geometry = new GdtfGeometryMediaServerLayer(this);}
+										else if (childNodeName == XML_GDTF_MediaServerMasterNodeName)	{ geometry = new GdtfGeometryMediaServerMaster(this);}
+										else if (childNodeName == XML_GDTF_GeometryReferenceNodeName)	{ geometry = new GdtfGeometryReference(this);}
+										else if (childNodeName == XML_GDTF_DisplayNodeName)				{ geometry = new GdtfGeometryDisplay(this);}
+										else if (childNodeName == XML_GDTF_LaserNodeName)				{ geometry = new GdtfGeometryLaser(this);}
+										else if (childNodeName == XML_GDTF_WiringObjectNodeName)		{ geometry = new GdtfGeometryWiringObject(this);}
+										else if (childNodeName == XML_GDTF_InventoryNodeName)			{ geometry = new GdtfGeometryInventory(this);}
+										else if (childNodeName == XML_GDTF_StructureNodeName)			{ geometry = new GdtfGeometryStructure(this);}
+										else if (childNodeName == XML_GDTF_SupportNodeName)				{ geometry = new GdtfGeometrySupport(this);}
+										else if (childNodeName == XML_GDTF_MagnetNodeName)				{ geometry = new GdtfGeometryMagnet(this);}
+										else if (childNodeName == XML_GDTF_BreakNodeName)				{ hasBreak = true; }
+										else if (childNodeName == XML_GDTF_LaserProtocolNodeName)		{ return; /* Laser Protocols are handled in the Laser OnReadFromNode function */ }
+										else if (childNodeName == XML_GDTF_PinPatchNodeName)			{ return; /* Pin Patches are handled in the WiringObject OnReadFromNode function */ }
+										else															{ DSTOP((kEveryone,"There is a node that was not expected!")); }
+										
+										
+										if (hasBreak)
+										{
+											// This is only allowed in Geometry Refs
+											ASSERTN(kEveryone, this->GetObjectType() == eGdtfGeometryReference);
+											if (this->GetObjectType() == eGdtfGeometryReference)
+											{
+												GdtfBreakPtr breakObj = new GdtfBreak();
+												breakObj->ReadFromNode(objNode);
+												
+												GdtfGeometryReferencePtr refGeo = static_cast<GdtfGeometryReferencePtr>(this);
+												refGeo->fBreaks.push_back(breakObj);
+												return;
+											}
+											else
+											{
+												GdtfParsingError error (GdtfDefines::EGdtfParsingError::eBreakObjectInNonGeometryReference, objNode);
+												SceneData::GdtfFixture::AddError(error);
+											}
+										}
+										
+										ASSERTN(kEveryone, geometry != nullptr);
+										if (geometry)
+										{
+											geometry->ReadFromNode(objNode);
+											fInternalGeometries.push_back(geometry);
+										}
+										else
+										{
+											GdtfParsingError error (GdtfDefines::EGdtfParsingError::eNodeWrongName, objNode);
+											SceneData::GdtfFixture::AddError(error);
+										}
+										return;
+									});
+}
+
+void GdtfGeometry::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	needed.push_back(XML_GDTF_GeometryName);
+	needed.push_back(XML_GDTF_GeometryMatrix);
+	
+	TXStringArray optional;
+	optional.push_back(XML_GDTF_GeometryModelRef);
+
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+GdtfModelPtr GdtfGeometry::GetModelRef() const
+{
+	return fModelReference;
+}
+
+void GdtfGeometry::GetTransformMatrix(VWTransformMatrix& ma) const
+{
+	ma = fMatrix;
+}
+
+const TXString& GdtfGeometry::GetUnresolvedModelRef() const
+{
+	return fUnresolvedModelRef;
+}
+
+void GdtfGeometry::SetUnresolvedModelRef(GdtfModelPtr ref)
+{
+	ASSERTN(kEveryone, ref != nullptr);
+	fModelReference = ref;
+}
+
+TXString GdtfGeometry::GetNodeName()
+{
+	return XML_GDTF_GeometryNodeName;
+}
+
+EGdtfObjectType GdtfGeometry::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfGeometry;
+}
+
+const TXString& GdtfGeometry::GetName() const
+{
+	return fUniqueName;
+}
+
+const std::vector<GdtfGeometry*>& GdtfGeometry::GetInternalGeometries()
+{
+	return fInternalGeometries;
+}
+
+TXString GdtfGeometry::GetNodeReference()
+{
+	TXString nodeRef;
+	nodeRef = GetName();
+	return nodeRef;
+}
+
+GdtfGeometryPtr GdtfGeometry::GetParentGeometry()
+{
+	return fParent;
+}
+
+//------------------------------------------------------------------------------------
+// GdtfGeometryAxis
+GdtfGeometryAxis::GdtfGeometryAxis(GdtfGeometry* parent) 
+				: GdtfGeometry(parent)
+{
+	
+}
+
+GdtfGeometryAxis::GdtfGeometryAxis(const TXString& name, GdtfModelPtr refToModel,const VWTransformMatrix& ma, GdtfGeometry* parent)
+				: GdtfGeometry(name,refToModel,ma, parent)
+{
+
+}
+
+GdtfGeometryAxis::~GdtfGeometryAxis()
+{
+}
+
+void GdtfGeometryAxis::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfGeometry::OnPrintToFile(pNode);
+	
+
+}
+
+void GdtfGeometryAxis::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfGeometry::OnReadFromNode(pNode);
+	
+}
+
+void GdtfGeometryAxis::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_GeometryName);
+	optional.push_back(XML_GDTF_GeometryModelRef);
+	needed.push_back(XML_GDTF_GeometryMatrix);
+	
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfGeometryAxis::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfGeometryAxis;
+}
+
+TXString GdtfGeometryAxis::GetNodeName()
+{
+	return XML_GDTF_GeometryAxisNodeName;
+}
+
+//------------------------------------------------------------------------------------
+// GdtfGeometryBeamFilter
+GdtfGeometryBeamFilter::GdtfGeometryBeamFilter(GdtfGeometry* parent) : GdtfGeometry(parent)
+{
+	
+}
+
+GdtfGeometryBeamFilter::GdtfGeometryBeamFilter(const TXString& name, GdtfModelPtr refToModel,const VWTransformMatrix& ma, GdtfGeometry* parent) : GdtfGeometry(name,refToModel,ma, parent)
+{
+
+}
+
+GdtfGeometryBeamFilter::~GdtfGeometryBeamFilter()
+{
+}
+
+void GdtfGeometryBeamFilter::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfGeometry::OnPrintToFile(pNode);
+	
+}
+
+void GdtfGeometryBeamFilter::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfGeometry::OnReadFromNode(pNode);
+}
+
+void GdtfGeometryBeamFilter::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_GeometryName);
+	optional.push_back(XML_GDTF_GeometryModelRef);
+	needed.push_back(XML_GDTF_GeometryMatrix);
+
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfGeometryBeamFilter::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfGeometryBeamFilter;
+}
+
+TXString GdtfGeometryBeamFilter::GetNodeName()
+{
+	return XML_GDTF_FilterBeamNodeName;
+}
+
+//------------------------------------------------------------------------------------
+// GdtfGeometryColorFilter
+GdtfGeometryColorFilter::GdtfGeometryColorFilter(GdtfGeometry* parent) 
+					   : GdtfGeometry(parent)
+{
+	
+}
+
+GdtfGeometryColorFilter::GdtfGeometryColorFilter(const TXString& name, GdtfModelPtr refToModel,const VWTransformMatrix& ma, GdtfGeometry* parent) 
+					   : GdtfGeometry(name,refToModel,ma, parent)
+{
+	
+}
+
+GdtfGeometryColorFilter::~GdtfGeometryColorFilter()
+{
+}
+
+void GdtfGeometryColorFilter::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfGeometry::OnPrintToFile(pNode);
+	
+}
+
+void GdtfGeometryColorFilter::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfGeometry::OnReadFromNode(pNode);
+}
+
+void GdtfGeometryColorFilter::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_GeometryName);
+	optional.push_back(XML_GDTF_GeometryModelRef);
+	needed.push_back(XML_GDTF_GeometryMatrix);
+
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfGeometryColorFilter::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfGeometryColorFilter;
+}
+
+TXString GdtfGeometryColorFilter::GetNodeName()
+{
+	return XML_GDTF_FilterColorNodeName;
+}
+
+//------------------------------------------------------------------------------------
+// GdtfGeometryShaperFilter
+GdtfGeometryShaperFilter::GdtfGeometryShaperFilter(GdtfGeometry* parent) 
+						: GdtfGeometry(parent)
+{
+	
+}
+
+GdtfGeometryShaperFilter::GdtfGeometryShaperFilter(const TXString& name, GdtfModelPtr refToModel,const VWTransformMatrix& ma, GdtfGeometry* parent) 
+						: GdtfGeometry(name,refToModel,ma, parent)
+{
+	
+}
+
+GdtfGeometryShaperFilter::~GdtfGeometryShaperFilter()
+{
+}
+
+void GdtfGeometryShaperFilter::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfGeometry::OnPrintToFile(pNode);
+	
+}
+
+void GdtfGeometryShaperFilter::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfGeometry::OnReadFromNode(pNode);
+}
+
+void GdtfGeometryShaperFilter::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_GeometryName);
+	optional.push_back(XML_GDTF_GeometryModelRef);
+	needed.push_back(XML_GDTF_GeometryMatrix);
+
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfGeometryShaperFilter::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfGeometryShaperFilter;
+}
+
+TXString GdtfGeometryShaperFilter::GetNodeName()
+{
+	return XML_GDTF_FilterShaperNodeName;
+}
+
+//------------------------------------------------------------------------------------
+// GdtfGeometryGoboFilter
+GdtfGeometryGoboFilter::GdtfGeometryGoboFilter(GdtfGeometry* parent) : GdtfGeometry(parent)
+{
+	
+}
+
+GdtfGeometryGoboFilter::GdtfGeometryGoboFilter(const TXString& name, GdtfModelPtr refToModel,const VWTransformMatrix& ma, GdtfGeometry* parent) 
+					  : GdtfGeometry(name,refToModel,ma, parent)
+{
+	
+}
+
+GdtfGeometryGoboFilter::~GdtfGeometryGoboFilter()
+{
+}
+
+void GdtfGeometryGoboFilter::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfGeometry::OnPrintToFile(pNode);
+	
+}
+
+void GdtfGeometryGoboFilter::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfGeometry::OnReadFromNode(pNode);
+}
+
+void GdtfGeometryGoboFilter::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_GeometryName);
+	optional.push_back(XML_GDTF_GeometryModelRef);
+	needed.push_back(XML_GDTF_GeometryMatrix);
+
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfGeometryGoboFilter::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfGeometryGoboFilter;
+}
+
+TXString GdtfGeometryGoboFilter::GetNodeName()
+{
+	return XML_GDTF_FilterGoboNodeName;
+}
+
+//------------------------------------------------------------------------------------
+// GdtfGeometryMediaServerCamera
+GdtfGeometryMediaServerCamera::GdtfGeometryMediaServerCamera(GdtfGeometry* parent) : GdtfGeometry(parent)
+{
+	
+}
+
+GdtfGeometryMediaServerCamera::GdtfGeometryMediaServerCamera(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma, GdtfGeometry* parent) 
+					  		 : GdtfGeometry(name, refToModel, ma, parent)
+{
+	
+}
+
+GdtfGeometryMediaServerCamera::~GdtfGeometryMediaServerCamera()
+{
+}
+
+void GdtfGeometryMediaServerCamera::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfGeometry::OnPrintToFile(pNode);
+	
+}
+
+void GdtfGeometryMediaServerCamera::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfGeometry::OnReadFromNode(pNode);
+}
+
+void GdtfGeometryMediaServerCamera::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_GeometryName);
+	optional.push_back(XML_GDTF_GeometryModelRef);
+	needed.push_back(XML_GDTF_GeometryMatrix);
+
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfGeometryMediaServerCamera::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfGeometryMediaServerCamera;
+}
+
+TXString GdtfGeometryMediaServerCamera::GetNodeName()
+{
+	return XML_GDTF_MediaServerCameraNodeName;
+}
+
+//------------------------------------------------------------------------------------
+// GdtfGeometryMediaServerLayer
+GdtfGeometryMediaServerLayer::GdtfGeometryMediaServerLayer(GdtfGeometry* parent) : GdtfGeometry(parent)
+{
+	
+}
+
+GdtfGeometryMediaServerLayer::GdtfGeometryMediaServerLayer(const TXString& name, GdtfModelPtr refToModel,const VWTransformMatrix& ma, GdtfGeometry* parent) 
+					  		: GdtfGeometry(name,refToModel,ma, parent)
+{
+	
+}
+
+GdtfGeometryMediaServerLayer::~GdtfGeometryMediaServerLayer()
+{
+}
+
+void GdtfGeometryMediaServerLayer::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfGeometry::OnPrintToFile(pNode);
+	
+}
+
+void GdtfGeometryMediaServerLayer::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfGeometry::OnReadFromNode(pNode);
+}
+
+void GdtfGeometryMediaServerLayer::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_GeometryName);
+	optional.push_back(XML_GDTF_GeometryModelRef);
+	needed.push_back(XML_GDTF_GeometryMatrix);
+
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfGeometryMediaServerLayer::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfGeometryMediaServerLayer;
+}
+
+TXString GdtfGeometryMediaServerLayer::GetNodeName()
+{
+	return XML_GDTF_MediaServerLayerNodeName;
+}
+
+//------------------------------------------------------------------------------------
+// GdtfGeometryMediaServerMaster
+GdtfGeometryMediaServerMaster::GdtfGeometryMediaServerMaster(GdtfGeometry* parent) : GdtfGeometry(parent)
+{
+	
+}
+
+GdtfGeometryMediaServerMaster::GdtfGeometryMediaServerMaster(const TXString& name, GdtfModelPtr refToModel,const VWTransformMatrix& ma, GdtfGeometry* parent) 
+					  		 : GdtfGeometry(name,refToModel,ma, parent)
+{
+	
+}
+
+GdtfGeometryMediaServerMaster::~GdtfGeometryMediaServerMaster()
+{
+}
+
+void GdtfGeometryMediaServerMaster::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfGeometry::OnPrintToFile(pNode);
+	
+}
+
+void GdtfGeometryMediaServerMaster::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfGeometry::OnReadFromNode(pNode);
+}
+
+void GdtfGeometryMediaServerMaster::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_GeometryName);
+	optional.push_back(XML_GDTF_GeometryModelRef);
+	needed.push_back(XML_GDTF_GeometryMatrix);
+
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfGeometryMediaServerMaster::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfGeometryMediaServerMaster;
+}
+
+TXString GdtfGeometryMediaServerMaster::GetNodeName()
+{
+	return XML_GDTF_MediaServerMasterNodeName;
+}
+
+//------------------------------------------------------------------------------------
+// GdtfGeometryDisplay
+GdtfGeometryDisplay::GdtfGeometryDisplay(GdtfGeometry* parent)
+					:GdtfGeometry(parent)
+{
+	fTexture = "";
+}
+
+GdtfGeometryDisplay::GdtfGeometryDisplay(const TXString& name, GdtfModelPtr refToModel,const VWTransformMatrix& ma, GdtfGeometry* parent) 
+					:GdtfGeometry(name,refToModel,ma, parent)
+{
+	fTexture = "";
+}
+
+GdtfGeometryDisplay::~GdtfGeometryDisplay()
+{
+}
+
+const TXString& GdtfGeometryDisplay::GetTexture() 
+{
+	return fTexture;
+}
+
+void GdtfGeometryDisplay::SetTexture(const TXString& texture) 
+{
+	fTexture = texture;
+}
+
+const size_t& GdtfGeometryDisplay::GetWidth() const
+{
+	return fWidth;
+}
+
+void GdtfGeometryDisplay::SetWidth( size_t width )
+{
+	fWidth = width;
+}
+
+const size_t& GdtfGeometryDisplay::GetHeight() const
+{
+	return fHeight;
+}
+
+void GdtfGeometryDisplay::SetHeight( size_t height )
+{
+	fHeight = height;
+}
+
+void GdtfGeometryDisplay::SetIsCurved( const bool& isCurved )
+{
+	fIsCurved = isCurved;
+}
+
+void GdtfGeometryDisplay::GetIsCurved( bool& curvedRadius ) const
+{
+	curvedRadius = fIsCurved;
+}
+
+void GdtfGeometryDisplay::OnPrintToFile(IXMLFileNodePtr pNode) 
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfGeometry::OnPrintToFile(pNode);
+	pNode->SetNodeAttributeValue( XML_GDTF_DisplayTexture,		fTexture );
+	pNode->SetNodeAttributeValue( XML_GDTF_DisplayWidth,		GdtfConverter::ConvertInteger(fWidth) );
+	pNode->SetNodeAttributeValue( XML_GDTF_DisplayHeight,		GdtfConverter::ConvertInteger( fHeight ) );
+	pNode->SetNodeAttributeValue( XML_GDTF_DisplayIsCurved,		fIsCurved ? "true" : "false" );
+}
+
+void GdtfGeometryDisplay::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfGeometry::OnReadFromNode(pNode);
+
+	TXString width, height, isCurved = "";
+
+	pNode->GetNodeAttributeValue( XML_GDTF_DisplayTexture, fTexture);
+	pNode->GetNodeAttributeValue( XML_GDTF_DisplayWidth, width );
+	pNode->GetNodeAttributeValue( XML_GDTF_DisplayHeight, height );
+	pNode->GetNodeAttributeValue( XML_GDTF_DisplayIsCurved, isCurved );
+
+	GdtfConverter::ConvertInteger(	width,			pNode,		fWidth );
+	GdtfConverter::ConvertInteger(	height,			pNode,		fHeight );
+	GdtfConverter::ConvertBool(		isCurved,		pNode,		fIsCurved );
+}
+
+void GdtfGeometryDisplay::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_GeometryName);
+	optional.push_back(XML_GDTF_GeometryModelRef);
+	needed.push_back(XML_GDTF_GeometryMatrix);
+	needed.push_back(XML_GDTF_DisplayTexture);
+	optional.push_back(XML_GDTF_DisplayWidth);
+	optional.push_back(XML_GDTF_DisplayHeight);
+	optional.push_back(XML_GDTF_DisplayIsCurved);
+
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfGeometryDisplay::GetObjectType() 
+{
+	return EGdtfObjectType::eGdtfGeometryDisplay;
+}
+
+TXString GdtfGeometryDisplay::GetNodeName()
+{
+	return XML_GDTF_DisplayNodeName;
+}
+
+//------------------------------------------------------------------------------------
+// GdtfLaserProtocol
+GdtfLaserProtocol::GdtfLaserProtocol()
+{
+	fName = "";
+}
+
+GdtfLaserProtocol::GdtfLaserProtocol(const TXString& name)
+{
+	fName = name;
+}
+
+GdtfLaserProtocol::~GdtfLaserProtocol()
+{
+}
+
+const TXString&	GdtfLaserProtocol::GetName() const
+{
+	return fName;
+}
+
+void GdtfLaserProtocol::SetName(const TXString& name)
+{
+	fName = name;
+}
+
+void GdtfLaserProtocol::OnPrintToFile(IXMLFileNodePtr pNode) 
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnPrintToFile(pNode);
+
+	pNode->SetNodeAttributeValue(XML_GDTF_LaserProtocolName, fName);
+}
+
+void GdtfLaserProtocol::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnReadFromNode(pNode);
+
+	pNode->GetNodeAttributeValue(XML_GDTF_LaserProtocolName, fName);
+}
+
+void GdtfLaserProtocol::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_LaserProtocolName);
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfLaserProtocol::GetObjectType() 
+{
+	return EGdtfObjectType::eGdtfLaserProtocol;
+}
+
+TXString GdtfLaserProtocol::GetNodeName()
+{
+	return XML_GDTF_LaserProtocolNodeName;
+}
+
+//------------------------------------------------------------------------------------
+// GdtfGeometryLaser
+GdtfGeometryLaser::GdtfGeometryLaser(GdtfGeometry* parent)
+					:GdtfGeometry(parent)
+{
+	fColorType 	= EGdtfLaserColorType::RGB;
+	fEmitter 	= nullptr;
+}
+
+GdtfGeometryLaser::GdtfGeometryLaser(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma, GdtfGeometry* parent) 
+					:GdtfGeometry(name, refToModel, ma, parent)
+{
+	fColorType 	= EGdtfLaserColorType::RGB;
+	fEmitter 	= nullptr;
+}
+
+GdtfGeometryLaser::~GdtfGeometryLaser()
+{
+	for(GdtfLaserProtocolPtr laserProtocol : fLaserProtocols) { delete laserProtocol; }
+}
+
+EGdtfLaserColorType	GdtfGeometryLaser::GetColorType() const
+{
+	return fColorType;
+}
+
+double GdtfGeometryLaser::GetColor() const
+{
+	return fColor;
+}
+double GdtfGeometryLaser::GetOutputStrength() const
+{
+	return fOutputStrength;
+}
+
+GdtfPhysicalEmitter* GdtfGeometryLaser::GetEmitter() const
+{
+	return fEmitter;
+}
+
+double GdtfGeometryLaser::GetBeamDiameter() const
+{
+	return fBeamDiameter;
+}
+
+double GdtfGeometryLaser::GetBeamDivergenceMin() const
+{
+	return fBeamDivergenceMin;
+}
+
+double GdtfGeometryLaser::GetBeamDivergenceMax() const
+{
+	return fBeamDivergenceMax;
+}
+
+double GdtfGeometryLaser::GetScanAnglePan() const
+{
+	return fScanAnglePan;
+}
+
+double GdtfGeometryLaser::GetScanAngleTilt() const
+{
+	return fScanAngleTilt;
+}
+
+double GdtfGeometryLaser::GetScanSpeed() const
+{
+	return fScanSpeed;
+}
+
+const TXString&	GdtfGeometryLaser::GetUnresolvedEmitter() const
+{
+	return fUnresolvedEmitter;
+}
+
+const TGdtfLaserProtocolArray& GdtfGeometryLaser::GetLaserProtocolArray() const
+{
+	return fLaserProtocols;
+}
+
+void GdtfGeometryLaser::SetColorType(const EGdtfLaserColorType& colorType)
+{
+	fColorType = colorType;
+}
+
+void GdtfGeometryLaser::SetColor(double waveLength)
+{
+	fColor = waveLength;
+}
+
+void GdtfGeometryLaser::SetOutputStrength(double outputStrength)
+{
+	fOutputStrength = outputStrength;
+}
+
+void GdtfGeometryLaser::SetEmitter(GdtfPhysicalEmitter* emitter)
+{
+	fEmitter = emitter;
+}
+
+void GdtfGeometryLaser::SetBeamDiameter(double beamDiameter)
+{
+	fBeamDiameter = beamDiameter;
+}
+
+void GdtfGeometryLaser::SetBeamDivergenceMin(double beamDivergenceMin)
+{
+	fBeamDivergenceMin = beamDivergenceMin;
+}
+
+void GdtfGeometryLaser::SetBeamDivergenceMax(double beamDivergenceMax)
+{
+	fBeamDivergenceMax = beamDivergenceMax;
+}
+
+void GdtfGeometryLaser::SetScanAnglePan(double scanAnglePan)
+{
+	fScanAnglePan = scanAnglePan;
+}
+
+void GdtfGeometryLaser::SetScanAngleTilt(double scanAngleTilt)
+{
+	fScanAngleTilt = scanAngleTilt;
+}
+
+void GdtfGeometryLaser::SetScanSpeed(double scanSpeed)
+{
+	fScanSpeed = scanSpeed;
+}
+
+GdtfLaserProtocolPtr GdtfGeometryLaser::CreateLaserProtocol(const TXString& name)
+{
+	GdtfLaserProtocolPtr laserProtocol = new GdtfLaserProtocol(name);
+    fLaserProtocols.push_back(laserProtocol);
+	return laserProtocol;
+}
+
+void GdtfGeometryLaser::OnPrintToFile(IXMLFileNodePtr pNode) 
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfGeometry::OnPrintToFile(pNode);
+
+	// Attributes
+	pNode->SetNodeAttributeValue(XML_GDTF_LaserColorType, 			GdtfConverter::ConvertLaserColorTypeEnum(fColorType));
+	pNode->SetNodeAttributeValue(XML_GDTF_LaserColor,				GdtfConverter::ConvertDouble(fColor));
+	pNode->SetNodeAttributeValue(XML_GDTF_LaserOutputStrength,		GdtfConverter::ConvertDouble(fOutputStrength));
+	if(fEmitter)	{ pNode->SetNodeAttributeValue(XML_GDTF_LaserEmitter, fEmitter->GetNodeReference()); }
+	pNode->SetNodeAttributeValue(XML_GDTF_LaserBeamDiameter,		GdtfConverter::ConvertDouble(fBeamDiameter));
+	pNode->SetNodeAttributeValue(XML_GDTF_LaserBeamDivergenceMin,	GdtfConverter::ConvertDouble(fBeamDivergenceMin));
+	pNode->SetNodeAttributeValue(XML_GDTF_LaserBeamDivergenceMax,	GdtfConverter::ConvertDouble(fBeamDivergenceMax));
+	pNode->SetNodeAttributeValue(XML_GDTF_LaserScanAnglePan,		GdtfConverter::ConvertDouble(fScanAnglePan));
+	pNode->SetNodeAttributeValue(XML_GDTF_LaserScanAngleTilt,		GdtfConverter::ConvertDouble(fScanAngleTilt));
+	pNode->SetNodeAttributeValue(XML_GDTF_LaserScanSpeed,			GdtfConverter::ConvertDouble(fScanSpeed));
+
+	// Children
+	for(GdtfLaserProtocolPtr laserProtocol : fLaserProtocols)
+	{
+		laserProtocol->WriteToNode(pNode);
+	}
+}
+
+void GdtfGeometryLaser::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfGeometry::OnReadFromNode(pNode);
+
+	TXString colorType;			pNode->GetNodeAttributeValue(XML_GDTF_LaserColorType,			colorType);			GdtfConverter::ConvertLaserColorTypeEnum(colorType, pNode, fColorType);
+	TXString color;				pNode->GetNodeAttributeValue(XML_GDTF_LaserColor,				color);				GdtfConverter::ConvertDouble(color, pNode, fColor);
+	TXString outputStrength;	pNode->GetNodeAttributeValue(XML_GDTF_LaserOutputStrength,		outputStrength);	GdtfConverter::ConvertDouble(outputStrength, pNode, fOutputStrength);
+	pNode->GetNodeAttributeValue(XML_GDTF_LaserEmitter,	fUnresolvedEmitter);
+	TXString beamDiameter;		pNode->GetNodeAttributeValue(XML_GDTF_LaserBeamDiameter,		beamDiameter);		GdtfConverter::ConvertDouble(beamDiameter, pNode, fBeamDiameter);
+	TXString beamDivergenceMin;	pNode->GetNodeAttributeValue(XML_GDTF_LaserBeamDivergenceMin,	beamDivergenceMin);	GdtfConverter::ConvertDouble(beamDivergenceMin, pNode, fBeamDivergenceMin);
+	TXString beamDivergenceMax;	pNode->GetNodeAttributeValue(XML_GDTF_LaserBeamDivergenceMax,	beamDivergenceMax);	GdtfConverter::ConvertDouble(beamDivergenceMax, pNode, fBeamDivergenceMax);
+	TXString scanAnglePan;		pNode->GetNodeAttributeValue(XML_GDTF_LaserScanAnglePan,		scanAnglePan);		GdtfConverter::ConvertDouble(scanAnglePan, pNode, fScanAnglePan);
+	TXString scanAngleTilt;		pNode->GetNodeAttributeValue(XML_GDTF_LaserScanAngleTilt,		scanAngleTilt);		GdtfConverter::ConvertDouble(scanAngleTilt, pNode, fScanAngleTilt);
+	TXString scanSpeed;			pNode->GetNodeAttributeValue(XML_GDTF_LaserScanSpeed,			scanSpeed);			GdtfConverter::ConvertDouble(scanSpeed, pNode, fScanSpeed);
+
+	GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_LaserProtocolNodeName, [this] (IXMLFileNodePtr objNode) -> void
+								{ 
+									if ( CheckAbort() ) return;
+									GdtfLaserProtocolPtr laserProtocol = new GdtfLaserProtocol();
+									
+									laserProtocol->ReadFromNode(objNode);
+									
+									fLaserProtocols.push_back(laserProtocol);
+									return;
+								});
+}
+
+void GdtfGeometryLaser::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_GeometryName);
+	optional.push_back(XML_GDTF_GeometryModelRef);
+	needed.push_back(XML_GDTF_GeometryMatrix);
+
+	needed.push_back(XML_GDTF_LaserColorType);
+	if(fColorType == EGdtfLaserColorType::SingleWaveLength) { needed.push_back(XML_GDTF_LaserColor); }
+	else 													{ optional.push_back(XML_GDTF_LaserColor); }
+	needed.push_back(XML_GDTF_LaserOutputStrength);
+	optional.push_back(XML_GDTF_LaserEmitter);
+	needed.push_back(XML_GDTF_LaserBeamDiameter);
+	needed.push_back(XML_GDTF_LaserBeamDivergenceMin);
+	needed.push_back(XML_GDTF_LaserBeamDivergenceMax);
+	needed.push_back(XML_GDTF_LaserScanAnglePan);
+	needed.push_back(XML_GDTF_LaserScanAngleTilt);
+	needed.push_back(XML_GDTF_LaserScanSpeed);
+
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfGeometryLaser::GetObjectType() 
+{
+	return EGdtfObjectType::eGdtfGeometryLaser;
+}
+
+TXString GdtfGeometryLaser::GetNodeName()
+{
+	return XML_GDTF_LaserNodeName;
+}
+
+//------------------------------------------------------------------------------------
+// GdtfPinPatch
+GdtfPinPatch::GdtfPinPatch()
+{
+	fToWiringObject = nullptr;
+}
+
+GdtfPinPatch::GdtfPinPatch(GdtfGeometryWiringObjectPtr toWiringObject, size_t fromPin, size_t toPin)
+{
+	fToWiringObject = toWiringObject;
+	fFromPin 		= fromPin;
+	fToPin 			= toPin;
+}
+
+GdtfPinPatch::~GdtfPinPatch()
+{
+}
+
+GdtfGeometryWiringObjectPtr GdtfPinPatch::GetToWiringObject() const
+{
+	return fToWiringObject;
+}
+
+size_t GdtfPinPatch::GetFromPin() const
+{
+	return fFromPin;
+}
+
+size_t GdtfPinPatch::GetToPin() const
+{
+	return fToPin;
+}
+
+const TXString&	GdtfPinPatch::GetUnresolvedWiringObject() const
+{
+	return fUnresolvedWiringObject;
+}
+
+void GdtfPinPatch::SetToWiringObject(GdtfGeometryWiringObjectPtr toWiringObject)
+{
+	fToWiringObject = toWiringObject;
+}
+
+void GdtfPinPatch::SetFromPin(size_t fromPin)
+{
+	fFromPin = fromPin;
+}
+
+void GdtfPinPatch::SetToPin(size_t toPin)
+{
+	fToPin = toPin;
+}
+
+void GdtfPinPatch::OnPrintToFile(IXMLFileNodePtr pNode) 
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnPrintToFile(pNode);
+
+	if(fToWiringObject)	{ pNode->SetNodeAttributeValue(XML_GDTF_PinPatchToWiringObject, fToWiringObject->GetNodeReference()); }
+	pNode->SetNodeAttributeValue(XML_GDTF_PinPatchFromPin,	GdtfConverter::ConvertInteger(fFromPin));
+	pNode->SetNodeAttributeValue(XML_GDTF_PinPatchToPin,	GdtfConverter::ConvertInteger(fToPin));
+}
+
+void GdtfPinPatch::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnReadFromNode(pNode);
+
+	pNode->GetNodeAttributeValue(XML_GDTF_PinPatchToWiringObject, fUnresolvedWiringObject);
+	TXString fromPin;	pNode->GetNodeAttributeValue(XML_GDTF_PinPatchFromPin,	fromPin);	GdtfConverter::ConvertInteger(fromPin, 	pNode,	fFromPin);
+	TXString toPin;		pNode->GetNodeAttributeValue(XML_GDTF_PinPatchToPin,	toPin);		GdtfConverter::ConvertInteger(toPin, 	pNode,	fToPin);
+}
+
+void GdtfPinPatch::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_PinPatchToWiringObject);
+	needed.push_back(XML_GDTF_PinPatchFromPin);
+	needed.push_back(XML_GDTF_PinPatchToPin);
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfPinPatch::GetObjectType() 
+{
+	return EGdtfObjectType::eGdtfPinPatch;
+}
+
+TXString GdtfPinPatch::GetNodeName()
+{
+	return XML_GDTF_PinPatchNodeName;
+}
+
+//------------------------------------------------------------------------------------
+// GdtfGeometryWiringObject
+GdtfGeometryWiringObject::GdtfGeometryWiringObject(GdtfGeometry* parent)
+					:GdtfGeometry(parent)
+{
+	fComponentType 	= EGdtfComponentType::Input;
+	fOrientation 	= EGdtfOrientation::Left;
+	fFuseRating 	= EGdtfFuseRating::B;
+	fPinCount			= 0;
+	fSignalLayer		= 0;
+	fElectricalPayLoad	= 0; 
+	fVoltageRangeMin	= 0; 	
+	fVoltageRangeMax	= 0; 	
+	fFrequencyRangeMin	= 0; 
+	fFrequencyRangeMax	= 0; 
+	fCosPhi				= 0; 			
+	fMaxPayLoad			= 0;
+	fVoltage			= 0; 			
+	fFuseCurrent		= 0; 		
+}
+
+GdtfGeometryWiringObject::GdtfGeometryWiringObject(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma, GdtfGeometry* parent) 
+					:GdtfGeometry(name, refToModel, ma, parent)
+{
+	fComponentType 	= EGdtfComponentType::Input;
+	fOrientation 	= EGdtfOrientation::Left;
+	fFuseRating 	= EGdtfFuseRating::B;
+	fPinCount			= 0;
+	fSignalLayer		= 0;
+	fElectricalPayLoad	= 0; 
+	fVoltageRangeMin	= 0; 	
+	fVoltageRangeMax	= 0; 	
+	fFrequencyRangeMin	= 0; 
+	fFrequencyRangeMax	= 0; 
+	fCosPhi				= 0; 			
+	fMaxPayLoad			= 0;
+	fVoltage			= 0; 			
+	fFuseCurrent		= 0; 	
+}
+
+GdtfGeometryWiringObject::~GdtfGeometryWiringObject()
+{
+	for(GdtfPinPatchPtr pinPatch : fPinPatches) { delete pinPatch; }
+}
+
+const TXString&	GdtfGeometryWiringObject::GetConnectorType() const
+{
+	return fConnectorType;
+}
+
+EGdtfComponentType GdtfGeometryWiringObject::GetComponentType() const
+{
+	return fComponentType;
+}
+
+const TXString& GdtfGeometryWiringObject::GetSignalType() const
+{
+	return fSignalType;
+}
+
+size_t GdtfGeometryWiringObject::GetPinCount() const
+{
+	return fPinCount;
+}
+
+size_t GdtfGeometryWiringObject::GetSignalLayer() const
+{
+	return fSignalLayer;
+}
+
+EGdtfOrientation GdtfGeometryWiringObject::GetOrientation() const
+{
+	return fOrientation;
+}
+
+const TXString& GdtfGeometryWiringObject::GetWireGroup() const
+{
+	return fWireGroup;
+}
+
+double GdtfGeometryWiringObject::GetElectricalPayLoad() const
+{
+	return fElectricalPayLoad;
+}
+
+double GdtfGeometryWiringObject::GetVoltageRangeMin() const
+{
+	return fVoltageRangeMin;
+}
+
+double GdtfGeometryWiringObject::GetVoltageRangeMax() const
+{
+	return fVoltageRangeMax;
+}
+
+double GdtfGeometryWiringObject::GetFrequencyRangeMin() const
+{
+	return fFrequencyRangeMin;
+}
+
+double GdtfGeometryWiringObject::GetFrequencyRangeMax() const
+{
+	return fFrequencyRangeMax;
+}
+
+double GdtfGeometryWiringObject::GetCosPhi() const
+{
+	return fCosPhi;
+}
+
+double GdtfGeometryWiringObject::GetMaxPayLoad() const
+{
+	return fMaxPayLoad;
+}
+
+double GdtfGeometryWiringObject::GetVoltage() const
+{
+	return fVoltage;
+}
+
+double GdtfGeometryWiringObject::GetFuseCurrent() const
+{
+	return fFuseCurrent;
+}
+
+EGdtfFuseRating GdtfGeometryWiringObject::GetFuseRating() const
+{
+	return fFuseRating;
+}
+
+const TGdtfPinPatchArray& GdtfGeometryWiringObject::GetPinPatchArray() const
+{
+	return fPinPatches;
+}
+
+void GdtfGeometryWiringObject::SetConnectorType(const TXString& connectorType)
+{
+	fConnectorType = connectorType;
+}
+
+void GdtfGeometryWiringObject::SetComponentType(const EGdtfComponentType& componentType)
+{
+	fComponentType = componentType;
+}
+
+void GdtfGeometryWiringObject::SetSignalType(const TXString& signalType)
+{
+	fSignalType = signalType;
+}
+
+void GdtfGeometryWiringObject::SetPinCount(size_t pinCount)
+{
+	fPinCount = pinCount;
+}
+
+void GdtfGeometryWiringObject::SetSignalLayer(size_t signalLayer)
+{
+	fSignalLayer = signalLayer;
+}
+
+void GdtfGeometryWiringObject::SetOrientation(const EGdtfOrientation& orientation)
+{
+	fOrientation = orientation;
+}
+
+void GdtfGeometryWiringObject::SetWireGroup(const TXString& wireGroup)
+{
+	fWireGroup = wireGroup;
+}
+
+void GdtfGeometryWiringObject::SetElectricalPayLoad(double electricalPayLoad)
+{
+	fElectricalPayLoad = electricalPayLoad;
+}
+
+void GdtfGeometryWiringObject::SetVoltageRangeMin(double voltageRangeMin)
+{
+	fVoltageRangeMin = voltageRangeMin;
+}
+
+void GdtfGeometryWiringObject::SetVoltageRangeMax(double voltageRangeMax)
+{
+	fVoltageRangeMax = voltageRangeMax;
+}
+
+void GdtfGeometryWiringObject::SetFrequencyRangeMin(double frequencyRangeMin)
+{
+	fFrequencyRangeMin = frequencyRangeMin;
+}
+
+void GdtfGeometryWiringObject::SetFrequencyRangeMax(double frequencyRangeMax)
+{
+	fFrequencyRangeMax = frequencyRangeMax;
+}
+
+void GdtfGeometryWiringObject::SetCosPhi(double cosPhi)
+{
+	fCosPhi = cosPhi;
+}
+
+void GdtfGeometryWiringObject::SetMaxPayLoad(double maxPayload)
+{
+	fMaxPayLoad = maxPayload;
+}
+
+void GdtfGeometryWiringObject::SetVoltage(double voltage)
+{
+	fVoltage = voltage;
+}
+
+void GdtfGeometryWiringObject::SetFuseCurrent(double fuseCurrent)
+{
+	fFuseCurrent = fuseCurrent;
+}
+
+void GdtfGeometryWiringObject::SetFuseRating(const EGdtfFuseRating& fuseRating)
+{
+	fFuseRating = fuseRating;
+}
+
+GdtfPinPatchPtr GdtfGeometryWiringObject::CreatePinPatch(GdtfGeometryWiringObject* toWiringObject, size_t fromPin, size_t toPin)
+{
+	GdtfPinPatchPtr pinPatch = new GdtfPinPatch(toWiringObject, fromPin, toPin);
+    fPinPatches.push_back(pinPatch);
+	return pinPatch;
+}
+
+void GdtfGeometryWiringObject::OnPrintToFile(IXMLFileNodePtr pNode) 
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfGeometry::OnPrintToFile(pNode);
+
+	pNode->SetNodeAttributeValue(XML_GDTF_WiringObjectComponentType, 		GdtfConverter::ConvertComponentTypeEnum(fComponentType));
+	pNode->SetNodeAttributeValue(XML_GDTF_WiringObjectConnectorType, 		fConnectorType);
+	pNode->SetNodeAttributeValue(XML_GDTF_WiringObjectSignalType, 			fSignalType);
+	pNode->SetNodeAttributeValue(XML_GDTF_WiringObjectPinCount,				GdtfConverter::ConvertInteger(fPinCount));
+	pNode->SetNodeAttributeValue(XML_GDTF_WiringObjectSignalLayer,			GdtfConverter::ConvertInteger(fSignalLayer));
+	pNode->SetNodeAttributeValue(XML_GDTF_WiringObjectOrientation, 			GdtfConverter::ConvertOrientationEnum(fOrientation));
+	pNode->SetNodeAttributeValue(XML_GDTF_WiringObjectWireGroup, 			fWireGroup);
+	pNode->SetNodeAttributeValue(XML_GDTF_WiringObjectElectricalPayLoad,	GdtfConverter::ConvertDouble(fElectricalPayLoad));
+	pNode->SetNodeAttributeValue(XML_GDTF_WiringObjectVoltageRangeMin,		GdtfConverter::ConvertDouble(fVoltageRangeMin));
+	pNode->SetNodeAttributeValue(XML_GDTF_WiringObjectVoltageRangeMax,		GdtfConverter::ConvertDouble(fVoltageRangeMax));
+	pNode->SetNodeAttributeValue(XML_GDTF_WiringObjectFrequencyRangeMin,	GdtfConverter::ConvertDouble(fFrequencyRangeMin));
+	pNode->SetNodeAttributeValue(XML_GDTF_WiringObjectFrequencyRangeMax,	GdtfConverter::ConvertDouble(fFrequencyRangeMax));
+	pNode->SetNodeAttributeValue(XML_GDTF_WiringObjectCosPhi,				GdtfConverter::ConvertDouble(fCosPhi));
+	pNode->SetNodeAttributeValue(XML_GDTF_WiringObjectMaxPayLoad,			GdtfConverter::ConvertDouble(fMaxPayLoad));
+	pNode->SetNodeAttributeValue(XML_GDTF_WiringObjectVoltage,				GdtfConverter::ConvertDouble(fVoltage));
+	pNode->SetNodeAttributeValue(XML_GDTF_WiringObjectFuseCurrent,			GdtfConverter::ConvertDouble(fFuseCurrent));
+	pNode->SetNodeAttributeValue(XML_GDTF_WiringObjectFuseRating, 			GdtfConverter::ConvertFuseRatingEnum(fFuseRating));
+
+	for(GdtfPinPatchPtr pinPatch : fPinPatches)
+	{
+		pinPatch->WriteToNode(pNode);
+	}
+
+}
+
+void GdtfGeometryWiringObject::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfGeometry::OnReadFromNode(pNode);
+
+	TXString componentType;		pNode->GetNodeAttributeValue(XML_GDTF_WiringObjectComponentType, componentType); 			GdtfConverter::ConvertComponentTypeEnum(componentType, pNode, fComponentType);
+								pNode->GetNodeAttributeValue(XML_GDTF_WiringObjectConnectorType, fConnectorType);
+								pNode->GetNodeAttributeValue(XML_GDTF_WiringObjectSignalType, fSignalType);
+	TXString pinCount;			pNode->GetNodeAttributeValue(XML_GDTF_WiringObjectPinCount, pinCount); 						GdtfConverter::ConvertInteger(pinCount, pNode, fPinCount);
+	TXString signalLayer;		pNode->GetNodeAttributeValue(XML_GDTF_WiringObjectSignalLayer, signalLayer); 				GdtfConverter::ConvertInteger(signalLayer, pNode, fSignalLayer);
+	TXString orientation;		pNode->GetNodeAttributeValue(XML_GDTF_WiringObjectOrientation, orientation); 				GdtfConverter::ConvertOrientationEnum(orientation, pNode, fOrientation);
+								pNode->GetNodeAttributeValue(XML_GDTF_WiringObjectWireGroup, fWireGroup);
+	TXString electricalPayLoad;	pNode->GetNodeAttributeValue(XML_GDTF_WiringObjectElectricalPayLoad, electricalPayLoad); 	GdtfConverter::ConvertDouble(electricalPayLoad, pNode, fElectricalPayLoad);
+	TXString voltageRangeMin;	pNode->GetNodeAttributeValue(XML_GDTF_WiringObjectVoltageRangeMin, voltageRangeMin); 		GdtfConverter::ConvertDouble(voltageRangeMin, pNode, fVoltageRangeMin);
+	TXString voltageRangeMax;	pNode->GetNodeAttributeValue(XML_GDTF_WiringObjectVoltageRangeMax, voltageRangeMax); 		GdtfConverter::ConvertDouble(voltageRangeMax, pNode, fVoltageRangeMax);
+	TXString frequencyRangeMin;	pNode->GetNodeAttributeValue(XML_GDTF_WiringObjectFrequencyRangeMin, frequencyRangeMin); 	GdtfConverter::ConvertDouble(frequencyRangeMin, pNode, fFrequencyRangeMin);
+	TXString frequencyRangeMax;	pNode->GetNodeAttributeValue(XML_GDTF_WiringObjectFrequencyRangeMax, frequencyRangeMax); 	GdtfConverter::ConvertDouble(frequencyRangeMax, pNode, fFrequencyRangeMax);
+	TXString cosPhi;			pNode->GetNodeAttributeValue(XML_GDTF_WiringObjectCosPhi, cosPhi); 							GdtfConverter::ConvertDouble(cosPhi, pNode, fCosPhi);
+	TXString maxPayLoad;		pNode->GetNodeAttributeValue(XML_GDTF_WiringObjectMaxPayLoad, maxPayLoad); 					GdtfConverter::ConvertDouble(maxPayLoad, pNode, fMaxPayLoad);
+	TXString voltage;			pNode->GetNodeAttributeValue(XML_GDTF_WiringObjectVoltage, voltage); 						GdtfConverter::ConvertDouble(voltage, pNode, fVoltage);
+	TXString fuseCurrent;		pNode->GetNodeAttributeValue(XML_GDTF_WiringObjectFuseCurrent, fuseCurrent); 				GdtfConverter::ConvertDouble(fuseCurrent, pNode, fFuseCurrent);
+	TXString fuseRating;		pNode->GetNodeAttributeValue(XML_GDTF_WiringObjectFuseRating, fuseRating); 					GdtfConverter::ConvertFuseRatingEnum(fuseRating, pNode, fFuseRating);
+
+	GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_PinPatchNodeName, [this] (IXMLFileNodePtr objNode) -> void
+								{ 
+									if ( CheckAbort() ) return;		
+									GdtfPinPatchPtr pinPatch = new GdtfPinPatch();
+									
+									pinPatch->ReadFromNode(objNode);
+									
+									fPinPatches.push_back(pinPatch);
+									return;
+								});
+
+}
+
+void GdtfGeometryWiringObject::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_GeometryName);
+	optional.push_back(XML_GDTF_GeometryModelRef);
+	needed.push_back(XML_GDTF_GeometryMatrix);
+
+	needed.push_back(XML_GDTF_WiringObjectComponentType);
+	needed.push_back(XML_GDTF_WiringObjectConnectorType);
+	needed.push_back(XML_GDTF_WiringObjectSignalType);
+	needed.push_back(XML_GDTF_WiringObjectPinCount);
+	needed.push_back(XML_GDTF_WiringObjectSignalLayer);
+	needed.push_back(XML_GDTF_WiringObjectOrientation);
+	needed.push_back(XML_GDTF_WiringObjectWireGroup);
+	if(fComponentType == EGdtfComponentType::Consumer)
+	{
+		needed.push_back(XML_GDTF_WiringObjectElectricalPayLoad);
+		needed.push_back(XML_GDTF_WiringObjectVoltageRangeMin);
+		needed.push_back(XML_GDTF_WiringObjectVoltageRangeMax);
+		needed.push_back(XML_GDTF_WiringObjectFrequencyRangeMin);
+		needed.push_back(XML_GDTF_WiringObjectFrequencyRangeMax);
+		needed.push_back(XML_GDTF_WiringObjectCosPhi);
+	}
+	else
+	{
+		optional.push_back(XML_GDTF_WiringObjectElectricalPayLoad);
+		optional.push_back(XML_GDTF_WiringObjectVoltageRangeMin);
+		optional.push_back(XML_GDTF_WiringObjectVoltageRangeMax);
+		optional.push_back(XML_GDTF_WiringObjectFrequencyRangeMin);
+		optional.push_back(XML_GDTF_WiringObjectFrequencyRangeMax);
+		optional.push_back(XML_GDTF_WiringObjectCosPhi);
+
+	}
+
+	if(fComponentType == EGdtfComponentType::PowerSource)
+	{
+		needed.push_back(XML_GDTF_WiringObjectMaxPayLoad);
+		needed.push_back(XML_GDTF_WiringObjectVoltage);
+	}
+	else
+	{
+		optional.push_back(XML_GDTF_WiringObjectMaxPayLoad);
+		optional.push_back(XML_GDTF_WiringObjectVoltage);
+	}
+
+	if(fComponentType == EGdtfComponentType::Fuse)
+	{
+		needed.push_back(XML_GDTF_WiringObjectFuseCurrent);
+		needed.push_back(XML_GDTF_WiringObjectFuseRating);
+	}
+	else
+	{
+		optional.push_back(XML_GDTF_WiringObjectFuseCurrent);
+		optional.push_back(XML_GDTF_WiringObjectFuseRating);
+	}
+
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfGeometryWiringObject::GetObjectType() 
+{
+	return EGdtfObjectType::eGdtfGeometryWiringObject;
+}
+
+TXString GdtfGeometryWiringObject::GetNodeName()
+{
+	return XML_GDTF_WiringObjectNodeName;
+}
+
+//------------------------------------------------------------------------------------
+// GdtfGeometryInventory
+GdtfGeometryInventory::GdtfGeometryInventory(GdtfGeometry* parent)
+					:GdtfGeometry(parent)
+{
+}
+
+GdtfGeometryInventory::GdtfGeometryInventory(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma, GdtfGeometry* parent) 
+					:GdtfGeometry(name, refToModel, ma, parent)
+{
+}
+
+GdtfGeometryInventory::~GdtfGeometryInventory()
+{
+}
+
+size_t GdtfGeometryInventory::GetCount() const
+{
+	return fCount;
+}
+
+void GdtfGeometryInventory::SetCount(size_t count)
+{
+	fCount = count;
+}
+
+void GdtfGeometryInventory::OnPrintToFile(IXMLFileNodePtr pNode) 
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfGeometry::OnPrintToFile(pNode);
+
+	pNode->SetNodeAttributeValue(XML_GDTF_InventoryCount,	GdtfConverter::ConvertInteger(fCount));
+}
+
+void GdtfGeometryInventory::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfGeometry::OnReadFromNode(pNode);
+
+	TXString count;	pNode->GetNodeAttributeValue(XML_GDTF_InventoryCount, count);	GdtfConverter::ConvertInteger(count, pNode, fCount);
+}
+
+void GdtfGeometryInventory::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_GeometryName);
+	optional.push_back(XML_GDTF_GeometryModelRef);
+	needed.push_back(XML_GDTF_GeometryMatrix);
+	needed.push_back(XML_GDTF_InventoryCount);
+
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfGeometryInventory::GetObjectType() 
+{
+	return EGdtfObjectType::eGdtfGeometryInventory;
+}
+
+TXString GdtfGeometryInventory::GetNodeName()
+{
+	return XML_GDTF_InventoryNodeName;
+}
+
+//------------------------------------------------------------------------------------
+// GdtfGeometryStructure
+GdtfGeometryStructure::GdtfGeometryStructure(GdtfGeometry* parent)
+					:GdtfGeometry(parent)
+{
+	fLinkedGeometry = nullptr;
+	fTrussCrossSection = "";
+}
+
+GdtfGeometryStructure::GdtfGeometryStructure(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma, GdtfGeometry* parent) 
+					:GdtfGeometry(name, refToModel, ma, parent)
+{
+	fLinkedGeometry = nullptr;
+	fTrussCrossSection = "";
+}
+
+GdtfGeometryStructure::~GdtfGeometryStructure()
+{
+}
+
+GdtfGeometry* GdtfGeometryStructure::GetLinkedGeometry() const
+{
+	return fLinkedGeometry;
+}
+
+EGdtfStructureType GdtfGeometryStructure::GetStructureType() const
+{
+	return fStructureType;
+}
+
+EGdtfCrossSectionType GdtfGeometryStructure::GetCrossSectionType() const
+{
+	return fCrossSectionType;
+}
+
+double GdtfGeometryStructure::GetCrossSectionHeight() const
+{
+	return fCrossSectionHeight;
+}
+
+double GdtfGeometryStructure::GetCrossSectionWallThickness() const
+{
+	return fCrossSectionWallThickness;
+}
+
+const TXString& GdtfGeometryStructure::GetTrussCrossSection() const
+{
+	return fTrussCrossSection;
+}
+
+const TXString&	GdtfGeometryStructure::GetUnresolvedLinkedGeometry() const
+{
+	return fUnresolvedLinkedGeometry;
+}
+
+void GdtfGeometryStructure::SetLinkedGeometry(GdtfGeometry* linkedGeometry)
+{
+	fLinkedGeometry = linkedGeometry;
+}
+
+void GdtfGeometryStructure::SetStructureType(const EGdtfStructureType& structureType)
+{
+	fStructureType = structureType;
+}
+
+void GdtfGeometryStructure::SetCrossSectionType(const EGdtfCrossSectionType& crossSectionType)
+{
+	fCrossSectionType = crossSectionType;
+}
+
+void GdtfGeometryStructure::SetCrossSectionHeight(double crossSectionHeight)
+{
+	fCrossSectionHeight = crossSectionHeight;
+}
+
+void GdtfGeometryStructure::SetCrossSectionWallThickness(double crossSectionWallThickness)
+{
+	fCrossSectionWallThickness = crossSectionWallThickness;
+}
+
+void GdtfGeometryStructure::SetTrussCrossSection(const TXString& trussCrossSection)
+{
+	fTrussCrossSection = trussCrossSection;
+}
+
+void GdtfGeometryStructure::OnPrintToFile(IXMLFileNodePtr pNode) 
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfGeometry::OnPrintToFile(pNode);
+
+	TXString linkedGeometry = "";
+	if(fLinkedGeometry) { linkedGeometry = fLinkedGeometry->GetNodeReference(); }
+
+	pNode->SetNodeAttributeValue(XML_GDTF_StructureLinkedGeometry,				linkedGeometry);
+	pNode->SetNodeAttributeValue(XML_GDTF_StructureStructureType,				GdtfConverter::ConvertStructureTypeEnum(fStructureType));
+	pNode->SetNodeAttributeValue(XML_GDTF_StructureCrossSectionType,			GdtfConverter::ConvertCrossSectionTypeEnum(fCrossSectionType));
+	pNode->SetNodeAttributeValue(XML_GDTF_StructureCrossSectionHeight,			GdtfConverter::ConvertDouble(fCrossSectionHeight));
+	pNode->SetNodeAttributeValue(XML_GDTF_StructureCrossSectionWallThickness,	GdtfConverter::ConvertDouble(fCrossSectionWallThickness));
+	pNode->SetNodeAttributeValue(XML_GDTF_StructureTrussCrossSection,			fTrussCrossSection);
+}
+
+void GdtfGeometryStructure::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfGeometry::OnReadFromNode(pNode);
+										pNode->GetNodeAttributeValue(XML_GDTF_StructureLinkedGeometry, fUnresolvedLinkedGeometry);
+	TXString structureType;				pNode->GetNodeAttributeValue(XML_GDTF_StructureStructureType, structureType);							GdtfConverter::ConvertStructureTypeEnum(structureType, pNode, fStructureType);
+	TXString crossSectionType;			pNode->GetNodeAttributeValue(XML_GDTF_StructureCrossSectionType, crossSectionType);						GdtfConverter::ConvertCrossSectionTypeEnum(crossSectionType, pNode, fCrossSectionType);
+	TXString crossSectionHeight;		pNode->GetNodeAttributeValue(XML_GDTF_StructureCrossSectionHeight, crossSectionHeight);					GdtfConverter::ConvertDouble(crossSectionHeight, pNode, fCrossSectionHeight);
+	TXString crossSectionWallThickness;	pNode->GetNodeAttributeValue(XML_GDTF_StructureCrossSectionWallThickness, crossSectionWallThickness);	GdtfConverter::ConvertDouble(crossSectionWallThickness, pNode, fCrossSectionWallThickness);
+										pNode->GetNodeAttributeValue(XML_GDTF_StructureTrussCrossSection, fTrussCrossSection);
+}
+
+void GdtfGeometryStructure::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_GeometryName);
+	optional.push_back(XML_GDTF_GeometryModelRef);
+	needed.push_back(XML_GDTF_GeometryMatrix);
+	optional.push_back(XML_GDTF_StructureLinkedGeometry);
+	needed.push_back(XML_GDTF_StructureStructureType);
+	optional.push_back(XML_GDTF_StructureCrossSectionType);
+	if(fCrossSectionType == EGdtfCrossSectionType::Tube)
+	{
+		needed.push_back(XML_GDTF_StructureCrossSectionHeight);
+		needed.push_back(XML_GDTF_StructureCrossSectionWallThickness);
+		optional.push_back(XML_GDTF_StructureTrussCrossSection);
+	}
+	else /* TrussFramework */
+	{
+		optional.push_back(XML_GDTF_StructureCrossSectionHeight);
+		optional.push_back(XML_GDTF_StructureCrossSectionWallThickness);
+		needed.push_back(XML_GDTF_StructureTrussCrossSection);
+	}
+
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfGeometryStructure::GetObjectType() 
+{
+	return EGdtfObjectType::eGdtfGeometryStructure;
+}
+
+TXString GdtfGeometryStructure::GetNodeName()
+{
+	return XML_GDTF_StructureNodeName;
+}
+
+//------------------------------------------------------------------------------------
+// GdtfGeometrySupport
+GdtfGeometrySupport::GdtfGeometrySupport(GdtfGeometry* parent)
+					:GdtfGeometry(parent)
+{
+	fRopeCrossSection = "";
+}
+
+GdtfGeometrySupport::GdtfGeometrySupport(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma, GdtfGeometry* parent) 
+					:GdtfGeometry(name, refToModel, ma, parent)
+{
+	fRopeCrossSection = "";
+}
+
+GdtfGeometrySupport::~GdtfGeometrySupport()
+{
+}
+
+EGdtfSupportType GdtfGeometrySupport::GetSupportType() const
+{
+	return fSupportType;
+}
+
+double GdtfGeometrySupport::GetCapacityX() const
+{
+	return fCapacityX;
+}
+
+double GdtfGeometrySupport::GetCapacityY() const
+{
+	return fCapacityY;
+}
+
+double GdtfGeometrySupport::GetCapacityZ() const
+{
+	return fCapacityZ;
+}
+
+double GdtfGeometrySupport::GetCapacityXX() const
+{
+	return fCapacityXX;
+}
+
+double GdtfGeometrySupport::GetCapacityYY() const
+{
+	return fCapacityYY;
+}
+
+double GdtfGeometrySupport::GetCapacityZZ() const
+{
+	return fCapacityZZ;
+}
+
+const TXString& GdtfGeometrySupport::GetRopeCrossSection() const
+{
+	return fRopeCrossSection;
+}
+
+VWPoint3D GdtfGeometrySupport::GetRopeOffset()
+{
+	return fRopeOffset;
+}
+
+double GdtfGeometrySupport::GetResistanceX() const
+{
+	return fResistanceX;
+}
+
+double GdtfGeometrySupport::GetResistanceY() const
+{
+	return fResistanceY;
+}
+
+double GdtfGeometrySupport::GetResistanceZ() const
+{
+	return fResistanceZ;
+}
+
+double GdtfGeometrySupport::GetResistanceXX() const
+{
+	return fResistanceXX;
+}
+
+double GdtfGeometrySupport::GetResistanceYY() const
+{
+	return fResistanceYY;
+}
+
+double GdtfGeometrySupport::GetResistanceZZ() const
+{
+	return fResistanceZZ;
+}
+
+void GdtfGeometrySupport::SetSupportType(const EGdtfSupportType& supportType)
+{
+	fSupportType = supportType;
+}
+
+void GdtfGeometrySupport::SetCapacityX(double capacityX)
+{
+	fCapacityX = capacityX;
+}
+
+void GdtfGeometrySupport::SetCapacityY(double capacityY)
+{
+	fCapacityY = capacityY;
+}
+
+void GdtfGeometrySupport::SetCapacityZ(double capacityZ)
+{
+	fCapacityZ = capacityZ;
+}
+
+void GdtfGeometrySupport::SetCapacityXX(double capacityXX)
+{
+	fCapacityXX = capacityXX;
+}
+
+void GdtfGeometrySupport::SetCapacityYY(double capacityYY)
+{
+	fCapacityYY = capacityYY;
+}
+
+void GdtfGeometrySupport::SetCapacityZZ(double capacityZZ)
+{
+	fCapacityZZ = capacityZZ;
+}
+
+void GdtfGeometrySupport::SetRopeCrossSection(const TXString& ropeCrossSection)
+{
+	fRopeCrossSection = ropeCrossSection;
+}
+
+void GdtfGeometrySupport::SetRopeOffset(double x, double y, double z)
+{
+	fRopeOffset.SetPoint(x, y, z);
+}
+
+void GdtfGeometrySupport::SetResistanceX(double resistanceX)
+{
+	fResistanceX = resistanceX;
+}
+
+void GdtfGeometrySupport::SetResistanceY(double resistanceY)
+{
+	fResistanceY = resistanceY;
+}
+
+void GdtfGeometrySupport::SetResistanceZ(double resistanceZ)
+{
+	fResistanceZ = resistanceZ;
+}
+
+void GdtfGeometrySupport::SetResistanceXX(double resistanceXX)
+{
+	fResistanceXX = resistanceXX;
+}
+
+void GdtfGeometrySupport::SetResistanceYY(double resistanceYY)
+{
+	fResistanceYY = resistanceYY;
+}
+
+void GdtfGeometrySupport::SetResistanceZZ(double resistanceZZ)
+{
+	fResistanceZZ = resistanceZZ;
+}
+
+void GdtfGeometrySupport::OnPrintToFile(IXMLFileNodePtr pNode) 
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfGeometry::OnPrintToFile(pNode);
+
+	pNode->SetNodeAttributeValue(XML_GDTF_SupportSupportType,		GdtfConverter::ConvertSupportTypeEnum(fSupportType));
+	pNode->SetNodeAttributeValue(XML_GDTF_SupportCapacityX,			GdtfConverter::ConvertDouble(fCapacityX));
+	pNode->SetNodeAttributeValue(XML_GDTF_SupportCapacityY,			GdtfConverter::ConvertDouble(fCapacityY));
+	pNode->SetNodeAttributeValue(XML_GDTF_SupportCapacityZ,			GdtfConverter::ConvertDouble(fCapacityZ));
+	pNode->SetNodeAttributeValue(XML_GDTF_SupportCapacityXX,		GdtfConverter::ConvertDouble(fCapacityXX));
+	pNode->SetNodeAttributeValue(XML_GDTF_SupportCapacityYY,		GdtfConverter::ConvertDouble(fCapacityYY));
+	pNode->SetNodeAttributeValue(XML_GDTF_SupportCapacityZZ,		GdtfConverter::ConvertDouble(fCapacityZZ));
+	pNode->SetNodeAttributeValue(XML_GDTF_SupportRopeCrossSection,	fRopeCrossSection);
+	pNode->SetNodeAttributeValue(XML_GDTF_SupportRopeOffset,		GdtfConverter::ConvertVector3(fRopeOffset));
+	pNode->SetNodeAttributeValue(XML_GDTF_SupportResistanceX,		GdtfConverter::ConvertDouble(fResistanceX));
+	pNode->SetNodeAttributeValue(XML_GDTF_SupportResistanceY,		GdtfConverter::ConvertDouble(fResistanceY));
+	pNode->SetNodeAttributeValue(XML_GDTF_SupportResistanceZ,		GdtfConverter::ConvertDouble(fResistanceZ));
+	pNode->SetNodeAttributeValue(XML_GDTF_SupportResistanceXX,		GdtfConverter::ConvertDouble(fResistanceXX));
+	pNode->SetNodeAttributeValue(XML_GDTF_SupportResistanceYY,		GdtfConverter::ConvertDouble(fResistanceYY));
+	pNode->SetNodeAttributeValue(XML_GDTF_SupportResistanceZZ,		GdtfConverter::ConvertDouble(fResistanceZZ));
+}
+
+void GdtfGeometrySupport::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfGeometry::OnReadFromNode(pNode);
+	TXString supportType;	pNode->GetNodeAttributeValue(XML_GDTF_SupportSupportType, supportType);		GdtfConverter::ConvertSupportTypeEnum(supportType, pNode, fSupportType);
+	TXString capacityX;		pNode->GetNodeAttributeValue(XML_GDTF_SupportCapacityX, capacityX);			GdtfConverter::ConvertDouble(capacityX, pNode, fCapacityX);
+	TXString capacityY;		pNode->GetNodeAttributeValue(XML_GDTF_SupportCapacityY, capacityY);			GdtfConverter::ConvertDouble(capacityY, pNode, fCapacityY);
+	TXString capacityZ;		pNode->GetNodeAttributeValue(XML_GDTF_SupportCapacityZ, capacityZ);			GdtfConverter::ConvertDouble(capacityZ, pNode, fCapacityZ);
+	TXString capacityXX;	pNode->GetNodeAttributeValue(XML_GDTF_SupportCapacityXX, capacityXX);		GdtfConverter::ConvertDouble(capacityXX, pNode, fCapacityXX);
+	TXString capacityYY;	pNode->GetNodeAttributeValue(XML_GDTF_SupportCapacityYY, capacityYY);		GdtfConverter::ConvertDouble(capacityYY, pNode, fCapacityYY);
+	TXString capacityZZ;	pNode->GetNodeAttributeValue(XML_GDTF_SupportCapacityZZ, capacityZZ);		GdtfConverter::ConvertDouble(capacityZZ, pNode, fCapacityZZ);
+							pNode->GetNodeAttributeValue(XML_GDTF_SupportRopeCrossSection, fRopeCrossSection);
+	TXString ropeOffset;	pNode->GetNodeAttributeValue(XML_GDTF_SupportRopeOffset, ropeOffset);		GdtfConverter::ConvertVector3(ropeOffset, pNode, fRopeOffset);
+	TXString resistanceX;	pNode->GetNodeAttributeValue(XML_GDTF_SupportResistanceX, resistanceX);		GdtfConverter::ConvertDouble(resistanceX, pNode, fResistanceX);
+	TXString resistanceY;	pNode->GetNodeAttributeValue(XML_GDTF_SupportResistanceY, resistanceY);		GdtfConverter::ConvertDouble(resistanceY, pNode, fResistanceY);
+	TXString resistanceZ;	pNode->GetNodeAttributeValue(XML_GDTF_SupportResistanceZ, resistanceZ);		GdtfConverter::ConvertDouble(resistanceZ, pNode, fResistanceZ);
+	TXString resistanceXX;	pNode->GetNodeAttributeValue(XML_GDTF_SupportResistanceXX, resistanceXX);	GdtfConverter::ConvertDouble(resistanceXX, pNode, fResistanceXX);
+	TXString resistanceYY;	pNode->GetNodeAttributeValue(XML_GDTF_SupportResistanceYY, resistanceYY);	GdtfConverter::ConvertDouble(resistanceYY, pNode, fResistanceYY);
+	TXString resistanceZZ;	pNode->GetNodeAttributeValue(XML_GDTF_SupportResistanceZZ, resistanceZZ);	GdtfConverter::ConvertDouble(resistanceZZ, pNode, fResistanceZZ);
+}
+
+void GdtfGeometrySupport::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_GeometryName);
+	optional.push_back(XML_GDTF_GeometryModelRef);
+	needed.push_back(XML_GDTF_GeometryMatrix);
+	needed.push_back(XML_GDTF_SupportSupportType);
+	
+	if(fSupportType == EGdtfSupportType::Rope)
+	{
+		needed.push_back(XML_GDTF_SupportRopeCrossSection);
+		needed.push_back(XML_GDTF_SupportRopeOffset);
+		optional.push_back(XML_GDTF_SupportCapacityX);
+		optional.push_back(XML_GDTF_SupportCapacityY);
+		optional.push_back(XML_GDTF_SupportCapacityZ);
+		optional.push_back(XML_GDTF_SupportCapacityXX);
+		optional.push_back(XML_GDTF_SupportCapacityYY);
+		optional.push_back(XML_GDTF_SupportCapacityZZ);
+		optional.push_back(XML_GDTF_SupportResistanceX);
+		optional.push_back(XML_GDTF_SupportResistanceY);
+		optional.push_back(XML_GDTF_SupportResistanceZ);
+		optional.push_back(XML_GDTF_SupportResistanceXX);
+		optional.push_back(XML_GDTF_SupportResistanceYY);
+		optional.push_back(XML_GDTF_SupportResistanceZZ);
+	}
+	else /* GroundSupport */
+	{
+		optional.push_back(XML_GDTF_SupportRopeCrossSection);
+		optional.push_back(XML_GDTF_SupportRopeOffset);
+		needed.push_back(XML_GDTF_SupportCapacityX);
+		needed.push_back(XML_GDTF_SupportCapacityY);
+		needed.push_back(XML_GDTF_SupportCapacityZ);
+		needed.push_back(XML_GDTF_SupportCapacityXX);
+		needed.push_back(XML_GDTF_SupportCapacityYY);
+		needed.push_back(XML_GDTF_SupportCapacityZZ);
+		needed.push_back(XML_GDTF_SupportResistanceX);
+		needed.push_back(XML_GDTF_SupportResistanceY);
+		needed.push_back(XML_GDTF_SupportResistanceZ);
+		needed.push_back(XML_GDTF_SupportResistanceXX);
+		needed.push_back(XML_GDTF_SupportResistanceYY);
+		needed.push_back(XML_GDTF_SupportResistanceZZ);
+	}
+
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfGeometrySupport::GetObjectType() 
+{
+	return EGdtfObjectType::eGdtfGeometrySupport;
+}
+
+TXString GdtfGeometrySupport::GetNodeName()
+{
+	return XML_GDTF_SupportNodeName;
+}
+
+//------------------------------------------------------------------------------------
+// GdtfGeometryMagnet
+GdtfGeometryMagnet::GdtfGeometryMagnet(GdtfGeometry* parent)
+					:GdtfGeometry(parent)
+{
+}
+
+GdtfGeometryMagnet::GdtfGeometryMagnet(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma, GdtfGeometry* parent) 
+					:GdtfGeometry(name, refToModel, ma, parent)
+{
+}
+
+GdtfGeometryMagnet::~GdtfGeometryMagnet()
+{
+}
+
+void GdtfGeometryMagnet::OnPrintToFile(IXMLFileNodePtr pNode) 
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfGeometry::OnPrintToFile(pNode);
+}
+
+void GdtfGeometryMagnet::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfGeometry::OnReadFromNode(pNode);
+}
+
+void GdtfGeometryMagnet::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_GeometryName);
+	optional.push_back(XML_GDTF_GeometryModelRef);
+	needed.push_back(XML_GDTF_GeometryMatrix);
+
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfGeometryMagnet::GetObjectType() 
+{
+	return EGdtfObjectType::eGdtfGeometryMagnet;
+}
+
+TXString GdtfGeometryMagnet::GetNodeName()
+{
+	return XML_GDTF_MagnetNodeName;
+}
+
+//------------------------------------------------------------------------------------
+// GdtfGeometryLamp
+GdtfGeometryLamp::GdtfGeometryLamp(GdtfGeometry* parent) 
+				: GdtfGeometry(parent)
+{
+    InitializeMembersWithDefaultsVals(); // Call this function at first
+}
+
+GdtfGeometryLamp::GdtfGeometryLamp(const TXString& name, GdtfModelPtr refToModel,const VWTransformMatrix& ma, GdtfGeometry* parent)
+				: GdtfGeometry(name,refToModel,ma, parent)
+{
+    InitializeMembersWithDefaultsVals(); // Call this function at first
+}
+
+void GdtfGeometryLamp::InitializeMembersWithDefaultsVals() 
+{
+	fLampType			= EGdtfLampType::eGdtfLampType_Dischange;
+	fPowerConsuption	= 1000;
+	fLuminousIntensity	= 10000;
+	fColorTemperature	= 6000;
+	fBeamAngle			= 25;
+    fFieldAngle         = 25;
+	fBeamRadius			= 50; //0.05m
+	fThrowRatio			= 1;
+	fRectangleRatio		= 1.7777;
+	fBeamType			= EGdtfBeamType::eGdtfBeamType_Wash;
+	fColorIndex			= 100;
+	fEmitterSpectrum	= nullptr;
+}
+
+GdtfGeometryLamp::~GdtfGeometryLamp()
+{
+}
+
+void GdtfGeometryLamp::SetLampType(EGdtfLampType type)
+{
+	fLampType = type;
+}
+
+void GdtfGeometryLamp::SetPowerConsumption(double powerConsumption)
+{
+	fPowerConsuption = powerConsumption;
+}
+
+void GdtfGeometryLamp::SetLuminousIntensity(double intensity)
+{
+	fLuminousIntensity = intensity;
+}
+
+void GdtfGeometryLamp::SetColorTemperature(double temperature)
+{
+	fColorTemperature = temperature;
+}
+
+void GdtfGeometryLamp::SetBeamAngle(double angle)
+{
+	fBeamAngle = angle;
+}
+
+void SceneData::GdtfGeometryLamp::SetFieldAngle(double angle)
+{
+    fFieldAngle = angle;
+}
+
+void SceneData::GdtfGeometryLamp::SetBeamRadius(double radius)
+{
+    fBeamRadius = radius;
+}
+
+void SceneData::GdtfGeometryLamp::SetThrowRatio(double ratio)
+{
+    fThrowRatio = ratio;
+}
+
+void SceneData::GdtfGeometryLamp::SetRectangleRatio(double ratio)
+{
+    fRectangleRatio = ratio;
+}
+
+void SceneData::GdtfGeometryLamp::SetBeamType(EGdtfBeamType type)
+{
+    fBeamType = type;
+}
+
+void SceneData::GdtfGeometryLamp::SetColorIndex(Sint32 idx)
+{
+    fColorIndex = idx;
+}
+
+void GdtfGeometryLamp::SetEmitterSpectrum(GdtfPhysicalEmitter* emitterSpectrum)
+{
+    fEmitterSpectrum = emitterSpectrum;
+}
+
+void GdtfGeometryLamp::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfGeometry::OnPrintToFile(pNode);
+	
+	
+	// ------------------------------------------------------------------------------------
+	// Print node attributes
+	pNode->SetNodeAttributeValue(XML_GDTF_LampLampType,				GdtfConverter::ConvertLampeType(fLampType));
+	pNode->SetNodeAttributeValue(XML_GDTF_LampPowerConsumption,		GdtfConverter::ConvertDouble(fPowerConsuption));
+	pNode->SetNodeAttributeValue(XML_GDTF_LampLuminousFlux,	        GdtfConverter::ConvertDouble(fLuminousIntensity));
+	pNode->SetNodeAttributeValue(XML_GDTF_ColorTemperature,			GdtfConverter::ConvertDouble(fColorTemperature));
+	pNode->SetNodeAttributeValue(XML_GDTF_BeamAngle,				GdtfConverter::ConvertDouble(fBeamAngle));
+	pNode->SetNodeAttributeValue(XML_GDTF_BeamRadius,				GdtfConverter::ConvertDouble(fBeamRadius));
+	pNode->SetNodeAttributeValue(XML_GDTF_FieldAngle,				GdtfConverter::ConvertDouble(fFieldAngle));
+	pNode->SetNodeAttributeValue(XML_GDTF_ThrowRatio,				GdtfConverter::ConvertDouble(fThrowRatio));
+	pNode->SetNodeAttributeValue(XML_GDTF_RectangleRatio,			GdtfConverter::ConvertDouble(fRectangleRatio));
+	pNode->SetNodeAttributeValue(XML_GDTF_BeamType,					GdtfConverter::ConvertBeamType(fBeamType));
+	pNode->SetNodeAttributeValue(XML_GDTF_BeamColorRenderingIndex,	GdtfConverter::ConvertInteger(fColorIndex));
+
+	if (fEmitterSpectrum) {pNode->SetNodeAttributeValue(XML_GDTF_BeamEmitterSpectrum, fEmitterSpectrum->GetNodeReference()); };
+	
+}
+
+void GdtfGeometryLamp::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfGeometry::OnReadFromNode(pNode);
+	
+	
+	// ------------------------------------------------------------------------------------
+	// Print node attributes
+	TXString lampType;		pNode->GetNodeAttributeValue(XML_GDTF_LampLampType,				lampType);		GdtfConverter::ConvertLampeType(lampType, 	pNode,	fLampType);
+	TXString power;			pNode->GetNodeAttributeValue(XML_GDTF_LampPowerConsumption,		power);			GdtfConverter::ConvertDouble(power, 		pNode,	fPowerConsuption);
+	TXString lum;			pNode->GetNodeAttributeValue(XML_GDTF_LampLuminousFlux,			lum);			GdtfConverter::ConvertDouble(lum, 			pNode,	fLuminousIntensity);
+	TXString colorTemp;		pNode->GetNodeAttributeValue(XML_GDTF_ColorTemperature,			colorTemp);		GdtfConverter::ConvertDouble(colorTemp, 	pNode,	fColorTemperature);
+	TXString angle;			pNode->GetNodeAttributeValue(XML_GDTF_BeamAngle,				angle);			GdtfConverter::ConvertDouble(angle, 		pNode,	fBeamAngle);
+	TXString radius;		pNode->GetNodeAttributeValue(XML_GDTF_BeamRadius,				radius);		GdtfConverter::ConvertDouble(radius, 		pNode,	fBeamRadius);
+	TXString fieldAngle;	pNode->GetNodeAttributeValue(XML_GDTF_FieldAngle,				fieldAngle);	GdtfConverter::ConvertDouble(fieldAngle, 	pNode,	fFieldAngle);
+	TXString throwRatio;	pNode->GetNodeAttributeValue(XML_GDTF_ThrowRatio,				throwRatio);	GdtfConverter::ConvertDouble(throwRatio, 	pNode,	fThrowRatio);
+	TXString rectangleRatio;pNode->GetNodeAttributeValue(XML_GDTF_RectangleRatio,			rectangleRatio);GdtfConverter::ConvertDouble(rectangleRatio,pNode,	fRectangleRatio);
+	TXString type;			pNode->GetNodeAttributeValue(XML_GDTF_BeamType,					type);			GdtfConverter::ConvertBeamType(type, 		pNode,	fBeamType);
+	TXString colorIndex;	pNode->GetNodeAttributeValue(XML_GDTF_BeamColorRenderingIndex,	colorIndex);	GdtfConverter::ConvertInteger(colorIndex, 	pNode,	fColorIndex);
+
+	pNode->GetNodeAttributeValue(XML_GDTF_BeamEmitterSpectrum, fUnresolvedEmitterRef);
+}
+
+void GdtfGeometryLamp::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_GeometryName);
+	needed.push_back(XML_GDTF_GeometryMatrix);
+	optional.push_back(XML_GDTF_LampLampType);
+	optional.push_back(XML_GDTF_LampPowerConsumption);
+	optional.push_back(XML_GDTF_LampLuminousFlux);
+	optional.push_back(XML_GDTF_ColorTemperature);
+	optional.push_back(XML_GDTF_BeamAngle);
+	optional.push_back(XML_GDTF_FieldAngle);
+	optional.push_back(XML_GDTF_BeamRadius);
+	optional.push_back(XML_GDTF_ThrowRatio);
+	optional.push_back(XML_GDTF_RectangleRatio);
+	optional.push_back(XML_GDTF_BeamType);
+	optional.push_back(XML_GDTF_BeamColorRenderingIndex);
+	optional.push_back(XML_GDTF_GeometryModelRef);
+	optional.push_back(XML_GDTF_BeamEmitterSpectrum);
+
+	
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfGeometryLamp::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfGeometryLamp;
+}
+
+TXString GdtfGeometryLamp::GetNodeName()
+{
+	return XML_GDTF_LampNodeName;
+}
+
+EGdtfLampType GdtfGeometryLamp::GetLampType()
+{
+	return fLampType;
+}
+
+double GdtfGeometryLamp::GetPowerConsumption()
+{
+	return fPowerConsuption;
+}
+
+double GdtfGeometryLamp::GetLuminousIntensity()
+{
+	return fLuminousIntensity;
+}
+
+double GdtfGeometryLamp::GetColorTemperature()
+{
+	return fColorTemperature;
+}
+
+double GdtfGeometryLamp::GetBeamAngle()
+{
+	return fBeamAngle;
+}
+
+double GdtfGeometryLamp::GetFieldAngle()
+{
+    return fFieldAngle;
+}
+
+double GdtfGeometryLamp::GetBeamRadius()
+{
+    return fBeamRadius;
+}
+
+double GdtfGeometryLamp::GetThrowRatio()
+{
+	return fThrowRatio;
+}
+
+double GdtfGeometryLamp::GetRectangleRatio()
+{
+	return fRectangleRatio;
+}
+
+EGdtfBeamType GdtfGeometryLamp::GetBeamType()
+{
+    return fBeamType;
+}
+
+Sint32 GdtfGeometryLamp::GetColorIndex()
+{
+    return fColorIndex;
+}
+
+GdtfPhysicalEmitter* GdtfGeometryLamp::GetEmitterSpectrum()
+{
+    return fEmitterSpectrum;
+}
+
+const TXString& GdtfGeometryLamp::GetUnresolvedEmitterRef() const
+{
+	return fUnresolvedEmitterRef;
+}
+
+//------------------------------------------------------------------------------------
+// GdtfGeometryReference
+GdtfBreak::GdtfBreak() : GdtfObject()
+{
+	fDmxBreak	= 1;
+	fDmxAdress	= 1;
+}
+
+
+GdtfBreak::~GdtfBreak()
+{
+}
+
+void GdtfBreak::SetDmxBreak(Sint32 dmxBreak)
+{
+	fDmxBreak = dmxBreak;
+}
+
+void GdtfBreak::SetDmxAddress(DMXAddress dmxAddress)
+{
+	fDmxAdress = dmxAddress;
+}
+
+void GdtfBreak::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnPrintToFile(pNode);
+	
+	
+	// ------------------------------------------------------------------------------------
+	// Print node attributes
+	pNode->SetNodeAttributeValue(XML_GDTF_BreakDMXBreak,	GdtfConverter::ConvertInteger(fDmxBreak));
+	pNode->SetNodeAttributeValue(XML_GDTF_BreakOffset,		GdtfConverter::ConvertDMXAdress(fDmxAdress));
+	
+}
+
+void GdtfBreak::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnReadFromNode(pNode);
+	
+	
+	// ------------------------------------------------------------------------------------
+	// Print node attributes
+	TXString dmxbreak;	pNode->GetNodeAttributeValue(XML_GDTF_BreakDMXBreak,dmxbreak	); GdtfConverter::ConvertInteger(dmxbreak, pNode, fDmxBreak);
+	TXString dmxAdress;	pNode->GetNodeAttributeValue(XML_GDTF_BreakOffset,	dmxAdress	); GdtfConverter::ConvertDMXAdress(dmxAdress, pNode, fDmxAdress);
+}
+
+void GdtfBreak::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	optional.push_back(XML_GDTF_BreakOffset);
+	optional.push_back(XML_GDTF_BreakDMXBreak);
+	
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfBreak::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfBreak;
+}
+
+TXString GdtfBreak::GetNodeName()
+{
+	return XML_GDTF_BreakNodeName;
+}
+
+Sint32 GdtfBreak::GetDmxBreak()
+{
+	return fDmxBreak;
+}
+
+DMXAddress GdtfBreak::GetDmxAddress()
+{
+	return fDmxAdress;
+}
+
+
+
+//------------------------------------------------------------------------------------
+// GdtfGeometryReference
+GdtfGeometryReference::GdtfGeometryReference(GdtfGeometry* parent) 
+					 : GdtfGeometry(parent)
+{
+	fLinkedGeometry = nullptr;
+}
+
+GdtfGeometryReference::GdtfGeometryReference(const TXString& name, GdtfModelPtr refToModel,const VWTransformMatrix& ma, GdtfGeometry* parent) 
+					 : GdtfGeometry(name,refToModel,ma, parent)
+{
+	fLinkedGeometry = nullptr;
+}
+
+GdtfGeometryReference::~GdtfGeometryReference()
+{
+	for (GdtfBreakPtr ptr : fBreaks) { delete ptr; }
+}
+
+GdtfBreak* GdtfGeometryReference::AddBreak()
+{
+	GdtfBreak* gdtfBreak = new GdtfBreak();
+	fBreaks.push_back(gdtfBreak);
+	return gdtfBreak;
+}
+
+GdtfGeometry* GdtfGeometryReference::GetLinkedGeometry()
+{
+	return fLinkedGeometry;
+}
+
+const TXString& GdtfGeometryReference::GetUnresolvedLinkedGeometry()
+{
+	return fUnresolvedGeoRef;
+}
+
+void GdtfGeometryReference::SetLinkedGeometry(GdtfGeometry* ptr)
+{
+	fLinkedGeometry = ptr;
+}
+
+void GdtfGeometryReference::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfGeometry::OnPrintToFile(pNode);
+	
+	
+	//------------------------------------------------------------------------------------
+	// Print the content
+	for (GdtfBreak* breakObj : fBreaks)
+	{
+		breakObj->WriteToNode(pNode);
+	}
+
+	if(fLinkedGeometry) { pNode->SetNodeAttributeValue(XML_GDTF_GeometryReferenceLinkedGeo, fLinkedGeometry->GetNodeReference()); }
+
+	
+}
+
+void GdtfGeometryReference::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfGeometry::OnReadFromNode(pNode);
+	
+	// The breaks are read in the parent OnReadFromNode
+
+	pNode->GetNodeAttributeValue(XML_GDTF_GeometryReferenceLinkedGeo, fUnresolvedGeoRef); 
+
+	
+}
+
+void GdtfGeometryReference::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_GeometryName);
+	optional.push_back(XML_GDTF_GeometryModelRef);
+	needed.push_back(XML_GDTF_GeometryReferenceLinkedGeo);
+	needed.push_back(XML_GDTF_GeometryMatrix);
+
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfGeometryReference::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfGeometryReference;
+}
+
+TXString GdtfGeometryReference::GetNodeName()
+{
+	return XML_GDTF_GeometryReferenceNodeName;
+}
+
+TGdtfBreakArray GdtfGeometryReference::GetBreakArray()
+{
+	return fBreaks;
+}
+
+//------------------------------------------------------------------------------------
+// GdtfDmxMode
+
+GdtfDmxMode::GdtfDmxMode(GdtfFixture* fixture, const TXString& name)
+{
+	fName		= name;
+	fGeomRef    = nullptr;
+	fFixture    = fixture;
+}
+
+GdtfDmxMode::~GdtfDmxMode()
+{
+    // Housekeeping
+    for (GdtfDmxChannelPtr	ptr : fChannels)	{ delete ptr; }
+	for (GdtfDmxRelationPtr	ptr : fRelations)	{ delete ptr; }
+	for (GdtfMacroPtr		ptr : fMacros)		{ delete ptr; }
+    
+}
+
+void GdtfDmxMode::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnPrintToFile(pNode);
+	
+	
+	// ------------------------------------------------------------------------------------
+	// Print node attributes
+	pNode->SetNodeAttributeValue(XML_GDTF_DMXModeName, 			fName);
+	pNode->SetNodeAttributeValue(XML_GDTF_DMXModeDescription, 	fDescription);
+	if (fGeomRef) { pNode->SetNodeAttributeValue(XML_GDTF_DMXModeGeometryRef,		fGeomRef->GetNodeReference()); } ;
+	
+	// ------------------------------------------------------------------------------------
+	// Print Channels
+	IXMLFileNodePtr wheels;
+	if (VCOM_SUCCEEDED(pNode->CreateChildNode(XML_GDTF_DMXModeDMXChannels, & wheels)))
+	{
+		for (GdtfDmxChannel* channdelObj : fChannels)
+		{
+			channdelObj->WriteToNode(wheels);
+		}
+	}
+	
+	// ------------------------------------------------------------------------------------
+	// Print Relations
+	IXMLFileNodePtr models;
+	if (VCOM_SUCCEEDED(pNode->CreateChildNode(XML_GDTF_DMXModeRelations, & models)))
+	{
+		for (GdtfDmxRelation* relObj : fRelations)
+		{
+			relObj->WriteToNode(models);
+		}
+	}
+	
+	// ------------------------------------------------------------------------------------
+	// Print Macros
+	IXMLFileNodePtr macros;
+	if (VCOM_SUCCEEDED(pNode->CreateChildNode(XML_GDTF_DMXModeMacros, &macros)))
+	{
+		for (GdtfMacro* macrosObj : fMacros)
+		{
+			macrosObj->WriteToNode(macros);
+		}
+	}
+
+}
+
+void GdtfDmxMode::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnReadFromNode(pNode);
+	
+	
+	// ------------------------------------------------------------------------------------
+	// Print node attributes
+	pNode->GetNodeAttributeValue(XML_GDTF_DMXModeName,		  	fName);
+	pNode->GetNodeAttributeValue(XML_GDTF_DMXModeDescription,	fDescription);
+	pNode->GetNodeAttributeValue(XML_GDTF_DMXModeGeometryRef, 	fUnresolvedGeomRef);
+	// ------------------------------------------------------------------------------------
+	// Print Channels
+	
+	GdtfConverter::TraverseNodes(pNode, XML_GDTF_DMXModeDMXChannels, XML_GDTF_DMXChannelNodeName, [this] (IXMLFileNodePtr pNode) -> void
+								 {	
+									 if ( CheckAbort() ) return;
+									 GdtfDmxChannelPtr channel = new GdtfDmxChannel(this);
+									 channel->ReadFromNode(pNode);
+									 fChannels.push_back(channel);
+								 }
+								 );
+
+	
+	// ------------------------------------------------------------------------------------
+	// Print Relations
+	GdtfConverter::TraverseNodes(pNode, XML_GDTF_DMXModeRelations, XML_GDTF_DMXRelationNodeName, [this] (IXMLFileNodePtr pNode) -> void
+								 {
+									 if ( CheckAbort() ) return;
+									 GdtfDmxRelationPtr relation = new GdtfDmxRelation();
+									 relation->ReadFromNode(pNode);
+									 fRelations.push_back(relation);
+								 }
+								 );
+	
+
+	// ------------------------------------------------------------------------------------
+	// Print Macros
+	GdtfConverter::TraverseNodes(pNode, XML_GDTF_DMXModeMacros, XML_GDTF_MacroNodeName, [this](IXMLFileNodePtr pNode) -> void
+								{
+									if ( CheckAbort() ) return;
+									GdtfMacroPtr macro = new GdtfMacro();
+									macro->ReadFromNode(pNode);
+									fMacros.push_back(macro);
+								}
+								);
+
+}
+
+void GdtfDmxMode::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_DMXModeName);
+	needed.push_back(XML_GDTF_DMXModeGeometryRef);
+	optional.push_back(XML_GDTF_DMXModeDescription);
+	
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfDmxMode::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfDmxMode;
+}
+
+TXString GdtfDmxMode::GetNodeName()
+{
+	return XML_GDTF_DMXModeNodeName;
+}
+
+GdtfDmxChannel* GdtfDmxMode::AddChannel()
+{
+	GdtfDmxChannel* channel = new GdtfDmxChannel(this);
+	fChannels.push_back(channel);
+	
+	return channel;
+}
+
+const TGdtfDmxChannelArray& GdtfDmxMode::GetChannelArray() const
+{
+	return fChannels;
+}
+
+GdtfDmxChannelPtr GdtfDmxMode::GetMasterByRef(const TXString& ref) const
+{
+	if (!fChannelIndex.empty())
+	{
+		auto it = fChannelIndex.find(ref);
+		if (it != fChannelIndex.end()) { return it->second; }
+	}
+	else
+	{
+		for (GdtfDmxChannelPtr chnl : fChannels)
+		{
+			if (chnl->GetNodeReference() == ref) { return chnl; }
+		}
+	}
+
+	// When this line is reached nothing was found.
+	DSTOP ((kEveryone, "Failed to resolve GdtfDmxChannelPtr."));
+	return nullptr;
+}
+
+GdtfDmxChannelFunctionPtr GdtfDmxMode::GetSlaveByRef(const TXString& ref) const
+{
+	if (!fFunctionIndex.empty())
+	{
+		auto it = fFunctionIndex.find(ref);
+		if (it != fFunctionIndex.end()) { return it->second; }
+	}
+	else
+	{
+		for (GdtfDmxChannelPtr dmxChannel : fChannels)
+		{
+			for(GdtfDmxLogicalChannelPtr logicalChannel : dmxChannel->GetLogicalChannelArray())
+			{
+				for (GdtfDmxChannelFunctionPtr function : logicalChannel->GetDmxChannelFunctions())
+				{
+					TXString nodeRef = function->GetNodeReference();
+					if (nodeRef == ref) { return function; }
+				}
+			}
+		}
+	}
+	
+	// When this line is reached nothing was found.
+	DSTOP ((kEveryone, "Failed to resolve GdtfDmxChannelFuntionPtr."));
+	return nullptr;
+}
+
+void GdtfDmxMode::BuildModeIndexes()
+{
+	static constexpr size_t kModeIndexThreshold = 64;
+	if (fChannels.size() < kModeIndexThreshold)
+	{
+		return;  // Maps stay empty; accessors use linear fallback
+	}
+
+	fChannelIndex.clear();
+	fFunctionIndex.clear();
+	for (GdtfDmxChannelPtr ch : fChannels)
+	{
+		fChannelIndex.emplace(ch->GetNodeReference(), ch);
+		for (GdtfDmxLogicalChannelPtr lc : ch->GetLogicalChannelArray())
+		{
+			for (GdtfDmxChannelFunctionPtr fn : lc->GetDmxChannelFunctions())
+			{
+				fFunctionIndex.emplace(fn->GetNodeReference(), fn);
+			}
+		}
+	}
+}
+
+GdtfDmxChannelPtr GdtfDmxMode::GetChannelByIndex(const TXString& ref) const
+{
+	if (!fChannelIndex.empty())
+	{
+		auto it = fChannelIndex.find(ref);
+		if (it != fChannelIndex.end()) { return it->second; }
+		return nullptr;
+	}
+	for (GdtfDmxChannelPtr ch : fChannels)
+	{
+		if (ch->GetNodeReference() == ref) { return ch; }
+	}
+	return nullptr;
+}
+
+GdtfDmxChannelFunctionPtr GdtfDmxMode::GetFunctionByIndex(const TXString& ref) const
+{
+	if (!fFunctionIndex.empty())
+	{
+		auto it = fFunctionIndex.find(ref);
+		if (it != fFunctionIndex.end()) { return it->second; }
+		return nullptr;
+	}
+	for (GdtfDmxChannelPtr ch : fChannels)
+	{
+		for (GdtfDmxLogicalChannelPtr lc : ch->GetLogicalChannelArray())
+		{
+			for (GdtfDmxChannelFunctionPtr fn : lc->GetDmxChannelFunctions())
+			{
+				if (fn->GetNodeReference() == ref) { return fn; }
+			}
+		}
+	}
+	return nullptr;
+}
+
+
+const TXString& GdtfDmxMode::GetModeName() const
+{
+	return fName;
+}
+
+void GdtfDmxMode::SetName(const TXString &name)
+{
+	fName = name;
+}
+
+const TXString& GdtfDmxMode::GetDescription() const
+{
+	return fDescription;
+}
+
+void GdtfDmxMode::SetDescription(const TXString &description)
+{
+	fDescription = description;
+}
+
+void GdtfDmxMode::SetGeomRef(GdtfGeometryPtr ptr)
+{
+	fGeomRef = ptr;
+}
+
+GdtfDmxRelation* GdtfDmxMode::AddDmxRelation(GdtfDmxChannel* master, GdtfDmxChannelFunctionPtr slave, const TXString &name)
+{
+	GdtfDmxRelation* relation = new GdtfDmxRelation(master, slave, name);
+	fRelations.push_back(relation);
+	return relation;
+}
+
+GdtfMacro* GdtfDmxMode::AddMacro(const TXString &name)
+{
+	GdtfMacro* macro = new GdtfMacro(name);
+	fMacros.push_back(macro);
+	return macro;
+}
+
+GdtfGeometryPtr	GdtfDmxMode::GetGeomRef()
+{
+	return fGeomRef;
+}
+
+TGdtfDmxChannelArray GdtfDmxMode::GetChannelsForGeometry(GdtfGeometryPtr geometry)
+{
+	TGdtfDmxChannelArray array;
+	for (GdtfDmxChannelPtr channel : GetChannelArray())
+	{
+		if(channel->GetGeomRef() == geometry)
+		{
+			array.push_back(channel);
+		}
+	}
+	
+	return array;
+}
+
+const TXString& GdtfDmxMode::GetUnresolvedGeomRef()
+{
+	return fUnresolvedGeomRef;
+}
+
+const TGdtfDmxRelationArray& GdtfDmxMode::GetDmxRelations()
+{
+	return fRelations;
+}
+
+TSint32Array GdtfDmxMode::GetBreakArray() const
+{
+	//------------------------------------------------------------------------------------------------------------
+	// Prepare Arrays
+	TSint32Array 							breaks;
+	std::vector<GdtfGeometryReferencePtr>  	geometryRefs;
+	TGdtfGeometryArray  					geometrysToCheck;
+
+	if(fGeomRef)
+	{
+		geometrysToCheck.push_back(fGeomRef);
+	}
+    
+	//------------------------------------------------------------------------------------------------------------
+	// Get All Geometry References
+	while(geometrysToCheck.size() > 0)
+	{
+		// Get First Entry and delete it then
+		GdtfGeometryPtr geometry = geometrysToCheck.back();
+		geometrysToCheck.pop_back();
+
+		// Get all the internal geometries and prepare to check them
+
+		if ( geometry != nullptr )
+		{
+			for ( GdtfGeometryPtr child : geometry->GetInternalGeometries() )
+			{
+				geometrysToCheck.push_back( child );
+			}
+
+
+			// Handle Geo Refs
+			if ( geometry->GetObjectType() == eGdtfGeometryReference )
+			{
+				GdtfGeometryReferencePtr geoRef = static_cast<GdtfGeometryReferencePtr>( geometry );
+				ASSERTN( kEveryone, geoRef != nullptr );
+				if ( geoRef )
+				{
+					geometrysToCheck.push_back( geoRef->GetLinkedGeometry() );
+					geometryRefs.push_back( geoRef );
+				}
+			}
+		}
+	}
+
+	//------------------------------------------------------------------------------------------------------------
+	// Check all the channels
+	for (GdtfDmxChannelPtr channel : fChannels)
+	{
+		Sint32 breakId = channel->GetDmxBreak();
+		
+		// Check if Override
+		if(breakId == kDmxBreakOverwriteValue)
+		{
+			for(GdtfGeometryReferencePtr geoRef : geometryRefs)
+			{
+				if(geoRef->GetLinkedGeometry() == channel->GetGeomRef())
+				{
+					TGdtfBreakArray refBreaks = geoRef->GetBreakArray();
+					if(std::find(breaks.begin(), breaks.end(), refBreaks.back()->GetDmxBreak()) == breaks.end())
+					{
+						breaks.push_back(refBreaks.back()->GetDmxBreak());
+					}
+				}
+			}
+		}
+		else
+		{
+			if(std::find(breaks.begin(), breaks.end(), breakId) == breaks.end())
+			{
+				breaks.push_back(breakId);
+			}
+		}
+	}
+
+	//------------------------------------------------------------------------------------------------------------
+	// Sort the found break
+	std::sort(breaks.begin(), breaks.end());
+
+	return breaks;
+}
+
+size_t GdtfDmxMode::GetFootPrintForBreak(size_t breakId)
+{
+	//------------------------------------------------------------------------------------------------------------
+	// check if break exists
+	TSint32Array breaks = this->GetBreakArray();
+	if(std::find(breaks.begin(), breaks.end(), breakId) == breaks.end()) 
+	{ 
+		return 0; 
+	}
+
+	//------------------------------------------------------------------------------------------------------------
+	// Prepare arrays
+	TDMXAddressArray 	addresses;
+    TGdtfGeometryArray  geometriesInGeoTree;
+    
+    if(fGeomRef)
+    {
+        geometriesInGeoTree.push_back(fGeomRef);
+    }
+
+	// iterate through every geometry in the geometry tree of the mode 
+	while(geometriesInGeoTree.size() > 0)
+	{
+		TDMXAddressArray addressesOfGeo;
+		GdtfGeometryPtr  geoToCheck = geometriesInGeoTree.back();
+		geometriesInGeoTree.pop_back();
+
+		for (GdtfGeometryPtr child : geoToCheck->GetInternalGeometries()) { geometriesInGeoTree.push_back(child); }
+
+		// if channel is linked to the current geometry and the breaks match add the dmx addresses to the footprint 
+		for (GdtfDmxChannelPtr channel : fChannels)
+		{
+			if(CheckAbort()) { return 0; }
+			if(channel->GetGeomRef() == geoToCheck && channel->GetDmxBreak() == (Sint32)breakId && ! channel->IsVirtual()) 
+			{
+				GetAddressesFromChannel(addressesOfGeo, channel, 0);
+			}
+		}
+
+		// if the current geometry is a geometry reference do stuff
+		if(geoToCheck->GetObjectType() == eGdtfGeometryReference)
+		{
+			GdtfGeometryReferencePtr geoRef 	= static_cast<GdtfGeometryReferencePtr>(geoToCheck); ASSERTN(kEveryone, geoRef);
+			GdtfGeometryPtr 		 refedGeo   = geoRef->GetLinkedGeometry();
+			TSint32Array 			 breakIdsOfReference;
+			TGdtfGeometryArray 		 geometriesInReferencedTree = {refedGeo};
+			bool 				     overwrite = false;
+			
+			// go through every child of the referenced geometry and get every used break id
+			while (geometriesInReferencedTree.size() > 0)
+			{
+				GdtfGeometryPtr geometryInRefToCheck = geometriesInReferencedTree.back();
+				geometriesInReferencedTree.pop_back();
+
+				if ( geometryInRefToCheck != nullptr )
+				{
+					for (GdtfGeometryPtr childOfRef : geometryInRefToCheck->GetInternalGeometries()){ geometriesInReferencedTree.push_back(childOfRef); }
+
+					for (GdtfDmxChannelPtr channel : fChannels)
+					{
+						if(CheckAbort()) { return 0; }
+						if(channel->GetGeomRef() == geometryInRefToCheck)
+						{
+							if(channel->GetDmxBreak() != kDmxBreakOverwriteValue)
+							{
+								if(std::find(breakIdsOfReference.begin(), breakIdsOfReference.end(), channel->GetDmxBreak()) == breakIdsOfReference.end())
+								{
+									breakIdsOfReference.push_back(channel->GetDmxBreak());
+								}
+							}
+							else 
+							{
+								overwrite = true;
+							}
+						}
+					}
+				}
+			}
+
+			std::sort(breakIdsOfReference.begin(), breakIdsOfReference.end());
+
+			TSint32Array::iterator foundIndex = std::find(breakIdsOfReference.begin(), breakIdsOfReference.end(), breakId);
+			// if the reference contains geometries that are linked to a dmx channel that has a matching break, then add the address + offset to the footprint
+			if(foundIndex != breakIdsOfReference.end())
+			{
+				size_t 				indexOfBreak 				= std::distance(breakIdsOfReference.begin(),foundIndex);
+				size_t 				offset 						= geoRef->GetBreakArray()[indexOfBreak]->GetDmxAddress()-1;
+				TGdtfGeometryArray  geometriesInReferencedTree 	= {refedGeo};
+
+				while (geometriesInReferencedTree.size() > 0)
+				{
+					GdtfGeometryPtr geometryInRefToCheck = geometriesInReferencedTree.back();
+					geometriesInReferencedTree.pop_back();
+
+					for (GdtfGeometryPtr childOfRef : geometryInRefToCheck->GetInternalGeometries()) { geometriesInReferencedTree.push_back(childOfRef); }
+
+					for(GdtfDmxChannelPtr channel : fChannels)
+					{
+						if(CheckAbort()) { return 0; }
+						if(channel->GetGeomRef() == geometryInRefToCheck 
+							&& channel->GetDmxBreak() == (Sint32)breakId &&
+							! channel->IsVirtual())  
+						{
+							GetAddressesFromChannel(addressesOfGeo, channel, offset);
+						}
+					}
+				}
+			}
+
+			// if the channel of a child geometry has the break value overwrite and the last break of the ref has a matching break Id, then add addresses + offset 
+			if(overwrite)
+			{
+				GdtfBreakPtr overwriteBreak = geoRef->GetBreakArray().back();
+				if(overwriteBreak->GetDmxBreak() == (Sint32)breakId)
+				{
+					TGdtfGeometryArray geometriesInReferencedTree = {refedGeo};
+					while (geometriesInReferencedTree.size() > 0)
+					{
+						GdtfGeometryPtr geometryInRefToCheck = geometriesInReferencedTree.back();
+						geometriesInReferencedTree.pop_back();
+
+						for (GdtfGeometryPtr childOfRef : geometryInRefToCheck->GetInternalGeometries()) { geometriesInReferencedTree.push_back(childOfRef); }
+
+						for(GdtfDmxChannelPtr channel : fChannels)
+						{
+							if(CheckAbort()) { return 0; }
+							if(channel->GetGeomRef() == geometryInRefToCheck && channel->GetDmxBreak() == kDmxBreakOverwriteValue  && ! channel->IsVirtual()) 
+							{
+								GetAddressesFromChannel(addressesOfGeo, channel, overwriteBreak->GetDmxAddress()-1);
+							}
+						}
+					}
+				}
+			}
+		}
+
+		// make addresses unique
+		for(DMXAddress address : addressesOfGeo)
+		{
+			if(std::find(addresses.begin(), addresses.end(), address) == addresses.end())
+			{
+				addresses.push_back(address);
+			}
+		}
+	}
+
+	DMXAddress max = 0, min = 512;
+	for (DMXAddress adr : addresses)
+	{
+		if(adr > max) max = adr;
+		if(adr < min) min = adr;
+	}
+
+	DMXAddress footprint = max - min + 1;
+
+	return footprint;
+}
+void GdtfDmxMode::GetAddressesFromChannel(TDMXAddressArray& addresses, GdtfDmxChannel* channel, DMXAddress offset) const
+{
+	EGdtfChannelBitResolution resolution = channel->GetChannelBitResolution();
+	if(resolution >= eGdtfChannelBitResolution_8) 	{ addresses.push_back(channel->GetCoarse()  + offset);}
+	if(resolution >= eGdtfChannelBitResolution_16) 	{ addresses.push_back(channel->GetFine()	+ offset);}
+	if(resolution >= eGdtfChannelBitResolution_24) 	{ addresses.push_back(channel->GetUltra()   + offset);}
+	if(resolution >= eGdtfChannelBitResolution_32) 	{ addresses.push_back(channel->GetUber()	+ offset);}
+
+}
+
+const TGdtfMacroArray& GdtfDmxMode::GetDmxMacrosArray()
+{
+	return fMacros;
+}
+
+//------------------------------------------------------------------------------------
+// GdtfDmxChannel
+GdtfDmxChannel::GdtfDmxChannel(GdtfDmxMode* parent)
+{
+	fName_AutoGenerated					= "";
+	fDmxBreak				= 1;
+	fCoarse					= 0;
+	fFine					= 0;
+	fUltra					= 0;
+	fUber					= 0;
+	fHeighlight				= 0;	fHeighlightNone = true;
+	fDefaultValue_old		= 0;
+	fGeomRef				= nullptr;
+	fInitialFunction		= nullptr;
+
+	ASSERTN(kEveryone, parent != nullptr);
+	fParent = parent;
+}
+
+GdtfDmxChannel::~GdtfDmxChannel()
+{
+	for (GdtfDmxLogicalChannelPtr ptr :fLogicalChannels) { delete ptr; }
+}
+
+void GdtfDmxChannel::SetName(const TXString& name)
+{
+	fName_AutoGenerated = name;
+}
+
+void GdtfDmxChannel::SetDmxBreak(Sint32 dmxBreak)
+{
+	fDmxBreak = dmxBreak;
+}
+
+void GdtfDmxChannel::SetDmxCoarse(Sint32 coarse)
+{
+	fCoarse = coarse;
+	
+}
+
+void GdtfDmxChannel::SetDmxFine(Sint32 fine)
+{
+	ASSERTN(kEveryone, fCoarse > 0);
+	fFine = fine;
+}
+
+void GdtfDmxChannel::SetDmxUltra(Sint32 ultra)
+{
+	ASSERTN(kEveryone, fCoarse > 0);
+	ASSERTN(kEveryone, fFine > 0);
+	fUltra = ultra;
+}
+
+void SceneData::GdtfDmxChannel::SetDmxUber(Sint32 uber)
+{
+	ASSERTN(kEveryone, fCoarse > 0);
+	ASSERTN(kEveryone, fFine > 0);
+	ASSERTN(kEveryone, fUltra > 0);
+	fUber = uber;
+}
+
+void GdtfDmxChannel::SetHighlight(DmxValue highlight)
+{
+	fHeighlight = highlight;
+	fHeighlightNone = false;
+}
+
+GdtfDmxLogicalChannel* GdtfDmxChannel::AddLogicalChannel()
+{
+	GdtfDmxLogicalChannel* channel = new GdtfDmxLogicalChannel(this);
+	if( ! fLogicalChannels.empty()) { fLogicalChannels.back()->SetNextLogicalChannel(channel); }
+
+	fLogicalChannels.push_back(channel);
+	return channel;
+}
+
+void GdtfDmxChannel::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnPrintToFile(pNode);
+	
+	EGdtfChannelBitResolution chanelReso = GetChannelBitResolution();
+	// ------------------------------------------------------------------------------------
+	// Print node attributes
+	pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelDMXBreak,			GdtfConverter::ConvertDmxBreak(fDmxBreak));
+	pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelOffset,				GdtfConverter::ConvertDmxOffset(fCoarse, fFine, fUltra, fUber));
+	pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelHighlight,			GdtfConverter::ConvertDMXValue(fHeighlight,	chanelReso, fHeighlightNone));
+	if (fGeomRef) 			{ pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelGeometry,			fGeomRef->GetNodeReference()); }
+	if (fInitialFunction) 	{ pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelInitialFunction,	fInitialFunction->GetNodeReference()); }
+	
+	// ------------------------------------------------------------------------------------
+	// LogicalChannels
+	for (GdtfDmxLogicalChannel* channelObj : fLogicalChannels)
+	{
+		channelObj->WriteToNode(pNode);
+	}
+}
+
+void GdtfDmxChannel::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnReadFromNode(pNode);
+		
+	// ------------------------------------------------------------------------------------
+	// Print node attributes
+	TXString dmxBreak;	pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelDMXBreak,			dmxBreak);	GdtfConverter::ConvertDmxBreak(dmxBreak, pNode,		fDmxBreak);
+	//
+	TXString offset;	
+	if (pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelOffset, offset) == kVCOMError_NoError) 
+	{
+		GdtfConverter::ConvertDmxOffset(offset, pNode, fCoarse, fFine, fUltra, fUber);
+	}	
+
+	// In GDTF 1.0, default value was in the DMX channel, this is for old files :
+	TXString defVal;	
+	if (pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelFuntionDefault, defVal) == kVCOMError_NoError)
+	{
+		GdtfConverter::ConvertDMXValue(defVal, pNode, this->GetChannelBitResolution(), fDefaultValue_old);
+	}
+	// ------------------------------------------------------------------------------------
+
+	//
+	TXString highlight;	
+	if(VCOM_SUCCEEDED(pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelHighlight,			highlight)	))
+	{
+		GdtfConverter::ConvertDMXValue(highlight, pNode, this->GetChannelBitResolution(), fHeighlight, fHeighlightNone);
+	}	
+	
+	pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelGeometry, 			fUnresolvedGeomRef);
+	pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelInitialFunction, 	fUnresolvedInitialFunction);	
+	
+	// ------------------------------------------------------------------------------------
+	// LogicalChannels	
+	GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_DMXLogicalChannelNodeName, [this] (IXMLFileNodePtr objNode) -> void
+								 {
+									 if ( CheckAbort() ) return;
+									 // Create the object
+									 GdtfDmxLogicalChannelPtr logicalChan = new GdtfDmxLogicalChannel(this);
+
+									 // Read from node
+									 logicalChan->ReadFromNode(objNode);
+									
+									// If there is already a logical channel
+									if( ! fLogicalChannels.empty())
+									{
+										// Get the prev array and the new array
+										const TGdtfDmxChannelFuntionArray& prevArr = fLogicalChannels.back()->GetDmxChannelFunctions();
+										const TGdtfDmxChannelFuntionArray& currArr = logicalChan->GetDmxChannelFunctions();
+
+										// If bouth arrays are not empty, link them togheter
+										if( (! prevArr.empty()) && (! currArr.empty()) )
+										{
+											prevArr.back()->SetNextFunction(currArr.front());
+										}
+									}
+								
+									 fLogicalChannels.push_back(logicalChan);
+
+									
+									 return;
+								 });
+}
+
+void GdtfDmxChannel::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_DMXChannelGeometry);
+	optional.push_back(XML_GDTF_DMXChannelInitialFunction);
+	optional.push_back(XML_GDTF_DMXChannelDMXBreak);
+	optional.push_back(XML_GDTF_DMXChannelOffset);
+	optional.push_back(XML_GDTF_DMXChannelHighlight);
+	//Default for GDTF 1.0 files
+	optional.push_back(XML_GDTF_DMXChannelFuntionDefault);
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfDmxChannel::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfDmxChannel;
+}
+
+TXString GdtfDmxChannel::GetNodeReference()
+{
+	return GetName();
+}
+
+GdtfDmxMode* GdtfDmxChannel::GetParentMode()
+{
+	return fParent;
+}
+
+TXString GdtfDmxChannel::GetNodeName()
+{
+	return XML_GDTF_DMXChannelNodeName;
+}
+
+const TXString& GdtfDmxChannel::GetName()
+{
+	// The name follows from the geometry and the first attribute, so it changes when they do
+	TXString dmxChannelName;
+	if(fGeomRef) { dmxChannelName += fGeomRef->GetName(); }
+	dmxChannelName += "_";
+	if(fLogicalChannels.size() > 0 && fLogicalChannels[0]->GetAttribute()) { dmxChannelName += fLogicalChannels[0]->GetAttribute()->GetName(); }
+
+	if( ! fName_AutoGenerated.Equal(dmxChannelName)) { this->SetName(dmxChannelName); }
+
+	return fName_AutoGenerated;
+}
+
+Sint32 GdtfDmxChannel::GetDmxBreak() const
+{
+	return fDmxBreak;
+}
+
+Sint32 GdtfDmxChannel::GetCoarse() const
+{
+	return fCoarse;
+}
+
+Sint32 GdtfDmxChannel::GetFine() const
+{
+	return fFine;
+}
+
+Sint32 GdtfDmxChannel::GetUltra() const
+{
+	return fUltra;
+}
+
+Sint32 GdtfDmxChannel::GetUber() const
+{
+	return fUber;
+}
+
+DmxValue GdtfDmxChannel::GetHighlight() const
+{
+	return fHeighlight;
+}
+
+bool GdtfDmxChannel::HasHighlight() const
+{
+	return !fHeighlightNone;
+}
+
+DmxValue GdtfDmxChannel::GetOldDefaultValue() const
+{
+	return fDefaultValue_old;
+}
+
+void GdtfDmxChannel::SetGeomRef(GdtfGeometryPtr newGeom)
+{
+	fGeomRef = newGeom;
+}
+
+GdtfGeometryPtr GdtfDmxChannel::GetGeomRef()
+{
+	return fGeomRef;
+}
+
+const TXString& GdtfDmxChannel::GetUnresolvedGeomRef() const
+{
+	return fUnresolvedGeomRef;
+}
+
+void GdtfDmxChannel::SetInitialFunction(GdtfDmxChannelFunctionPtr initialFunction)
+{
+	fInitialFunction = initialFunction;
+}
+
+GdtfDmxChannelFunctionPtr GdtfDmxChannel::GetInitialFunction()
+{
+	return fInitialFunction;
+}
+
+const TXString& GdtfDmxChannel::GetUnresolvedInitialFunction() const
+{
+	return fUnresolvedInitialFunction;
+}
+
+const TGdtfDmxLogicalChannelArray& GdtfDmxChannel::GetLogicalChannelArray()
+{
+	return fLogicalChannels;
+}
+
+EGdtfChannelBitResolution SceneData::GdtfDmxChannel::GetChannelBitResolution()
+{
+	if		(!fCoarse)	{ return EGdtfChannelBitResolution::eGdtfChannelBitResolution_16; }
+	else if	(!fFine)	{ return EGdtfChannelBitResolution::eGdtfChannelBitResolution_8; }
+	else if (!fUltra)	{ return EGdtfChannelBitResolution::eGdtfChannelBitResolution_16; }
+	else if (!fUber )	{ return EGdtfChannelBitResolution::eGdtfChannelBitResolution_24; }
+
+	return EGdtfChannelBitResolution::eGdtfChannelBitResolution_32;
+}
+
+DmxValue SceneData::GdtfDmxChannel::GetChannelMaxDmx()
+{
+	return GdtfConverter::GetChannelMaxDmx(this->GetChannelBitResolution());
+}
+
+bool SceneData::GdtfDmxChannel::IsVirtual() const
+{
+	if(fCoarse == 0 && fFine == 0 && fUltra == 0 && fUber == 0)	return true;
+	else 														return false;
+}
+
+//------------------------------------------------------------------------------------
+// GdtfDmxChannel
+GdtfDmxLogicalChannel::GdtfDmxLogicalChannel(GdtfDmxChannel* parent)
+{
+	fSnap					= EGdtfDmxSnap::eGdtfDmxMaster_No;
+	fAttribute				= nullptr;
+	fDmxMaster				= eGdtfDmxMaster_None;
+	fParentDmxChannel		= parent;
+	fNextLogicalChannel		= nullptr;
+	fMoveInBlackFrames		= 0;
+	fDmxChangeTimeLimit		= 0;
+}
+
+GdtfDmxLogicalChannel::~GdtfDmxLogicalChannel()
+{
+	for (GdtfDmxChannelFunctionPtr ptr : fFunctions) { delete ptr; }
+}
+
+void GdtfDmxLogicalChannel::SetName(const TXString &name)
+{
+	fName_AutoGenerated = name;
+}
+
+void GdtfDmxLogicalChannel::SetAttribute(GdtfAttributePtr attr)
+{
+	fAttribute = attr;
+}
+
+void GdtfDmxLogicalChannel::SetDmxSnap(EGdtfDmxSnap snap)
+{
+	fSnap = snap;
+}
+
+void GdtfDmxLogicalChannel::SetDmxMaster(EGdtfDmxMaster master)
+{
+	fDmxMaster = master;
+}
+
+void GdtfDmxLogicalChannel::SetNextLogicalChannel(GdtfDmxLogicalChannel* next)
+{
+	ASSERTN(kEveryone, fNextLogicalChannel == nullptr);
+	fNextLogicalChannel = next;
+}
+
+void SceneData::GdtfDmxLogicalChannel::SetMoveInBlackFrames(double moveInBlackFrames)
+{
+    fMoveInBlackFrames = moveInBlackFrames;
+}
+
+void SceneData::GdtfDmxLogicalChannel::SetDmxChangeTimeLimit(double changeLimit)
+{
+    fDmxChangeTimeLimit = changeLimit;
+}
+
+GdtfDmxLogicalChannelPtr GdtfDmxLogicalChannel::GetNextLogicalChannel()
+{
+	return fNextLogicalChannel;
+}
+
+double SceneData::GdtfDmxLogicalChannel::GetMoveInBlackFrames() const
+{
+    return fMoveInBlackFrames;
+}
+
+double SceneData::GdtfDmxLogicalChannel::GetDmxChangeTimeLimit() const
+{
+    return fDmxChangeTimeLimit;
+}
+
+GdtfDmxChannelFunctionPtr GdtfDmxLogicalChannel::AddDmxChannelFunction(const TXString &name)
+{
+	GdtfDmxChannelFunctionPtr function = new GdtfDmxChannelFunction(name, this);
+
+	// Also set next function here
+	if(fFunctions.size() > 0)	{ fFunctions.back()->SetNextFunction(function); }
+
+	fFunctions.push_back(function);
+
+	return function;
+}
+
+void GdtfDmxLogicalChannel::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnPrintToFile(pNode);
+	
+	
+	// ------------------------------------------------------------------------------------
+	// Print node attributes
+	if (fAttribute) {pNode->SetNodeAttributeValue(XML_GDTF_DMXLogicalChannelAttribute, fAttribute->GetNodeReference()); };
+	pNode->SetNodeAttributeValue(XML_GDTF_DMXLogicalChannelSnap,		GdtfConverter::ConvertSnapEnum(fSnap));
+	pNode->SetNodeAttributeValue(XML_GDTF_DMXLogicalChannelMaster,		GdtfConverter::ConvertMasterEnum(fDmxMaster));
+	pNode->SetNodeAttributeValue(XML_GDTF_DMXLogicalChannelMibFadeFrames,		GdtfConverter::ConvertDouble(fMoveInBlackFrames));
+	pNode->SetNodeAttributeValue(XML_GDTF_DMXLogicalChannelDMXChangeTimeLimit,	GdtfConverter::ConvertDouble(fDmxChangeTimeLimit));		
+	// ------------------------------------------------------------------------------------
+	// LogicalChannels
+	for (GdtfDmxChannelFunctionPtr functionObj : fFunctions)
+	{
+		functionObj->WriteToNode(pNode);
+	}
+}
+
+void GdtfDmxLogicalChannel::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnReadFromNode(pNode);
+	
+	
+	// ------------------------------------------------------------------------------------
+	// Print node attributes
+	pNode->GetNodeAttributeValue(XML_GDTF_DMXLogicalChannelAttribute, fUnresolvedAttribRef);
+	TXString snap; 	pNode->GetNodeAttributeValue(XML_GDTF_DMXLogicalChannelSnap,	snap);		GdtfConverter::ConvertSnapEnum(snap, 	 pNode, fSnap);
+	TXString master;pNode->GetNodeAttributeValue(XML_GDTF_DMXLogicalChannelMaster,	master);	GdtfConverter::ConvertMasterEnum(master, pNode,	fDmxMaster);
+	//
+	TXString mib;		pNode->GetNodeAttributeValue(XML_GDTF_DMXLogicalChannelMibFadeFrames,		mib);		GdtfConverter::ConvertDouble(mib, 		pNode,	fMoveInBlackFrames);
+	TXString timelimit;	pNode->GetNodeAttributeValue(XML_GDTF_DMXLogicalChannelDMXChangeTimeLimit,	timelimit);	GdtfConverter::ConvertDouble(timelimit, pNode,	fDmxChangeTimeLimit);
+	
+	// ------------------------------------------------------------------------------------
+	// Read LogicalChannels
+	GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_DMXChannelFuntionNodeName, [this] (IXMLFileNodePtr objNode) -> void
+								 {
+									 if ( CheckAbort() ) return;
+
+									 // Create the object
+									 GdtfDmxChannelFunctionPtr function = new GdtfDmxChannelFunction(this);
+									 
+									 // Read from node
+									 function->ReadFromNode(objNode);
+
+									 if(fFunctions.size() > 0)	{ fFunctions.back()->SetNextFunction(function); }
+									 
+									 if(fFunctions.size() == 0)	
+									 { 
+										if(function->GetStartAdress() != 0)
+										{
+											GdtfParsingError error (GdtfDefines::EGdtfParsingError::eChannelFunctionNotStartingWithZero, objNode);
+        									SceneData::GdtfFixture::AddError(error);
+											function->SetStartAddress(0);
+										}
+									 }
+									 
+									 // Add to list
+									 fFunctions.push_back(function);
+
+									 
+									 
+									 return;
+								 });
+}
+
+void GdtfDmxLogicalChannel::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_DMXLogicalChannelAttribute);
+	optional.push_back(XML_GDTF_DMXLogicalChannelSnap);
+	optional.push_back(XML_GDTF_DMXLogicalChannelMaster);
+    optional.push_back(XML_GDTF_DMXLogicalChannelMibFadeFrames);
+	optional.push_back(XML_GDTF_DMXLogicalChannelDMXChangeTimeLimit);	
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfDmxLogicalChannel::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfDmxLogicalChannel;
+}
+
+TXString GdtfDmxLogicalChannel::GetNodeReference()
+{
+	return fParentDmxChannel->GetNodeReference() + "." + GetName();
+}
+
+TXString GdtfDmxLogicalChannel::GetNodeName()
+{
+	return XML_GDTF_DMXLogicalChannelNodeName;
+}
+
+const TXString& GdtfDmxLogicalChannel::GetName()
+{
+	// The name is the one of the attribute, so it changes with it
+	TXString name;
+	ASSERTN(kEveryone, fAttribute != nullptr);
+	if(fAttribute){ name +=fAttribute->GetName(); }
+
+	if( ! fName_AutoGenerated.Equal(name)) { this->SetName(name); }
+
+	return fName_AutoGenerated;
+}
+
+GdtfAttribute* GdtfDmxLogicalChannel::GetAttribute()
+{
+	return fAttribute;
+}
+
+EGdtfDmxSnap GdtfDmxLogicalChannel::GetDmxSnap() const
+{
+	return fSnap;
+}
+
+EGdtfDmxMaster GdtfDmxLogicalChannel::GetDmxMaster() const
+{
+	return fDmxMaster;
+}
+
+const TGdtfDmxChannelFuntionArray& GdtfDmxLogicalChannel::GetDmxChannelFunctions()
+{
+	return fFunctions;
+}
+
+const TXString& GdtfDmxLogicalChannel::GetUnresolvedAttribRef() const
+{
+	return fUnresolvedAttribRef;
+}
+
+GdtfDmxChannel* GdtfDmxLogicalChannel::GetParentDMXChannel() const 
+{
+	return fParentDmxChannel;
+}
+
+//------------------------------------------------------------------------------------
+// GdtfDmxChannelFunction
+GdtfDmxChannelFunction::GdtfDmxChannelFunction(GdtfDmxLogicalChannel* parent)
+{
+	fDefaultValue			= 0;
+	fAdressStart			= 0;
+	fPhysicalStart			= 0;
+	fPhysicalEnd			= 1;
+	fRealFade				= 0;
+	fRealAcceleration 		= 0;
+	fOnWheel				= nullptr;
+	fEmitter				= nullptr;
+	fAttribute				= nullptr;
+	fParentLogicalChannel	= parent;
+	fNextFunction			= nullptr;
+
+	fModeMaster_Channel		= nullptr;
+	fModeMaster_Function	= nullptr;
+	fDmxModeStart			= 0;
+	fDmxModeEnd				= 0;
+
+	fFilter                	= nullptr;
+	fColorSpace             = nullptr;
+	fGamut                	= nullptr;
+	fDMXProfile             = nullptr;
+
+	fMin 					= 0;
+	fMax 					= 1;
+
+    fUnresolvedFilterRef   		= "";
+    fUnresolvedColorSpaceRef	= "";
+    fUnresolvedGamutRef   		= "";
+    fUnresolvedDMXProfileRef 	= "";
+}
+
+GdtfDmxChannelFunction::GdtfDmxChannelFunction(const TXString& name, GdtfDmxLogicalChannel* parent)
+{
+	fName					= name;
+	fDefaultValue			= 0;
+	fAdressStart			= 0;
+	fPhysicalStart			= 0;
+	fPhysicalEnd			= 1;
+	fRealFade				= 0;
+	fRealAcceleration 		= 0;
+	fOnWheel				= nullptr;
+	fEmitter				= nullptr;				
+	fAttribute				= nullptr;
+	fParentLogicalChannel	= parent;
+	fNextFunction			= nullptr;
+
+	fModeMaster_Channel		= nullptr;
+	fModeMaster_Function	= nullptr;
+	fDmxModeStart			= 0;
+	fDmxModeEnd				= 0;
+
+    fFilter                	= nullptr;
+	fColorSpace             = nullptr;
+	fGamut                	= nullptr;
+	fDMXProfile             = nullptr;
+
+	fMin 					= 0;
+	fMax 					= 1;
+
+    fUnresolvedFilterRef   		= "";
+    fUnresolvedColorSpaceRef	= "";
+    fUnresolvedGamutRef   		= "";
+    fUnresolvedDMXProfileRef 	= "";
+}
+
+GdtfDmxChannelFunction::~GdtfDmxChannelFunction()
+{
+	for (GdtfDmxChannelSetPtr ptr 		: fChannelSets) 	{ delete ptr; }
+	for (GdtfDmxSubChannelSetPtr ptr 	: fSubChannelSets) 	{ delete ptr; }
+}
+
+void GdtfDmxChannelFunction::SetNextFunction(GdtfDmxChannelFunction* next)
+{
+	ASSERTN(kEveryone, fNextFunction == nullptr);
+	fNextFunction = next;
+}
+
+void GdtfDmxChannelFunction::SetName(const TXString &name)
+{
+	fName = name;
+}
+
+void GdtfDmxChannelFunction::SetAttribute(GdtfAttribute* newAttr)
+{
+	fAttribute = newAttr;
+}
+
+void GdtfDmxChannelFunction::SetOriginalAttribute(const TXString &attribute)
+{
+	fOrignalAttribute = attribute;
+}
+
+void GdtfDmxChannelFunction::SetDefaultValue(DmxValue defaultValue)
+{
+	fDefaultValue = defaultValue;
+}
+
+void GdtfDmxChannelFunction::SetStartAddress(DmxValue address)
+{
+	fAdressStart = address;
+}
+
+void GdtfDmxChannelFunction::SetPhysicalStart(double start)
+{
+	fPhysicalStart = start;
+}
+
+void GdtfDmxChannelFunction::SetPhysicalEnd(double end)
+{
+	fPhysicalEnd = end;
+}
+
+void GdtfDmxChannelFunction::SetRealFade(double fade)
+{
+	fRealFade = fade;
+}
+
+void GdtfDmxChannelFunction::SetRealAcceleration(double acceleration)
+{
+	fRealAcceleration = acceleration;
+}
+
+GdtfDmxChannelSet* GdtfDmxChannelFunction::AddChannelSet(const TXString &name)
+{
+	GdtfDmxChannelSet* channelSet = new GdtfDmxChannelSet(name, this);
+	fChannelSets.push_back(channelSet);
+	return channelSet;
+}
+
+GdtfDmxSubChannelSet* GdtfDmxChannelFunction::AddSubChannelSet(GdtfSubPhysicalUnit* subPhysicalUnit, const TXString& name)
+{
+	GdtfDmxSubChannelSet* subChannelSet = new GdtfDmxSubChannelSet(subPhysicalUnit, name);
+	fSubChannelSets.push_back(subChannelSet);
+	return subChannelSet;
+}
+
+void GdtfDmxChannelFunction::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnPrintToFile(pNode);
+	
+	EGdtfChannelBitResolution chanelReso = GetParentDMXChannel()->GetChannelBitResolution();
+
+	// ------------------------------------------------------------------------------------
+	// Print node attributes
+	pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFuntionName,				fName);
+
+	pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFuntionDefault,				GdtfConverter::ConvertDMXValue(fDefaultValue, chanelReso));
+	pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFuntionDMXFrom,				GdtfConverter::ConvertDMXValue(fAdressStart, chanelReso));
+	pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFuntionPhysicalFrom,		GdtfConverter::ConvertDouble(fPhysicalStart));
+	pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFuntionPhysicalTo,			GdtfConverter::ConvertDouble(fPhysicalEnd));
+	pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFuntionRealFade,			GdtfConverter::ConvertDouble(fRealFade));
+	pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFuntionRealAcceleration,	GdtfConverter::ConvertDouble(fRealAcceleration));
+	pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFunctionMin,				GdtfConverter::ConvertDouble(fMin));
+	pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFunctionMax,				GdtfConverter::ConvertDouble(fMax));
+	pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFunctionCustomName,			fCustomName);
+
+	
+	pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFuntionOriginalAttribute,								fOrignalAttribute);
+	if (fAttribute)		    { pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFuntionAttribute,			    fAttribute->GetNodeReference()); }
+	if (fOnWheel)			{ pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFuntionWheelRef,				fOnWheel->GetNodeReference()); }
+	if (fEmitter)			{ pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelEmitter,						fEmitter->GetNodeReference() ); }
+	if (fFilter) 			{ pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFuntionFilter, 				fFilter->GetNodeReference()); }
+	if (fColorSpace) 		{ pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFunctionColorSpace, 			fColorSpace->GetNodeReference()); }
+	if (fGamut) 			{ pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFunctionGamut, 				fGamut->GetNodeReference()); }
+	if (fDMXProfile) 		{ pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFunctionDMXProfile, 			fDMXProfile->GetNodeReference()); }
+	
+
+	if(fModeMaster_Channel)
+	{
+		ASSERTN(kEveryone, (fModeMaster_Function == nullptr));
+
+		pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFuntionModeMaster,				fModeMaster_Channel->GetNodeReference());	
+		pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFuntionModeFrom,				GdtfConverter::ConvertDMXValue(fDmxModeStart, fModeMaster_Channel->GetChannelBitResolution()));	
+		pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFuntionModeTo,					GdtfConverter::ConvertDMXValue(fDmxModeEnd,   fModeMaster_Channel->GetChannelBitResolution()));	
+	}
+	if(fModeMaster_Function)
+	{
+		ASSERTN(kEveryone, (fModeMaster_Channel == nullptr));
+
+		pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFuntionModeMaster,				fModeMaster_Function->GetNodeReference());	
+		pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFuntionModeFrom,				GdtfConverter::ConvertDMXValue(fDmxModeStart, fModeMaster_Function->GetParentDMXChannel()->GetChannelBitResolution()));	
+		pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelFuntionModeTo,					GdtfConverter::ConvertDMXValue(fDmxModeEnd,   fModeMaster_Function->GetParentDMXChannel()->GetChannelBitResolution()));	
+	}
+
+	// ------------------------------------------------------------------------------------
+	// Prepare No Feature Channel Set
+	TGdtfDmxChannelSetArray tempArr;
+	bool					hasChannelSets = fChannelSets.size() > 0;
+	
+	// Sort from low to high
+	std::sort(fChannelSets.begin(), fChannelSets.end(), [](const GdtfDmxChannelSetPtr & a, const GdtfDmxChannelSetPtr & b) -> bool { return a->GetDmxStart() < b->GetDmxStart(); });
+	
+	// If it has channel sets, process first obj
+	if(hasChannelSets)
+	{
+		GdtfDmxChannelSetPtr firstChannelSet = fChannelSets[0];
+		
+		if(firstChannelSet->GetDmxStart() > this->GetStartAdress())
+		{
+			GdtfDmxChannelSetPtr noFeature = new GdtfDmxChannelSet("", this);
+			noFeature->SetDmxStart(this->GetStartAdress());
+			noFeature->SetDmxEnd(firstChannelSet->GetDmxStart()-1);
+			tempArr.push_back(noFeature);
+		}
+		
+		// add the first one
+		tempArr.push_back(firstChannelSet);
+	}
+	
+	// Process the spaces between the channel sets
+	for (size_t i = 1; i < fChannelSets.size(); i++)
+	{
+		GdtfDmxChannelSetPtr first  = fChannelSets[i-1];
+		GdtfDmxChannelSetPtr second = fChannelSets[ i ];
+		
+		DmxValue diff = second ->GetDmxStart() - first->GetDmxEnd();
+		
+		if (diff > 1)
+		{
+			GdtfDmxChannelSetPtr noFeature = new GdtfDmxChannelSet("", this);
+			noFeature->SetDmxStart(first->GetDmxEnd()  + 1);
+			noFeature->SetDmxEnd(second->GetDmxStart() - 1);
+			tempArr.push_back(noFeature);
+		}
+		else if(diff < 1)	{ DSTOP((kEveryone, "Wrong Formated ChannelSet")); }
+		
+		tempArr.push_back(second);
+		
+	}
+	
+	// Process the last channel set
+	if(hasChannelSets)
+	{
+		GdtfDmxChannelSetPtr lastChannelSet = fChannelSets.back();
+
+		if(lastChannelSet->GetDmxEnd() < this->GetEndAdress())
+		{
+			GdtfDmxChannelSetPtr noFeature = new GdtfDmxChannelSet("", this);
+			noFeature->SetDmxStart(lastChannelSet->GetDmxEnd() + 1);
+			noFeature->SetDmxEnd(this->GetEndAdress());
+			tempArr.push_back(noFeature);
+		}
+	}
+	
+	
+	// ------------------------------------------------------------------------------------
+	// Now print them to the node
+	for (GdtfDmxChannelSet* channelObj : tempArr)
+	{
+		channelObj->WriteToNode(pNode);
+	}
+	fChannelSets = tempArr;
+
+	// ------------------------------------------------------------------------------------
+	// SubChannelSets
+	for(GdtfDmxSubChannelSet* subChannelSet : fSubChannelSets)
+	{
+		subChannelSet->WriteToNode(pNode);
+	}
+}
+
+void GdtfDmxChannelFunction::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnReadFromNode(pNode);
+	
+	// ------------------------------------------------------------------------------------
+	// Print node attributes
+	EGdtfChannelBitResolution channelReso = fParentLogicalChannel->GetParentDMXChannel()->GetChannelBitResolution();
+
+							pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelFuntionName,				fName);
+							pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelFuntionOriginalAttribute,	fOrignalAttribute);
+	TXString defaultValue;	pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelFuntionDefault,				defaultValue);		GdtfConverter::ConvertDMXValue(defaultValue,	pNode,	channelReso,fDefaultValue);
+	TXString dmxFrom;		pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelFuntionDMXFrom,				dmxFrom);			GdtfConverter::ConvertDMXValue(dmxFrom, 		pNode,	channelReso,fAdressStart);
+	TXString physFrom;		pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelFuntionPhysicalFrom,		physFrom);			GdtfConverter::ConvertDouble(physFrom, 			pNode,				fPhysicalStart);
+	TXString physTo;		pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelFuntionPhysicalTo,			physTo);			GdtfConverter::ConvertDouble(physTo, 			pNode,				fPhysicalEnd);
+	TXString realFade;		pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelFuntionRealFade,			realFade);			GdtfConverter::ConvertDouble(realFade, 			pNode,				fRealFade);
+	TXString realAcc;		pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelFuntionRealAcceleration,	realAcc);			GdtfConverter::ConvertDouble(realAcc, 			pNode,				fRealAcceleration);
+	TXString min;			pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelFunctionMin,				min);				GdtfConverter::ConvertDouble(min, 				pNode,				fMin);
+	TXString max;			pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelFunctionMax,				max);				GdtfConverter::ConvertDouble(max, 				pNode,				fMax);
+							pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelFunctionCustomName,			fCustomName);
+	// Unresolved refs
+	pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelFuntionAttribute, 	fUnresolvedAttrRef);	
+	pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelFuntionWheelRef, 	fUnresolvedWheelRef);
+	pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelEmitter, 			fUnresolvedEmitterRef);
+    pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelFuntionFilter,		fUnresolvedFilterRef);
+    pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelFunctionColorSpace,	fUnresolvedColorSpaceRef);
+    pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelFunctionGamut,		fUnresolvedGamutRef);
+    pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelFunctionDMXProfile,	fUnresolvedDMXProfileRef);
+
+	// Read Mode Master
+	pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelFuntionModeMaster,	fUnresolvedModeMaster);	
+	pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelFuntionModeFrom,	fUnresolvedDmxModeStart);	
+	pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelFuntionModeTo,		fUnresolvedDmxModeEnd);	
+
+    
+
+	// ------------------------------------------------------------------------------------
+	// GdtfDmxChannelSet
+	GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_DMXChannelSetNodeName, [this] (IXMLFileNodePtr objNode) -> void
+	{	
+		if ( CheckAbort() ) return;
+
+		// Create the object
+		GdtfDmxChannelSetPtr channelSet = new GdtfDmxChannelSet(this);
+		
+		// Read from node
+		channelSet->ReadFromNode(objNode);
+
+		if( ! channelSet->IsValid()) { delete channelSet; return; }
+
+		// For old virtual channels with recalculated DMX values(32->16), ensure unique DMXFrom values
+		if (this->GetParentDMXChannel()->IsVirtual())
+		{
+			DmxValue maxDmxValue = this->GetParentDMXChannel()->GetChannelMaxDmx();
+
+			if (fChannelSets.size() >= maxDmxValue)
+			{
+				GdtfParsingError error (GdtfDefines::EGdtfParsingError::eValueError_DmxValueHasWrongValue, objNode);
+				SceneData::GdtfFixture::AddError(error);
+				delete channelSet;
+				return;
+			}
+			
+			DmxValue currentValue = channelSet->GetDmxStart();
+
+			bool hasDuplicate = true;
+			
+			while (hasDuplicate && currentValue < maxDmxValue)
+			{
+				hasDuplicate = false;
+				for (size_t i = 0; i < fChannelSets.size(); i++)
+				{
+					if (fChannelSets[i]->GetDmxStart() == currentValue)
+					{
+						hasDuplicate = true;
+						currentValue++;
+						break;
+					}
+				}
+			}
+			
+			// If we reached the maximum and still have a duplicate, use cascading backward decrement
+			if (hasDuplicate && currentValue >= maxDmxValue)
+			{
+				for (int i = fChannelSets.size() - 1; i >= 0; i--)
+				{
+					DmxValue nextValue = (i == (int)fChannelSets.size() - 1) ? maxDmxValue : fChannelSets[i + 1]->GetDmxStart();
+					DmxValue currentElem = fChannelSets[i]->GetDmxStart();
+					DmxValue maxAllowed = (nextValue > 0) ? (nextValue - 1) : 0;
+					
+					if (currentElem >= nextValue && maxAllowed >= 0)
+					{
+						fChannelSets[i]->SetDmxStart(maxAllowed);
+					}
+				}
+				
+				currentValue = maxDmxValue;
+			}
+			
+			if (currentValue != channelSet->GetDmxStart())
+			{
+				channelSet->SetDmxStart(currentValue);
+			}
+		}
+	
+		// Link with next
+		if(!fChannelSets.empty()) 
+		{ 
+			bool validDmxRange = fChannelSets.back()->SetNextChannelSet(channelSet, objNode);
+			if(! validDmxRange) { delete channelSet; return; }
+		}
+		
+		// Add to list
+		fChannelSets.push_back(channelSet);
+		
+		return;
+	});
+	
+	// Now calculate end values
+	for (size_t i = 1; i < fChannelSets.size() ; i++)
+	{
+		GdtfDmxChannelSetPtr first  = fChannelSets[i-1];
+		GdtfDmxChannelSetPtr second = fChannelSets[ i ];
+		
+		first->SetDmxEnd(second->GetDmxStart() - 1);
+	}
+
+	// ------------------------------------------------------------------------------------
+	// GdtfDmxSubChannelSet
+	GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_DMXSubChannelSetNodeName, [this] (IXMLFileNodePtr objNode) -> void
+	{
+		if ( CheckAbort() ) return;
+
+		// Create the object
+		GdtfDmxSubChannelSetPtr subChannelSet = new GdtfDmxSubChannelSet();
+		
+		// Read from node
+		subChannelSet->ReadFromNode(objNode);
+
+		// Add to list
+		fSubChannelSets.push_back(subChannelSet);
+
+		return;
+	});
+}
+
+void GdtfDmxChannelFunction::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	optional.push_back(XML_GDTF_DMXChannelFuntionName);
+	optional.push_back(XML_GDTF_DMXChannelFuntionAttribute);
+	optional.push_back(XML_GDTF_DMXChannelFuntionOriginalAttribute);
+	optional.push_back(XML_GDTF_DMXChannelFuntionDefault);
+	optional.push_back(XML_GDTF_DMXChannelFuntionDMXFrom);
+	optional.push_back(XML_GDTF_DMXChannelFuntionPhysicalFrom);
+	optional.push_back(XML_GDTF_DMXChannelFuntionPhysicalTo);
+	optional.push_back(XML_GDTF_DMXChannelFuntionWheelRef);
+	optional.push_back(XML_GDTF_DMXChannelEmitter);	
+	optional.push_back(XML_GDTF_DMXChannelFuntionModeMaster);
+	optional.push_back(XML_GDTF_DMXChannelFuntionModeFrom);
+	optional.push_back(XML_GDTF_DMXChannelFuntionModeTo);
+	optional.push_back(XML_GDTF_DMXChannelFuntionRealFade);
+    optional.push_back(XML_GDTF_DMXChannelFuntionFilter);
+	optional.push_back(XML_GDTF_DMXChannelFuntionRealAcceleration);
+	optional.push_back(XML_GDTF_DMXChannelFunctionColorSpace);
+	optional.push_back(XML_GDTF_DMXChannelFunctionGamut);
+	optional.push_back(XML_GDTF_DMXChannelFunctionDMXProfile);
+	optional.push_back(XML_GDTF_DMXChannelFunctionMin);
+	optional.push_back(XML_GDTF_DMXChannelFunctionMax);
+	optional.push_back(XML_GDTF_DMXChannelFunctionCustomName);
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfDmxChannelFunction::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfDmxChannelFuntion;
+}
+
+TXString GdtfDmxChannelFunction::GetNodeName()
+{
+	return XML_GDTF_DMXChannelFuntionNodeName;
+}
+
+TXString GdtfDmxChannelFunction::GetNodeReference()
+{
+	TXString functionName = GetName();
+	if(functionName.IsEmpty())
+	{
+		ASSERTN(kEveryone, GetAttribute() != nullptr);
+		if(GetAttribute() != nullptr)
+		{
+			functionName = GetAttribute()->GetName();
+			functionName += " ";
+			functionName += TXString().itoa(GetNumberInParent());
+		}
+		
+	}
+	return fParentLogicalChannel->GetNodeReference() + "." + functionName;
+}
+
+size_t GdtfDmxChannelFunction::GetNumberInParent() const
+{
+	size_t count = fParentLogicalChannel->GetDmxChannelFunctions().size();
+	for(size_t i = 0; i < count; i++)
+	{
+		if(fParentLogicalChannel->GetDmxChannelFunctions()[i] == this)
+		{
+			return (i+1);
+		}
+	}
+	
+	DSTOP("Failed to get GetNumberInParent");
+	return 1;
+}
+
+const TXString& GdtfDmxChannelFunction::GetName() const
+{
+	return fName;
+}
+
+GdtfAttribute* GdtfDmxChannelFunction::GetAttribute()
+{
+	return fAttribute;
+}
+
+const TXString& GdtfDmxChannelFunction::GetOriginalAttribute()
+{
+	return fOrignalAttribute;
+}
+
+DmxValue GdtfDmxChannelFunction::GetDefaultValue() const
+{
+	return fDefaultValue;
+}
+
+DmxValue GdtfDmxChannelFunction::GetStartAdress() const
+{
+	return fAdressStart;
+}
+
+DmxValue GdtfDmxChannelFunction::GetEndAdress() const
+{
+	if(fNextFunction)
+	{
+		// There could be serveral Channel Function that have the same start adress, step over them 
+		if(fNextFunction->GetStartAdress() <= this->GetStartAdress()) { fParentLogicalChannel->GetParentDMXChannel()->GetChannelMaxDmx(); }
+		// If the Start Adress differrs, the end Adress is based on the start adress of this channel 
+		else { return(fNextFunction->GetStartAdress() - 1);  }	
+	}
+	
+	// Otherwise return the max for this feature
+	return fParentLogicalChannel->GetParentDMXChannel()->GetChannelMaxDmx();
+}
+
+double GdtfDmxChannelFunction::GetPhysicalStart() const
+{
+	return fPhysicalStart;
+}
+
+double GdtfDmxChannelFunction::GetPhysicalEnd() const
+{
+	return fPhysicalEnd;
+}
+
+double GdtfDmxChannelFunction::GetRealFade() const
+{
+	return fRealFade;
+}
+
+double GdtfDmxChannelFunction::GetRealAcceleration() const
+{
+	return fRealAcceleration;
+}
+
+GdtfWheelPtr GdtfDmxChannelFunction::GetOnWheel() const
+{
+	return fOnWheel;
+}
+
+GdtfPhysicalEmitter * SceneData::GdtfDmxChannelFunction::GetEmitter() const
+{
+    return fEmitter;
+}
+
+GdtfFilterPtr SceneData::GdtfDmxChannelFunction::GetFilter() const
+{
+    return fFilter;
+}
+
+GdtfColorSpacePtr SceneData::GdtfDmxChannelFunction::GetColorSpace() const
+{
+    return fColorSpace;
+}
+
+GdtfGamutPtr SceneData::GdtfDmxChannelFunction::GetGamut() const
+{
+    return fGamut;
+}
+
+GdtfDMXProfilePtr SceneData::GdtfDmxChannelFunction::GetDMXProfile() const
+{
+    return fDMXProfile;
+}
+
+double GdtfDmxChannelFunction::GetMin() const
+{
+	return fMin;
+}
+
+double GdtfDmxChannelFunction::GetMax() const
+{
+	return fMax;
+}
+
+const TXString& GdtfDmxChannelFunction::GetCustomName() const
+{
+	return fCustomName;
+}
+
+void GdtfDmxChannelFunction::SetWheel(GdtfWheelPtr newWhl)
+{
+	fOnWheel = newWhl;
+}
+
+const TGdtfDmxChannelSetArray& GdtfDmxChannelFunction::GetChannelSets() const
+{
+	return fChannelSets;
+}
+
+const TGdtfDmxSubChannelSetArray& GdtfDmxChannelFunction::GetSubChannelSets() const
+{
+	return fSubChannelSets;
+}
+
+GdtfDmxChannel* GdtfDmxChannelFunction::GetModeMaster_Channel() const
+{
+	return fModeMaster_Channel;
+}
+
+GdtfDmxChannelFunction* GdtfDmxChannelFunction::GetModeMaster_Function() const
+{
+	return fModeMaster_Function;
+}
+
+DmxValue GdtfDmxChannelFunction::GetModeMasterDmxStart() const
+{
+	return fDmxModeStart;
+}
+
+DmxValue GdtfDmxChannelFunction::GetModeMasterDmxEnd() const
+{
+	return fDmxModeEnd;
+}
+
+void GdtfDmxChannelFunction::ResolveModeMasterDmx(EGdtfChannelBitResolution resolution)
+{
+	IXMLFileNodePtr node;
+	this->GetNode(node);
+
+	GdtfConverter::ConvertDMXValue(fUnresolvedDmxModeStart, node, resolution, fDmxModeStart);
+	GdtfConverter::ConvertDMXValue(fUnresolvedDmxModeEnd,node, resolution, fDmxModeEnd);
+}
+
+void GdtfDmxChannelFunction::SetModeMaster_Channel(GdtfDmxChannel* channel)
+{
+	ASSERTN(kEveryone, fModeMaster_Function == nullptr);
+	fModeMaster_Function = nullptr;
+	fModeMaster_Channel = channel;
+}
+
+void GdtfDmxChannelFunction::SetModeMaster_Function(GdtfDmxChannelFunction* function)
+{
+	ASSERTN(kEveryone, fModeMaster_Channel == nullptr);
+	fModeMaster_Channel = nullptr;
+	fModeMaster_Function = function;
+}
+
+void GdtfDmxChannelFunction::SetModeMasterDmxStart(DmxValue start)
+{
+	fDmxModeStart = start;
+}
+
+void GdtfDmxChannelFunction::SetModeMasterDmxEnd(DmxValue end)
+{
+	fDmxModeEnd = end;
+}
+
+void GdtfDmxChannelFunction::SetEmitter(GdtfPhysicalEmitter* newEmit)
+{
+	fEmitter = newEmit;
+}
+
+void SceneData::GdtfDmxChannelFunction::SetFilter(GdtfFilterPtr val)
+{
+    fFilter = val;
+}
+
+void SceneData::GdtfDmxChannelFunction::SetColorSpace(GdtfColorSpacePtr colorSpace)
+{
+    fColorSpace = colorSpace;
+}
+
+void SceneData::GdtfDmxChannelFunction::SetGamut(GdtfGamutPtr gamut)
+{
+    fGamut = gamut;
+}
+
+void SceneData::GdtfDmxChannelFunction::SetDMXProfile(GdtfDMXProfilePtr dmxProfile)
+{
+    fDMXProfile = dmxProfile;
+}
+
+void SceneData::GdtfDmxChannelFunction::SetMin(double min)
+{
+    fMin = min;
+}
+
+void SceneData::GdtfDmxChannelFunction::SetMax(double max)
+{
+    fMax = max;
+}
+
+void SceneData::GdtfDmxChannelFunction::SetCustomName(const TXString& customName)
+{
+    fCustomName = customName;
+}
+
+const TXString& GdtfDmxChannelFunction::getUnresolvedAttrRef() const
+{
+	return fUnresolvedAttrRef;
+}
+
+const TXString& GdtfDmxChannelFunction::getUnresolvedWheelRef() const
+{
+	return fUnresolvedWheelRef;
+}
+
+const TXString& GdtfDmxChannelFunction::getUnresolvedEmitterRef() const
+{
+	return fUnresolvedEmitterRef;
+}
+
+const TXString& GdtfDmxChannelFunction::getUnresolvedModeMasterRef() const
+{
+	return fUnresolvedModeMaster;
+}
+
+const TXString & SceneData::GdtfDmxChannelFunction::getUnresolvedFilterRef()
+{
+    return fUnresolvedFilterRef;
+}
+
+const TXString& SceneData::GdtfDmxChannelFunction::getUnresolvedColorSpaceRef() const
+{
+    return fUnresolvedColorSpaceRef;
+}
+
+const TXString& SceneData::GdtfDmxChannelFunction::getUnresolvedGamutRef() const
+{
+    return fUnresolvedGamutRef;
+}
+
+const TXString& SceneData::GdtfDmxChannelFunction::getUnresolvedDMXProfileRef() const
+{
+    return fUnresolvedDMXProfileRef;
+}
+
+GdtfDmxChannel * SceneData::GdtfDmxChannelFunction::GetParentDMXChannel() const
+{
+	return fParentLogicalChannel->GetParentDMXChannel();
+}
+
+GdtfDmxLogicalChannel * SceneData::GdtfDmxChannelFunction::GetParentLogicalChannel() const
+{
+	return fParentLogicalChannel;
+}
+
+GdtfDmxChannelFunction* SceneData::GdtfDmxChannelFunction::GetNextFunction() const
+{
+	return fNextFunction;
+}
+
+//------------------------------------------------------------------------------------
+// GdtfDmxChannelSet
+GdtfDmxChannelSet::GdtfDmxChannelSet(GdtfDmxChannelFunction* parent)
+{
+	fDmxStart		= 0;
+	fDmxEnd			= -1;
+	fPhysicalStart	= 0.0;
+	fPhysicalEnd	= 1.0;	
+	fWheelSlotIdx	= 0;
+	fSetPhysical	= false;
+	fNextChannelSet = nullptr;
+	fParentChnlFunction = parent;
+	fValid = true;
+}
+
+GdtfDmxChannelSet::GdtfDmxChannelSet(const TXString& name, GdtfDmxChannelFunction* parent)
+{
+	fUniqueName = name;
+	fDmxStart		= 0;
+	fDmxEnd			= -1;
+	fPhysicalStart	= 0.0;
+	fPhysicalEnd	= 1.0;	
+	fWheelSlotIdx	= 0;
+	fSetPhysical	= false;
+	fNextChannelSet = nullptr;
+	fParentChnlFunction = parent;
+	fValid = true;
+}
+
+GdtfDmxChannelSet::~GdtfDmxChannelSet()
+{
+}
+
+bool GdtfDmxChannelSet::SetNextChannelSet(GdtfDmxChannelSet* next, IXMLFileNodePtr objNode)
+{
+	if(this->GetDmxStart() >= next->GetDmxStart())
+	{
+		GdtfParsingError error (GdtfDefines::EGdtfParsingError::eValueError_DmxValueHasWrongValue, objNode);
+        SceneData::GdtfFixture::AddError(error);
+		return false;
+	}
+
+	ASSERTN(kEveryone, fNextChannelSet == nullptr);
+	fNextChannelSet = next;
+	return true;
+}
+
+void GdtfDmxChannelSet::SetName(const TXString& name)
+{
+	fUniqueName = name;
+}
+
+void GdtfDmxChannelSet::SetDmxStart(DmxValue start)
+{
+	fDmxStart = start;
+}
+
+void GdtfDmxChannelSet::SetDmxEnd(DmxValue end)
+{
+	fDmxEnd = end;
+}
+
+void GdtfDmxChannelSet::SetPhysicalStart(double start)
+{
+	fPhysicalStart = start;
+	fSetPhysical	= true;
+}
+
+void GdtfDmxChannelSet::SetPhysicalEnd(double end)
+{
+	fPhysicalEnd = end;
+	fSetPhysical	= true;
+}
+
+void GdtfDmxChannelSet::SetWheelSlot(Sint32 slotIndex)
+{
+	fWheelSlotIdx = slotIndex;
+}
+
+bool GdtfDmxChannelSet::IsValid()
+{
+	return fValid;
+}
+
+void GdtfDmxChannelSet::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnPrintToFile(pNode);
+	
+	EGdtfChannelBitResolution chanelReso = GetParentDMXChannel()->GetChannelBitResolution();
+	// ------------------------------------------------------------------------------------
+	// Print node attributes
+	pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelSetName,				fUniqueName);
+	pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelSetDMXFrom,				GdtfConverter::ConvertDMXValue(fDmxStart, chanelReso));
+	pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelSetWheelSlotIndexRef,	GdtfConverter::ConvertInteger(fWheelSlotIdx));
+	
+	if(fSetPhysical)
+	{
+		pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelSetPhysicalFrom,		GdtfConverter::ConvertDouble(fPhysicalStart));
+		pNode->SetNodeAttributeValue(XML_GDTF_DMXChannelSetPhysicalTo,			GdtfConverter::ConvertDouble(fPhysicalEnd));
+	}
+	
+}
+
+void GdtfDmxChannelSet::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnReadFromNode(pNode);
+	
+	
+	// ------------------------------------------------------------------------------------
+	// Print node attributes
+	pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelSetName,				fUniqueName);
+	
+	EGdtfChannelBitResolution channelReso = fParentChnlFunction->GetParentDMXChannel()->GetChannelBitResolution();
+
+	TXString dmxfrom;	pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelSetDMXFrom,				dmxfrom);	fValid = GdtfConverter::ConvertDMXValue (dmxfrom, pNode, channelReso, fDmxStart);
+	TXString wheelId;	pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelSetWheelSlotIndexRef,	wheelId);	GdtfConverter::ConvertInteger(wheelId, pNode,  fWheelSlotIdx);
+	
+	
+	TXString physFrom; pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelSetPhysicalFrom,		physFrom);
+	TXString physTo;   pNode->GetNodeAttributeValue(XML_GDTF_DMXChannelSetPhysicalTo,	    physTo);
+	
+	bool b1 = GdtfConverter::ConvertDouble(physTo, pNode,	fPhysicalEnd);
+	bool b2 = GdtfConverter::ConvertDouble(physFrom, pNode,	fPhysicalStart);
+	fSetPhysical = (b1 && b2);
+
+}
+
+void GdtfDmxChannelSet::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	optional.push_back(XML_GDTF_DMXChannelSetName);
+	optional.push_back(XML_GDTF_DMXChannelSetDMXFrom);
+	optional.push_back(XML_GDTF_DMXChannelSetWheelSlotIndexRef);
+
+	if(fSetPhysical)
+	{
+		needed.push_back(XML_GDTF_DMXChannelSetPhysicalFrom);
+		needed.push_back(XML_GDTF_DMXChannelSetPhysicalTo);
+
+	}
+	else
+	{
+		optional.push_back(XML_GDTF_DMXChannelSetPhysicalFrom);
+		optional.push_back(XML_GDTF_DMXChannelSetPhysicalTo);
+	}
+	
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfDmxChannelSet::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfDmxChannelSet;
+}
+
+TXString GdtfDmxChannelSet::GetNodeName()
+{
+	return XML_GDTF_DMXChannelSetNodeName;
+}
+
+const TXString& GdtfDmxChannelSet::GetName() const
+{
+	return fUniqueName;
+}
+
+bool GdtfDmxChannelSet::GetUsePhysicalFromParent() const
+{
+	return !fSetPhysical;
+}
+
+DmxValue GdtfDmxChannelSet::GetDmxStart() const
+{
+	return fDmxStart;
+}
+
+DmxValue GdtfDmxChannelSet::GetDmxEnd() const
+{
+	if(fNextChannelSet == nullptr && fDmxEnd == size_t(-1)) {  return fParentChnlFunction->GetEndAdress(); }
+	return fDmxEnd;
+}
+
+double GdtfDmxChannelSet::GetPhysicalStart() const
+{
+	return fPhysicalStart;
+}
+
+double GdtfDmxChannelSet::GetPhysicalEnd() const
+{
+	return fPhysicalEnd;
+}
+
+Sint32 GdtfDmxChannelSet::GetWheelSlot()
+{
+	return fWheelSlotIdx;
+}
+
+GdtfDmxChannel * SceneData::GdtfDmxChannelSet::GetParentDMXChannel() const
+{
+	return fParentChnlFunction->GetParentDMXChannel();
+}
+
+//------------------------------------------------------------------------------------
+// GdtfDmxSubChannelSet
+GdtfDmxSubChannelSet::GdtfDmxSubChannelSet()
+{
+	fUniqueName 		= "";
+	fPhysicalFrom		= 0.0;
+	fPhysicalTo			= 1.0;
+	fSubPhysicalUnit 	= nullptr;
+	fDMXProfile 		= nullptr;
+}
+
+GdtfDmxSubChannelSet::GdtfDmxSubChannelSet(GdtfSubPhysicalUnitPtr subPhysicalUnit, const TXString& name)
+{
+	fUniqueName 		= name;
+	fPhysicalFrom		= 0.0;
+	fPhysicalTo			= 1.0;
+	fSubPhysicalUnit 	= subPhysicalUnit;
+	fDMXProfile 		= nullptr;
+	if(subPhysicalUnit)
+	{
+		fPhysicalFrom 	= subPhysicalUnit->GetPhysicalFrom();
+		fPhysicalTo		= subPhysicalUnit->GetPhysicalTo();
+	}
+}
+
+GdtfDmxSubChannelSet::~GdtfDmxSubChannelSet()
+{
+}
+
+void GdtfDmxSubChannelSet::SetName(const TXString& name)
+{
+	fUniqueName = name;
+}
+
+void GdtfDmxSubChannelSet::SetPhysicalFrom(double from)
+{
+	fPhysicalFrom = from;
+}
+
+void GdtfDmxSubChannelSet::SetPhysicalTo(double to)
+{
+	fPhysicalTo = to;
+}
+
+void GdtfDmxSubChannelSet::SetSubPhysicalUnit(GdtfSubPhysicalUnitPtr subPhysicalUnit)
+{
+	fSubPhysicalUnit = subPhysicalUnit;
+}
+
+void GdtfDmxSubChannelSet::SetDMXProfile(GdtfDMXProfilePtr dmxProfile)
+{
+	fDMXProfile = dmxProfile;
+}
+
+void GdtfDmxSubChannelSet::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnPrintToFile(pNode);
+
+	// ------------------------------------------------------------------------------------
+	// Print node attributes
+								pNode->SetNodeAttributeValue(XML_GDTF_DMXSubChannelSetName,				fUniqueName);
+								pNode->SetNodeAttributeValue(XML_GDTF_DMXSubChannelSetPhysicalFrom,		GdtfConverter::ConvertDouble(fPhysicalFrom));
+								pNode->SetNodeAttributeValue(XML_GDTF_DMXSubChannelSetPhysicalTo,		GdtfConverter::ConvertDouble(fPhysicalTo));
+	if(fSubPhysicalUnit) 	{	pNode->SetNodeAttributeValue(XML_GDTF_DMXSubChannelSetSubPhysicalUnit, 	fSubPhysicalUnit->GetNodeReference()); }
+	if(fDMXProfile) 		{	pNode->SetNodeAttributeValue(XML_GDTF_DMXSubChannelSetDMXProfile,		fDMXProfile->GetNodeReference()); }
+
+}
+
+void GdtfDmxSubChannelSet::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnReadFromNode(pNode);
+	
+	// ------------------------------------------------------------------------------------
+	// Read node attributes
+							pNode->GetNodeAttributeValue(XML_GDTF_DMXSubChannelSetName,				fUniqueName);	
+	TXString physicalFrom; 	pNode->GetNodeAttributeValue(XML_GDTF_DMXSubChannelSetPhysicalFrom,		physicalFrom); 	GdtfConverter::ConvertDouble(physicalFrom, pNode, fPhysicalFrom);
+	TXString physicalTo;   	pNode->GetNodeAttributeValue(XML_GDTF_DMXSubChannelSetPhysicalTo,		physicalTo); 	GdtfConverter::ConvertDouble(physicalTo, pNode, fPhysicalTo);
+							pNode->GetNodeAttributeValue(XML_GDTF_DMXSubChannelSetSubPhysicalUnit,	fUnresolvedSubPhysicalUnitRef);	
+							pNode->GetNodeAttributeValue(XML_GDTF_DMXSubChannelSetDMXProfile,		fUnresolvedDMXProfileRef);	
+}
+
+void GdtfDmxSubChannelSet::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	optional.push_back(XML_GDTF_DMXSubChannelSetName);
+	optional.push_back(XML_GDTF_DMXSubChannelSetPhysicalFrom);
+	optional.push_back(XML_GDTF_DMXSubChannelSetPhysicalTo);
+	optional.push_back(XML_GDTF_DMXSubChannelSetDMXProfile);
+	needed.push_back(XML_GDTF_DMXSubChannelSetSubPhysicalUnit);
+	
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfDmxSubChannelSet::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfDmxSubChannelSet;
+}
+
+TXString GdtfDmxSubChannelSet::GetNodeName()
+{
+	return XML_GDTF_DMXSubChannelSetNodeName;
+}
+
+const TXString& GdtfDmxSubChannelSet::GetName() const
+{
+	return fUniqueName;
+}
+
+double GdtfDmxSubChannelSet::GetPhysicalFrom() const
+{
+	return fPhysicalFrom;
+}
+
+double GdtfDmxSubChannelSet::GetPhysicalTo() const
+{
+	return fPhysicalTo;
+}
+
+GdtfSubPhysicalUnitPtr GdtfDmxSubChannelSet::GetSubPhysicalUnit() const
+{
+	return fSubPhysicalUnit;
+}
+
+GdtfDMXProfilePtr GdtfDmxSubChannelSet::GetDMXProfile() const
+{
+	return fDMXProfile;
+}
+
+const TXString& GdtfDmxSubChannelSet::GetUnresolvedSubPhysicalUnitRef() const
+{
+	return fUnresolvedSubPhysicalUnitRef;
+}
+
+const TXString& GdtfDmxSubChannelSet::GetUnresolvedDMXProfileRef() const
+{
+	return fUnresolvedDMXProfileRef;
+}
+
+//------------------------------------------------------------------------------------
+// GdtfDmxRelation
+GdtfDmxRelation::GdtfDmxRelation()
+{
+	fMasterDmxChannel		= nullptr;
+	fSlaveChannelFunction	= nullptr;
+	fRelationType			= EGdtfDmxRelationType::eGdtfDmxRelationType_Override;
+
+}
+
+GdtfDmxRelation::GdtfDmxRelation(GdtfDmxChannelPtr master, GdtfDmxChannelFunctionPtr slave, const TXString& name)
+{
+	fUniqueName				= name;
+	fMasterDmxChannel		= master;
+	fSlaveChannelFunction	= slave;
+	fRelationType			= EGdtfDmxRelationType::eGdtfDmxRelationType_Override;
+}
+
+GdtfDmxRelation::~GdtfDmxRelation()
+{
+}
+
+void GdtfDmxRelation::SetName(const TXString& name)
+{
+	fUniqueName = name;
+}
+
+void GdtfDmxRelation::SetRelationType(EGdtfDmxRelationType type)
+{
+	fRelationType = type;
+}
+
+void GdtfDmxRelation::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnPrintToFile(pNode);
+	
+	// ------------------------------------------------------------------------------------
+	// Print node attributes
+	pNode->SetNodeAttributeValue(XML_GDTF_DMXRelationName,				fUniqueName);
+	if (fMasterDmxChannel) 		{ pNode->SetNodeAttributeValue(XML_GDTF_DMXRelationMaster,			fMasterDmxChannel->GetNodeReference());}
+	if (fSlaveChannelFunction)  { pNode->SetNodeAttributeValue(XML_GDTF_DMXRelationSlave,			fSlaveChannelFunction->GetNodeReference());}
+	pNode->SetNodeAttributeValue(XML_GDTF_DMXRelationType,		GdtfConverter::ConvertRelationEnum(fRelationType));
+
+
+}
+
+void GdtfDmxRelation::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnReadFromNode(pNode);	
+	
+	// ------------------------------------------------------------------------------------
+	// Print node attributes
+	pNode->GetNodeAttributeValue(XML_GDTF_DMXRelationName,	 fUniqueName);
+	pNode->GetNodeAttributeValue(XML_GDTF_DMXRelationMaster, fUnresolvedMasterRef);
+	pNode->GetNodeAttributeValue(XML_GDTF_DMXRelationSlave,	 fUnresolvedSlaveRef);
+    TXString type;		pNode->GetNodeAttributeValue(XML_GDTF_DMXRelationType,		type);		GdtfConverter::ConvertRelationEnum(type, pNode,	fRelationType); 
+}
+
+void GdtfDmxRelation::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_DMXRelationName);
+	needed.push_back(XML_GDTF_DMXRelationMaster);
+	needed.push_back(XML_GDTF_DMXRelationSlave);
+	needed.push_back(XML_GDTF_DMXRelationType);
+	
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfDmxRelation::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfDmxRelation;
+}
+
+TXString GdtfDmxRelation::GetNodeName()
+{
+	return XML_GDTF_DMXRelationNodeName;
+}
+
+const TXString& GdtfDmxRelation::GetName() const
+{
+	return fUniqueName;
+}
+
+GdtfDmxChannelPtr GdtfDmxRelation::GetMasterChannel() const
+{
+	return fMasterDmxChannel;
+}
+
+void GdtfDmxRelation::SetMasterChannel(GdtfDmxChannelPtr newMaster)
+{
+	fMasterDmxChannel = newMaster;
+}
+
+GdtfDmxChannelFunctionPtr GdtfDmxRelation::GetSlaveChannel() const
+{
+	return fSlaveChannelFunction;
+}
+
+void GdtfDmxRelation::SetSlaveChannel(GdtfDmxChannelFunctionPtr newSlave)
+{
+	fSlaveChannelFunction = newSlave;
+}
+
+const TXString& GdtfDmxRelation::GetUnresolvedMasterRef() const
+{
+	return fUnresolvedMasterRef;
+}
+
+const TXString& GdtfDmxRelation::GetUnresolvedSlaveRef() const
+{
+	return fUnresolvedSlaveRef;
+}
+
+EGdtfDmxRelationType GdtfDmxRelation::GetRelationType() const
+{
+	return fRelationType;
+}
+
+//------------------------------------------------------------------------------------
+// GdtfRevision
+GdtfRevision::GdtfRevision()
+{
+    fText 			= "";
+	fUserId 		= 0;
+	fDateS.fYear	= 0;
+	fDateS.fMonth	= 0;
+	fDateS.fDay		= 0;
+	fDateS.fHour	= 0;
+	fDateS.fMinute	= 0;
+	fDateS.fSecond	= 0;
+	fModifiedBy 	= "";
+    
+}
+
+GdtfRevision::~GdtfRevision()
+{
+}
+
+void GdtfRevision::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnPrintToFile(pNode);
+	
+	
+	// ------------------------------------------------------------------------------------
+	// Print node attributes
+	pNode->SetNodeAttributeValue(XML_GDTF_RevisionText,			fText);
+	pNode->SetNodeAttributeValue(XML_GDTF_RevisionDate,			SceneData::GdtfConverter::ConvertDate(fDateS));
+	pNode->SetNodeAttributeValue(XML_GDTF_RevisionUserId,		SceneData::GdtfConverter::ConvertInteger(fUserId));
+	pNode->SetNodeAttributeValue(XML_GDTF_RevisionModifiedBy,	fModifiedBy);
+	
+}
+
+void GdtfRevision::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnReadFromNode(pNode);
+	
+	
+	// ------------------------------------------------------------------------------------
+	// Print node attributes
+						pNode->GetNodeAttributeValue(XML_GDTF_RevisionText,			fText);
+	TXString date;		pNode->GetNodeAttributeValue(XML_GDTF_RevisionDate, 		date);		GdtfConverter::ConvertDate(date, pNode, fDateS);
+	TXString userid;	pNode->GetNodeAttributeValue(XML_GDTF_RevisionUserId, 		userid);	GdtfConverter::ConvertInteger(userid, pNode, fUserId);
+						pNode->GetNodeAttributeValue(XML_GDTF_RevisionModifiedBy,	fModifiedBy);
+
+}
+
+void GdtfRevision::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_RevisionDate);
+	optional.push_back(XML_GDTF_RevisionText);
+	optional.push_back(XML_GDTF_RevisionUserId);
+	optional.push_back(XML_GDTF_RevisionModifiedBy);
+
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfRevision::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfRevision;
+}
+
+TXString GdtfRevision::GetNodeName()
+{
+	return XML_GDTF_RevisionNodeName;
+}
+
+void GdtfRevision::SetText(const TXString& text)
+{
+	fText = text;
+}
+
+void GdtfRevision::SetDate(const STime& date)
+{
+	fDateS.fYear	= date.fYear;
+	fDateS.fMonth	= date.fMonth;
+	fDateS.fDay		= date.fDay;
+	fDateS.fHour	= date.fHour;
+	fDateS.fMinute	= date.fMinute;
+	fDateS.fSecond	= date.fSecond;
+}
+
+void GdtfRevision::SetUserId(size_t value) 
+{
+	fUserId = value;
+}
+
+void GdtfRevision::SetModifiedBy(const TXString& modifiedBy)
+{
+	fModifiedBy = modifiedBy;
+}
+
+const TXString& GdtfRevision::GetText() const
+{
+	return fText;
+}
+
+const STime& GdtfRevision::GetDate() const
+{
+	return fDateS;
+}
+
+size_t GdtfRevision::GetUserId() const
+{
+	return fUserId;
+}
+
+const TXString& GdtfRevision::GetModifiedBy() const
+{
+	return fModifiedBy;
+}
+
+
+
+//------------------------------------------------------------------------------------
+// GdtfPhysicalEmitter
+GdtfPhysicalEmitter::GdtfPhysicalEmitter()
+{
+	fColor		= CRGBColor(255, 255, 255);
+    fDominantWaveLength = 0;
+    fDiodePart = "";
+}
+
+GdtfPhysicalEmitter::GdtfPhysicalEmitter(const TXString& name, CCieColor color)
+{
+	fColor		= color;
+	fName		= name;
+    fDominantWaveLength = 0;
+    fDiodePart = "";
+}
+
+GdtfPhysicalEmitter::~GdtfPhysicalEmitter()
+{
+	for (GdtfMeasurementPtr ptr : fMeasurements) { delete ptr; }
+}
+
+void GdtfPhysicalEmitter::SetName(const TXString &name)
+{
+	fName = name;
+}
+
+void GdtfPhysicalEmitter::SetColor(CCieColor color)
+{
+	fColor = color;
+}
+
+void SceneData::GdtfPhysicalEmitter::SetDiodePart(const TXString& val)
+{
+    fDiodePart = val;
+}
+
+void SceneData::GdtfPhysicalEmitter::SetDominantWaveLength(double val)
+{
+    fDominantWaveLength = val;
+}
+
+GdtfMeasurement* GdtfPhysicalEmitter::AddMeasurement()
+{
+	GdtfMeasurement* mes = new GdtfMeasurement(false);
+	fMeasurements.push_back(mes);
+	return mes;
+}
+
+void GdtfPhysicalEmitter::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnPrintToFile(pNode);
+	
+	// ------------------------------------------------------------------------------------
+	// Print node attributes
+	pNode->SetNodeAttributeValue(XML_GDTF_EmitterName,				 fName);
+	pNode->SetNodeAttributeValue(XML_GDTF_EmitterColor,				 GdtfConverter::ConvertColor(fColor) );
+    pNode->SetNodeAttributeValue(XML_GDTF_EmitterDominantWaveLength, GdtfConverter::ConvertDouble(fDominantWaveLength) );
+    pNode->SetNodeAttributeValue(XML_GDTF_EmitterDiodePart,          fDiodePart );
+	//------------------------------------------------------------------------------------
+	// Write Measurement
+	for (GdtfMeasurement* mes: fMeasurements)
+	{
+		mes->WriteToNode(pNode);
+	}
+}
+
+void GdtfPhysicalEmitter::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnReadFromNode(pNode);
+	
+	// ------------------------------------------------------------------------------------
+	// Print node attributes
+	pNode->GetNodeAttributeValue(XML_GDTF_EmitterName,				fName);
+	
+    TXString color;		   pNode->GetNodeAttributeValue(XML_GDTF_EmitterColor,	color);		
+    GdtfConverter::ConvertColor(color, pNode, fColor);
+
+    TXString waveLenStr;   pNode->GetNodeAttributeValue(XML_GDTF_EmitterDominantWaveLength,	waveLenStr);		
+    GdtfConverter::ConvertDouble(waveLenStr, pNode, fDominantWaveLength);
+
+    pNode->GetNodeAttributeValue(XML_GDTF_EmitterDiodePart, fDiodePart);
+	
+	// ------------------------------------------------------------------------------------
+	// Read Measurements
+	GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_MeasurementNodeName, [this] (IXMLFileNodePtr objNode) -> void
+								 {
+									 if ( CheckAbort() ) return;
+
+									 // Create the object
+									 GdtfMeasurementPtr mes = new GdtfMeasurement(false);
+									 
+									 // Read from node
+									 mes->ReadFromNode(objNode);
+									 
+									 // Add to list
+									 fMeasurements.push_back(mes);
+
+									 return;
+								 });
+}
+
+void GdtfPhysicalEmitter::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_EmitterName);
+	needed.push_back(XML_GDTF_EmitterColor);
+	    
+		
+	optional.push_back(XML_GDTF_EmitterDominantWaveLength);
+    optional.push_back(XML_GDTF_EmitterDiodePart);
+
+	
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfPhysicalEmitter::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfPhysicalEmitter;
+}
+
+TXString GdtfPhysicalEmitter::GetNodeName()
+{
+	return XML_GDTF_EmitterNodeName;
+}
+
+const TXString& GdtfPhysicalEmitter::GetName() const
+{
+	return fName;
+}
+
+CCieColor GdtfPhysicalEmitter::GetColor() const
+{
+	return fColor;
+}
+
+const TGdtfMeasurementArray GdtfPhysicalEmitter::GetMeasurements()
+{
+	return fMeasurements;
+}
+
+TXString GdtfPhysicalEmitter::GetNodeReference()
+{
+	return GetName();
+}
+
+const TXString& SceneData::GdtfPhysicalEmitter::GetDiodePart()
+{
+    return fDiodePart;
+}
+
+double SceneData::GdtfPhysicalEmitter::GetDominantWaveLength()
+{
+    return fDominantWaveLength;
+}
+
+//------------------------------------------------------------------------------------
+// Macro
+GdtfUserPreset::GdtfUserPreset()
+{
+}
+
+GdtfUserPreset::~GdtfUserPreset()
+{
+}
+
+void GdtfUserPreset::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnPrintToFile(pNode);
+}
+
+void GdtfUserPreset::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnReadFromNode(pNode);
+}
+
+EGdtfObjectType GdtfUserPreset::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfUserPreset;
+}
+
+TXString GdtfUserPreset::GetNodeName()
+{
+	return XML_GDTF_UserPresetNodeName;
+}
+
+//------------------------------------------------------------------------------------
+// Macro
+GdtfMacro::GdtfMacro()
+{
+	fChannelFunction = nullptr;
+	fMacroDMX = nullptr;
+	fMacroVisual = nullptr;
+}
+
+GdtfMacro::GdtfMacro(const TXString& name)
+{
+    fName = name;
+	fChannelFunction = nullptr;
+    fMacroDMX = nullptr;
+    fMacroVisual = nullptr;
+}
+
+GdtfMacro::~GdtfMacro()
+{    
+    if (fMacroDMX)    { delete fMacroDMX; }
+    if (fMacroVisual) { delete fMacroVisual; }    
+}
+
+void GdtfMacro::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+    //------------------------------------------------------------------------------------
+    // Call the parent
+    GdtfObject::OnPrintToFile(pNode);
+    
+	// ------------------------------------------------------------------------------------
+	// Print node attributes
+	pNode->SetNodeAttributeValue(XML_GDTF_MacroName, fName);
+
+	if(fChannelFunction) { pNode->SetNodeAttributeValue(XML_GDTF_MacroChannelFunction, fChannelFunction->GetNodeReference()); }
+
+	//------------------------------------------------------------------------------------
+    // Print the children
+    if (fMacroDMX != nullptr) 
+    {
+        fMacroDMX->WriteToNode(pNode);
+    }    
+    if (fMacroVisual != nullptr)
+    {
+        fMacroVisual->WriteToNode(pNode);
+    }
+}
+
+void GdtfMacro::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnReadFromNode(pNode);
+    //------------------------------------------------------------------------------------
+    // Get the attributes	
+    pNode->GetNodeAttributeValue(XML_GDTF_MacroName, fName);
+    pNode->GetNodeAttributeValue(XML_GDTF_MacroChannelFunction, fUnresolvedChannelFunction);
+
+    //------------------------------------------------------------------------------------
+    // Read the children
+	IXMLFileNodePtr macroDmxNode;
+    if(VCOM_SUCCEEDED(pNode->GetChildNode(XML_GDTF_MacroDMX, &macroDmxNode)))
+	{
+		if (fMacroDMX) { delete fMacroDMX; }
+		this->fMacroDMX = new GdtfMacroDMX();
+		this->fMacroDMX->ReadFromNode(macroDmxNode);
+	}
+	
+	IXMLFileNodePtr macroVisualNode;
+    if(VCOM_SUCCEEDED(pNode->GetChildNode(XML_GDTF_MacroVisual, &macroVisualNode)))
+	{
+		if (fMacroVisual) { delete fMacroVisual; }
+		this->fMacroVisual = new GdtfMacroVisual();
+		this->fMacroVisual->ReadFromNode(macroVisualNode);
+	}
+}
+
+void GdtfMacro::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_MacroName);
+	optional.push_back(XML_GDTF_MacroChannelFunction);
+	
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+const TXString & SceneData::GdtfMacro::GetName() const
+{
+    return fName;
+}
+
+GdtfMacroDMX* SceneData::GdtfMacro::GetMacroDMX() const
+{
+    return fMacroDMX;
+}
+
+GdtfDmxChannelFunction* SceneData::GdtfMacro::GetChannelFunction() const
+{
+    return fChannelFunction;
+}
+
+const TXString & SceneData::GdtfMacro::GetUnresolvedChannelFunction() const
+{
+    return fUnresolvedChannelFunction;
+}
+
+GdtfMacroVisual* SceneData::GdtfMacro::GetMacroVisual() const
+{
+    return fMacroVisual;
+}
+
+void SceneData::GdtfMacro::SetName(const TXString & name)
+{
+    fName = name;
+}
+
+void SceneData::GdtfMacro::SetChannelFunction(GdtfDmxChannelFunction* channelFunction)
+{
+    fChannelFunction = channelFunction;
+}
+
+void SceneData::GdtfMacro::SetMacroDMX(GdtfMacroDMX* val)
+{
+	if(fMacroDMX) {delete fMacroDMX; }
+    fMacroDMX = val;
+}
+
+void SceneData::GdtfMacro::SetMacroVisual(GdtfMacroVisual* val)
+{
+	if(fMacroVisual) {delete fMacroVisual; }
+    fMacroVisual = val;
+}
+
+EGdtfObjectType GdtfMacro::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfMacro;
+}
+
+TXString GdtfMacro::GetNodeName()
+{
+	return XML_GDTF_MacroNodeName;
+}
+
+//------------------------------------------------------------------------------------
+// GdtfMeasurementPoint
+GdtfMeasurementPoint::GdtfMeasurementPoint()
+{
+	fWaveLength		= 0;
+	fEngergy		= 0;
+}
+
+GdtfMeasurementPoint::~GdtfMeasurementPoint()
+{
+}
+
+void GdtfMeasurementPoint::SetWavelength(double wavelength)
+{
+	fWaveLength = wavelength;
+}
+
+void GdtfMeasurementPoint::SetEnergy(double energy)
+{
+	fEngergy = energy;
+}
+
+void GdtfMeasurementPoint::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnPrintToFile(pNode);
+	
+	// ------------------------------------------------------------------------------------
+	// Print node attributes
+	pNode->SetNodeAttributeValue(XML_GDTF_MeasurementWaveLegth,	GdtfConverter::ConvertDouble(fWaveLength));
+	pNode->SetNodeAttributeValue(XML_GDTF_MeasurementEnergy,	GdtfConverter::ConvertDouble(fEngergy));
+}
+
+void GdtfMeasurementPoint::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnReadFromNode(pNode);
+	
+	// ------------------------------------------------------------------------------------
+	// Print node attributes
+	TXString waveLength;	pNode->GetNodeAttributeValue(XML_GDTF_MeasurementWaveLegth,	waveLength);	GdtfConverter::ConvertDouble(waveLength, pNode, fWaveLength);
+	TXString energy;		pNode->GetNodeAttributeValue(XML_GDTF_MeasurementEnergy,	energy);		GdtfConverter::ConvertDouble(energy, pNode, fEngergy);
+}
+
+void GdtfMeasurementPoint::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_MeasurementWaveLegth);
+	needed.push_back(XML_GDTF_MeasurementEnergy);
+
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfMeasurementPoint::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfMeasurementPoint;
+}
+
+TXString GdtfMeasurementPoint::GetNodeName()
+{
+	return XML_GDTF_MeasurementPointNode;
+}
+
+double GdtfMeasurementPoint::GetWavelength()
+{
+	return fWaveLength;
+}
+
+double GdtfMeasurementPoint::GetEnergy()
+{
+	return fEngergy;
+}
+
+//------------------------------------------------------------------------------------
+// GdtfFixture
+TGdtfParsingErrorArray* GdtfFixture::__ERROR_CONTAINER_POINTER = nullptr;
+
+void GdtfFixture::ImportFromFile(IFileIdentifierPtr inZipFile, const TXString& folder)
+{
+	PrepareWorkingFolder(folder);
+	
+	IZIPFilePtr zipfile ( IID_ZIPFile );
+	zipfile->OpenRead(inZipFile);
+
+	ImportFromZip(zipfile);
+}
+
+void GdtfFixture::ImportFromBuffer(const char*buffer, size_t length, const TXString& folder)
+{
+	PrepareWorkingFolder(folder);
+	
+	IZIPFilePtr zipfile ( IID_ZIPFile );
+	zipfile->OpenRead(buffer, length);
+
+	ImportFromZip(zipfile);
+}
+
+void GdtfFixture::PrepareWorkingFolder(TXString folderName)
+{
+	//-------------------------------------------------------------------------------------------------
+	// Working Directory
+	if(folderName.IsEmpty()){ folderName = "GdtfGroup"; }
+
+	fWorkingFolder = (IID_FolderIdentifier);
+
+	IFolderIdentifierPtr folder ( IID_FolderIdentifier );
+	folder->Set( EFolderSpecifier::kSpotlightFolder, true, "GDTFs" );
+	folder->CreateOnDisk();
+
+	fWorkingFolder->Set(folder, folderName );
+
+	
+	//---------------------------------------------------------------------------------------------
+	// Always start with a empty folder
+	bool exists = false;
+	fWorkingFolder->ExistsOnDisk(exists);
+	if (exists) { fWorkingFolder->DeleteOnDisk(); }
+	
+	// Create new Folder
+	fWorkingFolder->CreateOnDisk();
+	
+	//---------------------------------------------------------------------------------------------
+	// check if this was good
+	fWorkingFolder->ExistsOnDisk(exists);
+	ASSERTN(kEveryone, exists == true);
+}
+
+bool GdtfFixture::ImportFromZip(IZIPFilePtr& zipfile)
+{
+	ASSERTN(kEveryone, __ERROR_CONTAINER_POINTER == nullptr);
+	__ERROR_CONTAINER_POINTER = & this->fErrorContainer; 
+
+	ISceneDataZipBuffer xmlFileBuffer;
+		
+	//-------------------------------------------------------------------------------------------------
+	// Decompress the files
+	std::string fileName				= "";
+	std::string inPath					= "";
+	while (VCOM_SUCCEEDED( zipfile->GetNextFile(inPath, fileName)))
+	{
+		// This is the current file that we are reading
+		ISceneDataZipBuffer buffer;
+		if(VCOM_SUCCEEDED(zipfile->GetFile(fileName, &buffer)))
+		{
+			if (fileName == "description.xml")
+			{
+				// Read the data
+				size_t	size = 0;							buffer.GetDataSize(size);
+				void*	data = malloc(size * sizeof(char));	buffer.CopyDataInto(data, size);
+				
+				// Set the buffer object
+				xmlFileBuffer.SetData(data, size);
+				
+				// House keeping
+				std::free(data);
+			}
+			else if (SystemUtil::IsPathInsideOfFolder(fileName))
+			{
+				//-----------------------------------------------------------------------------
+				// Prepare pointer to the new files            
+				
+				// Separate filename und folder
+				TXString fileNameWithoutFolder = TXString(fileName).Replace("/", TXString(kSeperator) );	
+	#ifndef _WINDOWS
+				fileNameWithoutFolder          = TXString(fileName).Replace("\\", TXString(kSeperator) ); // It seems some zips come also with this.
+	#endif
+				TXString subFolder 			   = SystemUtil::ExtractFolderFromPath(fileNameWithoutFolder);        
+				
+				// flatten the folder structure
+				subFolder = subFolder.Replace(TXString(kSeperator), "");
+				subFolder = TXString(kSeperator) + subFolder;
+
+				// write the data into the filebuffer map.
+				size_t	size = 0;							buffer.GetDataSize(size);
+				void*	data = malloc(size * sizeof(char));	buffer.CopyDataInto(data, size); //data is deleted in the GdtfFixture destructor.
+				std::pair<char*, size_t> bufferPair = std::make_pair((char*)data, size);
+				std::string bufferName = fileName; // files in different folders may have the same name
+				std::replace(bufferName.begin(), bufferName.end(), '\\', '/');
+				std::free(fFileBuffers[bufferName].first);
+				fFileBuffers[bufferName] = bufferPair;
+
+				//-----------------------------------------------------------------------------
+				IFolderIdentifierPtr targetFolder (IID_FolderIdentifier);
+				targetFolder->Set(fWorkingFolder, subFolder);
+				
+				bool exists = false;
+				targetFolder->ExistsOnDisk(exists);
+				if( ! exists )	{ targetFolder->CreateOnDisk(); }
+				
+				
+				IFileIdentifierPtr file (IID_FileIdentifier);
+				file->Set(targetFolder, fileNameWithoutFolder);
+				
+				// dump buffer into file
+				buffer.WriteToFile(file);
+				
+				// Add it into the file list
+				fLocalFiles.push_back(file);
+
+				TXString fullPathRessource;
+				file->GetFileFullPath(fullPathRessource);
+				fLocalFilesFullPath.push_back(fullPathRessource);
+
+
+			}
+		}
+		
+		inPath = fileName;
+	}
+	
+	zipfile->Close();
+	
+	//-------------------------------------------------------------------------------------------------
+	// Decompress the files
+	fReaded = xmlFileBuffer.IsSet();
+	if ( ! fReaded)
+	{
+		GdtfParsingError error (GdtfDefines::EGdtfParsingError::eFixtureNoGdtfFileInXmlBuffer);
+		SceneData::GdtfFixture::AddError(error);
+		fReaded = false;
+	}
+	else
+	{
+		IXMLFilePtr xmlFile (IID_XMLFile);
+
+		size_t	size = 0;								xmlFileBuffer.GetDataSize(size);
+		void*	data = malloc(size * sizeof(char));		xmlFileBuffer.CopyDataInto(data, size);
+		
+		// Set the data
+		IXMLFileIOBufferImpl xmlBuffer;
+		xmlBuffer.SetData(data, size);
+		
+		// Housekeeping
+		std::free(data);
+		
+		if (VCOM_SUCCEEDED(xmlFile->ReadBuffer( &xmlBuffer, EXMLEncoding::eXMLEncoding_UTF8)))
+		{
+			IXMLFileNodePtr rootNode;
+			if (VCOM_SUCCEEDED(xmlFile->GetRootNode( & rootNode)))
+			{
+				TXString version;
+				rootNode->GetNodeAttributeValue( XML_GDTF_ROOTNODEATTRVERSION, version );
+				
+				int majorVersion = 0;
+				int minorVersion = 0;
+				size_t dotPos = version.Find(".");
+				if (dotPos != std::string::npos) {
+					TXString majorStr = version.Mid(0, dotPos);
+					TXString minorStr = version.Mid(dotPos + 1);
+					try {
+						majorVersion = std::stoi(majorStr.GetStdWString());
+						minorVersion = std::stoi(minorStr.GetStdWString());
+					} catch (...) {
+						majorVersion = 0;
+						minorVersion = 0;
+					}
+				}
+
+				this->SetMajorVersion( majorVersion );
+				this->SetMinorVersion( minorVersion );
+
+				IXMLFileNodePtr fixtureNode;
+				if (VCOM_SUCCEEDED(rootNode->GetChildNode(XML_GDTF_FixtureNodeName, &fixtureNode)))
+				{
+					//---------------------------------------------------------------------------------------------
+					// Read Stuff
+					this->GetFileNodesCount( fixtureNode );
+					this->ReadFromNode(fixtureNode);
+					this->ResolveAllReferences();		
+				}
+			}
+		}
+	}
+
+	__ERROR_CONTAINER_POINTER = nullptr;
+
+	return true;
+}
+
+void GdtfFixture::GetFileNodesCount(const IXMLFileNodePtr& rootNode)
+{
+	IXMLFileNodePtr node;
+	rootNode->GetFirstChildNode( &node );
+
+	while ( node != nullptr )
+	{
+		fTotalNodesCount++;
+		if ( VCOM_FAILED(( node->GetNextSiblingNode( &node ))))
+		{
+			node = nullptr;
+		}
+	}
+
+	fTotalNodesCount--;
+}
+
+/*static*/ void	GdtfFixture::AddError(const GdtfParsingError& error)
+{
+	
+	if(__ERROR_CONTAINER_POINTER)
+	{
+		__ERROR_CONTAINER_POINTER->push_back(error);
+	}
+}
+
+TGdtfParsingErrorArray& GdtfFixture::GetParsingErrorArray()
+{
+	return fErrorContainer;
+}
+
+void GdtfFixture::AutoGenerateNames(GdtfDmxModePtr dmxMode)
+{
+		for (GdtfDmxChannelPtr dmxChannel : dmxMode->GetChannelArray())
+		{
+			if ( CheckAbort() ) return;
+			//------------------------------------------------------------------------------------------------
+			//  Create Names for DMX Channel
+			ASSERTN(kEveryone, dmxChannel->GetGeomRef() != nullptr);
+			if (dmxChannel->GetGeomRef() == nullptr){ /* Error comes later*/ continue; }
+			
+			GdtfAttributePtr 	firstAttr = nullptr;
+			
+			for (GdtfDmxLogicalChannelPtr logicalChannel : dmxChannel->GetLogicalChannelArray())
+			{
+				if(CheckAbort()) { return; }
+				//------------------------------------------------------------------------------------------------
+				//  Create Names for Logical Channels
+				if ( logicalChannel->GetAttribute() != nullptr )
+				{
+					logicalChannel->SetName(logicalChannel->GetAttribute()->GetName());
+				}
+				else
+				{
+					IXMLFileNodePtr node;
+					logicalChannel->GetNode(node);
+					GdtfParsingError error (GdtfDefines::EGdtfParsingError::eFixtureLogicalChannelMissingAttribute, node);
+					SceneData::GdtfFixture::AddError(error);
+					ASSERTN(kEveryone, logicalChannel->GetAttribute() != nullptr);
+					continue;
+				}
+				
+				// Set first Attribute
+				if (firstAttr == nullptr) { firstAttr = logicalChannel->GetAttribute(); }
+				
+				//------------------------------------------------------------------------------------------------
+				//  Create Names for Channel Functions
+				Sint64 channelFunctionNumber = 1;
+				for (GdtfDmxChannelFunctionPtr function : logicalChannel->GetDmxChannelFunctions())
+				{
+					if(CheckAbort()) { return; }
+					//
+					if (function->GetName().IsEmpty())
+					{
+						ASSERTN(kEveryone, function->GetAttribute() != nullptr);
+						if (function->GetAttribute() == nullptr)
+						{
+							IXMLFileNodePtr node;
+							function->GetNode(node);
+							GdtfParsingError error (GdtfDefines::EGdtfParsingError::eFixtureChannelFunctionMissingAttribute, node);
+							SceneData::GdtfFixture::AddError(error);
+							continue;
+						}
+						TXString functionName; 
+						functionName += function->GetAttribute()->GetName();
+						functionName += " ";
+						functionName += TXString().itoa(channelFunctionNumber);
+						
+						function->SetName(functionName);
+					}
+					
+					channelFunctionNumber++;
+				}
+			}
+			
+			//------------------------------------------------------------------------------------------------
+			//  Set the DMX Name
+			ASSERTN(kEveryone, firstAttr != nullptr);
+			ASSERTN(kEveryone, dmxChannel->GetGeomRef() != nullptr);
+			if(firstAttr) { dmxChannel->SetName(dmxChannel->GetGeomRef()->GetName() + "_" + firstAttr->GetName()); }
+			
+		}
+}
+
+GdtfAttributePtr GdtfFixture::getAttributeByRef(const TXString& ref)
+{	
+	if(ref == XML_GDTF_AttributeNoFeature_nullptr)							   
+	{
+		if(fNoFeature == nullptr)
+		{
+			CreateNoFeatureAttribute();
+		} 
+		return fNoFeature; 
+	}
+
+	if (fUseIndexes)
+	{
+		auto it = fAttributeIndex.find(ref);
+		if (it != fAttributeIndex.end()) { return it->second; }
+	}
+	else
+	{
+		for (GdtfAttributePtr attr : fAttributes)
+		{
+			if (attr->GetNodeReference() == ref) { return attr; }
+		}
+	}
+
+	if(ref.IsEmpty())
+	{
+		if(fNoFeature == nullptr)
+		{
+			CreateNoFeatureAttribute();
+		} 
+		return fNoFeature; 
+	}
+
+	// When this line is reached nothing was found.
+	DSTOP ((kEveryone, "Failed to resolve GdtfAttributePtr."));
+	return nullptr;
+}
+
+void GdtfFixture::CreateNoFeatureAttribute()
+{
+	//------------------------------------------------------------
+	// Create Attribute
+	ASSERTN(kEveryone, fNoFeature == nullptr);
+	fNoFeature = new GdtfAttribute("NoFeature", "NoFeature");
+	fAttributes.push_back(fNoFeature);
+
+	//------------------------------------------------------------
+	// Create Feature Group
+	GdtfFeatureGroupPtr controlFeatureGroup = nullptr;
+	for (GdtfFeatureGroupPtr featGrp : fFeatureGroups)
+	{	
+		if(featGrp->GetName() == "Control")
+		{
+			controlFeatureGroup = featGrp;
+			break;
+		}
+	}
+
+	if(controlFeatureGroup == nullptr)
+	{
+		controlFeatureGroup = new GdtfFeatureGroup("Control", "Control");
+		fFeatureGroups.push_back(controlFeatureGroup);
+	}
+	ASSERTN(kEveryone, controlFeatureGroup != nullptr)
+
+	//------------------------------------------------------------
+	// Create Feature
+	GdtfFeaturePtr linkedFeature = nullptr;
+	for (GdtfFeaturePtr feature : controlFeatureGroup->GetFeatureArray())
+	{	
+		if(feature->GetName() == "Control")
+		{
+			linkedFeature = feature;
+			break;
+		}
+	}
+
+	if(linkedFeature == nullptr)
+	{
+		linkedFeature = controlFeatureGroup->AddFeature("Control");
+	}
+
+	fNoFeature->SetFeature(linkedFeature);
+
+}
+
+GdtfWheelPtr GdtfFixture::getWheelByRef(const TXString& ref)
+{
+	if (fUseIndexes)
+	{
+		auto it = fWheelIndex.find(ref);
+		if (it != fWheelIndex.end()) { return it->second; }
+	}
+	else
+	{
+		for (GdtfWheelPtr whl : fWheels)
+		{
+			if (whl->GetNodeReference() == ref) { return whl; }
+		}
+	}
+	
+	// When this line is reached nothing was found.
+	DSTOP ((kEveryone, "Failed to resolve GdtfWheelPtr."));
+	return nullptr;
+}
+
+GdtfPhysicalEmitterPtr GdtfFixture::getEmiterByRef(const TXString& ref)
+{
+	if (fUseIndexes)
+	{
+		auto it = fEmitterIndex.find(ref);
+		if (it != fEmitterIndex.end()) { return it->second; }
+	}
+	else
+	{
+		for (GdtfPhysicalEmitterPtr emt : fPhysicalDesciptions.GetPhysicalEmitterArray())
+		{
+			if (emt->GetNodeReference() == ref) { return emt; }
+		}
+	}
+
+	// When this line is reached nothing was found.
+	DSTOP ((kEveryone, "Failed to resolve GdtfPhysicalEmitterPtr."));
+	return nullptr;
+}
+
+GdtfFilterPtr GdtfFixture::getFilterByRef(const TXString& ref) 
+{
+	if (fUseIndexes)
+	{
+		auto it = fFilterIndex.find(ref);
+		if (it != fFilterIndex.end()) { return it->second; }
+	}
+	else
+	{
+		for (GdtfFilterPtr fltr : fPhysicalDesciptions.GetFilterArray())
+		{
+			if (fltr->GetNodeReference() == ref) { return fltr; }
+		}
+	}
+
+	// When this line is reached nothing was found.
+	DSTOP ((kEveryone, "Failed to resolve GdtfFilter."));
+	return nullptr;
+}
+
+GdtfConnectorPtr GdtfFixture::getConnectorByRef(const TXString& ref) 
+{
+	if (fUseIndexes)
+	{
+		auto it = fConnectorIndex.find(ref);
+		if (it != fConnectorIndex.end()) { return it->second; }
+	}
+	else
+	{
+		for (GdtfConnectorPtr connector : fPhysicalDesciptions.GetConnectorArray())
+		{
+			if (connector->GetNodeReference() == ref) { return connector; }
+		}
+	}
+
+	// When this line is reached nothing was found.
+	DSTOP ((kEveryone, "Failed to resolve GdtfConnectorPtr."));
+	return nullptr;
+}
+
+GdtfColorSpacePtr GdtfFixture::getColorSpaceByRef(const TXString& ref)
+{
+	if (fUseIndexes)
+	{
+		auto it = fColorSpaceIndex.find(ref);
+		if (it != fColorSpaceIndex.end()) { return it->second; }
+	}
+	else
+	{
+		for (GdtfColorSpacePtr colorSpace : fPhysicalDesciptions.GetAdditionalColorSpaceArray())
+		{
+			if (colorSpace->GetNodeReference() == ref) { return colorSpace; }
+		}
+	}
+
+	// If this line is reached, nothing was found.
+	DSTOP ((kEveryone, "Failed to resolve GdtfColorSpace."));
+	return nullptr;
+}
+
+GdtfGamutPtr GdtfFixture::getGamutByRef(const TXString& ref)
+{
+	if (fUseIndexes)
+	{
+		auto it = fGamutIndex.find(ref);
+		if (it != fGamutIndex.end()) { return it->second; }
+	}
+	else
+	{
+		for (GdtfGamutPtr gamut : fPhysicalDesciptions.GetGamutArray())
+		{
+			if (gamut->GetNodeReference() == ref) { return gamut; }
+		}
+	}
+
+	// If this line is reached, nothing was found.
+	DSTOP ((kEveryone, "Failed to resolve GdtfGamut."));
+	return nullptr;
+}
+
+GdtfDMXProfilePtr GdtfFixture::getDMXProfileByRef(const TXString& ref)
+{
+	if (fUseIndexes)
+	{
+		auto it = fDMXProfileIndex.find(ref);
+		if (it != fDMXProfileIndex.end()) { return it->second; }
+	}
+	else
+	{
+		for (GdtfDMXProfilePtr dmxProfile : fPhysicalDesciptions.GetDmxProfileArray())
+		{
+			if (dmxProfile->GetNodeReference() == ref) { return dmxProfile; }
+		}
+	}
+
+	// If this line is reached, nothing was found.
+	DSTOP ((kEveryone, "Failed to resolve GdtfDMXProfile."));
+	return nullptr;
+}
+
+GdtfSubPhysicalUnitPtr GdtfFixture::getSubPhysicalUnitByRef(const TXString& ref)
+{
+	if (fUseIndexes)
+	{
+		auto it = fSubPhysicalUnitIndex.find(ref);
+		if (it != fSubPhysicalUnitIndex.end()) { return it->second; }
+	}
+	else
+	{
+		for (GdtfAttributePtr attr : fAttributes)
+		{
+			for (GdtfSubPhysicalUnitPtr subPhysicalUnit : attr->GetSubPhysicalUnitArray())
+			{
+				if (subPhysicalUnit->GetNodeReference() == ref) { return subPhysicalUnit; }
+			}
+		}
+	}
+
+	// If this line is reached, nothing was found.
+	DSTOP ((kEveryone, "Failed to resolve GdtfSubPhysicalUnit."));
+	return nullptr;
+}
+
+GdtfDmxChannelFunctionPtr GdtfFixture::getDmxFunctionByRef(const TXString& ref, GdtfDmxModePtr mode)
+{
+	return mode->GetFunctionByIndex(ref);
+}
+
+GdtfDmxChannelPtr GdtfFixture::getDmxChannelByRef(const TXString& ref, GdtfDmxModePtr mode)
+{
+	return mode->GetChannelByIndex(ref);
+}
+
+void GdtfFixture::BuildLookupIndexes()
+{
+	// Eagerly detect the NoFeature attribute (needed regardless of indexing)
+	if (fNoFeature == nullptr)
+	{
+		for (GdtfAttributePtr attr : fAttributes)
+		{
+			if (attr->GetNodeReference() == XML_GDTF_AttributeNoFeature_nullptr)
+			{
+				fNoFeature = attr;
+				break;
+			}
+		}
+	}
+
+	// Count total elements to decide if indexing is worthwhile
+	size_t totalElements = fAttributes.size() + fWheels.size() + fModels.size()
+		+ fPhysicalDesciptions.GetPhysicalEmitterArray().size()
+		+ fPhysicalDesciptions.GetFilterArray().size()
+		+ fPhysicalDesciptions.GetConnectorArray().size()
+		+ fPhysicalDesciptions.GetAdditionalColorSpaceArray().size()
+		+ fPhysicalDesciptions.GetGamutArray().size()
+		+ fPhysicalDesciptions.GetDmxProfileArray().size()
+		+ fGeometries.size();
+
+	static constexpr size_t kIndexThreshold = 128;
+	if (totalElements < kIndexThreshold)
+	{
+		fUseIndexes = false;
+		return;
+	}
+	fUseIndexes = true;
+
+	// Attributes
+	fAttributeIndex.clear();
+	fAttributeIndex.reserve(fAttributes.size());
+	for (GdtfAttributePtr attr : fAttributes)
+	{
+		fAttributeIndex.emplace(attr->GetNodeReference(), attr);
+	}
+
+	// Wheels
+	fWheelIndex.clear();
+	fWheelIndex.reserve(fWheels.size());
+	for (GdtfWheelPtr whl : fWheels)
+	{
+		fWheelIndex.emplace(whl->GetNodeReference(), whl);
+	}
+
+	// Models
+	fModelIndex.clear();
+	fModelIndex.reserve(fModels.size());
+	for (GdtfModelPtr mdl : fModels)
+	{
+		fModelIndex.emplace(mdl->GetNodeReference(), mdl);
+	}
+
+	// Emitters
+	fEmitterIndex.clear();
+	for (GdtfPhysicalEmitterPtr emt : fPhysicalDesciptions.GetPhysicalEmitterArray())
+	{
+		fEmitterIndex.emplace(emt->GetNodeReference(), emt);
+	}
+
+	// Filters
+	fFilterIndex.clear();
+	for (GdtfFilterPtr fltr : fPhysicalDesciptions.GetFilterArray())
+	{
+		fFilterIndex.emplace(fltr->GetNodeReference(), fltr);
+	}
+
+	// Connectors
+	fConnectorIndex.clear();
+	for (GdtfConnectorPtr connector : fPhysicalDesciptions.GetConnectorArray())
+	{
+		fConnectorIndex.emplace(connector->GetNodeReference(), connector);
+	}
+
+	// Color Spaces
+	fColorSpaceIndex.clear();
+	for (GdtfColorSpacePtr cs : fPhysicalDesciptions.GetAdditionalColorSpaceArray())
+	{
+		fColorSpaceIndex.emplace(cs->GetNodeReference(), cs);
+	}
+
+	// Gamuts
+	fGamutIndex.clear();
+	for (GdtfGamutPtr gamut : fPhysicalDesciptions.GetGamutArray())
+	{
+		fGamutIndex.emplace(gamut->GetNodeReference(), gamut);
+	}
+
+	// DMX 
+	fDMXProfileIndex.clear();
+	for (GdtfDMXProfilePtr dp : fPhysicalDesciptions.GetDmxProfileArray())
+	{
+		fDMXProfileIndex.emplace(dp->GetNodeReference(), dp);
+	}
+
+	// Sub Physical Units (nested: attributes -> sub-units)
+	fSubPhysicalUnitIndex.clear();
+	for (GdtfAttributePtr attr : fAttributes)
+	{
+		for (GdtfSubPhysicalUnitPtr spu : attr->GetSubPhysicalUnitArray())
+		{
+			fSubPhysicalUnitIndex.emplace(spu->GetNodeReference(), spu);
+		}
+	}
+
+	// Geometry tree (flattened recursively)
+	fGeometryIndex.clear();
+	IndexGeometryTree(fGeometries);
+}
+
+void GdtfFixture::IndexGeometryTree(const TGdtfGeometryArray& geometries)
+{
+	for (GdtfGeometryPtr geom : geometries)
+	{
+		fGeometryIndex.emplace(geom->GetNodeReference(), geom);
+		IndexGeometryTree(geom->GetInternalGeometries());
+	}
+}
+
+void GdtfFixture::ResolveAllReferences()
+{
+	BuildLookupIndexes();
+	ResolveGeometryRefs();
+	ResolveDmxModeRefs();	
+	ResolveDMXModeMasters();
+    ResolveDMXPersonalityRefs();
+	ResolveAttribRefs();
+	ResolveWheelSlots();
+	CheckForMissingModeMasters();
+}
+
+void GdtfFixture::ResolveGeometryRefs()
+{	
+	// Geometry.Model
+	for (GdtfGeometryPtr geometry : fGeometries)
+	{
+		if(CheckAbort()) { return; }
+		ResolveGeometryRefs_Recursive(geometry);
+	}
+}
+
+void GdtfFixture::ResolveGeometryRefs_Recursive(GdtfGeometryPtr geometry)
+{
+	// ----------------------------------------------------------------------------
+	// Resolve Model Refs
+	TXString		unresolvedModelRef	= geometry->GetUnresolvedModelRef();
+	if( ! unresolvedModelRef.IsEmpty())
+	{
+		GdtfModelPtr	linkedModel			= nullptr;
+		
+		if (fUseIndexes)
+		{
+			auto it = fModelIndex.find(unresolvedModelRef);
+			if (it != fModelIndex.end()) { linkedModel = it->second; }
+		}
+		else
+		{
+			for (GdtfModelPtr modelRef: fModels)
+			{
+				if (modelRef->GetNodeReference() == unresolvedModelRef) { linkedModel = modelRef; break; }
+			}
+		}
+		
+		ASSERTN(kEveryone, linkedModel != nullptr);
+		if (linkedModel)	{ geometry->SetUnresolvedModelRef( linkedModel ); }
+		else
+		{
+			IXMLFileNodePtr node;
+			geometry->GetNode(node);
+			GdtfParsingError error (GdtfDefines::EGdtfParsingError::eGeometryUnresolvedModel, node);
+			SceneData::GdtfFixture::AddError(error);
+		}
+	}
+
+	// ----------------------------------------------------------------------------
+	// Resolve Geo Refs
+	if(geometry->GetObjectType() == eGdtfGeometryReference)
+	{
+		GdtfGeometryReferencePtr geoRef = static_cast<GdtfGeometryReferencePtr>(geometry);
+		ASSERTN(kEveryone, geoRef != nullptr);
+		if(geoRef)
+		{
+			GdtfGeometryPtr geo = this->ResolveGeometryRef(geoRef->GetUnresolvedLinkedGeometry(), fGeometries);
+			ASSERTN(kEveryone, geo != nullptr);
+			if (geo == nullptr)
+			{
+				IXMLFileNodePtr node;
+				geoRef->GetNode(node);
+				GdtfParsingError error (GdtfDefines::EGdtfParsingError::eGeometryReferenceUnresolvedLink, node);
+				SceneData::GdtfFixture::AddError(error);
+			}
+
+			geoRef->SetLinkedGeometry(geo);
+		}
+		else
+		{
+			IXMLFileNodePtr node;
+			geometry->GetNode(node);
+			GdtfParsingError error (GdtfDefines::EGdtfParsingError::eGeometryReferenceUnresolvedLink, node);
+			SceneData::GdtfFixture::AddError(error);
+		}
+	}
+	else if (geometry->GetObjectType() == eGdtfGeometryLamp)
+	{
+		GdtfGeometryLampePtr geoLamp = static_cast<GdtfGeometryLampePtr>(geometry);
+
+		TXString unresolvedEmitterRef = geoLamp->GetUnresolvedEmitterRef();
+		if ( ! unresolvedEmitterRef.IsEmpty())
+		{
+			GdtfPhysicalEmitterPtr emitterPtr = getEmiterByRef(unresolvedEmitterRef);
+			geoLamp->SetEmitterSpectrum(emitterPtr);
+
+		}
+	}
+	else if (geometry->GetObjectType() == eGdtfGeometryLaser)
+	{
+		GdtfGeometryLaserPtr geoLaser = static_cast<GdtfGeometryLaserPtr>(geometry);
+		ASSERTN(kEveryone, geoLaser != nullptr);
+		if(geoLaser)
+		{
+			TXString unresolvedEmitterRef = geoLaser->GetUnresolvedEmitter();
+			if ( ! unresolvedEmitterRef.IsEmpty())
+			{
+				GdtfPhysicalEmitterPtr emitterPtr = getEmiterByRef(unresolvedEmitterRef);
+				geoLaser->SetEmitter(emitterPtr);
+			}
+		}
+	}
+	else if (geometry->GetObjectType() == eGdtfGeometryWiringObject)
+	{
+		GdtfGeometryWiringObjectPtr geoWiringObject = static_cast<GdtfGeometryWiringObjectPtr>(geometry);
+		ASSERTN(kEveryone, geoWiringObject != nullptr);
+		if(geoWiringObject)
+		{
+			for(GdtfPinPatchPtr pinPatch : geoWiringObject->GetPinPatchArray())
+			{
+				TXString unresolvedWiringObject = pinPatch->GetUnresolvedWiringObject();
+				if ( ! unresolvedWiringObject.IsEmpty())
+				{
+					GdtfGeometryPtr wiringObjectGeo = ResolveGeometryRef(unresolvedWiringObject, fGeometries);
+					GdtfGeometryWiringObjectPtr toWiringObject = static_cast<GdtfGeometryWiringObjectPtr>(wiringObjectGeo);
+					pinPatch->SetToWiringObject(toWiringObject);
+				}
+			}
+		}
+	}
+	else if (geometry->GetObjectType() == eGdtfGeometryStructure)
+	{
+		GdtfGeometryStructurePtr geoStructure = static_cast<GdtfGeometryStructurePtr>(geometry);
+		ASSERTN(kEveryone, geoStructure != nullptr);
+		if(geoStructure)
+		{
+			TXString unresolvedLinkedGeometry = geoStructure->GetUnresolvedLinkedGeometry();
+			if ( ! unresolvedLinkedGeometry.IsEmpty())
+			{
+				GdtfGeometryPtr linkedGeometry = ResolveGeometryRef(unresolvedLinkedGeometry, fGeometries);
+				geoStructure->SetLinkedGeometry(linkedGeometry);
+			}
+		}
+	}
+
+	
+	
+	// Now traverse child geometry
+	for (GdtfGeometryPtr internalGeometry : geometry->GetInternalGeometries())
+	{
+		if(CheckAbort()) { return; }
+		ResolveGeometryRefs_Recursive(internalGeometry);
+	}
+}
+
+void GdtfFixture::ResolveWheelSlots()
+{
+	for(GdtfWheelPtr wheel : fWheels)
+	{
+		if(CheckAbort()) { return; }
+		for(GdtfWheelSlotPtr slot :  wheel->GetWheelSlotArray())
+		{
+			if(CheckAbort()) { return; }
+			TXString ref = slot->GetUnresolvedFilter();
+			if( ! ref.IsEmpty())
+			{
+				GdtfFilterPtr filter = getFilterByRef(ref);
+				slot->SetFilter(filter);
+			}
+		}
+	}
+}
+
+void GdtfFixture::ResolveAttribRefs()
+{
+	// Resolving a main attribute may append the NoFeature attribute to the array
+	const size_t attributeCount = fAttributes.size();
+	for (size_t attributeIndex = 0; attributeIndex < attributeCount; attributeIndex++)
+	{
+		GdtfAttributePtr attr = fAttributes[attributeIndex];
+		if (CheckAbort()) { return; }
+		// ------------------------------------------------------------------------------------------
+		// Attributes.ActivationGroup
+		TXString attrRef = attr->GetUnresolvedActGroup();
+		if( ! attrRef.IsEmpty())
+		{
+			GdtfActivationGroupPtr actGrpPtr = nullptr;
+			for (GdtfActivationGroupPtr actGroup : fActivationGroups)
+			{
+				if (attrRef == actGroup->GetNodeReference() )	{ actGrpPtr = actGroup; break; }
+			}
+			
+			ASSERTN(kEveryone, actGrpPtr != nullptr);
+			if (actGrpPtr)	{ attr->SetActivationGroup (actGrpPtr); }
+			else
+			{
+				IXMLFileNodePtr node;
+				attr->GetNode(node);
+				GdtfParsingError error (GdtfDefines::EGdtfParsingError::eAttributeUnresolvedActivationGroup, node);
+				SceneData::GdtfFixture::AddError(error);
+			}
+		}
+		
+		// ------------------------------------------------------------------------------------------
+		// Attributes.Feature
+		GdtfFeaturePtr featPtr = nullptr;
+		TXString unresolvedFeat = attr->GetUnresolvedFeature();
+		if( ! unresolvedFeat.IsEmpty())
+		{
+			for (GdtfFeatureGroupPtr featGrp : fFeatureGroups)
+			{	
+				if(CheckAbort()) { return; }
+				for (GdtfFeaturePtr feat : featGrp->GetFeatureArray() )
+				{				
+					if (unresolvedFeat == feat->GetNodeReference() ) { featPtr = feat; break; }
+				}
+			}
+			ASSERTN(kEveryone, featPtr != nullptr);
+			if (featPtr != nullptr)	{ attr->SetFeature (featPtr); }
+			else
+			{
+				IXMLFileNodePtr node;
+				attr->GetNode(node);
+				GdtfParsingError error (GdtfDefines::EGdtfParsingError::eAttributeUnresolvedFeature, node);
+				SceneData::GdtfFixture::AddError(error);
+			}
+		}
+		
+		// ------------------------------------------------------------------------------------------
+		// Main Attribute
+		TXString mainAttributeRef = attr->GetUnresolvedMainAttribute();
+		if ( ! mainAttributeRef.IsEmpty())
+		{
+			GdtfAttributePtr mainAttribute = getAttributeByRef(mainAttributeRef);
+			
+			ASSERTN(kEveryone, mainAttribute != nullptr);
+			if (mainAttribute != nullptr)	{ attr->SetMainAttribute(mainAttribute); }
+			else
+			{
+				IXMLFileNodePtr node;
+				attr->GetNode(node);		
+				GdtfParsingError error (GdtfDefines::EGdtfParsingError::eAttributeUnresolvedMainAttribute, node);
+				SceneData::GdtfFixture::AddError(error);
+			}
+		}
+	}
+}
+
+void GdtfFixture::ResolveMacroRefs(GdtfDmxModePtr dmxMode)
+{
+	for (GdtfMacroPtr macro : dmxMode->GetDmxMacrosArray())
+	{
+		if (CheckAbort()) { return; }
+		TXString unresolvedChannelFunction = macro->GetUnresolvedChannelFunction();
+		if ( ! unresolvedChannelFunction.IsEmpty())
+		{
+			GdtfDmxChannelFunctionPtr channelFunctionPtr = getDmxFunctionByRef(unresolvedChannelFunction, dmxMode);
+			macro->SetChannelFunction(channelFunctionPtr);
+		}
+
+		if(macro->GetMacroDMX())
+		{
+			for (GdtfMacroDMXStepPtr step : macro->GetMacroDMX()->GetStepArray())
+			{
+				if (CheckAbort()) { return; }
+				for(GdtfMacroDMXValuePtr value : step->GetDMXValueArray())
+				{
+					if (CheckAbort()) { return; }
+					IXMLFileNodePtr node;
+					value->GetNode(node);
+
+					{
+						GdtfDmxChannelPtr ch = dmxMode->GetChannelByIndex(value->GetUnresolvedDMXChannel());
+						if (ch) { value->SetDMXChannel(ch); }
+					}
+
+					if(value->GetDMXChannel())
+					{
+						
+						DmxValue dmxVal = 0;						
+						GdtfConverter::ConvertDMXValue(value->GetUnresolvedDMXValue(), node, value->GetDMXChannel()->GetChannelBitResolution(), dmxVal);
+						value->SetValue(dmxVal);
+					}
+					else
+					{
+						GdtfParsingError error (GdtfDefines::EGdtfParsingError::eDmxMacroDmxValueChannelReference, node);
+						SceneData::GdtfFixture::AddError(error);
+					}
+				}
+			}
+		}
+
+		if(macro->GetMacroVisual())
+		{
+			for (GdtfMacroVisualStepPtr step : macro->GetMacroVisual()->GetVisualStepArray())
+			{
+				if (CheckAbort()) { return; }
+				for (GdtfMacroVisualValuePtr value : step->GetVisualValueArray())
+				{
+					if (CheckAbort()) { return; }
+					{
+						GdtfDmxChannelFunctionPtr channelFunction = dmxMode->GetFunctionByIndex(value->GetUnresolvedChannelFunctionRef());
+						if (channelFunction)
+						{
+							value->SetChannelFunction(channelFunction);
+
+							IXMLFileNodePtr node;
+							value->GetNode(node);
+						
+							DmxValue dmxVal = 0;
+							GdtfConverter::ConvertDMXValue(value->GetUnresolvedDMXValue(), node, channelFunction->GetParentDMXChannel()->GetChannelBitResolution(), dmxVal);
+							value->SetDmxValue(dmxVal);
+						}
+					}
+				}
+			}
+		}
+	}
+}
+
+void GdtfFixture::ResolveDmxModeRefs()
+{	
+	for (GdtfDmxModePtr dmxMode : fDmxModes)
+	{
+		if (CheckAbort()) { return; }
+		//---------------------------------------------------------------------------------------
+		// DmxMode.Geometry
+		TXString 		unresolvedgeomRef	= dmxMode->GetUnresolvedGeomRef();
+		GdtfGeometryPtr geomPtr				= nullptr;
+		if( ! unresolvedgeomRef.IsEmpty())
+		{
+			for (GdtfGeometryPtr geo : fGeometries)
+			{
+				if (geo->GetNodeReference() == unresolvedgeomRef) { geomPtr = geo; break; }
+			}
+		}
+
+		// Check if there is a
+		ASSERTN(kEveryone, geomPtr != nullptr);
+		if (geomPtr != nullptr) { dmxMode->SetGeomRef(geomPtr); }
+		else
+		{
+			IXMLFileNodePtr node;
+			dmxMode->GetNode(node);				
+			GdtfParsingError error (GdtfDefines::EGdtfParsingError::eDmxModeUnresolvedGeometry, node);
+			SceneData::GdtfFixture::AddError(error);
+		}
+		
+		// First Link all the stuff for DMX Channels
+		ResolveDmxChannelRefs(dmxMode);
+		dmxMode->BuildModeIndexes();
+		
+		// Afer Geometry is linked to the base geometry, we can generate the names
+        AutoGenerateNames(dmxMode);
+		
+		// Then we have all the information for this
+		ResolveDmxRelationRefs(dmxMode);
+
+		ResolveMacroRefs(dmxMode);
+	}	
+}
+
+void GdtfFixture::ResolveDMXModeMasters()
+{	
+	for (GdtfDmxModePtr mode : fDmxModes)
+	{
+		if (CheckAbort()) { return; }
+
+		for(GdtfDmxChannelPtr channel : mode->GetChannelArray())
+		{
+			if (CheckAbort()) { return; }
+
+			for(GdtfDmxLogicalChannelPtr logicalChannel : channel->GetLogicalChannelArray())
+			{
+				if (CheckAbort()) { return; }
+
+				for(GdtfDmxChannelFunctionPtr function : logicalChannel->GetDmxChannelFunctions())
+				{
+					if (CheckAbort()) { return; }
+					// ----------------------------------------------------------------------------------------
+					// DmxChanelFunction Mode Master Channel (Optional)
+					TXString unresolvedModeMaster = function->getUnresolvedModeMasterRef();
+					if(! unresolvedModeMaster.IsEmpty())
+					{
+						bool 						resolved 	= false;
+						EGdtfChannelBitResolution 	resolution 	= EGdtfChannelBitResolution::eGdtfChannelBitResolution_8;
+
+						GdtfDmxChannelPtr channelPtr = getDmxChannelByRef(unresolvedModeMaster, mode);
+						if(! resolved && channelPtr)
+						{ 
+							function->SetModeMaster_Channel(channelPtr); 
+							resolved = true; 
+							resolution = channelPtr->GetChannelBitResolution(); 
+						}
+
+						if(! resolved)
+						{
+							GdtfDmxChannelFunctionPtr functionPtr = getDmxFunctionByRef(unresolvedModeMaster, mode);
+							if(functionPtr) 
+							{ 
+								function->SetModeMaster_Function(functionPtr);
+								resolved = true; 
+								resolution = functionPtr->GetParentDMXChannel()->GetChannelBitResolution();
+							}
+						}
+						
+						ASSERTN(kEveryone, resolved);
+						if(resolved) { function->ResolveModeMasterDmx(resolution); }
+						else
+						{
+							IXMLFileNodePtr node;
+							channel->GetNode(node);
+							GdtfParsingError error (GdtfDefines::EGdtfParsingError::eDMXModeMastersUnresolved, node);
+							SceneData::GdtfFixture::AddError(error);
+						}
+					}
+				}
+			}
+		}
+	}	
+}
+
+
+GdtfDmxModePtr GdtfFixture::ResolveDMXMode(const TXString& unresolvedDMXmode)
+{
+    for (GdtfDmxModePtr dmxMode : fDmxModes) 
+    {
+        if (dmxMode->GetModeName() == unresolvedDMXmode) 
+        {
+            return dmxMode;
+        }    
+    }
+    
+    return nullptr;
+}
+
+void GdtfFixture::ResolveDMXPersonalityRefs()
+{
+    GdtfFTRDM* rdm =  fProtocollContainer.GetRDM();
+
+    if (rdm)
+    {
+        for (GdtfSoftwareVersionID* softID : rdm->GetSoftwareVersIDs() ) 
+        {
+			if (CheckAbort()) { return; }
+            for (GdtfDMXPersonality* dmxPerso : softID->GetDMXPersonalityArray() ) 
+            {
+				if (CheckAbort()) { return; }
+                GdtfDmxModePtr dmxMode =  ResolveDMXMode(dmxPerso->GetUnresolvedDMXMode()); 
+            
+				ASSERTN(kEveryone, dmxMode != nullptr);
+                if (dmxMode != nullptr) { dmxPerso->SetDMXMode(dmxMode);  }
+				else
+				{
+					IXMLFileNodePtr node;
+					dmxPerso->GetNode(node);
+					GdtfParsingError error (GdtfDefines::EGdtfParsingError::eValueError_UnresolvedRdmPersonalityMode, node);
+					SceneData::GdtfFixture::AddError(error);
+				}
+            }
+        }
+    }
+}
+
+void GdtfFixture::ResolveDmxRelationRefs(GdtfDmxModePtr dmxMode)
+{
+	for (GdtfDmxRelationPtr rel : dmxMode->GetDmxRelations())
+	{	
+		if (CheckAbort()) { return; }
+		// DMXChannel (Master)
+		GdtfDmxChannelPtr			master	= dmxMode->GetMasterByRef(rel->GetUnresolvedMasterRef() );
+		GdtfDmxChannelFunctionPtr	slave	= dmxMode->GetSlaveByRef(rel->GetUnresolvedSlaveRef() );
+		rel->SetMasterChannel(master);
+        rel->SetSlaveChannel(slave);
+
+	}	
+}
+
+void GdtfFixture::ResolveDmxChannelRefs(GdtfDmxModePtr dmxMode)
+{	
+	static constexpr size_t kDuplicateCheckThreshold = 64;
+	std::unordered_set<TXString, TXStringNoCaseHash> seenGeoAttrPairs;
+	std::unordered_set<TXString, TXStringNoCaseHash>* seenPairsPtr = 
+		(dmxMode->GetChannelArray().size() >= kDuplicateCheckThreshold) ? &seenGeoAttrPairs : nullptr;
+	for (GdtfDmxChannelPtr chnl: dmxMode->GetChannelArray() )
+	{
+		if (CheckAbort()) { return; }
+		// ----------------------------------------------------------------------------------------
+		// DmxChannel.Geometry
+		GdtfGeometryPtr geomPtr = nullptr;
+		TXString unresolvedGeoRef	= chnl->GetUnresolvedGeomRef();
+		ASSERTN(kEveryone, ! unresolvedGeoRef.IsEmpty() );
+		if (!unresolvedGeoRef.IsEmpty())
+		{
+			if (fUseIndexes)
+			{
+				auto it = fGeometryIndex.find(unresolvedGeoRef);
+				if (it != fGeometryIndex.end()) { geomPtr = it->second; }
+			}
+			else
+			{
+				for (GdtfGeometryPtr geom : fGeometries)
+				{
+					if (geom->GetNodeReference() == unresolvedGeoRef) { geomPtr = geom; break; }
+					geomPtr = ResolveGeometryRef(unresolvedGeoRef, geom->GetInternalGeometries());
+					if (geomPtr != nullptr) { break; }
+				}
+			}
+			
+			ASSERTN(kEveryone, geomPtr != nullptr);
+			if (geomPtr){ chnl->SetGeomRef (geomPtr); }
+			else
+			{
+				IXMLFileNodePtr node;
+				chnl->GetNode(node);
+				GdtfParsingError error (GdtfDefines::EGdtfParsingError::eFixtureDMXChannelMissingGeometryLink, node);
+				SceneData::GdtfFixture::AddError(error);
+			}
+		}
+		else
+		{
+			IXMLFileNodePtr node;
+			chnl->GetNode(node);
+			GdtfParsingError error (GdtfDefines::EGdtfParsingError::eFixtureDMXChannelMissingGeometryLink, node);
+			SceneData::GdtfFixture::AddError(error);
+		}
+		
+		// ----------------------------------------------------------------------------------------
+		// DmxChannel.LogicalChannelArray
+		ResolveDmxLogicalChanRefs(chnl, seenPairsPtr);
+
+		// ----------------------------------------------------------------------------------------
+		// DmxChannel.InitialFunction
+		GdtfDmxChannelFunctionPtr initialFunctionPtr = nullptr;
+		TXString unresolvedInitialFunction = chnl->GetUnresolvedInitialFunction();
+		if (!unresolvedInitialFunction.IsEmpty())
+		{
+			for (GdtfDmxLogicalChannelPtr logicalChannel : chnl->GetLogicalChannelArray())
+			{
+				if(CheckAbort()) { return; }
+				for (GdtfDmxChannelFunctionPtr channelFunction : logicalChannel->GetDmxChannelFunctions())
+				{
+					if(CheckAbort()) { return; }
+					if (channelFunction->GetNodeReference() == unresolvedInitialFunction) { initialFunctionPtr = channelFunction; break;}
+				}
+				
+				if (initialFunctionPtr != nullptr) { break; }
+			}
+			
+			ASSERTN(kEveryone, initialFunctionPtr != nullptr);
+			if (initialFunctionPtr) { chnl->SetInitialFunction(initialFunctionPtr); }
+			else
+			{
+				IXMLFileNodePtr node;
+				chnl->GetNode(node);
+				GdtfParsingError error (GdtfDefines::EGdtfParsingError::eFixtureDMXChannelUnresolvedChannelFunction, node);
+				SceneData::GdtfFixture::AddError(error);
+			}
+		}
+		else
+		{
+			//If there is no initialfunction defined, we set the first one by default
+			if(chnl->GetLogicalChannelArray().size() > 0 && chnl->GetLogicalChannelArray()[0]->GetDmxChannelFunctions().size() > 0)
+			{
+				chnl->SetInitialFunction(chnl->GetLogicalChannelArray()[0]->GetDmxChannelFunctions()[0]);
+			}
+			else
+			{
+				IXMLFileNodePtr node;
+				chnl->GetNode(node);
+				GdtfParsingError error (GdtfDefines::EGdtfParsingError::eFixtureDMXChannelMissingChannelFunction, node);
+				SceneData::GdtfFixture::AddError(error);
+			}
+			
+		}
+	} 	
+}
+
+GdtfGeometryPtr GdtfFixture::ResolveGeometryRef(const TXString& unresolvedGeoRef, const TGdtfGeometryArray& geometryArray)
+{
+	if (fUseIndexes)
+	{
+		auto it = fGeometryIndex.find(unresolvedGeoRef);
+		if (it != fGeometryIndex.end()) { return it->second; }
+		return nullptr;
+	}
+
+	// Fallback: recursive tree walk
+	GdtfGeometryPtr matched = nullptr;
+	for (GdtfGeometryPtr geom : geometryArray)
+	{
+		if (geom->GetNodeReference() == unresolvedGeoRef) { return geom; }
+		matched = ResolveGeometryRef(unresolvedGeoRef, geom->GetInternalGeometries());
+		if (matched) { return matched; }
+	}
+	return nullptr;
+}
+
+void GdtfFixture::ResolveDmxLogicalChanRefs(GdtfDmxChannelPtr dmxChnl, std::unordered_set<TXString, TXStringNoCaseHash>* seenGeoAttrPairs)
+{		
+	for ( GdtfDmxLogicalChannelPtr logChnl : dmxChnl->GetLogicalChannelArray() )
+	{
+		if(CheckAbort()) { return; }
+		IXMLFileNodePtr node;
+		logChnl->GetNode(node);
+
+		// ----------------------------------------------------------------------------------------
+		// DmxLogicalChannel.Attribute		
+		GdtfAttributePtr attrPtr = getAttributeByRef(logChnl->GetUnresolvedAttribRef());
+				
+		ASSERTN(kEveryone, attrPtr != nullptr);
+		if (attrPtr != nullptr)
+		{
+			//Check for logical channels with the same geometry/attribute combination
+			TXString attributeName = attrPtr->GetName();
+
+			GdtfGeometryPtr geoRef = dmxChnl->GetGeomRef();
+			TXString geometryName;
+			if(geoRef)
+			{
+				// If this doesn't exist, EGdtfParsingError::eFixtureDMXChannelMissingGeometryLink has been raised in the ResolveDmxChannelRefs() function
+				geometryName = geoRef->GetName();
+			}
+
+			// Allow NoFeature and Dummy attributes to be linked multiple times to the same geometry
+			bool isNoFeatureAttribute = (attrPtr == fNoFeature) || (attributeName.EqualNoCase("NoFeature"));
+			bool isDummyAttribute = attributeName.EqualNoCase("Dummy");
+			
+			bool alreadyExists = false;
+			if (!isNoFeatureAttribute && !isDummyAttribute)
+			{
+				if (seenGeoAttrPairs)
+				{
+					TXString pairKey = geometryName + "|" + attributeName;
+					pairKey.MakeLower();
+					alreadyExists = (seenGeoAttrPairs->count(pairKey) > 0);
+					seenGeoAttrPairs->insert(pairKey);
+				}
+				else
+				{
+					GdtfDmxModePtr mode = dmxChnl->GetParentMode();
+					
+					for(GdtfDmxChannelPtr channel : mode->GetChannelArray())
+					{
+						GdtfGeometryPtr currentGeometry = channel->GetGeomRef();
+						if(currentGeometry == nullptr) { break; }
+						TXString currentGeometryName = currentGeometry->GetName();
+						for(GdtfDmxLogicalChannelPtr logicalChannel : channel->GetLogicalChannelArray())
+						{
+							TXString currentAttributeName = "";
+							GdtfAttributePtr currentAttribute = logicalChannel->GetAttribute();
+							if(currentAttribute != nullptr)
+							{
+								currentAttributeName = currentAttribute->GetName();
+							}
+
+							if(geometryName.EqualNoCase(currentGeometryName) && attributeName.EqualNoCase(currentAttributeName))
+							{
+								alreadyExists = true;
+								break;
+							}
+						}
+
+						if(alreadyExists) { break; }
+					}
+				}
+			}
+
+			if(alreadyExists)
+			{
+				GdtfParsingError error (GdtfDefines::EGdtfParsingError::eFixtureLogicalChannelNoUniqueGeometryAttribute, node);
+				SceneData::GdtfFixture::AddError(error);
+			}
+
+			//--------------------------
+			//Set Attribute
+			logChnl->SetAttribute(attrPtr);
+			
+		}
+		else
+		{
+			GdtfParsingError error (GdtfDefines::EGdtfParsingError::eFixtureLogicalChannelMissingAttribute, node);
+			SceneData::GdtfFixture::AddError(error);
+		}
+		
+		
+		// ----------------------------------------------------------------------------------------
+		// DmxChannelFuntionArray
+		ResolveDmxChanelFunctionRefs(logChnl);
+	}
+}
+
+void GdtfFixture::ResolveDmxChanelFunctionRefs(GdtfDmxLogicalChannelPtr dmxLogChnl)
+{
+	for (GdtfDmxChannelFunctionPtr chnlFunc : dmxLogChnl->GetDmxChannelFunctions())
+	{
+		if(CheckAbort()) { return; }
+		// ----------------------------------------------------------------------------------------
+		// DmxChanelFunction.Attribute
+		GdtfAttributePtr attrPtr = getAttributeByRef(chnlFunc->getUnresolvedAttrRef());
+
+		ASSERTN(kEveryone, attrPtr != nullptr);
+		if (attrPtr != nullptr)	{ chnlFunc->SetAttribute(attrPtr); }
+		else
+		{
+			IXMLFileNodePtr node;
+			chnlFunc->GetNode(node);
+			GdtfParsingError error (GdtfDefines::EGdtfParsingError::eChannelFunctionMissingAttribute, node); SceneData::GdtfFixture::AddError(error);
+		}
+		
+		// ----------------------------------------------------------------------------------------
+		// DmxChanelFunction.WheelPtr (Optional)
+		TXString unresolvedWheelRef = chnlFunc->getUnresolvedWheelRef();
+		if( ! unresolvedWheelRef.IsEmpty())
+		{
+			GdtfWheelPtr whlPtr = getWheelByRef(unresolvedWheelRef);
+			chnlFunc->SetWheel(whlPtr);
+		}
+		
+		// ----------------------------------------------------------------------------------------		
+		TXString unresolvedEmitterRef = chnlFunc->getUnresolvedEmitterRef();
+		if ( ! unresolvedEmitterRef.IsEmpty())
+		{
+			GdtfPhysicalEmitterPtr emtPtr = getEmiterByRef(unresolvedEmitterRef);
+			chnlFunc->SetEmitter(emtPtr);
+		}
+
+        // ----------------------------------------------------------------------------------------		
+        // Filter Refs
+        TXString unresolvedFilterRef = chnlFunc->getUnresolvedFilterRef();
+        if (!unresolvedFilterRef.IsEmpty()) 
+        {
+            GdtfFilter* filter = getFilterByRef(unresolvedFilterRef);
+            chnlFunc->SetFilter(filter);
+        }
+        // ----------------------------------------------------------------------------------------
+		// DmxChannelFunction.Default (For GDTF 1.0 files)
+		if(chnlFunc->GetDefaultValue() == 0)
+		{
+			DmxValue oldDefault = dmxLogChnl->GetParentDMXChannel()->GetOldDefaultValue();
+			if(oldDefault > 0)
+			{
+				chnlFunc->SetDefaultValue(oldDefault);
+			}
+		}
+
+		// ----------------------------------------------------------------------------------------		
+        // ColorSpace Refs
+        TXString unresolvedColorSpaceRef = chnlFunc->getUnresolvedColorSpaceRef();
+        if (!unresolvedColorSpaceRef.IsEmpty()) 
+        {
+            GdtfColorSpace* colorSpace = getColorSpaceByRef(unresolvedColorSpaceRef);
+            chnlFunc->SetColorSpace(colorSpace);
+        }
+
+		// ----------------------------------------------------------------------------------------		
+        // Gamut Refs
+        TXString unresolvedGamutRef = chnlFunc->getUnresolvedGamutRef();
+        if (!unresolvedGamutRef.IsEmpty()) 
+        {
+            GdtfGamut* gamut = getGamutByRef(unresolvedGamutRef);
+            chnlFunc->SetGamut(gamut);
+        }
+
+		// ----------------------------------------------------------------------------------------		
+        // DMXProfile Refs
+        TXString unresolvedDMXProfileRef = chnlFunc->getUnresolvedDMXProfileRef();
+        if (!unresolvedDMXProfileRef.IsEmpty()) 
+        {
+            GdtfDMXProfile* dmxProfile = getDMXProfileByRef(unresolvedDMXProfileRef);
+            chnlFunc->SetDMXProfile(dmxProfile);
+        }
+		
+		ResolveDmxSubChannelSetRefs(chnlFunc);
+	}
+}
+
+void GdtfFixture::ResolveDmxSubChannelSetRefs(GdtfDmxChannelFunctionPtr channelFunction)
+{
+	for (GdtfDmxSubChannelSetPtr subChannelSet : channelFunction->GetSubChannelSets())
+	{
+		if(CheckAbort()) { return; }
+		// ----------------------------------------------------------------------------------------		
+        // SubPhysicalUnit Refs
+        TXString unresolvedSubPhysicalUnitRef = subChannelSet->GetUnresolvedSubPhysicalUnitRef();
+        if (!unresolvedSubPhysicalUnitRef.IsEmpty()) 
+        {
+            // The unit is the one of the function's own attribute, types repeat between attributes
+            GdtfSubPhysicalUnit* subPhysicalUnit = nullptr;
+            if (GdtfAttribute* functionAttribute = channelFunction->GetAttribute())
+            {
+                for (GdtfSubPhysicalUnitPtr unit : functionAttribute->GetSubPhysicalUnitArray())
+                {
+                    if (unit->GetNodeReference() == unresolvedSubPhysicalUnitRef) { subPhysicalUnit = unit; break; }
+                }
+            }
+            if (subPhysicalUnit == nullptr) { subPhysicalUnit = getSubPhysicalUnitByRef(unresolvedSubPhysicalUnitRef); }
+            subChannelSet->SetSubPhysicalUnit(subPhysicalUnit);
+        }
+
+		// ----------------------------------------------------------------------------------------		
+        // DMXProfile Refs
+        TXString unresolvedDMXProfileRef = subChannelSet->GetUnresolvedDMXProfileRef();
+        if (!unresolvedDMXProfileRef.IsEmpty()) 
+        {
+            GdtfDMXProfile* dmxProfile = getDMXProfileByRef(unresolvedDMXProfileRef);
+            subChannelSet->SetDMXProfile(dmxProfile);
+        }
+	}
+}
+
+void GdtfFixture::CheckForMissingModeMasters()
+{	
+	for (GdtfDmxModePtr mode : fDmxModes)
+	{
+		if (CheckAbort()) { return; }
+		for(GdtfDmxChannelPtr channel : mode->GetChannelArray())
+		{
+			if (CheckAbort()) { return; }
+			for(GdtfDmxLogicalChannelPtr logicalChannel : channel->GetLogicalChannelArray())
+			{
+				if (CheckAbort()) { return; }
+				TGdtfDmxChannelFuntionArray channelFunctions = logicalChannel->GetDmxChannelFunctions();
+
+                if(channelFunctions.size() > 0)
+                {
+                    for(size_t i = 0; i < channelFunctions.size() - 1; i++)
+                    {
+						if(CheckAbort()) { return; }
+                        GdtfDmxChannelFunctionPtr function = channelFunctions[i];
+                        // ----------------------------------------------------------------------------------------
+                        DmxValue functionStart 	= function->GetStartAdress();
+                        DmxValue functionEnd	= function->GetEndAdress();
+
+                        for(size_t j = i+1; j < channelFunctions.size(); j++)
+                        {
+							if(CheckAbort()) { return; }
+                            GdtfDmxChannelFunctionPtr currentFunction = channelFunctions[j];
+
+                            DmxValue currentFunctionStart	= currentFunction->GetStartAdress();
+                            DmxValue currentFunctionEnd		= currentFunction->GetEndAdress();
+                            
+                            if(functionStart <= currentFunctionEnd && currentFunctionStart <= functionEnd)
+                            {
+                                //These two functions have conflicting DMX ranges.
+
+                                GdtfDmxChannel* 		functionMMChannel 	= function->GetModeMaster_Channel();
+                                GdtfDmxChannelFunction* functionMMFunction 	= function->GetModeMaster_Function();
+
+                                //First we check if a mode master is defined
+                                if(!functionMMChannel && !functionMMFunction)
+                                {
+                                    //If not, we throw an error.
+                                    GdtfParsingError error (GdtfDefines::EGdtfParsingError::eFixtureChannelFunctionMissingModeMaster);
+                                    SceneData::GdtfFixture::AddError(error);
+                                }
+                                else
+                                {
+                                    //If there is one, we have to check if they're the same.
+                                    GdtfDmxChannel* 		currentFunctionMMChannel 	= currentFunction->GetModeMaster_Channel();
+                                    GdtfDmxChannelFunction* currentFunctionMMFunction	= currentFunction->GetModeMaster_Function();
+                                    if((functionMMChannel && functionMMChannel == currentFunctionMMChannel) || (functionMMFunction && functionMMFunction == currentFunctionMMFunction))
+                                    {
+                                        //If they're the same we have to check that their ranges don't overlap.
+                                        DmxValue functionMMStart 		= function->GetModeMasterDmxStart();
+                                        DmxValue functionMMEnd			= function->GetModeMasterDmxEnd();
+
+                                        DmxValue currentFunctionMMStart	= currentFunction->GetModeMasterDmxStart();
+                                        DmxValue currentFunctionMMEnd	= currentFunction->GetModeMasterDmxEnd();
+                                        
+                                        if(functionMMStart <= currentFunctionMMEnd && currentFunctionMMStart <= functionMMEnd)
+                                        {
+                                            //If they do, we throw an error.
+                                            GdtfParsingError error (GdtfDefines::EGdtfParsingError::eFixtureChannelFunctionModeMasterOverlap);
+                                            SceneData::GdtfFixture::AddError(error);
+                                        }
+                                    }
+                                }
+                                break;
+                            }
+                        }
+                    }
+                }
+			}
+		}
+	}	
+}
+
+GdtfFixture::GdtfFixture()
+{
+	fThumbnailOffsetX 		= 0;
+	fThumbnailOffsetY 		= 0;
+	fReaded					= false;
+	fHasLinkedGuid			= false;     
+	fNoFeature				= nullptr;   
+	fCanHaveChildren 		= false;
+	fHasLinkedGuid 			= false;
+}
+
+GdtfFixture::~GdtfFixture()
+{   
+
+    for (GdtfActivationGroupPtr obj		: fActivationGroups){ delete obj; }
+    for (GdtfFeatureGroupPtr obj		: fFeatureGroups)   { delete obj; }
+    for (GdtfAttributePtr obj			: fAttributes)      { delete obj; }
+	for (GdtfWheelPtr obj				: fWheels)			{ delete obj; }
+	for (GdtfGeometry* obj				: fGeometries)		{ delete obj; }
+	for (GdtfModel* obj					: fModels)			{ delete obj; }	
+	for (GdtfDmxModePtr obj				: fDmxModes)		{ delete obj; }
+	for (GdtfRevisionPtr obj			: fRevisions)		{ delete obj; }
+
+    // Delete Local Files
+	for (size_t i = 0; i < fLocalFiles.size(); i++)
+	{
+		IFileIdentifierPtr file = fLocalFiles[i];
+		file->DeleteOnDisk();
+	}
+
+	//Delete buffers
+	for (auto it = fFileBuffers.begin(); it != fFileBuffers.end(); it++)
+	{
+		free(it->second.first);
+	}
+}
+
+size_t GdtfFixture::GetAttachedFileCount()
+{
+    return fLocalFilesFullPath.size();
+}
+
+bool GdtfFixture::GetAttachedFileCountAt(size_t at, TXString*& outFile)
+{
+	bool retVal = (at < fLocalFilesFullPath.size());
+	if(retVal)	{ outFile = &fLocalFilesFullPath.at(at); }
+
+    return retVal;
+}
+
+bool  GdtfFixture::IsReaded()
+{
+	return fReaded;
+}
+
+void  GdtfFixture::GetWorkingFolder(IFolderIdentifierPtr& folder)
+{
+	folder = fWorkingFolder;
+}
+
+void GdtfFixture::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnPrintToFile(pNode);
+	
+	// ------------------------------------------------------------------------------------
+	// Print node attributes
+	pNode->SetNodeAttributeValue(XML_GDTF_FixtureName,				fName);
+	pNode->SetNodeAttributeValue(XML_GDTF_FixtureShortName,			fShortName);
+	pNode->SetNodeAttributeValue(XML_GDTF_FixtureLongName,			fLongName);
+	pNode->SetNodeAttributeValue(XML_GDTF_FixtureManufacturer,		fManufacturer);
+	pNode->SetNodeAttributeValue(XML_GDTF_FixtureDescription,		fFixtureTypeDescription);
+	pNode->SetNodeAttributeValue(XML_GDTF_FixtureTypeID,			GdtfConverter::ConvertUUID(fGuid));
+	pNode->SetNodeAttributeValue(XML_GDTF_FixtureThumbnail,			fTumbnailName);
+	pNode->SetNodeAttributeValue(XML_GDTF_FixtureThumbnailOffsetX,	GdtfConverter::ConvertInteger(fThumbnailOffsetX));
+	pNode->SetNodeAttributeValue(XML_GDTF_FixtureThumbnailOffsetY,	GdtfConverter::ConvertInteger(fThumbnailOffsetY));
+	pNode->SetNodeAttributeValue(XML_GDTF_FixtureCanHaveChildren,	GdtfConverter::ConvertEGdtfCanHaveChildren(fCanHaveChildren));
+	
+	if(fHasLinkedGuid)
+	{
+		pNode->SetNodeAttributeValue(XML_GDTF_LinkedUuid,			GdtfConverter::ConvertUUID(fLinkedGuid));
+	}
+	else
+	{
+		pNode->SetNodeAttributeValue(XML_GDTF_LinkedUuid,			"");
+	}
+	
+	// ------------------------------------------------------------------------------------
+	// Activation Groups
+	IXMLFileNodePtr attributeDefintion;
+	if (VCOM_SUCCEEDED(pNode->CreateChildNode(XML_GDTF_FixtureChildNodeAttributeDef, & attributeDefintion)))
+	{
+		// Add ActivationsGroupDef
+		IXMLFileNodePtr activationGroupContainer;
+		if (VCOM_SUCCEEDED(attributeDefintion->CreateChildNode(XML_GDTF_FixtureChildNodeActivationGroupDef, & activationGroupContainer)))
+		{
+			for (auto  actGroup: fActivationGroups)
+			{
+				actGroup->WriteToNode(activationGroupContainer);
+			}
+		}
+		
+		// Add Feature GroupDef
+		IXMLFileNodePtr featureGroupContainer;
+		if (VCOM_SUCCEEDED(attributeDefintion->CreateChildNode(XML_GDTF_FixtureChildNodeFeatureGroupDef, & featureGroupContainer)))
+		{
+			for (auto  featureGroup: fFeatureGroups)
+			{
+				featureGroup->WriteToNode(featureGroupContainer);
+			}
+		}
+		
+		
+		// Add Attributes
+		// Add Feature GroupDef
+		IXMLFileNodePtr attributesContainer;
+		if (VCOM_SUCCEEDED(attributeDefintion->CreateChildNode(XML_GDTF_FixtureChildNodeAttributesDef, & attributesContainer)))
+		{
+			for (auto  featureGroup: fAttributes)
+			{
+				featureGroup->WriteToNode(attributesContainer);
+			}
+		}
+	}
+	
+	// ------------------------------------------------------------------------------------
+	// Print wheels
+	IXMLFileNodePtr wheels;
+	if (VCOM_SUCCEEDED(pNode->CreateChildNode(XML_GDTF_FixtureChildNodeWheels, & wheels)))
+	{
+		for (GdtfWheelPtr wheelObj : fWheels)
+		{
+			wheelObj->WriteToNode(wheels);
+		}
+	}
+	
+	// ------------------------------------------------------------------------------------
+	// Print PhysicalDescriptions    
+    fPhysicalDesciptions.WriteToNode(pNode);
+    	
+	// ------------------------------------------------------------------------------------
+	// Print models
+	IXMLFileNodePtr models;
+	if (VCOM_SUCCEEDED(pNode->CreateChildNode(XML_GDTF_FixtureChildNodeModels, & models)))
+	{
+		for (GdtfModel* modelObj : fModels)
+		{
+			modelObj->WriteToNode(models);
+		}
+	}
+	
+	// ------------------------------------------------------------------------------------
+	// Print geometries
+	IXMLFileNodePtr geometries;
+	if (VCOM_SUCCEEDED(pNode->CreateChildNode(XML_GDTF_FixtureChildNodeGeomertries, & geometries)))
+	{
+		for (GdtfGeometry* geometryObj : fGeometries)
+		{
+			geometryObj->WriteToNode(geometries);
+		}
+	}
+	
+	// ------------------------------------------------------------------------------------
+	// Print dmxModes
+	IXMLFileNodePtr dmxModes;
+	if (VCOM_SUCCEEDED(pNode->CreateChildNode(XML_GDTF_FixtureChildNodeDMX, & dmxModes)))
+	{
+		for (GdtfDmxMode* dmxObj : fDmxModes)
+		{
+			dmxObj->WriteToNode(dmxModes);
+		}
+	}
+	
+	// ------------------------------------------------------------------------------------
+	// Print Revisions
+	IXMLFileNodePtr revisions;
+	if (VCOM_SUCCEEDED(pNode->CreateChildNode(XML_GDTF_FixtureChildNodeRevisions, & revisions)))
+	{
+		for (GdtfRevision* revisionObj : fRevisions)
+		{
+			revisionObj->WriteToNode(revisions);
+		}
+	}
+	
+	// ------------------------------------------------------------------------------------
+	// Print presets
+	IXMLFileNodePtr presets;
+	if (VCOM_SUCCEEDED(pNode->CreateChildNode(XML_GDTF_FixtureChildNodePresets, & presets)))
+	{
+		for (GdtfUserPreset* presetObj : fPresets)
+		{
+			presetObj->WriteToNode(presets);
+		}
+	}
+	
+	// ------------------------------------------------------------------------------------
+	// Print Prorocols
+    fProtocollContainer.WriteToNode(pNode);
+}
+
+void GdtfFixture::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	if ( CheckAbort() ) return;
+	FixtureFeedback feedback;
+	feedback.fTotalNumberOfNodes = fTotalNodesCount;
+
+	pNode->GetNodeAttributeValue(XML_GDTF_FixtureName,						fName);
+    fName.Replace("/", "_");
+
+	feedback.fFileName = fName;
+	VectorworksMVR::FeedbackDispatcher::Send(feedback);
+
+	pNode->GetNodeAttributeValue(XML_GDTF_FixtureShortName,					fShortName);
+	pNode->GetNodeAttributeValue(XML_GDTF_FixtureLongName,					fLongName);
+	pNode->GetNodeAttributeValue(XML_GDTF_FixtureManufacturer,				fManufacturer);
+	pNode->GetNodeAttributeValue(XML_GDTF_FixtureDescription,				fFixtureTypeDescription);
+	TXString uuid; pNode->GetNodeAttributeValue(XML_GDTF_FixtureTypeID,		uuid );	GdtfConverter::ConvertUUID(uuid, pNode, fGuid);
+	pNode->GetNodeAttributeValue(XML_GDTF_FixtureThumbnail,					fTumbnailName);
+	TXString thumbnailOffsetX; 	pNode->GetNodeAttributeValue(XML_GDTF_FixtureThumbnailOffsetX, thumbnailOffsetX); 	GdtfConverter::ConvertInteger(thumbnailOffsetX, pNode, fThumbnailOffsetX);
+	TXString thumbnailOffsetY; 	pNode->GetNodeAttributeValue(XML_GDTF_FixtureThumbnailOffsetY, thumbnailOffsetY); 	GdtfConverter::ConvertInteger(thumbnailOffsetY, pNode, fThumbnailOffsetY);
+	TXString canHaveChildren; 	pNode->GetNodeAttributeValue(XML_GDTF_FixtureCanHaveChildren,	 canHaveChildren); 	GdtfConverter::ConvertEGdtfCanHaveChildren(canHaveChildren, pNode, fCanHaveChildren);
+
+	TXString linkedUuid;
+	pNode->GetNodeAttributeValue(XML_GDTF_LinkedUuid,		linkedUuid );
+	fHasLinkedGuid = GdtfConverter::ConvertUUID(linkedUuid, pNode, fLinkedGuid);
+	
+	if ( CheckAbort() ) return;
+
+    // ------------------------------------------------------------------------------------
+	// Read Prorocols
+    IXMLFileNodePtr protoNode;
+    if (VCOM_SUCCEEDED(pNode->GetChildNode(XML_GDTF_Protocols, &protoNode))) 
+    {   
+		TXString nodeName;
+		protoNode->GetNodeName( nodeName );
+        fProtocollContainer.ReadFromNode(protoNode); 
+
+		feedback.fTotalCompletedNodes++;
+		VectorworksMVR::FeedbackDispatcher::Send(feedback);
+		if ( CheckAbort() ) return;
+    } 
+
+    // Read PhysicalDesciptions
+    IXMLFileNodePtr physDescrNode;
+    if (VCOM_SUCCEEDED(pNode->GetChildNode(XML_GDTF_FixtureChildNodePhysicalDesrip, &physDescrNode) ))
+    {
+        fPhysicalDesciptions.ReadFromNode(physDescrNode);
+		feedback.fTotalCompletedNodes++;
+		VectorworksMVR::FeedbackDispatcher::Send(feedback);
+		if ( CheckAbort() ) return;
+    }
+
+    // ------------------------------------------------------------------------------------
+    // Read AttributeDefinitions
+    
+    IXMLFileNodePtr attrDefs;
+    if (VCOM_SUCCEEDED(pNode->GetChildNode(XML_GDTF_FixtureChildNodeAttributeDef, & attrDefs)))
+    
+    {
+        // ------------------------------------------------------------------------------------
+        // Read fActivationGroups
+        GdtfConverter::TraverseNodes(attrDefs, XML_GDTF_FixtureChildNodeActivationGroupDef, XML_GDTF_ActivationGroupNode, [this] (IXMLFileNodePtr objNode) -> void
+                                     { 
+										 if ( CheckAbort() ) return;
+
+                                         GdtfActivationGroupPtr pActicationGroup = new GdtfActivationGroup();
+                                         
+                                         pActicationGroup->ReadFromNode(objNode);
+                                         
+                                         fActivationGroups.push_back(pActicationGroup);
+										
+                                         return;
+                                     });
+        
+        // ------------------------------------------------------------------------------------
+        // Read fFeatureGroups
+        GdtfConverter::TraverseNodes(attrDefs, XML_GDTF_FixtureChildNodeFeatureGroupDef, XML_GDTF_FeatureGroupNode, [this] (IXMLFileNodePtr objNode) -> void
+                                     {
+										 if ( CheckAbort() ) return;
+
+										 GdtfFeatureGroupPtr pFeatureGroup = new GdtfFeatureGroup();
+										 
+										 pFeatureGroup->ReadFromNode(objNode);
+										 
+										 fFeatureGroups.push_back( pFeatureGroup );
+
+                                         return;
+                                     });
+        
+        // ------------------------------------------------------------------------------------
+        // Read fAttributes
+        GdtfConverter::TraverseNodes(attrDefs, XML_GDTF_FixtureChildNodeAttributesDef, XML_GDTF_AttributeNode, [this] (IXMLFileNodePtr objNode) -> void
+                                     {
+										 if ( CheckAbort() ) return;
+
+										 GdtfAttributePtr pAttr = new GdtfAttribute();
+										 
+										 pAttr->ReadFromNode(objNode);
+										 
+										 fAttributes.push_back(pAttr);
+
+                                         return;
+                                     });
+    }
+
+	feedback.fTotalCompletedNodes++;
+	VectorworksMVR::FeedbackDispatcher::Send(feedback);
+    
+    
+	// ------------------------------------------------------------------------------------
+	// Read Wheels
+	GdtfConverter::TraverseNodes(pNode, XML_GDTF_FixtureChildNodeWheels, XML_GDTF_WheelNodeName, [this] (IXMLFileNodePtr objNode) -> void
+						{
+							if ( CheckAbort() ) return;
+
+							// Create the object
+							GdtfWheelPtr wheel = new GdtfWheel(this);
+							
+							// Read from node
+							wheel->ReadFromNode(objNode);
+							
+							// Add to list
+							fWheels.push_back(wheel);
+							
+							return;
+						});
+	
+	feedback.fTotalCompletedNodes++;
+	VectorworksMVR::FeedbackDispatcher::Send(feedback);
+	
+	// ------------------------------------------------------------------------------------
+	// Read Geometry
+	GdtfConverter::TraverseNodes(pNode, XML_GDTF_FixtureChildNodeModels, XML_GDTF_ModelNodeName, [this] (IXMLFileNodePtr objNode) -> void
+						{
+							if ( CheckAbort() ) return;
+
+							// Create the object
+							GdtfModel* model = new GdtfModel(this);
+							
+							// Read from node
+							model->ReadFromNode(objNode);
+							
+							// Add to list
+							fModels.push_back(model);
+							
+							return;
+						});
+
+	
+	feedback.fTotalCompletedNodes++;
+	VectorworksMVR::FeedbackDispatcher::Send(feedback);
+
+	
+	// ------------------------------------------------------------------------------------
+	// Read Geometries
+	GdtfConverter::TraverseMultiNodes(pNode, XML_GDTF_FixtureChildNodeGeomertries, [this] (IXMLFileNodePtr objNode,const TXString& childNodeName) -> void
+						{
+							if ( CheckAbort() ) return;
+
+							GdtfGeometryPtr geometry = nullptr;
+							if		(childNodeName == XML_GDTF_GeometryAxisNodeName)		{ geometry = new GdtfGeometryAxis(nullptr);}
+							else if (childNodeName == XML_GDTF_GeometryNodeName)			{ geometry = new GdtfGeometry(nullptr);}
+							else if (childNodeName == XML_GDTF_FilterBeamNodeName)			{ geometry = new GdtfGeometryBeamFilter(nullptr);}
+							else if (childNodeName == XML_GDTF_FilterColorNodeName)			{ geometry = new GdtfGeometryColorFilter(nullptr);}
+							else if (childNodeName == XML_GDTF_FilterGoboNodeName)			{ geometry = new GdtfGeometryGoboFilter(nullptr);}
+							else if (childNodeName == XML_GDTF_FilterShaperNodeName)		{ geometry = new GdtfGeometryShaperFilter(nullptr);}
+							else if (childNodeName == XML_GDTF_LampNodeName)				{ geometry = new GdtfGeometryLamp(nullptr);}
+							else if (childNodeName == XML_GDTF_MediaServerCameraNodeName)	{ geometry = new GdtfGeometryMediaServerCamera(nullptr);}
+							else if (childNodeName == XML_GDTF_MediaServerLayerNodeName)	{ geometry = new GdtfGeometryMediaServerLayer(nullptr);}
+							else if (childNodeName == XML_GDTF_MediaServerMasterNodeName)	{ geometry = new GdtfGeometryMediaServerMaster(nullptr);}
+							else if (childNodeName == XML_GDTF_GeometryReferenceNodeName)	{ geometry = new GdtfGeometryReference(nullptr);}
+							else if (childNodeName == XML_GDTF_DisplayNodeName)				{ geometry = new GdtfGeometryDisplay(nullptr);}
+							else if (childNodeName == XML_GDTF_LaserNodeName)				{ geometry = new GdtfGeometryLaser(nullptr);}
+							else if (childNodeName == XML_GDTF_WiringObjectNodeName)		{ geometry = new GdtfGeometryWiringObject(nullptr);}
+							else if (childNodeName == XML_GDTF_InventoryNodeName)			{ geometry = new GdtfGeometryInventory(nullptr);}
+							else if (childNodeName == XML_GDTF_StructureNodeName)			{ geometry = new GdtfGeometryStructure(nullptr);}
+							else if (childNodeName == XML_GDTF_SupportNodeName)				{ geometry = new GdtfGeometrySupport(nullptr);}
+							else if (childNodeName == XML_GDTF_MagnetNodeName)				{ geometry = new GdtfGeometryMagnet(nullptr);}
+							else															{ DSTOP((kEveryone,"There is a node that was not expected!")); }
+							
+							ASSERTN(kEveryone, geometry != nullptr);
+							if (geometry)
+							{
+								geometry->ReadFromNode(objNode);
+								fGeometries.push_back(geometry);
+							}
+							else
+							{
+								GdtfParsingError error (GdtfDefines::EGdtfParsingError::eNodeWrongName, objNode);
+								SceneData::GdtfFixture::AddError(error);
+							}
+							return;
+						});
+	
+	feedback.fTotalCompletedNodes++;
+	VectorworksMVR::FeedbackDispatcher::Send(feedback);
+	
+	// ------------------------------------------------------------------------------------
+	// Read dmxModes
+	GdtfConverter::TraverseNodes(pNode, XML_GDTF_FixtureChildNodeDMX, XML_GDTF_DMXModeNodeName, [this] (IXMLFileNodePtr objNode) -> void
+								 { 
+									 if ( CheckAbort() ) return;
+									 // Create the object
+									 GdtfDmxModePtr dmxMode = new GdtfDmxMode(this, "");
+									 
+									 // Read from node
+									 dmxMode->ReadFromNode(objNode);
+									 
+									 // Add to list
+									 fDmxModes.push_back(dmxMode);
+									
+
+									 return;
+								 });
+	
+	feedback.fTotalCompletedNodes++;
+	VectorworksMVR::FeedbackDispatcher::Send(feedback);
+
+	// ------------------------------------------------------------------------------------
+	// Read Revision
+	GdtfConverter::TraverseNodes(pNode, XML_GDTF_FixtureChildNodeRevisions, XML_GDTF_RevisionNodeName, [this] (IXMLFileNodePtr objNode) -> void
+								 {
+									 if ( CheckAbort() ) return;	
+									 // Create the object
+									 GdtfRevisionPtr rev = new GdtfRevision();
+									 
+									 // Read from node
+									 rev->ReadFromNode(objNode);
+									 
+									 // Add to list
+									 fRevisions.push_back(rev);
+									
+									 return;
+								 });
+
+	feedback.fTotalCompletedNodes++;
+	VectorworksMVR::FeedbackDispatcher::Send(feedback);
+
+	// ------------------------------------------------------------------------------------
+	// Read presets
+    // -
+	
+	// ------------------------------------------------------------------------------------
+	// Read macros
+    // -
+}
+
+void GdtfFixture::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_FixtureName);
+	needed.push_back(XML_GDTF_FixtureShortName);
+	needed.push_back(XML_GDTF_FixtureLongName);
+	needed.push_back(XML_GDTF_FixtureManufacturer);
+	needed.push_back(XML_GDTF_FixtureDescription);
+	needed.push_back(XML_GDTF_FixtureTypeID);
+	optional.push_back(XML_GDTF_FixtureThumbnail);
+	optional.push_back(XML_GDTF_LinkedUuid);
+	optional.push_back(XML_GDTF_FixtureThumbnailOffsetX);
+	optional.push_back(XML_GDTF_FixtureThumbnailOffsetY);
+	optional.push_back(XML_GDTF_FixtureCanHaveChildren);
+
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfFixture::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfFixture;
+}
+TXString GdtfFixture::GetNodeName()
+{
+	return XML_GDTF_FixtureNodeName;
+}
+
+bool GdtfFixture::ExportToFile(IZIPFilePtr& zipfile)
+{
+	//------------------------------------------------------------------------------------
+	// Create XML File
+	IXMLFilePtr xmlFile (IID_XMLFile);
+	xmlFile->CreateNew(XML_GDTF_ROOTNODENAME);
+	
+	
+	//------------------------------------------------------------------------------------
+	// Create root node
+	IXMLFileNodePtr rootNode;
+	if (VCOM_SUCCEEDED(xmlFile->GetRootNode( & rootNode)))
+	{
+		// Set Version Tag
+		rootNode->SetNodeAttributeValue(XML_GDTF_ROOTNODEATTRVERSION, XML_GDTF_CurrentVersion);
+		
+		// Write the fixture
+		this->WriteToNode(rootNode);
+	}
+	
+
+	//------------------------------------------------------------------------------------
+	// Write to disk
+	SceneData::IXMLFileIOBufferImpl buffer;
+	xmlFile->WriteBuffer( &buffer, eXMLEncoding_UTF8);
+	
+	
+	// Prepare Temp Storage for ZIP buffer
+	size_t	size = 0;
+	void*	data = nullptr;
+	
+	// Get the data from the XML
+	buffer.GetDataSize(size);
+	buffer.GetData(data);
+	
+	
+	// Copy into the Buffer for the ZIP
+	ISceneDataZipBuffer zipXmlBuffer;
+	zipXmlBuffer.SetData(data, size);
+	
+	
+	//------------------------------------------------------------------------------------
+	// Add to ZIP
+	SceneDataZip::AddFileToZip(zipfile, zipXmlBuffer, TXString(XML_GDTF_GDTFFILENAME) );
+
+	//------------------------------------------------------------------------------------
+	// Add the files the fixture was read with
+
+	for (auto it = fFileBuffers.begin(); it != fFileBuffers.end(); it++)
+	{
+		CZIPFileIOBufferImpl* bufferzip = new CZIPFileIOBufferImpl();
+		bufferzip->SetData((void*)it->second.first, it->second.second);
+		zipfile->AddFile(TXString(it->first.c_str()), bufferzip);
+
+		delete bufferzip;
+	}
+	
+	return true;
+}
+
+
+GdtfRevisionPtr GdtfFixture::AddRevision(const TXString& text, const STime& date)
+{
+	GdtfRevision* revision = new GdtfRevision();
+	revision->SetText(text);
+	revision->SetDate(date);
+	
+	fRevisions.push_back(revision);
+	
+	return revision;
+}
+
+GdtfAttributePtr GdtfFixture::AddAttribute(const TXString& name, const TXString& prettyName)
+{
+	GdtfAttributePtr attr = new GdtfAttribute(name, prettyName);
+
+	fAttributes.push_back(attr);
+	
+	return attr;
+}
+
+GdtfWheelPtr GdtfFixture::AddWheel(TXString name)
+{
+	// Create new Wheel
+	GdtfWheel* wheel = new GdtfWheel(this, name);
+
+	// Add to array
+	fWheels.push_back(wheel);
+	
+	return wheel;
+
+}
+
+GdtfModel* GdtfFixture::AddModel(const TXString& name)
+{
+	GdtfModel* model = new  GdtfModel(name, this);
+	fModels.push_back(model);
+	
+	return model;
+}
+
+GdtfGeometryPtr GdtfFixture::AddGeometryWithAxis(const TXString& name, GdtfModelPtr refToModel,const VWTransformMatrix& ma)
+{
+	GdtfGeometryAxis* axis = new GdtfGeometryAxis(name, refToModel, ma, nullptr);
+	
+	fGeometries.push_back(axis);
+	
+	return axis;
+}
+
+GdtfGeometryPtr GdtfFixture::AddGeometryWithLamp(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
+{
+	GdtfGeometryLamp* lamp = new GdtfGeometryLamp(name, refToModel, ma, nullptr);
+	
+	fGeometries.push_back(lamp);
+	
+	return lamp;
+}
+
+GdtfGeometryPtr GdtfFixture::AddGeometry(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
+{
+	GdtfGeometry* geo = new GdtfGeometry(name, refToModel, ma, nullptr);
+	
+	fGeometries.push_back(geo);
+	
+	return geo;
+}
+
+GdtfGeometryPtr GdtfFixture::AddGeometryReference(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
+{
+	GdtfGeometry* geo = new GdtfGeometryReference(name, refToModel, ma, nullptr);
+	
+	fGeometries.push_back(geo);
+	
+	return geo;
+}
+
+GdtfGeometryPtr GdtfFixture::AddGeometryShaper(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
+{
+	GdtfGeometry* geo = new GdtfGeometryShaperFilter(name, refToModel, ma, nullptr);
+	
+	fGeometries.push_back(geo);
+	
+	return geo;
+}
+
+GdtfGeometryPtr GdtfFixture::AddGeometryColor(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
+{
+	GdtfGeometry* geo = new GdtfGeometryColorFilter(name, refToModel, ma, nullptr);
+	
+	fGeometries.push_back(geo);
+	
+	return geo;
+}
+
+GdtfGeometryPtr GdtfFixture::AddGeometryGobo(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
+{
+	GdtfGeometry* geo = new GdtfGeometryGoboFilter(name, refToModel, ma, nullptr);
+	
+	fGeometries.push_back(geo);
+	
+	return geo;
+}
+
+GdtfGeometryPtr GdtfFixture::AddGeometryBeam(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
+{
+	GdtfGeometry* geo = new GdtfGeometryBeamFilter(name, refToModel, ma, nullptr);
+	
+	fGeometries.push_back(geo);
+	
+	return geo;
+}
+
+GdtfGeometryPtr GdtfFixture::AddGeometryMediaServerCamera(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
+{
+	GdtfGeometry* geo = new GdtfGeometryMediaServerCamera(name, refToModel, ma, nullptr);
+	
+	fGeometries.push_back(geo);
+	
+	return geo;
+}
+
+GdtfGeometryPtr GdtfFixture::AddGeometryMediaServerLayer(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
+{
+	GdtfGeometry* geo = new GdtfGeometryMediaServerLayer(name, refToModel, ma, nullptr);
+	
+	fGeometries.push_back(geo);
+	
+	return geo;
+}
+
+GdtfGeometryPtr GdtfFixture::AddGeometryMediaServerMaster(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
+{
+	GdtfGeometry* geo = new GdtfGeometryMediaServerMaster(name, refToModel, ma, nullptr);
+	
+	fGeometries.push_back(geo);
+	
+	return geo;
+}
+
+GdtfGeometryPtr GdtfFixture::AddGeometryDisplay(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
+{
+	GdtfGeometry* geo = new GdtfGeometryDisplay(name, refToModel, ma, nullptr);
+
+	fGeometries.push_back(geo);
+	
+	return geo;
+}
+
+GdtfGeometryPtr GdtfFixture::AddGeometryLaser(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
+{
+	GdtfGeometry* geo = new GdtfGeometryLaser(name, refToModel, ma, nullptr);
+
+	fGeometries.push_back(geo);
+	
+	return geo;
+}
+
+GdtfGeometryPtr GdtfFixture::AddGeometryWiringObject(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
+{
+	GdtfGeometry* geo = new GdtfGeometryWiringObject(name, refToModel, ma, nullptr);
+
+	fGeometries.push_back(geo);
+	
+	return geo;
+}
+
+GdtfGeometryPtr GdtfFixture::AddGeometryInventory(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
+{
+	GdtfGeometry* geo = new GdtfGeometryInventory(name, refToModel, ma, nullptr);
+
+	fGeometries.push_back(geo);
+	
+	return geo;
+}
+
+GdtfGeometryPtr GdtfFixture::AddGeometryStructure(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
+{
+	GdtfGeometry* geo = new GdtfGeometryStructure(name, refToModel, ma, nullptr);
+
+	fGeometries.push_back(geo);
+	
+	return geo;
+}
+
+GdtfGeometryPtr GdtfFixture::AddGeometrySupport(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
+{
+	GdtfGeometry* geo = new GdtfGeometrySupport(name, refToModel, ma, nullptr);
+
+	fGeometries.push_back(geo);
+	
+	return geo;
+}
+
+GdtfGeometryPtr GdtfFixture::AddGeometryMagnet(const TXString& name, GdtfModelPtr refToModel, const VWTransformMatrix& ma)
+{
+	GdtfGeometry* geo = new GdtfGeometryMagnet(name, refToModel, ma, nullptr);
+
+	fGeometries.push_back(geo);
+	
+	return geo;
+}
+
+GdtfDmxMode* GdtfFixture::AddDmxMode(const TXString& name)
+{
+	GdtfDmxMode* mode = new  GdtfDmxMode(this, name);
+	
+	fDmxModes.push_back(mode);
+	
+	return mode;
+}
+
+GdtfUserPresetPtr GdtfFixture::AddUserPreset()
+{
+	GdtfUserPresetPtr preset = new  GdtfUserPreset();
+	
+	fPresets.push_back(preset);
+	
+	return preset;
+}
+
+GdtfFeatureGroupPtr GdtfFixture::AddFeatureGroup(const TXString& name, const TXString& prettyName)
+{
+	GdtfFeatureGroupPtr featureGroup = new  GdtfFeatureGroup(name, prettyName);
+	
+	fFeatureGroups.push_back(featureGroup);
+	
+	return featureGroup;
+}
+
+GdtfActivationGroupPtr GdtfFixture::AddActivationGroup(const TXString& name)
+{
+	GdtfActivationGroupPtr actGroup = new  GdtfActivationGroup(name);
+	
+	fActivationGroups.push_back(actGroup);
+	
+	return actGroup;
+}
+
+const TGdtfWheelArray& GdtfFixture::GetWheelArray()
+{
+	return fWheels;
+}
+
+const TGdtfActivationGroupArray& GdtfFixture::GetActivationGroupArray()
+{
+    return fActivationGroups;
+}
+
+const TGdtfFeatureGroupArray& GdtfFixture::GetFeatureGroupArray()
+{
+    return fFeatureGroups;
+}
+
+const TGdtfAttributeArray& GdtfFixture::GetAttributeArray()
+{
+    return fAttributes;
+}
+
+const TGdtfGeometryArray& GdtfFixture::GetGeometryArray()
+{
+	return fGeometries;
+}
+
+const TGdtfDmxModeArray& GdtfFixture::GetDmxModeArray()
+{
+	return fDmxModes;
+}
+
+const TGdtfModelArray& GdtfFixture::GetModelArray()
+{
+    return fModels;
+}
+
+const TGdtfRevisionArray& GdtfFixture::GetRevisionArray()
+{
+    return fRevisions;
+}
+
+const TGdtfUserPresetArray& GdtfFixture::GetPresetArray()
+{
+    return fPresets;
+}
+
+const std::map<std::string, std::pair<char*, size_t> >& GdtfFixture::GetFileBuffers()
+{
+	return fFileBuffers;
+}
+
+GdtfProtocols& GdtfFixture::GetProtocollContainer()
+{
+	return fProtocollContainer;
+}
+
+const TXString& GdtfFixture::GetName() const
+{
+	return fName;
+}
+
+const TXString& GdtfFixture::GetShortName() const
+{
+    return fShortName;
+}
+
+const TXString& GdtfFixture::GetLongName() const
+{
+    return fLongName;
+}
+
+const TXString& GdtfFixture::GetManufacturer() const
+{
+    return fManufacturer;
+}
+
+const TXString& GdtfFixture::GetFixtureTypeDescription() const
+{
+    return fFixtureTypeDescription;
+}
+
+GdtfFixtureGUID GdtfFixture::GetGuid() const
+{
+    return fGuid;
+}
+
+GdtfFixtureGUID GdtfFixture::GetLinkedGuid() const
+{
+	return fLinkedGuid;
+}
+
+bool GdtfFixture::HasLinkedGuid() const
+{
+	return fHasLinkedGuid;
+}
+
+const TXString& GdtfFixture::GetThumbnailName() const
+{
+    return fTumbnailName;
+}
+
+Sint32 GdtfFixture::GetThumbnailOffsetX() const
+{
+    return fThumbnailOffsetX;
+}
+
+Sint32 GdtfFixture::GetThumbnailOffsetY() const
+{
+    return fThumbnailOffsetY;
+}
+
+bool GdtfFixture::GetCanHaveChildren() const
+{
+    return fCanHaveChildren;
+}
+
+TXString GdtfFixture::GetFullThumbNailPath (const TXString& fileExtension) 
+{
+	// Set to store
+	TXString fileName = fTumbnailName + fileExtension;
+
+    // Check if file exists:
+    IFileIdentifierPtr file (IID_FileIdentifier);
+    file->Set(fWorkingFolder, fileName);
+    
+    bool exists = false;  
+	VCOM_SUCCEEDED(file->ExistsOnDisk(exists));
+    if ( ! exists)	{ return ""; }
+
+	TXString fullPath;
+	file->GetFileFullPath(fullPath);
+
+	return fullPath;
+}
+
+const GdtfPNGFile& GdtfFixture::GetPNGThumnailFullPath()
+{
+	// Set to store
+    fTumbnailFullPath_PNG = GetFullThumbNailPath(".png");
+
+	return fTumbnailFullPath_PNG;
+}
+
+const TXString & SceneData::GdtfFixture::GetSVGThumnailFullPath()
+{
+	// Set to store
+    fTumbnailFullPath_SVG = GetFullThumbNailPath(".svg");
+
+	return fTumbnailFullPath_SVG;
+}
+
+GdtfPhysicalDescriptions& SceneData::GdtfFixture::GetPhysicalDesciptionsContainer()
+{
+    return fPhysicalDesciptions;
+}
+
+Sint32 GdtfFixture::GetMajorVersion() const
+{
+	return fMajorVersion;
+}
+
+Sint32 GdtfFixture::GetMinorVersion() const
+{
+	return fMinorVersion;
+}
+
+void GdtfFixture::SetName(const TXString& name)
+{
+	fName = name;
+}
+
+void GdtfFixture::SetShortName(const TXString& shortName)
+{
+	fShortName = shortName;
+}
+
+void GdtfFixture::SetLongName(const TXString& longName)
+{
+	fLongName = longName;
+}
+
+void GdtfFixture::SetManufacturer(const TXString& manu)
+{
+	fManufacturer = manu;
+}
+
+void GdtfFixture::SetFixtureTypeDescription(const TXString& desc)
+{
+	fFixtureTypeDescription = desc;
+}
+
+void GdtfFixture::SetGuid(const VWFC::Tools::VWUUID& uuid)
+{
+	fGuid = uuid;
+}
+
+void GdtfFixture::SetLinkedGuid(const VWFC::Tools::VWUUID& uuid)
+{
+	fHasLinkedGuid = true;
+	fLinkedGuid = uuid;
+}
+
+void GdtfFixture::SetThumbnailName(const TXString& fileName)
+{
+	fTumbnailName = fileName;
+}
+
+void GdtfFixture::SetThumbnailOffsetX(Sint32 thumbnailOffsetX)
+{
+	fThumbnailOffsetX = thumbnailOffsetX;
+}
+
+void GdtfFixture::SetThumbnailOffsetY(Sint32 thumbnailOffsetY)
+{
+	fThumbnailOffsetY = thumbnailOffsetY;
+}
+
+void GdtfFixture::SetCanHaveChildren(bool canHaveChildren)
+{
+	fCanHaveChildren = canHaveChildren;
+}
+
+void GdtfFixture::SetMajorVersion( Sint32 majorVersion )
+{
+	fMajorVersion = majorVersion;
+}
+
+void GdtfFixture::SetMinorVersion( Sint32 minorVersion )
+{
+	fMinorVersion = minorVersion;
+}
+
+//------------------------------------------------------------------------------------
+// Point
+SceneData::GdtfPoint::GdtfPoint()
+{
+	fDMXPercentage = 0;
+	fCFC3 = 0;
+	fCFC2 = 0;
+	fCFC1 = 0;
+	fCFC0 = 0;
+}
+
+SceneData::GdtfPoint::GdtfPoint(double DMXPercentage, double CFC3, double CFC2, double CFC1, double CFC0)
+{
+	fDMXPercentage = DMXPercentage;
+	fCFC3 = CFC3;
+	fCFC2 = CFC2;
+	fCFC1 = CFC1;
+	fCFC0 = CFC0;
+}
+
+SceneData::GdtfPoint::~GdtfPoint()
+{
+}
+
+EGdtfObjectType SceneData::GdtfPoint::GetObjectType()
+{
+    return EGdtfObjectType::eGdtfPoint;
+}
+
+// Getters
+double SceneData::GdtfPoint::GetDMXPercentage() const
+{
+	return fDMXPercentage;
+}
+
+double SceneData::GdtfPoint::GetCFC3() const
+{
+	return fCFC3;
+}
+
+double SceneData::GdtfPoint::GetCFC2() const
+{
+	return fCFC2;
+}
+
+double SceneData::GdtfPoint::GetCFC1() const
+{
+	return fCFC1;
+}
+
+double SceneData::GdtfPoint::GetCFC0() const
+{
+	return fCFC0;
+}
+        
+// Setters
+void SceneData::GdtfPoint::SetDMXPercentage(double dmxPercentage)
+{
+	fDMXPercentage = dmxPercentage;
+}
+
+void SceneData::GdtfPoint::SetCFC3(double CFC3)
+{
+	fCFC3 = CFC3;
+}
+
+void SceneData::GdtfPoint::SetCFC2(double CFC2)
+{
+	fCFC2 = CFC2;
+}
+
+void SceneData::GdtfPoint::SetCFC1(double CFC1)
+{
+	fCFC1 = CFC1;
+}
+
+void SceneData::GdtfPoint::SetCFC0(double CFC0)
+{
+	fCFC0 = CFC0;
+}
+
+TXString SceneData::GdtfPoint::GetNodeName()
+{
+    return XML_GDTF_Point;
+}
+
+void SceneData::GdtfPoint::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnPrintToFile(pNode);
+	
+	//------------------------------------------------------------------------------------
+    // Print the attributes
+	pNode->SetNodeAttributeValue(XML_GDTF_PointDMXPercentage, 	GdtfConverter::ConvertDouble(fDMXPercentage) );
+	pNode->SetNodeAttributeValue(XML_GDTF_PointCFC3, 			GdtfConverter::ConvertDouble(fCFC3) );
+	pNode->SetNodeAttributeValue(XML_GDTF_PointCFC2, 			GdtfConverter::ConvertDouble(fCFC2) );
+	pNode->SetNodeAttributeValue(XML_GDTF_PointCFC1, 			GdtfConverter::ConvertDouble(fCFC1) );
+	pNode->SetNodeAttributeValue(XML_GDTF_PointCFC0, 			GdtfConverter::ConvertDouble(fCFC0) );
+
+}
+
+void SceneData::GdtfPoint::OnReadFromNode(const IXMLFileNodePtr & pNode)
+{
+    //------------------------------------------------------------------------------------
+    // Call the parent
+    GdtfObject::OnReadFromNode(pNode);
+
+    //------------------------------------------------------------------------------------
+    // Get the attributes	
+    TXString dmxPercentage;	pNode->GetNodeAttributeValue(XML_GDTF_PointDMXPercentage, dmxPercentage); 	GdtfConverter::ConvertDouble(dmxPercentage, pNode, fDMXPercentage);
+	TXString cfc3;			pNode->GetNodeAttributeValue(XML_GDTF_PointCFC3, cfc3); 					GdtfConverter::ConvertDouble(cfc3, pNode, fCFC3);
+	TXString cfc2;			pNode->GetNodeAttributeValue(XML_GDTF_PointCFC2, cfc2); 					GdtfConverter::ConvertDouble(cfc2, pNode, fCFC2);
+	TXString cfc1;			pNode->GetNodeAttributeValue(XML_GDTF_PointCFC1, cfc1); 					GdtfConverter::ConvertDouble(cfc1, pNode, fCFC1);
+	TXString cfc0;			pNode->GetNodeAttributeValue(XML_GDTF_PointCFC0, cfc0); 					GdtfConverter::ConvertDouble(cfc0, pNode, fCFC0);
+}
+
+void SceneData::GdtfPoint::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	optional.push_back(XML_GDTF_PointDMXPercentage);
+	optional.push_back(XML_GDTF_PointCFC3);
+	optional.push_back(XML_GDTF_PointCFC2);
+	optional.push_back(XML_GDTF_PointCFC1);
+	optional.push_back(XML_GDTF_PointCFC0);
+
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+//------------------------------------------------------------------------------------
+// DMXProfile
+
+SceneData::GdtfDMXProfile::GdtfDMXProfile()
+{
+	fUniqueName = "";
+}
+
+SceneData::GdtfDMXProfile::~GdtfDMXProfile()
+{
+	for(GdtfPointPtr point : fPoints) { delete point; }
+}
+
+EGdtfObjectType SceneData::GdtfDMXProfile::GetObjectType()
+{
+    return EGdtfObjectType::eGdtfDMXProfile;
+}
+
+TXString SceneData::GdtfDMXProfile::GetNodeReference()
+{
+	return fUniqueName;
+}
+
+const TXString&	SceneData::GdtfDMXProfile::GetName() const
+{
+	return fUniqueName;
+}
+
+TGdtfPointArray SceneData::GdtfDMXProfile::GetPointArray() const
+{
+	return fPoints;
+}
+
+void SceneData::GdtfDMXProfile::SetName(const TXString& name)
+{
+	fUniqueName = name;
+}
+
+GdtfPointPtr SceneData::GdtfDMXProfile::AddPoint(double DMXPercentage, double CFC3, double CFC2, double CFC1, double CFC0)
+{
+	GdtfPointPtr point = new GdtfPoint(DMXPercentage, CFC3, CFC2, CFC1, CFC0);
+	fPoints.push_back(point);
+	return point;
+}
+
+TXString SceneData::GdtfDMXProfile::GetNodeName()
+{
+    return XML_GDTF_DMX_Profile;
+}
+
+void SceneData::GdtfDMXProfile::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnPrintToFile(pNode);
+	
+	//------------------------------------------------------------------------------------
+    // Print the attributes
+    pNode->SetNodeAttributeValue(XML_GDTF_DMX_ProfileName, fUniqueName);
+
+    //------------------------------------------------------------------------------------
+    // Print the children
+    for (GdtfPoint* point : fPoints)
+    {
+        point->WriteToNode(pNode);
+    }
+}
+
+void SceneData::GdtfDMXProfile::OnReadFromNode(const IXMLFileNodePtr & pNode)
+{
+    //------------------------------------------------------------------------------------
+    // Call the parent
+    GdtfObject::OnReadFromNode(pNode);
+
+    //------------------------------------------------------------------------------------
+    // Get the attributes	
+    pNode->GetNodeAttributeValue(XML_GDTF_DMX_ProfileName, fUniqueName);
+
+    // Read the children
+    GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_Point, [this](IXMLFileNodePtr objNode) -> void
+    {
+		if ( CheckAbort() ) return;
+
+        GdtfPoint* point = new GdtfPoint();
+
+        point->ReadFromNode(objNode);
+
+        fPoints.push_back(point);
+
+        return;
+    });
+}
+
+void SceneData::GdtfDMXProfile::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	optional.push_back(XML_GDTF_DMX_ProfileName);
+
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+SceneData::GdtfCRIGroup::GdtfCRIGroup()
+{
+    fColorTemperature = 6000;
+}
+
+SceneData::GdtfCRIGroup::GdtfCRIGroup(double colorTemp)
+{
+    fColorTemperature = colorTemp;
+}
+
+SceneData::GdtfCRIGroup::~GdtfCRIGroup()
+{
+	for(GdtfCRIPtr ptr : fCRI_Array) { delete ptr; }
+}
+
+EGdtfObjectType SceneData::GdtfCRIGroup::GetObjectType()
+{
+    return EGdtfObjectType::eGdtfCRIGroup;
+}
+
+double SceneData::GdtfCRIGroup::GetColorTemperature() const
+{
+    return fColorTemperature;
+}
+
+TGdtf_CRIArray SceneData::GdtfCRIGroup::GetCRI_Array() const
+{
+    return fCRI_Array;
+}
+
+void SceneData::GdtfCRIGroup::SetColorTemperature(double val)
+{
+    fColorTemperature = val;
+}
+
+GdtfCRIPtr SceneData::GdtfCRIGroup::Add_CRI(EGdtfColorSample ces, Sint32 colorTemp)
+{
+    GdtfCRIPtr cri = new GdtfCRI(ces, colorTemp);
+    
+    fCRI_Array.push_back(cri);
+
+    return cri;
+}
+
+TXString SceneData::GdtfCRIGroup::GetNodeName()
+{
+    return XML_GDTF_ColorRenderingIndexGroup;
+}
+
+void SceneData::GdtfCRIGroup::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+    //------------------------------------------------------------------------------------
+    // Call the parent
+    GdtfObject::OnPrintToFile(pNode);
+
+    //------------------------------------------------------------------------------------
+    // Print the attributes
+    pNode->SetNodeAttributeValue(XML_GDTF_ColorRenderingIndexGroup_ColorTemp, GdtfConverter::ConvertDouble(fColorTemperature) );
+
+    //------------------------------------------------------------------------------------
+    // Print the children
+    for (GdtfCRI* cri : fCRI_Array)
+    {
+        cri->WriteToNode(pNode);
+    }
+}
+
+void SceneData::GdtfCRIGroup::OnReadFromNode(const IXMLFileNodePtr & pNode)
+{
+    //------------------------------------------------------------------------------------
+    // Call the parent
+    GdtfObject::OnReadFromNode(pNode);
+
+    //------------------------------------------------------------------------------------
+    // Get the attributes	
+    TXString colorTempStr; pNode->GetNodeAttributeValue(XML_GDTF_ColorRenderingIndexGroup_ColorTemp, colorTempStr);
+    GdtfConverter::ConvertDouble(colorTempStr, pNode, fColorTemperature);
+
+    // Read the children
+    GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_ColorRenderingIndex, [this](IXMLFileNodePtr objNode) -> void
+    {
+		if ( CheckAbort() ) return;
+
+        GdtfCRI* cri = new GdtfCRI();
+
+        cri->ReadFromNode(objNode);
+
+        fCRI_Array.push_back(cri);
+
+        return;
+    });
+}
+
+void SceneData::GdtfCRIGroup::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	optional.push_back(XML_GDTF_ColorRenderingIndexGroup_ColorTemp);
+
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+SceneData::GdtfCRI::GdtfCRI()
+{
+    fCES = EGdtfColorSample::CES_01;  // Default CES01
+    fCRI = 100;          // The color rendering index for this sample.Size: 1 byte; Default value : 100
+}
+
+SceneData::GdtfCRI::GdtfCRI(EGdtfColorSample ces, Uint8 cri)
+{
+    fCES = ces;
+    fCRI = cri;
+}
+
+SceneData::GdtfCRI::~GdtfCRI()
+{
+}
+
+EGdtfObjectType SceneData::GdtfCRI::GetObjectType()
+{
+    return EGdtfObjectType::eGdtfCRI;
+}
+
+EGdtfColorSample SceneData::GdtfCRI::GetColorSample() const
+{
+    return fCES;
+}
+
+Uint8 SceneData::GdtfCRI::GetColorRenderingIndex() const
+{
+    return fCRI;
+}
+
+void SceneData::GdtfCRI::SetColorSample(EGdtfColorSample val)
+{
+    fCES = val;
+}
+
+void SceneData::GdtfCRI::SetColorRenderingIndex(Uint8 val)
+{
+    fCRI = val;
+}
+
+TXString SceneData::GdtfCRI::GetNodeName()
+{
+    return XML_GDTF_ColorRenderingIndex;
+}
+
+void SceneData::GdtfCRI::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+    //------------------------------------------------------------------------------------
+    // Call the parent
+    GdtfObject::OnPrintToFile(pNode);
+
+    //------------------------------------------------------------------------------------
+    // Print the attributes
+    pNode->SetNodeAttributeValue(XML_GDTF_ColorRenderingIndex_CES, GdtfConverter::ConvertEGdtfColorSampleEnum(fCES) );
+    
+    pNode->SetNodeAttributeValue(XML_GDTF_ColorRenderingIndex_CRI, GdtfConverter::ConvertInteger(fCRI) );
+}
+
+void SceneData::GdtfCRI::OnReadFromNode(const IXMLFileNodePtr & pNode)
+{
+    //------------------------------------------------------------------------------------
+    // Call the parent
+    GdtfObject::OnReadFromNode(pNode);
+
+    //------------------------------------------------------------------------------------
+    // Get the attributes	
+    TXString cesStr;  pNode->GetNodeAttributeValue(XML_GDTF_ColorRenderingIndex_CES, cesStr);
+    GdtfConverter::ConvertEGdtfColorSampleEnum(cesStr, pNode, fCES);
+    //
+    TXString colorRenderingIndexStr; pNode->GetNodeAttributeValue(XML_GDTF_ColorRenderingIndex_CRI, colorRenderingIndexStr);
+    GdtfConverter::ConvertInteger(colorRenderingIndexStr, pNode, fCRI);
+}
+
+void SceneData::GdtfCRI::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	optional.push_back(XML_GDTF_ColorRenderingIndex_CES);
+	optional.push_back(XML_GDTF_ColorRenderingIndex_CRI);
+
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+
+TXString SceneData::GdtfFTRDM::GetNodeName()
+{
+	return XML_GDTF_FTRDM;
+}
+
+void SceneData::GdtfFTRDM::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnPrintToFile(pNode);
+	//------------------------------------------------------------------------------------
+	// Print the attributes
+	pNode->SetNodeAttributeValue(XML_GDTF_FTRDM_AttrManufacturerID, GdtfConverter::ConvertHexValue(fManufacturerID) );
+	pNode->SetNodeAttributeValue(XML_GDTF_FTRDM_AttrDeviceModelID,  GdtfConverter::ConvertHexValue(fDeviceModelID)  );	 
+	//------------------------------------------------------------------------------------
+    // Print the Childs
+	for (GdtfSoftwareVersionIDPtr softID : fSoftwareVersionIDArray)
+	{
+		softID->WriteToNode(pNode);
+	}
+}
+
+void SceneData::GdtfFTRDM::OnReadFromNode(const IXMLFileNodePtr & pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnReadFromNode(pNode);
+	
+	//------------------------------------------------------------------------------------
+	// Get the attributes
+	TXString manufactStr; pNode->GetNodeAttributeValue(XML_GDTF_FTRDM_AttrManufacturerID, manufactStr);
+	GdtfConverter::ConvertHexValue(manufactStr, pNode, fManufacturerID);
+	
+	TXString deviceModelStr;  pNode->GetNodeAttributeValue(XML_GDTF_FTRDM_AttrDeviceModelID, deviceModelStr);
+	GdtfConverter::ConvertHexValue(deviceModelStr, pNode, fDeviceModelID);
+    
+    //------------------------------------------------------------------------------------
+	// Read the childs
+	GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_SoftwareVersionID_NodeNam, [this](IXMLFileNodePtr objNode) -> void
+								 {
+									 if ( CheckAbort() ) return;
+
+									 GdtfSoftwareVersionIDPtr  softID = new GdtfSoftwareVersionID();
+									 
+									 softID->ReadFromNode(objNode);
+									 
+									 fSoftwareVersionIDArray.push_back(softID);
+									 return;
+								 });	
+}
+
+void SceneData::GdtfFTRDM::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_FTRDM_AttrManufacturerID);
+	needed.push_back(XML_GDTF_FTRDM_AttrDeviceModelID);	
+
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+SceneData::GdtfFTRDM::GdtfFTRDM()
+{
+	fManufacturerID = 0;
+	fDeviceModelID  = 0;
+}
+
+SceneData::GdtfFTRDM::GdtfFTRDM(size_t manufacturerID, size_t deviceModelID) : GdtfFTRDM()
+{
+	fManufacturerID = manufacturerID;
+	fDeviceModelID  = deviceModelID;
+}
+
+SceneData::GdtfFTRDM::~GdtfFTRDM()
+{	    
+     for (GdtfSoftwareVersionID* obj : fSoftwareVersionIDArray){ delete obj; }
+}
+
+EGdtfObjectType SceneData::GdtfFTRDM::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfFTRDM;
+}
+
+size_t SceneData::GdtfFTRDM::GetManufacturerID() const
+{
+	return fManufacturerID;
+}
+
+size_t SceneData::GdtfFTRDM::GetDeviceModelID() const
+{
+	return fDeviceModelID;
+}
+
+const TGdtfSoftwareVersionIDArray& SceneData::GdtfFTRDM::GetSoftwareVersIDs() const
+{
+	return fSoftwareVersionIDArray;
+}
+
+void SceneData::GdtfFTRDM::SetManufacturerID(size_t val)
+{
+	fManufacturerID = val;
+}
+
+void SceneData::GdtfFTRDM::SetDeviceModelID(size_t val)
+{
+	fDeviceModelID = val;
+}
+
+
+GdtfSoftwareVersionIDPtr SceneData::GdtfFTRDM::AddSoftwareVersID(size_t value)
+{
+    GdtfSoftwareVersionIDPtr softID = new GdtfSoftwareVersionID(value);
+	
+    fSoftwareVersionIDArray.push_back(softID);
+
+    return softID;
+}
+
+SceneData::GdtfDMXPersonality::GdtfDMXPersonality()
+{
+    fValue = 0;
+    fDMXMode = nullptr;
+    fDMXMode_Unresolved = "";
+}
+
+SceneData::GdtfDMXPersonality::GdtfDMXPersonality(size_t value, GdtfDmxModePtr dmxMode)
+{
+    fValue   = value;
+    fDMXMode = dmxMode;
+    fDMXMode_Unresolved = "";
+}
+
+SceneData::GdtfDMXPersonality::~GdtfDMXPersonality()
+{     
+}
+
+EGdtfObjectType SceneData::GdtfDMXPersonality::GetObjectType()
+{
+    return EGdtfObjectType::eGdtfDMXPersonality;
+}
+
+size_t SceneData::GdtfDMXPersonality::GetValue() const
+{
+    return fValue;
+}
+
+const TXString & SceneData::GdtfDMXPersonality::GetUnresolvedDMXMode() const
+{
+    return fDMXMode_Unresolved;
+}
+
+GdtfDmxModePtr SceneData::GdtfDMXPersonality::GetDMXMode() const
+{
+    return fDMXMode;
+}
+
+void SceneData::GdtfDMXPersonality::SetValue(size_t val)
+{
+    fValue = val;
+}
+
+void SceneData::GdtfDMXPersonality::SetDMXMode(GdtfDmxModePtr mode)
+{
+    fDMXMode = mode;
+}
+
+TXString SceneData::GdtfDMXPersonality::GetNodeName()
+{
+    return XML_GDTF_DMXPersonalityNodeNam;
+}
+
+void GdtfDMXPersonality::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+    //------------------------------------------------------------------------------------
+    // Call the parent
+    GdtfObject::OnPrintToFile(pNode);
+
+    //------------------------------------------------------------------------------------
+    // Print the attributes
+    pNode->SetNodeAttributeValue(XML_GDTF_DMXPersonalityValue, GdtfConverter::ConvertHexValue(fValue));
+    pNode->SetNodeAttributeValue(XML_GDTF_DMXPersonalityDMXMode, fDMXMode->GetModeName() );
+}
+
+void GdtfDMXPersonality::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+    //------------------------------------------------------------------------------------
+    // Call the parent
+    GdtfObject::OnReadFromNode(pNode);
+
+    //------------------------------------------------------------------------------------
+    // Get the attributes	
+    TXString valueStr;
+    pNode->GetNodeAttributeValue(XML_GDTF_DMXPersonalityValue, valueStr);
+    GdtfConverter::ConvertHexValue(valueStr, pNode, fValue);
+
+    pNode->GetNodeAttributeValue(XML_GDTF_DMXPersonalityDMXMode, fDMXMode_Unresolved);
+}
+
+SceneData::GdtfProtocols::GdtfProtocols()
+{
+	fRDM              = nullptr;
+	fArtNet           = nullptr;
+	fsACN             = nullptr;
+	fKiNET            = nullptr;
+	fPosiStageNet     = nullptr;
+	fOpenSoundControl = nullptr;
+	fCITP             = nullptr;
+}
+
+SceneData::GdtfProtocols::~GdtfProtocols()
+{
+	if (fRDM)              {delete fRDM;}
+	if (fArtNet)           {delete fArtNet;}
+	if (fsACN)             {delete fsACN;}
+	if (fKiNET)            {delete fKiNET;}
+	if (fPosiStageNet)     {delete fPosiStageNet;}
+	if (fOpenSoundControl) {delete fOpenSoundControl;}
+	if (fCITP)             {delete fCITP;}
+}
+
+EGdtfObjectType SceneData::GdtfProtocols::GetObjectType()
+{
+	return EGdtfObjectType::eProtocols;
+}
+
+GdtfFTRDM * SceneData::GdtfProtocols::GetRDM()
+{
+	return fRDM;
+}
+
+GdtfArtNet * SceneData::GdtfProtocols::GetArtNet()
+{
+	return fArtNet;
+}
+
+GdtfsAcn * SceneData::GdtfProtocols::GetSACN()
+{
+	return fsACN;
+}
+
+GdtfKiNET * SceneData::GdtfProtocols::GetKiNET()
+{
+	return fKiNET;
+}
+
+GdtfPosiStageNet * SceneData::GdtfProtocols::GetPosiStageNet()
+{
+	return fPosiStageNet;
+}
+
+GdtfOpenSoundControl * SceneData::GdtfProtocols::GetOpenSoundControl()
+{
+	return fOpenSoundControl;
+}
+
+GdtfCITP * SceneData::GdtfProtocols::GetCITP()
+{
+	return fCITP;
+}
+
+GdtfFTRDM * SceneData::GdtfProtocols::CreateRDM()
+{
+	fRDM = new GdtfFTRDM();
+	return fRDM;
+}
+
+GdtfArtNet* SceneData::GdtfProtocols::CreateArtNet()
+{
+	fArtNet = new GdtfArtNet();
+	return fArtNet;
+}
+
+GdtfsAcn* SceneData::GdtfProtocols::CreateSACN()
+{
+	fsACN = new GdtfsAcn();
+	return fsACN;
+}
+
+void SceneData::GdtfProtocols::SetKiNET(GdtfKiNET * val)
+{
+	fKiNET = val;
+}
+
+void SceneData::GdtfProtocols::SetPosiStageNet(GdtfPosiStageNet * val)
+{
+	fPosiStageNet = val;
+}
+
+void SceneData::GdtfProtocols::SetOpenSoundControl(GdtfOpenSoundControl * val)
+{
+	fOpenSoundControl = val;
+}
+
+void SceneData::GdtfProtocols::SetCITP(GdtfCITP * val)
+{
+	fCITP = val;
+}
+
+TXString SceneData::GdtfProtocols::GetNodeName()
+{
+	return XML_GDTF_Protocols;
+}
+
+void SceneData::GdtfProtocols::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnPrintToFile(pNode);
+	//------------------------------------------------------------------------------------
+	// Print the childs
+	if (fRDM)              { fRDM->WriteToNode(pNode); }
+	if (fArtNet)           { fArtNet->WriteToNode(pNode); }
+	if (fsACN)             { fsACN->WriteToNode(pNode); }
+	if (fKiNET)            { fKiNET->WriteToNode(pNode); }
+	if (fPosiStageNet)     { fPosiStageNet->WriteToNode(pNode); }
+	if (fOpenSoundControl) { fOpenSoundControl->WriteToNode(pNode); }
+	if (fCITP)             { fCITP->WriteToNode(pNode); }
+}
+
+void SceneData::GdtfProtocols::OnReadFromNode(const IXMLFileNodePtr & pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	 GdtfObject::OnReadFromNode(pNode);
+	
+	//------------------------------------------------------------------------------------
+	// Read the childs	
+	IXMLFileNodePtr ftrdmNode;
+	if (VCOM_SUCCEEDED( pNode->GetChildNode(XML_GDTF_FTRDM, &ftrdmNode)) )
+	{
+		fRDM = new GdtfFTRDM();
+		fRDM->ReadFromNode(ftrdmNode);
+	}
+	
+	IXMLFileNodePtr artNetNode;
+	if (VCOM_SUCCEEDED(pNode->GetChildNode(XML_GDTF_ArtNet, &artNetNode)))
+	{
+		fArtNet = new GdtfArtNet();
+		fArtNet->ReadFromNode(artNetNode);
+	}
+	
+	IXMLFileNodePtr sAcnNode;
+	if (VCOM_SUCCEEDED(pNode->GetChildNode(XML_GDTF_sACN, &sAcnNode)))
+	{
+		fsACN = new GdtfsAcn();
+		fsACN->ReadFromNode(sAcnNode);
+	}
+	
+	IXMLFileNodePtr kinetNode;
+	if (VCOM_SUCCEEDED(pNode->GetChildNode(XML_GDTF_KiNET, &kinetNode)))
+	{
+		fKiNET = new GdtfKiNET();
+		fKiNET->ReadFromNode(kinetNode);
+	}
+	
+	IXMLFileNodePtr posiStageNetNode;
+	if (VCOM_SUCCEEDED(pNode->GetChildNode(XML_GDTF_PosiStageNet, &posiStageNetNode)))
+	{
+		fPosiStageNet = new GdtfPosiStageNet();
+		fPosiStageNet->ReadFromNode(posiStageNetNode);
+	}
+	
+	IXMLFileNodePtr openSoundControlNode;
+	if (VCOM_SUCCEEDED(pNode->GetChildNode(XML_GDTF_OpenSoundControl, &openSoundControlNode)))
+	{
+		fOpenSoundControl = new GdtfOpenSoundControl();
+		fOpenSoundControl->ReadFromNode(openSoundControlNode);
+	}
+	
+	IXMLFileNodePtr ctipNode;
+	if (VCOM_SUCCEEDED(pNode->GetChildNode(XML_GDTF_CITP, &ctipNode)))
+	{
+		fCITP = new GdtfCITP();
+		fCITP->ReadFromNode(ctipNode);
+	}
+}
+
+void SceneData::GdtfProtocols::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+//------------------------------------------------------------------------------------
+// GdtfMap
+GdtfMap::GdtfMap()
+{
+}
+
+GdtfMap::GdtfMap(Uint32 key, Uint32 value)
+{
+	fKey 	= key;
+	fValue 	= value;
+}
+
+GdtfMap::~GdtfMap()
+{
+}
+
+Uint32 GdtfMap::GetKey() const
+{
+	return fKey;
+}
+
+Uint32 GdtfMap::GetValue() const
+{
+	return fValue;
+}
+
+void GdtfMap::SetKey(Uint32 key)
+{
+	fKey = key;
+}
+
+void GdtfMap::SetValue(Uint32 value)
+{
+	fValue = value;
+}
+
+void GdtfMap::OnPrintToFile(IXMLFileNodePtr pNode) 
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnPrintToFile(pNode);
+
+	pNode->SetNodeAttributeValue(XML_GDTF_MapKey,	GdtfConverter::ConvertInteger(fKey));
+	pNode->SetNodeAttributeValue(XML_GDTF_MapValue,	GdtfConverter::ConvertInteger(fValue));
+}
+
+void GdtfMap::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnReadFromNode(pNode);
+
+	TXString key;	pNode->GetNodeAttributeValue(XML_GDTF_MapKey,	key);	GdtfConverter::ConvertInteger(key, pNode, fKey);
+	TXString value;	pNode->GetNodeAttributeValue(XML_GDTF_MapValue,	value);	GdtfConverter::ConvertInteger(value, pNode,	fValue);
+}
+
+void GdtfMap::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_MapKey);
+	needed.push_back(XML_GDTF_MapValue);
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfMap::GetObjectType() 
+{
+	return EGdtfObjectType::eGdtfMap;
+}
+
+TXString GdtfMap::GetNodeName()
+{
+	return XML_GDTF_MapNodeName;
+}
+
+//------------------------------------------------------------------------------------
+// GdtfArtNet
+
+SceneData::GdtfArtNet::GdtfArtNet()
+{
+}
+
+SceneData::GdtfArtNet::~GdtfArtNet()
+{
+	for(GdtfMapPtr map : fMaps) { delete map; }
+}
+
+const TGdtfMapArray& GdtfArtNet::GetMapArray()
+{
+	return fMaps;
+}
+
+GdtfMapPtr GdtfArtNet::CreateMap(Uint32 key, Uint32 value)
+{
+	GdtfMapPtr map = new GdtfMap(key, value);
+	fMaps.push_back(map);
+	return map;
+}
+
+void GdtfArtNet::OnPrintToFile(IXMLFileNodePtr pNode) 
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnPrintToFile(pNode);
+
+	for(GdtfMapPtr map : fMaps)
+	{
+		map->WriteToNode(pNode);
+	}
+}
+
+void GdtfArtNet::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnReadFromNode(pNode);
+
+	// Read the children
+    GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_MapNodeName, [this](IXMLFileNodePtr objNode) -> void
+    {
+		if ( CheckAbort() ) return;
+
+        GdtfMapPtr map = new GdtfMap();
+
+        map->ReadFromNode(objNode);
+
+        fMaps.push_back(map);
+
+        return;
+    });
+
+}
+
+EGdtfObjectType SceneData::GdtfArtNet::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfArtNet;
+}
+
+TXString SceneData::GdtfArtNet::GetNodeName()
+{
+	return XML_GDTF_ArtNet;
+}
+
+//------------------------------------------------------------------------------------
+// GdtfsAcn
+
+SceneData::GdtfsAcn::GdtfsAcn()
+{
+}
+
+SceneData::GdtfsAcn::~GdtfsAcn()
+{
+	for(GdtfMapPtr map : fMaps) { delete map; }
+}
+
+const TGdtfMapArray& GdtfsAcn::GetMapArray()
+{
+	return fMaps;
+}
+
+GdtfMapPtr GdtfsAcn::CreateMap(Uint32 key, Uint32 value)
+{
+	GdtfMapPtr map = new GdtfMap(key, value);
+	fMaps.push_back(map);
+	return map;
+}
+
+void GdtfsAcn::OnPrintToFile(IXMLFileNodePtr pNode) 
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnPrintToFile(pNode);
+
+	for(GdtfMapPtr map : fMaps)
+	{
+		map->WriteToNode(pNode);
+	}
+}
+
+void GdtfsAcn::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnReadFromNode(pNode);
+
+	// Read the children
+    GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_MapNodeName, [this](IXMLFileNodePtr objNode) -> void
+    {
+		if ( CheckAbort() ) return;
+
+        GdtfMapPtr map = new GdtfMap();
+
+        map->ReadFromNode(objNode);
+
+        fMaps.push_back(map);
+
+        return;
+    });
+
+}
+
+EGdtfObjectType SceneData::GdtfsAcn::GetObjectType()
+{
+	return EGdtfObjectType::eGdtf_sACN;
+}
+
+TXString SceneData::GdtfsAcn::GetNodeName()
+{
+	return XML_GDTF_sACN;
+}
+
+//------------------------------------------------------------------------------------
+// GdtfKiNET
+
+SceneData::GdtfKiNET::GdtfKiNET()
+{
+}
+
+SceneData::GdtfKiNET::~GdtfKiNET()
+{
+}
+
+EGdtfObjectType SceneData::GdtfKiNET::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfKiNET;
+}
+
+TXString SceneData::GdtfKiNET::GetNodeName()
+{
+	return XML_GDTF_KiNET;
+}
+
+//------------------------------------------------------------------------------------
+// GdtfPosiStageNet
+
+SceneData::GdtfPosiStageNet::GdtfPosiStageNet()
+{
+}
+
+SceneData::GdtfPosiStageNet::~GdtfPosiStageNet()
+{
+}
+
+EGdtfObjectType SceneData::GdtfPosiStageNet::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfPosiStageNet;
+}
+
+TXString SceneData::GdtfPosiStageNet::GetNodeName()
+{
+	return XML_GDTF_PosiStageNet;
+}
+
+//------------------------------------------------------------------------------------
+// GdtfOpenSoundControl
+
+SceneData::GdtfOpenSoundControl::GdtfOpenSoundControl()
+{
+}
+
+SceneData::GdtfOpenSoundControl::~GdtfOpenSoundControl()
+{
+}
+
+EGdtfObjectType SceneData::GdtfOpenSoundControl::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfOpenSoundControl;
+}
+
+TXString SceneData::GdtfOpenSoundControl::GetNodeName()
+{
+	return XML_GDTF_OpenSoundControl;
+}
+
+//------------------------------------------------------------------------------------
+// GdtfCITP
+
+SceneData::GdtfCITP::GdtfCITP()
+{
+}
+
+SceneData::GdtfCITP::~GdtfCITP()
+{
+}
+
+EGdtfObjectType SceneData::GdtfCITP::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfCITP;
+}
+
+TXString SceneData::GdtfCITP::GetNodeName()
+{
+	return XML_GDTF_CITP;
+}
+
+//------------------------------------------------------------------------------------
+// GdtfMacroDMX
+
+SceneData::GdtfMacroDMX::GdtfMacroDMX()
+{
+}
+
+SceneData::GdtfMacroDMX::~GdtfMacroDMX()
+{
+}
+
+EGdtfObjectType SceneData::GdtfMacroDMX::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfMacroDMX;
+}
+
+TGdtfMacroDMXStepArray SceneData::GdtfMacroDMX::GetStepArray()
+{
+	return fDMXSetps;
+}
+
+GdtfMacroDMXStepPtr SceneData::GdtfMacroDMX::AddDmxStep(double& duration)
+{
+	GdtfMacroDMXStepPtr dmxStep = new GdtfMacroDMXStep(duration);
+	fDMXSetps.push_back(dmxStep);
+	
+	return dmxStep;
+}
+
+TXString SceneData::GdtfMacroDMX::GetNodeName()
+{
+	return XML_GDTF_MacroDMX;
+}
+
+void SceneData::GdtfMacroDMX::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnPrintToFile(pNode);
+	
+	//------------------------------------------------------------------------------------
+	// Print the attributes
+	// -
+	//------------------------------------------------------------------------------------
+	// Print the childs
+	for (GdtfMacroDMXStep* dmxStep : fDMXSetps)
+	{
+		dmxStep->WriteToNode(pNode);
+	}
+}
+
+void SceneData::GdtfMacroDMX::OnReadFromNode(const IXMLFileNodePtr & pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnReadFromNode(pNode);
+	
+	//------------------------------------------------------------------------------------
+	// Get the attributes
+	// -
+	// Read the childs
+	GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_MacroDMXStep, [this](IXMLFileNodePtr objNode) -> void
+								 {
+									 if ( CheckAbort() ) return;
+									 GdtfMacroDMXStepPtr  dmxStep = new GdtfMacroDMXStep();
+									 
+									 dmxStep->ReadFromNode(objNode);
+									 
+									 fDMXSetps.push_back(dmxStep);
+									 return;
+								 });
+}
+
+SceneData::GdtfMacroDMXValue::GdtfMacroDMXValue()
+{
+	fDMXChannel = nullptr;
+}
+
+SceneData::GdtfMacroDMXValue::GdtfMacroDMXValue(DmxValue dmxVal, GdtfDmxChannelPtr dmxChannel)
+{
+	fValue = dmxVal;
+	funresolvedDMXChannel = "";
+	fDMXChannel = dmxChannel;
+}
+
+SceneData::GdtfMacroDMXValue::~GdtfMacroDMXValue()
+{
+	if (fDMXChannel) { delete fDMXChannel; }
+}
+
+SceneData::GdtfMacroDMXStep::GdtfMacroDMXStep()
+{
+}
+
+SceneData::GdtfMacroDMXStep::GdtfMacroDMXStep(double duration)
+{
+	fDuration = duration;
+}
+
+SceneData::GdtfMacroDMXStep::~GdtfMacroDMXStep()
+{
+}
+
+EGdtfObjectType SceneData::GdtfMacroDMXStep::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfMacroDMXStep;
+}
+
+double SceneData::GdtfMacroDMXStep::GetDuration() const
+{
+	return fDuration;
+}
+
+TGdtfMacroDMXValueArray SceneData::GdtfMacroDMXStep::GetDMXValueArray() const
+{
+	return fDMXValues;
+}
+
+void SceneData::GdtfMacroDMXStep::SetDuration(double d)
+{
+	fDuration = d;
+}
+
+GdtfMacroDMXValuePtr SceneData::GdtfMacroDMXStep::AddDmxValue(DmxValue dmxVal, GdtfDmxChannelPtr dmxChannel)
+{
+	GdtfMacroDMXValuePtr val = new GdtfMacroDMXValue(dmxVal, dmxChannel);
+	fDMXValues.push_back(val);
+	
+	return val;
+}
+
+TXString SceneData::GdtfMacroDMXStep::GetNodeName()
+{
+	return XML_GDTF_MacroDMXStep;
+}
+
+void SceneData::GdtfMacroDMXStep::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnPrintToFile(pNode);
+	
+	//------------------------------------------------------------------------------------
+	// Print the attributes
+	pNode->SetNodeAttributeValue(XML_GDTF_MacroDMXStepDuration, GdtfConverter::ConvertDouble(fDuration) );
+	
+	//------------------------------------------------------------------------------------
+	// Print the childs
+	for (GdtfMacroDMXValuePtr dmxVal : fDMXValues)
+	{
+		dmxVal->WriteToNode(pNode);
+	}
+}
+
+void SceneData::GdtfMacroDMXStep::OnReadFromNode(const IXMLFileNodePtr & pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnReadFromNode(pNode);
+	//------------------------------------------------------------------------------------
+	// Get the attributes
+	TXString durationStr;
+	pNode->GetNodeAttributeValue(XML_GDTF_MacroDMXStepDuration, durationStr);
+	GdtfConverter::ConvertDouble(durationStr, pNode, fDuration);
+	// Read the childs
+	GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_MacroDMXValue, [this](IXMLFileNodePtr objNode) -> void
+								 {
+									 if ( CheckAbort() ) return;
+									 GdtfMacroDMXValuePtr dmxValue= new GdtfMacroDMXValue();
+									 
+									 dmxValue->ReadFromNode(objNode);
+									 
+									 fDMXValues.push_back(dmxValue);
+									 return;
+								 });
+}
+
+void SceneData::GdtfMacroDMXStep::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	optional.push_back(XML_GDTF_MacroDMXStepDuration);
+
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType SceneData::GdtfMacroDMXValue::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfMacroDMXValue;
+}
+
+const TXString & SceneData::GdtfMacroDMXValue::GetUnresolvedDMXValue() const
+{
+	return funresolvedValue;
+}
+
+DmxValue SceneData::GdtfMacroDMXValue::GetValue() const
+{
+	return fValue;
+}
+
+const TXString & SceneData::GdtfMacroDMXValue::GetUnresolvedDMXChannel() const
+{
+	return funresolvedDMXChannel;
+}
+
+GdtfDmxChannelPtr SceneData::GdtfMacroDMXValue::GetDMXChannel() const
+{
+	return fDMXChannel;
+}
+
+void SceneData::GdtfMacroDMXValue::SetValue(DmxValue val)
+{
+	fValue = val;
+}
+
+void SceneData::GdtfMacroDMXValue::SetDMXChannel(GdtfDmxChannelPtr chnl)
+{
+	fDMXChannel = chnl;
+}
+
+TXString SceneData::GdtfMacroDMXValue::GetNodeName()
+{
+	return XML_GDTF_MacroDMXValue;
+}
+
+void SceneData::GdtfMacroDMXValue::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnPrintToFile(pNode);
+
+	EGdtfChannelBitResolution resolution = EGdtfChannelBitResolution::eGdtfChannelBitResolution_8;
+	ASSERTN(kEveryone, fDMXChannel != nullptr);
+	if(fDMXChannel)
+	{
+		resolution = fDMXChannel->GetChannelBitResolution();
+	}
+
+	//------------------------------------------------------------------------------------
+	// Print the attributes
+	pNode->SetNodeAttributeValue(XML_GDTF_MacroDMXValue_AttrValue, GdtfConverter::ConvertDMXValue(fValue, resolution));
+	//
+	pNode->SetNodeAttributeValue(XML_GDTF_MacroDMXValue_AttrChannel, fDMXChannel->GetNodeReference() );
+}
+
+void SceneData::GdtfMacroDMXValue::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnReadFromNode(pNode);	
+	//------------------------------------------------------------------------------------
+	// Get the attributes
+	pNode->GetNodeAttributeValue(XML_GDTF_MacroDMXValue_AttrValue, funresolvedValue);
+	//
+	pNode->GetNodeAttributeValue(XML_GDTF_MacroDMXValue_AttrChannel, funresolvedDMXChannel);
+}
+
+void SceneData::GdtfMacroDMXValue::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_MacroDMXValue_AttrValue);
+	needed.push_back(XML_GDTF_MacroDMXValue_AttrChannel);
+
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+SceneData::GdtfMacroVisual::GdtfMacroVisual()
+{
+}
+
+SceneData::GdtfMacroVisual::~GdtfMacroVisual()
+{
+
+}
+
+EGdtfObjectType SceneData::GdtfMacroVisual::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfMacroVisual;
+}
+
+TGdtfMacroVisualStepArray SceneData::GdtfMacroVisual::GetVisualStepArray()
+{
+	return fVisualSteps;
+}
+
+GdtfMacroVisualStepPtr SceneData::GdtfMacroVisual::AddVisualStep()
+{
+	GdtfMacroVisualStepPtr visuealStep = new GdtfMacroVisualStep();
+	fVisualSteps.push_back(visuealStep);
+	
+	return visuealStep;
+}
+
+TXString SceneData::GdtfMacroVisual::GetNodeName()
+{
+	return XML_GDTF_MacroVisual;
+}
+
+void SceneData::GdtfMacroVisual::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnPrintToFile(pNode);
+	
+	//------------------------------------------------------------------------------------
+	// Print the attributes
+	// -
+	//------------------------------------------------------------------------------------
+	// Print the childs
+	for (GdtfMacroVisualStepPtr visualStep : fVisualSteps)
+	{
+		visualStep->WriteToNode(pNode);
+	}
+}
+
+void SceneData::GdtfMacroVisual::OnReadFromNode(const IXMLFileNodePtr & pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnReadFromNode(pNode);
+	
+	//------------------------------------------------------------------------------------
+	// Get the attributes
+	// -
+	// Read the childs
+	GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_MacroVisualStep, [this](IXMLFileNodePtr objNode) -> void
+								 {
+									 if ( CheckAbort() ) return;
+									 GdtfMacroVisualStepPtr macroVisual= new GdtfMacroVisualStep();
+									 
+									 macroVisual->ReadFromNode(objNode);
+									 
+									 fVisualSteps.push_back(macroVisual);
+									 return;
+								 });
+}
+
+SceneData::GdtfMacroVisualStep::GdtfMacroVisualStep()
+{
+	fDuration = 1; // Default value: 1; Size 1 byte; Unit: DMX frame.
+	fFade = 0;     // Default value: 0.0. Unit: milliseconds.
+	fDelay = 0;    // Default value: 0.0. Unit: milliseconds.
+}
+
+SceneData::GdtfMacroVisualStep::~GdtfMacroVisualStep()
+{
+	for(const auto& i: fVisualValues){ delete i; }
+}
+
+TGdtfMacroVisualValueArray SceneData::GdtfMacroVisualStep::GetVisualValueArray()
+{
+	return fVisualValues;
+}
+
+EGdtfObjectType SceneData::GdtfMacroVisualStep::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfMacroVisualStep;
+}
+
+double SceneData::GdtfMacroVisualStep::getDuration()
+{
+	return fDuration;
+}
+
+double SceneData::GdtfMacroVisualStep::getFade()
+{
+	return fFade;
+}
+
+double SceneData::GdtfMacroVisualStep::getDelay()
+{
+	return fDelay;
+}
+
+void SceneData::GdtfMacroVisualStep::setDuration(double d)
+{
+	fDuration = d;
+}
+
+void SceneData::GdtfMacroVisualStep::setFade(double f)
+{
+	fFade = f;
+}
+
+void SceneData::GdtfMacroVisualStep::setDelay(double d)
+{
+	fDelay = d;
+}
+
+GdtfMacroVisualValue* SceneData::GdtfMacroVisualStep::AddVisualValue(DmxValue& dmxVal, GdtfDmxChannelFunctionPtr channelFunctionRef)
+{
+	GdtfMacroVisualValue* val = new GdtfMacroVisualValue(dmxVal, channelFunctionRef);
+	
+	fVisualValues.push_back(val);
+	
+	return val;
+}
+
+TXString SceneData::GdtfMacroVisualStep::GetNodeName()
+{
+	return XML_GDTF_MacroVisualStep;
+}
+
+void SceneData::GdtfMacroVisualStep::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnPrintToFile(pNode);
+	
+	//------------------------------------------------------------------------------------
+	// Print the attributes
+	pNode->SetNodeAttributeValue(XML_GDTF_MacroVisualStep_AttrDuration, GdtfConverter::ConvertDouble(fDuration));
+	pNode->SetNodeAttributeValue(XML_GDTF_MacroVisualStep_AttrFade,     GdtfConverter::ConvertDouble (fFade));
+	pNode->SetNodeAttributeValue(XML_GDTF_MacroVisualStep_AttrDelay,    GdtfConverter::ConvertDouble (fDelay));
+	
+	//------------------------------------------------------------------------------------
+	// Print the childs
+	for (GdtfMacroVisualValuePtr visualVal : fVisualValues)
+	{
+		visualVal->WriteToNode(pNode);
+	}
+}
+
+void SceneData::GdtfMacroVisualStep::OnReadFromNode(const IXMLFileNodePtr & pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnReadFromNode(pNode);
+	
+	//------------------------------------------------------------------------------------
+	// Get the attributes
+	TXString durationStr; pNode->GetNodeAttributeValue(XML_GDTF_MacroVisualStep_AttrDuration, durationStr);
+	GdtfConverter::ConvertDouble(durationStr, pNode, fDuration);
+	TXString fadeStr;     pNode->GetNodeAttributeValue(XML_GDTF_MacroVisualStep_AttrFade, fadeStr);
+	GdtfConverter::ConvertDouble(fadeStr, pNode, fFade);
+	TXString delayStr;    pNode->GetNodeAttributeValue(XML_GDTF_MacroVisualStep_AttrDelay, delayStr);
+	GdtfConverter::ConvertDouble(delayStr, pNode, fDelay);
+	
+	// Read the childs
+	GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_MacroVisualValue, [this](IXMLFileNodePtr objNode) -> void
+								 {
+									 if ( CheckAbort() ) return;
+									 GdtfMacroVisualValuePtr visuealVal = new GdtfMacroVisualValue();
+									 
+									 visuealVal->ReadFromNode(objNode);
+									 
+									 fVisualValues.push_back(visuealVal);
+									 return;
+								 });
+}
+
+void SceneData::GdtfMacroVisualStep::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	optional.push_back(XML_GDTF_MacroVisualStep_AttrDuration);
+	optional.push_back(XML_GDTF_MacroVisualStep_AttrFade);
+	optional.push_back(XML_GDTF_MacroVisualStep_AttrDelay);
+
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+SceneData::GdtfMacroVisualValue::GdtfMacroVisualValue()
+{
+	fChannelFunctionRef = nullptr;
+}
+
+SceneData::GdtfMacroVisualValue::GdtfMacroVisualValue(DmxValue dmxVal, GdtfDmxChannelFunctionPtr channelFunctionRef)
+{
+	fDmxValue = dmxVal;
+	fChannelFunctionRef = channelFunctionRef;
+}
+
+SceneData::GdtfMacroVisualValue::~GdtfMacroVisualValue()
+{
+	if (fChannelFunctionRef) { delete fChannelFunctionRef; }
+}
+
+EGdtfObjectType SceneData::GdtfMacroVisualValue::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfMacroVisualValue;
+}
+
+const TXString & SceneData::GdtfMacroVisualValue::GetUnresolvedDMXValue() const
+{
+	return funresolvedValue;
+}
+
+DmxValue SceneData::GdtfMacroVisualValue::GetDmxValue() const
+{
+	return fDmxValue;
+}
+
+const TXString & SceneData::GdtfMacroVisualValue::GetUnresolvedChannelFunctionRef() const
+{
+	return fUnresolvedChannelFunctionRef;
+}
+
+GdtfDmxChannelFunctionPtr SceneData::GdtfMacroVisualValue::GetChannelFunctionRef() const
+{
+	return fChannelFunctionRef;
+}
+
+void SceneData::GdtfMacroVisualValue::SetDmxValue(DmxValue val)
+{
+	fDmxValue = val;
+}
+
+void SceneData::GdtfMacroVisualValue::SetUnresolvedChannelFunctionRef(const TXString& ref)
+{
+	fUnresolvedChannelFunctionRef = ref;
+}
+
+void SceneData::GdtfMacroVisualValue::SetChannelFunction(GdtfDmxChannelFunctionPtr ref)
+{
+	fChannelFunctionRef = ref;
+}
+
+TXString SceneData::GdtfMacroVisualValue::GetNodeName()
+{
+	return XML_GDTF_MacroVisualValue;
+}
+
+void SceneData::GdtfMacroVisualValue::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnPrintToFile(pNode);
+
+	EGdtfChannelBitResolution resolution = EGdtfChannelBitResolution::eGdtfChannelBitResolution_8;
+	ASSERTN(kEveryone, fChannelFunctionRef != nullptr);
+	if(fChannelFunctionRef) {resolution = fChannelFunctionRef->GetParentDMXChannel()->GetChannelBitResolution(); }
+	
+	//------------------------------------------------------------------------------------
+	// Print the attributes
+	pNode->SetNodeAttributeValue(XML_GDTF_MacroVisualValue_AttrValue, GdtfConverter::ConvertDMXValue(fDmxValue, resolution));
+	pNode->SetNodeAttributeValue(XML_GDTF_MacroVisualValue_AttrChanFunc, fChannelFunctionRef->GetNodeReference() );
+}
+
+void SceneData::GdtfMacroVisualValue::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnReadFromNode(pNode);
+
+	pNode->GetNodeAttributeValue(XML_GDTF_MacroVisualValue_AttrValue, funresolvedValue);
+	//
+	pNode->GetNodeAttributeValue(XML_GDTF_MacroVisualValue_AttrChanFunc, fUnresolvedChannelFunctionRef);
+}
+
+void SceneData::GdtfMacroVisualValue::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_MacroVisualValue_AttrValue);
+	needed.push_back(XML_GDTF_MacroVisualValue_AttrChanFunc);
+
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+SceneData::GdtfSoftwareVersionID::GdtfSoftwareVersionID()
+{
+    fValue = 0;
+}
+
+SceneData::GdtfSoftwareVersionID::GdtfSoftwareVersionID(size_t value)
+{
+    fValue = value;
+}
+
+SceneData::GdtfSoftwareVersionID::~GdtfSoftwareVersionID()
+{
+     for (GdtfDMXPersonalityPtr obj		: fDmxPersonalityArray){ delete obj; }
+}
+
+EGdtfObjectType SceneData::GdtfSoftwareVersionID::GetObjectType()
+{
+    return EGdtfObjectType::eGdtfSoftwareVersionID;
+}
+
+size_t SceneData::GdtfSoftwareVersionID::GetValue() const
+{
+    return fValue;
+}
+
+const TGdtfDMXPersonalityArray& SceneData::GdtfSoftwareVersionID::GetDMXPersonalityArray()
+{
+    return fDmxPersonalityArray;
+}
+
+void SceneData::GdtfSoftwareVersionID::SetValue(size_t val)
+{
+    fValue = val;
+}
+
+GdtfDMXPersonalityPtr SceneData::GdtfSoftwareVersionID::AddDMXPersonality(size_t value, GdtfDmxModePtr dmxMode)
+{
+    GdtfDMXPersonalityPtr dmxPerso = new GdtfDMXPersonality(value, dmxMode);
+    fDmxPersonalityArray.push_back(dmxPerso);
+
+    return dmxPerso;
+}
+
+TXString SceneData::GdtfSoftwareVersionID::GetNodeName()
+{
+    return XML_GDTF_SoftwareVersionID_NodeNam;
+}
+
+void SceneData::GdtfSoftwareVersionID::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+    //------------------------------------------------------------------------------------
+    // Call the parent
+    GdtfObject::OnPrintToFile(pNode);
+
+    //------------------------------------------------------------------------------------
+    // Print the attributes
+    pNode->SetNodeAttributeValue(XML_GDTF_SoftwareVersionID_Value, GdtfConverter::ConvertHexValue(fValue));
+
+    //------------------------------------------------------------------------------------
+    // Print the childs
+    for (GdtfDMXPersonalityPtr dmxPerso: fDmxPersonalityArray)
+    {
+        dmxPerso->WriteToNode(pNode);
+    }
+}
+
+void SceneData::GdtfSoftwareVersionID::OnReadFromNode(const IXMLFileNodePtr & pNode)
+{
+    //------------------------------------------------------------------------------------
+    // Call the parent
+    GdtfObject::OnReadFromNode(pNode);
+
+    //------------------------------------------------------------------------------------
+    // Get the attributes
+    TXString valueStr; pNode->GetNodeAttributeValue(XML_GDTF_SoftwareVersionID_Value, valueStr);
+    GdtfConverter::ConvertHexValue( valueStr, pNode, fValue);
+
+    // Read the childs
+    GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_DMXPersonalityNodeNam, [this](IXMLFileNodePtr objNode) -> void
+    {
+		if ( CheckAbort() ) return;
+        GdtfDMXPersonalityPtr dmxPerso = new GdtfDMXPersonality();
+
+        dmxPerso->ReadFromNode(objNode);
+
+        fDmxPersonalityArray.push_back(dmxPerso);
+        return;
+    });
+}
+
+//------------------------------------------------------------------------------------
+// GdtfGamut
+GdtfGamut::GdtfGamut()
+{
+}
+
+GdtfGamut::GdtfGamut(const TXString& name, CCieColorPtr color)
+{
+	fUniqueName = name;
+
+	fGamutPoints.push_back(color);
+}
+
+GdtfGamut::~GdtfGamut()
+{
+	for(CCieColorPtr color : fGamutPoints) { delete color; }
+}
+
+const TXString&	GdtfGamut::GetName() const
+{
+	return fUniqueName;
+}
+
+const TCCieColorArray& GdtfGamut::GetGamutPoints() const
+{
+	return fGamutPoints;
+}
+
+void GdtfGamut::SetName(const TXString& name)
+{
+	fUniqueName = name;
+}
+
+void GdtfGamut::AddGamutPoint(CCieColorPtr newPoint)
+{
+	fGamutPoints.push_back(newPoint);
+}
+
+void GdtfGamut::OnPrintToFile(IXMLFileNodePtr pNode) 
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnPrintToFile(pNode);
+
+	pNode->SetNodeAttributeValue(XML_GDTF_GamutName, 	fUniqueName);
+	pNode->SetNodeAttributeValue(XML_GDTF_GamutPoints,	GdtfConverter::ConvertColorArray(fGamutPoints));
+}
+
+void GdtfGamut::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnReadFromNode(pNode);
+
+							pNode->GetNodeAttributeValue(XML_GDTF_GamutName, fUniqueName);
+	TXString gamutPoints; 	pNode->GetNodeAttributeValue(XML_GDTF_GamutPoints, gamutPoints); GdtfConverter::ConvertColorArray(gamutPoints, pNode, fGamutPoints);
+}
+
+void GdtfGamut::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_GamutName);
+	needed.push_back(XML_GDTF_GamutPoints);
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfGamut::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfGamut;
+}
+
+TXString GdtfGamut::GetNodeName()
+{
+	return XML_GDTF_GamutNodeName;
+}
+
+TXString GdtfGamut::GetNodeReference()
+{
+	return fUniqueName;
+}
+
+//------------------------------------------------------------------------------------
+// GdtfPhysicalDescriptions
+
+SceneData::GdtfPhysicalDescriptions::GdtfPhysicalDescriptions()
+{
+	fOperatingTemperatureLow 	= 0.0;
+	fOperatingTemperatureHigh 	= 40.0;
+	fWeight 					= 0.0;
+	fLegHeight 					= 0.0;
+}
+
+SceneData::GdtfPhysicalDescriptions::~GdtfPhysicalDescriptions()
+{
+    for (GdtfColorSpace* 		o : fAdditionalColorSpaces)	{ delete o; }
+    for (GdtfGamut* 			o : fGamuts)				{ delete o; }
+    for (GdtfPhysicalEmitter* 	o : fEmitters)    			{ delete o; }
+    for (GdtfFilter*          	o : fFilters)     			{ delete o; }
+    for (GdtfDMXProfile*      	o : fDmxProfiles) 			{ delete o; }
+    for (GdtfCRIGroup*        	o : fCRI_Groups)  			{ delete o; }
+	for (GdtfConnector*       	o : fConnectors)  			{ delete o; }
+}
+
+EGdtfObjectType SceneData::GdtfPhysicalDescriptions::GetObjectType()
+{
+    return EGdtfObjectType::eGdtfPhysicalDescription;
+}
+
+GdtfColorSpace* SceneData::GdtfPhysicalDescriptions::GetColorSpace()
+{
+    return & fColorSpace;
+}
+
+const TGdtfColorSpaceArray& SceneData::GdtfPhysicalDescriptions::GetAdditionalColorSpaceArray()
+{
+    return fAdditionalColorSpaces;
+}
+
+const TGdtfGamutArray& SceneData::GdtfPhysicalDescriptions::GetGamutArray()
+{
+    return fGamuts;
+}
+
+const TGdtfPhysicalEmitterArray& SceneData::GdtfPhysicalDescriptions::GetPhysicalEmitterArray()
+{
+    return fEmitters;
+}
+
+const TGdtfFilterArray & SceneData::GdtfPhysicalDescriptions::GetFilterArray()
+{
+    return fFilters;
+}
+
+const TGdtfDMXProfileArray& SceneData::GdtfPhysicalDescriptions::GetDmxProfileArray()
+{
+    return fDmxProfiles;
+}
+
+const TGdtf_CRIGroupArray & SceneData::GdtfPhysicalDescriptions::GetCRIGroupArray()
+{
+    return fCRI_Groups;
+}
+
+const TGdtfConnectorArray & SceneData::GdtfPhysicalDescriptions::GetConnectorArray()
+{
+    return fConnectors;
+}
+
+double GdtfPhysicalDescriptions::GetOperatingTemperatureLow()
+{
+    return fOperatingTemperatureLow;
+}
+
+double GdtfPhysicalDescriptions::GetOperatingTemperatureHigh()
+{
+    return fOperatingTemperatureHigh;
+}
+
+double GdtfPhysicalDescriptions::GetWeight()
+{
+    return fWeight;
+}
+
+double GdtfPhysicalDescriptions::GetLegHeight()
+{
+    return fLegHeight;
+}
+
+void GdtfPhysicalDescriptions::SetOperatingTemperatureLow(double value)
+{
+	fOperatingTemperatureLow = value;
+}
+
+void GdtfPhysicalDescriptions::SetOperatingTemperatureHigh(double value)
+{
+	fOperatingTemperatureHigh = value;
+}
+
+void GdtfPhysicalDescriptions::SetWeight(double value)
+{
+	fWeight = value;
+}
+
+void GdtfPhysicalDescriptions::SetLegHeight(double value)
+{
+	fLegHeight = value;
+}
+
+GdtfColorSpacePtr SceneData::GdtfPhysicalDescriptions::AddAdditionalColorSpace(const TXString & name, EGdtfColorSpace colorSpace)
+{
+	GdtfColorSpacePtr gdtfColorSpace = new GdtfColorSpace(name, colorSpace);
+	
+	fAdditionalColorSpaces.push_back(gdtfColorSpace);
+	
+	return gdtfColorSpace;
+}
+
+GdtfGamutPtr SceneData::GdtfPhysicalDescriptions::AddGamut(const TXString & name, CCieColorPtr color)
+{
+	GdtfGamutPtr gdtfGamut = new GdtfGamut(name, color);
+	
+	fGamuts.push_back(gdtfGamut);
+	
+	return gdtfGamut;
+}
+
+GdtfPhysicalEmitterPtr SceneData::GdtfPhysicalDescriptions::AddEmitter(const TXString & name, CCieColor color)
+{
+	GdtfPhysicalEmitterPtr emitter = new  GdtfPhysicalEmitter(name, color);
+	
+	fEmitters.push_back(emitter);
+	
+	return emitter;
+}
+
+GdtfFilterPtr SceneData::GdtfPhysicalDescriptions::AddFilter(const TXString& name, CCieColor color)
+{
+    GdtfFilterPtr filter = new GdtfFilter(name, color);
+
+    fFilters.push_back(filter);
+
+    return filter;
+}
+
+GdtfDMXProfilePtr SceneData::GdtfPhysicalDescriptions::AddDmxProfile()
+{
+    GdtfDMXProfilePtr dmxProf = new GdtfDMXProfile();
+    
+    fDmxProfiles.push_back(dmxProf);
+    
+    return dmxProf;
+}
+
+GdtfCRIGroupPtr SceneData::GdtfPhysicalDescriptions::AddCRIGroup(double colorTsemp)
+{
+    GdtfCRIGroupPtr criGroup = new GdtfCRIGroup(colorTsemp);
+    fCRI_Groups.push_back(criGroup);
+
+    return criGroup;
+}
+
+GdtfConnectorPtr SceneData::GdtfPhysicalDescriptions::AddConnector(const TXString& name,  const TXString& type)
+{
+    GdtfConnectorPtr connector = new GdtfConnector(name, type);
+    fConnectors.push_back(connector);
+
+    return connector;
+}
+
+TXString SceneData::GdtfPhysicalDescriptions::GetNodeName()
+{
+    return XML_GDTF_FixtureChildNodePhysicalDesrip;
+}
+
+void SceneData::GdtfPhysicalDescriptions::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+    //------------------------------------------------------------------------------------
+    // Call the parent
+    GdtfObject::OnPrintToFile(pNode);
+    
+    //------------------------------------------------------------------------------------
+    // Print the attributes        
+    fColorSpace.WriteToNode(pNode);
+
+	// Print AdditionalColorSpaces (physicalDescription child)
+	IXMLFileNodePtr additionalColorSpaceGroupNode;
+	if (VCOM_SUCCEEDED(pNode->CreateChildNode(XML_GDTF_PhysicalDescriptionsColorSpaceCollect, & additionalColorSpaceGroupNode)))
+	{
+		for (GdtfColorSpacePtr colorSpace : fAdditionalColorSpaces)
+		{
+			colorSpace->WriteToNode(additionalColorSpaceGroupNode);
+		}
+	}
+
+	// Print Gamuts (physicalDescription child)
+	IXMLFileNodePtr gamutsGroupNode;
+	if (VCOM_SUCCEEDED(pNode->CreateChildNode(XML_GDTF_PhysicalDescriptionsGamutCollect, & gamutsGroupNode)))
+	{
+		for (GdtfGamutPtr gamut : fGamuts)
+		{
+			gamut->WriteToNode(gamutsGroupNode);
+		}
+	}
+    
+    //------------------------------------------------------------------------------------
+    // Print Filter        
+    IXMLFileNodePtr filtersGroupNode;
+    if (VCOM_SUCCEEDED(pNode->CreateChildNode(XML_GDTF_FiltersCollect, &filtersGroupNode))) 
+    {
+        for (GdtfFilter* filter : fFilters)
+        {
+            filter->WriteToNode(filtersGroupNode);
+        }
+    }
+    
+    // Print Emitters (physicalDescription child)
+	IXMLFileNodePtr emittersGroupNode;
+	if (VCOM_SUCCEEDED(pNode->CreateChildNode(XML_GDTF_PhysicalDescriptionsEmitterCollect, & emittersGroupNode)))
+	{
+		for (GdtfPhysicalEmitterPtr emitter : fEmitters)
+		{
+			emitter->WriteToNode(emittersGroupNode);
+		}
+	}
+		
+	// Print DmxProfiles (physicalDescription child)
+	IXMLFileNodePtr dmxProfGroupNode;
+	if (VCOM_SUCCEEDED(pNode->CreateChildNode(XML_GDTF_DMX_ProfileCollect, &dmxProfGroupNode)))
+	{
+		for (GdtfDMXProfilePtr dmxProfile : fDmxProfiles)
+		{
+			dmxProfile->WriteToNode(dmxProfGroupNode);
+		}
+	}
+		
+	// CRI_Collect (PhysicalDescription child)
+	IXMLFileNodePtr CRI_CollectNode;
+	if (VCOM_SUCCEEDED(pNode->CreateChildNode(XML_GDTF_ColorRenderingIndexCollect, &CRI_CollectNode)))
+	{
+		for (GdtfCRIGroupPtr criGroup : fCRI_Groups)
+		{
+			criGroup->WriteToNode(CRI_CollectNode);
+		}
+		
+	}
+
+	// Print Connectors (physicalDescription child)
+	IXMLFileNodePtr ConnectorNode;
+	if (VCOM_SUCCEEDED(pNode->CreateChildNode(XML_GDTF_ConnectorCollect, &ConnectorNode)))
+	{
+		for (GdtfConnectorPtr connector : fConnectors)
+		{
+			connector->WriteToNode(ConnectorNode);
+		}
+		
+	}
+
+	// Print Properties (physicalDescription child)
+	IXMLFileNodePtr PropertiesNode;
+	if (VCOM_SUCCEEDED(pNode->CreateChildNode(XML_GDTF_PropertiesCollect, &PropertiesNode)))
+	{
+		IXMLFileNodePtr OperatingTemperatureNode;
+		if(VCOM_SUCCEEDED(PropertiesNode->CreateChildNode(XML_GDTF_OperatingTemperatureNodeName, &OperatingTemperatureNode)))
+		{
+			OperatingTemperatureNode->SetNodeAttributeValue(XML_GDTF_OperatingTemperatureLow,	GdtfConverter::ConvertDouble(fOperatingTemperatureLow));
+			OperatingTemperatureNode->SetNodeAttributeValue(XML_GDTF_OperatingTemperatureHigh, GdtfConverter::ConvertDouble(fOperatingTemperatureHigh));
+		}
+
+		IXMLFileNodePtr WeightNode;
+		if(VCOM_SUCCEEDED(PropertiesNode->CreateChildNode(XML_GDTF_WeightNodeName, &WeightNode)))
+		{
+			WeightNode->SetNodeAttributeValue(XML_GDTF_WeightValue,	GdtfConverter::ConvertDouble(fWeight));
+		}
+
+		IXMLFileNodePtr LegHeightNode;
+		if(VCOM_SUCCEEDED(PropertiesNode->CreateChildNode(XML_GDTF_LegHeightNodeName, &LegHeightNode)))
+		{
+			LegHeightNode->SetNodeAttributeValue(XML_GDTF_LegHeightValue,	GdtfConverter::ConvertDouble(fLegHeight));
+		}
+
+	}
+
+}
+
+void SceneData::GdtfPhysicalDescriptions::OnReadFromNode(const IXMLFileNodePtr & pNode)
+{
+	IXMLFileNodePtr colorSpace;
+	if(VCOM_SUCCEEDED(pNode->GetChildNode(XML_GDTF_ColorSpaceNode, & colorSpace)))
+	{
+		fColorSpace.ReadFromNode(colorSpace);
+	}
+
+	// ------------------------------------------------------------------------------------
+	// Read AdditionalColorSpaces (PhysicalDescription Child)
+	GdtfConverter::TraverseNodes(pNode, XML_GDTF_PhysicalDescriptionsColorSpaceCollect, XML_GDTF_ColorSpaceNode, [this] (IXMLFileNodePtr objNode) -> void
+									{
+										if ( CheckAbort() ) return;
+										// Create the object
+										GdtfColorSpacePtr colorSpace = new GdtfColorSpace();
+										 
+										// Read from node
+										colorSpace->ReadFromNode(objNode);
+										 
+										// Add to list
+										fAdditionalColorSpaces.push_back(colorSpace);
+										return;
+									});
+	
+	// Read Gamuts (PhysicalDescription Child)
+	GdtfConverter::TraverseNodes(pNode, XML_GDTF_PhysicalDescriptionsGamutCollect, XML_GDTF_GamutNodeName, [this] (IXMLFileNodePtr objNode) -> void
+									{
+										if ( CheckAbort() ) return;	
+										// Create the object
+										GdtfGamutPtr gamut = new GdtfGamut();
+										 
+										// Read from node
+										gamut->ReadFromNode(objNode);
+										 
+										// Add to list
+										fGamuts.push_back(gamut);
+										return;
+									});
+
+	// Read Filters
+	GdtfConverter::TraverseNodes(pNode, XML_GDTF_FiltersCollect, XML_GDTF_FilterNode, [this] (IXMLFileNodePtr objNode) -> void
+									{
+										if ( CheckAbort() ) return;
+										// Create the object
+										GdtfFilterPtr filter = new GdtfFilter();
+										 
+										// Read from node
+										filter->ReadFromNode(objNode);
+										 
+										// Add to list
+										fFilters.push_back(filter);
+										return;
+									});
+
+    // Read Emitters (PhysicalDescription Child)
+	GdtfConverter::TraverseNodes(pNode, XML_GDTF_PhysicalDescriptionsEmitterCollect, XML_GDTF_EmitterNodeName, [this] (IXMLFileNodePtr objNode) -> void
+									{
+										if ( CheckAbort() ) return;
+										// Create the object
+										GdtfPhysicalEmitterPtr emitter = new GdtfPhysicalEmitter();
+										 
+										// Read from node
+										emitter->ReadFromNode(objNode);
+										 
+										// Add to list
+										fEmitters.push_back(emitter);
+										return;
+									});
+    // Read DmxProfiles (PhysicalDescription Child) 
+    GdtfConverter::TraverseNodes(pNode, XML_GDTF_DMX_ProfileCollect, XML_GDTF_DMX_Profile, [this](IXMLFileNodePtr objNode) -> void
+    {
+		if ( CheckAbort() ) return;
+        // Create the object
+        GdtfDMXProfilePtr dmxProfile = new GdtfDMXProfile();
+
+        // Read from node
+        dmxProfile->ReadFromNode(objNode);
+
+        // Add to list
+        fDmxProfiles.push_back(dmxProfile);
+        return;
+    });
+		
+	// ------------------------------------------------------------------------------------
+    // Read CRIs
+	GdtfConverter::TraverseNodes(pNode, XML_GDTF_ColorRenderingIndexCollect, XML_GDTF_ColorRenderingIndexGroup, [this](IXMLFileNodePtr objNode) -> void
+									{
+										if ( CheckAbort() ) return;
+										GdtfCRIGroupPtr criGroup = new GdtfCRIGroup();
+											
+										// Read from node
+										criGroup->ReadFromNode(objNode);
+											
+										fCRI_Groups.push_back(criGroup);
+										return;
+									});
+	
+	// Read Connectors (PhysicalDescription Child)
+	GdtfConverter::TraverseNodes(pNode, XML_GDTF_ConnectorCollect, XML_GDTF_ConnectorNodeName, [this] (IXMLFileNodePtr objNode) -> void
+									{
+										if ( CheckAbort() ) return;
+										// Create the object
+										GdtfConnectorPtr connector = new GdtfConnector();
+										 
+										// Read from node
+										connector->ReadFromNode(objNode);
+										 
+										// Add to list
+										fConnectors.push_back(connector);
+										return;
+									});
+	
+	// Read Properties (PhysicalDescription Child)
+	
+	IXMLFileNodePtr PropertiesNode;
+	if(VCOM_SUCCEEDED(pNode->GetChildNode(XML_GDTF_PropertiesCollect, & PropertiesNode)))
+	{
+		//OperatingTemperature
+		IXMLFileNodePtr OperatingTemperatureNode;
+		PropertiesNode->GetChildNode(XML_GDTF_OperatingTemperatureNodeName, &OperatingTemperatureNode);
+		if(OperatingTemperatureNode != nullptr)
+		{
+			TXString operatingTemperatureLowStr; OperatingTemperatureNode->GetNodeAttributeValue(XML_GDTF_OperatingTemperatureLow, operatingTemperatureLowStr);
+			GdtfConverter::ConvertDouble(operatingTemperatureLowStr, OperatingTemperatureNode, fOperatingTemperatureLow);
+
+			TXString operatingTemperatureHighStr; OperatingTemperatureNode->GetNodeAttributeValue(XML_GDTF_OperatingTemperatureHigh, operatingTemperatureHighStr);
+			GdtfConverter::ConvertDouble(operatingTemperatureHighStr, OperatingTemperatureNode, fOperatingTemperatureHigh);	
+		}
+
+		//Weight
+		IXMLFileNodePtr WeightNode;
+		PropertiesNode->GetChildNode(XML_GDTF_WeightNodeName, &WeightNode);
+		if(WeightNode != nullptr)
+		{
+			TXString weightStr; WeightNode->GetNodeAttributeValue(XML_GDTF_WeightValue, weightStr);
+			GdtfConverter::ConvertDouble(weightStr, WeightNode, fWeight);	
+		}
+
+		//LegHeight
+		IXMLFileNodePtr LegHeightNode;
+		PropertiesNode->GetChildNode(XML_GDTF_LegHeightNodeName, &LegHeightNode);
+		if(LegHeightNode != nullptr)
+		{
+			TXString legHeightStr; LegHeightNode->GetNodeAttributeValue(XML_GDTF_LegHeightValue, legHeightStr);
+			GdtfConverter::ConvertDouble(legHeightStr, LegHeightNode, fLegHeight);	
+		}
+	}
+	
+}
+
+SceneData::GdtfColorSpace::GdtfColorSpace()
+{
+	fUniqueName = "";
+    fColorSpace = EGdtfColorSpace::sRGB;
+}
+
+SceneData::GdtfColorSpace::GdtfColorSpace(const TXString& name, EGdtfColorSpace colorSpace)
+{
+	fUniqueName = name;
+    fColorSpace = colorSpace;
+}
+
+SceneData::GdtfColorSpace::~GdtfColorSpace()
+{
+}
+
+EGdtfObjectType SceneData::GdtfColorSpace::GetObjectType()
+{
+    return EGdtfObjectType::eGdtfColorSpace;
+}
+
+TXString SceneData::GdtfColorSpace::GetNodeReference()
+{
+	return fUniqueName;
+}
+
+const TXString& SceneData::GdtfColorSpace::GetName() const
+{
+	return fUniqueName;
+}
+
+EGdtfColorSpace SceneData::GdtfColorSpace::GetColorSpace()
+{
+    return fColorSpace;
+}
+
+CCieColor SceneData::GdtfColorSpace::GetRed()
+{
+	CCieColor color = fRed;
+	if(fColorSpace == EGdtfColorSpace::ANSI) 		{ color = CCieColor(0.7347, 0.2653, 100); }
+	if(fColorSpace == EGdtfColorSpace::ProPhoto) 	{ color = CCieColor(0.7347, 0.2653, 100); }
+	if(fColorSpace == EGdtfColorSpace::sRGB) 		{ color = CCieColor(0.6400, 0.3300, 21.26); }
+    return color;
+}
+
+CCieColor SceneData::GdtfColorSpace::GetGreen()
+{
+	CCieColor color = fGreen;
+	if(fColorSpace == EGdtfColorSpace::ANSI) 		{ color = CCieColor(0.1596, 0.8404, 100); }
+	if(fColorSpace == EGdtfColorSpace::ProPhoto) 	{ color = CCieColor(0.1596, 0.8404, 100); }
+	if(fColorSpace == EGdtfColorSpace::sRGB) 		{ color = CCieColor(0.3000, 0.6000, 71.52); }
+    return color;
+}
+
+CCieColor SceneData::GdtfColorSpace::GetBlue()
+{
+	CCieColor color = fBlue;
+	if(fColorSpace == EGdtfColorSpace::ANSI) 		{ color = CCieColor(0.0366, 0.001, 100); }
+	if(fColorSpace == EGdtfColorSpace::ProPhoto) 	{ color = CCieColor(0.0366, 0.0001, 100); }
+	if(fColorSpace == EGdtfColorSpace::sRGB) 		{ color = CCieColor(0.1500, 0.0600, 7.22); }
+    return color;
+}
+
+CCieColor SceneData::GdtfColorSpace::GetWhite()
+{
+	CCieColor color = fWhitePoint;
+	if(fColorSpace == EGdtfColorSpace::ANSI) 		{ color = CCieColor(0.4254, 0.4044, 100); }
+	if(fColorSpace == EGdtfColorSpace::ProPhoto) 	{ color = CCieColor(0.3457, 0.3585, 100); }
+	if(fColorSpace == EGdtfColorSpace::sRGB) 		{ color = CCieColor(0.3127, 0.3290, 100); }
+    return color;
+}
+
+void SceneData::GdtfColorSpace::SetName(const TXString& name)
+{
+	fUniqueName = name;
+}
+
+void SceneData::GdtfColorSpace::SetColorSpace(EGdtfColorSpace val)
+{
+    fColorSpace = val;
+}
+
+void SceneData::GdtfColorSpace::SetRed(CCieColor val)
+{
+    fRed = val;
+}
+
+void SceneData::GdtfColorSpace::SetGreen(CCieColor val)
+{
+    fGreen = val;
+}
+
+void SceneData::GdtfColorSpace::SetBlue(CCieColor val)
+{
+    fBlue = val;
+}
+
+void SceneData::GdtfColorSpace::SetWhite(CCieColor val)
+{
+    fWhitePoint = val;
+}
+
+TXString SceneData::GdtfColorSpace::GetNodeName()
+{
+    return XML_GDTF_ColorSpaceNode;
+}
+
+void SceneData::GdtfColorSpace::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+    //------------------------------------------------------------------------------------
+    // Call the parent
+    GdtfObject::OnPrintToFile(pNode);
+
+    //------------------------------------------------------------------------------------
+    // Print the attributes
+	pNode->SetNodeAttributeValue(XML_GDTF_ColorSpace_Name, fUniqueName);     
+    pNode->SetNodeAttributeValue(XML_GDTF_ColorSpace_Mode, GdtfConverter::ConvertEGdtfColorSpace(fColorSpace) );
+    
+    if (fColorSpace == EGdtfColorSpace::Custom)
+    {
+        pNode->SetNodeAttributeValue(XML_GDTF_ColorSpace_Red,        GdtfConverter::ConvertColor(fRed) );
+        pNode->SetNodeAttributeValue(XML_GDTF_ColorSpace_Green,      GdtfConverter::ConvertColor(fGreen) );
+        pNode->SetNodeAttributeValue(XML_GDTF_ColorSpace_Blue,	     GdtfConverter::ConvertColor(fBlue) );
+        pNode->SetNodeAttributeValue(XML_GDTF_ColorSpace_WhitePoint, GdtfConverter::ConvertColor(fWhitePoint) );
+    }
+}
+
+void SceneData::GdtfColorSpace::OnReadFromNode(const IXMLFileNodePtr & pNode)
+{
+    //------------------------------------------------------------------------------------
+    // Call the parent
+    GdtfObject::OnReadFromNode(pNode);
+
+    //------------------------------------------------------------------------------------
+    // Get the attributes
+	pNode->GetNodeAttributeValue(XML_GDTF_ColorSpace_Name, fUniqueName);
+
+    TXString colorSpaceStr; pNode->GetNodeAttributeValue(XML_GDTF_ColorSpace_Mode, colorSpaceStr);
+    GdtfConverter::ConvertEGdtfColorSpace( colorSpaceStr, pNode, fColorSpace);
+    
+    if (fColorSpace == EGdtfColorSpace::Custom)
+    {
+		TXString value_red;     pNode->GetNodeAttributeValue(XML_GDTF_ColorSpace_Red,     	 value_red );  	GdtfConverter::ConvertColor(value_red   , pNode, fRed);
+		TXString value_green;   pNode->GetNodeAttributeValue(XML_GDTF_ColorSpace_Green,      value_green ); GdtfConverter::ConvertColor(value_green , pNode, fGreen);
+		TXString value_blue;    pNode->GetNodeAttributeValue(XML_GDTF_ColorSpace_Blue,       value_blue );  GdtfConverter::ConvertColor(value_blue  , pNode, fBlue);
+		TXString value_white;   pNode->GetNodeAttributeValue(XML_GDTF_ColorSpace_WhitePoint, value_white ); GdtfConverter::ConvertColor(value_white , pNode, fWhitePoint);
+    }
+}
+
+void SceneData::GdtfColorSpace::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	optional.push_back(XML_GDTF_ColorSpace_Red);
+	optional.push_back(XML_GDTF_ColorSpace_Green);
+	optional.push_back(XML_GDTF_ColorSpace_Blue);
+	optional.push_back(XML_GDTF_ColorSpace_WhitePoint);
+	optional.push_back(XML_GDTF_ColorSpace_Mode);
+	optional.push_back(XML_GDTF_ColorSpace_Name);
+
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+SceneData::GdtfFilter::GdtfFilter()
+{
+    fName = "";
+}
+
+SceneData::GdtfFilter::GdtfFilter(const TXString & name, const CCieColor &col)
+{
+    fName = name;
+    fColor = col;
+}
+
+SceneData::GdtfFilter::~GdtfFilter()
+{
+    for (GdtfMeasurement* o : fMeasurementsArray) { delete o; };
+}
+
+EGdtfObjectType SceneData::GdtfFilter::GetObjectType()
+{
+    return EGdtfObjectType::eGdtfFilter;
+}
+
+const TXString & SceneData::GdtfFilter::GetName()
+{
+    return fName;
+}
+
+CCieColor SceneData::GdtfFilter::GetColor()
+{
+    return fColor;
+}
+
+const TGdtfMeasurementArray & SceneData::GdtfFilter::GetMeasurementsArray()
+{
+    return fMeasurementsArray;
+}
+
+void SceneData::GdtfFilter::SetName(const TXString & name)
+{
+    fName = name;
+}
+
+void SceneData::GdtfFilter::SetColor(CCieColor val)
+{
+    fColor = val;
+}
+
+GdtfMeasurement* SceneData::GdtfFilter::CreateMeasurement()
+{
+    GdtfMeasurement* m= new GdtfMeasurement(true);    
+    fMeasurementsArray.push_back(m);
+
+    return m;
+}
+
+TXString SceneData::GdtfFilter::GetNodeName()
+{
+    return XML_GDTF_FilterNode;
+}
+
+void SceneData::GdtfFilter::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+    //------------------------------------------------------------------------------------
+    // Call the parent
+    GdtfObject::OnPrintToFile(pNode);
+
+    //------------------------------------------------------------------------------------
+    // Print the attributes
+    pNode->SetNodeAttributeValue(XML_GDTF_Filter_Name, fName);
+    pNode->SetNodeAttributeValue(XML_GDTF_FilterColor, GdtfConverter::ConvertColor(fColor));
+
+    //------------------------------------------------------------------------------------
+    // Print the childs
+    for (GdtfMeasurement* mes : fMeasurementsArray)
+    {
+         mes->WriteToNode(pNode);
+    }
+}
+
+void SceneData::GdtfFilter::OnReadFromNode(const IXMLFileNodePtr & pNode)
+{
+    //------------------------------------------------------------------------------------
+    // Call the parent
+    GdtfObject::OnReadFromNode(pNode);
+
+    //------------------------------------------------------------------------------------
+    // Get the attributes	
+    pNode->GetNodeAttributeValue(XML_GDTF_Filter_Name, fName);    
+    
+	// ------------------------------------------------------------------------------------
+	// Get Color
+	TXString color;
+    if (VCOM_SUCCEEDED(pNode->GetNodeAttributeValue(XML_GDTF_FilterColor, color)))
+    {
+        if (color.IsEmpty() == false)
+        {
+            GdtfConverter::ConvertColor(color, pNode, fColor);
+        }
+    }	
+
+    // Read the childs
+    GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_MeasurementNodeName, [this](IXMLFileNodePtr objNode) -> void
+    {
+		if ( CheckAbort() ) return;
+        GdtfMeasurement* measurePt = new GdtfMeasurement(true);
+
+        measurePt->ReadFromNode(objNode);
+
+        fMeasurementsArray.push_back(measurePt);
+        return;
+    });
+}
+
+TXString SceneData::GdtfFilter::GetNodeReference() 
+{
+    return GetName();
+}
+
+SceneData::GdtfMeasurement::GdtfMeasurement(bool forFilter)
+{
+    fPhysical 				= 0;
+    fLuminousIntensity 		= 0;
+    fTransmission 			= 0;
+    fInterpolationTo 		= EGdtfInterpolationTo::Linear;
+	fIsForFilter 			= forFilter;
+}
+
+SceneData::GdtfMeasurement::~GdtfMeasurement()
+{
+    for (GdtfMeasurementPoint* o : fMeasurementPoints) { delete o; };
+}
+
+EGdtfObjectType SceneData::GdtfMeasurement::GetObjectType()
+{
+    return EGdtfObjectType::eGdtfMeasurement;
+}
+
+double SceneData::GdtfMeasurement::GetPhysical()
+{
+    return fPhysical;
+}
+
+double SceneData::GdtfMeasurement::GetLuminousIntensity()
+{
+    return fLuminousIntensity;
+}
+
+double SceneData::GdtfMeasurement::GetTransmission()
+{
+    return fTransmission;
+}
+
+EGdtfInterpolationTo SceneData::GdtfMeasurement::GetInterpolationTo()
+{
+    return fInterpolationTo;
+}
+
+const TGdtfMeasurementPointArray & SceneData::GdtfMeasurement::GetMeasurementPointsArray()
+{
+    return fMeasurementPoints;
+}
+
+void SceneData::GdtfMeasurement::SetPhysical(double val)
+{
+    fPhysical = val;
+}
+
+void SceneData::GdtfMeasurement::SetLuminousIntensity(double val)
+{
+    fLuminousIntensity = val;
+}
+
+void SceneData::GdtfMeasurement::SetTransmission(double val)
+{
+    fTransmission = val;
+}
+
+void SceneData::GdtfMeasurement::SetInterpolationTo(EGdtfInterpolationTo val)
+{
+    fInterpolationTo = val;
+}
+
+GdtfMeasurementPoint* SceneData::GdtfMeasurement::CreateMeasurementPoint()
+{
+    GdtfMeasurementPointPtr mP = new GdtfMeasurementPoint();
+    fMeasurementPoints.push_back(mP);
+	return mP;
+}
+
+TXString SceneData::GdtfMeasurement::GetNodeName()
+{
+    return XML_GDTF_MeasurementNodeName;
+}
+
+void SceneData::GdtfMeasurement::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+    //------------------------------------------------------------------------------------
+    // Call the parent
+    GdtfObject::OnPrintToFile(pNode);
+
+    //------------------------------------------------------------------------------------
+    // Print the attributes 
+    pNode->SetNodeAttributeValue(XML_GDTF_MeasurementPhysical,          GdtfConverter::ConvertDouble(fPhysical) );
+
+	if(fIsForFilter) { pNode->SetNodeAttributeValue(XML_GDTF_MeasurementTransmission,      GdtfConverter::ConvertDouble(fTransmission) ); }
+	else			 { pNode->SetNodeAttributeValue(XML_GDTF_MeasurementLuminousIntensity, GdtfConverter::ConvertDouble(fLuminousIntensity) ); }
+
+    
+    pNode->SetNodeAttributeValue(XML_GDTF_MeasurementInterpolationTo,   GdtfConverter::ConvertEGdtfInterpolationTo(fInterpolationTo) );
+    //------------------------------------------------------------------------------------
+    // Print the childs
+    for (GdtfMeasurementPoint* mesPt: fMeasurementPoints)
+    {
+        mesPt->WriteToNode(pNode);
+    }
+}
+
+void SceneData::GdtfMeasurement::OnReadFromNode(const IXMLFileNodePtr & pNode)
+{
+    //------------------------------------------------------------------------------------
+    // Call the parent
+    GdtfObject::OnReadFromNode(pNode);
+
+    //------------------------------------------------------------------------------------
+    // Get the attributes	
+    TXString   physStr; pNode->GetNodeAttributeValue(XML_GDTF_MeasurementPhysical, physStr);
+    GdtfConverter::ConvertDouble( physStr, pNode, fPhysical);
+
+    TXString   lumiStr; pNode->GetNodeAttributeValue(XML_GDTF_MeasurementLuminousIntensity,  lumiStr);
+    GdtfConverter::ConvertDouble( lumiStr, pNode, fLuminousIntensity);
+
+	TXString   transmStr; pNode->GetNodeAttributeValue(XML_GDTF_MeasurementTransmission,  transmStr);    
+	GdtfConverter::ConvertDouble( transmStr, pNode, fTransmission);
+
+	TXString   interpolStr; pNode->GetNodeAttributeValue(XML_GDTF_MeasurementInterpolationTo, interpolStr);
+	GdtfConverter::ConvertEGdtfInterpolationTo(interpolStr, pNode, fInterpolationTo);
+
+    // Read the childs
+    GdtfConverter::TraverseNodes(pNode, "", XML_GDTF_MeasurementPointNode, [this](IXMLFileNodePtr objNode) -> void
+    {
+		if ( CheckAbort() ) return;
+        GdtfMeasurementPoint* measurePt = new GdtfMeasurementPoint();
+
+        measurePt->ReadFromNode(objNode);
+
+        fMeasurementPoints.push_back(measurePt);
+        return;
+    });
+}
+
+//------------------------------------------------------------------------------------
+// GdtfConnector
+GdtfConnector::GdtfConnector()
+{
+	fDmxBreak 	= 0;
+    fGender 	= 0;
+    fLength 	= 0.0;
+}
+
+GdtfConnector::GdtfConnector(const TXString& name, const TXString& type)
+{
+	fName		= name;
+	fType		= type;
+	fDmxBreak 	= 0;
+    fGender 	= 0;
+    fLength 	= 0.0;
+}
+
+GdtfConnector::~GdtfConnector()
+{
+}
+
+void GdtfConnector::SetName(const TXString &name)
+{
+	fName = name;
+}
+
+void GdtfConnector::SetType(const TXString &type)
+{
+	fType = type;
+}
+
+void SceneData::GdtfConnector::SetDmxBreak(Uint32 dmxBreak)
+{
+    fDmxBreak = dmxBreak;
+}
+
+void SceneData::GdtfConnector::SetGender(Sint32 gender)
+{
+    fGender = gender;
+}
+
+void SceneData::GdtfConnector::SetLength(double length)
+{
+    fLength = length;
+}
+
+void GdtfConnector::OnPrintToFile(IXMLFileNodePtr pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnPrintToFile(pNode);
+	
+	// ------------------------------------------------------------------------------------
+	// Print node attributes
+	pNode->SetNodeAttributeValue(XML_GDTF_ConnectorName,		fName);
+	pNode->SetNodeAttributeValue(XML_GDTF_ConnectorType,		fType);
+	pNode->SetNodeAttributeValue(XML_GDTF_ConnectorDmxBreak, 	GdtfConverter::ConvertInteger(fDmxBreak));
+	pNode->SetNodeAttributeValue(XML_GDTF_ConnectorGender,		GdtfConverter::ConvertInteger(fGender));
+    pNode->SetNodeAttributeValue(XML_GDTF_ConnectorLength, 		GdtfConverter::ConvertDouble(fLength));
+}
+
+void GdtfConnector::OnReadFromNode(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnReadFromNode(pNode);
+	
+	// ------------------------------------------------------------------------------------
+	// Read node attributes
+	pNode->GetNodeAttributeValue(XML_GDTF_ConnectorName, fName);
+	pNode->GetNodeAttributeValue(XML_GDTF_ConnectorType, fType);
+
+    TXString dmxBreakStr;   pNode->GetNodeAttributeValue(XML_GDTF_ConnectorDmxBreak, dmxBreakStr);		
+    GdtfConverter::ConvertInteger(dmxBreakStr, pNode, fDmxBreak);
+	TXString genderStr;   pNode->GetNodeAttributeValue(XML_GDTF_ConnectorGender, genderStr);		
+    GdtfConverter::ConvertInteger(genderStr, pNode, fGender);
+	TXString lengthStr;   pNode->GetNodeAttributeValue(XML_GDTF_ConnectorLength, lengthStr);		
+    GdtfConverter::ConvertDouble(lengthStr, pNode, fLength);
+}
+
+void GdtfConnector::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_ConnectorName);
+	needed.push_back(XML_GDTF_ConnectorType);
+	    
+	optional.push_back(XML_GDTF_ConnectorDmxBreak);
+	optional.push_back(XML_GDTF_ConnectorGender);
+    optional.push_back(XML_GDTF_ConnectorLength);
+
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
+EGdtfObjectType GdtfConnector::GetObjectType()
+{
+	return EGdtfObjectType::eGdtfConnector;
+}
+
+TXString GdtfConnector::GetNodeReference() 
+{
+    return GetName();
+}
+
+TXString GdtfConnector::GetNodeName()
+{
+	return XML_GDTF_ConnectorNodeName;
+}
+
+const TXString& GdtfConnector::GetName() const
+{
+	return fName;
+}
+
+const TXString& GdtfConnector::GetType() const
+{
+	return fType;
+}
+
+Uint32 GdtfConnector::GetDmxBreak()
+{
+	return fDmxBreak;
+}
+
+Sint32 GdtfConnector::GetGender()
+{
+    return fGender;
+}
+
+double GdtfConnector::GetLength()
+{
+    return fLength;
+}
-- 
2.43.0


From 8c2bd5a70a97820ee31d54142f47a0caa3789c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:04 +0000
Subject: [PATCH 21/96] fix: refreshing the buffer of a fixture that is being
 written no longer takes its file

---
 src/Implementation/CGdtfFixture.cpp | 19 +++++++++++++------
 src/Implementation/CGdtfFixture.h   |  1 +
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/Implementation/CGdtfFixture.cpp b/src/Implementation/CGdtfFixture.cpp
index 32cb02e..d6b7032 100755
--- a/src/Implementation/CGdtfFixture.cpp
+++ b/src/Implementation/CGdtfFixture.cpp
@@ -87,6 +87,7 @@ VectorworksMVR::VCOMError VectorworksMVR::CGdtfFixtureImpl::OpenForWrite(MvrStri
 	
 	fZipFile = IZIPFilePtr(IID_ZIPFile);
 	fZipFile->OpenNewWrite(file, false);
+	fWriting = true;
 	
 	
 	// Read From File
@@ -124,6 +125,7 @@ VectorworksMVR::VCOMError VectorworksMVR::CGdtfFixtureImpl::OpenForWrite(MvrStri
 	
 	fZipFile = IZIPFilePtr(IID_ZIPFile);
 	fZipFile->OpenNewWrite(file, false);
+	fWriting = true;
 	
 	
 	// Read From File
@@ -206,6 +208,7 @@ VectorworksMVR::VCOMError VectorworksMVR::CGdtfFixtureImpl::Close()
 	fFixtureObject->ExportToFile(fZipFile);
 	
 	fZipFile->Close();
+	fWriting = false;
 
     FreeBuffer();
     fZipFile->ToBuffer(fBuffer, fBufferLength);
@@ -2465,6 +2468,7 @@ VCOMError VectorworksMVR::CGdtfFixtureImpl::FromBuffer(const char* buffer, size_
 VCOMError VectorworksMVR::CGdtfFixtureImpl::FromBufferInternal(const char* buffer, size_t length, TXString gdtfFileName)
 {
     FreeBuffer();
+    fWriting        = false;
     fBufferLength   = length;
     fBuffer         = new char[fBufferLength + 1];
     memcpy( fBuffer,  buffer, fBufferLength );
@@ -2499,22 +2503,25 @@ VectorworksMVR::VCOMError VectorworksMVR::CGdtfFixtureImpl::RefreshBuffer()
 	IFileIdentifierPtr file (IID_FileIdentifier);
 	file->Set(strFullPath);
 
-    fZipFile = IZIPFilePtr(IID_ZIPFile);
-	fZipFile->OpenNewWrite(file, false);
+    IZIPFilePtr zipFile (IID_ZIPFile);
+	zipFile->OpenNewWrite(file, false);
 
-    fFixtureObject->ExportToFile(fZipFile);
+    fFixtureObject->ExportToFile(zipFile);
     
     for(const auto& e: fBuffersAdded)
     {
-        fZipFile->AddFile(e.first, e.second);
+        zipFile->AddFile(e.first, e.second);
     }
     
     
 	
-	fZipFile->Close();
+	zipFile->Close();
 
     FreeBuffer();
-    fZipFile->ToBuffer(fBuffer, fBufferLength);
+    zipFile->ToBuffer(fBuffer, fBufferLength);
+
+    // Keep the file that is still open for writing, Close() writes it
+    if( ! fWriting) { fZipFile = zipFile; }
 
     return kVCOMError_NoError;
 }
diff --git a/src/Implementation/CGdtfFixture.h b/src/Implementation/CGdtfFixture.h
index 2d0e771..d0f2ad6 100755
--- a/src/Implementation/CGdtfFixture.h
+++ b/src/Implementation/CGdtfFixture.h
@@ -182,6 +182,7 @@ namespace VectorworksMVR
 	private:
         SceneData::GdtfFixture*             fFixtureObject;
 		IZIPFilePtr				            fZipFile;
+		bool								fWriting = false;
         std::vector<std::pair<TXString, CZIPFileIOBufferImpl*>>  fBuffersAdded;
 
         char*                   fBuffer = nullptr;
-- 
2.43.0


From f19790f23a345587e8361abcf0a9da0d47aec71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:22 +0000
Subject: [PATCH 22/96] fix: shifting a DMX value given in very many bytes
 gives zero

---
 src/XmlFileHelper.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/XmlFileHelper.cpp b/src/XmlFileHelper.cpp
index 9223d2c..9b8a1ff 100644
--- a/src/XmlFileHelper.cpp
+++ b/src/XmlFileHelper.cpp
@@ -727,8 +727,9 @@ bool SceneData::GdtfConverter::ConvertDMXValue(const TXString& strValue, const I
 		if (byteSpecifier != chanlReso) 
 		{
 			Sint32 shift = (8 * (chanlReso - byteSpecifier));
-			if(shift >= 0) 	{ intValue = intValue << shift; }
-			else			{ intValue = intValue >> -shift; }
+			if(shift <= -64) 	{ intValue = 0; }
+			else if(shift >= 0) { intValue = intValue << shift; }
+			else				{ intValue = intValue >> -shift; }
 		}	
 		else
 		{
-- 
2.43.0


From d282bd8d9d0f6de806ba157245fbed725ade251f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:55 +0000
Subject: [PATCH 23/96] fix: write the classes of a scene to the MVR file

---
 src/SceneDataExchange.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/SceneDataExchange.cpp b/src/SceneDataExchange.cpp
index 06822bd..cf01ffd 100644
--- a/src/SceneDataExchange.cpp
+++ b/src/SceneDataExchange.cpp
@@ -3662,6 +3662,11 @@ bool SceneDataExchange::WriteXml(const IFolderIdentifierPtr& folder, IXMLFileIOB
 						position->PrintToFile( pAuxDataNode, this );
 					}
 
+					for ( const auto& clas : fClasses )
+					{
+						clas->PrintToFile( pAuxDataNode, this );
+					}
+
 					for ( const auto& symDef : fSymDefObjs )
 					{
 						symDef->PrintToFile( pAuxDataNode, this );
-- 
2.43.0


From f4ce7fa6f8a02fe6244a0d2b272c49566d8866ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:17 +0000
Subject: [PATCH 24/96] fix: keep the matrix a group object is created with

---
 src/SceneDataExchange.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/SceneDataExchange.cpp b/src/SceneDataExchange.cpp
index cf01ffd..8873391 100644
--- a/src/SceneDataExchange.cpp
+++ b/src/SceneDataExchange.cpp
@@ -3188,6 +3188,7 @@ SceneDataGroupObjPtr SceneDataExchange::CreateGroupObject(const SceneDataGUID& g
 {
 	SceneDataGroupObjPtr newGroup = new SceneDataGroupObj(guid);
 	addToContainer->AddObject(newGroup);
+	newGroup->SetTransformMatrix(offset);
 	return newGroup;
 }
 
@@ -3196,6 +3197,7 @@ SceneDataGroupObjPtr SceneDataExchange::CreateGroupObject(const SceneDataGUID& g
 	SceneDataGroupObjPtr newGroup = new SceneDataGroupObj(guid);
 	addToContainer->AddObject(newGroup);
 	newGroup->setName(name);
+	newGroup->SetTransformMatrix(offset);
 	return newGroup;
 }
 
-- 
2.43.0


From 513cfdb670b5670abd1e3175a11eb7e355037ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:27 +0000
Subject: [PATCH 25/96] fix: write a mapping definition that has no source

---
 src/SceneDataExchange.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SceneDataExchange.cpp b/src/SceneDataExchange.cpp
index 8873391..b0ab741 100644
--- a/src/SceneDataExchange.cpp
+++ b/src/SceneDataExchange.cpp
@@ -812,7 +812,7 @@ void SceneDataMappingDefinitionObj::OnPrintToFile(IXMLFileNodePtr pNode, SceneDa
 		pSizeYNode->SetNodeValue(GdtfConverter::ConvertInteger(fSizeY));
 	}
 
-	fSource->PrintToFile(pNode, exchange);
+	if (fSource) { fSource->PrintToFile(pNode, exchange); }
 
 	IXMLFileNodePtr pScaleHandlingNode;
 	if (VCOM_SUCCEEDED(pNode->CreateChildNode(XML_Val_MappingDefinitionScaleHandling, &pScaleHandlingNode)))
-- 
2.43.0


From ec0d841f5a889543339c96e6ba6d8f8af7e32391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:07 +0000
Subject: [PATCH 26/96] fix: resolve multipatch parents after all objects are
 read

---
 src/SceneDataExchange.cpp | 20 ++++++++++++++------
 src/SceneDataExchange.h   |  2 ++
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/SceneDataExchange.cpp b/src/SceneDataExchange.cpp
index b0ab741..050e82b 100644
--- a/src/SceneDataExchange.cpp
+++ b/src/SceneDataExchange.cpp
@@ -308,12 +308,13 @@ void SceneDataObj::OnReadFromNode(const IXMLFileNodePtr& pNode, SceneDataExchang
 	TXString multipatch;
 	pNode->GetNodeAttributeValue( XML_Val_MultipatchAttrName, multipatch );
 
-	if ( !multipatch.IsEmpty() )
-	{	
-		SceneDataGUID uuid( multipatch );
-		const auto& multipatchObj = exchange->GetSceneObjByUUID(uuid);
-		this->setMultipatchParent(multipatchObj);
-	}
+	// The parent may not be read yet, so it is resolved when all objects are there
+	fUnresolvedMultipatch = multipatch;
+}
+
+const TXString& SceneDataObj::GetUnresolvedMultipatch() const
+{
+	return fUnresolvedMultipatch;
 }
 
 // ----------------------------------------------------------------------------------------------------------------------------------
@@ -3976,6 +3977,13 @@ void SceneDataExchange::ReadFromGeneralSceneDescription(ISceneDataZipBuffer& xml
 	// Resolve classes from uuids
 	for (SceneDataObjWithMatrixPtr scObj : fSceneObjects)
 	{
+		TXString multipatchUuid	= scObj->GetUnresolvedMultipatch();
+
+		if (multipatchUuid.IsEmpty() == false)
+		{
+			scObj->setMultipatchParent(this->GetSceneObjByUUID(SceneDataGUID(multipatchUuid)));
+		}
+
 		TXString classUuid		= scObj->GetUnresolvedClass();
 		
 		if (classUuid.IsEmpty() == false)
diff --git a/src/SceneDataExchange.h b/src/SceneDataExchange.h
index afbacc2..a4a9949 100644
--- a/src/SceneDataExchange.h
+++ b/src/SceneDataExchange.h
@@ -111,6 +111,7 @@ namespace SceneData
 		SceneDataGUID					fGuid;
 		TXString						fName;
 		SceneDataObj*					fMultipatchObj = nullptr;
+		TXString						fUnresolvedMultipatch;
     
 	public:   
 		SceneDataGUID&					getGuid();
@@ -119,6 +120,7 @@ namespace SceneData
     
 		void							setMultipatchParent( SceneDataObj* value );
 		SceneDataObj*				    getMultipatchParent() const;
+		const TXString&					GetUnresolvedMultipatch() const;
     
 		// Write    
 		virtual void					PrintToFile(IXMLFileNodePtr pContainerNode, SceneDataExchange* exchange);
-- 
2.43.0


From 6433109a36f3746259ceb8518d1e1130eab008ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:58 +0000
Subject: [PATCH 27/96] fix: resolve symbol references everywhere in a scene

---
 src/SceneDataExchange.cpp | 65 ++++++++++++++++++++-------------------
 src/SceneDataExchange.h   |  2 ++
 2 files changed, 35 insertions(+), 32 deletions(-)

diff --git a/src/SceneDataExchange.cpp b/src/SceneDataExchange.cpp
index 050e82b..71bd2cc 100644
--- a/src/SceneDataExchange.cpp
+++ b/src/SceneDataExchange.cpp
@@ -3001,7 +3001,7 @@ SceneDataSymDefObjPtr SceneDataExchange::ReadSymDefObject(const IXMLFileNodePtr&
 	newSymDef->ReadFromNode(node, this);
 	
 	fSymDefObjs.push_back( newSymDef );
-	fSymDefMap[uuid] = newSymDef;
+	fSymDefMap[newSymDef->getGuid().GetUUIDString()] = newSymDef;
 
 	return newSymDef;
 }
@@ -4004,42 +4004,43 @@ void SceneDataExchange::ReadFromGeneralSceneDescription(ISceneDataZipBuffer& xml
 			
 		}
 
-        //-----------------------------------------------------------------------------
-        // Resolve Symbols in Symbols
-        TSymDefMap::iterator it = fSymDefMap.begin();
-        while(it != fSymDefMap.end())
-        {
-            SceneDataSymDefObjPtr symDef = it->second;
-
-            for (SceneDataGeoInstanceObjPtr geoObj : symDef->getGeometryArray()) 
-            {
-                if (geoObj->IsSymDef())
-                {
-				    SceneDataSymbolObjPtr symObj = static_cast<SceneDataSymbolObjPtr>(geoObj);
-				    SceneDataSymDefObjPtr ptr    = fSymDefMap[symObj->GetUnresolvedSymDef()];
-				
-				    ASSERTN(kEveryone, ptr);
-				    if(ptr) { symObj->SetSymDef(ptr); }
-                }
-            }
+	}
 
-            it++;
-        }
+	//------------------------------------------------------------------------------------------------------------------------------------------------------------------------
+	// Resolve Symbols in Symbols
+	for (SceneDataAuxObjPtr symDef : fSymDefObjs)
+	{
+		ResolveSymbols(static_cast<SceneDataSymDefObjPtr>(symDef)->getGeometryArray());
+	}
+
+	// Resolve Symbols in layers and everything in them
+	for (SceneDataObjWithMatrixPtr layer : fChildObjs) { ResolveSymbolsOfObject(layer); }
+}
 
-		for(SceneDataGeoInstanceObjPtr geoObj : scObj->GetGeometryArr())
+void SceneDataExchange::ResolveSymbols(const SceneDataGeometryObjArray& geometries)
+{
+	for (SceneDataGeoInstanceObjPtr geoObj : geometries)
+	{
+		if (geoObj->IsSymDef())
 		{
-			if(geoObj->IsSymDef())
-			{
-				SceneDataSymbolObjPtr symObj = static_cast<SceneDataSymbolObjPtr>(geoObj);
-				SceneDataSymDefObjPtr ptr    = fSymDefMap[symObj->GetUnresolvedSymDef()];
-				
-				ASSERTN(kEveryone, ptr);
-				if(ptr) { symObj->SetSymDef(ptr); }
-			}
+			SceneDataSymbolObjPtr symObj = static_cast<SceneDataSymbolObjPtr>(geoObj);
+			auto it = fSymDefMap.find(SceneDataGUID(symObj->GetUnresolvedSymDef()).GetUUIDString());
+
+			ASSERTN(kEveryone, it != fSymDefMap.end());
+			if (it != fSymDefMap.end()) { symObj->SetSymDef(it->second); }
 		}
-		
 	}
-	
+}
+
+void SceneDataExchange::ResolveSymbolsOfObject(SceneDataObjWithMatrixPtr obj)
+{
+	ResolveSymbols(obj->GetGeometryArr());
+
+	SceneDataGroupObjPtr container = dynamic_cast<SceneDataGroupObjPtr>(obj);
+	if (container)
+	{
+		for (SceneDataObjWithMatrixPtr child : container->GetChildArray()) { ResolveSymbolsOfObject(child); }
+	}
 }
 
 void SceneDataExchange::ProcessLayer(const IXMLFileNodePtr& node)
diff --git a/src/SceneDataExchange.h b/src/SceneDataExchange.h
index a4a9949..92d56df 100644
--- a/src/SceneDataExchange.h
+++ b/src/SceneDataExchange.h
@@ -1125,6 +1125,8 @@ namespace SceneData
 		void								ProcessLayer(const IXMLFileNodePtr& node);
 		void								ReadChildObjs(const IXMLFileNodePtr & node, SceneDataGroupObjPtr addToContainer);
 		SceneDataGroupObjPtr				ProcessGroup(const IXMLFileNodePtr& node, SceneDataGroupObjPtr addToContainer);
+		void								ResolveSymbols(const SceneDataGeometryObjArray& geometries);
+		void								ResolveSymbolsOfObject(SceneDataObjWithMatrixPtr obj);
 		bool								CheckAbort();
 		
 		
-- 
2.43.0


From 4aba4090fe4aae8224e2f1c2d33e876f8e437d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:06 +0000
Subject: [PATCH 28/96] fix: report symbols added to a symbol definition

---
 src/SceneDataExchange.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/SceneDataExchange.cpp b/src/SceneDataExchange.cpp
index 71bd2cc..86e816e 100644
--- a/src/SceneDataExchange.cpp
+++ b/src/SceneDataExchange.cpp
@@ -551,6 +551,7 @@ void SceneDataSymDefObj::Add(SceneDataGeoInstanceObjPtr object)
 	if (object->GetObjectType() == eSymbol || object->GetObjectType() == eGeometryObj)
 	{
 		fGeometries.push_back(object);
+		if (object->GetObjectType() == eSymbol) { fContainsSymbolGeometry = true; }
 	}
 	
 }
-- 
2.43.0


From 87fad09dc70ef560d8569c177c567922c1985d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:56 +0000
Subject: [PATCH 29/96] fix: GetProtocolAt hands out the protocol; check the
 index of protocols and addresses

---
 src/Implementation/CSceneObjImpl.cpp | 8 ++++----
 src/SceneDataExchange.cpp            | 8 ++++----
 src/SceneDataExchange.h              | 8 ++++----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/Implementation/CSceneObjImpl.cpp b/src/Implementation/CSceneObjImpl.cpp
index 8a29a74..5985053 100644
--- a/src/Implementation/CSceneObjImpl.cpp
+++ b/src/Implementation/CSceneObjImpl.cpp
@@ -1039,13 +1039,13 @@ VectorworksMVR::VCOMError VectorworksMVR::CSceneObjImpl::GetProtocolAt( size_t a
 	if( ! fixture) return kVCOMError_NoFixtureObj;
 
 	// Check the psotion of the array
-	if (at > fixture->GetProtocolsArray().size() )
+	if (at >= fixture->GetProtocolsArray().size() )
 	{
 		DSTOP((kEveryone, "Array overflow"));
 		return kVCOMError_Failed;
 	}
 
-	SceneData::SceneDataProtocols protocol = fixture->GetProtocolsArray().at( at );
+	const SceneData::SceneDataProtocols& protocol = fixture->GetProtocolsArray().at( at );
 	SProtocol* pProtocol = new SProtocol;
 	pProtocol->fGeometry = protocol.GetGeometry().GetCharPtr();
 	pProtocol->fName = protocol.GetName().GetCharPtr();
@@ -1053,7 +1053,7 @@ VectorworksMVR::VCOMError VectorworksMVR::CSceneObjImpl::GetProtocolAt( size_t a
 	pProtocol->fVersion = protocol.GetVersion().GetCharPtr();
 	pProtocol->fType = protocol.GetType().GetCharPtr();
 
-	outProtocol = &pProtocol;
+	*outProtocol = pProtocol;
 
 	return kVCOMError_NoError;
 }
@@ -1092,7 +1092,7 @@ VectorworksMVR::VCOMError VectorworksMVR::CSceneObjImpl::GetAdressAt(size_t at,
 	if( ! fixture) return kVCOMError_NoFixtureObj;
 	
 	// Check the psotion of the array
-	if (at > fixture->GetAdressesArray().size())
+	if (at >= fixture->GetAdressesArray().size())
 	{
 		DSTOP((kEveryone, "Array overflow"));
 		return kVCOMError_Failed;
diff --git a/src/SceneDataExchange.cpp b/src/SceneDataExchange.cpp
index 86e816e..f8c1794 100644
--- a/src/SceneDataExchange.cpp
+++ b/src/SceneDataExchange.cpp
@@ -1865,22 +1865,22 @@ SceneDataProtocols::SceneDataProtocols( const TXString& geometry, const TXString
 	fTransmision	= transmision;
 }
 
-TXString SceneDataProtocols::GetGeometry() const
+const TXString& SceneDataProtocols::GetGeometry() const
 {
 	return fGeometry;
 }
 
-TXString SceneDataProtocols::GetName() const
+const TXString& SceneDataProtocols::GetName() const
 {
 	return fName;
 }
 
-TXString SceneDataProtocols::GetType() const
+const TXString& SceneDataProtocols::GetType() const
 {
 	return fType;
 }
 
-TXString SceneDataProtocols::GetVersion() const
+const TXString& SceneDataProtocols::GetVersion() const
 {
 	return fVersion;
 }
diff --git a/src/SceneDataExchange.h b/src/SceneDataExchange.h
index 92d56df..0a6bd4e 100644
--- a/src/SceneDataExchange.h
+++ b/src/SceneDataExchange.h
@@ -742,10 +742,10 @@ namespace SceneData
 
 											SceneDataProtocols( const TXString& geometry, const TXString& name, const TXString& type, const TXString& version, const ETransmissionType& transmision );
 
-		TXString							GetGeometry() const;
-		TXString							GetName() const;
-		TXString							GetType() const;
-		TXString							GetVersion() const;
+		const TXString&						GetGeometry() const;
+		const TXString&						GetName() const;
+		const TXString&						GetType() const;
+		const TXString&						GetVersion() const;
 		ETransmissionType					GetTransmission() const;
 	};
 	typedef std::vector<SceneDataProtocols>	SceneDataProtocolsArray;
-- 
2.43.0


From 9fe4f6490eb42f5574a17ad3491c34493e7d169a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:12 +0000
Subject: [PATCH 30/96] fix: read custom commands whose channel function holds
 ',' or '/percent'

---
 src/SceneDataExchange.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/SceneDataExchange.cpp b/src/SceneDataExchange.cpp
index f8c1794..f64d5f1 100644
--- a/src/SceneDataExchange.cpp
+++ b/src/SceneDataExchange.cpp
@@ -1209,16 +1209,17 @@ void SceneDataCustomCommand::OnReadFromNode(const IXMLFileNodePtr& pNode, SceneD
 	pNode->GetNodeValue(customCommandString);
 
 	// Parse the string
-	ptrdiff_t percentP = customCommandString.Find("/percent");
+	// The names of a channel function may hold ',' and '/percent', so look from the end
+	ptrdiff_t percentP = customCommandString.ReverseFind("/percent,");
+	ptrdiff_t commaP = customCommandString.ReverseFind(",");
 	
-	fIsPercentage = percentP != -1;
+	fIsPercentage = percentP != -1 && percentP + 8 == commaP;
 	if(fIsPercentage)
 	{
 		fChannelFunction = customCommandString.Left(percentP);
 	}
 	else
 	{
-		ptrdiff_t commaP = customCommandString.Find(",");
 		fChannelFunction = customCommandString.Left(commaP);
 	}
 
-- 
2.43.0


From 8d2dfe3225572f80ba7221f9d34bf8bf89fda233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:14 +0000
Subject: [PATCH 31/96] fix: initialise optional scene values

---
 src/SceneDataExchange.cpp |  2 +-
 src/SceneDataExchange.h   | 14 +++++++-------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/SceneDataExchange.cpp b/src/SceneDataExchange.cpp
index f64d5f1..ab5def6 100644
--- a/src/SceneDataExchange.cpp
+++ b/src/SceneDataExchange.cpp
@@ -2443,7 +2443,7 @@ void SceneDataFixtureObj::OnReadFromNode(const IXMLFileNodePtr& pNode, SceneData
 			pNode->GetNodeAttributeValue( XML_Val_ProtocolType, type );
 			pNode->GetNodeAttributeValue( XML_Val_ProtocolVersion, version );
 			pNode->GetNodeAttributeValue( XML_Val_ProtocolTransmission, transmission );
-			ETransmissionType transmision;
+			ETransmissionType transmision = ETransmissionType::Anycast;
 			GdtfConverter::ConvertTransmissionTypeEnum( transmission, pNode, transmision );
 
 			SceneDataProtocols protocol( geometry, name, type, version, transmision );
diff --git a/src/SceneDataExchange.h b/src/SceneDataExchange.h
index 0a6bd4e..91b8093 100644
--- a/src/SceneDataExchange.h
+++ b/src/SceneDataExchange.h
@@ -276,7 +276,7 @@ namespace SceneData
 	private:
 		TXString 						fValue;
 		TXString 						fLinkedGeometry;
-		GdtfDefines::ESourceType		fType;
+		GdtfDefines::ESourceType		fType = GdtfDefines::ESourceType::NDI;
 		
 	public:
 		virtual const TXString& 		GetValue();
@@ -348,11 +348,11 @@ namespace SceneData
 	private:
 
 		SceneDataGUID					fLinkedDefUuid;
-		Uint32							fUx;
-		Uint32							fUy;
-		Uint32							fOx;
-		Uint32							fOy;
-		double							fRz;
+		Uint32							fUx = 0;
+		Uint32							fUy = 0;
+		Uint32							fOx = 0;
+		Uint32							fOy = 0;
+		double							fRz = 0.0;
 		
 	public:
 		virtual SceneDataGUID			GetLinkedDefUuid();
@@ -921,7 +921,7 @@ namespace SceneData
 	
 	private:
 		SceneDataSourceObjPtr 				fSource;
-		EScaleHandlingType					fScaleHandling;
+		EScaleHandlingType					fScaleHandling = EScaleHandlingType::ScaleKeepRatio;
 
 	public:
 		virtual SceneDataSourceObjPtr 		GetVideoSource();
-- 
2.43.0


From d81123860dbfe1661fa5d0ad71b3db4cd4356e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:23 +0000
Subject: [PATCH 32/96] fix: read fixture addresses given as universe and
 address

---
 src/SceneDataExchange.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/SceneDataExchange.cpp b/src/SceneDataExchange.cpp
index ab5def6..fce91f1 100644
--- a/src/SceneDataExchange.cpp
+++ b/src/SceneDataExchange.cpp
@@ -2358,10 +2358,23 @@ void SceneDataFixtureObj::OnReadFromNode(const IXMLFileNodePtr& pNode, SceneData
 									 Sint32 breakId		= 0; TXString breakIdStr;
 									 
 									 // Read and Convert
-									 pNode->GetNodeValue(dmxStr);											GdtfConverter::ConvertInteger(dmxStr, pNode,		dmx);
+									 pNode->GetNodeValue(dmxStr);
 									 pNode->GetNodeAttributeValue(XML_Val_FixtureAttrBreak, breakIdStr);	GdtfConverter::ConvertInteger(breakIdStr, pNode,	breakId);
 									 
-									 fAdresses.push_back(SceneDataDmxAdress(dmx, breakId));
+									 ptrdiff_t dotPos = dmxStr.Find('.');
+									 if (dotPos > 0)
+									 {
+										 // Alternative format: Universe.Address
+										 Sint32 universe = 0;
+										 GdtfConverter::ConvertInteger(dmxStr.Left(dotPos), pNode, universe);
+										 GdtfConverter::ConvertInteger(dmxStr.Right(dmxStr.GetLength() - dotPos - 1), pNode, dmx);
+										 fAdresses.push_back(SceneDataDmxAdress(universe, dmx, breakId));
+									 }
+									 else
+									 {
+										 GdtfConverter::ConvertInteger(dmxStr, pNode, dmx);
+										 fAdresses.push_back(SceneDataDmxAdress(dmx, breakId));
+									 }
 								 }
 								 );
 	
-- 
2.43.0


From d5e96e551ca4214e9cbfefaee618f24b4766047e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:30 +0000
Subject: [PATCH 33/96] fix: report a file that holds no scene description

---
 src/SceneDataExchange.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SceneDataExchange.cpp b/src/SceneDataExchange.cpp
index fce91f1..627e08d 100644
--- a/src/SceneDataExchange.cpp
+++ b/src/SceneDataExchange.cpp
@@ -3808,7 +3808,7 @@ bool SceneDataExchange::ReadFromFile(const IFileIdentifierPtr& file)
 		ReadFromGeneralSceneDescription(xmlFileBuffer);
     }
 
-	return true;	
+	return xmlFileBuffer.IsSet();	
 }
 
 
-- 
2.43.0


From a7a0d4fb539a59854d771b8ac00ef296ad7df499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:52 +0000
Subject: [PATCH 34/96] fix: give no file for a symbol

---
 src/Implementation/CGeometryReferenceImpl.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Implementation/CGeometryReferenceImpl.cpp b/src/Implementation/CGeometryReferenceImpl.cpp
index 915a49d..6a709c8 100644
--- a/src/Implementation/CGeometryReferenceImpl.cpp
+++ b/src/Implementation/CGeometryReferenceImpl.cpp
@@ -35,6 +35,9 @@ MvrString VectorworksMVR::CGeometryReferenceImpl::GetFileForGeometry()
 	ASSERTN(kEveryone,fPtr);
 	if( ! fPtr ) return nullptr;
 	
+	// A symbol has no file
+	if(fIsSymbol) { return ""; }
+	
 	// Do the actual cast
 	SceneData::SceneDataGeometryObjPtr geoObj = static_cast<SceneData::SceneDataGeometryObjPtr>(fPtr);
 	
-- 
2.43.0


From aa1bb6e720601133b97aa0b93380a7ddfa848983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:24 +0000
Subject: [PATCH 35/96] fix: give out the connections of every scene object

---
 src/Implementation/CSceneObjImpl.cpp | 24 ++++++------------------
 1 file changed, 6 insertions(+), 18 deletions(-)

diff --git a/src/Implementation/CSceneObjImpl.cpp b/src/Implementation/CSceneObjImpl.cpp
index 5985053..75f8561 100644
--- a/src/Implementation/CSceneObjImpl.cpp
+++ b/src/Implementation/CSceneObjImpl.cpp
@@ -1429,15 +1429,7 @@ VectorworksMVR::VCOMError VectorworksMVR::CSceneObjImpl::GetConnectionCount(size
 	ASSERTN(kEveryone,fPtr);
 	if( ! fPtr) return kVCOMError_NotInitialized;
 	
-	// Check the type is right
-	ASSERTN(kEveryone,fType == ESceneObjType::Fixture);
-	if( fType != ESceneObjType::Fixture) return kVCOMError_NoFixtureObj;
-	
-	// Try to cast
-	SceneData::SceneDataFixtureObjPtr fixture = static_cast<SceneData::SceneDataFixtureObjPtr>(fPtr);
-	if( ! fixture) return kVCOMError_NoFixtureObj;
-	
-	outConnections = fixture->GetConnectionArr().size();
+	outConnections = fPtr->GetConnectionArr().size();
 	
 	return kVCOMError_NoError;
 }
@@ -1447,20 +1439,13 @@ VectorworksMVR::VCOMError VectorworksMVR::CSceneObjImpl::GetConnectionAt(size_t
 	ASSERTN(kEveryone,fPtr);
 	if( ! fPtr) return kVCOMError_NotInitialized;
 	
-	ASSERTN(kEveryone,fType == ESceneObjType::Fixture);
-	if( fType != ESceneObjType::Fixture) return kVCOMError_NoFixtureObj;
-
-	// Try to cast
-	SceneData::SceneDataFixtureObjPtr fixture = static_cast<SceneData::SceneDataFixtureObjPtr>(fPtr);
-	if( ! fixture) return kVCOMError_NoFixtureObj;
-	
-	size_t count = fixture->GetConnectionArr().size();
+	size_t count = fPtr->GetConnectionArr().size();
 	
 	
 	ASSERTN(kEveryone, at < count);
 	if (count <= at) { return kVCOMError_InvalidArg; }
 	
-	SceneData::SceneDataConnectionObjPtr pScConnection = fixture->GetConnectionArr().at(at);
+	SceneData::SceneDataConnectionObjPtr pScConnection = fPtr->GetConnectionArr().at(at);
 	
 	CConnectionImpl* pConnection = nullptr;
 	
@@ -1491,6 +1476,9 @@ VectorworksMVR::VCOMError VectorworksMVR::CSceneObjImpl::GetConnectionAt(size_t
 
 VectorworksMVR::VCOMError VectorworksMVR::CSceneObjImpl::CreateConnection(MvrString own, MvrString other, MvrUUID ToObject, IConnection** addedObj)
 {
+	ASSERTN(kEveryone,fPtr);
+	if( ! fPtr) return kVCOMError_NotInitialized;
+
 	const auto nObj = fPtr->AddConnectionObj(own, other, VWUUID(ToObject.a, ToObject.b, ToObject.c, ToObject.d));
 	
 	//---------------------------------------------------------------------------
-- 
2.43.0


From f433d31c6d40692751a88e231e1b38d6a29c3f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:41 +0000
Subject: [PATCH 36/96] fix: report when a container could not be written

---
 src/Implementation/CGdtfFixture.cpp              | 6 +++---
 src/Implementation/CMediaRessourceVectorImpl.cpp | 3 +--
 src/SceneDataExchange.cpp                        | 5 +----
 src/Wrapper/RawOSFileimpl.cpp                    | 6 +++++-
 src/Wrapper/ZIPFileBuffer.cpp                    | 9 ++++++---
 src/Wrapper/ZIPFileImpl.cpp                      | 5 +++--
 6 files changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/Implementation/CGdtfFixture.cpp b/src/Implementation/CGdtfFixture.cpp
index d6b7032..6c45f2e 100755
--- a/src/Implementation/CGdtfFixture.cpp
+++ b/src/Implementation/CGdtfFixture.cpp
@@ -207,14 +207,14 @@ VectorworksMVR::VCOMError VectorworksMVR::CGdtfFixtureImpl::Close()
 		
 	fFixtureObject->ExportToFile(fZipFile);
 	
-	fZipFile->Close();
+	VCOMError error = fZipFile->Close();
 	fWriting = false;
 
     FreeBuffer();
     fZipFile->ToBuffer(fBuffer, fBufferLength);
 	
-	// Read From File
-	return kVCOMError_NoError;
+	// Fails when the file could not be written
+	return error;
 }
 
 VectorworksMVR::VCOMError VectorworksMVR::CGdtfFixtureImpl::ReadFromFile(IFileIdentifierPtr file, TXString gdtfFileName)
diff --git a/src/Implementation/CMediaRessourceVectorImpl.cpp b/src/Implementation/CMediaRessourceVectorImpl.cpp
index 7fa782e..a29c2cd 100644
--- a/src/Implementation/CMediaRessourceVectorImpl.cpp
+++ b/src/Implementation/CMediaRessourceVectorImpl.cpp
@@ -982,8 +982,7 @@ VectorworksMVR::VCOMError VectorworksMVR::CMediaRessourceVectorImpl::Close()
 	// Write Mode
 	if(fWriteMode)
 	{
-		fExchangeObj.WriteToFile(fPath);
-		return kVCOMError_NoError;
+		return fExchangeObj.WriteToFile(fPath) ? kVCOMError_NoError : kVCOMError_Failed;
 	}
 	
 	//------------------------------------------------------------------
diff --git a/src/SceneDataExchange.cpp b/src/SceneDataExchange.cpp
index 627e08d..8a9d2c4 100644
--- a/src/SceneDataExchange.cpp
+++ b/src/SceneDataExchange.cpp
@@ -3596,10 +3596,7 @@ bool SceneDataExchange::WriteToFile(const IFileIdentifierPtr& file)
 
 	//-------------------------------------------------------------------------------------------------
 	// Store the file on disk
-	zipfile->Close();
-	
-	
-	return true;
+	return VCOM_SUCCEEDED(zipfile->Close());
 }
 
 void SceneDataExchange::AddProviderAndProviderVersion(const TXString& provider, const TXString& providerVersion)
diff --git a/src/Wrapper/RawOSFileimpl.cpp b/src/Wrapper/RawOSFileimpl.cpp
index 588e02d..6cc7072 100644
--- a/src/Wrapper/RawOSFileimpl.cpp
+++ b/src/Wrapper/RawOSFileimpl.cpp
@@ -52,9 +52,13 @@ VCOMError CRawOSFileImpl::Close()
 #ifdef _LINUX
 		fsync(fileno(fTheFile));
 #endif
-		std::fclose( fTheFile );
+		// What is still buffered is written now, this can fail
+		int closeResult = std::fclose( fTheFile );
 
 		fTheFile = NULL;
+
+		if ( closeResult != 0 )
+			return kVCOMError_Failed;
 	}
 
 	return kVCOMError_NoError;
diff --git a/src/Wrapper/ZIPFileBuffer.cpp b/src/Wrapper/ZIPFileBuffer.cpp
index de54dfc..1710680 100644
--- a/src/Wrapper/ZIPFileBuffer.cpp
+++ b/src/Wrapper/ZIPFileBuffer.cpp
@@ -82,12 +82,15 @@ VCOMError ZIPFileBuffer::Close()
 		IRawOSFilePtr file(IID_RawOSFile);
 
 		// open file
-		file->Open(fpOpenedFileID, false, true, false, false);
+		VCOMError error = file->Open(fpOpenedFileID, false, true, false, false);
+		if (VCOM_FAILED(error)) { return error; }
 
-		file->Write(0, fZIPFileBufferSize, fpZIPFileBuffer);
+		error = file->Write(0, fZIPFileBufferSize, fpZIPFileBuffer);
 
 		// close file
-		file->Close();
+		VCOMError closeError = file->Close();
+
+		return VCOM_FAILED(error) ? error : closeError;
 	}
 
 	return kVCOMError_NoError;
diff --git a/src/Wrapper/ZIPFileImpl.cpp b/src/Wrapper/ZIPFileImpl.cpp
index 83d7428..5423b06 100644
--- a/src/Wrapper/ZIPFileImpl.cpp
+++ b/src/Wrapper/ZIPFileImpl.cpp
@@ -221,14 +221,15 @@ VCOMError CZIPFileImpl::OpenNewWrite(IFileIdentifier* pFileID, bool compressFile
 
 VCOMError CZIPFileImpl::Close()
 {
+	VCOMError error = kVCOMError_NoError;
 	if ( fpOpenedFile )
 	{
-		fpOpenedFile->Close();
+		error				= fpOpenedFile->Close();
 		fbOpenedWrite		= false;
 		fOpenedFileFullPath = "";
 		fFolderPath			= "";
 	}
-	return kVCOMError_NoError;
+	return error;
 }
 
 VCOMError CZIPFileImpl::ToBuffer(char*& p, size_t& inLength)
-- 
2.43.0


From be4246aa2dc7bd77e1117c7a2dea552fc11983f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:42 +0000
Subject: [PATCH 37/96] fix: resolve references to classes, positions and focus
 points as UUIDs

---
 src/SceneDataExchange.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/SceneDataExchange.cpp b/src/SceneDataExchange.cpp
index 8a9d2c4..e3d8070 100644
--- a/src/SceneDataExchange.cpp
+++ b/src/SceneDataExchange.cpp
@@ -3957,7 +3957,7 @@ void SceneDataExchange::ReadFromGeneralSceneDescription(ISceneDataZipBuffer& xml
 			bool match  = false;
 			for (SceneDataFocusPointObjPtr focusPoint : fFocusPoints)
 			{
-				if (focusUuid == focusPoint->getGuid().GetUUIDString())
+				if (SceneDataGUID(focusUuid).GetUUIDString() == focusPoint->getGuid().GetUUIDString())
 				{
 					fixture->SetFocusPoint(focusPoint);
 					match = true;
@@ -3973,7 +3973,7 @@ void SceneDataExchange::ReadFromGeneralSceneDescription(ISceneDataZipBuffer& xml
 			bool match  = false;
 			for (SceneDataPositionObjPtr position : fPositions)
 			{
-				if (postionUuid == position->getGuid().GetUUIDString())
+				if (SceneDataGUID(postionUuid).GetUUIDString() == position->getGuid().GetUUIDString())
 				{
 					fixture->SetPosition(position);
 					match = true;
@@ -4003,7 +4003,7 @@ void SceneDataExchange::ReadFromGeneralSceneDescription(ISceneDataZipBuffer& xml
 			bool match  = false;
 			for (SceneDataClassObjPtr classObj : fClasses)
 			{
-				if (classUuid.Equal( classObj->getGuid().GetUUIDString() ))
+				if (SceneDataGUID(classUuid).GetUUIDString() == classObj->getGuid().GetUUIDString())
 				{
 					scObj->SetClass(classObj);
 					match = true;
-- 
2.43.0


From e906e8e6ac742fd64e9763ecdcabcc7bb9fa1a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:47 +0000
Subject: [PATCH 38/96] fix: forget the previous scene when a file is opened
 for reading

---
 src/SceneDataExchange.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/SceneDataExchange.cpp b/src/SceneDataExchange.cpp
index e3d8070..4c8e707 100644
--- a/src/SceneDataExchange.cpp
+++ b/src/SceneDataExchange.cpp
@@ -3734,8 +3734,22 @@ void SceneDataExchange::AddLocationForGdtfFiles(IFolderIdentifierPtr folder)
 
 bool SceneDataExchange::ReadFromFile(const IFileIdentifierPtr& file)
 {
-	// First clear the array
+	// First remove the scene that was loaded before
+	for (size_t i = 0; i < fFilesInZip.size(); i++)				{ fFilesInZip[i]->DeleteOnDisk(); }
+	for (SceneDataObjWithMatrixPtr	childObj : fChildObjs )		{ delete childObj; }
+	for (SceneDataProviderObjPtr	childPro : fProviderObjs )	{ delete childPro; }
+
+	fFilesInZip.clear();
+	fChildObjs.clear();
+	fProviderObjs.clear();
 	fSceneObjects.clear();
+	fFixtures.clear();
+	fFocusPoints.clear();
+	fPositions.clear();
+	fClasses.clear();
+	fSymDefObjs.clear();
+	fSymDefMap.clear();
+	fMappingDefinitionObjs.clear();
 
 	//-------------------------------------------------------------------------------------------------
 	// Duplicate ZIP File
-- 
2.43.0


From 5d259f0e611aa92a06f38e4ffff3c6bf0c030e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:52 +0000
Subject: [PATCH 39/96] fix: refuse a focus point that is no focus point

---
 src/Implementation/CSceneObjImpl.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Implementation/CSceneObjImpl.cpp b/src/Implementation/CSceneObjImpl.cpp
index 75f8561..a9fc1ab 100644
--- a/src/Implementation/CSceneObjImpl.cpp
+++ b/src/Implementation/CSceneObjImpl.cpp
@@ -1540,7 +1540,8 @@ VectorworksMVR::VCOMError VectorworksMVR::CSceneObjImpl::SetFocusPoint(ISceneObj
 	ESceneObjType type;
 	SceneData::SceneDataObjWithMatrixPtr	scFpParent	= nullptr;
 	pFocusPoint->GetPointer(scFpParent, type);
-	
+	if (type != ESceneObjType::FocusPoint) { return kVCOMError_InvalidArg; }
+
 	SceneData::SceneDataFocusPointObjPtr scFocusPoint = static_cast<SceneData::SceneDataFocusPointObjPtr>(scFpParent);
 	
 	ASSERTN(kEveryone, scFocusPoint != nullptr);
-- 
2.43.0


From 1f09821daa76bc13d96bbe0f78203b5559fbf885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:39 +0000
Subject: [PATCH 40/96] fix: closing a fixture that is only kept in memory
 succeeds

---
 src/Wrapper/ZIPFileBuffer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Wrapper/ZIPFileBuffer.cpp b/src/Wrapper/ZIPFileBuffer.cpp
index 1710680..85ef594 100644
--- a/src/Wrapper/ZIPFileBuffer.cpp
+++ b/src/Wrapper/ZIPFileBuffer.cpp
@@ -78,6 +78,11 @@ VCOMError ZIPFileBuffer::Close()
 {
 	if (!fOpenForRead && fpZIPFileBuffer)
 	{
+		// without a path the container is only kept in memory
+		TXString path;
+		if (fpOpenedFileID) { fpOpenedFileID->GetFileFullPath(path); }
+		if (path.IsEmpty()) { return kVCOMError_NoError; }
+
 		// prepare file
 		IRawOSFilePtr file(IID_RawOSFile);
 
-- 
2.43.0


From a2f4b6f613f4292a7342061e4fafdda12c26e2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:22 +0000
Subject: [PATCH 41/96] fix: extract the files of an MVR that lie in folders

---
 src/SceneDataExchange.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/SceneDataExchange.cpp b/src/SceneDataExchange.cpp
index 4c8e707..f9f918f 100644
--- a/src/SceneDataExchange.cpp
+++ b/src/SceneDataExchange.cpp
@@ -3790,6 +3790,14 @@ bool SceneDataExchange::ReadFromFile(const IFileIdentifierPtr& file)
         }
         else if (SystemUtil::IsPathInsideOfFolder(outPath))
         {
+			// Create the folders the file lies in
+			for (size_t at = outPath.find('/'); at != std::string::npos; at = outPath.find('/', at + 1))
+			{
+				IFolderIdentifierPtr subFolder (IID_FolderIdentifier);
+				subFolder->Set(fWorkingFolder, TXString(outPath.substr(0, at)));
+				subFolder->CreateOnDisk();
+			}
+
 			// Prepare pointer to the new files
 			IFileIdentifierPtr file (IID_FileIdentifier);
 			file->Set(fWorkingFolder, outPath);
-- 
2.43.0


From 8bd658a354a4f366c0536462eeea8b7c682f0991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:22 +0000
Subject: [PATCH 42/96] fix: give every opened scene a working folder of its
 own

---
 src/SceneDataExchange.cpp | 20 ++++++++++++++++++--
 src/SceneDataExchange.h   |  1 +
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/SceneDataExchange.cpp b/src/SceneDataExchange.cpp
index f9f918f..5ce80dc 100644
--- a/src/SceneDataExchange.cpp
+++ b/src/SceneDataExchange.cpp
@@ -7,11 +7,14 @@
 #include "GDTFManager.h"
 #include "XmlFileHelper.h"
 #include "Utility.h"
+#include <set>
 
 using namespace SceneData;
 
 static std::function<void( bool& )> fAbortCallback;
 static std::mutex fAbortCallbackMutex;
+static std::set<size_t>& fWorkingFoldersInUse = *new std::set<size_t>(); // objects may be destroyed at exit
+static std::mutex fWorkingFoldersMutex;
 
 SceneDataGUID::SceneDataGUID(const TXString& uuid)
 {
@@ -2874,8 +2877,17 @@ SceneDataExchange::SceneDataExchange()
 {	
 	//---------------------------------------------------------------------------------------------
 	// Set the working folder
+	// Every object that is alive has a folder of its own
+	{
+		std::lock_guard<std::mutex> lock(fWorkingFoldersMutex);
+		fWorkingFolderIndex = 0;
+		while ( ! fWorkingFoldersInUse.insert(fWorkingFolderIndex).second) { fWorkingFolderIndex++; }
+	}
+	TXString folderName ("MVR_Export");
+	if (fWorkingFolderIndex > 0) { folderName << "_" << fWorkingFolderIndex; }
+
 	fWorkingFolder = (IID_FolderIdentifier);
-	fWorkingFolder->Set(EFolderSpecifier::kSpotlightFolder, true /*UserFolder*/, "MVR_Export");
+	fWorkingFolder->Set(EFolderSpecifier::kSpotlightFolder, true /*UserFolder*/, folderName);
 	
 	
 	//---------------------------------------------------------------------------------------------
@@ -2910,7 +2922,11 @@ SceneDataExchange::~SceneDataExchange()
 	fMappingDefinitionObjs.clear();
 	for (SceneDataObjWithMatrixPtr	childObj : fChildObjs )		{ delete childObj; }
 	for (SceneDataProviderObjPtr	childPro : fProviderObjs )	{ delete childPro; }
-	
+
+	if (fWorkingFolderIndex > 0) { fWorkingFolder->DeleteOnDisk(); }
+
+	std::lock_guard<std::mutex> lock(fWorkingFoldersMutex);
+	fWorkingFoldersInUse.erase(fWorkingFolderIndex);
 }
 
 void SceneDataExchange::InitializeForExport()
diff --git a/src/SceneDataExchange.h b/src/SceneDataExchange.h
index 91b8093..c898568 100644
--- a/src/SceneDataExchange.h
+++ b/src/SceneDataExchange.h
@@ -993,6 +993,7 @@ namespace SceneData
 		
 		// File Operation Handeling
 		IFolderIdentifierPtr				fWorkingFolder;
+		size_t								fWorkingFolderIndex;
 		bool								fUndoStarted;
 		//
         TFileIdentifierPtrArray				f3DS_FilesToAdd;
-- 
2.43.0


From cc49e990af9aad6753022fc946b01e121d310833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:38 +0000
Subject: [PATCH 43/96] fix: reading a malformed UUID in a scene description
 does not dereference a null node

---
 src/GdtfError.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/GdtfError.cpp b/src/GdtfError.cpp
index ba2191b..08100cc 100644
--- a/src/GdtfError.cpp
+++ b/src/GdtfError.cpp
@@ -27,6 +27,12 @@ GdtfParsingError::GdtfParsingError(GdtfDefines::EGdtfParsingError type, size_t l
 GdtfParsingError::GdtfParsingError(GdtfDefines::EGdtfParsingError type, const IXMLFileNodePtr& pNode)
 {
     fErrorType          = type;
+    fLineNumber         = 0;
+    fColumn             = 0;
+
+    // Values can be converted without a node they come from
+    if( ! pNode) { return; }
+
     pNode->GetLineNumber(fLineNumber, fColumn);
     pNode->GetNodeName(fNodeName);
 
-- 
2.43.0


From 59bc405ce3bd1437eee4eee551fbd858bb13baf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:59 +0000
Subject: [PATCH 44/96] fix: an index equal to the count is out of bounds

---
 src/Implementation/CGdtfAttribute.cpp | 2 +-
 src/Implementation/CGdtfGamut.cpp     | 2 +-
 src/Implementation/CGdtfGeometry.cpp  | 6 +++---
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/Implementation/CGdtfAttribute.cpp b/src/Implementation/CGdtfAttribute.cpp
index c1a3ea9..28985ce 100644
--- a/src/Implementation/CGdtfAttribute.cpp
+++ b/src/Implementation/CGdtfAttribute.cpp
@@ -293,7 +293,7 @@ VectorworksMVR::VCOMError VectorworksMVR::CGdtfAttributeImpl::GetSubPhysicalUnit
 	if ( ! fAttribute) { return kVCOMError_NotInitialized; }
 	
 	// check overflow
-	if (fAttribute->GetSubPhysicalUnitArray().size() < at) { return kVCOMError_OutOfBounds; }
+	if (fAttribute->GetSubPhysicalUnitArray().size() <= at) { return kVCOMError_OutOfBounds; }
 	
 	
 	//---------------------------------------------------------------------------
diff --git a/src/Implementation/CGdtfGamut.cpp b/src/Implementation/CGdtfGamut.cpp
index b64e739..78b6bbb 100644
--- a/src/Implementation/CGdtfGamut.cpp
+++ b/src/Implementation/CGdtfGamut.cpp
@@ -53,7 +53,7 @@ VectorworksMVR::VCOMError VectorworksMVR::CGdtfGamutImpl::GetPointAt(size_t at,
 	if ( ! fGamut) { return kVCOMError_NotInitialized; }
 	
 	// check overflow
-	if (fGamut->GetGamutPoints().size() < at) { return kVCOMError_OutOfBounds; }
+	if (fGamut->GetGamutPoints().size() <= at) { return kVCOMError_OutOfBounds; }
 
 	CCieColorPtr colorPtr = fGamut->GetGamutPoints()[at];
 
diff --git a/src/Implementation/CGdtfGeometry.cpp b/src/Implementation/CGdtfGeometry.cpp
index 75bac24..5eda77a 100644
--- a/src/Implementation/CGdtfGeometry.cpp
+++ b/src/Implementation/CGdtfGeometry.cpp
@@ -790,7 +790,7 @@ VectorworksMVR::VCOMError VectorworksMVR::CGdtfGeometryImpl::GetBreakAt(size_t a
 	if ( ! ref) { return kVCOMError_Failed; }
 	
 	// check overflow
-	if (ref->GetBreakArray().size() < at) { return kVCOMError_OutOfBounds; }
+	if (ref->GetBreakArray().size() <= at) { return kVCOMError_OutOfBounds; }
 	
 	
 	//---------------------------------------------------------------------------
@@ -1510,7 +1510,7 @@ VectorworksMVR::VCOMError VectorworksMVR::CGdtfGeometryImpl::GetLaserProtocolAt(
 	if ( ! laser) { return kVCOMError_Failed; }
 	
 	// check overflow
-	if (laser->GetLaserProtocolArray().size() < at) { return kVCOMError_OutOfBounds; }
+	if (laser->GetLaserProtocolArray().size() <= at) { return kVCOMError_OutOfBounds; }
 	
 	
 	//---------------------------------------------------------------------------
@@ -2133,7 +2133,7 @@ VectorworksMVR::VCOMError VectorworksMVR::CGdtfGeometryImpl::GetPinPatchAt(size_
 	if ( ! wiringObject) { return kVCOMError_Failed; }
 	
 	// check overflow
-	if (wiringObject->GetPinPatchArray().size() < at) { return kVCOMError_OutOfBounds; }
+	if (wiringObject->GetPinPatchArray().size() <= at) { return kVCOMError_OutOfBounds; }
 	
 	
 	//---------------------------------------------------------------------------
-- 
2.43.0


From d7e341f5230fe7012f25ef1bc93f2f0b4cea82db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:52 +0000
Subject: [PATCH 45/96] fix: asking for the breaks of a mode ends when geometry
 references are circular

---
 src/GDTFManager.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/GDTFManager.cpp b/src/GDTFManager.cpp
index 98fcb90..c49fabd 100644
--- a/src/GDTFManager.cpp
+++ b/src/GDTFManager.cpp
@@ -5214,7 +5214,8 @@ TSint32Array GdtfDmxMode::GetBreakArray() const
 			{
 				GdtfGeometryReferencePtr geoRef = static_cast<GdtfGeometryReferencePtr>( geometry );
 				ASSERTN( kEveryone, geoRef != nullptr );
-				if ( geoRef )
+				// Geometry references can be circular, follow each only once
+				if ( geoRef && std::find(geometryRefs.begin(), geometryRefs.end(), geoRef) == geometryRefs.end() )
 				{
 					geometrysToCheck.push_back( geoRef->GetLinkedGeometry() );
 					geometryRefs.push_back( geoRef );
-- 
2.43.0


From facb4a323aac1473803090a1f80b1a2949f23187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:09 +0000
Subject: [PATCH 46/96] fix: geometry references with fewer breaks than their
 channels use

---
 src/GDTFManager.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/GDTFManager.cpp b/src/GDTFManager.cpp
index c49fabd..433f48b 100644
--- a/src/GDTFManager.cpp
+++ b/src/GDTFManager.cpp
@@ -5238,6 +5238,8 @@ TSint32Array GdtfDmxMode::GetBreakArray() const
 				if(geoRef->GetLinkedGeometry() == channel->GetGeomRef())
 				{
 					TGdtfBreakArray refBreaks = geoRef->GetBreakArray();
+					if(refBreaks.empty()) { continue; }
+
 					if(std::find(breaks.begin(), breaks.end(), refBreaks.back()->GetDmxBreak()) == breaks.end())
 					{
 						breaks.push_back(refBreaks.back()->GetDmxBreak());
@@ -5347,7 +5349,8 @@ size_t GdtfDmxMode::GetFootPrintForBreak(size_t breakId)
 			if(foundIndex != breakIdsOfReference.end())
 			{
 				size_t 				indexOfBreak 				= std::distance(breakIdsOfReference.begin(),foundIndex);
-				size_t 				offset 						= geoRef->GetBreakArray()[indexOfBreak]->GetDmxAddress()-1;
+				size_t 				offset 						= 0;
+				if(indexOfBreak < geoRef->GetBreakArray().size()) { offset = geoRef->GetBreakArray()[indexOfBreak]->GetDmxAddress()-1; }
 				TGdtfGeometryArray  geometriesInReferencedTree 	= {refedGeo};
 
 				while (geometriesInReferencedTree.size() > 0)
@@ -5371,7 +5374,7 @@ size_t GdtfDmxMode::GetFootPrintForBreak(size_t breakId)
 			}
 
 			// if the channel of a child geometry has the break value overwrite and the last break of the ref has a matching break Id, then add addresses + offset 
-			if(overwrite)
+			if(overwrite && ! geoRef->GetBreakArray().empty())
 			{
 				GdtfBreakPtr overwriteBreak = geoRef->GetBreakArray().back();
 				if(overwriteBreak->GetDmxBreak() == (Sint32)breakId)
-- 
2.43.0


From de50b6a16d18eae76a1e08240c73a659dcfb2aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:30 +0000
Subject: [PATCH 47/96] fix: the footprint of a break without addresses is zero

---
 src/GDTFManager.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/GDTFManager.cpp b/src/GDTFManager.cpp
index 433f48b..579b113 100644
--- a/src/GDTFManager.cpp
+++ b/src/GDTFManager.cpp
@@ -5410,7 +5410,10 @@ size_t GdtfDmxMode::GetFootPrintForBreak(size_t breakId)
 		}
 	}
 
-	DMXAddress max = 0, min = 512;
+	// Virtual channels have no address
+	if(addresses.empty()) { return 0; }
+
+	DMXAddress max = addresses.front(), min = addresses.front();
 	for (DMXAddress adr : addresses)
 	{
 		if(adr > max) max = adr;
-- 
2.43.0


From fa946b7af7d026cb29fb0997f3255486b6ae2644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:46 +0000
Subject: [PATCH 48/96] fix: the attached files of a file that could not be
 read completely can be asked for

---
 src/Implementation/CMediaRessourceVectorImpl.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/Implementation/CMediaRessourceVectorImpl.cpp b/src/Implementation/CMediaRessourceVectorImpl.cpp
index a29c2cd..cf08dbf 100644
--- a/src/Implementation/CMediaRessourceVectorImpl.cpp
+++ b/src/Implementation/CMediaRessourceVectorImpl.cpp
@@ -1007,12 +1007,14 @@ VectorworksMVR::VCOMError VectorworksMVR::CMediaRessourceVectorImpl::OpenForRead
 	fExchangeObj.InitializeForImport();
 	fReadMode = true;
 	
-	if (fExchangeObj.ReadFromFile(fPath))	
-	{ 
-		// Prepare the Attached File Count
-		fullPathStorage.clear();
-		fullPathStorage.resize(fExchangeObj.GetAttachedFileCount(), TXString());
+	bool wasRead = fExchangeObj.ReadFromFile(fPath);
+
+	// Prepare the Attached File Count
+	fullPathStorage.clear();
+	fullPathStorage.resize(fExchangeObj.GetAttachedFileCount(), TXString());
 
+	if (wasRead)	
+	{ 
 		return kVCOMError_NoError; 
 	}
 	
-- 
2.43.0


From 95948d6cc49b1d44defd2149b11b5a918944350a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:44 +0000
Subject: [PATCH 49/96] fix: saving a fixture with unresolved macro values or
 personalities

---
 src/GDTFManager.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/GDTFManager.cpp b/src/GDTFManager.cpp
index 579b113..b2393d4 100644
--- a/src/GDTFManager.cpp
+++ b/src/GDTFManager.cpp
@@ -11036,7 +11036,7 @@ void GdtfDMXPersonality::OnPrintToFile(IXMLFileNodePtr pNode)
     //------------------------------------------------------------------------------------
     // Print the attributes
     pNode->SetNodeAttributeValue(XML_GDTF_DMXPersonalityValue, GdtfConverter::ConvertHexValue(fValue));
-    pNode->SetNodeAttributeValue(XML_GDTF_DMXPersonalityDMXMode, fDMXMode->GetModeName() );
+    if(fDMXMode) { pNode->SetNodeAttributeValue(XML_GDTF_DMXPersonalityDMXMode, fDMXMode->GetModeName() ); }
 }
 
 void GdtfDMXPersonality::OnReadFromNode(const IXMLFileNodePtr& pNode)
@@ -11803,7 +11803,7 @@ void SceneData::GdtfMacroDMXValue::OnPrintToFile(IXMLFileNodePtr pNode)
 	// Print the attributes
 	pNode->SetNodeAttributeValue(XML_GDTF_MacroDMXValue_AttrValue, GdtfConverter::ConvertDMXValue(fValue, resolution));
 	//
-	pNode->SetNodeAttributeValue(XML_GDTF_MacroDMXValue_AttrChannel, fDMXChannel->GetNodeReference() );
+	if(fDMXChannel) { pNode->SetNodeAttributeValue(XML_GDTF_MacroDMXValue_AttrChannel, fDMXChannel->GetNodeReference() ); }
 }
 
 void SceneData::GdtfMacroDMXValue::OnReadFromNode(const IXMLFileNodePtr& pNode)
@@ -12114,7 +12114,7 @@ void SceneData::GdtfMacroVisualValue::OnPrintToFile(IXMLFileNodePtr pNode)
 	//------------------------------------------------------------------------------------
 	// Print the attributes
 	pNode->SetNodeAttributeValue(XML_GDTF_MacroVisualValue_AttrValue, GdtfConverter::ConvertDMXValue(fDmxValue, resolution));
-	pNode->SetNodeAttributeValue(XML_GDTF_MacroVisualValue_AttrChanFunc, fChannelFunctionRef->GetNodeReference() );
+	if(fChannelFunctionRef) { pNode->SetNodeAttributeValue(XML_GDTF_MacroVisualValue_AttrChanFunc, fChannelFunctionRef->GetNodeReference() ); }
 }
 
 void SceneData::GdtfMacroVisualValue::OnReadFromNode(const IXMLFileNodePtr& pNode)
-- 
2.43.0


From 9e036c9b21ab5f29f9c5d12ea750a1d5d43b1bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:34 +0000
Subject: [PATCH 50/96] fix: opening a file whose scene description is not
 well-formed XML fails

---
 src/SceneDataExchange.cpp | 9 ++++++---
 src/SceneDataExchange.h   | 2 +-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/SceneDataExchange.cpp b/src/SceneDataExchange.cpp
index 5ce80dc..c0d0f9b 100644
--- a/src/SceneDataExchange.cpp
+++ b/src/SceneDataExchange.cpp
@@ -3836,19 +3836,20 @@ bool SceneDataExchange::ReadFromFile(const IFileIdentifierPtr& file)
 	//-------------------------------------------------------------------------------------------------
 	// Prepare bools for checksum checks
 
+	bool isWellFormed = false;
 	ASSERTN(kEveryone, xmlFileBuffer.IsSet());
     if (xmlFileBuffer.IsSet())
     {
 		// Read from Scene Description
-		ReadFromGeneralSceneDescription(xmlFileBuffer);
+		ReadFromGeneralSceneDescription(xmlFileBuffer, isWellFormed);
     }
 
-	return xmlFileBuffer.IsSet();	
+	return xmlFileBuffer.IsSet() && isWellFormed;	
 }
 
 
 
-void SceneDataExchange::ReadFromGeneralSceneDescription(ISceneDataZipBuffer& xmlFile)
+void SceneDataExchange::ReadFromGeneralSceneDescription(ISceneDataZipBuffer& xmlFile, bool& outIsWellFormed)
 {
 	// Prepare pointer to XML file
 	IXMLFilePtr file ( IID_XMLFile );
@@ -3864,8 +3865,10 @@ void SceneDataExchange::ReadFromGeneralSceneDescription(ISceneDataZipBuffer& xml
 	// Housekeeping
 	std::free(data);
 	
+	outIsWellFormed = false;
     if (VCOM_SUCCEEDED(file->ReadBuffer(&xmlBuffer, EXMLEncoding::eXMLEncoding_UTF8)))
 	{
+		outIsWellFormed = true;
 		// ----------------------------------------------------------------
 		// Get the root node
 		IXMLFileNodePtr rootNode = nullptr;
diff --git a/src/SceneDataExchange.h b/src/SceneDataExchange.h
index c898568..d2f0e72 100644
--- a/src/SceneDataExchange.h
+++ b/src/SceneDataExchange.h
@@ -1122,7 +1122,7 @@ namespace SceneData
 		size_t								GetMVRFileMinorVersion() const;
 
 	private:
-		void								ReadFromGeneralSceneDescription(ISceneDataZipBuffer& xmlFile);
+		void								ReadFromGeneralSceneDescription(ISceneDataZipBuffer& xmlFile, bool& outIsWellFormed);
 		void								ProcessLayer(const IXMLFileNodePtr& node);
 		void								ReadChildObjs(const IXMLFileNodePtr & node, SceneDataGroupObjPtr addToContainer);
 		SceneDataGroupObjPtr				ProcessGroup(const IXMLFileNodePtr& node, SceneDataGroupObjPtr addToContainer);
-- 
2.43.0


From a95fd90d616b9b014fea0e276ffd1f78343b141d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:52 +0000
Subject: [PATCH 51/96] fix: a description without FixtureType is reported as
 damaged

---
 src/GDTFManager.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/GDTFManager.cpp b/src/GDTFManager.cpp
index b2393d4..ca131cd 100644
--- a/src/GDTFManager.cpp
+++ b/src/GDTFManager.cpp
@@ -8003,6 +8003,11 @@ bool GdtfFixture::ImportFromZip(IZIPFilePtr& zipfile)
 					this->ReadFromNode(fixtureNode);
 					this->ResolveAllReferences();		
 				}
+				else
+				{
+					GdtfParsingError error (GdtfDefines::EGdtfParsingError::eXmlParsingError, rootNode);
+					SceneData::GdtfFixture::AddError(error);
+				}
 			}
 		}
 	}
-- 
2.43.0


From ae6e5d1835fde2f8b19f8a38eb88e30409a730b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:05 +0000
Subject: [PATCH 52/96] fix: a folder is not opened as a file

---
 src/Wrapper/RawOSFileimpl.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/Wrapper/RawOSFileimpl.cpp b/src/Wrapper/RawOSFileimpl.cpp
index 6cc7072..4617167 100644
--- a/src/Wrapper/RawOSFileimpl.cpp
+++ b/src/Wrapper/RawOSFileimpl.cpp
@@ -7,6 +7,10 @@
 #include <stdio.h>
 #endif
 
+#ifndef _WINDOWS
+#include <sys/stat.h>
+#endif
+
 using namespace VectorworksMVR::Filing;
 
 CRawOSFileImpl::CRawOSFileImpl()
@@ -42,6 +46,16 @@ VCOMError CRawOSFileImpl::Open(VectorworksMVR::Filing::IFileIdentifier* pFileID,
 	else if ( bReadable == true  && bWritable == true  )		fTheFile = std::fopen( path, bTruncateExisting ? "wb+" : "ab+" );
  #endif
 
+#ifndef _WINDOWS
+	// A folder can be opened for reading, but it is not a file
+	struct stat info;
+	if ( fTheFile && ( fstat( fileno( fTheFile ), &info ) != 0 || S_ISDIR( info.st_mode ) ) )
+	{
+		std::fclose( fTheFile );
+		fTheFile = NULL;
+	}
+#endif
+
 	return fTheFile ? kVCOMError_NoError : kVCOMError_Failed;
 }
 
-- 
2.43.0


From bef8922f8ffaca2555224520610af2f85e38ceb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:33 +0000
Subject: [PATCH 53/96] fix: saving reports an attached file that cannot be
 read

---
 src/Implementation/CGdtfFixture.cpp |  4 +++-
 src/SceneDataExchange.cpp           | 25 +++++++++++++------------
 src/Wrapper/ZIPFileImpl.cpp         | 11 +++++++----
 src/XmlFileHelper.cpp               |  4 +++-
 4 files changed, 26 insertions(+), 18 deletions(-)

diff --git a/src/Implementation/CGdtfFixture.cpp b/src/Implementation/CGdtfFixture.cpp
index 6c45f2e..e72d159 100755
--- a/src/Implementation/CGdtfFixture.cpp
+++ b/src/Implementation/CGdtfFixture.cpp
@@ -164,8 +164,10 @@ VectorworksMVR::VCOMError VectorworksMVR::CGdtfFixtureImpl::AddFileToGdtfFile(Mv
     Uint64 size = 0;
     rawFile->GetFileSize(size);
     std::vector<char> data((size_t)size);
-    if(size > 0) { rawFile->Read(0, size, data.data()); }
+    Uint64 readSize = size;
+    if(size > 0) { rawFile->Read(0, readSize, data.data()); }
     rawFile->Close();
+    if(readSize != size) { return kVCOMError_Failed; }
 
     return AddResource(strFileName, data.data(), (size_t)size);
 }
diff --git a/src/SceneDataExchange.cpp b/src/SceneDataExchange.cpp
index c0d0f9b..4849696 100644
--- a/src/SceneDataExchange.cpp
+++ b/src/SceneDataExchange.cpp
@@ -3525,60 +3525,61 @@ bool SceneDataExchange::WriteToFile(const IFileIdentifierPtr& file)
 	
 	//-------------------------------------------------------------------------------------------------	
     // Add the Resources
+	bool allAdded = true;
 
 	for (size_t i = 0; i < f3DS_FilesToAdd.size(); i++)
 	{        
-		SceneDataZip::AddFileToZip(zipfile, f3DS_FilesToAdd.at(i),  ERessourceType::Model3DS, false/*Delete*/);
+		allAdded &= SceneDataZip::AddFileToZip(zipfile, f3DS_FilesToAdd.at(i), ERessourceType::Model3DS, false/*Delete*/);
 	}
 
 	for (size_t i = 0; i < f3DSLow_FilesToAdd.size(); i++)
 	{        
-		SceneDataZip::AddFileToZip(zipfile, f3DSLow_FilesToAdd.at(i),  ERessourceType::Model3DSLow, false/*Delete*/);
+		allAdded &= SceneDataZip::AddFileToZip(zipfile, f3DSLow_FilesToAdd.at(i), ERessourceType::Model3DSLow, false/*Delete*/);
 	}
 
 	for (size_t i = 0; i < f3DSHigh_FilesToAdd.size(); i++)
 	{        
-		SceneDataZip::AddFileToZip(zipfile, f3DSHigh_FilesToAdd.at(i),  ERessourceType::Model3DSHigh, false/*Delete*/);
+		allAdded &= SceneDataZip::AddFileToZip(zipfile, f3DSHigh_FilesToAdd.at(i), ERessourceType::Model3DSHigh, false/*Delete*/);
 	}
 
 	for (size_t i = 0; i < fSVG_FilesToAdd.size(); i++)
 	{        
-		SceneDataZip::AddFileToZip(zipfile, fSVG_FilesToAdd.at(i), ERessourceType::ModelSVG, false/*Delete*/);
+		allAdded &= SceneDataZip::AddFileToZip(zipfile, fSVG_FilesToAdd.at(i), ERessourceType::ModelSVG, false/*Delete*/);
 	}
 
 	for (size_t i = 0; i < fSVGSide_FilesToAdd.size(); i++)
 	{        
-		SceneDataZip::AddFileToZip(zipfile, fSVGSide_FilesToAdd.at(i), ERessourceType::ModelSVGSide, false/*Delete*/);
+		allAdded &= SceneDataZip::AddFileToZip(zipfile, fSVGSide_FilesToAdd.at(i), ERessourceType::ModelSVGSide, false/*Delete*/);
 	}
 
 	for (size_t i = 0; i < fSVGFront_FilesToAdd.size(); i++)
 	{        
-		SceneDataZip::AddFileToZip(zipfile, fSVGFront_FilesToAdd.at(i), ERessourceType::ModelSVGFront, false/*Delete*/);
+		allAdded &= SceneDataZip::AddFileToZip(zipfile, fSVGFront_FilesToAdd.at(i), ERessourceType::ModelSVGFront, false/*Delete*/);
 	}
 
 	for (size_t i = 0; i < fGLTF_FilesToAdd.size(); i++)
 	{        
-		SceneDataZip::AddFileToZip(zipfile, fGLTF_FilesToAdd.at(i),  ERessourceType::ModelGLTF, false/*Delete*/);
+		allAdded &= SceneDataZip::AddFileToZip(zipfile, fGLTF_FilesToAdd.at(i), ERessourceType::ModelGLTF, false/*Delete*/);
 	}
 
 	for (size_t i = 0; i < fGLTFLow_FilesToAdd.size(); i++)
 	{        
-		SceneDataZip::AddFileToZip(zipfile, fGLTFLow_FilesToAdd.at(i),  ERessourceType::ModelGLTFLow, false/*Delete*/);
+		allAdded &= SceneDataZip::AddFileToZip(zipfile, fGLTFLow_FilesToAdd.at(i), ERessourceType::ModelGLTFLow, false/*Delete*/);
 	}
 
 	for (size_t i = 0; i < fGLTFHigh_FilesToAdd.size(); i++)
 	{        
-		SceneDataZip::AddFileToZip(zipfile, fGLTFHigh_FilesToAdd.at(i),  ERessourceType::ModelGLTFHigh, false/*Delete*/);
+		allAdded &= SceneDataZip::AddFileToZip(zipfile, fGLTFHigh_FilesToAdd.at(i), ERessourceType::ModelGLTFHigh, false/*Delete*/);
 	}
 
 	for (size_t i = 0; i < fWheel_Image_FilesToAdd.size(); i++)
 	{        
-		SceneDataZip::AddFileToZip(zipfile, fWheel_Image_FilesToAdd.at(i), ERessourceType::ImageWheel, false/*Delete*/);
+		allAdded &= SceneDataZip::AddFileToZip(zipfile, fWheel_Image_FilesToAdd.at(i), ERessourceType::ImageWheel, false/*Delete*/);
 	}
 
 	for (size_t i = 0; i < fFixtureResources_FilesToAdd.size(); i++)
 	{        
-		SceneDataZip::AddFileToZip(zipfile, fFixtureResources_FilesToAdd.at(i), ERessourceType::RessoureFixture, false/*Delete*/);
+		allAdded &= SceneDataZip::AddFileToZip(zipfile, fFixtureResources_FilesToAdd.at(i), ERessourceType::RessoureFixture, false/*Delete*/);
 	}
 
 	for (size_t i = 0; i < fBuffersToAdd.size(); i++)
@@ -3612,7 +3613,7 @@ bool SceneDataExchange::WriteToFile(const IFileIdentifierPtr& file)
 
 	//-------------------------------------------------------------------------------------------------
 	// Store the file on disk
-	return VCOM_SUCCEEDED(zipfile->Close());
+	return VCOM_SUCCEEDED(zipfile->Close()) && allAdded;
 }
 
 void SceneDataExchange::AddProviderAndProviderVersion(const TXString& provider, const TXString& providerVersion)
diff --git a/src/Wrapper/ZIPFileImpl.cpp b/src/Wrapper/ZIPFileImpl.cpp
index 5423b06..e16dfcc 100644
--- a/src/Wrapper/ZIPFileImpl.cpp
+++ b/src/Wrapper/ZIPFileImpl.cpp
@@ -701,7 +701,9 @@ VCOMError CZIPFileImpl::AddFile(const TXString& inPath, IZIPFileIOBuffer* inputB
 VCOMError CZIPFileImpl::AddFile(const TXString& path, IFileIdentifier* inputFile)
 {
 	CZIPFileIOBufferImpl inOutBuffer;
-	this->Read(&inOutBuffer, inputFile);
+	if ( !this->Read(&inOutBuffer, inputFile) )
+		return kVCOMError_Failed;
+
 	VCOMError err = this->AddFile( path, &inOutBuffer );		
 	return err;	
 }
@@ -1017,13 +1019,14 @@ bool CZIPFileImpl::Read( IZIPFileIOBuffer* outputBuffer, IFileIdentifier* pFileI
 		IRawOSFilePtr pFile( IID_RawOSFile );
 		if ( pFile && VCOM_SUCCEEDED( pFile->Open( pFileID, true, false, true, false ) ) )
 		{
-			Uint64 fileSize;
+			Uint64 fileSize = 0;
 			pFile->GetFileSize( fileSize );
 
 			char* readData = new char[(size_t)fileSize];
-			pFile->Read( 0, fileSize, readData );
+			Uint64 readSize = fileSize;
+			pFile->Read( 0, readSize, readData );
 			outputBuffer->SetData( (void*)readData, (size_t)fileSize );
-			bOk = true;
+			bOk = readSize == fileSize;
 
 			if ( readData )
 				delete [] readData;
diff --git a/src/XmlFileHelper.cpp b/src/XmlFileHelper.cpp
index 9b8a1ff..71f55c8 100644
--- a/src/XmlFileHelper.cpp
+++ b/src/XmlFileHelper.cpp
@@ -2253,7 +2253,9 @@ bool SceneDataZip::AddFileToZip(IZIPFilePtr& zipFile, const IFileIdentifierPtr&
 
 	//-------------------------------------------------------------------------------------------------
 	// Write the  file
-	zipFile->AddFile(nameFile, file);
+	// A file with a name that is already there is not added again
+	VCOMError error = zipFile->AddFile(nameFile, file);
+	if (VCOM_FAILED(error) && error != kVCOMError_InvalidArg) { return false; }
 	
 	//-------------------------------------------------------------------------------------------------
 	// HouseKeeping
-- 
2.43.0


From 631236b74dba5abaff8a18fd3f375f253fa5f145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:59 +0000
Subject: [PATCH 54/96] fix: a file that cannot be extracted completely is not
 left behind in part

---
 src/GDTFManager.cpp         |  4 ++--
 src/SceneDataExchange.cpp   | 11 +++++++----
 src/Wrapper/ZIPFileImpl.cpp |  6 +++---
 src/XmlFileHelper.cpp       |  8 +++++---
 4 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/GDTFManager.cpp b/src/GDTFManager.cpp
index ca131cd..887ae07 100644
--- a/src/GDTFManager.cpp
+++ b/src/GDTFManager.cpp
@@ -7926,8 +7926,8 @@ bool GdtfFixture::ImportFromZip(IZIPFilePtr& zipfile)
 				IFileIdentifierPtr file (IID_FileIdentifier);
 				file->Set(targetFolder, fileNameWithoutFolder);
 				
-				// dump buffer into file
-				buffer.WriteToFile(file);
+				// dump buffer into file, leave no part of a file
+				if (VCOM_FAILED(buffer.WriteToFile(file))) { file->DeleteOnDisk(); }
 				
 				// Add it into the file list
 				fLocalFiles.push_back(file);
diff --git a/src/SceneDataExchange.cpp b/src/SceneDataExchange.cpp
index 4849696..629e3a2 100644
--- a/src/SceneDataExchange.cpp
+++ b/src/SceneDataExchange.cpp
@@ -3820,10 +3820,13 @@ bool SceneDataExchange::ReadFromFile(const IFileIdentifierPtr& file)
 			file->Set(fWorkingFolder, outPath);
 			
 			// dump buffer into file
-            buffer.WriteToFile(file);
-			
-			// Add it into the file list
-            fFilesInZip.push_back(file);
+            if (VCOM_SUCCEEDED(buffer.WriteToFile(file)))
+			{
+				// Add it into the file list
+				fFilesInZip.push_back(file);
+			}
+			// Leave no part of a file
+			else { file->DeleteOnDisk(); }
 		
         }
         inPath = outPath;
diff --git a/src/Wrapper/ZIPFileImpl.cpp b/src/Wrapper/ZIPFileImpl.cpp
index e16dfcc..4303d3f 100644
--- a/src/Wrapper/ZIPFileImpl.cpp
+++ b/src/Wrapper/ZIPFileImpl.cpp
@@ -954,10 +954,10 @@ bool CZIPFileImpl::Write( IZIPFileIOBuffer* inputBuffer, IFileIdentifier* pFileI
 			inputBuffer->GetDataSize( dataSize );
 			char* writeData = new char[dataSize];
 			inputBuffer->CopyDataInto( writeData, dataSize );
-			pFile->Write( 0, (Uint64)dataSize, (void*)writeData );
-			pFile->Close();
+			VCOMError error      = pFile->Write( 0, (Uint64)dataSize, (void*)writeData );
+			VCOMError closeError = pFile->Close();
 			
-			bOk = true;
+			bOk = VCOM_SUCCEEDED( error ) && VCOM_SUCCEEDED( closeError );
 			
 			if ( writeData )
 				delete [] writeData;
diff --git a/src/XmlFileHelper.cpp b/src/XmlFileHelper.cpp
index 71f55c8..da085c8 100644
--- a/src/XmlFileHelper.cpp
+++ b/src/XmlFileHelper.cpp
@@ -2577,14 +2577,16 @@ VCOMError ISceneDataZipBuffer::WriteToFile(IFileIdentifierPtr file)
             this->GetDataSize( dataSize );
             char* writeData = new char[dataSize];
             this->CopyDataInto( writeData, dataSize );
-            pFile->Write( 0, (Uint64)dataSize, (void*)writeData );
-            pFile->Close();
+            VCOMError error      = pFile->Write( 0, (Uint64)dataSize, (void*)writeData );
+            VCOMError closeError = pFile->Close();
                         
             if ( writeData )
                 delete [] writeData;
+
+            return VCOM_FAILED(error) ? error : closeError;
         }
     }
-    return kVCOMError_NoError;
+    return kVCOMError_Failed;
 }
 
 VCOMError ISceneDataZipBuffer::GetData(void*& dataPointer)
-- 
2.43.0


From 20f221be7c2ca9afd4cf4f1f22c66998bebd9eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:34 +0000
Subject: [PATCH 55/96] fix: a break used only by an overwrite channel inside
 the referenced geometry is counted

---
 src/GDTFManager.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/GDTFManager.cpp b/src/GDTFManager.cpp
index 887ae07..4fccf8d 100644
--- a/src/GDTFManager.cpp
+++ b/src/GDTFManager.cpp
@@ -5235,7 +5235,20 @@ TSint32Array GdtfDmxMode::GetBreakArray() const
 		{
 			for(GdtfGeometryReferencePtr geoRef : geometryRefs)
 			{
-				if(geoRef->GetLinkedGeometry() == channel->GetGeomRef())
+				// The channel may be on the linked geometry or on any geometry inside of it
+				TGdtfGeometryArray  linkedGeometries = {geoRef->GetLinkedGeometry()};
+				bool 				isLinked 		 = false;
+				while(linkedGeometries.size() > 0 && ! isLinked)
+				{
+					GdtfGeometryPtr linkedGeometry = linkedGeometries.back();
+					linkedGeometries.pop_back();
+					if(linkedGeometry == nullptr) { continue; }
+
+					isLinked = linkedGeometry == channel->GetGeomRef();
+					for (GdtfGeometryPtr child : linkedGeometry->GetInternalGeometries()) { linkedGeometries.push_back(child); }
+				}
+
+				if(isLinked)
 				{
 					TGdtfBreakArray refBreaks = geoRef->GetBreakArray();
 					if(refBreaks.empty()) { continue; }
-- 
2.43.0


From aa207cf27b87d5f926d7f26fd8ba8a5c2ca6761a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:25 +0000
Subject: [PATCH 56/96] fix: xchange packets carry the package version

---
 src/mvrxchange/mvrxchange_message.cpp | 1 +
 src/mvrxchange/mvrxchange_prefix.h    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/mvrxchange/mvrxchange_message.cpp b/src/mvrxchange/mvrxchange_message.cpp
index 71787b6..9de177b 100644
--- a/src/mvrxchange/mvrxchange_message.cpp
+++ b/src/mvrxchange/mvrxchange_message.cpp
@@ -30,6 +30,7 @@ T swap_endian(T u)
 MVRxchangePacket::MVRxchangePacket()
 {
     fFlag       = kMVR_Package_Flag;
+    fVersion    = kMVR_Package_Version;
     fNumber     = 0;
     fCount      = 0;
     fType       = 0;
diff --git a/src/mvrxchange/mvrxchange_prefix.h b/src/mvrxchange/mvrxchange_prefix.h
index a580595..18a3dff 100644
--- a/src/mvrxchange/mvrxchange_prefix.h
+++ b/src/mvrxchange/mvrxchange_prefix.h
@@ -37,6 +37,7 @@ using ip::tcp;
 
 
 constexpr uint32_t kMVR_Package_Flag =  778682;
+constexpr uint32_t kMVR_Package_Version =  1;
 constexpr uint32_t kMVR_Package_JSON_TYPE   =  0;
 constexpr uint32_t kMVR_Package_BUFFER_TYPE =  1;
 
-- 
2.43.0


From 6c705824748c5f247f536892f88d9391228c5043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:36 +0000
Subject: [PATCH 57/96] fix: long texts of received messages do not overflow
 the message

---
 src/mvrxchange/mvrxchange_message.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/mvrxchange/mvrxchange_message.cpp b/src/mvrxchange/mvrxchange_message.cpp
index 9de177b..430b7b1 100644
--- a/src/mvrxchange/mvrxchange_message.cpp
+++ b/src/mvrxchange/mvrxchange_message.cpp
@@ -168,11 +168,11 @@ void MVR_COMMIT_ToJson(const IMVRxchangeService::MVR_COMMIT_MESSAGE& msg, nlohma
 
 void MVR_COMMIT_FromJson(const nlohmann::json& payload, IMVRxchangeService::MVR_COMMIT_MESSAGE& in)
 {
-    strcpy(in.Comment, payload["Comment"].get<std::string>().c_str());
+    in.Comment = payload["Comment"].get<std::string>().c_str();
     in.VersionMajor= payload["verMajor"];
     in.VersionMinor= payload["verMinor"];
     in.FileSize= payload["FileSize"];
-    strcpy(in.FileName, payload["FileName"].get<std::string>().c_str());
+    in.FileName = payload["FileName"].get<std::string>().c_str();
 
     SceneData::GdtfConverter::ConvertUUID(payload["FileUUID"].get<std::string>(), in.FileUUID);
     SceneData::GdtfConverter::ConvertUUID(payload["StationUUID"].get<std::string>(), in.StationUUID);
@@ -345,8 +345,8 @@ void MVRxchangePacket::Internal_ToExternalMessage(const nlohmann::json& payload,
         in.Type = VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_JOIN;
         in.JOIN.VersionMajor = HandleStringNumber(payload["verMajor"]);
         in.JOIN.VersionMinor = HandleStringNumber(payload["verMinor"]);
-        strcpy(in.JOIN.Provider, payload["Provider"].get<std::string>().c_str());
-        strcpy(in.JOIN.StationName, payload["StationName"].get<std::string>().c_str());
+        in.JOIN.Provider = payload["Provider"].get<std::string>().c_str();
+        in.JOIN.StationName = payload["StationName"].get<std::string>().c_str();
         noUUIDError = SceneData::GdtfConverter::ConvertUUID(payload["StationUUID"].get<std::string>(), in.JOIN.StationUUID);
 
         in.JOIN.Commits.clear();
@@ -361,12 +361,12 @@ void MVRxchangePacket::Internal_ToExternalMessage(const nlohmann::json& payload,
         in.Type = VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_JOIN_RET;
         in.JOIN.VersionMajor = HandleStringNumber(payload["verMajor"]);
         in.JOIN.VersionMinor = HandleStringNumber(payload["verMinor"]);
-        strcpy(in.JOIN.Provider, payload["Provider"].get<std::string>().c_str());
-        strcpy(in.JOIN.StationName, payload["StationName"].get<std::string>().c_str());
+        in.JOIN.Provider = payload["Provider"].get<std::string>().c_str();
+        in.JOIN.StationName = payload["StationName"].get<std::string>().c_str();
         noUUIDError = SceneData::GdtfConverter::ConvertUUID(payload["StationUUID"].get<std::string>(), in.JOIN.StationUUID);
 
         in.RetIsOK = HandleStringBool(payload["OK"]);
-        strcpy(in.RetError, payload["Message"].get<std::string>().c_str());
+        in.RetError = payload["Message"].get<std::string>().c_str();
 
         in.JOIN.Commits.clear();
         for (auto &it : payload["Commits"])
@@ -384,7 +384,7 @@ void MVRxchangePacket::Internal_ToExternalMessage(const nlohmann::json& payload,
     {
         in.Type = VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_COMMIT_RET;
         in.RetIsOK = HandleStringBool(payload["OK"]);
-        strcpy(in.RetError, payload["Message"].get<std::string>().c_str());
+        in.RetError = payload["Message"].get<std::string>().c_str();
     }
     else if (payload["Type"] == "MVR_REQUEST")
     {
@@ -406,7 +406,7 @@ void MVRxchangePacket::Internal_ToExternalMessage(const nlohmann::json& payload,
     {
         in.Type = VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_REQUEST_RET;
         in.RetIsOK = HandleStringBool(payload["OK"]);
-        strcpy(in.RetError, payload["Message"].get<std::string>().c_str());
+        in.RetError = payload["Message"].get<std::string>().c_str();
     }
     else if (payload["Type"] == "MVR_LEAVE")
     {
@@ -424,7 +424,7 @@ void MVRxchangePacket::Internal_ToExternalMessage(const nlohmann::json& payload,
     {
         in.Type = VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_LEAVE_RET;
         in.RetIsOK = HandleStringBool(payload["OK"]);
-        strcpy(in.RetError, payload["Message"].get<std::string>().c_str());
+        in.RetError = payload["Message"].get<std::string>().c_str();
     }else{
         throw std::runtime_error("Unable to parse payload type correctly");
     }
-- 
2.43.0


From 7bcb602a19b14ebbb2d6b6eaca7901272b973e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:47 +0000
Subject: [PATCH 58/96] fix: a received message that lacks a member is refused

---
 src/mvrxchange/mvrxchange_message.cpp | 80 +++++++++++++--------------
 1 file changed, 40 insertions(+), 40 deletions(-)

diff --git a/src/mvrxchange/mvrxchange_message.cpp b/src/mvrxchange/mvrxchange_message.cpp
index 430b7b1..fe72c69 100644
--- a/src/mvrxchange/mvrxchange_message.cpp
+++ b/src/mvrxchange/mvrxchange_message.cpp
@@ -168,18 +168,18 @@ void MVR_COMMIT_ToJson(const IMVRxchangeService::MVR_COMMIT_MESSAGE& msg, nlohma
 
 void MVR_COMMIT_FromJson(const nlohmann::json& payload, IMVRxchangeService::MVR_COMMIT_MESSAGE& in)
 {
-    in.Comment = payload["Comment"].get<std::string>().c_str();
-    in.VersionMajor= payload["verMajor"];
-    in.VersionMinor= payload["verMinor"];
-    in.FileSize= payload["FileSize"];
-    in.FileName = payload["FileName"].get<std::string>().c_str();
+    in.Comment = payload.at("Comment").get<std::string>().c_str();
+    in.VersionMajor= payload.at("verMajor");
+    in.VersionMinor= payload.at("verMinor");
+    in.FileSize= payload.at("FileSize");
+    in.FileName = payload.at("FileName").get<std::string>().c_str();
 
-    SceneData::GdtfConverter::ConvertUUID(payload["FileUUID"].get<std::string>(), in.FileUUID);
-    SceneData::GdtfConverter::ConvertUUID(payload["StationUUID"].get<std::string>(), in.StationUUID);
+    SceneData::GdtfConverter::ConvertUUID(payload.at("FileUUID").get<std::string>(), in.FileUUID);
+    SceneData::GdtfConverter::ConvertUUID(payload.at("StationUUID").get<std::string>(), in.StationUUID);
 
     in.ForStationsUUID.clear();
     // TODO
-    for(const auto& e : payload["ForStationsUUID"])
+    for(const auto& e : payload.at("ForStationsUUID"))
     {
         in.ForStationsUUID.emplace_back();
         if(!SceneData::GdtfConverter::ConvertUUID(e.get<std::string>(), in.ForStationsUUID.back())){
@@ -340,60 +340,60 @@ bool HandleStringBool(const nlohmann::json& item)
 void MVRxchangePacket::Internal_ToExternalMessage(const nlohmann::json& payload, VectorworksMVR::IMVRxchangeService::IMVRxchangeMessage &in)
 {
     bool noUUIDError = true;
-    if (payload["Type"] == "MVR_JOIN")
+    if (payload.at("Type") == "MVR_JOIN")
     {
         in.Type = VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_JOIN;
-        in.JOIN.VersionMajor = HandleStringNumber(payload["verMajor"]);
-        in.JOIN.VersionMinor = HandleStringNumber(payload["verMinor"]);
-        in.JOIN.Provider = payload["Provider"].get<std::string>().c_str();
-        in.JOIN.StationName = payload["StationName"].get<std::string>().c_str();
-        noUUIDError = SceneData::GdtfConverter::ConvertUUID(payload["StationUUID"].get<std::string>(), in.JOIN.StationUUID);
+        in.JOIN.VersionMajor = HandleStringNumber(payload.at("verMajor"));
+        in.JOIN.VersionMinor = HandleStringNumber(payload.at("verMinor"));
+        in.JOIN.Provider = payload.at("Provider").get<std::string>().c_str();
+        in.JOIN.StationName = payload.at("StationName").get<std::string>().c_str();
+        noUUIDError = SceneData::GdtfConverter::ConvertUUID(payload.at("StationUUID").get<std::string>(), in.JOIN.StationUUID);
 
         in.JOIN.Commits.clear();
-        for (auto &it : payload["Commits"])
+        for (auto &it : payload.at("Commits"))
         {
             in.JOIN.Commits.emplace_back();
             MVR_COMMIT_FromJson(it, in.JOIN.Commits.back());
         }
     }
-    else if (payload["Type"] == "MVR_JOIN_RET")
+    else if (payload.at("Type") == "MVR_JOIN_RET")
     {
         in.Type = VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_JOIN_RET;
-        in.JOIN.VersionMajor = HandleStringNumber(payload["verMajor"]);
-        in.JOIN.VersionMinor = HandleStringNumber(payload["verMinor"]);
-        in.JOIN.Provider = payload["Provider"].get<std::string>().c_str();
-        in.JOIN.StationName = payload["StationName"].get<std::string>().c_str();
-        noUUIDError = SceneData::GdtfConverter::ConvertUUID(payload["StationUUID"].get<std::string>(), in.JOIN.StationUUID);
+        in.JOIN.VersionMajor = HandleStringNumber(payload.at("verMajor"));
+        in.JOIN.VersionMinor = HandleStringNumber(payload.at("verMinor"));
+        in.JOIN.Provider = payload.at("Provider").get<std::string>().c_str();
+        in.JOIN.StationName = payload.at("StationName").get<std::string>().c_str();
+        noUUIDError = SceneData::GdtfConverter::ConvertUUID(payload.at("StationUUID").get<std::string>(), in.JOIN.StationUUID);
 
-        in.RetIsOK = HandleStringBool(payload["OK"]);
-        in.RetError = payload["Message"].get<std::string>().c_str();
+        in.RetIsOK = HandleStringBool(payload.at("OK"));
+        in.RetError = payload.at("Message").get<std::string>().c_str();
 
         in.JOIN.Commits.clear();
-        for (auto &it : payload["Commits"])
+        for (auto &it : payload.at("Commits"))
         {
             in.JOIN.Commits.emplace_back();
             MVR_COMMIT_FromJson(it, in.JOIN.Commits.back());
         }
     }
-    else if (payload["Type"] == "MVR_COMMIT")
+    else if (payload.at("Type") == "MVR_COMMIT")
     {
         in.Type = VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_COMMIT;
         MVR_COMMIT_FromJson(payload, in.COMMIT);
     }
-    else if (payload["Type"] == "MVR_COMMIT_RET")
+    else if (payload.at("Type") == "MVR_COMMIT_RET")
     {
         in.Type = VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_COMMIT_RET;
-        in.RetIsOK = HandleStringBool(payload["OK"]);
-        in.RetError = payload["Message"].get<std::string>().c_str();
+        in.RetIsOK = HandleStringBool(payload.at("OK"));
+        in.RetError = payload.at("Message").get<std::string>().c_str();
     }
-    else if (payload["Type"] == "MVR_REQUEST")
+    else if (payload.at("Type") == "MVR_REQUEST")
     {
         in.Type = VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_REQUEST;
-        noUUIDError = SceneData::GdtfConverter::ConvertUUID(payload["FileUUID"].get<std::string>(), in.REQUEST.FileUUID);
+        noUUIDError = SceneData::GdtfConverter::ConvertUUID(payload.at("FileUUID").get<std::string>(), in.REQUEST.FileUUID);
 
         in.REQUEST.FromStationUUID.clear();
         // TODO
-        for (const auto &e : payload["FromStationUUID"])
+        for (const auto &e : payload.at("FromStationUUID"))
         {
             in.REQUEST.FromStationUUID.emplace_back();
             if (!SceneData::GdtfConverter::ConvertUUID(e.get<std::string>(), in.REQUEST.FromStationUUID.back()))
@@ -402,29 +402,29 @@ void MVRxchangePacket::Internal_ToExternalMessage(const nlohmann::json& payload,
             }
         }
     }
-    else if (payload["Type"] == "MVR_REQUEST_RET")
+    else if (payload.at("Type") == "MVR_REQUEST_RET")
     {
         in.Type = VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_REQUEST_RET;
-        in.RetIsOK = HandleStringBool(payload["OK"]);
-        in.RetError = payload["Message"].get<std::string>().c_str();
+        in.RetIsOK = HandleStringBool(payload.at("OK"));
+        in.RetError = payload.at("Message").get<std::string>().c_str();
     }
-    else if (payload["Type"] == "MVR_LEAVE")
+    else if (payload.at("Type") == "MVR_LEAVE")
     {
         in.Type = VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_LEAVE;
         if ( payload.contains( "FromStationUUID" ) )
         {
-            noUUIDError = SceneData::GdtfConverter::ConvertUUID(payload["FromStationUUID"].get<std::string>(), in.LEAVE.FromStationUUID);
+            noUUIDError = SceneData::GdtfConverter::ConvertUUID(payload.at("FromStationUUID").get<std::string>(), in.LEAVE.FromStationUUID);
         }
         else if ( payload.contains( "StationUUID" ) )
         {
-            noUUIDError = SceneData::GdtfConverter::ConvertUUID( payload[ "StationUUID" ].get<std::string>(), in.LEAVE.FromStationUUID );
+            noUUIDError = SceneData::GdtfConverter::ConvertUUID( payload.at("StationUUID").get<std::string>(), in.LEAVE.FromStationUUID );
         }
     }
-    else if (payload["Type"] == "MVR_LEAVE_RET")
+    else if (payload.at("Type") == "MVR_LEAVE_RET")
     {
         in.Type = VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_LEAVE_RET;
-        in.RetIsOK = HandleStringBool(payload["OK"]);
-        in.RetError = payload["Message"].get<std::string>().c_str();
+        in.RetIsOK = HandleStringBool(payload.at("OK"));
+        in.RetError = payload.at("Message").get<std::string>().c_str();
     }else{
         throw std::runtime_error("Unable to parse payload type correctly");
     }
-- 
2.43.0


From 3e3ff01d4b0980bb0e3b6387fad29afb826c8888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:59 +0000
Subject: [PATCH 59/96] fix: a received message whose Type is no text is
 refused

---
 src/mvrxchange/mvrxchange_message.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mvrxchange/mvrxchange_message.cpp b/src/mvrxchange/mvrxchange_message.cpp
index fe72c69..ac23003 100644
--- a/src/mvrxchange/mvrxchange_message.cpp
+++ b/src/mvrxchange/mvrxchange_message.cpp
@@ -453,7 +453,7 @@ void MVRxchangePacket::ToExternalMessage(VectorworksMVR::IMVRxchangeService::IMV
             return;
         }
 
-        if (payload.type() != nlohmann::json::value_t::object || !payload.contains("Type"))
+        if (payload.type() != nlohmann::json::value_t::object || !payload.contains("Type") || !payload["Type"].is_string())
         {
             in.Type = VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_UNDEFINED;
             in.RetIsOK = false;
-- 
2.43.0


From 2c40b6e46db5e433ac3db9ccbec86b43be5743a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:11 +0000
Subject: [PATCH 60/96] fix: a station without an answer does not throw

---
 src/mvrxchange/mvrxchange_message.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mvrxchange/mvrxchange_message.cpp b/src/mvrxchange/mvrxchange_message.cpp
index ac23003..667d021 100644
--- a/src/mvrxchange/mvrxchange_message.cpp
+++ b/src/mvrxchange/mvrxchange_message.cpp
@@ -268,7 +268,7 @@ void MVRxchangePacket::FromExternalMessage(const VectorworksMVR::IMVRxchangeServ
         break;
     }
 
-    MVRXCHANGE_LOG("sending message of type: " << payload["Type"].get<std::string>());
+    MVRXCHANGE_LOG("sending message of type: " << payload.value("Type", std::string("MVR_UNDEFINED")));
 
     fFlag       = kMVR_Package_Flag;
     fNumber     = 0;
-- 
2.43.0


From 8bf2063a599fa48bc91104e08f551ee1fa29082a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:23 +0000
Subject: [PATCH 61/96] fix: texts that are no UTF-8 can be sent

---
 src/mvrxchange/mvrxchange_message.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mvrxchange/mvrxchange_message.cpp b/src/mvrxchange/mvrxchange_message.cpp
index 667d021..7a99191 100644
--- a/src/mvrxchange/mvrxchange_message.cpp
+++ b/src/mvrxchange/mvrxchange_message.cpp
@@ -304,7 +304,8 @@ void MVRxchangePacket::FromExternalMessage(const VectorworksMVR::IMVRxchangeServ
     else
     {
         MVRXCHANGE_DEBUG("outgoing message:\n" << payload.dump(4));
-        std::string s = payload.dump();
+        // texts that are no UTF-8 are sent with replacement characters
+        std::string s = payload.dump(-1, ' ', false, nlohmann::json::error_handler_t::replace);
         fBodyLength = s.size();
         fType       = kMVR_Package_JSON_TYPE;
 
-- 
2.43.0


From 61ceecbff6600955b55b085dbc9f20315ebef928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:05 +0000
Subject: [PATCH 62/96] fix: the length in a received header is checked and the
 header's room is counted

---
 src/mvrxchange/mvrxchange_dynamic_buffer.cpp | 15 ++++++++-------
 src/mvrxchange/mvrxchange_dynamic_buffer.h   |  2 +-
 src/mvrxchange/mvrxchange_message.cpp        |  7 ++++++-
 3 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/mvrxchange/mvrxchange_dynamic_buffer.cpp b/src/mvrxchange/mvrxchange_dynamic_buffer.cpp
index 71e8816..e011de3 100644
--- a/src/mvrxchange/mvrxchange_dynamic_buffer.cpp
+++ b/src/mvrxchange/mvrxchange_dynamic_buffer.cpp
@@ -123,33 +123,34 @@ void MVRxchangeDynamicBuffer::Append(size_t size, const void* pBuffer)
 }
 
 
-void MVRxchangeDynamicBuffer::GrowTo(size_t size)
+bool MVRxchangeDynamicBuffer::GrowTo(size_t size)
 {
     // Check how much memory we need
 	size_t needToAllocate = size + 1;
+	if (needToAllocate == 0) { return false; }
 
 	// When we already have enought memory, just copy
 	if (fAllocatedMemory < needToAllocate)
 	{
-		// Calculate the new needed buffer
-		fAllocatedMemory = needToAllocate;
-
 		// Create new Buffer
-		char* tempBuffer = new char[fAllocatedMemory];
+		char* tempBuffer = new (std::nothrow) char[needToAllocate];
+		if (! tempBuffer) { return false; }
 		if(fBuffer)
 		{
 			memcpy(tempBuffer, fBuffer, fBufferSize);
 			delete[] fBuffer;
 		}
 
-		// Set the new Buffer size
-		fBufferSize = fBufferSize + (size_t)size;
+		fAllocatedMemory = needToAllocate;
 
 		// Set the new Buffer
 		fBuffer = tempBuffer;
 
 	}
 
+	// Set the new Buffer size
+	if (fBufferSize < size) { fBufferSize = size; }
+	return true;
 }
 
 void MVRxchangeDynamicBuffer::Reserve(size_t size)
diff --git a/src/mvrxchange/mvrxchange_dynamic_buffer.h b/src/mvrxchange/mvrxchange_dynamic_buffer.h
index 82ddc5c..471bdb7 100644
--- a/src/mvrxchange/mvrxchange_dynamic_buffer.h
+++ b/src/mvrxchange/mvrxchange_dynamic_buffer.h
@@ -18,7 +18,7 @@ namespace MVRxchangeNetwork
         void                    FromBuffer(const MVRxchangeDynamicBuffer& );
 
         void                    Reserve(size_t size);
-        void                    GrowTo(size_t size);
+        bool                    GrowTo(size_t size);
         void                    Append(size_t size, const void* pBuffer);
         void                    DisposeBuffer();
         const size_t&           Length() const;
diff --git a/src/mvrxchange/mvrxchange_message.cpp b/src/mvrxchange/mvrxchange_message.cpp
index 7a99191..592ba51 100644
--- a/src/mvrxchange/mvrxchange_message.cpp
+++ b/src/mvrxchange/mvrxchange_message.cpp
@@ -114,7 +114,12 @@ bool MVRxchangePacket::DecodeHeader()
     fBodyLength = swap_endian(fBodyLength);
 
     // Prepare Buffer
-    fData->GrowTo(fBodyLength);
+    if (fBodyLength > (std::numeric_limits<size_t>::max)() - total_header_length || !fData->GrowTo(total_header_length + fBodyLength))
+    {
+        // There is no memory for a package of this length
+        fBodyLength = 0;
+        return false;
+    }
 
     return true;
 }
-- 
2.43.0


From 50e50a275627b36592a1a549cef341b3968ce839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:13 +0000
Subject: [PATCH 63/96] fix: an answer with a header that is no xchange header
 is an error

---
 src/mvrxchange/mvrxchange_client.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mvrxchange/mvrxchange_client.cpp b/src/mvrxchange/mvrxchange_client.cpp
index 605b92b..289ff2f 100644
--- a/src/mvrxchange/mvrxchange_client.cpp
+++ b/src/mvrxchange/mvrxchange_client.cpp
@@ -46,7 +46,11 @@ bool MVRxchangeClient::ReadMessage(SendResult& res, std::chrono::steady_clock::d
     
     if(res.success)
     {
-        res.message.DecodeHeader();
+        if (!res.message.DecodeHeader())
+        {
+            res.error = boost::asio::error::make_error_code(boost::asio::error::invalid_argument);
+            return res.success = false;
+        }
 
         boost::asio::async_read(fSocket,
         boost::asio::buffer(res.message.GetBody(), res.message.GetBodyLength()),
-- 
2.43.0


From 9e8ba0861986167a1e385069e4ebaa3df828868d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:21 +0000
Subject: [PATCH 64/96] fix: a station that resets its connection does not end
 the process of the other

---
 src/mvrxchange/mvrxchange_client.cpp  | 8 ++++++--
 src/mvrxchange/mvrxchange_session.cpp | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/mvrxchange/mvrxchange_client.cpp b/src/mvrxchange/mvrxchange_client.cpp
index 289ff2f..e7adfdd 100644
--- a/src/mvrxchange/mvrxchange_client.cpp
+++ b/src/mvrxchange/mvrxchange_client.cpp
@@ -65,9 +65,13 @@ bool MVRxchangeClient::ReadMessage(SendResult& res, std::chrono::steady_clock::d
 
     if(res.success)
     {
+        // The station may be gone already
+        boost::system::error_code remoteError;
+        const tcp::endpoint remote = this->fSocket.remote_endpoint(remoteError);
+
         res.messageInfo = TCPMessageInfo {
-            this->fSocket.remote_endpoint().port(),
-            this->fSocket.remote_endpoint().address().to_string()
+            remote.port(),
+            remote.address().to_string()
         };
     }
 
diff --git a/src/mvrxchange/mvrxchange_session.cpp b/src/mvrxchange/mvrxchange_session.cpp
index edde755..3abd3e5 100644
--- a/src/mvrxchange/mvrxchange_session.cpp
+++ b/src/mvrxchange/mvrxchange_session.cpp
@@ -39,9 +39,13 @@ void MVRxchangeSession::DoRead()
                     IMVRxchangeService::IMVRxchangeMessage out;
                     fReadMsg.ToExternalMessage(out);
 
+                    // The station may be gone already
+                    boost::system::error_code remoteError;
+                    const tcp::endpoint remote = this->fSocket.remote_endpoint(remoteError);
+
                     TCPMessageInfo info {
-                        this->fSocket.remote_endpoint().port(),
-                        this->fSocket.remote_endpoint().address().to_string()
+                        remote.port(),
+                        remote.address().to_string()
                     };
                     IMVRxchangeService::IMVRxchangeMessage in = fImpl->TCP_OnIncommingMessage(out, info);
                     delete[] out.BufferToFile;
-- 
2.43.0


From 5200dba76f70ed2048713293cc9c771775ac3f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:45 +0000
Subject: [PATCH 65/96] fix: the index of a local service is checked against
 the count

---
 src/mvrxchange/CMVRxchangeService.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mvrxchange/CMVRxchangeService.cpp b/src/mvrxchange/CMVRxchangeService.cpp
index 1eb906f..60adb37 100644
--- a/src/mvrxchange/CMVRxchangeService.cpp
+++ b/src/mvrxchange/CMVRxchangeService.cpp
@@ -177,7 +177,7 @@ VCOMError VCOM_CALLTYPE  CMVRxchangeServiceImpl::QueryLocalServices(size_t& out_
 VCOMError VCOM_CALLTYPE VectorworksMVR::CMVRxchangeServiceImpl::GetLocalServiceAt(size_t index, ConnectToLocalServiceArgs& outLocalService)
 {
 	std::lock_guard<std::mutex> lock (fQueryLocalServicesResult_mtx);
-	if ( fQueryLocalServicesResult.size() < index)
+	if (index >= fQueryLocalServicesResult.size())
 	{
 		return kVCOMError_Failed;
 	}
-- 
2.43.0


From 56f590a80dfe3010dc61f32fc36fd2dd6ad2fb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:03 +0000
Subject: [PATCH 66/96] fix: a station that leaves is removed from the group

---
 src/mvrxchange/CMVRxchangeService.cpp | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/mvrxchange/CMVRxchangeService.cpp b/src/mvrxchange/CMVRxchangeService.cpp
index 60adb37..0b86901 100644
--- a/src/mvrxchange/CMVRxchangeService.cpp
+++ b/src/mvrxchange/CMVRxchangeService.cpp
@@ -335,17 +335,13 @@ IMVRxchangeService::IMVRxchangeMessage CMVRxchangeServiceImpl::TCP_OnIncommingMe
     }
 	else if(in.Type == MVRxchangeMessageType::MVR_LEAVE)
 	{
-		MVRxchangeGroupMember newItem;
-		if(GetSingleMemberOfService(in.LEAVE.FromStationUUID, newItem) != kVCOMError_NoError)
-		{
-			std::lock_guard<std::mutex> lock(fMvrGroupMutex);
-			fMVRGroup.erase(
-				std::remove_if(fMVRGroup.begin(), fMVRGroup.end(), [&newItem](const MVRxchangeGroupMember& it){
-					return it.stationUUID == newItem.stationUUID;
-				}),
-				fMVRGroup.end()
-			);
-		}
+		std::lock_guard<std::mutex> lock(fMvrGroupMutex);
+		fMVRGroup.erase(
+			std::remove_if(fMVRGroup.begin(), fMVRGroup.end(), [&in](const MVRxchangeGroupMember& it){
+				return it.stationUUID == in.LEAVE.FromStationUUID;
+			}),
+			fMVRGroup.end()
+		);
 	}
 
 	IMVRxchangeService::IMVRxchangeMessage ret;
-- 
2.43.0


From aa5244ce57f04e7ec21a3cda6f984d321b5b443f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:21 +0000
Subject: [PATCH 67/96] fix: an announcement without a TXT record or with an
 item without = is read

---
 src/mvrxchange/CMVRxchangeService.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/mvrxchange/CMVRxchangeService.cpp b/src/mvrxchange/CMVRxchangeService.cpp
index 0b86901..3651cfa 100644
--- a/src/mvrxchange/CMVRxchangeService.cpp
+++ b/src/mvrxchange/CMVRxchangeService.cpp
@@ -568,10 +568,13 @@ void CMVRxchangeServiceImpl::mDNS_Client_Task()
 		TXString uuid;
 
 		size_t ptr = 0;
-		do{
+		while(ptr < r.txt.size())
+		{
 			uint8_t len = r.txt[ptr];
 
 			std::string t = r.txt.substr(ptr + 1, len);
+			ptr += len + 1;
+
 			size_t eqIdx = t.find('=');
 			if(eqIdx == std::string::npos)
 			{
@@ -587,8 +590,7 @@ void CMVRxchangeServiceImpl::mDNS_Client_Task()
 				uuid = t.substr(eqIdx + 1);
 			}
 
-			ptr += len + 1;
-		}while(ptr < r.txt.size());
+		}
 
 		SceneData::GdtfConverter::ConvertUUID(uuid, localServ.StationUUID);
 		strcpy(localServ.StationName, name.GetCharPtr());
-- 
2.43.0


From b15037ef7ca677f31a946a0d8d349ba517ff6a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:39 +0000
Subject: [PATCH 68/96] fix: the end of a query for local services cannot be
 missed

---
 src/mvrxchange/CMVRxchangeService.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/mvrxchange/CMVRxchangeService.cpp b/src/mvrxchange/CMVRxchangeService.cpp
index 3651cfa..40e8ba3 100644
--- a/src/mvrxchange/CMVRxchangeService.cpp
+++ b/src/mvrxchange/CMVRxchangeService.cpp
@@ -152,14 +152,12 @@ VCOMError VCOM_CALLTYPE  CMVRxchangeServiceImpl::QueryLocalServices(size_t& out_
 
 	if(fmdns_Thread.joinable())
 	{
-		std::condition_variable cv;
-		std::mutex mut;
-		std::unique_lock<std::mutex> lock(mut);
-		boost::asio::post(fmdns_IO_Context, [this, &cv](){
+		std::promise<void> done;
+		boost::asio::post(fmdns_IO_Context, [this, &done](){
 			this->mDNS_Client_Task();
-			cv.notify_all();
+			done.set_value();
 		});
-		cv.wait(lock);
+		done.get_future().wait();
 	}else{
 		this->mDNS_Client_Task();
 	}
-- 
2.43.0


From 33918fd34b764a2905615c620ed2e3f5bc180e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:17 +0000
Subject: [PATCH 69/96] fix: a station that left does not keep the members of
 its group

---
 src/mvrxchange/CMVRxchangeService.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mvrxchange/CMVRxchangeService.cpp b/src/mvrxchange/CMVRxchangeService.cpp
index 40e8ba3..002d2d3 100644
--- a/src/mvrxchange/CMVRxchangeService.cpp
+++ b/src/mvrxchange/CMVRxchangeService.cpp
@@ -142,6 +142,10 @@ VCOMError VectorworksMVR::CMVRxchangeServiceImpl::LeaveLocalService()
     }
     fmdns.clear();
 
+	{
+		std::lock_guard<std::mutex> lock(fMvrGroupMutex);
+		fMVRGroup.clear();
+	}
 
 	return kVCOMError_NoError;
 }
-- 
2.43.0


From 4fd16796ec147ef48356a1695c6e9c281fe8a481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:34 +0000
Subject: [PATCH 70/96] fix: a station that comes back is reached at its new
 port

---
 src/mvrxchange/CMVRxchangeService.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/mvrxchange/CMVRxchangeService.cpp b/src/mvrxchange/CMVRxchangeService.cpp
index 002d2d3..d623aa8 100644
--- a/src/mvrxchange/CMVRxchangeService.cpp
+++ b/src/mvrxchange/CMVRxchangeService.cpp
@@ -337,13 +337,23 @@ IMVRxchangeService::IMVRxchangeMessage CMVRxchangeServiceImpl::TCP_OnIncommingMe
     }
 	else if(in.Type == MVRxchangeMessageType::MVR_LEAVE)
 	{
-		std::lock_guard<std::mutex> lock(fMvrGroupMutex);
+		std::unique_lock<std::mutex> lock(fMvrGroupMutex);
 		fMVRGroup.erase(
 			std::remove_if(fMVRGroup.begin(), fMVRGroup.end(), [&in](const MVRxchangeGroupMember& it){
 				return it.stationUUID == in.LEAVE.FromStationUUID;
 			}),
 			fMVRGroup.end()
 		);
+		lock.unlock();
+
+		// The station may come back with another port
+		std::lock_guard<std::mutex> queryLock(fQueryLocalServicesResult_mtx);
+		fQueryLocalServicesResult.erase(
+			std::remove_if(fQueryLocalServicesResult.begin(), fQueryLocalServicesResult.end(), [&in](const ConnectToLocalServiceArgs& it){
+				return it.StationUUID == in.LEAVE.FromStationUUID;
+			}),
+			fQueryLocalServicesResult.end()
+		);
 	}
 
 	IMVRxchangeService::IMVRxchangeMessage ret;
-- 
2.43.0


From 43e0c5a46ca84119b594f5bb995158d2028b438d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:51 +0000
Subject: [PATCH 71/96] fix: a station that joins twice is one member of the
 group

---
 src/mvrxchange/CMVRxchangeService.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/mvrxchange/CMVRxchangeService.cpp b/src/mvrxchange/CMVRxchangeService.cpp
index d623aa8..631c652 100644
--- a/src/mvrxchange/CMVRxchangeService.cpp
+++ b/src/mvrxchange/CMVRxchangeService.cpp
@@ -330,7 +330,17 @@ IMVRxchangeService::IMVRxchangeMessage CMVRxchangeServiceImpl::TCP_OnIncommingMe
 				if(GetSingleMemberOfService(uuid, newItem) == kVCOMError_NoError)
 				{
 					std::lock_guard<std::mutex> lock(fMvrGroupMutex);
-					fMVRGroup.push_back(newItem);
+					auto it = std::find_if(fMVRGroup.begin(), fMVRGroup.end(), [&newItem](const MVRxchangeGroupMember& it){
+						return it.stationUUID == newItem.stationUUID;
+					});
+
+					if(it != fMVRGroup.end())
+					{
+						*it = newItem;
+					}else
+					{
+						fMVRGroup.push_back(newItem);
+					}
 				}
 			});
 		}
-- 
2.43.0


From ffa3f428a70125e4ee0cc804043d7622f29172d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:08 +0000
Subject: [PATCH 72/96] fix: a long station name does not damage the
 announcement

---
 src/mvrxchange/CMVRxchangeService.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mvrxchange/CMVRxchangeService.cpp b/src/mvrxchange/CMVRxchangeService.cpp
index 631c652..590efac 100644
--- a/src/mvrxchange/CMVRxchangeService.cpp
+++ b/src/mvrxchange/CMVRxchangeService.cpp
@@ -58,6 +58,7 @@ VCOMError VectorworksMVR::CMVRxchangeServiceImpl::ConnectToLocalService(const Co
 	std::string txt1;
 	txt1 += "StationName=";
 	txt1 += fCurrentService.StationName.fBuffer;
+	if (txt1.size() > 255) { txt1.resize(255); } // An item of a TXT record has a length of one byte
 	std::string txt2;
 	txt2 += "StationUUID=";
 	txt2 += SceneData::GdtfConverter::ConvertUUID(VWUUID(fCurrentService.StationUUID.a, fCurrentService.StationUUID.b, fCurrentService.StationUUID.c, fCurrentService.StationUUID.d)).GetStdString();
-- 
2.43.0


From 3b2cd5f4cb6eb87a5a7a2eba95c3eddb58b1ab6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:45 +0000
Subject: [PATCH 73/96] fix: a station that joins is searched for even if it
 was found before

---
 src/mvrxchange/CMVRxchangeService.cpp | 39 ++++++++++++---------------
 1 file changed, 17 insertions(+), 22 deletions(-)

diff --git a/src/mvrxchange/CMVRxchangeService.cpp b/src/mvrxchange/CMVRxchangeService.cpp
index 590efac..41b0737 100644
--- a/src/mvrxchange/CMVRxchangeService.cpp
+++ b/src/mvrxchange/CMVRxchangeService.cpp
@@ -322,29 +322,24 @@ IMVRxchangeService::IMVRxchangeMessage CMVRxchangeServiceImpl::TCP_OnIncommingMe
 				fMVRGroup.push_back(newItem);
 			}
 		}
-		else
-		{
-			auto& uuid = in.JOIN.StationUUID;
-			boost::asio::post(fmdns_IO_Context, [this, uuid](){
-				this->mDNS_Client_Task(); // Run, in case client was faster than task
-				MVRxchangeGroupMember newItem;
-				if(GetSingleMemberOfService(uuid, newItem) == kVCOMError_NoError)
-				{
-					std::lock_guard<std::mutex> lock(fMvrGroupMutex);
-					auto it = std::find_if(fMVRGroup.begin(), fMVRGroup.end(), [&newItem](const MVRxchangeGroupMember& it){
+
+		// Search in any case: the station may not be found yet, or may have been found with an earlier port
+		auto& uuid = in.JOIN.StationUUID;
+		boost::asio::post(fmdns_IO_Context, [this, uuid](){
+			this->mDNS_Client_Task(); // Run, in case client was faster than task
+			MVRxchangeGroupMember newItem;
+			if(GetSingleMemberOfService(uuid, newItem) == kVCOMError_NoError)
+			{
+				std::lock_guard<std::mutex> lock(fMvrGroupMutex);
+				fMVRGroup.erase(
+					std::remove_if(fMVRGroup.begin(), fMVRGroup.end(), [&newItem](const MVRxchangeGroupMember& it){
 						return it.stationUUID == newItem.stationUUID;
-					});
-
-					if(it != fMVRGroup.end())
-					{
-						*it = newItem;
-					}else
-					{
-						fMVRGroup.push_back(newItem);
-					}
-				}
-			});
-		}
+					}),
+					fMVRGroup.end()
+				);
+				fMVRGroup.push_back(newItem);
+			}
+		});
     }
 	else if(in.Type == MVRxchangeMessageType::MVR_LEAVE)
 	{
-- 
2.43.0


From ebf0bd9608d31cd01d161a15e05a3f0cec87fc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:40 +0000
Subject: [PATCH 74/96] fix: replacing an empty text ends

---
 src/GSString.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/GSString.cpp b/src/GSString.cpp
index 2b902ce..92d5c9e 100644
--- a/src/GSString.cpp
+++ b/src/GSString.cpp
@@ -1417,6 +1417,12 @@ TXString& TXString::Replace(const TXString& oldStr, const TXString& newStr, bool
 {
 	size_t dstStartPos = 0;
 
+	// Nothing to look for
+	if (oldStr.stdUStr.empty()) return *this;
+
+	// The arguments must not change while replacing
+	if (this == &oldStr || this == &newStr) return Replace(TXString(oldStr), TXString(newStr), bIgnoreCase);
+
 	if (bIgnoreCase)
 	{
 		TXString lowerSrcStr(*this);
-- 
2.43.0


From a2b03472766dd176664ba9f0573564a76f94c25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:45 +0000
Subject: [PATCH 75/96] fix: splitting a text ends and finds every separator

---
 src/GSString.cpp | 43 ++++++++++++-------------------------------
 1 file changed, 12 insertions(+), 31 deletions(-)

diff --git a/src/GSString.cpp b/src/GSString.cpp
index 92d5c9e..9c79ad5 100644
--- a/src/GSString.cpp
+++ b/src/GSString.cpp
@@ -2036,25 +2036,7 @@ TXString TXString::Right(size_t len) const
 // Results do not contain ch
 std::vector<TXString> TXString::Split(char ch) const
 {
-	std::vector<TXString> result;
-
-	size_t lastOccurrence = 0;
-
-	while(lastOccurrence < size_t(-1))
-	{
-		size_t pos = Find(ch, lastOccurrence + 1);
-		if(pos != 0)
-		{
-			result.push_back(Mid(lastOccurrence, pos - lastOccurrence));
-		}
-		lastOccurrence = pos + 1;
-		if(pos + 1 == GetLength())
-		{
-			break;
-		}
-	}
-
-	return result;
+	return Split(TXString(ch));
 }
 
 //=======================================================================================
@@ -2065,20 +2047,19 @@ std::vector<TXString> TXString::Split(TXString ch) const
 	
 	std::vector<TXString> result;
 
-	size_t lastOccurrence = 0;
+	size_t		start	= 0;
+	ptrdiff_t	pos		= -1;
 
-	while(lastOccurrence < size_t(-1))
+	while((pos = Find(ch, start)) >= 0)
 	{
-		size_t pos = Find(ch, lastOccurrence + 1);
-		if(pos != 0)
-		{
-			result.push_back(Mid(lastOccurrence, pos - lastOccurrence));
-		}
-		lastOccurrence = pos + 1;
-		if(pos + 1 == GetLength())
-		{
-			break;
-		}
+		result.push_back(Mid(start, pos - start));
+		start = pos + ch.GetLength();
+	}
+
+	// There is no empty part behind the last occurrence
+	if(start < GetLength() || result.empty())
+	{
+		result.push_back(Mid(start));
 	}
 
 	return result;
-- 
2.43.0


From 7eb7e6f88ff7c97344815a90a7c041c4f25d47cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:49 +0000
Subject: [PATCH 76/96] fix: 64 bit numbers in a text keep all their bits

---
 src/GSString.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GSString.cpp b/src/GSString.cpp
index 9c79ad5..7e81b18 100644
--- a/src/GSString.cpp
+++ b/src/GSString.cpp
@@ -2085,7 +2085,7 @@ Sint32 TXString::atoi() const
 // number is returned. e.g. " 123 123 " returns 123.
 Sint64 TXString::atoi64() const
 {
-	return ::atoi(*this);
+	return ::atoll(*this);
 }
 
 //=======================================================================================
-- 
2.43.0


From 15ae4d93fe067a183ea9feac17271f0d42d616e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:54 +0000
Subject: [PATCH 77/96] fix: characters beyond one byte are not looked up in
 tables for one

---
 src/GSString.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/GSString.cpp b/src/GSString.cpp
index 7e81b18..5b9973c 100644
--- a/src/GSString.cpp
+++ b/src/GSString.cpp
@@ -2121,7 +2121,7 @@ TXString& TXString::ftoa(Real64 value, Sint32 precision)
 bool TXString::IsCompleteNumber()
 {
 	auto it = stdUStr.begin();
-    while (it != stdUStr.end() && std::isdigit(*it)) ++it;
+    while (it != stdUStr.end() && *it >= '0' && *it <= '9') ++it;
     return !stdUStr.empty() && it == stdUStr.end();
 
 }
@@ -2169,7 +2169,7 @@ bool TXString::IsCompleteNumber()
 	return iswpunct(aTXChar) != 0;
 #elif GS_LIN
 	// LINUX_IMPLEMENTATION - done
-	return std::ispunct(aTXChar);
+	return aTXChar < 0x80 && std::ispunct(aTXChar); // Only defined for characters of one byte
 #else
 	return std::ispunct(aTXChar);
 #endif
@@ -2182,7 +2182,7 @@ bool TXString::IsCompleteNumber()
 	return iswspace(aTXChar) != 0;
 #elif GS_LIN
 	// LINUX_IMPLEMENTATION - done
-	return std::isspace(aTXChar);
+	return aTXChar < 0x80 && std::isspace(aTXChar); // Only defined for characters of one byte
 #else
 	return std::isspace(aTXChar);
 #endif
-- 
2.43.0


From 060d10945d54b34234f223483511dc4be67ac277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:58 +0000
Subject: [PATCH 78/96] fix: a character is found ignoring case

---
 src/GSString.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GSString.cpp b/src/GSString.cpp
index 5b9973c..889401f 100644
--- a/src/GSString.cpp
+++ b/src/GSString.cpp
@@ -1825,7 +1825,7 @@ ptrdiff_t TXString::Find(int ch,
 
 	if (bIgnoreCase)
 	{	// Ignore case is more expensive.
-		TXString strCh((TXChar)ch);
+		TXString strCh((UCChar)ch);
 		strCh.MakeLower();
 
 		TXString strCopy(*this);
@@ -1902,7 +1902,7 @@ ptrdiff_t TXString::ReverseFind(int ch,
 		TXString srcStr(*this);
 		srcStr.MakeLower();
 
-		TXString chStr((TXChar)ch);
+		TXString chStr((UCChar)ch);
 		chStr.MakeLower();
 
 		pos = srcStr.stdUStr.rfind(chStr.stdUStr[0], posLast);
-- 
2.43.0


From 7b217e33dcae1dfa3e1cd0fcd75618c7b60da538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:02 +0000
Subject: [PATCH 79/96] fix: wide characters convert without throwing

---
 src/GSString.cpp | 120 +++++++++++++++++++++++++----------------------
 1 file changed, 64 insertions(+), 56 deletions(-)

diff --git a/src/GSString.cpp b/src/GSString.cpp
index 889401f..4598e28 100644
--- a/src/GSString.cpp
+++ b/src/GSString.cpp
@@ -110,6 +110,58 @@ static std::string Utf16ToUtf8(const std::u16string& src)
 
 	return result;
 }
+
+static std::u16string Utf32ToUtf16(const char32_t* src, size_t length)
+{
+	std::u16string result;
+	result.reserve(length);
+
+	for (size_t at = 0; at < length; at++)
+	{
+		char32_t code = src[at];
+
+		if (code > 0x10FFFF || (code >= 0xD800 && code <= 0xDFFF)) { code = 0xFFFD; }
+
+		if (code > 0xFFFF)
+		{
+			result.push_back((char16_t)(0xD800 + ((code - 0x10000) >> 10)));
+			result.push_back((char16_t)(0xDC00 + ((code - 0x10000) & 0x3FF)));
+		}
+		else
+		{
+			result.push_back((char16_t)code);
+		}
+	}
+
+	return result;
+}
+
+static std::u16string WideCharToUtf16(wchar_t ch)
+{
+	const char32_t code = (char32_t)ch;
+	return code <= 0xFFFF ? std::u16string(1, (char16_t)code) : Utf32ToUtf16(&code, 1);
+}
+
+static std::u32string Utf16ToUtf32(const std::u16string& src)
+{
+	std::u32string result;
+	result.reserve(src.size());
+
+	for (size_t at = 0; at < src.size(); at++)
+	{
+		char32_t code = src[at];
+
+		if (code >= 0xD800 && code <= 0xDFFF)
+		{
+			bool pair = code <= 0xDBFF && at + 1 < src.size() && src[at + 1] >= 0xDC00 && src[at + 1] <= 0xDFFF;
+			code = pair ? 0x10000 + ((code - 0xD800) << 10) + (src[++at] - 0xDC00) : 0xFFFD;
+		}
+
+		result.push_back(code);
+	}
+
+	return result;
+}
 #endif
 
 //#######################################################################################
@@ -300,18 +352,7 @@ TXString::TXString(const wchar_t* src)
 #if GS_WIN
 		stdUStr = src;
 #elif GS_LIN
-		std::u32string wStr((const char32_t*)src);
-		std::wstring_convert<std::codecvt_utf16<char32_t>, char32_t> convert;
-		std::string bytes = convert.to_bytes(wStr);
-
-		std::u16string result;
-		result.reserve(bytes.size() / 2);
-
-		for (size_t i = 0; i < bytes.size(); i += 2) {
-			result.push_back(static_cast<char16_t>(static_cast<unsigned char>(bytes[i]) * 256 + static_cast<unsigned char>(bytes[i + 1])));
-		}
-
-		stdUStr = result;
+		stdUStr = Utf32ToUtf16((const char32_t*)src, wcslen(src));
 #else
 		std::unique_ptr<TXChar[]> ucchars(new TXChar[wcslen(src) * 2 + 1]);
 		utf32BufferToTXCharBuffer((const char32_t*)src, ucchars.get());
@@ -336,18 +377,7 @@ TXString::TXString(const wchar_t* src, size_t numWChars)
 #if GS_WIN
 		stdUStr.assign(src, length);
 #elif GS_LIN
-		std::u32string wSrc((const char32_t*)src, numWChars);
-		std::wstring_convert<std::codecvt_utf16<char32_t>, char32_t> convert;
-		std::string bytes = convert.to_bytes(wSrc);
-
-		std::u16string result;
-		result.reserve(bytes.size() / 2);
-
-		for (size_t i = 0; i < bytes.size(); i += 2) {
-			result.push_back(static_cast<char16_t>(static_cast<unsigned char>(bytes[i]) * 256 + static_cast<unsigned char>(bytes[i + 1])));
-		}
-
-		stdUStr = result;
+		stdUStr = Utf32ToUtf16((const char32_t*)src, length);
 #else
 		std::unique_ptr<TXChar[]> txChars(new TXChar[ length * 2 + 1]);
 		utf32BufferToTXCharBuffer((const char32_t*)src, txChars.get(), length);
@@ -394,10 +424,10 @@ TXString::TXString(wchar_t ch, size_t count /* 1 */)
 }
 #elif GS_LIN
 TXString::TXString(wchar_t ch, size_t count /* 1 */)
-	: stdUStr(count, ch)
-	, charPtr(nullptr)
+	: charPtr(nullptr)
 	, charBufSize(0)
 {
+	for (size_t i = 0; i < count; ++i) stdUStr += WideCharToUtf16(ch);
 }
 #else
 TXString::TXString(wchar_t w, size_t count /* 1 */)
@@ -464,18 +494,7 @@ TXString& TXString::operator=(const std::wstring& src)
 #if GS_WIN
 	stdUStr = src.data();
 #elif GS_LIN
-	std::u32string wSrc((const char32_t*)src.data());
-	std::wstring_convert<std::codecvt_utf16<char32_t>, char32_t> convert;
-	std::string bytes = convert.to_bytes(wSrc);
-
-	std::u16string result;
-	result.reserve(bytes.size() / 2);
-
-	for (size_t i = 0; i < bytes.size(); i += 2) {
-		result.push_back(static_cast<char16_t>(static_cast<unsigned char>(bytes[i]) * 256 + static_cast<unsigned char>(bytes[i + 1])));
-	}
-
-	stdUStr = result;
+	stdUStr = Utf32ToUtf16((const char32_t*)src.data(), wcslen(src.data()));
 #else
 	std::unique_ptr<TXChar[]> ucChars(new TXChar[src.length() * 2 + 1]);
 	utf32BufferToTXCharBuffer((const char32_t*)src.data(), ucChars.get());
@@ -594,8 +613,7 @@ TXString& TXString::operator=(wchar_t w)
 #if GS_WIN
 	stdUStr = w;
 #elif GS_LIN
-	// TODO
-	stdUStr = w;
+	stdUStr = WideCharToUtf16(w);
 #else
 		if((int) w <= 0xffff)
 	{
@@ -945,7 +963,7 @@ TXString& TXString::operator+=(wchar_t w)
 #if GS_WIN
 	stdUStr += w;
 #elif GS_LIN
-	stdUStr += w;
+	stdUStr += WideCharToUtf16(w);
 #else
 		if((int) w <= 0xffff)
 	{
@@ -1244,11 +1262,11 @@ TXString& TXString::Insert(size_t pos, wchar_t w)
 #elif GS_LIN
 	if (pos < stdUStr.length())
 	{
-		stdUStr.insert(pos, 1, w);
+		stdUStr.insert(pos, WideCharToUtf16(w));
 	}
 	else
 	{
-		stdUStr.append(1, w);
+		stdUStr.append(WideCharToUtf16(w));
 	}
 #else
 	if((int) w <= 0xffff)
@@ -1617,9 +1635,9 @@ std::wstring TXString::GetStdWString() const
 #if GS_WIN
 	return std::wstring(stdUStr.c_str());
 #elif GS_LIN
-	std::wstring_convert<std::codecvt_utf16<wchar_t, 0x10ffff, std::little_endian>> converter;
+	std::u32string u32Str = Utf16ToUtf32(stdUStr);
 
-	return converter.from_bytes((const char*)stdUStr.data(), (const char*)(stdUStr.data() + stdUStr.length()));
+	return std::wstring(u32Str.begin(), u32Str.end());
 #else
 	std::wstring_convert<std::codecvt_utf16<wchar_t, 0x10ffff, std::little_endian>> converter;
 
@@ -1743,17 +1761,7 @@ void TXString::CopyInto(wchar_t* dst, size_t bufElemSize) const
 			dst[bufElemSize - 1] = 0;
 		}
 #elif GS_LIN
-		std::string bytes;
-		bytes.reserve(stdUStr.size() * 2);
-
-		for (const char16_t c : stdUStr) {
-			bytes.push_back(static_cast<char>(c / 256));
-			bytes.push_back(static_cast<char>(c % 256));
-		}
-
-		std::wstring_convert<std::codecvt_utf16<char32_t>, char32_t> convert;
-		std::u32string u32Str = convert.from_bytes(bytes);
-
+		std::u32string u32Str = Utf16ToUtf32(stdUStr);
 
 		size_t len = u32Str.length();
 
-- 
2.43.0


From bdadf43d1c102638cadf61c9d7366252d2551587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:05 +0000
Subject: [PATCH 80/96] fix: RGB colours are made linear before they become CIE
 colours

---
 src/CieColor.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/CieColor.cpp b/src/CieColor.cpp
index 783f66f..6a36d82 100644
--- a/src/CieColor.cpp
+++ b/src/CieColor.cpp
@@ -38,6 +38,13 @@ CCieColor::CCieColor(const CRGBColor& color)
 	r /= UINT8_MAX;
 	g /= UINT8_MAX;
 	b /= UINT8_MAX;	
+
+	if (r > 0.04045)    { r = pow((r + 0.055) / 1.055, 2.4); }
+	else                { r /= 12.92; }
+	if (g > 0.04045)    { g = pow((g + 0.055) / 1.055, 2.4); }
+	else                { g /= 12.92; }
+	if (b > 0.04045)    { b = pow((b + 0.055) / 1.055, 2.4); }
+	else                { b /= 12.92; }
 	
 	// Convert RGB  to CIE_xyz // range [0..1]
 	double x_tmp, y_tmp, z_tmp;
-- 
2.43.0


From f715697264b67e57e2d09cf995077d8d26b9f557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:08 +0000
Subject: [PATCH 81/96] fix: a CIE colour that is no number becomes an RGB
 colour in range

---
 src/CieColor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CieColor.cpp b/src/CieColor.cpp
index 6a36d82..8184fc2 100644
--- a/src/CieColor.cpp
+++ b/src/CieColor.cpp
@@ -126,7 +126,7 @@ void CCieColor::GetRGBColor(CRGBColor& rgb) const
 	
 
 	// Clamp between 0 and 1
-	if (r < 0) { r = 0; };  if (g < 0){ g = 0; }; if (b < 0){ b = 0; };
+	if (!(r > 0)) { r = 0; };  if (!(g > 0)){ g = 0; }; if (!(b > 0)){ b = 0; }; // Also when it is not a number
 	if (r > 1) { r = 1; };  if (g > 1){ g = 1; }; if (b > 1){ b = 1; };
 
 	// Convert linearRGB[0..1] to sRGB [0..255]
-- 
2.43.0


From 9609ccb01fedb20c9a17a0dfc9f92eeca4aa3ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:11 +0000
Subject: [PATCH 82/96] fix: setting the green part of a colour keeps it

---
 src/RGBColor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/RGBColor.cpp b/src/RGBColor.cpp
index 3f3397e..bf0d118 100644
--- a/src/RGBColor.cpp
+++ b/src/RGBColor.cpp
@@ -83,7 +83,7 @@ Sint32 CRGBColor::GetGreen() const
 
 void CRGBColor::SetGreen(Sint32 green)
 {
-	this->green		= (green << 8) | green;
+	this->green		= green;
 }
 
 Sint32 CRGBColor::GetBlue() const
-- 
2.43.0


From 6b909e2e6779b2be06c0c404fc4dfccd2a36955f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:14 +0000
Subject: [PATCH 83/96] fix: a transform that scales down strongly is inverted

---
 src/VWTransformMatrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/VWTransformMatrix.cpp b/src/VWTransformMatrix.cpp
index ad161f1..10b9e35 100644
--- a/src/VWTransformMatrix.cpp
+++ b/src/VWTransformMatrix.cpp
@@ -311,7 +311,7 @@ VWTransformMatrix& VWTransformMatrix::Invert()
 	double	det = pos + neg;
 	double	mag = pos - neg;
 	
-	if ( Abs(mag) < 0.00000001 ) {
+	if ( mag == 0.0 ) {
 		// Invert4by4_ByeBye();
 		temp = fMatrix.mat[0][1]; fMatrix.mat[0][1] = fMatrix.mat[1][0]; fMatrix.mat[1][0] = temp;
 		temp = fMatrix.mat[0][2]; fMatrix.mat[0][2] = fMatrix.mat[2][0]; fMatrix.mat[2][0] = temp;
-- 
2.43.0


From a9d1046b33ebd72825ef58ac2efcd9fec5f2043e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:17 +0000
Subject: [PATCH 84/96] fix: a transform that scales down is not flipped

---
 src/VWTransformMatrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/VWTransformMatrix.cpp b/src/VWTransformMatrix.cpp
index 10b9e35..48e06fb 100644
--- a/src/VWTransformMatrix.cpp
+++ b/src/VWTransformMatrix.cpp
@@ -366,7 +366,7 @@ bool VWTransformMatrix::IsFlipped() const
 	VWPoint3D	vVec	= VWPoint3D( fMatrix.mat[1][0], fMatrix.mat[1][1], fMatrix.mat[1][2] );
 	VWPoint3D	wVec	= VWPoint3D( fMatrix.mat[2][0], fMatrix.mat[2][1], fMatrix.mat[2][2] );
 
-	return uVec.DotProduct( vVec.Cross( wVec ) ) < 0.0001;
+	return uVec.DotProduct( vVec.Cross( wVec ) ) < 0.0;
 }
 
 void VWTransformMatrix::FlipMatrix()
-- 
2.43.0


From 8e5a659d16c5c358c02105c7e40815a42e0b3ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:20 +0000
Subject: [PATCH 85/96] fix: the inverse point transformation undoes the point
 transformation

---
 src/VWTransformMatrix.cpp | 44 ++++-----------------------------------
 1 file changed, 4 insertions(+), 40 deletions(-)

diff --git a/src/VWTransformMatrix.cpp b/src/VWTransformMatrix.cpp
index 48e06fb..6dc8d87 100644
--- a/src/VWTransformMatrix.cpp
+++ b/src/VWTransformMatrix.cpp
@@ -578,36 +578,14 @@ VWPoint2D VWTransformMatrix::InversePointTransform(const VWPoint2D& point) const
 {
 	// Linear algebra equivalent:
 	// b = a MAT^{-1}
-
-	VWPoint3D		dOffset;
-
-	dOffset.x = point.x - fMatrix.mat[3][0];
-	dOffset.y = point.y - fMatrix.mat[3][1];
-	dOffset.z = 0/*point.z*/ - fMatrix.mat[3][2];
-	
-	VWPoint2D		res;
-	res.x =	dOffset.x * fMatrix.mat[0][0] + dOffset.y * fMatrix.mat[0][1] + dOffset.z * fMatrix.mat[0][2];
-	res.y =	dOffset.x * fMatrix.mat[1][0] + dOffset.y * fMatrix.mat[1][1] + dOffset.z * fMatrix.mat[1][2];
-	//res.z =	dOffset.x * fMatrix.mat[2][0] + dOffset.y * fMatrix.mat[2][1] + dOffset.z * fMatrix.mat[2][2];
-	return res;
+	return this->GetInverted().PointTransform( point );
 }
 
 VWPoint3D VWTransformMatrix::InversePointTransform(const VWPoint3D& point) const
 {
 	// Linear algebra equivalent:
 	// b = a MAT^{-1}
-
-	VWPoint3D		dOffset;
-
-	dOffset.x = point.x - fMatrix.mat[3][0];
-	dOffset.y = point.y - fMatrix.mat[3][1];
-	dOffset.z = point.z - fMatrix.mat[3][2];
-	
-	VWPoint3D		res;
-	res.x =	dOffset.x * fMatrix.mat[0][0] + dOffset.y * fMatrix.mat[0][1] + dOffset.z * fMatrix.mat[0][2];
-	res.y =	dOffset.x * fMatrix.mat[1][0] + dOffset.y * fMatrix.mat[1][1] + dOffset.z * fMatrix.mat[1][2];
-	res.z =	dOffset.x * fMatrix.mat[2][0] + dOffset.y * fMatrix.mat[2][1] + dOffset.z * fMatrix.mat[2][2];
-	return res;
+	return this->GetInverted().PointTransform( point );
 }
 
 void VWTransformMatrix::TransformPoint(VWPoint2D& inOutPt) const
@@ -634,28 +612,14 @@ void VWTransformMatrix::InverseTransformPoint(VWPoint2D& inOutPt) const
 {
 	// Linear algebra equivalent:
 	// b = a MAT^{-1}
-
-	double		offsetX		= inOutPt.x - fMatrix.mat[3][0];
-	double		offsetY		= inOutPt.y - fMatrix.mat[3][1];
-	double		offsetZ		= 0/*inOutPt.z*/ - fMatrix.mat[3][2];
-
-	inOutPt.x	= offsetX * fMatrix.mat[0][0] + offsetY * fMatrix.mat[0][1] + offsetZ * fMatrix.mat[0][2];
-	inOutPt.y	= offsetX * fMatrix.mat[1][0] + offsetY * fMatrix.mat[1][1] + offsetZ * fMatrix.mat[1][2];
-	//inOutPt.z	= offsetX * fMatrix.mat[2][0] + offsetY * fMatrix.mat[2][1] + offsetZ * fMatrix.mat[2][2];
+	this->GetInverted().TransformPoint( inOutPt );
 }
 
 void VWTransformMatrix::InverseTransformPoint(VWPoint3D& inOutPt) const
 {
 	// Linear algebra equivalent:
 	// b = a MAT^{-1}
-
-	double		offsetX		= inOutPt.x - fMatrix.mat[3][0];
-	double		offsetY		= inOutPt.y - fMatrix.mat[3][1];
-	double		offsetZ		= inOutPt.z - fMatrix.mat[3][2];
-
-	inOutPt.x	= offsetX * fMatrix.mat[0][0] + offsetY * fMatrix.mat[0][1] + offsetZ * fMatrix.mat[0][2];
-	inOutPt.y	= offsetX * fMatrix.mat[1][0] + offsetY * fMatrix.mat[1][1] + offsetZ * fMatrix.mat[1][2];
-	inOutPt.z	= offsetX * fMatrix.mat[2][0] + offsetY * fMatrix.mat[2][1] + offsetZ * fMatrix.mat[2][2];
+	this->GetInverted().TransformPoint( inOutPt );
 }
 
 void VWTransformMatrix::PointsTransform(TSTLPoints2DArray& inOutArr2DPoints) const
-- 
2.43.0


From 97b7d478a6c4010dfc8650614f25b8080068db25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:29 +0000
Subject: [PATCH 86/96] fix: a function without attribute does not change the
 numbers of the others

---
 src/GDTFManager.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/GDTFManager.cpp b/src/GDTFManager.cpp
index 4fccf8d..9bec7c2 100644
--- a/src/GDTFManager.cpp
+++ b/src/GDTFManager.cpp
@@ -8111,6 +8111,7 @@ void GdtfFixture::AutoGenerateNames(GdtfDmxModePtr dmxMode)
 							function->GetNode(node);
 							GdtfParsingError error (GdtfDefines::EGdtfParsingError::eFixtureChannelFunctionMissingAttribute, node);
 							SceneData::GdtfFixture::AddError(error);
+							channelFunctionNumber++; // The others keep their number
 							continue;
 						}
 						TXString functionName; 
-- 
2.43.0


From d4b2747d6767dd05a001c94d6104dd65256fa11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:56 +0000
Subject: [PATCH 87/96] fix: GDTF fixtures alive at the same time have folders
 of their own for their resources

---
 src/GDTFManager.cpp | 31 +++++++++++++++++++++++++++++++
 src/GDTFManager.h   |  3 +++
 2 files changed, 34 insertions(+)

diff --git a/src/GDTFManager.cpp b/src/GDTFManager.cpp
index 9bec7c2..055abd9 100644
--- a/src/GDTFManager.cpp
+++ b/src/GDTFManager.cpp
@@ -6,6 +6,7 @@
 #include "XmlFileHelper.h"
 #include "HashManager.h"
 #include <iostream>
+#include <set>
 #include "Utility.h"
 #include "FeedbackDispatcher.h"
 #include "Wrapper/ZIPFileImpl.h"
@@ -15,6 +16,9 @@ using namespace SceneData;
 static std::function<void( bool& )> fAbortCallback;
 static std::mutex fAbortCallbackMutex;
 
+static std::set<TXString>& fWorkingFoldersInUse = *new std::set<TXString>(); // objects may be destroyed at exit
+static std::mutex fWorkingFoldersMutex;
+
 //------------------------------------------------------------------------------------
 // GdtfObject
 GdtfObject::GdtfObject()
@@ -7849,6 +7853,20 @@ void GdtfFixture::PrepareWorkingFolder(TXString folderName)
 	// Working Directory
 	if(folderName.IsEmpty()){ folderName = "GdtfGroup"; }
 
+	// Every object that is alive has a folder of its own
+	ReleaseWorkingFolder();
+	{
+		std::lock_guard<std::mutex> lock(fWorkingFoldersMutex);
+		fWorkingFolderName = folderName;
+		for (size_t i = 1; ! fWorkingFoldersInUse.insert(fWorkingFolderName).second; i++)
+		{
+			fWorkingFolderName = folderName;
+			fWorkingFolderName << "_" << i;
+		}
+	}
+	fDeleteWorkingFolder = (fWorkingFolderName != folderName);
+	folderName = fWorkingFolderName;
+
 	fWorkingFolder = (IID_FolderIdentifier);
 
 	IFolderIdentifierPtr folder ( IID_FolderIdentifier );
@@ -7873,6 +7891,17 @@ void GdtfFixture::PrepareWorkingFolder(TXString folderName)
 	ASSERTN(kEveryone, exists == true);
 }
 
+void GdtfFixture::ReleaseWorkingFolder()
+{
+	if (fWorkingFolderName.IsEmpty()) { return; }
+
+	if (fDeleteWorkingFolder) { fWorkingFolder->DeleteOnDisk(); }
+
+	std::lock_guard<std::mutex> lock(fWorkingFoldersMutex);
+	fWorkingFoldersInUse.erase(fWorkingFolderName);
+	fWorkingFolderName.Clear();
+}
+
 bool GdtfFixture::ImportFromZip(IZIPFilePtr& zipfile)
 {
 	ASSERTN(kEveryone, __ERROR_CONTAINER_POINTER == nullptr);
@@ -9407,6 +9436,7 @@ GdtfFixture::GdtfFixture()
 	fThumbnailOffsetX 		= 0;
 	fThumbnailOffsetY 		= 0;
 	fReaded					= false;
+	fDeleteWorkingFolder	= false;
 	fHasLinkedGuid			= false;     
 	fNoFeature				= nullptr;   
 	fCanHaveChildren 		= false;
@@ -9431,6 +9461,7 @@ GdtfFixture::~GdtfFixture()
 		IFileIdentifierPtr file = fLocalFiles[i];
 		file->DeleteOnDisk();
 	}
+	ReleaseWorkingFolder();
 
 	//Delete buffers
 	for (auto it = fFileBuffers.begin(); it != fFileBuffers.end(); it++)
diff --git a/src/GDTFManager.h b/src/GDTFManager.h
index 3c94360..9ba9993 100644
--- a/src/GDTFManager.h
+++ b/src/GDTFManager.h
@@ -2838,6 +2838,8 @@ namespace SceneData
 		TXStringArray 							fLocalFilesFullPath;
 		bool									fReaded;
 		IFolderIdentifierPtr					fWorkingFolder;
+		TXString								fWorkingFolderName;
+		bool									fDeleteWorkingFolder;
         TGdtfParsingErrorArray					fParsingErrors;
 
 		size_t									fTotalNodesCount = 0;
@@ -3018,6 +3020,7 @@ namespace SceneData
 	private:
 		bool									ImportFromZip(IZIPFilePtr& zipfile);
 		void 									PrepareWorkingFolder(TXString folderName);
+		void 									ReleaseWorkingFolder();
 		void									GetFileNodesCount(const IXMLFileNodePtr& rootNode);
 
 	public:
-- 
2.43.0


From e05025ed7cfde001c526a4e8c8a022733cc4daef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:42 +0000
Subject: [PATCH 88/96] fix: mDNS packets are read within their bounds

---
 mdns_cpp/src/mdns.h | 45 +++++++++++++++++++++++++++++++++++----------
 1 file changed, 35 insertions(+), 10 deletions(-)

diff --git a/mdns_cpp/src/mdns.h b/mdns_cpp/src/mdns.h
index e0af574..b33ed93 100644
--- a/mdns_cpp/src/mdns.h
+++ b/mdns_cpp/src/mdns.h
@@ -37,6 +37,7 @@ extern "C" {
 #endif
 
 #define MDNS_INVALID_POS ((size_t)-1)
+#define MDNS_MAX_SUBSTRINGS 128
 
 #define MDNS_STRING_CONST(s) (s), (sizeof((s)) - 1)
 #define MDNS_STRING_FORMAT(s) (int)((s).length), s.str
@@ -407,11 +408,14 @@ static mdns_string_pair_t
 mdns_get_next_substring(const void* rawdata, size_t size, size_t offset) {
 	const uint8_t* buffer = (const uint8_t*)rawdata;
 	mdns_string_pair_t pair = {MDNS_INVALID_POS, 0, 0};
+	if (offset >= size)
+		return pair;
 	if (!buffer[offset]) {
 		pair.offset = offset;
 		return pair;
 	}
-	if (mdns_is_string_ref(buffer[offset])) {
+	int recursion = 0;
+	while (mdns_is_string_ref(buffer[offset])) {
 		if (size < offset + 2)
 			return pair;
 
@@ -420,6 +424,8 @@ mdns_get_next_substring(const void* rawdata, size_t size, size_t offset) {
 			return pair;
 
 		pair.ref = 1;
+		if (++recursion > 16)
+			return pair;
 	}
 
 	size_t length = (size_t)buffer[offset++];
@@ -436,9 +442,10 @@ static int
 mdns_string_skip(const void* buffer, size_t size, size_t* offset) {
 	size_t cur = *offset;
 	mdns_string_pair_t substr;
+	unsigned int counter = 0;
 	do {
 		substr = mdns_get_next_substring(buffer, size, cur);
-		if (substr.offset == MDNS_INVALID_POS)
+		if ((substr.offset == MDNS_INVALID_POS) || (counter++ > MDNS_MAX_SUBSTRINGS))
 			return 0;
 		if (substr.ref) {
 			*offset = cur + 2;
@@ -460,10 +467,12 @@ mdns_string_equal(const void* buffer_lhs, size_t size_lhs, size_t* ofs_lhs, cons
 	size_t rhs_end = MDNS_INVALID_POS;
 	mdns_string_pair_t lhs_substr;
 	mdns_string_pair_t rhs_substr;
+	unsigned int counter = 0;
 	do {
 		lhs_substr = mdns_get_next_substring(buffer_lhs, size_lhs, lhs_cur);
 		rhs_substr = mdns_get_next_substring(buffer_rhs, size_rhs, rhs_cur);
-		if ((lhs_substr.offset == MDNS_INVALID_POS) || (rhs_substr.offset == MDNS_INVALID_POS))
+		if ((lhs_substr.offset == MDNS_INVALID_POS) || (rhs_substr.offset == MDNS_INVALID_POS) ||
+		    (counter++ > MDNS_MAX_SUBSTRINGS))
 			return 0;
 		if (lhs_substr.length != rhs_substr.length)
 			return 0;
@@ -499,9 +508,10 @@ mdns_string_extract(const void* buffer, size_t size, size_t* offset, char* str,
 	result.length = 0;
 	char* dst = str;
 	size_t remain = capacity;
+	unsigned int counter = 0;
 	do {
 		substr = mdns_get_next_substring(buffer, size, cur);
-		if (substr.offset == MDNS_INVALID_POS)
+		if ((substr.offset == MDNS_INVALID_POS) || (counter++ > MDNS_MAX_SUBSTRINGS))
 			return result;
 		if (substr.ref && (end == MDNS_INVALID_POS))
 			end = cur + 2;
@@ -600,7 +610,10 @@ mdns_records_parse(int sock, const struct sockaddr* from, size_t addrlen, const
 	int do_callback = (callback ? 1 : 0);
 	for (size_t i = 0; i < records; ++i) {
 		size_t name_offset = *offset;
-		mdns_string_skip(buffer, size, offset);
+		if (!mdns_string_skip(buffer, size, offset) || (((*offset) + 10) > size)) {
+			*offset = size;
+			return parsed;
+		}
 		size_t name_length = (*offset) - name_offset;
 		const uint16_t* data = (const uint16_t*)((const char*)buffer + (*offset));
 
@@ -611,6 +624,10 @@ mdns_records_parse(int sock, const struct sockaddr* from, size_t addrlen, const
 		uint16_t length = ntohs(*data++);
 
 		*offset += 10;
+		if (length > (size - (*offset))) {
+			*offset = size;
+			return parsed;
+		}
 
 		if (do_callback) {
 			++parsed;
@@ -704,7 +721,7 @@ mdns_discovery_recv(int sock, void* buffer, size_t capacity, mdns_record_callbac
 	saddr->sa_len = sizeof(addr);
 #endif
 	int ret = recvfrom(sock, (char*)buffer, (mdns_size_t)capacity, 0, saddr, &addrlen);
-	if (ret <= 0)
+	if (ret < (int)sizeof(struct mdns_header_t))
 		return 0;
 
 	size_t data_size = (size_t)ret;
@@ -737,6 +754,8 @@ mdns_discovery_recv(int sock, void* buffer, size_t capacity, mdns_record_callbac
 		if (!mdns_string_equal(buffer, data_size, &ofs, mdns_services_query,
 		                       sizeof(mdns_services_query), &verify_ofs))
 			return 0;
+		if ((ofs + 4) > data_size)
+			return 0;
 		data = (uint16_t*)((char*)buffer + ofs);
 
 		uint16_t rtype = ntohs(*data++);
@@ -755,7 +774,11 @@ mdns_discovery_recv(int sock, void* buffer, size_t capacity, mdns_record_callbac
 		size_t name_offset = ofs;
 		int is_answer = mdns_string_equal(buffer, data_size, &ofs, mdns_services_query,
 		                                  sizeof(mdns_services_query), &verify_ofs);
+		if (!is_answer && !mdns_string_skip(buffer, data_size, &ofs))
+			return 0;
 		size_t name_length = ofs - name_offset;
+		if ((ofs + 10) > data_size)
+			return 0;
 		data = (uint16_t*)((char*)buffer + ofs);
 
 		uint16_t rtype = ntohs(*data++);
@@ -763,7 +786,7 @@ mdns_discovery_recv(int sock, void* buffer, size_t capacity, mdns_record_callbac
 		uint32_t ttl = ntohl(*(uint32_t*)(void*)data);
 		data += 2;
 		uint16_t length = ntohs(*data++);
-		if (length >= (data_size - ofs))
+		if (length > (data_size - (ofs + 10)))
 			return 0;
 
 		if (is_answer && do_callback) {
@@ -798,7 +821,7 @@ mdns_socket_listen(int sock, void* buffer, size_t capacity, mdns_record_callback
 	saddr->sa_len = sizeof(addr);
 #endif
 	int ret = recvfrom(sock, (char*)buffer, (mdns_size_t)capacity, 0, saddr, &addrlen);
-	if (ret <= 0)
+	if (ret < (int)sizeof(struct mdns_header_t))
 		return 0;
 
 	size_t data_size = (size_t)ret;
@@ -829,6 +852,8 @@ mdns_socket_listen(int sock, void* buffer, size_t capacity, mdns_record_callback
 			if (!mdns_string_skip(buffer, data_size, &offset))
 				break;
 		}
+		if ((offset + 4) > data_size)
+			break;
 		size_t length = offset - question_offset;
 		data = (uint16_t*)((char*)buffer + offset);
 
@@ -947,7 +972,7 @@ mdns_query_recv(int sock, void* buffer, size_t capacity, mdns_record_callback_fn
 	saddr->sa_len = sizeof(addr);
 #endif
 	int ret = recvfrom(sock, (char*)buffer, (mdns_size_t)capacity, 0, saddr, &addrlen);
-	if (ret <= 0)
+	if (ret < (int)sizeof(struct mdns_header_t))
 		return 0;
 
 	size_t data_size = (size_t)ret;
@@ -971,7 +996,7 @@ mdns_query_recv(int sock, void* buffer, size_t capacity, mdns_record_callback_fn
 	int i;
 	for (i = 0; i < questions; ++i) {
 		size_t ofs = (size_t)((char*)data - (char*)buffer);
-		if (!mdns_string_skip(buffer, data_size, &ofs))
+		if (!mdns_string_skip(buffer, data_size, &ofs) || ((ofs + 4) > data_size))
 			return 0;
 		data = (uint16_t*)((char*)buffer + ofs);
 		uint16_t rtype = ntohs(*data++);
-- 
2.43.0


From d85674a217d0eaaad3ff1ff8229094b9a849c614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:52 +0000
Subject: [PATCH 89/96] fix: mDNS search assigns text records to the service
 they were sent with

---
 mdns_cpp/include/mdns_cpp/mdns.hpp |  4 +++-
 mdns_cpp/src/mdns.cpp              | 21 ++++++++++++---------
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/mdns_cpp/include/mdns_cpp/mdns.hpp b/mdns_cpp/include/mdns_cpp/mdns.hpp
index 90c3f65..22dfbac 100644
--- a/mdns_cpp/include/mdns_cpp/mdns.hpp
+++ b/mdns_cpp/include/mdns_cpp/mdns.hpp
@@ -35,9 +35,10 @@ struct unsorted_query_part_t {
   std::string addr;
   std::string canonicalName;
   T data;
+  size_t packet = 0;
 
   unsorted_query_part_t() = default;
-  unsorted_query_part_t(const std::string& addr, const std::string& canonicalName, const T& data): addr(addr), canonicalName(canonicalName), data(data) {};
+  unsorted_query_part_t(const std::string& addr, const std::string& canonicalName, const T& data, size_t packet): addr(addr), canonicalName(canonicalName), data(data), packet(packet) {};
 
   bool operator==(const unsorted_query_part_t<T>& o) const{return addr == o.addr && canonicalName == o.canonicalName && data == o.data;};
 };
@@ -52,6 +53,7 @@ struct srv_record_t
   bool operator==(const srv_record_t& o) const {return port == o.port && name == o.name;};
 };
 struct unsorted_query_t {
+  size_t packet = 0; // counts the packets received
   std::vector<unsorted_query_part_t<srv_record_t>> srvRecords;
   std::vector<unsorted_query_part_t<std::string>> txtRecords;
   std::vector<unsorted_query_part_t<std::string>> aRecords;
diff --git a/mdns_cpp/src/mdns.cpp b/mdns_cpp/src/mdns.cpp
index 2126d5f..13cb740 100644
--- a/mdns_cpp/src/mdns.cpp
+++ b/mdns_cpp/src/mdns.cpp
@@ -255,7 +255,7 @@ static int query_callback(int sock, const struct sockaddr *from, size_t addrlen,
   if (rtype == MDNS_RECORDTYPE_PTR) 
   {
     mdns_string_t namestr = mdns_record_parse_ptr(data, size, record_offset, record_length, namebuffer, sizeof(namebuffer));
-    queryRes.ptrRecords.emplace_back(fromaddrstr, canonicalName, MDNS_STRING_FORMAT_STD(namestr));
+    queryRes.ptrRecords.emplace_back(fromaddrstr, canonicalName, MDNS_STRING_FORMAT_STD(namestr), queryRes.packet);
   }
 
   if (rtype == MDNS_RECORDTYPE_SRV) 
@@ -265,26 +265,26 @@ static int query_callback(int sock, const struct sockaddr *from, size_t addrlen,
     queryRes.srvRecords.emplace_back(fromaddrstr, canonicalName, srv_record_t{
       srv.port,
       MDNS_STRING_FORMAT_STD(srv.name)
-    });
+    }, queryRes.packet);
   } 
   else if (rtype == MDNS_RECORDTYPE_A) 
   {
     struct sockaddr_in addr;
     mdns_record_parse_a(data, size, record_offset, record_length, &addr);
     std::string ip = ipv4AddressToString(namebuffer, sizeof(namebuffer), &addr, sizeof(addr));
-    queryRes.aRecords.emplace_back(fromaddrstr, canonicalName, std::move(ip));
+    queryRes.aRecords.emplace_back(fromaddrstr, canonicalName, std::move(ip), queryRes.packet);
   } 
   else if (rtype == MDNS_RECORDTYPE_AAAA) 
   {
     struct sockaddr_in6 addr;
     mdns_record_parse_aaaa(data, size, record_offset, record_length, &addr);
     std::string ip = ipv6AddressToString(namebuffer, sizeof(namebuffer), &addr, sizeof(addr));
-    queryRes.aaaaRecords.emplace_back(fromaddrstr, canonicalName, std::move(ip));
+    queryRes.aaaaRecords.emplace_back(fromaddrstr, canonicalName, std::move(ip), queryRes.packet);
   } 
   else if (rtype == MDNS_RECORDTYPE_TXT) 
   {
     std::string txtString((const char*)data + record_offset, record_length);
-    queryRes.txtRecords.emplace_back(fromaddrstr, canonicalName, std::move(txtString));
+    queryRes.txtRecords.emplace_back(fromaddrstr, canonicalName, std::move(txtString), queryRes.packet);
   }
 
 
@@ -526,6 +526,7 @@ QueryResList mDNS::executeQuery2(const std::string &service) {
       if (res > 0) {
         for (int isock = 0; isock < num_sockets; ++isock) {
           if (FD_ISSET(sockets[isock], &readfs)) {
+            queryRes.packet++;
             mdns_query_recv(sockets[isock], buffer, capacity, query_callback, user_data, query_id[isock]);
           }
         }
@@ -581,11 +582,14 @@ QueryResList mDNS::executeQuery2(const std::string &service) {
     outItem.mdnsAddress = it->addr;
     outItem.port = it->data.port;
 
+    // several stations of one host may have the same or similar names, so prefer the record with the very name, sent with the service
+    int bestTxt = 0;
     for(auto& t : queryRes.txtRecords)
     {
       if(testQueryPart(t, *it)){
-        outItem.txt = t.data;
-        break;
+        int match = 1;
+        if(t.canonicalName == it->canonicalName) {match = (t.packet == it->packet) ? 3 : 2;}
+        if(match > bestTxt) {outItem.txt = t.data; bestTxt = match;}
       }
     }
 
@@ -605,9 +609,8 @@ QueryResList mDNS::executeQuery2(const std::string &service) {
 
     for(auto& t : queryRes.ptrRecords)
     {
-      if(testQueryPart(t, *it)){
+      if(testQueryPart(t, *it) && (outItem.service_name.empty() || t.data == it->canonicalName)){
         outItem.service_name = t.data;
-        break;
       }
     }
 
-- 
2.43.0


From adfb6fbd1de664a226367d3bd4358e4ab3eaf018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:04 +0000
Subject: [PATCH 90/96] fix: mDNS answers carry text records of more than 255
 bytes

---
 mdns_cpp/src/mdns.cpp | 2 +-
 mdns_cpp/src/mdns.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdns_cpp/src/mdns.cpp b/mdns_cpp/src/mdns.cpp
index 13cb740..2457b96 100644
--- a/mdns_cpp/src/mdns.cpp
+++ b/mdns_cpp/src/mdns.cpp
@@ -314,7 +314,7 @@ int service_callback(int sock, const struct sockaddr *from, size_t addrlen, mdns
     const char dns_sd[] = "_services._dns-sd._udp.local.";
     const ServiceRecord *service_record = (const ServiceRecord *)user_data;
     const size_t service_length = strlen(service_record->service);
-    char sendbuffer[512] = {0};
+    char sendbuffer[2048] = {0};
 
     if ((service.length == (sizeof(dns_sd) - 1)) && (strncmp(service.str, dns_sd, sizeof(dns_sd) - 1) == 0)) {
       MDNS_LOG << "  --> answer " << service_record->service << " \n";
diff --git a/mdns_cpp/src/mdns.h b/mdns_cpp/src/mdns.h
index b33ed93..5eaca53 100644
--- a/mdns_cpp/src/mdns.h
+++ b/mdns_cpp/src/mdns.h
@@ -1029,7 +1029,7 @@ mdns_query_answer(int sock, const void* address, size_t address_size, void* buff
 	int unicast = (address_size ? 1 : 0);
 	int use_ipv4 = (ipv4 != 0);
 	int use_ipv6 = (ipv6 != 0);
-	int use_txt = (txt && txt_length && (txt_length <= 255));
+	int use_txt = (txt && txt_length && (txt_length <= 65535));
 
 	uint16_t question_rclass = (unicast ? MDNS_UNICAST_RESPONSE : 0) | MDNS_CLASS_IN;
 	uint16_t rclass = (unicast ? MDNS_CACHE_FLUSH : 0) | MDNS_CLASS_IN;
-- 
2.43.0


From 454fb3bd60033631cd009b7919715cb408296083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:25 +0000
Subject: [PATCH 91/96] fix: mDNS names with labels of more than 63 bytes are
 not sent

---
 mdns_cpp/src/mdns.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mdns_cpp/src/mdns.h b/mdns_cpp/src/mdns.h
index 5eaca53..744d496 100644
--- a/mdns_cpp/src/mdns.h
+++ b/mdns_cpp/src/mdns.h
@@ -556,7 +556,7 @@ mdns_string_make(void* data, size_t capacity, const char* name, size_t length) {
 	while ((last_pos < length) &&
 	       ((pos = mdns_string_find(name, length, '.', last_pos)) != MDNS_INVALID_POS)) {
 		size_t sublength = pos - last_pos;
-		if (sublength < remain) {
+		if ((sublength < remain) && (sublength < 64)) {
 			*dest = (unsigned char)sublength;
 			memcpy(dest + 1, name + last_pos, sublength);
 			dest += sublength + 1;
@@ -568,7 +568,7 @@ mdns_string_make(void* data, size_t capacity, const char* name, size_t length) {
 	}
 	if (last_pos < length) {
 		size_t sublength = length - last_pos;
-		if (sublength < remain) {
+		if ((sublength < remain) && (sublength < 64)) {
 			*dest = (unsigned char)sublength;
 			memcpy(dest + 1, name + last_pos, sublength);
 			dest += sublength + 1;
@@ -596,6 +596,8 @@ static void*
 mdns_string_make_with_ref(void* data, size_t capacity, const char* name, size_t length,
                           size_t ref_offset) {
 	void* remaindata = mdns_string_make(data, capacity, name, length);
+	if (!remaindata)
+		return 0;
 	capacity -= MDNS_POINTER_DIFF(remaindata, data);
 	if (!data || !capacity)
 		return 0;
-- 
2.43.0


From e71016f251064c15758f47c24673efed785d7b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:21 +0000
Subject: [PATCH 92/96] fix: a station announces itself on addresses that end
 in 127

---
 src/mvrxchange/CMVRxchangeService.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mvrxchange/CMVRxchangeService.cpp b/src/mvrxchange/CMVRxchangeService.cpp
index 41b0737..427b562 100644
--- a/src/mvrxchange/CMVRxchangeService.cpp
+++ b/src/mvrxchange/CMVRxchangeService.cpp
@@ -74,7 +74,7 @@ VCOMError VectorworksMVR::CMVRxchangeServiceImpl::ConnectToLocalService(const Co
 		// Bitmasking IP Address to check if it is 127.x.x.x
 		// We dont want to start the mDNS Server on loopback addresses
 		// If two programs on the same device want to connect, they can use one of the other interfaces as well
-		if((e.second & 4278190080) == 2130706432) {
+		if((ntohl(e.second) & 4278190080) == 2130706432) {
 			continue;
 		}
 	
-- 
2.43.0


From c3fe68b733533ee9010dae420c9c3cce2df3c7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:56 +0000
Subject: [PATCH 93/96] fix: report the offset of a break that is negative or
 does not fit

---
 src/XmlFileHelper.cpp | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/XmlFileHelper.cpp b/src/XmlFileHelper.cpp
index da085c8..608cc7c 100644
--- a/src/XmlFileHelper.cpp
+++ b/src/XmlFileHelper.cpp
@@ -4,6 +4,7 @@
 
 #include "Prefix/StdAfx.h"
 #include <cmath>
+#include <limits>
 using namespace VectorworksMVR::VWFC;
 
 #include "SceneDataExchange.h"
@@ -613,28 +614,34 @@ bool SceneData::GdtfConverter::ConvertDMXAdress(const TXString& value, const IXM
 
 	bool error = false;
 
+	// The address as it is written, it may not fit
+	const Sint64	maxAddress	= std::numeric_limits<DMXAddress>::max();
+	Sint64			absolute	= 0;
+
 	if(dotPos > 0){
-		Uint16 universe = value.Left(dotPos).atoi();
-		Uint16 address  = value.Right(value.GetLength() - dotPos - 1).atoi();
+		Sint64 universe = value.Left(dotPos).atoi();
+		Sint64 address  = value.Right(value.GetLength() - dotPos - 1).atoi();
+
+		absolute = (universe - 1) * 512 + address;
 
-		if (universe <= 0 || address <= 0 || address > 512)	
+		if (universe <= 0 || address <= 0 || address > 512 || absolute > maxAddress)	
 		{
 	    	ASSERTN(kEveryone, false);
 			error = true;
 		}
 
-		intValue = (universe - 1) * 512 + address;
-
 	}else{
-		intValue = value.atoi();
-    	ASSERTN(kEveryone, intValue > 0);
+		absolute = value.atoi();
+    	ASSERTN(kEveryone, absolute > 0);
 
-		if (intValue <= 0)	
+		if (absolute <= 0 || absolute > maxAddress)	
 		{
 			error = true;
 		}
 	}
 
+	intValue = (DMXAddress) absolute;
+
 	if(error){
 		GdtfParsingError error (GdtfDefines::EGdtfParsingError::eValueError_DmxAdressHasWrongValue, node);
         SceneData::GdtfFixture::AddError(error); 
-- 
2.43.0


From 602adcab74b14efa1f703180e32419807330bae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:57 +0000
Subject: [PATCH 94/96] fix: announce as many steps as the reading of a fixture
 reports

---
 src/GDTFManager.cpp | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/GDTFManager.cpp b/src/GDTFManager.cpp
index 055abd9..f42124b 100644
--- a/src/GDTFManager.cpp
+++ b/src/GDTFManager.cpp
@@ -8061,19 +8061,11 @@ bool GdtfFixture::ImportFromZip(IZIPFilePtr& zipfile)
 
 void GdtfFixture::GetFileNodesCount(const IXMLFileNodePtr& rootNode)
 {
+	// Every section is one completed node of the feedback, these two are only there when the file has them
 	IXMLFileNodePtr node;
-	rootNode->GetFirstChildNode( &node );
-
-	while ( node != nullptr )
-	{
-		fTotalNodesCount++;
-		if ( VCOM_FAILED(( node->GetNextSiblingNode( &node ))))
-		{
-			node = nullptr;
-		}
-	}
-
-	fTotalNodesCount--;
+	fTotalNodesCount = 6;
+	if ( VCOM_SUCCEEDED( rootNode->GetChildNode( XML_GDTF_Protocols, &node ) ) )					{ fTotalNodesCount++; }
+	if ( VCOM_SUCCEEDED( rootNode->GetChildNode( XML_GDTF_FixtureChildNodePhysicalDesrip, &node ) ) )	{ fTotalNodesCount++; }
 }
 
 /*static*/ void	GdtfFixture::AddError(const GdtfParsingError& error)
-- 
2.43.0


From c279f2e0fff42e4fabf8bd13abe1c53cc5fbbe43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:01 +0000
Subject: [PATCH 95/96] fix: store the cleaned name when a model, filter,
 macro, laser protocol or sub channel set is renamed

---
 src/Implementation/CGdtfDmxSubChannelSet.cpp | 2 +-
 src/Implementation/CGdtfFilter.cpp           | 2 +-
 src/Implementation/CGdtfLaserProtocol.cpp    | 2 +-
 src/Implementation/CGdtfMacro.cpp            | 2 +-
 src/Implementation/CGdtfModel.cpp            | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/Implementation/CGdtfDmxSubChannelSet.cpp b/src/Implementation/CGdtfDmxSubChannelSet.cpp
index d8673b5..44661bd 100644
--- a/src/Implementation/CGdtfDmxSubChannelSet.cpp
+++ b/src/Implementation/CGdtfDmxSubChannelSet.cpp
@@ -141,7 +141,7 @@ VectorworksMVR::VCOMError VectorworksMVR::CGdtfDmxSubChannelSetImpl::SetName(Mvr
 	TXString vwName ( name );
 	GdtfUtil::DoesNameContainInvalidChars( vwName );
 
-    fSubChannelSet->SetName(name);
+    fSubChannelSet->SetName(vwName);
 
    	return kVCOMError_NoError;    
 }
diff --git a/src/Implementation/CGdtfFilter.cpp b/src/Implementation/CGdtfFilter.cpp
index 237d761..8446dcc 100644
--- a/src/Implementation/CGdtfFilter.cpp
+++ b/src/Implementation/CGdtfFilter.cpp
@@ -45,7 +45,7 @@ VCOMError VCOM_CALLTYPE VectorworksMVR::CGdtfFilterImpl::SetName(MvrString name)
 	TXString nameStr( name );
 	GdtfUtil::DoesNameContainInvalidChars( nameStr );
 
-    fFilter->SetName(name);
+    fFilter->SetName(nameStr);
 
     return kVCOMError_NoError;   
 }
diff --git a/src/Implementation/CGdtfLaserProtocol.cpp b/src/Implementation/CGdtfLaserProtocol.cpp
index f2879d3..5c7c7ba 100644
--- a/src/Implementation/CGdtfLaserProtocol.cpp
+++ b/src/Implementation/CGdtfLaserProtocol.cpp
@@ -32,7 +32,7 @@ VectorworksMVR::VCOMError VectorworksMVR::CGdtfLaserProtocolImpl::SetName(MvrStr
 	TXString vwName ( name );
 	GdtfUtil::DoesNameContainInvalidChars( vwName );
 
-    fLaserProtocol->SetName(name);
+    fLaserProtocol->SetName(vwName);
 
    	return kVCOMError_NoError;    
 }
diff --git a/src/Implementation/CGdtfMacro.cpp b/src/Implementation/CGdtfMacro.cpp
index 05f2f46..494bb73 100644
--- a/src/Implementation/CGdtfMacro.cpp
+++ b/src/Implementation/CGdtfMacro.cpp
@@ -35,7 +35,7 @@ VectorworksMVR::VCOMError VectorworksMVR::CGdtfMacroImpl::SetName(MvrString name
 	TXString nameStr( name );
 	GdtfUtil::DoesNameContainInvalidChars( nameStr );
 
-    fMacro->SetName(name);
+    fMacro->SetName(nameStr);
 
     return kVCOMError_NoError;
 }
diff --git a/src/Implementation/CGdtfModel.cpp b/src/Implementation/CGdtfModel.cpp
index 8db4bb5..9f1fdc5 100644
--- a/src/Implementation/CGdtfModel.cpp
+++ b/src/Implementation/CGdtfModel.cpp
@@ -251,7 +251,7 @@ VectorworksMVR::VCOMError VectorworksMVR::CGdtfModelImpl::SetName(MvrString name
 	TXString vwName ( name );
 	GdtfUtil::DoesNameContainInvalidChars( vwName );
 
-    fModel->SetName(name);
+    fModel->SetName(vwName);
 
    	return kVCOMError_NoError;   
 }
-- 
2.43.0


From b20d540579469c114288f66df01ff7cc086a6f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:04 +0000
Subject: [PATCH 96/96] fix: set the model of a geometry in SetModel

---
 src/Implementation/CGdtfGeometry.cpp | 51 ++++++----------------------
 1 file changed, 11 insertions(+), 40 deletions(-)

diff --git a/src/Implementation/CGdtfGeometry.cpp b/src/Implementation/CGdtfGeometry.cpp
index 5eda77a..5a8bea2 100644
--- a/src/Implementation/CGdtfGeometry.cpp
+++ b/src/Implementation/CGdtfGeometry.cpp
@@ -520,46 +520,17 @@ VectorworksMVR::VCOMError VectorworksMVR::CGdtfGeometryImpl::SetName(MvrString n
 
 VectorworksMVR::VCOMError VectorworksMVR::CGdtfGeometryImpl::SetModel(IGdtfModel ** model)
 {
-    // Check Data	
-    if( ! fGeometry) return kVCOMError_NotInitialized;
-    
-	//---------------------------------------------------------------------------
-	// Initialize Object
-	SceneData::GdtfModel*	gdtfModel = fGeometry->GetModelRef();
-	if ( ! gdtfModel)	{ return kVCOMError_NotSet; }
-	
-    CGdtfModelImpl*			pModelObj = nullptr;
-    
-    // Query Interface
-    if (VCOM_SUCCEEDED(VWQueryInterface(IID_GdtfModel, (IVWUnknown**) & pModelObj)))
-    {
-        // Check Casting
-        CGdtfModelImpl* pResultInterface = static_cast<CGdtfModelImpl* >(pModelObj);
-        if (pResultInterface)
-        {
-            pResultInterface->SetPointer(gdtfModel);
-        }
-        else
-        {
-            pResultInterface->Release();
-            pResultInterface = nullptr;
-            return kVCOMError_NoInterface;
-        }
-    }
-    
-    //---------------------------------------------------------------------------
-    // Check Incoming Object
-    if (*model)
-    {
-        (*model)->Release();
-        *model		= NULL;
-    }
-    
-    //---------------------------------------------------------------------------
-    // Set Out Value
-    *model	= pModelObj;
-    
-    return kVCOMError_NoError;   
+    // Check Pointer
+    if ( ! fGeometry)           { return kVCOMError_NotInitialized; }
+    if ( ! model || ! *model)   { return kVCOMError_InvalidArg; }
+
+    // Cast
+    CGdtfModelImpl* modelImpl = static_cast<CGdtfModelImpl*>(*model);
+
+    // Set Value
+    fGeometry->SetModel(modelImpl->GetPointer());
+
+    return kVCOMError_NoError;
 }
     
 
-- 
2.43.0

