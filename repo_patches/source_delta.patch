From cf1e087d6cc1b42ed3bb13c437a5098a85898f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:39 +0000
Subject: [PATCH 01/56] fix: write xal:LocalityName back when serializing
 xal:Locality

---
 src/kml/dom/xal.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/kml/dom/xal.cc b/src/kml/dom/xal.cc
index 08f597e..cc8ea07 100644
--- a/src/kml/dom/xal.cc
+++ b/src/kml/dom/xal.cc
@@ -164,6 +164,9 @@ void XalLocality::AddElement(const ElementPtr& element) {
 
 void XalLocality::Serialize(Serializer& serializer) const {
   ElementSerializer element_serializer(*this, serializer);
+  if (has_localityname()) {
+    serializer.SaveFieldById(Type_xalLocalityName, get_localityname());
+  }
   if (has_thoroughfare()) {
     serializer.SaveElement(get_thoroughfare());
   }
-- 
2.43.0


From a735a0ff65690a466149f99fa278afd2c65032ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:13 +0000
Subject: [PATCH 02/56] fix: keep misplaced children and unknown attributes of
 coordinates, Snippet and SimpleData

---
 src/kml/dom/extendeddata.cc |  2 +-
 src/kml/dom/geometry.cc     | 11 +++++++----
 src/kml/dom/snippet.cc      |  7 ++++++-
 3 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/kml/dom/extendeddata.cc b/src/kml/dom/extendeddata.cc
index 83c2d28..bf91304 100644
--- a/src/kml/dom/extendeddata.cc
+++ b/src/kml/dom/extendeddata.cc
@@ -69,7 +69,7 @@ void SimpleData::AddElement(const ElementPtr& element) {
   if (!element) {
     return;
   }
-  if (element->Type() == Type_SimpleData) {
+  if (element.get() == this) {
     set_text(get_char_data());
   } else {
     // We have a known KML element inside <SimpleData> and need to store it.
diff --git a/src/kml/dom/geometry.cc b/src/kml/dom/geometry.cc
index ed43273..b559bc8 100644
--- a/src/kml/dom/geometry.cc
+++ b/src/kml/dom/geometry.cc
@@ -177,18 +177,21 @@ void Coordinates::Parse(const string& char_data) {
 
 // Coordinates essentially parses itself.
 void Coordinates::AddElement(const ElementPtr& element) {
-  Parse(get_char_data());
+  if (element.get() == this) {
+    Parse(get_char_data());
+  } else if (element) {
+    // A known KML element inside <coordinates>: preserve it as misplaced.
+    Element::AddElement(element);
+  }
 }
 
 void Coordinates::Serialize(Serializer& serializer) const {
-  Attributes dummy;
-  serializer.BeginById(Type(), dummy);
+  ElementSerializer element_serializer(*this, serializer);
   serializer.BeginElementArray(Type(), coordinates_array_.size());
   for (size_t i = 0; i < coordinates_array_.size(); ++i) {
     serializer.SaveVec3(coordinates_array_[i]);
   }
   serializer.EndElementArray(Type_coordinates);
-  serializer.End();
 }
 
 void Coordinates::Accept(Visitor* visitor) {
diff --git a/src/kml/dom/snippet.cc b/src/kml/dom/snippet.cc
index e5b104a..294be5e 100644
--- a/src/kml/dom/snippet.cc
+++ b/src/kml/dom/snippet.cc
@@ -64,7 +64,12 @@ void SnippetCommon::AddElement(const ElementPtr& element) {
   if (!element) {
     return;
   }
-  set_text(get_char_data());
+  if (element.get() == this) {
+    set_text(get_char_data());
+  } else {
+    // A known KML element inside a snippet: preserve it as misplaced.
+    Element::AddElement(element);
+  }
 }
 
 void SnippetCommon::Serialize(Serializer& serializer) const {
-- 
2.43.0


From 306eafc79e0acff1090b941cbf6ade4ff65ddc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:36 +0000
Subject: [PATCH 03/56] fix: write the style selector set on a Document through
 the Feature interface

---
 src/kml/dom/document.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/kml/dom/document.cc b/src/kml/dom/document.cc
index cf1fa50..4fae64a 100644
--- a/src/kml/dom/document.cc
+++ b/src/kml/dom/document.cc
@@ -53,6 +53,10 @@ void Document::AddElement(const ElementPtr& element) {
 void Document::Serialize(Serializer& serializer) const {
   ElementSerializer element_serializer(*this, serializer);
   Feature::SerializeBeforeStyleSelector(serializer);
+  // The style selector set through the Feature interface, if there is one.
+  if (has_styleselector()) {
+    serializer.SaveElementGroup(get_styleselector(), Type_StyleSelector);
+  }
   serializer.SaveElementGroupArray(styleselector_array_, Type_StyleSelector);
   Feature::SerializeAfterStyleSelector(serializer);
   serializer.SaveElementArray(schema_array_);
-- 
2.43.0


From adfbecd9f4bdf4b35b26911b04d4e59dd34921c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:18 +0000
Subject: [PATCH 04/56] fix: AsGxSimpleArrayField no longer accepts a
 SimpleField

GxSimpleArrayField inherited SimpleField::ElementType(), so the cast compared
against Type_SimpleField and static-cast any SimpleField to the derived class.
---
 src/kml/dom/schema.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/kml/dom/schema.h b/src/kml/dom/schema.h
index 4d26b00..6db7f94 100644
--- a/src/kml/dom/schema.h
+++ b/src/kml/dom/schema.h
@@ -106,6 +106,9 @@ class SimpleField : public BasicElement<Type_SimpleField> {
 class GxSimpleArrayField : public SimpleField {
  public:
   virtual ~GxSimpleArrayField();
+  // Without this SimpleField's would be inherited and AsGxSimpleArrayField
+  // would accept any SimpleField.
+  static KmlDomType ElementType() { return Type_GxSimpleArrayField; }
   virtual KmlDomType Type() const { return Type_GxSimpleArrayField; }
   virtual bool IsA(KmlDomType type) const {
     return type == Type_GxSimpleArrayField || SimpleField::IsA(type);
-- 
2.43.0


From e38b4e6a7d78118f6ac602ceade2692f19c996a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:51 +0000
Subject: [PATCH 05/56] fix: kmlDomTypeToString names every gx: element type

The string table lacked 13 of the gx: types, so later ids got the wrong name
and the last ones were read past the end of the table.
---
 src/kml/dom/kml22.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/kml/dom/kml22.h b/src/kml/dom/kml22.h
index fa005e7..56e431d 100644
--- a/src/kml/dom/kml22.h
+++ b/src/kml/dom/kml22.h
@@ -482,19 +482,31 @@ typedef enum {
      "Type_GxAnimatedUpdate",
      "Type_GxFlyTo",
      "Type_GxLatLonQuad",
+     "Type_GxMultiTrack",
      "Type_GxPlaylist",
+     "Type_GxSimpleArrayData",
+     "Type_GxSimpleArrayField",
      "Type_GxSoundCue",
      "Type_GxTimeSpan",
      "Type_GxTimeStamp",
      "Type_GxTour",
      "Type_GxTourControl",
+     "Type_GxTrack",
      "Type_GxWait",
 
      "Type_GxAltitudeMode",
+     "Type_GxAngles",
      "Type_GxBalloonVisibility",
+     "Type_GxCoord",
      "Type_GxDuration",
      "Type_GxFlyToMode",
+     "Type_GxH",
+     "Type_GxInterpolate",
      "Type_GxPlayMode",
+     "Type_GxValue",
+     "Type_GxW",
+     "Type_GxX",
+     "Type_GxY",
 
      "Type_Invalid"
    };
-- 
2.43.0


From fbd4ba43a95b5f5acb490799f07bf0193b0350e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:37 +0000
Subject: [PATCH 06/56] fix: Xsd::EnumValue of an out-of-range value is empty,
 not a read past the list

set_altitudemode(3) followed by serializing threw from std::string(NULL) and
larger values read out of bounds.
---
 src/kml/dom/xsd.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/kml/dom/xsd.cc b/src/kml/dom/xsd.cc
index 628ddfc..b55256e 100644
--- a/src/kml/dom/xsd.cc
+++ b/src/kml/dom/xsd.cc
@@ -108,7 +108,13 @@ const int size = sizeof(kKml22Enums)/sizeof(XsdSimpleTypeEnum);
 
   for (int i = 0; i < size; ++i) {
     if (kKml22Enums[i].type_id == type_id) {
-      return kKml22Enums[i].enum_value_list[enum_id];
+      // The list is NULL-terminated: an enum_id past its end has no value.
+      const char** enum_value_list = kKml22Enums[i].enum_value_list;
+      for (int j = 0; enum_value_list[j]; ++j) {
+        if (j == enum_id) {
+          return enum_value_list[j];
+        }
+      }
     }
   }
   return string();
-- 
2.43.0


From 76041a8921ce7d17ccb415ae5d0991bcf983413d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:33 +0000
Subject: [PATCH 07/56] fix: CreateExpandedStrings replaces every occurrence of
 a key

The search resumed at the length of the key instead of that of the replacement,
skipping or rescanning text, and gave up after the first replacement when the
value contains the key.
---
 src/kml/base/string_util.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/kml/base/string_util.cc b/src/kml/base/string_util.cc
index a865922..2b513ed 100644
--- a/src/kml/base/string_util.cc
+++ b/src/kml/base/string_util.cc
@@ -46,15 +46,15 @@ string CreateExpandedStrings(const string& in,
   StringMap::const_iterator itr = string_map.begin();
   for (itr = string_map.begin(); itr != string_map.end(); ++itr)  {
     string candidate(start + itr->first + end);
+    if (candidate.empty()) {
+      continue;
+    }
     size_t start_pos = out.find(candidate);
     while (start_pos != string::npos) {
       out.replace(start_pos, candidate.size(), itr->second);
-      // Avoid an infinite loop if the value contains the key. Allow the first
-      // replacement to happen, then bail.
-      if (itr->second.find(itr->first) != string::npos) {
-        break;
-      }
-      start_pos = out.find(candidate, start_pos + candidate.size());
+      // Resume after the replacement: this finds every further occurrence and
+      // avoids an infinite loop if the value contains the key.
+      start_pos = out.find(candidate, start_pos + itr->second.size());
     }
   }
   return out;
-- 
2.43.0


From eecf6b692e456a83a8708e99fd10f4b2552eac78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:15 +0000
Subject: [PATCH 08/56] fix: attribute values are escaped when written

An attribute value holding &, < or a double quote made the written XML
ill-formed; tab, newline and carriage return were lost to normalization.
---
 src/kml/base/attributes.cc  |  2 +-
 src/kml/base/string_util.cc | 33 +++++++++++++++++++++++++++++++++
 src/kml/base/string_util.h  |  8 ++++++++
 3 files changed, 42 insertions(+), 1 deletion(-)

diff --git a/src/kml/base/attributes.cc b/src/kml/base/attributes.cc
index 5cc8508..f808b2b 100644
--- a/src/kml/base/attributes.cc
+++ b/src/kml/base/attributes.cc
@@ -78,7 +78,7 @@ void Attributes::Serialize(string* output) const {
       *output += " ";
       *output += iter.Data().first;
       *output += "=\"";
-      *output += iter.Data().second;
+      *output += EscapeXmlAttribute(iter.Data().second);
       *output += "\"";
     }
   }
diff --git a/src/kml/base/string_util.cc b/src/kml/base/string_util.cc
index 2b513ed..9ae86d5 100644
--- a/src/kml/base/string_util.cc
+++ b/src/kml/base/string_util.cc
@@ -60,6 +60,39 @@ string CreateExpandedStrings(const string& in,
   return out;
 }
 
+string EscapeXml(const string& text) {
+  string out;
+  out.reserve(text.size());
+  for (size_t i = 0; i < text.size(); ++i) {
+    switch (text[i]) {
+      case '&': out.append("&amp;"); break;
+      case '<': out.append("&lt;"); break;
+      case '>': out.append("&gt;"); break;
+      case '\'': out.append("&apos;"); break;
+      case '"': out.append("&quot;"); break;
+      // An XML parser normalizes this to a newline if it appears as is.
+      case '\r': out.append("&#13;"); break;
+      default: out.append(1, text[i]); break;
+    }
+  }
+  return out;
+}
+
+string EscapeXmlAttribute(const string& text) {
+  const string escaped = EscapeXml(text);
+  string out;
+  out.reserve(escaped.size());
+  for (size_t i = 0; i < escaped.size(); ++i) {
+    // An XML parser normalizes these to a space in an attribute value.
+    switch (escaped[i]) {
+      case '\t': out.append("&#9;"); break;
+      case '\n': out.append("&#10;"); break;
+      default: out.append(1, escaped[i]); break;
+    }
+  }
+  return out;
+}
+
 void SplitStringUsing(const string& input, const string& split_string,
                       std::vector<string>* output) {
   string iter = input;
diff --git a/src/kml/base/string_util.h b/src/kml/base/string_util.h
index 307d82b..cb7e528 100644
--- a/src/kml/base/string_util.h
+++ b/src/kml/base/string_util.h
@@ -83,6 +83,14 @@ string CreateExpandedStrings(const string& in,
                              const string& start,
                              const string& end);
 
+// Returns the given text with the characters reserved in XML replaced by
+// entity references such that it is legal as XML character data and reads
+// back as the given text.
+string EscapeXml(const string& text);
+
+// As EscapeXml(), for text used as the quoted value of an XML attribute.
+string EscapeXmlAttribute(const string& text);
+
 // This converts from string to any T of int, bool or double.
 template<typename T>
 void FromString(const string& in, T* out);
-- 
2.43.0


From 604df43a3680c7bc275aa00181829c7e4633b1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:19 +0000
Subject: [PATCH 09/56] fix: text holding ]]> or a CDATA section is written as
 it reads back

']]>' ended the CDATA section the text was wrapped in; in text holding a CDATA
section only the first & was escaped and quotes were escaped twice; a carriage
return was normalized away on reading.
---
 src/kml/dom/serializer.cc | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/kml/dom/serializer.cc b/src/kml/dom/serializer.cc
index ab25bae..6418174 100644
--- a/src/kml/dom/serializer.cc
+++ b/src/kml/dom/serializer.cc
@@ -36,16 +36,6 @@ using kmlbase::ToString;
 
 namespace kmldom {
 
-static string EnityEscapeXml(const string& xml) {
-  kmlbase::StringMap map;
-  map["&"] = "&amp;";
-  map["<"] = "&lt;";
-  map[">"] = "&gt;";
-  map["'"] = "&apos;";
-  map["\""] = "&quot;";
-  return kmlbase::CreateExpandedStrings(xml, map, "", "");
-}
-
 Serializer::Serializer() : xsd_(*Xsd::GetSchema()) {
 }
 
@@ -57,8 +47,12 @@ const string Serializer::MaybeQuoteString(const string& value) {
   // If there's a CDATA anywhere in this string, it must have been set through
   // the API (since the underlying XML parser will strip it out). We need to
   // entity-replace any reserved characters.
-  if (value.find("<![CDATA[") != string::npos) {
-    return EnityEscapeXml(value);
+  // The same goes for text a CDATA cannot hold: the end of a CDATA, and a
+  // carriage return which the XML parser would normalize to a newline.
+  if (value.find("<![CDATA[") != string::npos ||
+      value.find("]]>") != string::npos ||
+      value.find('\r') != string::npos) {
+    return kmlbase::EscapeXml(value);
   }
   // If the string contains any reserved characters (but does not have any
   // raw CDATA as checked above), wrap it in CDATA.
-- 
2.43.0


From 713ed4163f64225d6b5c1f63cf996643c009342e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:07 +0000
Subject: [PATCH 10/56] fix: a description inside an unknown element no longer
 derails the parse

Each </description> there decremented the counter StartElement had not
incremented; after two of them the next real description swallowed the rest of
the document.
---
 src/kml/dom/kml_handler.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kml/dom/kml_handler.cc b/src/kml/dom/kml_handler.cc
index 08e8625..ddf469c 100644
--- a/src/kml/dom/kml_handler.cc
+++ b/src/kml/dom/kml_handler.cc
@@ -210,7 +210,9 @@ void KmlHandler::EndElement(const string& name) {
   // inside <description> elements. Here we are checking to see if (1) we're
   // inside a closing </description> element and (2) if we're at the end of any
   // possible series of nested description elements.
-  if (name.length() == 11 && name == "description" && --in_description_ == 0) {
+  // A <description> inside an unknown element is not counted by StartElement.
+  if (in_description_ > 0 && name.length() == 11 && name == "description" &&
+      --in_description_ == 0) {
     skip_depth_--;
   }
 
-- 
2.43.0


From 209e03efc9affc209173f6b9163037cc885773a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:28 +0000
Subject: [PATCH 11/56] fix: unknown elements are kept as well-formed XML

expat replaces entities and CDATA before the content of an unknown element is
saved as a string; written back as is, &, < and quotes made the file
ill-formed.
---
 src/kml/dom/kml_handler.cc | 7 +++++--
 src/kml/dom/kml_handler.h  | 3 +++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/kml/dom/kml_handler.cc b/src/kml/dom/kml_handler.cc
index ddf469c..aab66be 100644
--- a/src/kml/dom/kml_handler.cc
+++ b/src/kml/dom/kml_handler.cc
@@ -330,7 +330,9 @@ bool KmlHandler::CallAddChildObservers(
 // <Placemark><Point><coordinates/></Point></Placemark>
 // <X><Point>foo<coordinates/>bar</Point></P> remains as-is.
 void KmlHandler::CharData(const string& s) {
-  char_data_.top().append(s);
+  // The XML of an unknown element is saved as is: put back the entities which
+  // expat replaced.  The content of <description> is text.
+  char_data_.top().append(in_unknown_element() ? kmlbase::EscapeXml(s) : s);
 }
 
 // As with STL pop() methods this is (potentially) destructive.  If the
@@ -357,7 +359,8 @@ void KmlHandler::InsertUnknownStartElement(const string& name,
     top.append(" ");
     top.append(atts.at(i));
     top.append("=\"");
-    top.append(atts.at(i+1));
+    top.append(in_description_ > 0 ? atts.at(i+1) :
+                                     kmlbase::EscapeXmlAttribute(atts.at(i+1)));
     top.append("\"");
   }
   top.append(">");
diff --git a/src/kml/dom/kml_handler.h b/src/kml/dom/kml_handler.h
index 95fde30..a48d0b8 100644
--- a/src/kml/dom/kml_handler.h
+++ b/src/kml/dom/kml_handler.h
@@ -115,6 +115,9 @@ private:
   unsigned int skip_depth_;
   unsigned int in_description_;
   unsigned int nesting_depth_;
+  bool in_unknown_element() const {
+    return skip_depth_ > 0 && in_description_ == 0;
+  }
   // TODO: these next four are for the purpose of handling old-style <Schema>
   // usage. Instead of creating these by default, we could move them into
   // a separate class created only when needed.
-- 
2.43.0


From 5109064bd3bbf5c1a59969017392a7edb2012e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:58 +0000
Subject: [PATCH 12/56] fix: old-style Schema documents no longer crash or
 mangle the tree

A Schema named like an enclosing element, or 'Schema' itself, made EndElement
dereference a null Placemark or Schema; an element nested in a child of an
old-style placemark unbalanced the element stack.
---
 src/kml/dom/kml_handler.cc | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/kml/dom/kml_handler.cc b/src/kml/dom/kml_handler.cc
index aab66be..bd87420 100644
--- a/src/kml/dom/kml_handler.cc
+++ b/src/kml/dom/kml_handler.cc
@@ -100,6 +100,14 @@ void KmlHandler::StartElement(const string& name,
     return;
   }
 
+  // Anything inside a child of an old Schema placemark is unknown.
+  if (in_old_schema_placemark_) {
+    char_data_.push(string());
+    InsertUnknownStartElement(name, attrs);
+    skip_depth_++;
+    return;
+  }
+
   // If we see <Schema parent=""> then we attempt to parse the old Schema
   // usage outlined in the header. The name of the schema is stored in the
   // old_schema_name_ string.
@@ -274,12 +282,18 @@ void KmlHandler::EndElement(const string& name) {
   // Handle the case of reaching the closing of an old-style </Schema>.
   if (!old_schema_name_.empty()) {
     if (name.length() == 6 && name == "Schema") {
-      HandleOldSchemaEndElement(AsSchema(child), old_schema_name_,
-                                &simplefield_name_vec_);
+      // With <Schema name="Schema"> this can be the Placemark substitute.
+      if (const SchemaPtr schema = AsSchema(child)) {
+        HandleOldSchemaEndElement(schema, old_schema_name_,
+                                  &simplefield_name_vec_);
+      }
     } else if (name == old_schema_name_) {
-      // Or that of its Placemark substitute.
-      HandleOldSchemaParentEndElement(AsPlacemark(child), old_schema_name_,
-                                      kml_factory_, simpledata_vec_);
+      // Or that of its Placemark substitute.  An element opened before its
+      // name was taken by the Schema is what it was.
+      if (const PlacemarkPtr placemark = AsPlacemark(child)) {
+        HandleOldSchemaParentEndElement(placemark, old_schema_name_,
+                                        kml_factory_, simpledata_vec_);
+      }
     }
   }
 
-- 
2.43.0


From c8882085165d970e3f05691be930cd487445852f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:02 +0000
Subject: [PATCH 13/56] fix: hotSpot and simple fields are visited under their
 own class

---
 src/kml/dom/element.cc | 4 ++++
 src/kml/dom/element.h  | 2 ++
 src/kml/dom/hotspot.cc | 4 ++++
 src/kml/dom/hotspot.h  | 2 ++
 4 files changed, 12 insertions(+)

diff --git a/src/kml/dom/element.cc b/src/kml/dom/element.cc
index aaceeb0..1060d39 100644
--- a/src/kml/dom/element.cc
+++ b/src/kml/dom/element.cc
@@ -223,4 +223,8 @@ bool Field::SetString(string* val) {
   return ret;
 }
 
+void Field::Accept(Visitor* visitor) {
+  visitor->VisitField(FieldPtr(this));
+}
+
 }  // namespace kmldom
diff --git a/src/kml/dom/element.h b/src/kml/dom/element.h
index 684b2c6..ef6cd24 100644
--- a/src/kml/dom/element.h
+++ b/src/kml/dom/element.h
@@ -315,6 +315,8 @@ class Field : public Element {
   // supplied false is returned, else true is returned and the val is set.
   bool SetString(string* val);
 
+  virtual void Accept(Visitor* visitor);
+
  private:
   const Xsd& xsd_;
   LIBKML_DISALLOW_EVIL_CONSTRUCTORS(Field);
diff --git a/src/kml/dom/hotspot.cc b/src/kml/dom/hotspot.cc
index 94dc5b1..bdf8cfb 100644
--- a/src/kml/dom/hotspot.cc
+++ b/src/kml/dom/hotspot.cc
@@ -31,4 +31,8 @@ HotSpot::HotSpot() {}
 
 HotSpot::~HotSpot() {}
 
+void HotSpot::Accept(Visitor* visitor) {
+  visitor->VisitHotSpot(HotSpotPtr(this));
+}
+
 }  // end namespace kmldom
diff --git a/src/kml/dom/hotspot.h b/src/kml/dom/hotspot.h
index 9ac1392..6403d1c 100644
--- a/src/kml/dom/hotspot.h
+++ b/src/kml/dom/hotspot.h
@@ -43,6 +43,8 @@ class HotSpot : public Vec2 {
     return type == Type_hotSpot || Vec2::IsA(type);
   }
 
+  virtual void Accept(Visitor* visitor);
+
  private:
   friend class KmlFactory;
   HotSpot();
-- 
2.43.0


From f56a1c0ee3dbc1972766aa66c5e85b6ea33f80a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:49 +0000
Subject: [PATCH 14/56] fix: visitors reach the Atom and xAL children of
 features

---
 src/kml/dom/atom.cc    | 18 ++++++++++++++++++
 src/kml/dom/atom.h     |  3 +++
 src/kml/dom/feature.cc |  9 +++++++++
 src/kml/dom/xal.cc     | 41 +++++++++++++++++++++++++++++++++++++++++
 src/kml/dom/xal.h      |  5 +++++
 5 files changed, 76 insertions(+)

diff --git a/src/kml/dom/atom.cc b/src/kml/dom/atom.cc
index 6a36481..f0a9311 100644
--- a/src/kml/dom/atom.cc
+++ b/src/kml/dom/atom.cc
@@ -224,6 +224,12 @@ void AtomCommon::Serialize(Serializer& serializer) const {
   serializer.SaveElementArray(link_array_);
 }
 
+void AtomCommon::AcceptChildren(VisitorDriver* driver) {
+  Element::AcceptChildren(driver);
+  Element::AcceptRepeated<AtomCategoryPtr>(&category_array_, driver);
+  Element::AcceptRepeated<AtomLinkPtr>(&link_array_, driver);
+}
+
 // <atom:entry>
 AtomEntry::AtomEntry()
   : has_summary_(false) {
@@ -259,6 +265,13 @@ void AtomEntry::Serialize(Serializer& serializer) const {
   }
 }
 
+void AtomEntry::AcceptChildren(VisitorDriver* driver) {
+  AtomCommon::AcceptChildren(driver);
+  if (has_content()) {
+    driver->Visit(get_content());
+  }
+}
+
 // <atom:feed>
 AtomFeed::AtomFeed() {
   set_xmlns(kmlbase::XMLNS_ATOM);
@@ -284,6 +297,11 @@ void AtomFeed::Serialize(Serializer& serializer) const {
   serializer.SaveElementArray(entry_array_);
 }
 
+void AtomFeed::AcceptChildren(VisitorDriver* driver) {
+  AtomCommon::AcceptChildren(driver);
+  Element::AcceptRepeated<AtomEntryPtr>(&entry_array_, driver);
+}
+
 // <atom:link>
 AtomLink::AtomLink()
   : has_href_(false),
diff --git a/src/kml/dom/atom.h b/src/kml/dom/atom.h
index 808a351..5937077 100644
--- a/src/kml/dom/atom.h
+++ b/src/kml/dom/atom.h
@@ -146,6 +146,7 @@ class AtomCommon : public Element {
   const AtomLinkPtr& get_link_array_at(size_t index) const {
     return link_array_[index];
   }
+  virtual void AcceptChildren(VisitorDriver* driver);
 
  protected:
   AtomCommon();
@@ -307,6 +308,7 @@ class AtomEntry : public AtomCommon {
   void clear_content() {
     set_content(NULL);
   }
+  virtual void AcceptChildren(VisitorDriver* driver);
 
  private:
   friend class KmlFactory;
@@ -343,6 +345,7 @@ class AtomFeed : public AtomCommon {
   const AtomEntryPtr& get_entry_array_at(size_t index) const {
     return entry_array_[index];
   }
+  virtual void AcceptChildren(VisitorDriver* driver);
 
  private:
   friend class KmlFactory;
diff --git a/src/kml/dom/feature.cc b/src/kml/dom/feature.cc
index 361eed0..b3a0321 100644
--- a/src/kml/dom/feature.cc
+++ b/src/kml/dom/feature.cc
@@ -211,6 +211,15 @@ void Feature::AcceptChildren(VisitorDriver* driver) {
   if (has_extendeddata()) {
     driver->Visit(get_extendeddata());
   }
+  if (has_atomauthor()) {
+    driver->Visit(get_atomauthor());
+  }
+  if (has_atomlink()) {
+    driver->Visit(get_atomlink());
+  }
+  if (has_xaladdressdetails()) {
+    driver->Visit(get_xaladdressdetails());
+  }
 }
 
 }  // namespace kmldom
diff --git a/src/kml/dom/xal.cc b/src/kml/dom/xal.cc
index cc8ea07..b257ee9 100644
--- a/src/kml/dom/xal.cc
+++ b/src/kml/dom/xal.cc
@@ -62,6 +62,13 @@ void XalAddressDetails::Serialize(Serializer& serializer) const {
   } 
 } 
 
+void XalAddressDetails::AcceptChildren(VisitorDriver* driver) {
+  Element::AcceptChildren(driver);
+  if (has_country()) {
+    driver->Visit(get_country());
+  }
+}
+
 // <xal:AdministrativeArea>
 XalAdministrativeArea::XalAdministrativeArea()
     : has_administrativeareaname_(false) {
@@ -102,6 +109,16 @@ void XalAdministrativeArea::Serialize(Serializer& serializer) const {
   }
 }
 
+void XalAdministrativeArea::AcceptChildren(VisitorDriver* driver) {
+  Element::AcceptChildren(driver);
+  if (has_locality()) {
+    driver->Visit(get_locality());
+  }
+  if (has_subadministrativearea()) {
+    driver->Visit(get_subadministrativearea());
+  }
+}
+
 // <xal:Country>
 XalCountry::XalCountry()
     : has_countrynamecode_(false) {
@@ -136,6 +153,13 @@ void XalCountry::Serialize(Serializer& serializer) const {
   }
 }
 
+void XalCountry::AcceptChildren(VisitorDriver* driver) {
+  Element::AcceptChildren(driver);
+  if (has_administrativearea()) {
+    driver->Visit(get_administrativearea());
+  }
+}
+
 // <xal:Locality>
 XalLocality::XalLocality()
     : has_localityname_(false) {
@@ -175,6 +199,16 @@ void XalLocality::Serialize(Serializer& serializer) const {
   }
 }
 
+void XalLocality::AcceptChildren(VisitorDriver* driver) {
+  Element::AcceptChildren(driver);
+  if (has_thoroughfare()) {
+    driver->Visit(get_thoroughfare());
+  }
+  if (has_postalcode()) {
+    driver->Visit(get_postalcode());
+  }
+}
+
 // <xal:PostalCode>
 XalPostalCode::XalPostalCode()
     : has_postalcodenumber_(false) {
@@ -236,6 +270,13 @@ void XalSubAdministrativeArea::Serialize(Serializer& serializer) const {
   }
 }
 
+void XalSubAdministrativeArea::AcceptChildren(VisitorDriver* driver) {
+  Element::AcceptChildren(driver);
+  if (has_locality()) {
+    driver->Visit(get_locality());
+  }
+}
+
 // <xal:Thoroughfare>
 XalThoroughfare::XalThoroughfare()
     : has_thoroughfarename_(false),
diff --git a/src/kml/dom/xal.h b/src/kml/dom/xal.h
index e58b02d..5b3e69c 100644
--- a/src/kml/dom/xal.h
+++ b/src/kml/dom/xal.h
@@ -68,6 +68,7 @@ class XalAddressDetails : public BasicElement<Type_XalAddressDetails> {
     SetComplexChild(country, &country_);
   }
   void clear_country() { set_country(NULL); }
+  virtual void AcceptChildren(VisitorDriver* driver);
 
  private:
   XalAddressDetails();
@@ -120,6 +121,7 @@ class XalAdministrativeArea : public BasicElement<Type_XalAdministrativeArea> {
     SetComplexChild(subadministrativearea, &subadministrativearea_);
   }
   void clear_subadministrativearea() { set_subadministrativearea(NULL); }
+  virtual void AcceptChildren(VisitorDriver* driver);
 
  private:
   XalAdministrativeArea();
@@ -161,6 +163,7 @@ class XalCountry : public BasicElement<Type_XalCountry> {
     SetComplexChild(administrativearea, &administrativearea_);
   }
   void clear_administrativearea() { set_administrativearea(NULL); }
+  virtual void AcceptChildren(VisitorDriver* driver);
 
  private:
   XalCountry();
@@ -211,6 +214,7 @@ class XalLocality : public BasicElement<Type_XalLocality> {
     SetComplexChild(postalcode, &postalcode_);
   }
   void clear_postalcode() { set_postalcode(NULL); }
+  virtual void AcceptChildren(VisitorDriver* driver);
 
  private:
   XalLocality();
@@ -286,6 +290,7 @@ class XalSubAdministrativeArea :
     SetComplexChild(locality, &locality_);
   }
   void clear_locality() { set_locality(NULL); }
+  virtual void AcceptChildren(VisitorDriver* driver);
 
  private:
   XalSubAdministrativeArea();
-- 
2.43.0


From a68f367ab8f9eb6c8e08e8ecda5f7a0407fee34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:06 +0000
Subject: [PATCH 15/56] fix: gx:Playlist becomes the parent of its tour
 primitives

---
 src/kml/dom/gx_tour.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kml/dom/gx_tour.cc b/src/kml/dom/gx_tour.cc
index 0322aa5..e1c9cf4 100644
--- a/src/kml/dom/gx_tour.cc
+++ b/src/kml/dom/gx_tour.cc
@@ -83,7 +83,7 @@ GxPlaylist::~GxPlaylist() {}
 
 void GxPlaylist::add_gx_tourprimitive(
     const GxTourPrimitivePtr& gx_tourprimitive) {
-  gx_tourprimitive_array_.push_back(gx_tourprimitive);
+  AddComplexChild(gx_tourprimitive, &gx_tourprimitive_array_);
 }
 
 size_t GxPlaylist::get_gx_tourprimitive_array_size() const {
-- 
2.43.0


From 45eab0904180c91c2f77182f49a4ffcc84cb51aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:12 +0000
Subject: [PATCH 16/56] fix: parsing an empty document reports an error

---
 src/kml/base/expat_parser.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kml/base/expat_parser.cc b/src/kml/base/expat_parser.cc
index 9a11720..7b5739c 100644
--- a/src/kml/base/expat_parser.cc
+++ b/src/kml/base/expat_parser.cc
@@ -143,7 +143,8 @@ bool ExpatParser::ParseInternalBuffer(size_t len, string* errors,
 // Private.
 bool ExpatParser::_ParseString(const string& xml, string* errors) {
   int xml_size = static_cast<int>(xml.size());
-  XML_Status status = XML_Parse(parser_, xml.c_str(), xml_size, xml_size);
+  // This is the whole document: even if it is empty it is the final buffer.
+  XML_Status status = XML_Parse(parser_, xml.c_str(), xml_size, XML_TRUE);
   if (status != XML_STATUS_OK && errors) {
     // This is the other half of XML_StopParser() which is our way of
     // stopping expat if the root element is not KML.
-- 
2.43.0


From 115eaef39a8a18102b57e4485c3cea936a5ee382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:44 +0000
Subject: [PATCH 17/56] fix: a namespace-translating handler shares its parser
 with the handler behind it

---
 src/kml/base/expat_handler.h     | 3 ++-
 src/kml/base/expat_handler_ns.cc | 5 +++++
 src/kml/base/expat_handler_ns.h  | 3 +++
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/kml/base/expat_handler.h b/src/kml/base/expat_handler.h
index da7c026..b3b2a57 100644
--- a/src/kml/base/expat_handler.h
+++ b/src/kml/base/expat_handler.h
@@ -36,6 +36,7 @@ class Attributes;
 // This declares the pure virtual ExpatHandler interface.
 class ExpatHandler {
 public:
+  ExpatHandler() : parser_(NULL) {}
   virtual ~ExpatHandler() {}
   virtual void StartElement(const string& name,
                             const StringVector& atts) = 0;
@@ -47,7 +48,7 @@ public:
                               const string& uri) {}
   virtual void EndNamespace(const string& prefix) {}
 
-  void set_parser(XML_Parser parser) {
+  virtual void set_parser(XML_Parser parser) {
     parser_ = parser;
   }
   XML_Parser get_parser() {
diff --git a/src/kml/base/expat_handler_ns.cc b/src/kml/base/expat_handler_ns.cc
index 3ad0b93..2310554 100644
--- a/src/kml/base/expat_handler_ns.cc
+++ b/src/kml/base/expat_handler_ns.cc
@@ -77,4 +77,9 @@ void ExpatHandlerNs::StartNamespace(const string& prefix,
 void ExpatHandlerNs::EndNamespace(const string& prefix) {
 }
 
+void ExpatHandlerNs::set_parser(XML_Parser parser) {
+  ExpatHandler::set_parser(parser);
+  expat_handler_->set_parser(parser);
+}
+
 }  // end namespace kmlbase
diff --git a/src/kml/base/expat_handler_ns.h b/src/kml/base/expat_handler_ns.h
index 3d33480..4474581 100644
--- a/src/kml/base/expat_handler_ns.h
+++ b/src/kml/base/expat_handler_ns.h
@@ -75,6 +75,9 @@ public:
   virtual void StartNamespace(const string& prefix, const string& uri);
   virtual void EndNamespace(const string& prefix);
 
+  // The handler we forward to stops the parse through its own get_parser().
+  virtual void set_parser(XML_Parser parser);
+
 private:
   ExpatHandler* expat_handler_;
   const Xmlns* xmlns_;
-- 
2.43.0


From b9d74f1ed34d4daf76c42eea18a10f35ea6323aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:16 +0000
Subject: [PATCH 18/56] fix: a stream that fails before its end is not a parsed
 document

---
 src/kml/engine/kml_stream.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/kml/engine/kml_stream.cc b/src/kml/engine/kml_stream.cc
index b6bd25e..e884913 100644
--- a/src/kml/engine/kml_stream.cc
+++ b/src/kml/engine/kml_stream.cc
@@ -51,14 +51,16 @@ KmlStream* KmlStream::ParseFromIstream(
   // Perform buffered parse
   kmlbase::ExpatParser parser(&kml_handler, false);
   const int kBufSize = 4096;
+  bool is_final = false;
   while (input->good()) {
     if (void* buf = parser.GetInternalBuffer(kBufSize)) {
       std::streamsize read_size =
           input->read(static_cast<char*>(buf), kBufSize).gcount();
       // Guard negative read sizes for MSVC 2010.
+      is_final = input->eof();
       if (read_size < 0 ||
           !parser.ParseInternalBuffer(static_cast<size_t>(read_size),
-                                      errors, input->eof())) {
+                                      errors, is_final)) {
         return NULL;  // Parse error
       }
     } else {
@@ -70,6 +72,14 @@ KmlStream* KmlStream::ParseFromIstream(
   }
 
   // Parse succeeded.  Construct KmlStream.
+  if (!is_final) {
+    // The input failed before its end: what was parsed is not a document.
+    if (errors) {
+      *errors = "read error";
+    }
+    return NULL;
+  }
+
   KmlStream* kml_stream = new KmlStream;
   kml_stream->set_root(kml_handler.PopRoot());
   return kml_stream;
-- 
2.43.0


From aad86da0230f685f55d1b397a909929ca94a8d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:16 +0000
Subject: [PATCH 19/56] fix: clone keeps each element's text apart and can copy
 a lone field

---
 src/kml/engine/clone.cc | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/kml/engine/clone.cc b/src/kml/engine/clone.cc
index 91069e9..759d724 100644
--- a/src/kml/engine/clone.cc
+++ b/src/kml/engine/clone.cc
@@ -63,6 +63,7 @@ class ElementReplicator : public kmldom::Serializer {
     ElementPtr clone = KmlFactory::GetFactory()->CreateElementById(id);
     clone->ParseAttributes(attributes.Clone());
     clone_stack_.push(clone);
+    char_data_.push(string());
   }
 
   // Serializer::End() is called at the end of a complex element.
@@ -73,9 +74,10 @@ class ElementReplicator : public kmldom::Serializer {
     // those complex elements which have character data.
     // TODO: refactor the special-casing in KmlHandler::EndElement() such that
     // it can be used from here.  Using child->AddElement(child) is dangerous.
-    if (!char_data_.empty()) {
-      child->set_char_data(char_data_);
-      char_data_.clear();
+    const string char_data = char_data_.top();
+    char_data_.pop();
+    if (!char_data.empty()) {
+      child->set_char_data(char_data);
       // NOTE: This very much expects this to mean "parse yourself".  If
       // this falls through to Element::AddChild() this will make the element
       // a child of itself by putting itself in the misplaced elements array.
@@ -97,7 +99,12 @@ class ElementReplicator : public kmldom::Serializer {
     KmlDomType id = static_cast<KmlDomType>(type_id);
     ElementPtr clone = KmlFactory::GetFactory()->CreateFieldById(id);
     clone->set_char_data(value);
-    clone_stack_.top()->AddElement(clone);
+    if (clone_stack_.empty()) {
+      // A field is cloned on its own.
+      clone_stack_.push(clone);
+    } else {
+      clone_stack_.top()->AddElement(clone);
+    }
   }
 
   // Detects if we're serializing the unknown elements array.  We don't use
@@ -126,8 +133,8 @@ class ElementReplicator : public kmldom::Serializer {
       if (clone_stack_.size() > 0) {
         clone_stack_.top()->AddUnknownElement(content);
       }
-    } else {
-      char_data_.append(content);
+    } else if (!char_data_.empty()) {
+      char_data_.top().append(content);
     }
   }
 
@@ -154,7 +161,8 @@ class ElementReplicator : public kmldom::Serializer {
  private:
   // This stack operates akin to the stack in the parser.
   std::stack<ElementPtr> clone_stack_;
-  string char_data_;
+  // The character data of each element on the clone_stack_.
+  std::stack<string> char_data_;
   // This flag indicates that we're serializing an array of unknown elements.
   // See BeginElementArray(), EndElementArray(), and SaveContent() above.
   bool serializing_unknown_;
-- 
2.43.0


From 8aa046e4372c4f0169fd678ed792ce7d2e6a79e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:21 +0000
Subject: [PATCH 20/56] fix: searches and merges see a misplaced element as the
 child it is

---
 src/kml/dom/element.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/kml/dom/element.cc b/src/kml/dom/element.cc
index 1060d39..2b203dc 100644
--- a/src/kml/dom/element.cc
+++ b/src/kml/dom/element.cc
@@ -66,8 +66,14 @@ void Element::AddUnknownElement(const string& s) {
 void Element::SerializeUnknown(Serializer& serializer) const {
   // First serialize the misplaced elements:
   for (size_t i = 0; i < unknown_legal_elements_array_.size(); ++i) {
-    // Anything derived from Element implements a Serialize() method.
-    unknown_legal_elements_array_[i]->Serialize(serializer);
+    const ElementPtr& misplaced = unknown_legal_elements_array_[i];
+    if (Xsd::GetSchema()->ElementType(misplaced->Type()) == XSD_COMPLEX_TYPE) {
+      // A complex element is presented as such, like any other child.
+      serializer.SaveElement(misplaced);
+    } else {
+      // Anything derived from Element implements a Serialize() method.
+      misplaced->Serialize(serializer);
+    }
   }
   // Now serialize unknown elements:
   // Announce to the Serializer that the next N SaveContent() are each
-- 
2.43.0


From 1dce8a5e7707cff01e7046903e49a57f1f1f46af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:02 +0000
Subject: [PATCH 21/56] fix: ClearIds clears duplicated ids too

---
 src/kml/engine/id_mapper.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/kml/engine/id_mapper.cc b/src/kml/engine/id_mapper.cc
index a28c489..d06a5fb 100644
--- a/src/kml/engine/id_mapper.cc
+++ b/src/kml/engine/id_mapper.cc
@@ -69,14 +69,20 @@ void MapIds(const ElementPtr& root, ObjectIdMap* object_id_map,
 }
 
 const ElementPtr& ClearIds(const ElementPtr& root) {
-  // Get all objects with an id.
+  // Get all objects with an id, including those another object's id hides.
   ObjectIdMap object_id_map;
-  MapIds(root, &object_id_map, NULL);
+  ElementVector dup_id_vector;
+  MapIds(root, &object_id_map, &dup_id_vector);
   // Iterate through them all and clear the id.
   ObjectIdMap::const_iterator iter = object_id_map.begin();
   for (; iter != object_id_map.end(); ++iter) {
     iter->second->clear_id();
   }
+  for (size_t i = 0; i < dup_id_vector.size(); ++i) {
+    if (ObjectPtr object = AsObject(dup_id_vector[i])) {
+      object->clear_id();
+    }
+  }
   return root;
 }
 
-- 
2.43.0


From 90fcf7f5640e608ac356311cfde47d820df7574e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:02 +0000
Subject: [PATCH 22/56] fix: a style without an id is not a shared style

---
 src/kml/engine/shared_style_parser_observer.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kml/engine/shared_style_parser_observer.h b/src/kml/engine/shared_style_parser_observer.h
index f89219f..769c076 100644
--- a/src/kml/engine/shared_style_parser_observer.h
+++ b/src/kml/engine/shared_style_parser_observer.h
@@ -66,9 +66,10 @@ class SharedStyleParserObserver : public kmldom::ParserObserver {
             // TODO: provide means to send back an and error string with id
             return false;  // Duplicate id, fail parse.
           }
+          // No such mapping so save it, and "last one wins" on non-strict
+          // parse.
+          (*shared_style_map_)[ss->get_id()] = ss;
         }
-        // No such mapping so save it, and "last one wins" on non-strict parse.
-        (*shared_style_map_)[ss->get_id()] = ss;
       }
     }
     return true;  // Not a duplicate id, keep parsing.
-- 
2.43.0


From 2c0e8cc68d260ecbe4268aaab8c085fe1cacbaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:29 +0000
Subject: [PATCH 23/56] fix: a split style keeps the id its feature refers to

---
 src/kml/engine/style_splitter.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kml/engine/style_splitter.cc b/src/kml/engine/style_splitter.cc
index 6fefcdc..18ebe6e 100644
--- a/src/kml/engine/style_splitter.cc
+++ b/src/kml/engine/style_splitter.cc
@@ -83,12 +83,13 @@ bool StyleSplitter::EndElement(const kmldom::ElementPtr& parent,
         // ...and this id does not collide:
         if (shared_style_map_->find(style_id) == shared_style_map_->end()) {
           ++id_counter_;  // Bump the id counter only if it was used.
-          // Create an empty StyleSelector of the child's type and set the id.
+          // Create an empty StyleSelector of the child's type.
           kmldom::StyleSelectorPtr shared =
               CreateStyleSelector(child->Type());
-          shared->set_id(style_id);
           // Merge the children from child into the new StyleSelector.
           kmlengine::MergeElements(child, shared);
+          // The merge brings along any id of the child: set the id last.
+          shared->set_id(style_id);
           // Add the StyleSelector to the Document and the shared style map.
           document_->add_styleselector(shared);
           (*shared_style_map_)[shared->get_id()] = shared;
-- 
2.43.0


From 2a2feb894fca01b238e0436d5fc305c6a8f3ad46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:29 +0000
Subject: [PATCH 24/56] fix: splitting styles never reuses the id of an earlier
 style

---
 src/kml/engine/style_splitter.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/kml/engine/style_splitter.cc b/src/kml/engine/style_splitter.cc
index 18ebe6e..e12b64d 100644
--- a/src/kml/engine/style_splitter.cc
+++ b/src/kml/engine/style_splitter.cc
@@ -46,6 +46,13 @@ bool StyleSplitter::NewElement(const kmldom::ElementPtr& element) {
   if (element->IsA(kmldom::Type_Update)) {
     in_update_ = true;
   }
+  // A StyleSelector with an id occupies that id.
+  if (kmldom::StyleSelectorPtr styleselector =
+      kmldom::AsStyleSelector(element)) {
+    if (styleselector->has_id()) {
+      (*shared_style_map_)[styleselector->get_id()] = styleselector;
+    }
+  }
   return true;
 }
 
-- 
2.43.0


From d055c830964d831157c9546331df478d3047d78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:29 +0000
Subject: [PATCH 25/56] fix: references inside a remote style are resolved in
 that file

---
 src/kml/engine/style_merger.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/kml/engine/style_merger.cc b/src/kml/engine/style_merger.cc
index 8ea9bb5..ef3a751 100644
--- a/src/kml/engine/style_merger.cc
+++ b/src/kml/engine/style_merger.cc
@@ -119,8 +119,13 @@ void StyleMerger::MergeStyleUrl(const string& styleurl) {
   }
   // TODO: resolve relative hrefs in substyles of this styleselector w.r.t.
   // fetchable_url
-  // Merge in this StyleSelector.
-  MergeStyleSelector(styleselector);
+  // Merge in this StyleSelector.  Any styleUrl within it is relative to the
+  // KmlFile it is found in.
+  StyleMerger style_merger(kml_file->get_shared_style_map(), kml_cache_,
+                           kml_file->get_url(), style_state_, nesting_depth_);
+  style_merger.resolved_style_ = resolved_style_;
+  style_merger.MergeStyleSelector(styleselector);
+  nesting_depth_ = style_merger.nesting_depth_;
 }
 
 // Both Feature and Pair have a styleUrl and/or StyleSelector.
-- 
2.43.0


From 8f23e63466e774602652508a72e780f14f64e95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:29 +0000
Subject: [PATCH 26/56] fix: merging keeps text content and unknown elements

---
 src/kml/engine/merge.cc | 38 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/src/kml/engine/merge.cc b/src/kml/engine/merge.cc
index ac9171a..ea0963d 100644
--- a/src/kml/engine/merge.cc
+++ b/src/kml/engine/merge.cc
@@ -49,12 +49,14 @@ class FieldMerger : public Serializer {
  public:
   // The target is expected to be a complex element.
   FieldMerger(ElementPtr target)
-      : target_(target) {}
+      : target_(target), source_type_(kmldom::Type_Unknown),
+        serializing_unknown_(false) {}
 
   virtual ~FieldMerger() {}
 
   // Set the attributes in the target.
   virtual void BeginById(int type_id, const Attributes& attributes) {
+    source_type_ = static_cast<KmlDomType>(type_id);
     // ParseAttributes reflects the state of the passed attributes, so we
     // preserve the state of the element's attributes here ourselves and into
     // our private copy of the state merge the passed attributes and then
@@ -73,6 +75,37 @@ class FieldMerger : public Serializer {
     }
   }
 
+  // Set the character data of those complex elements which have it.
+  virtual void End() {
+    if (!char_data_.empty() && source_type_ == target_->Type()) {
+      target_->set_char_data(char_data_);
+      // As in Clone() this means "parse yourself".
+      target_->AddElement(target_);
+    }
+  }
+
+  // Detects if we're serializing the unknown elements array.
+  virtual void BeginElementArray(int type_id, size_t element_count) {
+    if (type_id == kmldom::Type_Unknown) {
+      serializing_unknown_ = true;
+    }
+  }
+
+  virtual void EndElementArray(int type_id) {
+    if (type_id == kmldom::Type_Unknown) {
+      serializing_unknown_ = false;
+    }
+  }
+
+  // This is either an unknown element or character data of the source.
+  virtual void SaveContent(const string& content, bool maybe_quote) {
+    if (serializing_unknown_) {
+      target_->AddUnknownElement(content);
+    } else {
+      char_data_.append(content);
+    }
+  }
+
   // The default implementation recurses on complex children.  FieldMerger is
   // only interested in the immediate simple children of the serialized element
   // so its implementation is empty to prevent recursing on complex children.
@@ -101,6 +134,9 @@ class FieldMerger : public Serializer {
 
  private:
   ElementPtr target_;
+  KmlDomType source_type_;
+  string char_data_;
+  bool serializing_unknown_;
 };
 
 // This is the implementation of the public API function to merge the
-- 
2.43.0


From e0f31bdc81906cbd14a0c64be61d4d503cc1057f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:07 +0000
Subject: [PATCH 27/56] fix: a long entry name in an archive is terminated

---
 src/kml/base/zip_file.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kml/base/zip_file.cc b/src/kml/base/zip_file.cc
index 3366837..b15bdf8 100644
--- a/src/kml/base/zip_file.cc
+++ b/src/kml/base/zip_file.cc
@@ -98,8 +98,9 @@ ZipFile::ZipFile(const string& data)
     if (zfile) {
       unz_file_info finfo;
       do {
-        static char buf[1024];
-        if (libkml_unzGetCurrentFileInfo(zfile, &finfo, buf, sizeof(buf),
+        // A name that fills the given size is not terminated by minizip.
+        char buf[1024 + 1] = {0};
+        if (libkml_unzGetCurrentFileInfo(zfile, &finfo, buf, sizeof(buf) - 1,
               0, 0, 0, 0) == UNZ_OK) {
           zipfile_toc_.push_back(buf);
         }
-- 
2.43.0


From f44934cc932d124795adc684021134d40a8db341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:07 +0000
Subject: [PATCH 28/56] fix: adding an archive entry fails if opening or
 writing it fails

---
 src/kml/base/zip_file.cc | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/kml/base/zip_file.cc b/src/kml/base/zip_file.cc
index b15bdf8..05ab213 100644
--- a/src/kml/base/zip_file.cc
+++ b/src/kml/base/zip_file.cc
@@ -232,11 +232,14 @@ bool ZipFile::AddEntry(const string& data,
   if (!zipfile) {
     return false;
   }
-  zipOpenNewFileInZip(zipfile, path_in_zip.c_str(), 0, 0, 0, 0, 0, 0,
-                      Z_DEFLATED, Z_DEFAULT_COMPRESSION);
-  zipWriteInFileInZip(zipfile, static_cast<const void*>(data.data()),
-                      static_cast<unsigned int>(data.size()));
-  return zipCloseFileInZip(zipfile) == ZIP_OK;
+  if (zipOpenNewFileInZip(zipfile, path_in_zip.c_str(), 0, 0, 0, 0, 0, 0,
+                          Z_DEFLATED, Z_DEFAULT_COMPRESSION) != ZIP_OK) {
+    return false;
+  }
+  const bool written =
+      zipWriteInFileInZip(zipfile, static_cast<const void*>(data.data()),
+                          static_cast<unsigned int>(data.size())) == ZIP_OK;
+  return zipCloseFileInZip(zipfile) == ZIP_OK && written;
 }
 
 }  // end namespace kmlbase
-- 
2.43.0


From 9904a02a004f4f6aa5805948146b792c4f424831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:07 +0000
Subject: [PATCH 29/56] fix: creating a KMZ fails if its document cannot be
 stored

---
 src/kml/engine/kmz_file.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kml/engine/kmz_file.cc b/src/kml/engine/kmz_file.cc
index 05ac2d5..4f078c0 100644
--- a/src/kml/engine/kmz_file.cc
+++ b/src/kml/engine/kmz_file.cc
@@ -234,7 +234,9 @@ bool KmzFile::CreateFromElement(const kmldom::ElementPtr& element,
   const string kml_data = kmldom::SerializePretty(element);
   // First add the KML file. This is the file opened by default by a client
   // from a KMZ archive.
-  kmz_file->AddFile(kml_data, kDefaultKmlFilename);
+  if (!kmz_file->AddFile(kml_data, kDefaultKmlFilename)) {
+    return false;
+  }
 
   // Next gather the local references and add them.
   StringVector file_paths;
-- 
2.43.0


From ea900b1fdbf0b625aabd6ab8cce612827bda15ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:07 +0000
Subject: [PATCH 30/56] fix: creating a KMZ from a file that does not parse
 fails instead of crashing

---
 src/kml/engine/kmz_file.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/kml/engine/kmz_file.cc b/src/kml/engine/kmz_file.cc
index 4f078c0..8e55545 100644
--- a/src/kml/engine/kmz_file.cc
+++ b/src/kml/engine/kmz_file.cc
@@ -250,6 +250,9 @@ bool KmzFile::CreateFromElement(const kmldom::ElementPtr& element,
 // Static.
 bool KmzFile::CreateFromKmlFile(const KmlFilePtr& kml_file,
                                 const string& kmz_filepath) {
+  if (!kml_file) {
+    return false;
+  }
   return KmzFile::CreateFromElement(
       kml_file->get_root(), kml_file->get_url(), kmz_filepath);
 }
-- 
2.43.0


From e6397e227280aed067d23cc2a54e25b0ff00b576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:31 +0000
Subject: [PATCH 31/56] fix: file name and URI conversions fail when no buffer
 can be allocated

---
 src/kml/base/uri_parser.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/kml/base/uri_parser.cc b/src/kml/base/uri_parser.cc
index d897c03..9dd872d 100644
--- a/src/kml/base/uri_parser.cc
+++ b/src/kml/base/uri_parser.cc
@@ -160,6 +160,9 @@ bool UriParser::UriToUnixFilename(const string& uri,
   }
   const int chars_required = static_cast<int>(uri.size()) + 1;
   char* filename = (char*)malloc(chars_required * sizeof(char));
+  if (!filename) {
+    return false;
+  }
   if (uriUriStringToUnixFilenameA(uri.c_str(), filename) != URI_SUCCESS) {
     free(filename);
     return false;
@@ -176,6 +179,9 @@ bool UriParser::UriToWindowsFilename(const string& uri,
   }
   const int chars_required = static_cast<int>(uri.size()) + 1;
   char* filename = (char*)malloc(chars_required * sizeof(char));
+  if (!filename) {
+    return false;
+  }
   if (uriUriStringToWindowsFilenameA(uri.c_str(), filename) != URI_SUCCESS) {
     free(filename);
     return false;
@@ -200,6 +206,9 @@ bool UriParser::UnixFilenameToUri(const string& filename,
   }
   const int chars_required = 7 + 3 * static_cast<int>(filename.size()) + 1;
   char* uri = (char*)malloc(chars_required * sizeof(char));
+  if (!uri) {
+    return false;
+  }
   if (uriUnixFilenameToUriStringA(filename.c_str(), uri) != URI_SUCCESS) {
     free(uri);
     return false;
@@ -216,6 +225,9 @@ bool UriParser::WindowsFilenameToUri(const string& filename,
   }
   const int chars_required = 8 + 3 * static_cast<int>(filename.size()) + 1;
   char* uri = (char*)malloc(chars_required * sizeof(char));
+  if (!uri) {
+    return false;
+  }
   if (uriWindowsFilenameToUriStringA(filename.c_str(), uri) != URI_SUCCESS) {
     free(uri);
     return false;
-- 
2.43.0


From 638923748f3003e468fea4247468c4ff2998e6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:50 +0000
Subject: [PATCH 32/56] fix: the path of an absolute reference does not include
 its fragment

---
 src/kml/engine/href.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kml/engine/href.cc b/src/kml/engine/href.cc
index b9a28df..9dac183 100644
--- a/src/kml/engine/href.cc
+++ b/src/kml/engine/href.cc
@@ -64,7 +64,7 @@ void Href::Parse(const string& href) {
     fragment_ = href.substr(pound + 1);
     path_end = pound;
   }
-  path_ = href.substr(path_start, path_end);
+  path_ = href.substr(path_start, path_end - path_start);
 }
 
 }  // end namespace kmlengine
-- 
2.43.0


From f927f7baa97b087756aecbbc88bcea26018e5c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:23 +0000
Subject: [PATCH 33/56] fix: a cache with size limit zero does not grow without
 bound

---
 src/kml/base/net_cache.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kml/base/net_cache.h b/src/kml/base/net_cache.h
index 1d979b7..e50444b 100644
--- a/src/kml/base/net_cache.h
+++ b/src/kml/base/net_cache.h
@@ -159,7 +159,7 @@ class NetCache {
     if (exists) {
       return false;
     }
-    if (cache_map_.size() == max_size_) {
+    if (cache_map_.size() >= max_size_) {
       RemoveOldest();
     }
     // It is not expected cache_count_ ever roll over.  See net_cache_test.cc
-- 
2.43.0


From e1b1e9ab32cc14975f704d6dfcc7d9fe5464e375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:23 +0000
Subject: [PATCH 34/56] fix: data that is not a valid item does not take a
 place in the cache

---
 src/kml/base/net_cache.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/kml/base/net_cache.h b/src/kml/base/net_cache.h
index e50444b..6ba12eb 100644
--- a/src/kml/base/net_cache.h
+++ b/src/kml/base/net_cache.h
@@ -129,6 +129,9 @@ class NetCache {
     }
     // Fetch succeeded: create a CacheItem from the data.
     CacheItemPtr item = CacheItem::CreateFromString(data);
+    if (!item) {
+      return NULL;  // The data is not valid for this kind of item.
+    }
     if (!Save(url, item)) {  // This is basically an internal error.
       return NULL;
     }
-- 
2.43.0


From 08f32746c3f63de3778c0757984b3122360a72a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:47 +0000
Subject: [PATCH 35/56] fix: a target missing from a KMZ ends the fetch, and
 the address reported is the one fetched

---
 src/kml/engine/kmz_cache.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/kml/engine/kmz_cache.cc b/src/kml/engine/kmz_cache.cc
index ab85769..435adde 100644
--- a/src/kml/engine/kmz_cache.cc
+++ b/src/kml/engine/kmz_cache.cc
@@ -119,10 +119,18 @@ bool KmzCache::DoFetchAndReturnUrl(KmlUri* kml_uri, string* content,
   if (!kmz_relative.get()) {
     return false;
   }
+  if (!kmz_relative->is_kmz()) {
+    return DoFetchAndReturnUrl(kmz_relative.get(), content, fetched_url);
+  }
+  // This is into a KMZ again.  There are only two levels: do not try further.
+  if (!Fetch(kmz_relative->get_kmz_url()) ||
+      !FetchFromCache(kmz_relative.get(), content)) {
+    return false;
+  }
   if (fetched_url) {
     *fetched_url = kmz_relative->get_url();
   }
-  return DoFetch(kmz_relative.get(), content);
+  return true;
 }
 
 bool KmzCache::FetchFromCache(KmlUri* kml_uri, string* content) const {
-- 
2.43.0


From 820cc7912a77f3a19209ac87c99870e0d9006980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:36 +0000
Subject: [PATCH 36/56] fix: coordinates of any length separated by any white
 space are read as written

Text without a number made Coordinates::Parse loop forever, a number of
1024 or more characters overflowed a buffer on the stack, and tuples
separated by a newline or tab (as written by SerializeRaw) were read as
other tuples.
---
 src/kml/dom/geometry.cc | 125 +++++++++++++++-------------------------
 1 file changed, 48 insertions(+), 77 deletions(-)

diff --git a/src/kml/dom/geometry.cc b/src/kml/dom/geometry.cc
index b559bc8..39e166f 100644
--- a/src/kml/dom/geometry.cc
+++ b/src/kml/dom/geometry.cc
@@ -52,6 +52,27 @@ Coordinates::Coordinates() {
 
 Coordinates::~Coordinates() {}
 
+// This returns a pointer to the first character of the next number or to the
+// end of the string if there is none.
+static const char* SkipToNumber(const char* cstr) {
+  while (*cstr && *cstr != '-' && !isdigit(static_cast<unsigned char>(*cstr)) &&
+         !(*cstr == '.' && isdigit(static_cast<unsigned char>(cstr[1])))) {
+    ++cstr;
+  }
+  return cstr;
+}
+
+// This parses the number that ends at the next comma or white space and
+// returns a pointer to its end.  The value is left as is if it is no number.
+static const char* ParseNumber(const char* cstr, double* value) {
+  const char* first = cstr;
+  while (*cstr && *cstr != ',' && !isspace(static_cast<unsigned char>(*cstr))) {
+    ++cstr;
+  }
+  kmlbase::StringToDouble(string(first, cstr - first), value);
+  return cstr;
+}
+
 // This parses off a Vec3 from the given string and returns a pointer
 // to the end of chars consumed.  The purpose is for use in the inner loop
 // of the overall parse of a <coordinates> string.  This handles both 2d and
@@ -81,93 +102,43 @@ Coordinates::~Coordinates() {}
 // like this: "1.1*2.2,3,3" will become "1.1,3.3,0.0". This precisely matches
 // the precent for parsing of bad coordinate strings set by Google Earth.
 bool Coordinates::ParseVec3(const char* cstr, char** nextp, Vec3* vec) {
-  
   if (!cstr || !vec) {  // Not much to do w/o input or output.
     return false;
   }
-  bool done = false;
-  
-  int k;
-  char lon[1024];
-  k = 0;
-  while(*cstr && *cstr!='-' && !isdigit(*cstr)) { ++cstr; }
-  const char *first = cstr;
-  
-  while (*cstr && *cstr!=' ' && *cstr!='\n' && *cstr!=',') { ++cstr; ++k; }
-  
-  memcpy(lon, first, k);
-  lon[k] = '\0'; 
-  string lon_s = string(lon);
-  if( lon_s.empty()) { done = false; return done; }
-  
-  double longitude; 
-  kmlbase::StringToDouble(lon_s, &longitude);
-  vec->set(0, longitude);
-  
-  
-  while(*cstr && *cstr!='-' && *cstr!='\n' && !isdigit(*cstr)) { ++cstr; ++k; }
-  
-  char lat[1024];
-  first = cstr;
-  k = 0;
-  int b = 0;
-  while (*cstr  && *cstr!=',') {
-    if( *cstr==' ') {
-      b = 1;  
-      break;
-    }
-    ++cstr;  ++k;
-  }
-  memcpy(lat, first, k);
-  lat[k] = '\0';
-  done = true;
-  
-  string lat_s = string(lat);
-  double latitude = 0.0;
-  if( !lat_s.empty())
-    kmlbase::StringToDouble(lat_s, &latitude);
-  
-  vec->set(1, latitude);
-  
-  
-  while(*cstr && *cstr!='-'&& !isdigit(*cstr)) { ++cstr; ++k; }
-  
-  if ( b < 1) {
-    char alt[1024];
-    first = cstr;
-    k = 0;
-    while (*cstr && *cstr!=',') {
-      if( *cstr==' ') {
-	b = 1;  
-	break;
-      }
-      ++cstr;  ++k;
-    }
-    memcpy(alt, first, k); 
-    alt[k] = '\0';
-    
-    string alt_s = string(alt);
-    double altitude;
-    if( !alt_s.empty() ) {
-      kmlbase::StringToDouble(alt_s, &altitude);
-      vec->set(2, altitude);
+  cstr = SkipToNumber(cstr);
+  if (!*cstr) {  // No number here or after.
+    *nextp = const_cast<char*>(cstr);
+    return false;
+  }
+  double value = 0.0;
+  cstr = ParseNumber(cstr, &value);
+  vec->set(0, value);
+
+  cstr = SkipToNumber(cstr);
+  value = 0.0;
+  cstr = ParseNumber(cstr, &value);
+  vec->set(1, value);
+
+  // There is an altitude only if a comma follows the latitude.
+  while (isspace(static_cast<unsigned char>(*cstr))) { ++cstr; }
+  if (*cstr == ',') {
+    cstr = SkipToNumber(cstr);
+    if (*cstr) {
+      value = 0.0;
+      cstr = ParseNumber(cstr, &value);
+      vec->set(2, value);
     }
   }
-  
-  while(*cstr && *cstr!='-' && !isdigit(*cstr)) ++cstr;
-  
-  *nextp = const_cast<char*>(cstr);
-  
-  return done;
+
+  *nextp = const_cast<char*>(SkipToNumber(cstr));
+  return true;
 }
 
 // The char_data is everything between <coordinates> elements including
 // leading and trailing whitespace.
 void Coordinates::Parse(const string& char_data) {
-  const char* cstr = char_data.c_str();
-  const char* endp = cstr + char_data.size();
-  char* next = const_cast<char*>(cstr);
-  while (next != endp) {
+  char* next = const_cast<char*>(char_data.c_str());
+  while (*next) {
     Vec3 vec;
     if (ParseVec3(next, &next, &vec)) {
       coordinates_array_.push_back(vec);
-- 
2.43.0


From 289441f633a6bf92087a5052714a6a234959a3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:18 +0000
Subject: [PATCH 37/56] fix: gx:coord and gx:angles values are read whatever
 white space surrounds them

Extra white space shifted the values and stored an uninitialised number.
---
 src/kml/dom/geometry.cc | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/kml/dom/geometry.cc b/src/kml/dom/geometry.cc
index 39e166f..41cd53c 100644
--- a/src/kml/dom/geometry.cc
+++ b/src/kml/dom/geometry.cc
@@ -30,6 +30,8 @@
 #include <cctype>
 #include <cstdlib>
 #include <cstring>
+#include <locale>
+#include <sstream>
 #include <string>
 #include "kml/dom/geometry.h"
 #include "kml/base/attributes.h"
@@ -531,14 +533,12 @@ void GxTrack::Parse(const string& char_data, std::vector<Vec3>* out) {
   }
   // TODO: this is a little heavy. Optimization along the lines of
   // Coordinates::Parse may be required.
-  std::vector<string> s;
-  kmlbase::SplitStringUsing(char_data, " ", &s);
+  std::istringstream iss(char_data);
+  iss.imbue(std::locale::classic());
   kmlbase::Vec3 vec;
-  for (size_t i = 0; i < s.size(); i++) {
-    double d;
-    kmlbase::FromString(s[i], &d);
-    vec.set(static_cast<int>(i), d);
-    if (i > 2) break;
+  double d = 0.0;
+  for (int i = 0; i < 3 && iss >> d; i++) {
+    vec.set(i, d);
   }
   out->push_back(vec);
 }
-- 
2.43.0


From b411ba9c4c21b2d8cfa62b498f4853201e5df3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:16 +0000
Subject: [PATCH 38/56] fix: a short color string after white space or # is
 read within its bounds

---
 src/kml/base/color32.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kml/base/color32.h b/src/kml/base/color32.h
index dcdf8d7..c1034d4 100644
--- a/src/kml/base/color32.h
+++ b/src/kml/base/color32.h
@@ -137,7 +137,8 @@ class Color32 {
     if (color_abgr.size() > 0 && color_abgr[offset] == '#') {
       offset ++;
     }
-    size_t length = color_abgr.size() >= 8 + offset ? 8 : color_abgr.size();
+    size_t length = color_abgr.size() >= 8 + offset ? 8 :
+        color_abgr.size() - offset;
     for(size_t i = offset; i < length + offset; ++i) {
       out = out * 16;
       if (color_abgr[i] >= '0' && color_abgr[i] <= '9') {
-- 
2.43.0


From 0906c8cfec6de09d952bd7d75c427ff1d86ba657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:33 +0000
Subject: [PATCH 39/56] fix: splitting a string drops the whole separator

Only the first character of a longer separator was dropped; an empty
separator threw an exception.
---
 src/kml/base/string_util.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kml/base/string_util.cc b/src/kml/base/string_util.cc
index 9ae86d5..c178483 100644
--- a/src/kml/base/string_util.cc
+++ b/src/kml/base/string_util.cc
@@ -97,9 +97,10 @@ void SplitStringUsing(const string& input, const string& split_string,
                       std::vector<string>* output) {
   string iter = input;
   size_t separator;
-  while ((separator = iter.find(split_string)) != string::npos) {
+  while (!split_string.empty() &&
+         (separator = iter.find(split_string)) != string::npos) {
     output->push_back(iter.substr(0, separator));
-    iter = iter.substr(separator+1);
+    iter = iter.substr(separator + split_string.size());
   }
   output->push_back(iter);
 }
-- 
2.43.0


From 88ac21558bc7bc67d9ecac3c43cae28d0814330e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:39 +0000
Subject: [PATCH 40/56] fix: an unpaired last item of an attribute list is
 ignored

It threw std::out_of_range.
---
 src/kml/base/attributes.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kml/base/attributes.cc b/src/kml/base/attributes.cc
index f808b2b..0190be0 100644
--- a/src/kml/base/attributes.cc
+++ b/src/kml/base/attributes.cc
@@ -62,7 +62,7 @@ bool Attributes::Parse(const char** attrs) {
 
 bool Attributes::Parse(const kmlbase::StringVector& attrs) {
   for (unsigned int i = 0; i < attrs.size() ; i += 2) {
-    if (attrs.size() - i < 1)
+    if (attrs.size() - i < 2)  // Quietly ignore unpaired last item.
       break;
     string attr_name = attrs.at(i);
     string attr_val = attrs.at(i+1);
-- 
2.43.0


From 2e4fa5600a75144b966e1e5f3f59ea5ccdee126b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:44 +0000
Subject: [PATCH 41/56] fix: a file that cannot be written completely is
 reported as a failure

---
 src/kml/base/file.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kml/base/file.cc b/src/kml/base/file.cc
index 7aec359..0eee537 100644
--- a/src/kml/base/file.cc
+++ b/src/kml/base/file.cc
@@ -71,7 +71,7 @@ bool File::WriteStringToFile(const string& data,
   }
   output_file.write(data.c_str(), static_cast<std::streamsize>(data.length()));
   output_file.close();
-  return true;
+  return output_file.good();
 }
 
 string File::JoinPaths(const string& p1, const string& p2) {
-- 
2.43.0


From 588f3d8ee08cc7c0eb18e9c9e2242f5c25f87f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:48 +0000
Subject: [PATCH 42/56] fix: a file that cannot be read is reported as a
 failure

Reading a directory gave success and no content.
---
 src/kml/base/file.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kml/base/file.cc b/src/kml/base/file.cc
index 0eee537..4d27ae0 100644
--- a/src/kml/base/file.cc
+++ b/src/kml/base/file.cc
@@ -56,7 +56,7 @@ bool File::ReadFileToString(const string& filename, string* output) {
       output->append(buffer, static_cast<size_t>(input_file.gcount()));
     }
   }
-  return true;
+  return !input_file.bad();
 }
 
 bool File::WriteStringToFile(const string& data,
-- 
2.43.0


From a44ffb02df932852620525d382aefb6825562387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:53 +0000
Subject: [PATCH 43/56] fix: a SimpleData's display name comes from its own
 Schema or is its name

---
 src/kml/engine/entity_mapper.cc | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/kml/engine/entity_mapper.cc b/src/kml/engine/entity_mapper.cc
index 4f87c40..9761098 100644
--- a/src/kml/engine/entity_mapper.cc
+++ b/src/kml/engine/entity_mapper.cc
@@ -140,6 +140,8 @@ void EntityMapper::GatherDataFields(const DataPtr& data) {
 void EntityMapper::GatherSchemaDataFields(const SchemaDataPtr& schemadata) {
   // We need to take the schemaUrl and find the <Schema> with that id.
   schemadata_prefix_ = "/";
+  // The names of an earlier SchemaData's Schema say nothing about this one.
+  simplefield_name_map_.clear();
   if (schemadata->has_schemaurl()) {
     // We need to get the name= attr of the <Schema> with the id= attr that
     // matches this schemaUrl.
@@ -184,16 +186,17 @@ void EntityMapper::GatherSimpleDataFields(const SimpleDataPtr& simpledata) {
       simpledata->get_text();
   }
   // If there is a schemaUrl, the names we will use for display are in
-  // the populated map. If there isn't, the map is empty and we'll use the
-  // name attr of the SimpleData element.
+  // the populated map. If there isn't, or if the Schema has no SimpleField of
+  // this name, we'll use the name attr of the SimpleData element.
   if (alt_markup_map_) {
-    if (simplefield_name_map_.empty()) {
+    const StringMap::const_iterator iter =
+      simplefield_name_map_.find(simpledata->get_name());
+    if (iter == simplefield_name_map_.end()) {
       alt_markup_map_->push_back(
           std::make_pair(simpledata->get_name(), simpledata->get_text()));
     } else {
       alt_markup_map_->push_back(
-          std::make_pair(simplefield_name_map_[simpledata->get_name()],
-                         simpledata->get_text()));
+          std::make_pair(iter->second, simpledata->get_text()));
     }
   }
 }
-- 
2.43.0


From 3a980a7db94b02d8aa912531373c36f848efd4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:53 +0000
Subject: [PATCH 44/56] fix: a circle of any number of segments goes all the
 way round

---
 src/kml/convenience/convenience.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kml/convenience/convenience.cc b/src/kml/convenience/convenience.cc
index 6aa8918..7621880 100644
--- a/src/kml/convenience/convenience.cc
+++ b/src/kml/convenience/convenience.cc
@@ -119,7 +119,7 @@ CoordinatesPtr CreateCoordinatesCircle(double lat, double lng,
   CoordinatesPtr coords = KmlFactory::GetFactory()->CreateCoordinates();
   for (size_t i = 0; i < segments; ++i) {
     coords->add_vec3(kmlbase::LatLngOnRadialFromPoint(
-        lat, lng, radius, static_cast<double>(i)));
+        lat, lng, radius, 360.0 * i / segments));
   }
   return coords;
 }
-- 
2.43.0


From a3c9ef9fecc576ca8e5aae978f44bd0ce4dfd13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:53 +0000
Subject: [PATCH 45/56] fix: the line string around a region is closed

---
 src/kml/regionator/regionator_util.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kml/regionator/regionator_util.cc b/src/kml/regionator/regionator_util.cc
index 48bb0c0..460ddd0 100644
--- a/src/kml/regionator/regionator_util.cc
+++ b/src/kml/regionator/regionator_util.cc
@@ -139,7 +139,7 @@ PlacemarkPtr CreateLineStringBox(const string& name, const RegionPtr& region) {
     coordinates->add_latlng(north, east);
     coordinates->add_latlng(south, east);
     coordinates->add_latlng(south, west);
-    coordinates->add_latlng(south, west);
+    coordinates->add_latlng(north, west);
     LineStringPtr linestring = factory->CreateLineString();
     linestring->set_coordinates(coordinates);
     linestring->set_tessellate(true);
-- 
2.43.0


From c348e8c06c2a82627a51e077b506f11507849177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:53 +0000
Subject: [PATCH 46/56] fix: the feature list saver sees Update elements and
 one-letter style ids

---
 src/kml/convenience/kml_feature_list_saver.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/kml/convenience/kml_feature_list_saver.h b/src/kml/convenience/kml_feature_list_saver.h
index ca85d14..4309c47 100644
--- a/src/kml/convenience/kml_feature_list_saver.h
+++ b/src/kml/convenience/kml_feature_list_saver.h
@@ -60,6 +60,11 @@ class KmlFeatureListSaver : public kmldom::ParserObserver {
     }
   }
 
+  // ParserObserver::NewElement()
+  virtual bool NewElement(const kmldom::ElementPtr& element) {
+    return StartElement(element);
+  }
+
   virtual bool StartElement(const kmldom::ElementPtr& element) {
     if (element->Type() == kmldom::Type_Update) {
       in_update_ = true;
@@ -81,7 +86,7 @@ class KmlFeatureListSaver : public kmldom::ParserObserver {
       kmldom::FeaturePtr feature = kmldom::AsFeature(child);
       if (!style_base_.empty() && feature->has_styleurl()) {
         const string& styleurl = feature->get_styleurl();
-        if (styleurl.size() > 2 && styleurl[0] == '#') {
+        if (styleurl.size() > 1 && styleurl[0] == '#') {
           feature->set_styleurl(style_base_ + styleurl);
         }
       }
-- 
2.43.0


From ddfc8c6be2a0663365570088a9a73dad2c0cd7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:53 +0000
Subject: [PATCH 47/56] fix: a GPX track point without a position is not given
 the previous one

---
 src/kml/convenience/gpx_trk_pt_handler.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kml/convenience/gpx_trk_pt_handler.h b/src/kml/convenience/gpx_trk_pt_handler.h
index 2e7fdd6..6a6e14e 100644
--- a/src/kml/convenience/gpx_trk_pt_handler.h
+++ b/src/kml/convenience/gpx_trk_pt_handler.h
@@ -64,6 +64,7 @@ class GpxTrkPtHandler : public kmlbase::ExpatHandler {
       // <trkpt lat="-33.911973070" lon="18.422974152">
       // If both lat and lon exist and are sane doubles create a Vec3 for
       // the point.
+      vec3_.reset();
       boost::scoped_ptr<kmlbase::Attributes> attributes(
           kmlbase::Attributes::Create(atts));
       if (attributes.get()) {
@@ -98,7 +99,7 @@ class GpxTrkPtHandler : public kmlbase::ExpatHandler {
     } else if (name.compare("ele") == 0) {
       // <ele>4.943848</ele>
       if (vec3_.get()) {
-	double alt;
+	double alt = 0.0;
 	kmlbase::FromString(char_data_, &alt);
         vec3_->set_altitude(alt);
       }
-- 
2.43.0


From 7afb0408fa23b00c01f50ed1d70235fcada886c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:53 +0000
Subject: [PATCH 48/56] fix: the CSV parser has a factory to create placemarks
 with

---
 src/kml/convenience/csv_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kml/convenience/csv_parser.cc b/src/kml/convenience/csv_parser.cc
index e20434f..340eed2 100644
--- a/src/kml/convenience/csv_parser.cc
+++ b/src/kml/convenience/csv_parser.cc
@@ -82,7 +82,7 @@ CsvParser::CsvParser(kmlbase::CsvSplitter* csv_splitter,
   , feature_id_(npos)
   , style_id_(npos)
   , style_url_base_(kDefaultStyleUrlBase)
-  , kml_factory_(0)
+  , kml_factory_(kmldom::KmlFactory::GetFactory())
 {
 }
 
-- 
2.43.0


From d373e3d76b4fdeef3c437a0868eeddb3358628c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:25 +0000
Subject: [PATCH 49/56] fix: a date before 1970 is counted back from the epoch

---
 src/kml/base/date_time.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/kml/base/date_time.cc b/src/kml/base/date_time.cc
index 01dbfc4..7019cb6 100644
--- a/src/kml/base/date_time.cc
+++ b/src/kml/base/date_time.cc
@@ -70,6 +70,9 @@ time_t DateTime::GetTimeT() const {
   // This and is_leap() base from 1970, the epoch of a time_t.
   for (int year = 70; year < tm_.tm_year; ++year)
     res += is_leap(year) ? 366 : 365;
+  // A date before the epoch counts backwards.
+  for (int year = tm_.tm_year; year < 70; ++year)
+    res -= is_leap(year) ? 366 : 365;
 
   for (int month = 0; month < tm_.tm_mon; ++month)
     res += ndays[is_leap(tm_.tm_year)][month];
-- 
2.43.0


From 40e3352b93084ed5fd844a9a57b7c32db6c57506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:09 +0000
Subject: [PATCH 50/56] fix: anonymous and nested schema types do not end the
 type they are in

---
 src/kml/xsd/xsd_handler.cc | 23 +++++++++++++++--------
 src/kml/xsd/xsd_handler.h  |  2 ++
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/kml/xsd/xsd_handler.cc b/src/kml/xsd/xsd_handler.cc
index 98dc545..5ff19bb 100644
--- a/src/kml/xsd/xsd_handler.cc
+++ b/src/kml/xsd/xsd_handler.cc
@@ -40,16 +40,24 @@ namespace kmlxsd {
 
 // <xs:complexType name="..." abstract="...">
 void XsdHandler::StartComplexType(const Attributes& attributes) {
-  if (!current_type_) {  // <xs:complexType> and/or <xs:simpleType>
-    current_type_ = XsdComplexType::Create(attributes);
-  }
+  // This is NULL for an anonymous type.
+  PushType(XsdComplexType::Create(attributes));
 }
 
 // </xs:complexType">
 // </xs:simpleType">
 void XsdHandler::EndType() {
-  xsd_file_->add_type(current_type_);
-  current_type_ = NULL;
+  if (current_type_) {
+    xsd_file_->add_type(current_type_);
+  }
+  // Resume the type this one is nested in, if any.
+  current_type_ = outer_types_.top();
+  outer_types_.pop();
+}
+
+void XsdHandler::PushType(const XsdTypePtr& xsd_type) {
+  outer_types_.push(current_type_);
+  current_type_ = xsd_type;
 }
 
 // <xs:extension base="...">
@@ -65,9 +73,8 @@ void XsdHandler::StartExtension(const Attributes& attributes) {
 
 // <xs:simpleType name="..."/>
 void XsdHandler::StartSimpleType(const Attributes& attributes) {
-  if (!current_type_) {  // <xs:simpleType is never nested...
-    current_type_ = XsdSimpleType::Create(attributes);
-  }
+  // This is NULL for an anonymous type.
+  PushType(XsdSimpleType::Create(attributes));
 }
 
 // <xs:restriction base="...">
diff --git a/src/kml/xsd/xsd_handler.h b/src/kml/xsd/xsd_handler.h
index 0dfba03..c039bbe 100644
--- a/src/kml/xsd/xsd_handler.h
+++ b/src/kml/xsd/xsd_handler.h
@@ -82,7 +82,9 @@ class XsdHandler : public kmlbase::ExpatHandler {
   void StartEnumeration(const kmlbase::Attributes& attributes);
 
   void EndType();
+  void PushType(const XsdTypePtr& xsd_type);
   XsdTypePtr current_type_;
+  std::stack<XsdTypePtr> outer_types_;
 
   std::stack<string> parse_;
 };
-- 
2.43.0


From 20f031b21ff9a2b24af7e29a129310e739cbe7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:09 +0000
Subject: [PATCH 51/56] fix: an element outside a schema or type is dropped

---
 src/kml/xsd/xsd_handler.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kml/xsd/xsd_handler.cc b/src/kml/xsd/xsd_handler.cc
index 5ff19bb..7f0c4ba 100644
--- a/src/kml/xsd/xsd_handler.cc
+++ b/src/kml/xsd/xsd_handler.cc
@@ -102,13 +102,13 @@ void XsdHandler::StartEnumeration(const Attributes& attributes) {
 // <xs:element name="..." type="..." default=".."/>
 // <xs:element ref="..." minOccurs="..." maxOccurs="..."/>
 void XsdHandler::StartXsElement(const Attributes& attributes) {
-  XsdElement* element = XsdElement::Create(attributes);
+  XsdElementPtr element = XsdElement::Create(attributes);
   if (!element) {
     return;
   }
 
   // Is this a global element?
-  if (parse_.top() == kSchema) {
+  if (!parse_.empty() && parse_.top() == kSchema) {
     xsd_file_->add_element(element);
   } else if (XsdComplexTypePtr complex_type =
                  XsdComplexType::AsComplexType(current_type_)) {
-- 
2.43.0


From 22aa7ee43d07fd09dc32df2f0306b248162c970f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:09 +0000
Subject: [PATCH 52/56] fix: an unresolved element reference is not a child
 element

---
 src/kml/xsd/xsd_file.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kml/xsd/xsd_file.cc b/src/kml/xsd/xsd_file.cc
index ac8d184..c96d84c 100644
--- a/src/kml/xsd/xsd_file.cc
+++ b/src/kml/xsd/xsd_file.cc
@@ -116,7 +116,9 @@ void XsdFile::FindChildElements(const XsdComplexTypePtr& complex_type,
   for (size_t i = 0; i < sequence_size; ++i) {
     const XsdElementPtr element = complex_type->get_sequence_at(i);
     if (element->is_ref()) {
-       elements->push_back(ResolveRef(element->get_name()));
+      if (const XsdElementPtr resolved = ResolveRef(element->get_name())) {
+        elements->push_back(resolved);
+      }
     } else {
       elements->push_back(element);
     }
-- 
2.43.0


From 7f4d7a950ed17501d5cb02cf9b6dd4a12ed6ccb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:22 +0000
Subject: [PATCH 53/56] fix: a schema type among its own bases does not hang
 the search

---
 src/kml/xsd/xsd_file.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/kml/xsd/xsd_file.cc b/src/kml/xsd/xsd_file.cc
index c96d84c..fb10de9 100644
--- a/src/kml/xsd/xsd_file.cc
+++ b/src/kml/xsd/xsd_file.cc
@@ -25,6 +25,7 @@
 
 #include "kml/xsd/xsd_file.h"
 #include <algorithm>
+#include <set>
 #include <vector>
 #include "kml/base/expat_handler.h"
 #include "kml/base/expat_parser.h"
@@ -161,8 +162,13 @@ bool XsdFile::GetTypeHierarchy(const XsdComplexTypePtr& complex_type,
     return false;
   }
   XsdComplexTypePtr current = complex_type;
+  std::set<XsdComplexTypePtr> visited;
+  visited.insert(current);
   while (current->has_extension_base()) {
     if (XsdComplexTypePtr base = GetBaseType(current)) {
+      if (!visited.insert(base).second) {
+        return false;  // XSD is invalid: the type is among its own bases.
+      }
       if (type_hier) {
         type_hier->push_back(base);
       }
@@ -241,10 +247,10 @@ bool XsdFile::SearchTypeHierarchy(const XsdComplexTypePtr& complex_type,
   if (find_type == complex_type) {
     return true;
   }
-  if (XsdComplexTypePtr base_type = GetBaseType(complex_type)) {
-    return SearchTypeHierarchy(base_type, find_type);
-  }
-  return false;
+  vector<XsdComplexTypePtr> type_hier;
+  GetTypeHierarchy(complex_type, &type_hier);
+  return std::find(type_hier.begin(), type_hier.end(), find_type) !=
+         type_hier.end();
 }
 
 void XsdFile::GetElementsOfType(const XsdComplexTypePtr& type,
-- 
2.43.0


From 5d735ddb87304cace220d85381ebe76e82236959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:25 +0000
Subject: [PATCH 54/56] fix: a request without a method fails

---
 src/kml/convenience/http_client.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/kml/convenience/http_client.cc b/src/kml/convenience/http_client.cc
index f7fafa6..be0446f 100644
--- a/src/kml/convenience/http_client.cc
+++ b/src/kml/convenience/http_client.cc
@@ -111,8 +111,12 @@ bool HttpClient::SendRequest(const HttpMethodEnum method,
                              const StringPairVector* headers,
                              const string* data,
                              string* response) const {
+  const char* method_string = HttpMethod::GetMethodString(method);
+  if (!method_string) {
+    return false;
+  }
   if (response) {
-    response->append(HttpMethod::GetMethodString(method));
+    response->append(method_string);
     response->append(" ");
     response->append(uri);
     response->append("\n");
-- 
2.43.0


From e06e37e232032fe0eaae5014e1eeff226be6c6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:37 +0000
Subject: [PATCH 55/56] fix: declare the namespaces of simple elements when a
 file is written

Only complex elements were asked for their namespace, so a file whose only
gx: content was a field such as gx:balloonVisibility or gx:altitudeMode was
written without declaring the prefix and could not be read by a
namespace-aware parser.
---
 src/kml/engine/find_xml_namespaces.cc | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/kml/engine/find_xml_namespaces.cc b/src/kml/engine/find_xml_namespaces.cc
index 0500e3a..c4e0c66 100644
--- a/src/kml/engine/find_xml_namespaces.cc
+++ b/src/kml/engine/find_xml_namespaces.cc
@@ -28,6 +28,7 @@
 #include "kml/base/attributes.h"
 #include "kml/base/xml_namespaces.h"
 #include "kml/dom/serializer.h"
+#include "kml/dom/xsd.h"
 
 using kmlbase::Attributes;
 using kmldom::ElementPtr;
@@ -43,8 +44,7 @@ class XmlNamespaceFinder : public Serializer {
     : xmlns_id_set_(xmlns_id_set) {
   }
 
-  // This is the only Serializer virtual method implemented
-  // in ElementFinder.  As such only complex elements are found.
+  // Each complex element knows its own namespace.
   virtual void SaveElement(const ElementPtr& element) {
     xmlns_id_set_->insert(element->get_xmlns());
 
@@ -52,7 +52,24 @@ class XmlNamespaceFinder : public Serializer {
     Serializer::SaveElement(element);
   }
 
+  // Simple elements have no Element of their own: the namespace of, for
+  // example, gx:altitudeMode in a LookAt is that of the prefix of its name.
+  virtual void SaveStringFieldById(int type_id, string value) {
+    InsertPrefixOf(type_id);
+  }
+
  private:
+  void InsertPrefixOf(int type_id) {
+    const string name = xsd_.ElementName(type_id);
+    if (name.compare(0, 5, "atom:") == 0) {
+      xmlns_id_set_->insert(kmlbase::XMLNS_ATOM);
+    } else if (name.compare(0, 3, "gx:") == 0) {
+      xmlns_id_set_->insert(kmlbase::XMLNS_GX22);
+    } else if (name.compare(0, 4, "xal:") == 0) {
+      xmlns_id_set_->insert(kmlbase::XMLNS_XAL);
+    }
+  }
+
   XmlnsIdSet* xmlns_id_set_;
 };
 
-- 
2.43.0


From 630a98106ff7ede6adb0dde1acaa205d79db896d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:28 +0000
Subject: [PATCH 56/56] fix: keep the ExtendedData of a placemark written in an
 old Schema's name

Closing the element replaced an ExtendedData the placemark already had by
the one made from its Schema fields.
---
 src/kml/dom/kml_handler.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kml/dom/kml_handler.cc b/src/kml/dom/kml_handler.cc
index bd87420..ef6476d 100644
--- a/src/kml/dom/kml_handler.cc
+++ b/src/kml/dom/kml_handler.cc
@@ -452,8 +452,9 @@ void KmlHandler::HandleOldSchemaParentEndElement(
   // We've reached the closing tag of the old placemark substitute
   // element. Take the SimpleData elements we've been creating from its
   // children and hand them to an ExtendedData, then give that to the
-  // parent placemark.
-  ExtendedDataPtr extendeddata = kml_factory.CreateExtendedData();
+  // parent placemark.  The placemark may already have an ExtendedData.
+  ExtendedDataPtr extendeddata = placemark->has_extendeddata() ?
+      placemark->get_extendeddata() : kml_factory.CreateExtendedData();
   SchemaDataPtr schemadata = kml_factory.CreateSchemaData();
   schemadata->set_schemaurl(old_schema_name + "_id");
   std::vector<SimpleDataPtr>::const_iterator itr =
-- 
2.43.0

