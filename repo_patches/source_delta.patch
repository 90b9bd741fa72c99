From 08541d9c52ae86c0be85f1a4078376e11bffae24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:02 +0000
Subject: [PATCH 01/45] fix: a group reference with maxOccurs="1" is not a list

---
 xmlGroup.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/xmlGroup.go b/xmlGroup.go
index 2a463e6..096e5c9 100644
--- a/xmlGroup.go
+++ b/xmlGroup.go
@@ -8,7 +8,10 @@
 
 package xgen
 
-import "encoding/xml"
+import (
+	"encoding/xml"
+	"strconv"
+)
 
 // OnGroup handles parsing event on the group start elements. The group
 // element is used to define a group of elements to be used in complex type
@@ -27,8 +30,12 @@ func (opt *Options) OnGroup(ele xml.StartElement, protoTree []interface{}) (err
 			}
 		}
 		if attr.Name.Local == "maxOccurs" {
-			if attr.Value != "0" {
-				group.Plural = true
+			var maxOccurs int
+			if maxOccurs, err = strconv.Atoi(attr.Value); attr.Value != "unbounded" && err != nil {
+				return
+			}
+			if attr.Value == "unbounded" || maxOccurs > 1 {
+				group.Plural, err = true, nil
 			}
 		}
 	}
-- 
2.43.0


From ce3a700d419afaed1b30c7325ae5e3faf5746d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:03 +0000
Subject: [PATCH 02/45] fix: members of a Rust group struct are lists when they
 repeat themselves

---
 genRust.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/genRust.go b/genRust.go
index f3b9cb6..ddbf9bf 100644
--- a/genRust.go
+++ b/genRust.go
@@ -275,7 +275,7 @@ func (gen *CodeGenerator) RustGroup(v *Group) {
 		for _, element := range v.Elements {
 			fieldType := genRustFieldType(getBasefromSimpleType(trimNSPrefix(element.Type), gen.ProtoTree))
 			fieldName := genRustFieldName(element.Name)
-			if v.Plural {
+			if element.Plural {
 				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Vec<%s>,\n", element.Name, fieldName, fieldType)
 			} else {
 				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", element.Name, fieldName, fieldType)
@@ -284,7 +284,7 @@ func (gen *CodeGenerator) RustGroup(v *Group) {
 		for _, group := range v.Groups {
 			fieldType := genRustFieldType(getBasefromSimpleType(trimNSPrefix(group.Ref), gen.ProtoTree))
 			fieldName := genRustFieldName(group.Name)
-			if v.Plural {
+			if group.Plural {
 				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Vec<%s>,\n", group.Name, fieldName, fieldType)
 			} else {
 				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", group.Name, fieldName, fieldType)
-- 
2.43.0


From 9ac59607d451374c306f09427b28ab098b0dbeb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:05 +0000
Subject: [PATCH 03/45] fix: attribute group members in Rust and Java have the
 declared type

---
 genJava.go | 2 +-
 genRust.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/genJava.go b/genJava.go
index 70cbc87..06a13a1 100644
--- a/genJava.go
+++ b/genJava.go
@@ -234,7 +234,7 @@ func (gen *CodeGenerator) JavaAttributeGroup(v *AttributeGroup) {
 				required = ""
 			}
 			fieldType := genJavaFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree))
-			content += fmt.Sprintf("\t@XmlAttribute(name = \"%s\"%s)\n\tprotected %sAttr %s;\n", attribute.Name, required, fieldType, genJavaFieldName(attribute.Name, false))
+			content += fmt.Sprintf("\t@XmlAttribute(name = \"%s\"%s)\n\tprotected %s %sAttr;\n", attribute.Name, required, fieldType, genJavaFieldName(attribute.Name, false))
 		}
 		content += "}\n"
 		gen.StructAST[v.Name] = content
diff --git a/genRust.go b/genRust.go
index ddbf9bf..e1daa22 100644
--- a/genRust.go
+++ b/genRust.go
@@ -305,7 +305,7 @@ func (gen *CodeGenerator) RustAttributeGroup(v *AttributeGroup) {
 			if attribute.Optional {
 				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Option<%s>,\n", attribute.Name, genRustFieldName(attribute.Name), genRustFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree)))
 			} else {
-				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Vec<%s>,\n", attribute.Name, genRustFieldName(attribute.Name), genRustFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree)))
+				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", attribute.Name, genRustFieldName(attribute.Name), genRustFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree)))
 			}
 		}
 		gen.StructAST[v.Name] = content
-- 
2.43.0


From 27e9e7822a28e4d3de553636c640db05328b2b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:31 +0000
Subject: [PATCH 04/45] fix: array-typed members of a C group struct use array
 notation

---
 genC.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/genC.go b/genC.go
index 09e2a88..d870c58 100644
--- a/genC.go
+++ b/genC.go
@@ -198,11 +198,12 @@ func (gen *CodeGenerator) CGroup(v *Group) {
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		content := "struct {\n"
 		for _, element := range v.Elements {
-			var plural string
-			if element.Plural {
+			var plural, fieldType string
+			var ok bool
+			if fieldType, ok = innerArray(genCFieldType(getBasefromSimpleType(trimNSPrefix(element.Type), gen.ProtoTree))); ok || element.Plural {
 				plural = "[]"
 			}
-			content += fmt.Sprintf("\t%s %s%s;\n", genCFieldType(getBasefromSimpleType(trimNSPrefix(element.Type), gen.ProtoTree)), genCFieldName(element.Name, false), plural)
+			content += fmt.Sprintf("\t%s %s%s;\n", fieldType, genCFieldName(element.Name, false), plural)
 		}
 
 		for _, group := range v.Groups {
-- 
2.43.0


From d08c103a35fb5e4923b131fbf4459945ac7acd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:31 +0000
Subject: [PATCH 05/45] fix: an attribute group reference is a single member in
 Rust

---
 genRust.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/genRust.go b/genRust.go
index e1daa22..39a73f9 100644
--- a/genRust.go
+++ b/genRust.go
@@ -215,7 +215,7 @@ func (gen *CodeGenerator) RustComplexType(v *ComplexType) {
 		var content string
 		for _, attrGroup := range v.AttributeGroup {
 			fieldType := getBasefromSimpleType(trimNSPrefix(attrGroup.Ref), gen.ProtoTree)
-			content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Vec<%s>,\n", attrGroup.Name, genRustFieldName(attrGroup.Name), genRustFieldType(fieldType))
+			content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", attrGroup.Name, genRustFieldName(attrGroup.Name), genRustFieldType(fieldType))
 		}
 		for _, attribute := range v.Attributes {
 			fieldType := genRustFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree))
-- 
2.43.0


From 77361c89b890a228e18c677b77860cd6681cfcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:32 +0000
Subject: [PATCH 06/45] fix: list items of a declared type are spelled once in
 Go and C

---
 genC.go  | 4 ++--
 genGo.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/genC.go b/genC.go
index d870c58..ec12f7c 100644
--- a/genC.go
+++ b/genC.go
@@ -101,8 +101,8 @@ func genCFieldType(name string) string {
 func (gen *CodeGenerator) CSimpleType(v *SimpleType) {
 	if v.List {
 		if _, ok := gen.StructAST[v.Name]; !ok {
-			fieldType := genCFieldType(getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree))
-			content := fmt.Sprintf("%s %s[];\n", genCFieldType(fieldType), genCFieldName(v.Name, false))
+			fieldType, _ := innerArray(genCFieldType(getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree)))
+			content := fmt.Sprintf("%s %s[];\n", fieldType, genCFieldName(v.Name, false))
 			gen.StructAST[v.Name] = content
 			fieldName := genCFieldName(v.Name, true)
 			gen.Field += fmt.Sprintf("%stypedef %s", genFieldComment(fieldName, v.Doc, "//"), gen.StructAST[v.Name])
diff --git a/genGo.go b/genGo.go
index c27fa36..731a97c 100644
--- a/genGo.go
+++ b/genGo.go
@@ -138,7 +138,7 @@ func (gen *CodeGenerator) GoSimpleType(v *SimpleType) {
 			if fieldType == "time.Time" {
 				gen.ImportTime = true
 			}
-			content := fmt.Sprintf(" []%s\n", genGoFieldType(fieldType))
+			content := fmt.Sprintf(" []%s\n", fieldType)
 			gen.StructAST[v.Name] = content
 			fieldName := genGoFieldName(v.Name, true)
 			gen.Field += fmt.Sprintf("%stype %s%s", genFieldComment(fieldName, v.Doc, "//"), fieldName, gen.StructAST[v.Name])
-- 
2.43.0


From 36210f4935de19f5d4de3605767009ca0e6037f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:48 +0000
Subject: [PATCH 07/45] fix: a nested anonymous type does not inherit the
 plurality around it

---
 xmlComplexType.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xmlComplexType.go b/xmlComplexType.go
index ff477e0..e003032 100644
--- a/xmlComplexType.go
+++ b/xmlComplexType.go
@@ -13,6 +13,9 @@ import "encoding/xml"
 // OnComplexType handles parsing event on the complex start elements. A
 // complex element contains other elements and/or attributes.
 func (opt *Options) OnComplexType(ele xml.StartElement, protoTree []interface{}) (err error) {
+	// The particles of a type repeat on their own, not with the choices around
+	// the element the type is declared in.
+	opt.Choice.Push(&Choice{})
 	if opt.ComplexType.Len() > 0 {
 		e := opt.Element.Pop().(*Element)
 		opt.ComplexType.Push(&ComplexType{
@@ -40,6 +43,7 @@ func (opt *Options) OnComplexType(ele xml.StartElement, protoTree []interface{})
 // EndComplexType handles parsing event on the complex end elements.
 func (opt *Options) EndComplexType(ele xml.EndElement, protoTree []interface{}) (err error) {
 	opt.ProtoTree = append(opt.ProtoTree, opt.ComplexType.Pop())
+	opt.Choice.Pop()
 	opt.CurrentEle = ""
 	return
 }
-- 
2.43.0


From 203fb640ba50e701668ca643cad44ef66611ee62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:49 +0000
Subject: [PATCH 08/45] fix: children of a repeating sequence are lists

---
 xmlSequence.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)
 create mode 100644 xmlSequence.go

diff --git a/xmlSequence.go b/xmlSequence.go
new file mode 100644
index 0000000..6982b6e
--- /dev/null
+++ b/xmlSequence.go
@@ -0,0 +1,22 @@
+// Copyright 2021 The xgen Authors. All rights reserved. Use of this source
+// code is governed by a BSD-style license that can be found in the LICENSE
+// file.
+//
+// Package xgen written in pure Go providing a set of functions that allow you
+// to parse XSD (XML schema files). This library needs Go version 1.10 or
+// later.
+
+package xgen
+
+import "encoding/xml"
+
+// OnSequence handles parsing event on the sequence start elements. A sequence
+// that can repeat makes the elements it contains plural the way a choice does.
+func (opt *Options) OnSequence(ele xml.StartElement, protoTree []interface{}) (err error) {
+	return opt.OnChoice(ele, protoTree)
+}
+
+// EndSequence handles parsing event on the sequence end elements.
+func (opt *Options) EndSequence(ele xml.EndElement, protoTree []interface{}) (err error) {
+	return opt.EndChoice(ele, protoTree)
+}
-- 
2.43.0


From 44bac90f551db00c766e4522d26eabf7d47d682f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:38 +0000
Subject: [PATCH 09/45] fix: element declarations are closed by their own end
 tag

Untyped elements were pushed twice and never popped inside a complex type,
so leftovers of one declaration changed later ones; an anonymous type
without an element around it panicked.
---
 xmlComplexType.go | 28 +++++++++++-----------------
 xmlElement.go     | 38 ++++++++++++++++++--------------------
 2 files changed, 29 insertions(+), 37 deletions(-)

diff --git a/xmlComplexType.go b/xmlComplexType.go
index e003032..c75e209 100644
--- a/xmlComplexType.go
+++ b/xmlComplexType.go
@@ -16,27 +16,21 @@ func (opt *Options) OnComplexType(ele xml.StartElement, protoTree []interface{})
 	// The particles of a type repeat on their own, not with the choices around
 	// the element the type is declared in.
 	opt.Choice.Push(&Choice{})
-	if opt.ComplexType.Len() > 0 {
-		e := opt.Element.Pop().(*Element)
-		opt.ComplexType.Push(&ComplexType{
-			Name: e.Name,
-		})
-	}
-
+	c := ComplexType{}
 	if opt.ComplexType.Len() == 0 {
-		c := ComplexType{}
 		opt.CurrentEle = opt.InElement
-		for _, attr := range ele.Attr {
-			if attr.Name.Local == "name" {
-				c.Name = attr.Value
-			}
-		}
-		if c.Name == "" {
-			e := opt.Element.Pop().(*Element)
-			c.Name = e.Name
+	}
+	for _, attr := range ele.Attr {
+		if attr.Name.Local == "name" {
+			c.Name = attr.Value
 		}
-		opt.ComplexType.Push(&c)
 	}
+	if c.Name == "" && opt.Element.Len() > 0 {
+		// an anonymous type is known by the name of its element
+		e := opt.Element.Peek().(*Element)
+		c.Name, e.Type = e.Name, e.Name
+	}
+	opt.ComplexType.Push(&c)
 	return
 }
 
diff --git a/xmlElement.go b/xmlElement.go
index ffc3c84..6154176 100644
--- a/xmlElement.go
+++ b/xmlElement.go
@@ -50,20 +50,26 @@ func (opt *Options) OnElement(ele xml.StartElement, protoTree []interface{}) (er
 		}
 	}
 
-	if e.Type == "" {
-		e.Type, err = opt.GetValueType(e.Name, protoTree)
-		if err != nil {
-			return
-		}
-		opt.Element.Push(&e)
-	}
-
 	if opt.Choice.Len() > 0 {
 		e.Plural = e.Plural || opt.Choice.Peek().(*Choice).Plural
 	}
+	opt.Element.Push(&e)
+	return
+}
+
+// EndElement handles parsing event on the element end elements.
+func (opt *Options) EndElement(ele xml.EndElement, protoTree []interface{}) (err error) {
+	if opt.Element.Len() == 0 {
+		return
+	}
+	e := opt.Element.Pop().(*Element)
+	if e.Type == "" {
+		// neither a type attribute nor an anonymous type
+		e.Type, _ = getBuildInTypeByLang("anyType", opt.Lang)
+	}
 
 	if opt.ComplexType.Len() > 0 {
-		element, i := findElement(&e, opt.ComplexType.Peek().(*ComplexType).Elements)
+		element, i := findElement(e, opt.ComplexType.Peek().(*ComplexType).Elements)
 		// Handle a case where two elements with the same name and type are present in the same complex type
 		// This can happen with a Choice that includes a definition for a single value of a type along with
 		// an alternative that is an array of the same type with the same name. This tends to happen for backward
@@ -75,27 +81,19 @@ func (opt *Options) OnElement(ele xml.StartElement, protoTree []interface{}) (er
 			element.Plural = element.Plural || e.Plural
 			opt.ComplexType.Peek().(*ComplexType).Elements[i] = *element
 		} else {
-			opt.ComplexType.Peek().(*ComplexType).Elements = append(opt.ComplexType.Peek().(*ComplexType).Elements, e)
+			opt.ComplexType.Peek().(*ComplexType).Elements = append(opt.ComplexType.Peek().(*ComplexType).Elements, *e)
 		}
 		return
 	}
 
 	if opt.InGroup > 0 {
 		if opt.Group.Len() > 0 {
-			opt.Group.Peek().(*Group).Elements = append(opt.Group.Peek().(*Group).Elements, e)
+			opt.Group.Peek().(*Group).Elements = append(opt.Group.Peek().(*Group).Elements, *e)
 		}
 		return
 	}
 
-	opt.Element.Push(&e)
-	return
-}
-
-// EndElement handles parsing event on the element end elements.
-func (opt *Options) EndElement(ele xml.EndElement, protoTree []interface{}) (err error) {
-	if opt.Element.Len() > 0 && opt.ComplexType.Len() == 0 {
-		opt.ProtoTree = append(opt.ProtoTree, opt.Element.Pop())
-	}
+	opt.ProtoTree = append(opt.ProtoTree, e)
 	return
 }
 
-- 
2.43.0


From 81c325729fa09eef6316551c28d3bd1c9bd6cd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:40 +0000
Subject: [PATCH 10/45] fix: anonymous simple types belong to the declaration
 they are written in

The type was assigned and popped at each facet (and not at all without
facets), so that named simple types got lost, complex types were closed
early and attributes of unrestricted types stayed untyped.
---
 parser.go            |  3 +++
 xmlAttribute.go      |  4 ++++
 xmlEnumeration.go    | 12 ------------
 xmlExtension.go      |  7 -------
 xmlFractionDigits.go |  6 ------
 xmlLength.go         |  6 ------
 xmlMaxExclusive.go   |  6 ------
 xmlMaxInclusive.go   |  6 ------
 xmlMaxLength.go      |  6 ------
 xmlMinExclusive.go   |  6 ------
 xmlMinInclusive.go   |  6 ------
 xmlMinLength.go      |  6 ------
 xmlPattern.go        | 13 -------------
 xmlRestriction.go    | 12 ------------
 xmlSimpleType.go     | 28 +++++++++++++++++++---------
 xmlTotalDigits.go    |  6 ------
 xmlWhiteSpace.go     |  6 ------
 17 files changed, 26 insertions(+), 113 deletions(-)

diff --git a/parser.go b/parser.go
index 781c36a..c04360b 100644
--- a/parser.go
+++ b/parser.go
@@ -50,6 +50,8 @@ type Options struct {
 	Group          *Stack
 	AttributeGroup *Stack
 	Choice         *Stack
+
+	simpleTypeDepth int
 }
 
 // NewParser creates a new parser options for the Parse. Useful for XML schema
@@ -88,6 +90,7 @@ func (opt *Options) Parse() (err error) {
 	opt.InGroup = 0
 	opt.InUnion = false
 	opt.InAttributeGroup = false
+	opt.simpleTypeDepth = 0
 
 	opt.SimpleType = NewStack()
 	opt.ComplexType = NewStack()
diff --git a/xmlAttribute.go b/xmlAttribute.go
index 74adf1a..676599e 100644
--- a/xmlAttribute.go
+++ b/xmlAttribute.go
@@ -48,6 +48,10 @@ func (opt *Options) EndAttribute(ele xml.EndElement, protoTree []interface{}) (e
 	if opt.Attribute.Len() == 0 {
 		return
 	}
+	if attribute := opt.Attribute.Peek().(*Attribute); attribute.Type == "" {
+		// neither a type attribute nor an anonymous simple type
+		attribute.Type, _ = getBuildInTypeByLang("anyType", opt.Lang)
+	}
 	if opt.AttributeGroup.Len() > 0 {
 		opt.AttributeGroup.Peek().(*AttributeGroup).Attributes = append(opt.AttributeGroup.Peek().(*AttributeGroup).Attributes, *opt.Attribute.Pop().(*Attribute))
 		return
diff --git a/xmlEnumeration.go b/xmlEnumeration.go
index 5bebc70..243ca8c 100644
--- a/xmlEnumeration.go
+++ b/xmlEnumeration.go
@@ -25,17 +25,5 @@ func (opt *Options) OnEnumeration(ele xml.StartElement, protoTree []interface{})
 // EndEnumeration handles parsing event on the enumeration end elements.
 // Enumeration defines a list of acceptable values.
 func (opt *Options) EndEnumeration(ele xml.EndElement, protoTree []interface{}) (err error) {
-	if opt.Attribute.Len() > 0 && opt.SimpleType.Peek() != nil {
-		if opt.Attribute.Peek().(*Attribute).Type, err = opt.GetValueType(opt.SimpleType.Peek().(*SimpleType).Base, opt.ProtoTree); err != nil {
-			return
-		}
-		opt.CurrentEle = ""
-	}
-	if opt.SimpleType.Len() > 0 && opt.Element.Len() > 0 {
-		if opt.Element.Peek().(*Element).Type, err = opt.GetValueType(opt.SimpleType.Peek().(*SimpleType).Base, opt.ProtoTree); err != nil {
-			return
-		}
-		opt.CurrentEle = ""
-	}
 	return
 }
diff --git a/xmlExtension.go b/xmlExtension.go
index 4e3803d..a3f4edc 100644
--- a/xmlExtension.go
+++ b/xmlExtension.go
@@ -37,12 +37,5 @@ func (opt *Options) OnExtension(ele xml.StartElement, protoTree []interface{}) (
 
 // EndExtension handles parsing event on the extension end elements.
 func (opt *Options) EndExtension(ele xml.EndElement, protoTree []interface{}) (err error) {
-	if opt.Attribute.Len() > 0 && opt.SimpleType.Peek() != nil {
-		opt.Attribute.Peek().(*Attribute).Type, err = opt.GetValueType(opt.SimpleType.Pop().(*SimpleType).Base, opt.ProtoTree)
-		if err != nil {
-			return
-		}
-		opt.CurrentEle = ""
-	}
 	return
 }
\ No newline at end of file
diff --git a/xmlFractionDigits.go b/xmlFractionDigits.go
index bbc87e9..fea8abd 100644
--- a/xmlFractionDigits.go
+++ b/xmlFractionDigits.go
@@ -15,11 +15,5 @@ import "encoding/xml"
 // the maximum number of decimal places allowed. Must be equal to or greater
 // than zero.
 func (opt *Options) EndFractionDigits(ele xml.EndElement, protoTree []interface{}) (err error) {
-	if opt.SimpleType.Len() > 0 && opt.Element.Len() > 0 {
-		if opt.Element.Peek().(*Element).Type, err = opt.GetValueType(opt.SimpleType.Pop().(*SimpleType).Base, opt.ProtoTree); err != nil {
-			return
-		}
-		opt.CurrentEle = ""
-	}
 	return
 }
diff --git a/xmlLength.go b/xmlLength.go
index d091fc3..7afdf6c 100644
--- a/xmlLength.go
+++ b/xmlLength.go
@@ -14,11 +14,5 @@ import "encoding/xml"
 // specifies the exact number of characters or list items allowed. Must be
 // equal to or greater than zero.
 func (opt *Options) EndLength(ele xml.EndElement, protoTree []interface{}) (err error) {
-	if opt.SimpleType.Len() > 0 && opt.Element.Len() > 0 {
-		if opt.Element.Peek().(*Element).Type, err = opt.GetValueType(opt.SimpleType.Pop().(*SimpleType).Base, opt.ProtoTree); err != nil {
-			return
-		}
-		opt.CurrentEle = ""
-	}
 	return
 }
diff --git a/xmlMaxExclusive.go b/xmlMaxExclusive.go
index d8c4d78..1ed5d56 100644
--- a/xmlMaxExclusive.go
+++ b/xmlMaxExclusive.go
@@ -14,11 +14,5 @@ import "encoding/xml"
 // MaxExclusive specifies the upper bounds for numeric values (the value must
 // be less than this value).
 func (opt *Options) EndMaxExclusive(ele xml.EndElement, protoTree []interface{}) (err error) {
-	if opt.SimpleType.Len() > 0 && opt.Element.Len() > 0 {
-		if opt.Element.Peek().(*Element).Type, err = opt.GetValueType(opt.SimpleType.Pop().(*SimpleType).Base, opt.ProtoTree); err != nil {
-			return
-		}
-		opt.CurrentEle = ""
-	}
 	return
 }
diff --git a/xmlMaxInclusive.go b/xmlMaxInclusive.go
index d50fac9..99fc0ff 100644
--- a/xmlMaxInclusive.go
+++ b/xmlMaxInclusive.go
@@ -14,11 +14,5 @@ import "encoding/xml"
 // MaxInclusive specifies the upper bounds for numeric values (the value must
 // be less than or equal to this value).
 func (opt *Options) EndMaxInclusive(ele xml.EndElement, protoTree []interface{}) (err error) {
-	if opt.SimpleType.Len() > 0 && opt.Element.Len() > 0 {
-		if opt.Element.Peek().(*Element).Type, err = opt.GetValueType(opt.SimpleType.Pop().(*SimpleType).Base, opt.ProtoTree); err != nil {
-			return
-		}
-		opt.CurrentEle = ""
-	}
 	return
 }
diff --git a/xmlMaxLength.go b/xmlMaxLength.go
index c0ee22e..231e518 100644
--- a/xmlMaxLength.go
+++ b/xmlMaxLength.go
@@ -14,11 +14,5 @@ import "encoding/xml"
 // specifies the maximum number of characters or list items allowed. Must be
 // equal to or greater than zero.
 func (opt *Options) EndMaxLength(ele xml.EndElement, protoTree []interface{}) (err error) {
-	if opt.SimpleType.Len() > 0 && opt.Element.Len() > 0 {
-		if opt.Element.Peek().(*Element).Type, err = opt.GetValueType(opt.SimpleType.Pop().(*SimpleType).Base, opt.ProtoTree); err != nil {
-			return
-		}
-		opt.CurrentEle = ""
-	}
 	return
 }
diff --git a/xmlMinExclusive.go b/xmlMinExclusive.go
index 1f46897..cf8d4b1 100644
--- a/xmlMinExclusive.go
+++ b/xmlMinExclusive.go
@@ -14,11 +14,5 @@ import "encoding/xml"
 // MinExclusive specifies the lower bounds for numeric values (the value must
 // be greater than this value).
 func (opt *Options) EndMinExclusive(ele xml.EndElement, protoTree []interface{}) (err error) {
-	if opt.SimpleType.Len() > 0 && opt.Element.Len() > 0 {
-		if opt.Element.Peek().(*Element).Type, err = opt.GetValueType(opt.SimpleType.Pop().(*SimpleType).Base, opt.ProtoTree); err != nil {
-			return
-		}
-		opt.CurrentEle = ""
-	}
 	return
 }
diff --git a/xmlMinInclusive.go b/xmlMinInclusive.go
index a9bd4f0..87c97d4 100644
--- a/xmlMinInclusive.go
+++ b/xmlMinInclusive.go
@@ -14,11 +14,5 @@ import "encoding/xml"
 // MinInclusive specifies the lower bounds for numeric values (the value must
 // be greater than or equal to this value).
 func (opt *Options) EndMinInclusive(ele xml.EndElement, protoTree []interface{}) (err error) {
-	if opt.SimpleType.Len() > 0 && opt.Element.Len() > 0 {
-		if opt.Element.Peek().(*Element).Type, err = opt.GetValueType(opt.SimpleType.Pop().(*SimpleType).Base, opt.ProtoTree); err != nil {
-			return
-		}
-		opt.CurrentEle = ""
-	}
 	return
 }
diff --git a/xmlMinLength.go b/xmlMinLength.go
index b60ea67..b68e1d8 100644
--- a/xmlMinLength.go
+++ b/xmlMinLength.go
@@ -14,11 +14,5 @@ import "encoding/xml"
 // specifies the minimum number of characters or list items allowed. Must be
 // equal to or greater than zero.
 func (opt *Options) EndMinLength(ele xml.EndElement, protoTree []interface{}) (err error) {
-	if opt.SimpleType.Len() > 0 && opt.Element.Len() > 0 {
-		if opt.Element.Peek().(*Element).Type, err = opt.GetValueType(opt.SimpleType.Pop().(*SimpleType).Base, opt.ProtoTree); err != nil {
-			return
-		}
-		opt.CurrentEle = ""
-	}
 	return
 }
diff --git a/xmlPattern.go b/xmlPattern.go
index 53d63ce..8ad89af 100644
--- a/xmlPattern.go
+++ b/xmlPattern.go
@@ -13,18 +13,5 @@ import "encoding/xml"
 // EndPattern handles parsing event on the pattern end elements. Pattern
 // defines the exact sequence of characters that are acceptable.
 func (opt *Options) EndPattern(ele xml.EndElement, protoTree []interface{}) (err error) {
-	if opt.Attribute.Len() > 0 && opt.SimpleType.Peek() != nil {
-		opt.Attribute.Peek().(*Attribute).Type, err = opt.GetValueType(opt.SimpleType.Pop().(*SimpleType).Base, opt.ProtoTree)
-		if err != nil {
-			return
-		}
-		opt.CurrentEle = ""
-	}
-	if opt.SimpleType.Len() > 0 && opt.Element.Len() > 0 {
-		if opt.Element.Peek().(*Element).Type, err = opt.GetValueType(opt.SimpleType.Pop().(*SimpleType).Base, opt.ProtoTree); err != nil {
-			return
-		}
-		opt.CurrentEle = ""
-	}
 	return
 }
diff --git a/xmlRestriction.go b/xmlRestriction.go
index 8f2880c..2ece9b3 100644
--- a/xmlRestriction.go
+++ b/xmlRestriction.go
@@ -37,17 +37,5 @@ func (opt *Options) OnRestriction(ele xml.StartElement, protoTree []interface{})
 
 // EndRestriction handles parsing event on the restriction end elements.
 func (opt *Options) EndRestriction(ele xml.EndElement, protoTree []interface{}) (err error) {
-	if opt.Attribute.Len() > 0 && opt.SimpleType.Peek() != nil {
-		opt.Attribute.Peek().(*Attribute).Type, err = opt.GetValueType(opt.SimpleType.Pop().(*SimpleType).Base, opt.ProtoTree)
-		if err != nil {
-			return
-		}
-		opt.CurrentEle = ""
-	}
-	if !opt.Element.Empty() {
-		if !opt.ComplexType.Empty() && len(opt.ComplexType.Peek().(*ComplexType).Elements) > 0 {
-			opt.ComplexType.Peek().(*ComplexType).Elements[len(opt.ComplexType.Peek().(*ComplexType).Elements)-1] = *opt.Element.Peek().(*Element)
-		}
-	}
 	return
 }
diff --git a/xmlSimpleType.go b/xmlSimpleType.go
index 45f9e25..0fd4fef 100644
--- a/xmlSimpleType.go
+++ b/xmlSimpleType.go
@@ -17,6 +17,7 @@ func (opt *Options) OnSimpleType(ele xml.StartElement, protoTree []interface{})
 	if opt.SimpleType.Len() == 0 {
 		opt.SimpleType.Push(&SimpleType{})
 	}
+	opt.simpleTypeDepth++
 	if opt.CurrentEle == "attributeGroup" {
 		// return
 	}
@@ -31,18 +32,27 @@ func (opt *Options) OnSimpleType(ele xml.StartElement, protoTree []interface{})
 
 // EndSimpleType handles parsing event on the simpleType end elements.
 func (opt *Options) EndSimpleType(ele xml.EndElement, protoTree []interface{}) (err error) {
-	if opt.SimpleType.Len() > 0 && opt.Attribute.Len() > 0 {
-		opt.Attribute.Peek().(*Attribute).Type = opt.SimpleType.Pop().(*SimpleType).Base
+	if opt.SimpleType.Len() == 0 {
 		return
 	}
-	if ele.Name.Local == opt.CurrentEle && opt.ComplexType.Len() == 1 {
-		opt.ProtoTree = append(opt.ProtoTree, opt.ComplexType.Pop())
-		opt.CurrentEle = ""
+	if opt.simpleTypeDepth--; opt.simpleTypeDepth > 0 {
+		// item or member type of the simple type around it
+		return
 	}
-
-	if ele.Name.Local == opt.CurrentEle && !opt.InUnion {
-		opt.ProtoTree = append(opt.ProtoTree, opt.SimpleType.Pop())
-		opt.CurrentEle = ""
+	simpleType := opt.SimpleType.Pop().(*SimpleType)
+	opt.CurrentEle = ""
+	if opt.Attribute.Len() > 0 {
+		opt.Attribute.Peek().(*Attribute).Type = simpleType.Base
+		return
+	}
+	if opt.Element.Len() > 0 {
+		if e := opt.Element.Peek().(*Element); e.Type == "" {
+			e.Type = simpleType.Base
+		}
+		return
+	}
+	if opt.ComplexType.Len() == 0 {
+		opt.ProtoTree = append(opt.ProtoTree, simpleType)
 	}
 	return
 }
diff --git a/xmlTotalDigits.go b/xmlTotalDigits.go
index ae4e7de..de2434b 100644
--- a/xmlTotalDigits.go
+++ b/xmlTotalDigits.go
@@ -14,11 +14,5 @@ import "encoding/xml"
 // TotalDigits specifies the exact number of digits allowed. Must be greater
 // than zero.
 func (opt *Options) EndTotalDigits(ele xml.EndElement, protoTree []interface{}) (err error) {
-	if opt.SimpleType.Len() > 0 && opt.Element.Len() > 0 {
-		if opt.Element.Peek().(*Element).Type, err = opt.GetValueType(opt.SimpleType.Pop().(*SimpleType).Base, opt.ProtoTree); err != nil {
-			return
-		}
-		opt.CurrentEle = ""
-	}
 	return
 }
diff --git a/xmlWhiteSpace.go b/xmlWhiteSpace.go
index 4ec2b78..65c4e29 100644
--- a/xmlWhiteSpace.go
+++ b/xmlWhiteSpace.go
@@ -14,11 +14,5 @@ import "encoding/xml"
 // WhiteSpace specifies how white space (line feeds, tabs, spaces, and
 // carriage returns) is handled.
 func (opt *Options) EndWhiteSpace(ele xml.EndElement, protoTree []interface{}) (err error) {
-	if opt.SimpleType.Len() > 0 && opt.Element.Len() > 0 {
-		if opt.Element.Peek().(*Element).Type, err = opt.GetValueType(opt.SimpleType.Pop().(*SimpleType).Base, opt.ProtoTree); err != nil {
-			return
-		}
-		opt.CurrentEle = ""
-	}
 	return
 }
-- 
2.43.0


From 062071f758c3ecdb5aef618fd57010596e295a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:42 +0000
Subject: [PATCH 11/45] fix: a group with anonymous types in it is still
 declared

---
 xmlGroup.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/xmlGroup.go b/xmlGroup.go
index 096e5c9..c22eaef 100644
--- a/xmlGroup.go
+++ b/xmlGroup.go
@@ -68,13 +68,12 @@ func (opt *Options) OnGroup(ele xml.StartElement, protoTree []interface{}) (err
 
 // EndGroup handles parsing event on the group end elements.
 func (opt *Options) EndGroup(ele xml.EndElement, protoTree []interface{}) (err error) {
-	if ele.Name.Local == opt.CurrentEle && opt.InGroup == 1 {
+	if opt.ComplexType.Len() > 0 || opt.InGroup == 0 {
+		return
+	}
+	if opt.InGroup--; opt.InGroup == 0 {
 		opt.ProtoTree = append(opt.ProtoTree, opt.Group.Pop())
 		opt.CurrentEle = ""
-		opt.InGroup--
-	}
-	if ele.Name.Local == opt.CurrentEle {
-		opt.InGroup--
 	}
 	return
 }
-- 
2.43.0


From 99410fe72cf24089937f8aaab31694e5e0136e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:05 +0000
Subject: [PATCH 12/45] fix: members declared twice in a group are one member,
 a list if either repeats

---
 xmlElement.go | 36 +++++++++++++++++++++---------------
 xmlGroup.go   | 17 +++++++++--------
 2 files changed, 30 insertions(+), 23 deletions(-)

diff --git a/xmlElement.go b/xmlElement.go
index 6154176..223ee43 100644
--- a/xmlElement.go
+++ b/xmlElement.go
@@ -69,26 +69,15 @@ func (opt *Options) EndElement(ele xml.EndElement, protoTree []interface{}) (err
 	}
 
 	if opt.ComplexType.Len() > 0 {
-		element, i := findElement(e, opt.ComplexType.Peek().(*ComplexType).Elements)
-		// Handle a case where two elements with the same name and type are present in the same complex type
-		// This can happen with a Choice that includes a definition for a single value of a type along with
-		// an alternative that is an array of the same type with the same name. This tends to happen for backward
-		// compatible XSDs where a chance is introduced to allow multiple items.
-		// In this situation, the version of the element that's preserved is the one with the highest plurality
-		// since generated code for an array of a type should be compatible to unmarshal/marshal arrays of a single
-		// element
-		if element != nil && element.Type == e.Type {
-			element.Plural = element.Plural || e.Plural
-			opt.ComplexType.Peek().(*ComplexType).Elements[i] = *element
-		} else {
-			opt.ComplexType.Peek().(*ComplexType).Elements = append(opt.ComplexType.Peek().(*ComplexType).Elements, *e)
-		}
+		c := opt.ComplexType.Peek().(*ComplexType)
+		c.Elements = addElement(e, c.Elements)
 		return
 	}
 
 	if opt.InGroup > 0 {
 		if opt.Group.Len() > 0 {
-			opt.Group.Peek().(*Group).Elements = append(opt.Group.Peek().(*Group).Elements, *e)
+			g := opt.Group.Peek().(*Group)
+			g.Elements = addElement(e, g.Elements)
 		}
 		return
 	}
@@ -97,6 +86,23 @@ func (opt *Options) EndElement(ele xml.EndElement, protoTree []interface{}) (err
 	return
 }
 
+// addElement adds an element to the members of a complex type or a group.
+// Handle a case where two elements with the same name and type are present in the same complex type
+// This can happen with a Choice that includes a definition for a single value of a type along with
+// an alternative that is an array of the same type with the same name. This tends to happen for backward
+// compatible XSDs where a chance is introduced to allow multiple items.
+// In this situation, the version of the element that's preserved is the one with the highest plurality
+// since generated code for an array of a type should be compatible to unmarshal/marshal arrays of a single
+// element
+func addElement(e *Element, elements []Element) []Element {
+	element, i := findElement(e, elements)
+	if element != nil && element.Type == e.Type {
+		elements[i].Plural = element.Plural || e.Plural
+		return elements
+	}
+	return append(elements, *e)
+}
+
 func findElement(element *Element, elements []Element) (existing *Element, index int) {
 	for i, ele := range elements {
 		if element.Name == ele.Name {
diff --git a/xmlGroup.go b/xmlGroup.go
index c22eaef..52c7a83 100644
--- a/xmlGroup.go
+++ b/xmlGroup.go
@@ -52,15 +52,13 @@ func (opt *Options) OnGroup(ele xml.StartElement, protoTree []interface{}) (err
 		}
 		if opt.InGroup > 0 {
 			opt.InGroup++
-			opt.Group.Peek().(*Group).Groups = append(opt.Group.Peek().(*Group).Groups, group)
+			opt.Group.Peek().(*Group).Groups = addGroup(&group, opt.Group.Peek().(*Group).Groups)
 			return
 		}
 
 	}
 	if opt.ComplexType.Len() > 0 {
-		if !inGroups(&group, opt.ComplexType.Peek().(*ComplexType).Groups) {
-			opt.ComplexType.Peek().(*ComplexType).Groups = append(opt.ComplexType.Peek().(*ComplexType).Groups, group)
-		}
+		opt.ComplexType.Peek().(*ComplexType).Groups = addGroup(&group, opt.ComplexType.Peek().(*ComplexType).Groups)
 		return
 	}
 	return
@@ -78,11 +76,14 @@ func (opt *Options) EndGroup(ele xml.EndElement, protoTree []interface{}) (err e
 	return
 }
 
-func inGroups(group *Group, groups []Group) bool {
-	for _, g := range groups {
+// addGroup adds a group reference to the members it has not got yet. A group
+// referred to more than once is plural if any of the references is.
+func addGroup(group *Group, groups []Group) []Group {
+	for i, g := range groups {
 		if g.Name == group.Name {
-			return true
+			groups[i].Plural = g.Plural || group.Plural
+			return groups
 		}
 	}
-	return false
+	return append(groups, *group)
 }
-- 
2.43.0


From 15431bcd226a34d18d07dc284abf0feb63221f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:48 +0000
Subject: [PATCH 13/45] fix: report a schema that is not well-formed instead of
 truncating it

---
 parser.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index c04360b..92dda93 100644
--- a/parser.go
+++ b/parser.go
@@ -11,6 +11,7 @@ package xgen
 import (
 	"encoding/xml"
 	"fmt"
+	"io"
 	"os"
 	"path/filepath"
 	"reflect"
@@ -103,10 +104,14 @@ func (opt *Options) Parse() (err error) {
 	decoder := xml.NewDecoder(xmlFile)
 	decoder.CharsetReader = charset.NewReaderLabel
 	for {
-		token, _ := decoder.Token()
-		if token == nil {
+		var token xml.Token
+		token, err = decoder.Token()
+		if err == io.EOF {
 			break
 		}
+		if err != nil {
+			return
+		}
 
 		switch element := token.(type) {
 		case xml.StartElement:
-- 
2.43.0


From a1ecf3ee41b80e295f8c3945749d4cd576ca30df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:49 +0000
Subject: [PATCH 14/45] fix: report failures to list the input and to write the
 output

---
 genC.go          | 2 +-
 genGo.go         | 2 +-
 genJava.go       | 2 +-
 genRust.go       | 2 +-
 genTypeScript.go | 2 +-
 parser.go        | 5 ++---
 utils.go         | 2 +-
 7 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/genC.go b/genC.go
index ec12f7c..c966824 100644
--- a/genC.go
+++ b/genC.go
@@ -51,7 +51,7 @@ func (gen *CodeGenerator) GenC() error {
 	}
 	defer f.Close()
 	source := []byte(fmt.Sprintf("%s\n%s", copyright, gen.Field))
-	f.Write(source)
+	_, err = f.Write(source)
 	return err
 }
 
diff --git a/genGo.go b/genGo.go
index 731a97c..922c899 100644
--- a/genGo.go
+++ b/genGo.go
@@ -91,7 +91,7 @@ func (gen *CodeGenerator) GenGo() error {
 		f.WriteString(fmt.Sprintf("package %s\n%s%s", packageName, importPackage, gen.Field))
 		return err
 	}
-	f.Write(source)
+	_, err = f.Write(source)
 	return err
 }
 
diff --git a/genJava.go b/genJava.go
index 06a13a1..78ab956 100644
--- a/genJava.go
+++ b/genJava.go
@@ -59,7 +59,7 @@ import javax.xml.bind.annotation.XmlSchemaType;
 import javax.xml.bind.annotation.XmlType;
 import javax.xml.bind.annotation.XmlValue;`
 
-	f.Write([]byte(fmt.Sprintf("%s\n\npackage %s;\n\n%s\n%s", copyright, packageName, importPackage, gen.Field)))
+	_, err = f.Write([]byte(fmt.Sprintf("%s\n\npackage %s;\n\n%s\n%s", copyright, packageName, importPackage, gen.Field)))
 	return err
 }
 
diff --git a/genRust.go b/genRust.go
index 39a73f9..f06a6dd 100644
--- a/genRust.go
+++ b/genRust.go
@@ -116,7 +116,7 @@ extern crate serde_xml_rs;
 
 use serde_xml_rs::from_reader;`
 	source := []byte(fmt.Sprintf("%s\n\n%s\n%s", copyright, extern, gen.Field))
-	f.Write(source)
+	_, err = f.Write(source)
 	return err
 }
 
diff --git a/genTypeScript.go b/genTypeScript.go
index b5f9d38..2e4cbfc 100644
--- a/genTypeScript.go
+++ b/genTypeScript.go
@@ -42,7 +42,7 @@ func (gen *CodeGenerator) GenTypeScript() error {
 	}
 	defer f.Close()
 	source := []byte(fmt.Sprintf("%s\n%s", copyright, gen.Field))
-	f.Write(source)
+	_, err = f.Write(source)
 	return err
 
 }
diff --git a/parser.go b/parser.go
index 92dda93..38d9073 100644
--- a/parser.go
+++ b/parser.go
@@ -140,9 +140,8 @@ func (opt *Options) Parse() (err error) {
 		opt.ParseFileList[opt.FilePath] = true
 		opt.ParseFileMap[opt.FilePath] = opt.ProtoTree
 		path := filepath.Join(opt.OutputDir, strings.TrimPrefix(opt.FilePath, opt.InputDir))
-		if err := PrepareOutputDir(filepath.Dir(path)); err != nil {
-			fmt.Println(err)
-			os.Exit(1)
+		if err = PrepareOutputDir(filepath.Dir(path)); err != nil {
+			return
 		}
 		generator := &CodeGenerator{
 			Lang:      opt.Lang,
diff --git a/utils.go b/utils.go
index 459a8e9..ab35872 100644
--- a/utils.go
+++ b/utils.go
@@ -48,7 +48,7 @@ func GetFileList(path string) (files []string, err error) {
 	if fi.IsDir() {
 		err = filepath.Walk(path, func(fp string, info os.FileInfo, err error) error {
 			files = append(files, fp)
-			return nil
+			return err
 		})
 		if err != nil {
 			return
-- 
2.43.0


From 3282a8a217ee2ca94775ce653b78e7857bcb697f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:07 +0000
Subject: [PATCH 15/45] fix: an element named charData does not panic

---
 utils.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utils.go b/utils.go
index ab35872..830b818 100644
--- a/utils.go
+++ b/utils.go
@@ -207,6 +207,10 @@ func ToTitle(val string) string {
 func callFuncByName(receiver interface{}, name string, params []reflect.Value) (err error) {
 	function := reflect.ValueOf(receiver).MethodByName(name)
 	if function.IsValid() {
+		if ft := function.Type(); ft.NumIn() != len(params) || len(params) > 0 && !params[0].Type().AssignableTo(ft.In(0)) {
+			// not a handler, but a method that happens to be named like one
+			return
+		}
 		rt := function.Call(params)
 		if len(rt) == 0 {
 			return
-- 
2.43.0


From 53518727d967112cecfb332c37ac0895d86846ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:56 +0000
Subject: [PATCH 16/45] fix: content of annotations and foreign elements are
 not declarations

Elements of other namespaces, and markup in documentation or appinfo, were
taken for schema components; documentation is now the whole text of the
documentation element.
---
 parser.go | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/parser.go b/parser.go
index 38d9073..0c7a382 100644
--- a/parser.go
+++ b/parser.go
@@ -20,6 +20,9 @@ import (
 	"golang.org/x/net/html/charset"
 )
 
+// xsdNamespace is the namespace of the elements and types of XML Schema.
+const xsdNamespace = "http://www.w3.org/2001/XMLSchema"
+
 // Options holds user-defined overrides and runtime data that are used when
 // parsing from an XSD document.
 type Options struct {
@@ -103,6 +106,9 @@ func (opt *Options) Parse() (err error) {
 
 	decoder := xml.NewDecoder(xmlFile)
 	decoder.CharsetReader = charset.NewReaderLabel
+	// notes counts the open elements from an appinfo or documentation inwards,
+	// none of which are declarations, and doc is the text of a documentation.
+	notes, doc := 0, ""
 	for {
 		var token xml.Token
 		token, err = decoder.Token()
@@ -115,21 +121,41 @@ func (opt *Options) Parse() (err error) {
 
 		switch element := token.(type) {
 		case xml.StartElement:
-
+			if notes > 0 {
+				notes++
+				continue
+			}
+			if element.Name.Space != xsdNamespace {
+				continue
+			}
 			opt.InElement = element.Name.Local
+			if opt.InElement == "appinfo" || opt.InElement == "documentation" {
+				notes, doc = 1, ""
+			}
 			funcName := fmt.Sprintf("On%s", MakeFirstUpperCase(opt.InElement))
 			if err = callFuncByName(opt, funcName, []reflect.Value{reflect.ValueOf(element), reflect.ValueOf(opt.ProtoTree)}); err != nil {
 				return
 			}
 
 		case xml.EndElement:
+			if notes > 0 {
+				if notes--; notes == 0 && element.Name.Local == "documentation" {
+					if err = opt.OnCharData(doc, opt.ProtoTree); err != nil {
+						return
+					}
+				}
+				continue
+			}
+			if element.Name.Space != xsdNamespace {
+				continue
+			}
 			funcName := fmt.Sprintf("End%s", MakeFirstUpperCase(element.Name.Local))
 			if err = callFuncByName(opt, funcName, []reflect.Value{reflect.ValueOf(element), reflect.ValueOf(opt.ProtoTree)}); err != nil {
 				return
 			}
 		case xml.CharData:
-			if err = opt.OnCharData(string(element), opt.ProtoTree); err != nil {
-				return
+			if notes > 0 {
+				doc += string(element)
 			}
 		default:
 		}
-- 
2.43.0


From 8c57daff037619f9627760f99c33753da50c484a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:57 +0000
Subject: [PATCH 17/45] fix: documentation of facets and members does not
 replace that of their type

---
 xmlCharData.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/xmlCharData.go b/xmlCharData.go
index f934af5..03d8563 100644
--- a/xmlCharData.go
+++ b/xmlCharData.go
@@ -37,6 +37,10 @@ func (opt *Options) OnCharData(ele string, protoTree []interface{}) (err error)
 	switch opt.CurrentEle {
 	case "simpleType":
 		if opt.SimpleType.Peek() != nil {
+			if opt.SimpleType.Peek().(*SimpleType).Doc != "" {
+				// documentation of a facet
+				return
+			}
 			opt.SimpleType.Peek().(*SimpleType).Doc = ele
 			return
 		}
@@ -51,7 +55,9 @@ func (opt *Options) OnCharData(ele string, protoTree []interface{}) (err error)
 				opt.ComplexType.Peek().(*ComplexType).Attributes[l-1].Doc = ele
 				return
 			}
-			opt.ComplexType.Peek().(*ComplexType).Doc = ele
+			if opt.ComplexType.Peek().(*ComplexType).Doc == "" {
+				opt.ComplexType.Peek().(*ComplexType).Doc = ele
+			}
 			return
 		}
 	default:
-- 
2.43.0


From 4355673f93684c29442f91ee53b09cafff3ab8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:57 +0000
Subject: [PATCH 18/45] fix: an attribute group reference in an attribute group
 declares nothing

---
 xmlAttributeGroup.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xmlAttributeGroup.go b/xmlAttributeGroup.go
index 1e1cc57..d8ab9da 100644
--- a/xmlAttributeGroup.go
+++ b/xmlAttributeGroup.go
@@ -45,7 +45,12 @@ func (opt *Options) OnAttributeGroup(ele xml.StartElement, protoTree []interface
 // EndAttributeGroup handles parsing event on the attributeGroup end elements.
 func (opt *Options) EndAttributeGroup(ele xml.EndElement, protoTree []interface{}) (err error) {
 	if opt.AttributeGroup.Len() > 0 {
-		opt.ProtoTree = append(opt.ProtoTree, opt.AttributeGroup.Pop())
+		attributeGroup := opt.AttributeGroup.Pop()
+		if opt.AttributeGroup.Len() > 0 {
+			// a reference in another attribute group declares nothing
+			return
+		}
+		opt.ProtoTree = append(opt.ProtoTree, attributeGroup)
 		opt.CurrentEle = ""
 		opt.InAttributeGroup = false
 	}
-- 
2.43.0


From da13efc45d233cb17a9115b2a3dc74a7728213d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:40 +0000
Subject: [PATCH 19/45] fix: chains of simple types resolve in any order of
 declaration

---
 utils.go | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/utils.go b/utils.go
index 830b818..68ce1c7 100644
--- a/utils.go
+++ b/utils.go
@@ -149,21 +149,40 @@ func getBasefromSimpleType(name string, XSDSchema []interface{}) string {
 		switch v := ele.(type) {
 		case *SimpleType:
 			if !v.List && !v.Union && v.Name == name {
-				return v.Base
+				return followSimpleTypes(v.Base, XSDSchema)
 			}
 		case *Attribute:
 			if v.Name == name {
-				return v.Type
+				return followSimpleTypes(v.Type, XSDSchema)
 			}
 		case *Element:
 			if v.Name == name {
-				return v.Type
+				return followSimpleTypes(v.Type, XSDSchema)
 			}
 		}
 	}
 	return name
 }
 
+// followSimpleTypes returns the base at the end of a chain of simple types,
+// whatever the order they are declared in.
+func followSimpleTypes(name string, XSDSchema []interface{}) string {
+	for range XSDSchema {
+		base := name
+		for _, ele := range XSDSchema {
+			if v, ok := ele.(*SimpleType); ok && !v.List && !v.Union && v.Name == name {
+				base = v.Base
+				break
+			}
+		}
+		if base == name || base == "" {
+			break
+		}
+		name = base
+	}
+	return name
+}
+
 func getNSPrefix(str string) (ns string) {
 	split := strings.Split(str, ":")
 	if len(split) == 2 {
-- 
2.43.0


From 12d95da377ee5561c6a95415dca39f4492b7aea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:40 +0000
Subject: [PATCH 20/45] fix: types are looked up in their own namespace and in
 every included file

Built-in names are recognised by namespace, also the xml: attributes; the
included files are searched in a fixed order, relative to the including
file and through nested includes; a failure to process an included or
imported file is reported; each file keeps its own prefixes and includes;
an imported file is generated with the package and directories in effect.
---
 parser.go         | 127 +++++++++++++++++++++++-----------------------
 schema.go         |   5 ++
 xmlExtension.go   |   5 +-
 xmlRestriction.go |   5 +-
 4 files changed, 71 insertions(+), 71 deletions(-)

diff --git a/parser.go b/parser.go
index 0c7a382..94f898c 100644
--- a/parser.go
+++ b/parser.go
@@ -15,6 +15,7 @@ import (
 	"os"
 	"path/filepath"
 	"reflect"
+	"sort"
 	"strings"
 
 	"golang.org/x/net/html/charset"
@@ -187,7 +188,12 @@ func (opt *Options) Parse() (err error) {
 // GetValueType convert XSD schema value type to the build-in type for the
 // given value and proto tree.
 func (opt *Options) GetValueType(value string, XSDSchema []interface{}) (valueType string, err error) {
-	if buildType, ok := getBuildInTypeByLang(trimNSPrefix(value), opt.Lang); ok {
+	if buildType, ok := getBuildInTypeByLang(value, opt.Lang); ok && getNSPrefix(value) != "" {
+		// xml:lang and the like
+		valueType = buildType
+		return
+	}
+	if buildType, ok := getBuildInTypeByLang(trimNSPrefix(value), opt.Lang); ok && opt.inXSDNamespace(value) {
 		valueType = buildType
 		return
 	}
@@ -202,79 +208,74 @@ func (opt *Options) GetValueType(value string, XSDSchema []interface{}) (valueTy
 	if isValidURL(schemaLocation) {
 		return
 	}
-	xsdFile := filepath.Join(opt.FileDir, schemaLocation)
-	var fi os.FileInfo
-	fi, err = os.Stat(xsdFile)
-	if err != nil {
-		return
+	if schemaLocation == "" {
+		return getTypeFromFiles(trimNSPrefix(value), opt.Lang, opt.includedFiles())
 	}
-	if fi.IsDir() {
-		// extract type of value from include schema.
-		valueType = ""
-		for include := range opt.IncludeMap {
-			parser := NewParser(&Options{
-				FilePath:            filepath.Join(opt.FileDir, include),
-				OutputDir:           opt.OutputDir,
-				Extract:             true,
-				Lang:                opt.Lang,
-				IncludeMap:          opt.IncludeMap,
-				LocalNameNSMap:      opt.LocalNameNSMap,
-				NSSchemaLocationMap: opt.NSSchemaLocationMap,
-				ParseFileList:       opt.ParseFileList,
-				ParseFileMap:        opt.ParseFileMap,
-				ProtoTree:           make([]interface{}, 0),
-			})
-			if parser.Parse() != nil {
-				return
-			}
-			if vt := getBasefromSimpleType(trimNSPrefix(value), parser.ProtoTree); vt != trimNSPrefix(value) {
-				valueType = vt
-			}
-		}
-		if valueType == "" {
-			valueType = trimNSPrefix(value)
-		}
-		return
-	}
-
-	depXSDSchema, ok := opt.ParseFileMap[xsdFile]
-	if !ok {
-		parser := NewParser(&Options{
+	xsdFile := filepath.Join(opt.FileDir, schemaLocation)
+	if _, ok := opt.ParseFileMap[xsdFile]; !ok {
+		if err = NewParser(&Options{
 			FilePath:            xsdFile,
+			InputDir:            opt.InputDir,
 			OutputDir:           opt.OutputDir,
 			Extract:             false,
 			Lang:                opt.Lang,
-			IncludeMap:          opt.IncludeMap,
-			LocalNameNSMap:      opt.LocalNameNSMap,
-			NSSchemaLocationMap: opt.NSSchemaLocationMap,
+			Package:             opt.Package,
+			IncludeMap:          make(map[string]bool),
+			LocalNameNSMap:      make(map[string]string),
+			NSSchemaLocationMap: make(map[string]string),
 			ParseFileList:       opt.ParseFileList,
 			ParseFileMap:        opt.ParseFileMap,
 			ProtoTree:           make([]interface{}, 0),
-		})
-		if parser.Parse() != nil {
+		}).Parse(); err != nil {
 			return
 		}
-		depXSDSchema = parser.ProtoTree
 	}
-	valueType = getBasefromSimpleType(trimNSPrefix(value), depXSDSchema)
-	if valueType != trimNSPrefix(value) && valueType != "" {
-		return
-	}
-	parser := NewParser(&Options{
-		FilePath:            xsdFile,
-		OutputDir:           opt.OutputDir,
-		Extract:             true,
-		Lang:                opt.Lang,
-		IncludeMap:          opt.IncludeMap,
-		LocalNameNSMap:      opt.LocalNameNSMap,
-		NSSchemaLocationMap: opt.NSSchemaLocationMap,
-		ParseFileList:       opt.ParseFileList,
-		ParseFileMap:        opt.ParseFileMap,
-		ProtoTree:           make([]interface{}, 0),
-	})
-	if parser.Parse() != nil {
-		return
+	return getTypeFromFiles(trimNSPrefix(value), opt.Lang, []string{xsdFile})
+}
+
+// inXSDNamespace tells whether a qualified name can be one of XML Schema.
+func (opt *Options) inXSDNamespace(value string) bool {
+	prefix := getNSPrefix(value)
+	ns, ok := opt.LocalNameNSMap[prefix]
+	return ns == xsdNamespace || !ok && prefix != ""
+}
+
+// includedFiles returns the paths of the included schema files.
+func (opt *Options) includedFiles() (files []string) {
+	for include := range opt.IncludeMap {
+		if !isValidURL(include) {
+			files = append(files, filepath.Join(opt.FileDir, include))
+		}
 	}
-	valueType = getBasefromSimpleType(trimNSPrefix(value), parser.ProtoTree)
+	sort.Strings(files)
 	return
 }
+
+// getTypeFromFiles looks up the type of the given name in schema files and
+// the ones they include, and returns the name if it is not a simple type.
+func getTypeFromFiles(name, lang string, files []string) (string, error) {
+	visited := make(map[string]bool)
+	for i := 0; i < len(files); i++ {
+		if visited[files[i]] {
+			continue
+		}
+		visited[files[i]] = true
+		parser := NewParser(&Options{
+			FilePath:            files[i],
+			Extract:             true,
+			Lang:                lang,
+			IncludeMap:          make(map[string]bool),
+			LocalNameNSMap:      make(map[string]string),
+			NSSchemaLocationMap: make(map[string]string),
+			ProtoTree:           make([]interface{}, 0),
+		})
+		if err := parser.Parse(); err != nil {
+			return name, err
+		}
+		if valueType := getBasefromSimpleType(name, parser.ProtoTree); valueType != name && valueType != "" {
+			return valueType, nil
+		}
+		files = append(files, parser.includedFiles()...)
+	}
+	return name, nil
+}
diff --git a/schema.go b/schema.go
index de72f46..641f95e 100644
--- a/schema.go
+++ b/schema.go
@@ -15,6 +15,9 @@ func (opt *Options) prepareLocalNameNSMap(element xml.StartElement) {
 		if ele.Name.Space == "xmlns" {
 			opt.LocalNameNSMap[ele.Name.Local] = ele.Value
 		}
+		if ele.Name.Space == "" && ele.Name.Local == "xmlns" {
+			opt.LocalNameNSMap[""] = ele.Value
+		}
 	}
 }
 
@@ -24,6 +27,8 @@ func (opt *Options) prepareNSSchemaLocationMap(element xml.StartElement) {
 		if ele.Name.Local == "namespace" {
 			currentNS = ele.Value
 		}
+	}
+	for _, ele := range element.Attr {
 		if ele.Name.Local == "schemaLocation" {
 			if _, ok := opt.NSSchemaLocationMap[currentNS]; ok {
 				continue
diff --git a/xmlExtension.go b/xmlExtension.go
index a3f4edc..bf4b9be 100644
--- a/xmlExtension.go
+++ b/xmlExtension.go
@@ -22,10 +22,7 @@ func (opt *Options) OnExtension(ele xml.StartElement, protoTree []interface{}) (
 			}
 			if opt.ComplexType.Peek() != nil {
 				var complexType = opt.ComplexType.Peek().(*ComplexType)
-				complexType.Base, err = opt.GetValueType(valueType, protoTree)
-				if err != nil {
-					return
-				}
+				complexType.Base = valueType
 				if complexType.Name == "" {
 					complexType.Name = attr.Value
 				}
diff --git a/xmlRestriction.go b/xmlRestriction.go
index 2ece9b3..3dc0a6f 100644
--- a/xmlRestriction.go
+++ b/xmlRestriction.go
@@ -22,10 +22,7 @@ func (opt *Options) OnRestriction(ele xml.StartElement, protoTree []interface{})
 				return
 			}
 			if opt.SimpleType.Peek() != nil {
-				opt.SimpleType.Peek().(*SimpleType).Base, err = opt.GetValueType(valueType, protoTree)
-				if err != nil {
-					return
-				}
+				opt.SimpleType.Peek().(*SimpleType).Base = valueType
 				if opt.SimpleType.Peek().(*SimpleType).Name == "" {
 					opt.SimpleType.Peek().(*SimpleType).Name = attr.Value
 				}
-- 
2.43.0


From bd45f2ba7739e16652202e7a4d6f57d1258cd5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:42 +0000
Subject: [PATCH 21/45] fix: output stays in the output directory and mirrors
 the input directory

---
 parser.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index 94f898c..17d0e4b 100644
--- a/parser.go
+++ b/parser.go
@@ -16,7 +16,6 @@ import (
 	"path/filepath"
 	"reflect"
 	"sort"
-	"strings"
 
 	"golang.org/x/net/html/charset"
 )
@@ -166,7 +165,7 @@ func (opt *Options) Parse() (err error) {
 	if !opt.Extract {
 		opt.ParseFileList[opt.FilePath] = true
 		opt.ParseFileMap[opt.FilePath] = opt.ProtoTree
-		path := filepath.Join(opt.OutputDir, strings.TrimPrefix(opt.FilePath, opt.InputDir))
+		path := opt.outputPath()
 		if err = PrepareOutputDir(filepath.Dir(path)); err != nil {
 			return
 		}
@@ -185,6 +184,17 @@ func (opt *Options) Parse() (err error) {
 	return
 }
 
+// outputPath returns the path of the generated file, without extension, which
+// mirrors the place of the schema in the input directory and stays within the
+// output directory for a schema outside of it.
+func (opt *Options) outputPath() string {
+	rel, err := filepath.Rel(opt.InputDir, opt.FilePath)
+	if err != nil {
+		rel = opt.FilePath
+	}
+	return filepath.Join(opt.OutputDir, filepath.Join(string(filepath.Separator), rel)[1:])
+}
+
 // GetValueType convert XSD schema value type to the build-in type for the
 // given value and proto tree.
 func (opt *Options) GetValueType(value string, XSDSchema []interface{}) (valueType string, err error) {
-- 
2.43.0


From e1ee482cc7a8eaa046ff4523f794e0ccfb86f887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:11 +0000
Subject: [PATCH 22/45] fix: import time and encoding/xml wherever Go output
 uses them

---
 genGo.go | 41 +++++++++++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/genGo.go b/genGo.go
index 922c899..f7f8924 100644
--- a/genGo.go
+++ b/genGo.go
@@ -129,12 +129,25 @@ func genGoFieldType(name string) string {
 	return "interface{}"
 }
 
+// goFieldType is genGoFieldType for a type that is written to the output, whose
+// package needs to be imported.
+func (gen *CodeGenerator) goFieldType(name string) string {
+	fieldType := genGoFieldType(name)
+	switch fieldType {
+	case "time.Time":
+		gen.ImportTime = true
+	case "xml.Name":
+		gen.ImportEncodingXML = true
+	}
+	return fieldType
+}
+
 // GoSimpleType generates code for simple type XML schema in Go language
 // syntax.
 func (gen *CodeGenerator) GoSimpleType(v *SimpleType) {
 	if v.List {
 		if _, ok := gen.StructAST[v.Name]; !ok {
-			fieldType := genGoFieldType(getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree))
+			fieldType := gen.goFieldType(getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree))
 			if fieldType == "time.Time" {
 				gen.ImportTime = true
 			}
@@ -160,7 +173,7 @@ func (gen *CodeGenerator) GoSimpleType(v *SimpleType) {
 				if memberType == "" { // fix order issue
 					memberType = getBasefromSimpleType(memberName, gen.ProtoTree)
 				}
-				content += fmt.Sprintf("\t%s\t%s\n", genGoFieldName(memberName, false), genGoFieldType(memberType))
+				content += fmt.Sprintf("\t%s\t%s\n", genGoFieldName(memberName, false), gen.goFieldType(memberType))
 			}
 			content += "}\n"
 			gen.StructAST[v.Name] = content
@@ -169,7 +182,7 @@ func (gen *CodeGenerator) GoSimpleType(v *SimpleType) {
 		return
 	}
 	if _, ok := gen.StructAST[v.Name]; !ok {
-		content := fmt.Sprintf(" %s\n", genGoFieldType(getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree)))
+		content := fmt.Sprintf(" %s\n", gen.goFieldType(getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree)))
 		gen.StructAST[v.Name] = content
 		fieldName := genGoFieldName(v.Name, true)
 		gen.Field += fmt.Sprintf("%stype %s%s", genFieldComment(fieldName, v.Doc, "//"), fieldName, gen.StructAST[v.Name])
@@ -191,7 +204,7 @@ func (gen *CodeGenerator) GoComplexType(v *ComplexType) {
 			if fieldType == "time.Time" {
 				gen.ImportTime = true
 			}
-			content += fmt.Sprintf("\t%s\t%s\n", genGoFieldName(attrGroup.Name, false), genGoFieldType(fieldType))
+			content += fmt.Sprintf("\t%s\t%s\n", genGoFieldName(attrGroup.Name, false), gen.goFieldType(fieldType))
 		}
 
 		for _, attribute := range v.Attributes {
@@ -199,7 +212,7 @@ func (gen *CodeGenerator) GoComplexType(v *ComplexType) {
 			if attribute.Optional {
 				optional = `,omitempty`
 			}
-			fieldType := genGoFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree))
+			fieldType := gen.goFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree))
 			if fieldType == "time.Time" {
 				gen.ImportTime = true
 			}
@@ -210,7 +223,7 @@ func (gen *CodeGenerator) GoComplexType(v *ComplexType) {
 			if group.Plural {
 				plural = "[]"
 			}
-			content += fmt.Sprintf("\t%s\t%s%s\n", genGoFieldName(group.Name, false), plural, genGoFieldType(getBasefromSimpleType(trimNSPrefix(group.Ref), gen.ProtoTree)))
+			content += fmt.Sprintf("\t%s\t%s%s\n", genGoFieldName(group.Name, false), plural, gen.goFieldType(getBasefromSimpleType(trimNSPrefix(group.Ref), gen.ProtoTree)))
 		}
 
 		for _, element := range v.Elements {
@@ -218,7 +231,7 @@ func (gen *CodeGenerator) GoComplexType(v *ComplexType) {
 			if element.Plural {
 				plural = "[]"
 			}
-			fieldType := genGoFieldType(getBasefromSimpleType(trimNSPrefix(element.Type), gen.ProtoTree))
+			fieldType := gen.goFieldType(getBasefromSimpleType(trimNSPrefix(element.Type), gen.ProtoTree))
 			if fieldType == "time.Time" {
 				gen.ImportTime = true
 			}
@@ -229,9 +242,9 @@ func (gen *CodeGenerator) GoComplexType(v *ComplexType) {
 			// If it's not built-in one, embed the base type in the struct for the child type
 			// to effectively inherit all of the base type's fields
 			if isGoBuiltInType(v.Base) {
-				content += fmt.Sprintf("\tValue\t%s\t`xml:\",chardata\"`\n", genGoFieldType(v.Base))
+				content += fmt.Sprintf("\tValue\t%s\t`xml:\",chardata\"`\n", gen.goFieldType(v.Base))
 			} else {
-				content += fmt.Sprintf("\t%s\n", genGoFieldType(v.Base))
+				content += fmt.Sprintf("\t%s\n", gen.goFieldType(v.Base))
 			}
 		}
 		content += "}\n"
@@ -259,7 +272,7 @@ func (gen *CodeGenerator) GoGroup(v *Group) {
 			if element.Plural {
 				plural = "[]"
 			}
-			content += fmt.Sprintf("\t%s\t%s%s\n", genGoFieldName(element.Name, false), plural, genGoFieldType(getBasefromSimpleType(trimNSPrefix(element.Type), gen.ProtoTree)))
+			content += fmt.Sprintf("\t%s\t%s%s\n", genGoFieldName(element.Name, false), plural, gen.goFieldType(getBasefromSimpleType(trimNSPrefix(element.Type), gen.ProtoTree)))
 		}
 
 		for _, group := range v.Groups {
@@ -267,7 +280,7 @@ func (gen *CodeGenerator) GoGroup(v *Group) {
 			if group.Plural {
 				plural = "[]"
 			}
-			content += fmt.Sprintf("\t%s\t%s%s\n", genGoFieldName(group.Name, false), plural, genGoFieldType(getBasefromSimpleType(trimNSPrefix(group.Ref), gen.ProtoTree)))
+			content += fmt.Sprintf("\t%s\t%s%s\n", genGoFieldName(group.Name, false), plural, gen.goFieldType(getBasefromSimpleType(trimNSPrefix(group.Ref), gen.ProtoTree)))
 		}
 
 		content += "}\n"
@@ -291,7 +304,7 @@ func (gen *CodeGenerator) GoAttributeGroup(v *AttributeGroup) {
 			if attribute.Optional {
 				optional = `,omitempty`
 			}
-			content += fmt.Sprintf("\t%sAttr\t%s\t`xml:\"%s,attr%s\"`\n", genGoFieldName(attribute.Name, false), genGoFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree)), attribute.Name, optional)
+			content += fmt.Sprintf("\t%sAttr\t%s\t`xml:\"%s,attr%s\"`\n", genGoFieldName(attribute.Name, false), gen.goFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree)), attribute.Name, optional)
 		}
 		content += "}\n"
 		gen.StructAST[v.Name] = content
@@ -306,7 +319,7 @@ func (gen *CodeGenerator) GoElement(v *Element) {
 		if v.Plural {
 			plural = "[]"
 		}
-		content := fmt.Sprintf("\t%s%s\n", plural, genGoFieldType(getBasefromSimpleType(trimNSPrefix(v.Type), gen.ProtoTree)))
+		content := fmt.Sprintf("\t%s%s\n", plural, gen.goFieldType(getBasefromSimpleType(trimNSPrefix(v.Type), gen.ProtoTree)))
 		gen.StructAST[v.Name] = content
 		fieldName := genGoFieldName(v.Name, false)
 		gen.Field += fmt.Sprintf("%stype %s%s", genFieldComment(fieldName, v.Doc, "//"), fieldName, gen.StructAST[v.Name])
@@ -320,7 +333,7 @@ func (gen *CodeGenerator) GoAttribute(v *Attribute) {
 		if v.Plural {
 			plural = "[]"
 		}
-		content := fmt.Sprintf("\t%s%s\n", plural, genGoFieldType(getBasefromSimpleType(trimNSPrefix(v.Type), gen.ProtoTree)))
+		content := fmt.Sprintf("\t%s%s\n", plural, gen.goFieldType(getBasefromSimpleType(trimNSPrefix(v.Type), gen.ProtoTree)))
 		gen.StructAST[v.Name] = content
 		fieldName := genGoFieldName(v.Name, true)
 		gen.Field += fmt.Sprintf("%stype %s%s", genFieldComment(fieldName, v.Doc, "//"), fieldName, gen.StructAST[v.Name])
-- 
2.43.0


From 3e87ae994a3768084f57522ffec8a1e8fcc36105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:08 +0000
Subject: [PATCH 23/45] fix: every component has its own identifier and
 references use it

---
 genC.go          | 18 +++++++++---------
 genGo.go         | 12 ++++++------
 genJava.go       | 10 +++++-----
 genRust.go       | 16 +++++++++-------
 genTypeScript.go | 27 ++++++++++++++++-----------
 utils.go         | 40 ++++++++++++++++++++++++++++++++++++++++
 6 files changed, 85 insertions(+), 38 deletions(-)

diff --git a/genC.go b/genC.go
index c966824..51afa1d 100644
--- a/genC.go
+++ b/genC.go
@@ -37,7 +37,7 @@ var cBuildInType = map[string]bool{
 // GenC generates C programming language source code for XML schema definition
 // files.
 func (gen *CodeGenerator) GenC() error {
-	fieldNameCount = make(map[string]int)
+	prepareFieldNames(gen.ProtoTree, genCFieldName)
 	for _, ele := range gen.ProtoTree {
 		if ele == nil {
 			continue
@@ -73,10 +73,7 @@ func genCFieldName(name string, unique bool) (fieldName string) {
 	fieldName = tmp
 	fieldName = strings.Replace(fieldName, "-", "", -1)
 	if unique {
-		fieldNameCount[fieldName]++
-		if count := fieldNameCount[fieldName]; count != 1 {
-			fieldName = fmt.Sprintf("%s%d", fieldName, count)
-		}
+		fieldName = uniqueFieldName(name, fieldName)
 	}
 	return
 }
@@ -85,6 +82,9 @@ func genCFieldType(name string) string {
 	if _, ok := cBuildInType[name]; ok {
 		return name
 	}
+	if fieldType, ok := fieldNames[name]; ok && fieldType != "" {
+		return fieldType
+	}
 	var fieldType string
 	for _, str := range strings.Split(name, ".") {
 		fieldType += MakeFirstUpperCase(str)
@@ -102,7 +102,7 @@ func (gen *CodeGenerator) CSimpleType(v *SimpleType) {
 	if v.List {
 		if _, ok := gen.StructAST[v.Name]; !ok {
 			fieldType, _ := innerArray(genCFieldType(getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree)))
-			content := fmt.Sprintf("%s %s[];\n", fieldType, genCFieldName(v.Name, false))
+			content := fmt.Sprintf("%s %s[];\n", fieldType, genCFieldName(v.Name, true))
 			gen.StructAST[v.Name] = content
 			fieldName := genCFieldName(v.Name, true)
 			gen.Field += fmt.Sprintf("%stypedef %s", genFieldComment(fieldName, v.Doc, "//"), gen.StructAST[v.Name])
@@ -139,7 +139,7 @@ func (gen *CodeGenerator) CSimpleType(v *SimpleType) {
 		if fieldType, ok = innerArray(genCFieldType(getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree))); ok {
 			plural = "[]"
 		}
-		gen.StructAST[v.Name] = fmt.Sprintf("%s %s%s", fieldType, genCFieldName(v.Name, false), plural)
+		gen.StructAST[v.Name] = fmt.Sprintf("%s %s%s", fieldType, genCFieldName(v.Name, true), plural)
 		fieldName := genCFieldName(v.Name, true)
 		gen.Field += fmt.Sprintf("%stypedef %s;\n", genFieldComment(fieldName, v.Doc, "//"), gen.StructAST[v.Name])
 	}
@@ -252,7 +252,7 @@ func (gen *CodeGenerator) CElement(v *Element) {
 		if fieldType, ok = innerArray(genCFieldType(getBasefromSimpleType(trimNSPrefix(v.Type), gen.ProtoTree))); ok || v.Plural {
 			plural = "[]"
 		}
-		gen.StructAST[v.Name] = fmt.Sprintf("%s %s%s", fieldType, genCFieldName(v.Name, false), plural)
+		gen.StructAST[v.Name] = fmt.Sprintf("%s %s%s", fieldType, genCFieldName(v.Name, true), plural)
 		gen.Field += fmt.Sprintf("\ntypedef %s;\n", gen.StructAST[v.Name])
 	}
 }
@@ -265,7 +265,7 @@ func (gen *CodeGenerator) CAttribute(v *Attribute) {
 		if fieldType, ok = innerArray(genCFieldType(getBasefromSimpleType(trimNSPrefix(v.Type), gen.ProtoTree))); ok || v.Plural {
 			plural = "[]"
 		}
-		gen.StructAST[v.Name] = fmt.Sprintf("%s %s%s", fieldType, genCFieldName(v.Name, false), plural)
+		gen.StructAST[v.Name] = fmt.Sprintf("%s %s%s", fieldType, genCFieldName(v.Name, true), plural)
 		fieldName := genCFieldName(v.Name, true)
 		gen.Field += fmt.Sprintf("%stypedef %s;\n", genFieldComment(fieldName, v.Doc, "//"), gen.StructAST[v.Name])
 	}
diff --git a/genGo.go b/genGo.go
index f7f8924..da7c447 100644
--- a/genGo.go
+++ b/genGo.go
@@ -59,7 +59,7 @@ var goBuildinType = map[string]bool{
 // GenGo generate Go programming language source code for XML schema
 // definition files.
 func (gen *CodeGenerator) GenGo() error {
-	fieldNameCount = make(map[string]int)
+	prepareFieldNames(gen.ProtoTree, genGoFieldName)
 	for _, ele := range gen.ProtoTree {
 		if ele == nil {
 			continue
@@ -106,10 +106,7 @@ func genGoFieldName(name string, unique bool) (fieldName string) {
 	fieldName = tmp
 	fieldName = strings.Replace(strings.Replace(fieldName, "-", "", -1), "_", "", -1)
 	if unique {
-		fieldNameCount[fieldName]++
-		if count := fieldNameCount[fieldName]; count != 1 {
-			fieldName = fmt.Sprintf("%s%d", fieldName, count)
-		}
+		fieldName = uniqueFieldName(name, fieldName)
 	}
 	return
 }
@@ -118,6 +115,9 @@ func genGoFieldType(name string) string {
 	if _, ok := goBuildinType[name]; ok {
 		return name
 	}
+	if fieldType, ok := fieldNames[name]; ok && fieldType != "" {
+		return "*" + fieldType
+	}
 	var fieldType string
 	for _, str := range strings.Split(name, ".") {
 		fieldType += MakeFirstUpperCase(str)
@@ -321,7 +321,7 @@ func (gen *CodeGenerator) GoElement(v *Element) {
 		}
 		content := fmt.Sprintf("\t%s%s\n", plural, gen.goFieldType(getBasefromSimpleType(trimNSPrefix(v.Type), gen.ProtoTree)))
 		gen.StructAST[v.Name] = content
-		fieldName := genGoFieldName(v.Name, false)
+		fieldName := genGoFieldName(v.Name, true)
 		gen.Field += fmt.Sprintf("%stype %s%s", genFieldComment(fieldName, v.Doc, "//"), fieldName, gen.StructAST[v.Name])
 	}
 }
diff --git a/genJava.go b/genJava.go
index 78ab956..134315e 100644
--- a/genJava.go
+++ b/genJava.go
@@ -32,7 +32,7 @@ var javaBuildInType = map[string]bool{
 // GenJava generate Java programming language source code for XML schema
 // definition files.
 func (gen *CodeGenerator) GenJava() error {
-	fieldNameCount = make(map[string]int)
+	prepareFieldNames(gen.ProtoTree, genJavaFieldName)
 	for _, ele := range gen.ProtoTree {
 		if ele == nil {
 			continue
@@ -74,10 +74,7 @@ func genJavaFieldName(name string, unique bool) (fieldName string) {
 	fieldName = tmp
 	fieldName = strings.Replace(fieldName, "-", "", -1)
 	if unique {
-		fieldNameCount[fieldName]++
-		if count := fieldNameCount[fieldName]; count != 1 {
-			fieldName = fmt.Sprintf("%s%d", fieldName, count)
-		}
+		fieldName = uniqueFieldName(name, fieldName)
 	}
 	return
 }
@@ -86,6 +83,9 @@ func genJavaFieldType(name string) string {
 	if _, ok := javaBuildInType[name]; ok {
 		return name
 	}
+	if fieldType, ok := fieldNames[name]; ok && fieldType != "" {
+		return fieldType
+	}
 	var fieldType string
 	for _, str := range strings.Split(name, ".") {
 		fieldType += MakeFirstUpperCase(str)
diff --git a/genRust.go b/genRust.go
index f06a6dd..ed59602 100644
--- a/genRust.go
+++ b/genRust.go
@@ -96,7 +96,7 @@ var (
 // GenRust generate Go programming language source code for XML schema
 // definition files.
 func (gen *CodeGenerator) GenRust() error {
-	fieldNameCount = make(map[string]int)
+	prepareFieldNames(gen.ProtoTree, genRustStructName)
 	for _, ele := range gen.ProtoTree {
 		if ele == nil {
 			continue
@@ -149,10 +149,7 @@ func genRustStructName(name string, unique bool) (structName string) {
 	structName = tmp
 	structName = strings.NewReplacer("-", "", "_", "").Replace(structName)
 	if unique {
-		fieldNameCount[structName]++
-		if count := fieldNameCount[structName]; count != 1 {
-			structName = fmt.Sprintf("%s%d", structName, count)
-		}
+		structName = uniqueFieldName(name, structName)
 	}
 	return
 }
@@ -162,6 +159,9 @@ func genRustFieldType(name string) string {
 	if _, ok := rustBuildinType[name]; ok {
 		return name
 	}
+	if fieldType, ok := fieldNames[name]; ok && fieldType != "" {
+		return fieldType
+	}
 	fieldType := genRustStructName(name, false)
 	if fieldType != "" {
 		return fieldType
@@ -324,7 +324,8 @@ func (gen *CodeGenerator) RustElement(v *Element) {
 		} else {
 			gen.StructAST[v.Name] = fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", v.Name, fieldName, fieldType)
 		}
-		gen.Field += fmt.Sprintf("\n%s#[derive(Debug, Deserialize, Serialize, PartialEq)]\npub struct %s {\n%s}\n", genFieldComment(fieldName, v.Doc, "//"), fieldName, gen.StructAST[v.Name])
+		structName := genRustStructName(v.Name, true)
+		gen.Field += fmt.Sprintf("\n%s#[derive(Debug, Deserialize, Serialize, PartialEq)]\npub struct %s {\n%s}\n", genFieldComment(structName, v.Doc, "//"), structName, gen.StructAST[v.Name])
 	}
 }
 
@@ -338,6 +339,7 @@ func (gen *CodeGenerator) RustAttribute(v *Attribute) {
 		} else {
 			gen.StructAST[v.Name] = fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", v.Name, fieldName, fieldType)
 		}
-		gen.Field += fmt.Sprintf("\n%s#[derive(Debug, Deserialize, Serialize, PartialEq)]\npub struct %s {\n%s}\n", genFieldComment(fieldName, v.Doc, "//"), fieldName, gen.StructAST[v.Name])
+		structName := genRustStructName(v.Name, true)
+		gen.Field += fmt.Sprintf("\n%s#[derive(Debug, Deserialize, Serialize, PartialEq)]\npub struct %s {\n%s}\n", genFieldComment(structName, v.Doc, "//"), structName, gen.StructAST[v.Name])
 	}
 }
diff --git a/genTypeScript.go b/genTypeScript.go
index 2e4cbfc..fc89743 100644
--- a/genTypeScript.go
+++ b/genTypeScript.go
@@ -28,7 +28,7 @@ var typeScriptBuildInType = map[string]bool{
 // GenTypeScript generate TypeScript programming language source code for XML
 // schema definition files.
 func (gen *CodeGenerator) GenTypeScript() error {
-	fieldNameCount = make(map[string]int)
+	prepareFieldNames(gen.ProtoTree, genTypeScriptFieldName)
 	for _, ele := range gen.ProtoTree {
 		if ele == nil {
 			continue
@@ -58,10 +58,7 @@ func genTypeScriptFieldName(name string, unique bool) (fieldName string) {
 	fieldName = tmp
 	fieldName = strings.Replace(fieldName, "-", "", -1)
 	if unique {
-		fieldNameCount[fieldName]++
-		if count := fieldNameCount[fieldName]; count != 1 {
-			fieldName = fmt.Sprintf("%s%d", fieldName, count)
-		}
+		fieldName = uniqueFieldName(name, fieldName)
 	}
 	return
 }
@@ -71,12 +68,16 @@ func genTypeScriptFieldType(name string, plural bool) (fieldType string) {
 		fieldType = name
 		return
 	}
-	for _, str := range strings.Split(name, ".") {
-		fieldType += MakeFirstUpperCase(str)
-	}
-	fieldType = MakeFirstUpperCase(strings.Replace(fieldType, "-", "", -1))
-	if fieldType == "" || fieldType == "Any" {
-		fieldType = "any"
+	if declared, ok := fieldNames[name]; ok && declared != "" {
+		fieldType = declared
+	} else {
+		for _, str := range strings.Split(name, ".") {
+			fieldType += MakeFirstUpperCase(str)
+		}
+		fieldType = MakeFirstUpperCase(strings.Replace(fieldType, "-", "", -1))
+		if fieldType == "" || fieldType == "Any" {
+			fieldType = "any"
+		}
 	}
 	if plural {
 		fieldType = fmt.Sprintf("Array<%s>", fieldType)
@@ -117,6 +118,9 @@ func (gen *CodeGenerator) TypeScriptSimpleType(v *SimpleType) {
 		return
 	}
 	if len(v.Restriction.Enum) > 0 {
+		if _, ok := gen.StructAST[v.Name]; ok {
+			return
+		}
 		var content string
 		baseType := genTypeScriptFieldType(getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree), false)
 		for _, enum := range v.Restriction.Enum {
@@ -129,6 +133,7 @@ func (gen *CodeGenerator) TypeScriptSimpleType(v *SimpleType) {
 				content += fmt.Sprintf("\tEnum%s = '%s',\n", enum, enum)
 			}
 		}
+		gen.StructAST[v.Name] = content
 		fieldName := genTypeScriptFieldName(v.Name, true)
 		gen.Field += fmt.Sprintf("%sexport enum %s {\n%s}\n", genFieldComment(fieldName, v.Doc, "//"), fieldName, content)
 		return
diff --git a/utils.go b/utils.go
index 68ce1c7..0004678 100644
--- a/utils.go
+++ b/utils.go
@@ -28,8 +28,48 @@ var (
 	matchFirstCap  = regexp.MustCompile("([A-Z])([A-Z][a-z])")
 	matchAllCap    = regexp.MustCompile("([a-z0-9])([A-Z])")
 	fieldNameCount map[string]int
+	fieldNames     map[string]string // identifiers of the components by XML name
 )
 
+// prepareFieldNames gives every component of the proto tree its identifier in
+// the order of declaration, so that references agree with declarations.
+func prepareFieldNames(protoTree []interface{}, genFieldName func(name string, unique bool) string) {
+	fieldNameCount = make(map[string]int)
+	fieldNames = make(map[string]string)
+	for _, ele := range protoTree {
+		switch v := ele.(type) {
+		case *SimpleType:
+			genFieldName(v.Name, true)
+		case *ComplexType:
+			genFieldName(v.Name, true)
+		case *Group:
+			genFieldName(v.Name, true)
+		case *AttributeGroup:
+			genFieldName(v.Name, true)
+		case *Element:
+			genFieldName(v.Name, true)
+		case *Attribute:
+			genFieldName(v.Name, true)
+		}
+	}
+}
+
+// uniqueFieldName returns the identifier of the component with the given XML
+// name: fieldName, or if another component has got that, fieldName with a
+// number appended.
+func uniqueFieldName(name, fieldName string) string {
+	if unique, ok := fieldNames[name]; ok {
+		return unique
+	}
+	unique := fieldName
+	for count := 2; fieldNameCount[unique] > 0; count++ {
+		unique = fmt.Sprintf("%s%d", fieldName, count)
+	}
+	fieldNameCount[unique]++
+	fieldNames[name] = unique
+	return unique
+}
+
 // ToSnakeCase converts the provided string to snake_case.
 func ToSnakeCase(input string) string {
 	output := matchFirstCap.ReplaceAllString(input, "${1}_${2}")
-- 
2.43.0


From 5844a8bc860cf4e3aacec578ee471f3f1df5fe76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:00 +0000
Subject: [PATCH 24/45] fix: built-in types map to types that hold their values

---
 genC.go    | 34 ++++++++++++++++++----------------
 genJava.go | 23 ++++++++++++-----------
 utils.go   | 17 +++++++++--------
 3 files changed, 39 insertions(+), 35 deletions(-)

diff --git a/genC.go b/genC.go
index 51afa1d..78c23ec 100644
--- a/genC.go
+++ b/genC.go
@@ -16,22 +16,24 @@ import (
 )
 
 var cBuildInType = map[string]bool{
-	"bool":           true,
-	"char":           true,
-	"unsigned char":  true,
-	"signed char":    true,
-	"char[]":         true, // char[] will be flat to 'char field_name[]'
-	"float":          true,
-	"double":         true,
-	"long double":    true,
-	"int":            true,
-	"unsigned int":   true,
-	"short":          true,
-	"unsigned short": true,
-	"long":           true,
-	"unsigned long":  true,
-	"void":           true,
-	"enum":           true,
+	"bool":               true,
+	"char":               true,
+	"unsigned char":      true,
+	"signed char":        true,
+	"char[]":             true, // char[] will be flat to 'char field_name[]'
+	"float":              true,
+	"double":             true,
+	"long double":        true,
+	"int":                true,
+	"unsigned int":       true,
+	"short":              true,
+	"unsigned short":     true,
+	"long":               true,
+	"unsigned long":      true,
+	"long long":          true,
+	"unsigned long long": true,
+	"void":               true,
+	"enum":               true,
 }
 
 // GenC generates C programming language source code for XML schema definition
diff --git a/genJava.go b/genJava.go
index 134315e..a3655d4 100644
--- a/genJava.go
+++ b/genJava.go
@@ -16,17 +16,18 @@ import (
 )
 
 var javaBuildInType = map[string]bool{
-	"Boolean":      true,
-	"Byte":         true,
-	"Character":    true,
-	"List<String>": true,
-	"List<Byte>":   true,
-	"Float":        true,
-	"Integer":      true,
-	"Short":        true,
-	"String":       true,
-	"QName":        true,
-	"Long":         true,
+	"Boolean":              true,
+	"Byte":                 true,
+	"Character":            true,
+	"List<String>":         true,
+	"List<Byte>":           true,
+	"Float":                true,
+	"Integer":              true,
+	"Short":                true,
+	"String":               true,
+	"QName":                true,
+	"Long":                 true,
+	"java.math.BigInteger": true,
 }
 
 // GenJava generate Java programming language source code for XML schema
diff --git a/utils.go b/utils.go
index 0004678..25e3327 100644
--- a/utils.go
+++ b/utils.go
@@ -117,6 +117,7 @@ func PrepareOutputDir(path string) error {
 // Rust languages and data types in XSD.
 // https://www.w3.org/TR/xmlschema-2/#datatype
 var BuildInTypes = map[string][]string{
+	"anySimpleType":      {"string", "string", "char", "String", "String"},
 	"anyType":            {"string", "string", "char", "String", "String"},
 	"ENTITIES":           {"[]string", "Array<string>", "char[]", "List<String>", "Vec<String>"},
 	"ENTITY":             {"string", "string", "char", "String", "String"},
@@ -126,13 +127,13 @@ var BuildInTypes = map[string][]string{
 	"NCName":             {"string", "string", "char", "String", "String"},
 	"NMTOKEN":            {"string", "string", "char", "String", "String"},
 	"NMTOKENS":           {"[]string", "Array<string>", "char[]", "List<String>", "Vec<String>"},
-	"NOTATION":           {"[]string", "Array<string>", "char[]", "List<String>", "Vec<String>"},
+	"NOTATION":           {"string", "string", "char", "String", "String"},
 	"Name":               {"string", "string", "char", "String", "String"},
 	"QName":              {"xml.Name", "any", "char", "String", "String"},
-	"anyURI":             {"string", "string", "char", "QName", "String"},
+	"anyURI":             {"string", "string", "char", "String", "String"},
 	"base64Binary":       {"string", "Uint8Array", "char[]", "List<Byte>", "String"},
 	"boolean":            {"bool", "boolean", "bool", "Boolean", "bool"},
-	"byte":               {"int8", "any", "char[]", "Byte", "u8"},
+	"byte":               {"int8", "number", "signed char", "Byte", "i8"},
 	"date":               {"string", "string", "char", "String", "u8"},
 	"dateTime":           {"string", "string", "char", "String", "u8"},
 	"decimal":            {"float64", "number", "float", "Float", "f64"},
@@ -148,7 +149,7 @@ var BuildInTypes = map[string][]string{
 	"int":                {"int", "number", "int", "Integer", "i32"},
 	"integer":            {"int", "number", "int", "Integer", "i32"},
 	"language":           {"string", "string", "char", "String", "String"},
-	"long":               {"int64", "number", "int", "Long", "i64"},
+	"long":               {"int64", "number", "long long", "Long", "i64"},
 	"negativeInteger":    {"int", "number", "int", "Integer", "i32"},
 	"nonNegativeInteger": {"int", "number", "int", "Integer", "u32"},
 	"normalizedString":   {"string", "string", "char", "String", "String"},
@@ -158,10 +159,10 @@ var BuildInTypes = map[string][]string{
 	"string":             {"string", "string", "char", "String", "String"},
 	"time":               {"time.Time", "string", "char", "String", "String"},
 	"token":              {"string", "string", "char", "String", "String"},
-	"unsignedByte":       {"uint8", "any", "char", "Byte", "u8"},
-	"unsignedInt":        {"uint32", "number", "unsigned int", "Integer", "u32"},
-	"unsignedLong":       {"uint64", "number", "unsigned int", "Long", "u64"},
-	"unsignedShort":      {"uint16", "number", "unsigned int", "Short", "u16"},
+	"unsignedByte":       {"uint8", "number", "unsigned char", "Short", "u8"},
+	"unsignedInt":        {"uint32", "number", "unsigned int", "Long", "u32"},
+	"unsignedLong":       {"uint64", "number", "unsigned long long", "java.math.BigInteger", "u64"},
+	"unsignedShort":      {"uint16", "number", "unsigned int", "Integer", "u16"},
 	"xml:lang":           {"string", "string", "char", "String", "String"},
 	"xml:space":          {"string", "string", "char", "String", "String"},
 	"xml:base":           {"string", "string", "char", "String", "String"},
-- 
2.43.0


From ae114cc3b5d6d27ab7de978d377c36cdc807fff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:51 +0000
Subject: [PATCH 25/45] fix: simple content over a simple type declared later
 has a value member

---
 genGo.go         | 7 ++++---
 genJava.go       | 9 +++++----
 genRust.go       | 5 +++--
 genTypeScript.go | 9 +++++----
 4 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/genGo.go b/genGo.go
index da7c447..bc0b082 100644
--- a/genGo.go
+++ b/genGo.go
@@ -241,10 +241,11 @@ func (gen *CodeGenerator) GoComplexType(v *ComplexType) {
 			// If the type is a built-in type, generate a Value field as chardata.
 			// If it's not built-in one, embed the base type in the struct for the child type
 			// to effectively inherit all of the base type's fields
-			if isGoBuiltInType(v.Base) {
-				content += fmt.Sprintf("\tValue\t%s\t`xml:\",chardata\"`\n", gen.goFieldType(v.Base))
+			base := getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree)
+			if isGoBuiltInType(base) {
+				content += fmt.Sprintf("\tValue\t%s\t`xml:\",chardata\"`\n", gen.goFieldType(base))
 			} else {
-				content += fmt.Sprintf("\t%s\n", gen.goFieldType(v.Base))
+				content += fmt.Sprintf("\t%s\n", gen.goFieldType(base))
 			}
 		}
 		content += "}\n"
diff --git a/genJava.go b/genJava.go
index a3655d4..5f3bccc 100644
--- a/genJava.go
+++ b/genJava.go
@@ -173,8 +173,9 @@ func (gen *CodeGenerator) JavaComplexType(v *ComplexType) {
 			content += fmt.Sprintf("\t@XmlElement(required = true, name = \"%s\")\n\tprotected %s %s;\n", element.Name, fieldType, genJavaFieldName(element.Name, false))
 		}
 
-		if len(v.Base) > 0 && isBuiltInJavaType(v.Base) {
-			fieldType := genJavaFieldType(getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree))
+		base := getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree)
+		if len(v.Base) > 0 && isBuiltInJavaType(base) {
+			fieldType := genJavaFieldType(base)
 			content += fmt.Sprintf("\t@XmlValue\n\tprotected %s value;\n", fieldType)
 		}
 
@@ -183,8 +184,8 @@ func (gen *CodeGenerator) JavaComplexType(v *ComplexType) {
 		fieldName := genJavaFieldName(v.Name, true)
 
 		typeExtension := ""
-		if len(v.Base) > 0 && !isBuiltInJavaType(v.Base) {
-			fieldType := genJavaFieldType(getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree))
+		if len(v.Base) > 0 && !isBuiltInJavaType(base) {
+			fieldType := genJavaFieldType(base)
 			typeExtension = fmt.Sprintf(" extends %s ", fieldType)
 		}
 
diff --git a/genRust.go b/genRust.go
index ed59602..cca9d7e 100644
--- a/genRust.go
+++ b/genRust.go
@@ -248,8 +248,9 @@ func (gen *CodeGenerator) RustComplexType(v *ComplexType) {
 			}
 		}
 		if len(v.Base) > 0 {
-			fieldType := genRustFieldType(getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree))
-			if isRustBuiltInType(v.Base) {
+			base := getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree)
+			fieldType := genRustFieldType(base)
+			if isRustBuiltInType(base) {
 				content += fmt.Sprintf("\t#[serde(rename = \"$value\")]\n\tpub value: %s,\n", fieldType)
 			} else {
 				fieldName := genRustFieldName(fieldType)
diff --git a/genTypeScript.go b/genTypeScript.go
index fc89743..bed4c55 100644
--- a/genTypeScript.go
+++ b/genTypeScript.go
@@ -173,16 +173,17 @@ func (gen *CodeGenerator) TypeScriptComplexType(v *ComplexType) {
 			content += fmt.Sprintf("\t%s: %s;\n", genTypeScriptFieldName(element.Name, false), fieldType)
 		}
 
-		if len(v.Base) > 0 && isBuiltInTypeScriptType(v.Base) {
-			fieldType := genTypeScriptFieldType(getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree), false)
+		base := getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree)
+		if len(v.Base) > 0 && isBuiltInTypeScriptType(base) {
+			fieldType := genTypeScriptFieldType(base, false)
 			content += fmt.Sprintf("\tValue: %s;\n", fieldType)
 		}
 		content += "}\n"
 		gen.StructAST[v.Name] = content
 		fieldName := genTypeScriptFieldName(v.Name, true)
 		typeExtension := ""
-		if len(v.Base) > 0 && !isBuiltInTypeScriptType(v.Base) {
-			fieldType := genTypeScriptFieldType(getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree), false)
+		if len(v.Base) > 0 && !isBuiltInTypeScriptType(base) {
+			fieldType := genTypeScriptFieldType(base, false)
 			content += fmt.Sprintf("\tValue: %s;\n", fieldType)
 			typeExtension = fmt.Sprintf(" extends %s ", fieldType)
 		}
-- 
2.43.0


From 0b28dab4d12c0269acc5476238e58cc3ace9b4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:52 +0000
Subject: [PATCH 26/45] fix: repeating built-in types are arrays in TypeScript

---
 genTypeScript.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/genTypeScript.go b/genTypeScript.go
index bed4c55..2b705f5 100644
--- a/genTypeScript.go
+++ b/genTypeScript.go
@@ -16,13 +16,15 @@ import (
 )
 
 var typeScriptBuildInType = map[string]bool{
-	"boolean":    true,
-	"number":     true,
-	"string":     true,
-	"void":       true,
-	"null":       true,
-	"undefined":  true,
-	"Uint8Array": true,
+	"any":           true,
+	"boolean":       true,
+	"number":        true,
+	"string":        true,
+	"void":          true,
+	"null":          true,
+	"undefined":     true,
+	"Array<string>": true,
+	"Uint8Array":    true,
 }
 
 // GenTypeScript generate TypeScript programming language source code for XML
@@ -66,6 +68,9 @@ func genTypeScriptFieldName(name string, unique bool) (fieldName string) {
 func genTypeScriptFieldType(name string, plural bool) (fieldType string) {
 	if _, ok := typeScriptBuildInType[name]; ok {
 		fieldType = name
+		if plural && name != "Uint8Array" {
+			fieldType = fmt.Sprintf("Array<%s>", name)
+		}
 		return
 	}
 	if declared, ok := fieldNames[name]; ok && declared != "" {
-- 
2.43.0


From 4ae8d2b422230d6c6f0bb08cb9913b718af9e43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:54 +0000
Subject: [PATCH 27/45] fix: documentation stays inside the comment of its type

---
 genJava.go | 3 ++-
 utils.go   | 9 ++++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/genJava.go b/genJava.go
index 5f3bccc..9999cb9 100644
--- a/genJava.go
+++ b/genJava.go
@@ -106,7 +106,8 @@ func (gen *CodeGenerator) JavaSimpleType(v *SimpleType) {
 			fieldType := genJavaFieldType(getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree))
 			content := fmt.Sprintf("\tprotected List<%s> %s;\n", fieldType, genJavaFieldName(v.Name, false))
 			gen.StructAST[v.Name] = content
-			gen.Field += fmt.Sprintf("\n@XmlAccessorType(XmlAccessType.FIELD)\n@XmlAttribute(required = true, name = \"%s\")\npublic class %s {\n%s}\n", v.Name, genJavaFieldName(v.Name, true), gen.StructAST[v.Name])
+			fieldName := genJavaFieldName(v.Name, true)
+			gen.Field += fmt.Sprintf("%s@XmlAccessorType(XmlAccessType.FIELD)\n@XmlAttribute(required = true, name = \"%s\")\npublic class %s {\n%s}\n", genFieldComment(fieldName, v.Doc, "//"), v.Name, fieldName, gen.StructAST[v.Name])
 			return
 		}
 	}
diff --git a/utils.go b/utils.go
index 25e3327..583ca8e 100644
--- a/utils.go
+++ b/utils.go
@@ -319,7 +319,14 @@ func fetchSchema(URL string) ([]byte, error) {
 }
 
 func genFieldComment(name, doc, prefix string) string {
-	docReplacer := strings.NewReplacer("\n", fmt.Sprintf("\r\n%s ", prefix), "\t", "")
+	// every line terminator of a target language starts a new comment line,
+	// and Java and C do not get to see escapes that end a comment
+	lineBreak := fmt.Sprintf("\r\n%s ", prefix)
+	docReplacer := strings.NewReplacer("\r\n", lineBreak, "\n", lineBreak, "\r", lineBreak, "\u2028", lineBreak,
+		"\u2029", lineBreak, "\t", "", "\ufeff", "", "\\u", "\\ u")
+	if strings.HasSuffix(doc, "\\") {
+		doc += "."
+	}
 	if doc == "" {
 		return fmt.Sprintf("\r\n%s %s ...\r\n", prefix, name)
 	}
-- 
2.43.0


From fd5ed3ac2474df25434064e096ca68c8039f4540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:54 +0000
Subject: [PATCH 28/45] fix: members of a Rust union have names of their own

---
 genRust.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/genRust.go b/genRust.go
index cca9d7e..78317ad 100644
--- a/genRust.go
+++ b/genRust.go
@@ -192,10 +192,11 @@ func (gen *CodeGenerator) RustSimpleType(v *SimpleType) {
 				if memberType == "" { // fix order issue
 					memberType = getBasefromSimpleType(memberName, gen.ProtoTree)
 				}
-				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", v.Name, genRustFieldName(memberName), genRustFieldType(memberType))
+				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", memberName, genRustFieldName(memberName), genRustFieldType(memberType))
 			}
 			gen.StructAST[v.Name] = content
-			gen.Field += fmt.Sprintf("\n#[derive(Debug, Deserialize, Serialize, PartialEq)]\npub struct %s {\n%s}\n", genRustStructName(v.Name, true), gen.StructAST[v.Name])
+			fieldName := genRustStructName(v.Name, true)
+			gen.Field += fmt.Sprintf("\n%s#[derive(Debug, Deserialize, Serialize, PartialEq)]\npub struct %s {\n%s}\n", genFieldComment(fieldName, v.Doc, "//"), fieldName, gen.StructAST[v.Name])
 		}
 		return
 	}
-- 
2.43.0


From 5f57c000acb08a0536af35d783e0877ced5ba2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:23 +0000
Subject: [PATCH 29/45] fix: union member types may be separated by any white
 space

---
 xmlUnion.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmlUnion.go b/xmlUnion.go
index dce084f..958635f 100644
--- a/xmlUnion.go
+++ b/xmlUnion.go
@@ -25,7 +25,7 @@ func (opt *Options) OnUnion(ele xml.StartElement, protoTree []interface{}) (err
 	opt.SimpleType.Peek().(*SimpleType).MemberTypes = make(map[string]string)
 	for _, attr := range ele.Attr {
 		if attr.Name.Local == "memberTypes" {
-			memberTypes := strings.Split(attr.Value, " ")
+			memberTypes := strings.Fields(attr.Value)
 			for _, memberType := range memberTypes {
 				opt.SimpleType.Peek().(*SimpleType).MemberTypes[trimNSPrefix(memberType)], err = opt.GetValueType(memberType, protoTree)
 				if err != nil {
-- 
2.43.0


From 1876181e7b2618fbb095ceb70d95fdd83e70b15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:24 +0000
Subject: [PATCH 30/45] fix: elements of a Go group struct have their XML name

---
 genGo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/genGo.go b/genGo.go
index bc0b082..6e6d6d5 100644
--- a/genGo.go
+++ b/genGo.go
@@ -273,7 +273,7 @@ func (gen *CodeGenerator) GoGroup(v *Group) {
 			if element.Plural {
 				plural = "[]"
 			}
-			content += fmt.Sprintf("\t%s\t%s%s\n", genGoFieldName(element.Name, false), plural, gen.goFieldType(getBasefromSimpleType(trimNSPrefix(element.Type), gen.ProtoTree)))
+			content += fmt.Sprintf("\t%s\t%s%s\t`xml:\"%s\"`\n", genGoFieldName(element.Name, false), plural, gen.goFieldType(getBasefromSimpleType(trimNSPrefix(element.Type), gen.ProtoTree)), element.Name)
 		}
 
 		for _, group := range v.Groups {
-- 
2.43.0


From 418d3f7aa26c67d63509c2e4f8161821ca6b10a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:26 +0000
Subject: [PATCH 31/45] fix: a Rust struct is never named Self

---
 genRust.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/genRust.go b/genRust.go
index 78317ad..e5fe266 100644
--- a/genRust.go
+++ b/genRust.go
@@ -148,6 +148,9 @@ func genRustStructName(name string, unique bool) (structName string) {
 	}
 	structName = tmp
 	structName = strings.NewReplacer("-", "", "_", "").Replace(structName)
+	if _, ok := rustKeywords[structName]; ok {
+		structName += "Type"
+	}
 	if unique {
 		structName = uniqueFieldName(name, structName)
 	}
-- 
2.43.0


From 5edb9a14f0df91ac77f5f5428ba6a28864026c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:27 +0000
Subject: [PATCH 32/45] fix: every enumeration value is a valid TypeScript enum
 entry

---
 genTypeScript.go | 42 +++++++++++++++++++++++++++++++++++++++---
 1 file changed, 39 insertions(+), 3 deletions(-)

diff --git a/genTypeScript.go b/genTypeScript.go
index 2b705f5..b9f7055 100644
--- a/genTypeScript.go
+++ b/genTypeScript.go
@@ -90,6 +90,42 @@ func genTypeScriptFieldType(name string, plural bool) (fieldType string) {
 	return
 }
 
+// genTypeScriptEnumName returns the name of an enum entry: a value that is
+// not an identifier gets quoted, and one that starts like a number prefixed,
+// since an entry can't have a numeric name.
+func genTypeScriptEnumName(name string) string {
+	if name == "" || name == "Infinity" || name == "NaN" || strings.IndexByte("0123456789+-.", name[0]) != -1 {
+		name = "Enum" + name
+	}
+	for _, c := range name {
+		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '$') {
+			return quoteTypeScriptString(name)
+		}
+	}
+	return name
+}
+
+// genTypeScriptNumber returns the literal of a number in XSD notation.
+func genTypeScriptNumber(value string) string {
+	sign := ""
+	if strings.HasPrefix(value, "-") {
+		sign = "-"
+	}
+	value = strings.TrimLeft(value, "+-")
+	if value == "INF" {
+		value = "Infinity"
+	}
+	for len(value) > 1 && value[0] == '0' && value[1] >= '0' && value[1] <= '9' {
+		value = value[1:]
+	}
+	return sign + value
+}
+
+// quoteTypeScriptString returns a string literal.
+func quoteTypeScriptString(value string) string {
+	return "'" + strings.NewReplacer("\\", "\\\\", "'", "\\'", "\n", "\\n", "\r", "\\r").Replace(value) + "'"
+}
+
 // TypeScriptSimpleType generates code for simple type XML schema in TypeScript language
 // syntax.
 func (gen *CodeGenerator) TypeScriptSimpleType(v *SimpleType) {
@@ -131,11 +167,11 @@ func (gen *CodeGenerator) TypeScriptSimpleType(v *SimpleType) {
 		for _, enum := range v.Restriction.Enum {
 			switch baseType {
 			case "string":
-				content += fmt.Sprintf("\t%s = '%s',\n", enum, enum)
+				content += fmt.Sprintf("\t%s = %s,\n", genTypeScriptEnumName(enum), quoteTypeScriptString(enum))
 			case "number":
-				content += fmt.Sprintf("\tEnum%s = %s,\n", enum, enum)
+				content += fmt.Sprintf("\t%s = %s,\n", genTypeScriptEnumName("Enum"+enum), genTypeScriptNumber(enum))
 			default:
-				content += fmt.Sprintf("\tEnum%s = '%s',\n", enum, enum)
+				content += fmt.Sprintf("\t%s = %s,\n", genTypeScriptEnumName("Enum"+enum), quoteTypeScriptString(enum))
 			}
 		}
 		gen.StructAST[v.Name] = content
-- 
2.43.0


From 11617bf20b467c45b8186e5e9c6ec89d5d6bcaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:55 +0000
Subject: [PATCH 33/45] fix: a reference to a type named interface is valid Go

---
 genGo.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/genGo.go b/genGo.go
index 6e6d6d5..d724483 100644
--- a/genGo.go
+++ b/genGo.go
@@ -44,7 +44,6 @@ var goBuildinType = map[string]bool{
 	"int16":         true,
 	"int32":         true,
 	"int64":         true,
-	"interface":     true,
 	"[]interface{}": true,
 	"string":        true,
 	"[]string":      true,
-- 
2.43.0


From 31dcf2d6b4f1e040195aa073938652bda848aec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:47 +0000
Subject: [PATCH 34/45] fix: looking up a type in an included schema succeeds

---
 parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser.go b/parser.go
index 17d0e4b..90635f2 100644
--- a/parser.go
+++ b/parser.go
@@ -113,6 +113,7 @@ func (opt *Options) Parse() (err error) {
 		var token xml.Token
 		token, err = decoder.Token()
 		if err == io.EOF {
+			err = nil
 			break
 		}
 		if err != nil {
-- 
2.43.0


From fff5b70be141c2856fd8f2a8382994a598034e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:32 +0000
Subject: [PATCH 35/45] fix: types resolve across included and imported schemas

---
 parser.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/parser.go b/parser.go
index 90635f2..da3fd5e 100644
--- a/parser.go
+++ b/parser.go
@@ -208,14 +208,17 @@ func (opt *Options) GetValueType(value string, XSDSchema []interface{}) (valueTy
 		valueType = buildType
 		return
 	}
-	valueType = getBasefromSimpleType(trimNSPrefix(value), XSDSchema)
-	if valueType != trimNSPrefix(value) && valueType != "" {
-		return
+	valueType = trimNSPrefix(value)
+	schemaLocation := opt.NSSchemaLocationMap[opt.parseNS(value)]
+	if schemaLocation == "" {
+		valueType = getBasefromSimpleType(valueType, XSDSchema)
+		if valueType != trimNSPrefix(value) && valueType != "" {
+			return
+		}
 	}
 	if opt.Extract {
 		return
 	}
-	schemaLocation := opt.NSSchemaLocationMap[opt.parseNS(value)]
 	if isValidURL(schemaLocation) {
 		return
 	}
@@ -241,6 +244,10 @@ func (opt *Options) GetValueType(value string, XSDSchema []interface{}) (valueTy
 			return
 		}
 	}
+	// the types of a schema that has been parsed are resolved across files
+	if valueType = getBasefromSimpleType(trimNSPrefix(value), opt.ParseFileMap[xsdFile]); valueType != trimNSPrefix(value) && valueType != "" {
+		return
+	}
 	return getTypeFromFiles(trimNSPrefix(value), opt.Lang, []string{xsdFile})
 }
 
@@ -265,6 +272,7 @@ func (opt *Options) includedFiles() (files []string) {
 // getTypeFromFiles looks up the type of the given name in schema files and
 // the ones they include, and returns the name if it is not a simple type.
 func getTypeFromFiles(name, lang string, files []string) (string, error) {
+	var protoTree []interface{}
 	visited := make(map[string]bool)
 	for i := 0; i < len(files); i++ {
 		if visited[files[i]] {
@@ -283,10 +291,11 @@ func getTypeFromFiles(name, lang string, files []string) (string, error) {
 		if err := parser.Parse(); err != nil {
 			return name, err
 		}
-		if valueType := getBasefromSimpleType(name, parser.ProtoTree); valueType != name && valueType != "" {
-			return valueType, nil
-		}
+		protoTree = append(protoTree, parser.ProtoTree...)
 		files = append(files, parser.includedFiles()...)
 	}
+	if valueType := getBasefromSimpleType(name, protoTree); valueType != "" {
+		return valueType, nil
+	}
 	return name, nil
 }
-- 
2.43.0


From dfd51fd63ec954b819b83627d3cba0b2e9201d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:11 +0000
Subject: [PATCH 36/45] fix: a directory in place of a needed schema is
 reported

---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index da3fd5e..86db644 100644
--- a/parser.go
+++ b/parser.go
@@ -74,7 +74,7 @@ func (opt *Options) Parse() (err error) {
 	if err != nil {
 		return
 	}
-	if fi.IsDir() {
+	if fi.IsDir() && !opt.Extract {
 		return
 	}
 	var xmlFile *os.File
-- 
2.43.0


From a4d7c7522a86ed0ab700a7b0ac9d22990a2b963e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:29 +0000
Subject: [PATCH 37/45] fix: documentation does not end up with an escape after
 clean-up

---
 utils.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils.go b/utils.go
index 583ca8e..1f58d74 100644
--- a/utils.go
+++ b/utils.go
@@ -323,7 +323,8 @@ func genFieldComment(name, doc, prefix string) string {
 	// and Java and C do not get to see escapes that end a comment
 	lineBreak := fmt.Sprintf("\r\n%s ", prefix)
 	docReplacer := strings.NewReplacer("\r\n", lineBreak, "\n", lineBreak, "\r", lineBreak, "\u2028", lineBreak,
-		"\u2029", lineBreak, "\t", "", "\ufeff", "", "\\u", "\\ u")
+		"\u2029", lineBreak, "\\u", "\\ u")
+	doc = strings.NewReplacer("\t", "", "\ufeff", "").Replace(doc)
 	if strings.HasSuffix(doc, "\\") {
 		doc += "."
 	}
-- 
2.43.0


From b5087578f5c91bda29eac9c72374b12de1399e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:34 +0000
Subject: [PATCH 38/45] fix: union members of types declared later have their
 type

---
 genC.go          | 3 ++-
 genGo.go         | 3 ++-
 genJava.go       | 3 ++-
 genRust.go       | 3 ++-
 genTypeScript.go | 3 ++-
 5 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/genC.go b/genC.go
index 78c23ec..75ef609 100644
--- a/genC.go
+++ b/genC.go
@@ -119,8 +119,9 @@ func (gen *CodeGenerator) CSimpleType(v *SimpleType) {
 				memberType := member.value
 
 				if memberType == "" { // fix order issue
-					memberType = getBasefromSimpleType(memberName, gen.ProtoTree)
+					memberType = memberName
 				}
+				memberType = getBasefromSimpleType(memberType, gen.ProtoTree)
 				var plural, fieldType string
 				var ok bool
 				if fieldType, ok = innerArray(genCFieldType(memberType)); ok {
diff --git a/genGo.go b/genGo.go
index d724483..5cea5b6 100644
--- a/genGo.go
+++ b/genGo.go
@@ -170,8 +170,9 @@ func (gen *CodeGenerator) GoSimpleType(v *SimpleType) {
 				memberType := member.value
 
 				if memberType == "" { // fix order issue
-					memberType = getBasefromSimpleType(memberName, gen.ProtoTree)
+					memberType = memberName
 				}
+				memberType = getBasefromSimpleType(memberType, gen.ProtoTree)
 				content += fmt.Sprintf("\t%s\t%s\n", genGoFieldName(memberName, false), gen.goFieldType(memberType))
 			}
 			content += "}\n"
diff --git a/genJava.go b/genJava.go
index 9999cb9..f843c4c 100644
--- a/genJava.go
+++ b/genJava.go
@@ -119,8 +119,9 @@ func (gen *CodeGenerator) JavaSimpleType(v *SimpleType) {
 				memberType := member.value
 
 				if memberType == "" { // fix order issue
-					memberType = getBasefromSimpleType(memberName, gen.ProtoTree)
+					memberType = memberName
 				}
+				memberType = getBasefromSimpleType(memberType, gen.ProtoTree)
 				fieldType := genJavaFieldType(memberType)
 				content += fmt.Sprintf("\t@XmlElement(required = true)\n\tprotected %s %s;\n", fieldType, genJavaFieldName(memberName, false))
 			}
diff --git a/genRust.go b/genRust.go
index e5fe266..81caa5e 100644
--- a/genRust.go
+++ b/genRust.go
@@ -193,8 +193,9 @@ func (gen *CodeGenerator) RustSimpleType(v *SimpleType) {
 				memberType := member.value
 
 				if memberType == "" { // fix order issue
-					memberType = getBasefromSimpleType(memberName, gen.ProtoTree)
+					memberType = memberName
 				}
+				memberType = getBasefromSimpleType(memberType, gen.ProtoTree)
 				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", memberName, genRustFieldName(memberName), genRustFieldType(memberType))
 			}
 			gen.StructAST[v.Name] = content
diff --git a/genTypeScript.go b/genTypeScript.go
index b9f7055..a28a0dc 100644
--- a/genTypeScript.go
+++ b/genTypeScript.go
@@ -147,8 +147,9 @@ func (gen *CodeGenerator) TypeScriptSimpleType(v *SimpleType) {
 				memberType := member.value
 
 				if memberType == "" { // fix order issue
-					memberType = getBasefromSimpleType(memberName, gen.ProtoTree)
+					memberType = memberName
 				}
+				memberType = getBasefromSimpleType(memberType, gen.ProtoTree)
 				content += fmt.Sprintf("\t%s: %s;\n", genTypeScriptFieldName(memberName, false), genTypeScriptFieldType(memberType, false))
 			}
 			content += "}\n"
-- 
2.43.0


From 4e14293c98286cfa52f3f1fd6a87b133c146820e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:08 +0000
Subject: [PATCH 39/45] fix: attributes of other namespaces do not change a
 declaration

---
 parser.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/parser.go b/parser.go
index 86db644..2136730 100644
--- a/parser.go
+++ b/parser.go
@@ -129,6 +129,7 @@ func (opt *Options) Parse() (err error) {
 			if element.Name.Space != xsdNamespace {
 				continue
 			}
+			element.Attr = schemaAttributes(element.Attr)
 			opt.InElement = element.Name.Local
 			if opt.InElement == "appinfo" || opt.InElement == "documentation" {
 				notes, doc = 1, ""
@@ -185,6 +186,17 @@ func (opt *Options) Parse() (err error) {
 	return
 }
 
+// schemaAttributes returns the attributes of a schema component without the
+// ones of other namespaces, which do not declare anything.
+func schemaAttributes(attrs []xml.Attr) (own []xml.Attr) {
+	for _, attr := range attrs {
+		if attr.Name.Space == "" || attr.Name.Space == "xmlns" {
+			own = append(own, attr)
+		}
+	}
+	return
+}
+
 // outputPath returns the path of the generated file, without extension, which
 // mirrors the place of the schema in the input directory and stays within the
 // output directory for a schema outside of it.
-- 
2.43.0


From 39a743da4f0391ffc71888e906016c42317790a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:09 +0000
Subject: [PATCH 40/45] fix: members of a declaration have identifiers of their
 own

---
 genC.go          | 20 ++++++++++++--------
 genGo.go         | 34 +++++++++++++++++++++-------------
 genJava.go       | 20 ++++++++++++--------
 genRust.go       | 28 ++++++++++++++++------------
 genTypeScript.go | 22 +++++++++++++---------
 utils.go         | 14 ++++++++++++++
 6 files changed, 88 insertions(+), 50 deletions(-)

diff --git a/genC.go b/genC.go
index 75ef609..53f0b6b 100644
--- a/genC.go
+++ b/genC.go
@@ -114,6 +114,7 @@ func (gen *CodeGenerator) CSimpleType(v *SimpleType) {
 	if v.Union && len(v.MemberTypes) > 0 {
 		if _, ok := gen.StructAST[v.Name]; !ok {
 			content := "struct {\n"
+			members := memberNames{}
 			for _, member := range toSortedPairs(v.MemberTypes) {
 				memberName := member.key
 				memberType := member.value
@@ -127,7 +128,7 @@ func (gen *CodeGenerator) CSimpleType(v *SimpleType) {
 				if fieldType, ok = innerArray(genCFieldType(memberType)); ok {
 					plural = "[]"
 				}
-				content += fmt.Sprintf("\t%s %s%s;\n", fieldType, genCFieldName(memberName, false), plural)
+				content += fmt.Sprintf("\t%s %s%s;\n", fieldType, members.unique(genCFieldName(memberName, false)), plural)
 			}
 			content += "}"
 			gen.StructAST[v.Name] = content
@@ -153,9 +154,10 @@ func (gen *CodeGenerator) CSimpleType(v *SimpleType) {
 func (gen *CodeGenerator) CComplexType(v *ComplexType) {
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		content := "struct {\n"
+		members := memberNames{}
 		for _, attrGroup := range v.AttributeGroup {
 			fieldType := getBasefromSimpleType(trimNSPrefix(attrGroup.Ref), gen.ProtoTree)
-			content += fmt.Sprintf("\t%s %s;\n", genCFieldType(fieldType), genCFieldName(attrGroup.Name, false))
+			content += fmt.Sprintf("\t%s %s;\n", genCFieldType(fieldType), members.unique(genCFieldName(attrGroup.Name, false)))
 		}
 
 		for _, attribute := range v.Attributes {
@@ -168,7 +170,7 @@ func (gen *CodeGenerator) CComplexType(v *ComplexType) {
 			if fieldType, ok = innerArray(genCFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree))); ok {
 				plural = "[]"
 			}
-			content += fmt.Sprintf("\t%s %sAttr%s; // attr%s\n", fieldType, genCFieldName(attribute.Name, false), plural, optional)
+			content += fmt.Sprintf("\t%s %s%s; // attr%s\n", fieldType, members.unique(genCFieldName(attribute.Name, false)+"Attr"), plural, optional)
 		}
 
 		for _, group := range v.Groups {
@@ -176,7 +178,7 @@ func (gen *CodeGenerator) CComplexType(v *ComplexType) {
 			if group.Plural {
 				plural = "[]"
 			}
-			content += fmt.Sprintf("\t%s %s%s;\n", genCFieldType(getBasefromSimpleType(trimNSPrefix(group.Ref), gen.ProtoTree)), genCFieldName(group.Name, false), plural)
+			content += fmt.Sprintf("\t%s %s%s;\n", genCFieldType(getBasefromSimpleType(trimNSPrefix(group.Ref), gen.ProtoTree)), members.unique(genCFieldName(group.Name, false)), plural)
 		}
 
 		for _, element := range v.Elements {
@@ -185,7 +187,7 @@ func (gen *CodeGenerator) CComplexType(v *ComplexType) {
 			if fieldType, ok = innerArray(genCFieldType(getBasefromSimpleType(trimNSPrefix(element.Type), gen.ProtoTree))); ok || element.Plural {
 				plural = "[]"
 			}
-			content += fmt.Sprintf("\t%s %s%s;\n", fieldType, genCFieldName(element.Name, false), plural)
+			content += fmt.Sprintf("\t%s %s%s;\n", fieldType, members.unique(genCFieldName(element.Name, false)), plural)
 		}
 		// TODO: Implement handling of v.Base for the cases of the type being a built-in one and
 		// the case of inheritance/embedding
@@ -200,13 +202,14 @@ func (gen *CodeGenerator) CComplexType(v *ComplexType) {
 func (gen *CodeGenerator) CGroup(v *Group) {
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		content := "struct {\n"
+		members := memberNames{}
 		for _, element := range v.Elements {
 			var plural, fieldType string
 			var ok bool
 			if fieldType, ok = innerArray(genCFieldType(getBasefromSimpleType(trimNSPrefix(element.Type), gen.ProtoTree))); ok || element.Plural {
 				plural = "[]"
 			}
-			content += fmt.Sprintf("\t%s %s%s;\n", fieldType, genCFieldName(element.Name, false), plural)
+			content += fmt.Sprintf("\t%s %s%s;\n", fieldType, members.unique(genCFieldName(element.Name, false)), plural)
 		}
 
 		for _, group := range v.Groups {
@@ -214,7 +217,7 @@ func (gen *CodeGenerator) CGroup(v *Group) {
 			if group.Plural {
 				plural = "[]"
 			}
-			content += fmt.Sprintf("\t%s %s%s;\n", genCFieldType(getBasefromSimpleType(trimNSPrefix(group.Ref), gen.ProtoTree)), genCFieldName(group.Name, false), plural)
+			content += fmt.Sprintf("\t%s %s%s;\n", genCFieldType(getBasefromSimpleType(trimNSPrefix(group.Ref), gen.ProtoTree)), members.unique(genCFieldName(group.Name, false)), plural)
 		}
 
 		content += "}"
@@ -229,6 +232,7 @@ func (gen *CodeGenerator) CGroup(v *Group) {
 func (gen *CodeGenerator) CAttributeGroup(v *AttributeGroup) {
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		content := "struct {\n"
+		members := memberNames{}
 		for _, attribute := range v.Attributes {
 			var optional, plural, fieldType string
 			var ok bool
@@ -238,7 +242,7 @@ func (gen *CodeGenerator) CAttributeGroup(v *AttributeGroup) {
 			if fieldType, ok = innerArray(genCFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree))); ok {
 				plural = "[]"
 			}
-			content += fmt.Sprintf("\t%s %sAttr%s; // attr%s\n", fieldType, genCFieldName(attribute.Name, false), plural, optional)
+			content += fmt.Sprintf("\t%s %s%s; // attr%s\n", fieldType, members.unique(genCFieldName(attribute.Name, false)+"Attr"), plural, optional)
 		}
 		content += "}"
 		gen.StructAST[v.Name] = content
diff --git a/genGo.go b/genGo.go
index 5cea5b6..2b6b4ab 100644
--- a/genGo.go
+++ b/genGo.go
@@ -160,10 +160,11 @@ func (gen *CodeGenerator) GoSimpleType(v *SimpleType) {
 	if v.Union && len(v.MemberTypes) > 0 {
 		if _, ok := gen.StructAST[v.Name]; !ok {
 			content := " struct {\n"
+			members := memberNames{}
 			fieldName := genGoFieldName(v.Name, true)
 			if fieldName != v.Name {
 				gen.ImportEncodingXML = true
-				content += fmt.Sprintf("\tXMLName\txml.Name\t`xml:\"%s\"`\n", v.Name)
+				content += fmt.Sprintf("\t%s\txml.Name\t`xml:\"%s\"`\n", members.unique("XMLName"), v.Name)
 			}
 			for _, member := range toSortedPairs(v.MemberTypes) {
 				memberName := member.key
@@ -173,7 +174,7 @@ func (gen *CodeGenerator) GoSimpleType(v *SimpleType) {
 					memberType = memberName
 				}
 				memberType = getBasefromSimpleType(memberType, gen.ProtoTree)
-				content += fmt.Sprintf("\t%s\t%s\n", genGoFieldName(memberName, false), gen.goFieldType(memberType))
+				content += fmt.Sprintf("\t%s\t%s\n", members.unique(genGoFieldName(memberName, false)), gen.goFieldType(memberType))
 			}
 			content += "}\n"
 			gen.StructAST[v.Name] = content
@@ -194,17 +195,22 @@ func (gen *CodeGenerator) GoSimpleType(v *SimpleType) {
 func (gen *CodeGenerator) GoComplexType(v *ComplexType) {
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		content := " struct {\n"
+		members := memberNames{}
 		fieldName := genGoFieldName(v.Name, true)
 		if fieldName != v.Name {
 			gen.ImportEncodingXML = true
-			content += fmt.Sprintf("\tXMLName\txml.Name\t`xml:\"%s\"`\n", v.Name)
+			content += fmt.Sprintf("\t%s\txml.Name\t`xml:\"%s\"`\n", members.unique("XMLName"), v.Name)
+		}
+		if base := getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree); len(v.Base) > 0 && !isGoBuiltInType(base) {
+			// the name of an embedded type is that of the type
+			members.unique(strings.TrimPrefix(genGoFieldType(base), "*"))
 		}
 		for _, attrGroup := range v.AttributeGroup {
 			fieldType := getBasefromSimpleType(trimNSPrefix(attrGroup.Ref), gen.ProtoTree)
 			if fieldType == "time.Time" {
 				gen.ImportTime = true
 			}
-			content += fmt.Sprintf("\t%s\t%s\n", genGoFieldName(attrGroup.Name, false), gen.goFieldType(fieldType))
+			content += fmt.Sprintf("\t%s\t%s\n", members.unique(genGoFieldName(attrGroup.Name, false)), gen.goFieldType(fieldType))
 		}
 
 		for _, attribute := range v.Attributes {
@@ -216,14 +222,14 @@ func (gen *CodeGenerator) GoComplexType(v *ComplexType) {
 			if fieldType == "time.Time" {
 				gen.ImportTime = true
 			}
-			content += fmt.Sprintf("\t%sAttr\t%s\t`xml:\"%s,attr%s\"`\n", genGoFieldName(attribute.Name, false), fieldType, attribute.Name, optional)
+			content += fmt.Sprintf("\t%s\t%s\t`xml:\"%s,attr%s\"`\n", members.unique(genGoFieldName(attribute.Name, false)+"Attr"), fieldType, attribute.Name, optional)
 		}
 		for _, group := range v.Groups {
 			var plural string
 			if group.Plural {
 				plural = "[]"
 			}
-			content += fmt.Sprintf("\t%s\t%s%s\n", genGoFieldName(group.Name, false), plural, gen.goFieldType(getBasefromSimpleType(trimNSPrefix(group.Ref), gen.ProtoTree)))
+			content += fmt.Sprintf("\t%s\t%s%s\n", members.unique(genGoFieldName(group.Name, false)), plural, gen.goFieldType(getBasefromSimpleType(trimNSPrefix(group.Ref), gen.ProtoTree)))
 		}
 
 		for _, element := range v.Elements {
@@ -235,7 +241,7 @@ func (gen *CodeGenerator) GoComplexType(v *ComplexType) {
 			if fieldType == "time.Time" {
 				gen.ImportTime = true
 			}
-			content += fmt.Sprintf("\t%s\t%s%s\t`xml:\"%s\"`\n", genGoFieldName(element.Name, false), plural, fieldType, element.Name)
+			content += fmt.Sprintf("\t%s\t%s%s\t`xml:\"%s\"`\n", members.unique(genGoFieldName(element.Name, false)), plural, fieldType, element.Name)
 		}
 		if len(v.Base) > 0 {
 			// If the type is a built-in type, generate a Value field as chardata.
@@ -243,7 +249,7 @@ func (gen *CodeGenerator) GoComplexType(v *ComplexType) {
 			// to effectively inherit all of the base type's fields
 			base := getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree)
 			if isGoBuiltInType(base) {
-				content += fmt.Sprintf("\tValue\t%s\t`xml:\",chardata\"`\n", gen.goFieldType(base))
+				content += fmt.Sprintf("\t%s\t%s\t`xml:\",chardata\"`\n", members.unique("Value"), gen.goFieldType(base))
 			} else {
 				content += fmt.Sprintf("\t%s\n", gen.goFieldType(base))
 			}
@@ -263,17 +269,18 @@ func isGoBuiltInType(typeName string) bool {
 func (gen *CodeGenerator) GoGroup(v *Group) {
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		content := " struct {\n"
+		members := memberNames{}
 		fieldName := genGoFieldName(v.Name, true)
 		if fieldName != v.Name {
 			gen.ImportEncodingXML = true
-			content += fmt.Sprintf("\tXMLName\txml.Name\t`xml:\"%s\"`\n", v.Name)
+			content += fmt.Sprintf("\t%s\txml.Name\t`xml:\"%s\"`\n", members.unique("XMLName"), v.Name)
 		}
 		for _, element := range v.Elements {
 			var plural string
 			if element.Plural {
 				plural = "[]"
 			}
-			content += fmt.Sprintf("\t%s\t%s%s\t`xml:\"%s\"`\n", genGoFieldName(element.Name, false), plural, gen.goFieldType(getBasefromSimpleType(trimNSPrefix(element.Type), gen.ProtoTree)), element.Name)
+			content += fmt.Sprintf("\t%s\t%s%s\t`xml:\"%s\"`\n", members.unique(genGoFieldName(element.Name, false)), plural, gen.goFieldType(getBasefromSimpleType(trimNSPrefix(element.Type), gen.ProtoTree)), element.Name)
 		}
 
 		for _, group := range v.Groups {
@@ -281,7 +288,7 @@ func (gen *CodeGenerator) GoGroup(v *Group) {
 			if group.Plural {
 				plural = "[]"
 			}
-			content += fmt.Sprintf("\t%s\t%s%s\n", genGoFieldName(group.Name, false), plural, gen.goFieldType(getBasefromSimpleType(trimNSPrefix(group.Ref), gen.ProtoTree)))
+			content += fmt.Sprintf("\t%s\t%s%s\n", members.unique(genGoFieldName(group.Name, false)), plural, gen.goFieldType(getBasefromSimpleType(trimNSPrefix(group.Ref), gen.ProtoTree)))
 		}
 
 		content += "}\n"
@@ -295,17 +302,18 @@ func (gen *CodeGenerator) GoGroup(v *Group) {
 func (gen *CodeGenerator) GoAttributeGroup(v *AttributeGroup) {
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		content := " struct {\n"
+		members := memberNames{}
 		fieldName := genGoFieldName(v.Name, true)
 		if fieldName != v.Name {
 			gen.ImportEncodingXML = true
-			content += fmt.Sprintf("\tXMLName\txml.Name\t`xml:\"%s\"`\n", v.Name)
+			content += fmt.Sprintf("\t%s\txml.Name\t`xml:\"%s\"`\n", members.unique("XMLName"), v.Name)
 		}
 		for _, attribute := range v.Attributes {
 			var optional string
 			if attribute.Optional {
 				optional = `,omitempty`
 			}
-			content += fmt.Sprintf("\t%sAttr\t%s\t`xml:\"%s,attr%s\"`\n", genGoFieldName(attribute.Name, false), gen.goFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree)), attribute.Name, optional)
+			content += fmt.Sprintf("\t%s\t%s\t`xml:\"%s,attr%s\"`\n", members.unique(genGoFieldName(attribute.Name, false)+"Attr"), gen.goFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree)), attribute.Name, optional)
 		}
 		content += "}\n"
 		gen.StructAST[v.Name] = content
diff --git a/genJava.go b/genJava.go
index f843c4c..9946991 100644
--- a/genJava.go
+++ b/genJava.go
@@ -114,6 +114,7 @@ func (gen *CodeGenerator) JavaSimpleType(v *SimpleType) {
 	if v.Union && len(v.MemberTypes) > 0 {
 		if _, ok := gen.StructAST[v.Name]; !ok {
 			content := " {\n"
+			members := memberNames{}
 			for _, member := range toSortedPairs(v.MemberTypes) {
 				memberName := member.key
 				memberType := member.value
@@ -123,7 +124,7 @@ func (gen *CodeGenerator) JavaSimpleType(v *SimpleType) {
 				}
 				memberType = getBasefromSimpleType(memberType, gen.ProtoTree)
 				fieldType := genJavaFieldType(memberType)
-				content += fmt.Sprintf("\t@XmlElement(required = true)\n\tprotected %s %s;\n", fieldType, genJavaFieldName(memberName, false))
+				content += fmt.Sprintf("\t@XmlElement(required = true)\n\tprotected %s %s;\n", fieldType, members.unique(genJavaFieldName(memberName, false)))
 			}
 			content += "}\n"
 			gen.StructAST[v.Name] = content
@@ -146,9 +147,10 @@ func (gen *CodeGenerator) JavaSimpleType(v *SimpleType) {
 func (gen *CodeGenerator) JavaComplexType(v *ComplexType) {
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		content := " {\n"
+		members := memberNames{}
 		for _, attrGroup := range v.AttributeGroup {
 			fieldType := getBasefromSimpleType(trimNSPrefix(attrGroup.Ref), gen.ProtoTree)
-			content += fmt.Sprintf("\t@XmlElement(required = true)\n\tprotected %s %s;\n", genJavaFieldType(fieldType), genJavaFieldName(attrGroup.Name, false))
+			content += fmt.Sprintf("\t@XmlElement(required = true)\n\tprotected %s %s;\n", genJavaFieldType(fieldType), members.unique(genJavaFieldName(attrGroup.Name, false)))
 		}
 
 		for _, attribute := range v.Attributes {
@@ -157,14 +159,14 @@ func (gen *CodeGenerator) JavaComplexType(v *ComplexType) {
 				required = ""
 			}
 			fieldType := genJavaFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree))
-			content += fmt.Sprintf("\t@XmlAttribute(name = \"%s\"%s)\n\tprotected %s %sAttr;\n", attribute.Name, required, fieldType, genJavaFieldName(attribute.Name, false))
+			content += fmt.Sprintf("\t@XmlAttribute(name = \"%s\"%s)\n\tprotected %s %s;\n", attribute.Name, required, fieldType, members.unique(genJavaFieldName(attribute.Name, false)+"Attr"))
 		}
 		for _, group := range v.Groups {
 			var fieldType = genJavaFieldType(getBasefromSimpleType(trimNSPrefix(group.Ref), gen.ProtoTree))
 			if group.Plural {
 				fieldType = fmt.Sprintf("List<%s>", fieldType)
 			}
-			content += fmt.Sprintf("\tprotected %s %s;\n", fieldType, genJavaFieldName(group.Name, false))
+			content += fmt.Sprintf("\tprotected %s %s;\n", fieldType, members.unique(genJavaFieldName(group.Name, false)))
 		}
 
 		for _, element := range v.Elements {
@@ -172,7 +174,7 @@ func (gen *CodeGenerator) JavaComplexType(v *ComplexType) {
 			if element.Plural {
 				fieldType = fmt.Sprintf("List<%s>", fieldType)
 			}
-			content += fmt.Sprintf("\t@XmlElement(required = true, name = \"%s\")\n\tprotected %s %s;\n", element.Name, fieldType, genJavaFieldName(element.Name, false))
+			content += fmt.Sprintf("\t@XmlElement(required = true, name = \"%s\")\n\tprotected %s %s;\n", element.Name, fieldType, members.unique(genJavaFieldName(element.Name, false)))
 		}
 
 		base := getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree)
@@ -204,12 +206,13 @@ func isBuiltInJavaType(typeName string) bool {
 func (gen *CodeGenerator) JavaGroup(v *Group) {
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		content := " {\n"
+		members := memberNames{}
 		for _, element := range v.Elements {
 			var fieldType = genJavaFieldType(getBasefromSimpleType(trimNSPrefix(element.Type), gen.ProtoTree))
 			if element.Plural {
 				fieldType = fmt.Sprintf("List<%s>", fieldType)
 			}
-			content += fmt.Sprintf("\t@XmlElement(required = true, name = \"%s\")\n\tprotected %s %s;\n", element.Name, fieldType, genJavaFieldName(element.Name, false))
+			content += fmt.Sprintf("\t@XmlElement(required = true, name = \"%s\")\n\tprotected %s %s;\n", element.Name, fieldType, members.unique(genJavaFieldName(element.Name, false)))
 		}
 
 		for _, group := range v.Groups {
@@ -217,7 +220,7 @@ func (gen *CodeGenerator) JavaGroup(v *Group) {
 			if group.Plural {
 				fieldType = fmt.Sprintf("List<%s>", fieldType)
 			}
-			content += fmt.Sprintf("\tprotected %s %s;\n", fieldType, genJavaFieldName(group.Name, false))
+			content += fmt.Sprintf("\tprotected %s %s;\n", fieldType, members.unique(genJavaFieldName(group.Name, false)))
 		}
 
 		content += "}\n"
@@ -232,13 +235,14 @@ func (gen *CodeGenerator) JavaGroup(v *Group) {
 func (gen *CodeGenerator) JavaAttributeGroup(v *AttributeGroup) {
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		content := " {\n"
+		members := memberNames{}
 		for _, attribute := range v.Attributes {
 			var required = ", required = true"
 			if attribute.Optional {
 				required = ""
 			}
 			fieldType := genJavaFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree))
-			content += fmt.Sprintf("\t@XmlAttribute(name = \"%s\"%s)\n\tprotected %s %sAttr;\n", attribute.Name, required, fieldType, genJavaFieldName(attribute.Name, false))
+			content += fmt.Sprintf("\t@XmlAttribute(name = \"%s\"%s)\n\tprotected %s %s;\n", attribute.Name, required, fieldType, members.unique(genJavaFieldName(attribute.Name, false)+"Attr"))
 		}
 		content += "}\n"
 		gen.StructAST[v.Name] = content
diff --git a/genRust.go b/genRust.go
index 81caa5e..0b336c8 100644
--- a/genRust.go
+++ b/genRust.go
@@ -188,6 +188,7 @@ func (gen *CodeGenerator) RustSimpleType(v *SimpleType) {
 	if v.Union && len(v.MemberTypes) > 0 {
 		if _, ok := gen.StructAST[v.Name]; !ok {
 			var content string
+			members := memberNames{}
 			for _, member := range toSortedPairs(v.MemberTypes) {
 				memberName := member.key
 				memberType := member.value
@@ -196,7 +197,7 @@ func (gen *CodeGenerator) RustSimpleType(v *SimpleType) {
 					memberType = memberName
 				}
 				memberType = getBasefromSimpleType(memberType, gen.ProtoTree)
-				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", memberName, genRustFieldName(memberName), genRustFieldType(memberType))
+				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", memberName, members.unique(genRustFieldName(memberName)), genRustFieldType(memberType))
 			}
 			gen.StructAST[v.Name] = content
 			fieldName := genRustStructName(v.Name, true)
@@ -218,21 +219,22 @@ func (gen *CodeGenerator) RustSimpleType(v *SimpleType) {
 func (gen *CodeGenerator) RustComplexType(v *ComplexType) {
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		var content string
+		members := memberNames{}
 		for _, attrGroup := range v.AttributeGroup {
 			fieldType := getBasefromSimpleType(trimNSPrefix(attrGroup.Ref), gen.ProtoTree)
-			content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", attrGroup.Name, genRustFieldName(attrGroup.Name), genRustFieldType(fieldType))
+			content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", attrGroup.Name, members.unique(genRustFieldName(attrGroup.Name)), genRustFieldType(fieldType))
 		}
 		for _, attribute := range v.Attributes {
 			fieldType := genRustFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree))
 			if attribute.Optional {
-				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Option<%s>,\n", attribute.Name, genRustFieldName(attribute.Name), fieldType)
+				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Option<%s>,\n", attribute.Name, members.unique(genRustFieldName(attribute.Name)), fieldType)
 			} else {
-				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", attribute.Name, genRustFieldName(attribute.Name), fieldType)
+				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", attribute.Name, members.unique(genRustFieldName(attribute.Name)), fieldType)
 			}
 		}
 		for _, group := range v.Groups {
 			fieldType := genRustFieldType(getBasefromSimpleType(trimNSPrefix(group.Ref), gen.ProtoTree))
-			fieldName := genRustFieldName(group.Name)
+			fieldName := members.unique(genRustFieldName(group.Name))
 			if group.Plural {
 				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Vec<%s>,\n", group.Name, fieldName, fieldType)
 			} else {
@@ -241,7 +243,7 @@ func (gen *CodeGenerator) RustComplexType(v *ComplexType) {
 		}
 		for _, element := range v.Elements {
 			fieldType := genRustFieldType(getBasefromSimpleType(trimNSPrefix(element.Type), gen.ProtoTree))
-			fieldName := genRustFieldName(element.Name)
+			fieldName := members.unique(genRustFieldName(element.Name))
 			if element.Plural {
 				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Vec<%s>,\n", element.Name, fieldName, fieldType)
 			} else {
@@ -256,9 +258,9 @@ func (gen *CodeGenerator) RustComplexType(v *ComplexType) {
 			base := getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree)
 			fieldType := genRustFieldType(base)
 			if isRustBuiltInType(base) {
-				content += fmt.Sprintf("\t#[serde(rename = \"$value\")]\n\tpub value: %s,\n", fieldType)
+				content += fmt.Sprintf("\t#[serde(rename = \"$value\")]\n\tpub %s: %s,\n", members.unique("value"), fieldType)
 			} else {
-				fieldName := genRustFieldName(fieldType)
+				fieldName := members.unique(genRustFieldName(fieldType))
 				// If the type is not a built-in one, add the base type as a nested field tagged with flatten
 				content += fmt.Sprintf("\t#[serde(flatten)]\n\tpub %s: %s,\n", fieldName, fieldType)
 			}
@@ -278,9 +280,10 @@ func isRustBuiltInType(typeName string) bool {
 func (gen *CodeGenerator) RustGroup(v *Group) {
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		var content string
+		members := memberNames{}
 		for _, element := range v.Elements {
 			fieldType := genRustFieldType(getBasefromSimpleType(trimNSPrefix(element.Type), gen.ProtoTree))
-			fieldName := genRustFieldName(element.Name)
+			fieldName := members.unique(genRustFieldName(element.Name))
 			if element.Plural {
 				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Vec<%s>,\n", element.Name, fieldName, fieldType)
 			} else {
@@ -289,7 +292,7 @@ func (gen *CodeGenerator) RustGroup(v *Group) {
 		}
 		for _, group := range v.Groups {
 			fieldType := genRustFieldType(getBasefromSimpleType(trimNSPrefix(group.Ref), gen.ProtoTree))
-			fieldName := genRustFieldName(group.Name)
+			fieldName := members.unique(genRustFieldName(group.Name))
 			if group.Plural {
 				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Vec<%s>,\n", group.Name, fieldName, fieldType)
 			} else {
@@ -307,11 +310,12 @@ func (gen *CodeGenerator) RustGroup(v *Group) {
 func (gen *CodeGenerator) RustAttributeGroup(v *AttributeGroup) {
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		var content string
+		members := memberNames{}
 		for _, attribute := range v.Attributes {
 			if attribute.Optional {
-				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Option<%s>,\n", attribute.Name, genRustFieldName(attribute.Name), genRustFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree)))
+				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Option<%s>,\n", attribute.Name, members.unique(genRustFieldName(attribute.Name)), genRustFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree)))
 			} else {
-				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", attribute.Name, genRustFieldName(attribute.Name), genRustFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree)))
+				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", attribute.Name, members.unique(genRustFieldName(attribute.Name)), genRustFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree)))
 			}
 		}
 		gen.StructAST[v.Name] = content
diff --git a/genTypeScript.go b/genTypeScript.go
index a28a0dc..eed5735 100644
--- a/genTypeScript.go
+++ b/genTypeScript.go
@@ -142,6 +142,7 @@ func (gen *CodeGenerator) TypeScriptSimpleType(v *SimpleType) {
 	if v.Union && len(v.MemberTypes) > 0 {
 		if _, ok := gen.StructAST[v.Name]; !ok {
 			content := " {\n"
+			members := memberNames{}
 			for _, member := range toSortedPairs(v.MemberTypes) {
 				memberName := member.key
 				memberType := member.value
@@ -150,7 +151,7 @@ func (gen *CodeGenerator) TypeScriptSimpleType(v *SimpleType) {
 					memberType = memberName
 				}
 				memberType = getBasefromSimpleType(memberType, gen.ProtoTree)
-				content += fmt.Sprintf("\t%s: %s;\n", genTypeScriptFieldName(memberName, false), genTypeScriptFieldType(memberType, false))
+				content += fmt.Sprintf("\t%s: %s;\n", members.unique(genTypeScriptFieldName(memberName, false)), genTypeScriptFieldType(memberType, false))
 			}
 			content += "}\n"
 			gen.StructAST[v.Name] = content
@@ -193,9 +194,10 @@ func (gen *CodeGenerator) TypeScriptSimpleType(v *SimpleType) {
 func (gen *CodeGenerator) TypeScriptComplexType(v *ComplexType) {
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		content := " {\n"
+		members := memberNames{}
 		for _, attrGroup := range v.AttributeGroup {
 			fieldType := getBasefromSimpleType(trimNSPrefix(attrGroup.Ref), gen.ProtoTree)
-			content += fmt.Sprintf("\t%s: %s;\n", genTypeScriptFieldName(attrGroup.Name, false), genTypeScriptFieldType(fieldType, false))
+			content += fmt.Sprintf("\t%s: %s;\n", members.unique(genTypeScriptFieldName(attrGroup.Name, false)), genTypeScriptFieldType(fieldType, false))
 		}
 
 		for _, attribute := range v.Attributes {
@@ -204,21 +206,21 @@ func (gen *CodeGenerator) TypeScriptComplexType(v *ComplexType) {
 				optional = ` | null`
 			}
 			fieldType := genTypeScriptFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree), attribute.Plural)
-			content += fmt.Sprintf("\t%sAttr: %s%s;\n", genTypeScriptFieldName(attribute.Name, false), fieldType, optional)
+			content += fmt.Sprintf("\t%s: %s%s;\n", members.unique(genTypeScriptFieldName(attribute.Name, false)+"Attr"), fieldType, optional)
 		}
 		for _, group := range v.Groups {
-			content += fmt.Sprintf("\t%s: %s;\n", genTypeScriptFieldName(group.Name, false), genTypeScriptFieldType(getBasefromSimpleType(trimNSPrefix(group.Ref), gen.ProtoTree), group.Plural))
+			content += fmt.Sprintf("\t%s: %s;\n", members.unique(genTypeScriptFieldName(group.Name, false)), genTypeScriptFieldType(getBasefromSimpleType(trimNSPrefix(group.Ref), gen.ProtoTree), group.Plural))
 		}
 
 		for _, element := range v.Elements {
 			fieldType := genTypeScriptFieldType(getBasefromSimpleType(trimNSPrefix(element.Type), gen.ProtoTree), element.Plural)
-			content += fmt.Sprintf("\t%s: %s;\n", genTypeScriptFieldName(element.Name, false), fieldType)
+			content += fmt.Sprintf("\t%s: %s;\n", members.unique(genTypeScriptFieldName(element.Name, false)), fieldType)
 		}
 
 		base := getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree)
 		if len(v.Base) > 0 && isBuiltInTypeScriptType(base) {
 			fieldType := genTypeScriptFieldType(base, false)
-			content += fmt.Sprintf("\tValue: %s;\n", fieldType)
+			content += fmt.Sprintf("\t%s: %s;\n", members.unique("Value"), fieldType)
 		}
 		content += "}\n"
 		gen.StructAST[v.Name] = content
@@ -243,12 +245,13 @@ func isBuiltInTypeScriptType(typeName string) bool {
 func (gen *CodeGenerator) TypeScriptGroup(v *Group) {
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		content := " {\n"
+		members := memberNames{}
 		for _, element := range v.Elements {
-			content += fmt.Sprintf("\t%s: %s;\n", genTypeScriptFieldName(element.Name, false), genTypeScriptFieldType(getBasefromSimpleType(trimNSPrefix(element.Type), gen.ProtoTree), element.Plural))
+			content += fmt.Sprintf("\t%s: %s;\n", members.unique(genTypeScriptFieldName(element.Name, false)), genTypeScriptFieldType(getBasefromSimpleType(trimNSPrefix(element.Type), gen.ProtoTree), element.Plural))
 		}
 
 		for _, group := range v.Groups {
-			content += fmt.Sprintf("\t%s: %s;\n", genTypeScriptFieldName(group.Name, false), genTypeScriptFieldType(getBasefromSimpleType(trimNSPrefix(group.Ref), gen.ProtoTree), group.Plural))
+			content += fmt.Sprintf("\t%s: %s;\n", members.unique(genTypeScriptFieldName(group.Name, false)), genTypeScriptFieldType(getBasefromSimpleType(trimNSPrefix(group.Ref), gen.ProtoTree), group.Plural))
 		}
 
 		content += "}\n"
@@ -263,12 +266,13 @@ func (gen *CodeGenerator) TypeScriptGroup(v *Group) {
 func (gen *CodeGenerator) TypeScriptAttributeGroup(v *AttributeGroup) {
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		content := " {\n"
+		members := memberNames{}
 		for _, attribute := range v.Attributes {
 			var optional string
 			if attribute.Optional {
 				optional = ` | null`
 			}
-			content += fmt.Sprintf("\t%sAttr: %s%s;\n", genTypeScriptFieldName(attribute.Name, false), genTypeScriptFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree), attribute.Plural), optional)
+			content += fmt.Sprintf("\t%s: %s%s;\n", members.unique(genTypeScriptFieldName(attribute.Name, false)+"Attr"), genTypeScriptFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree), attribute.Plural), optional)
 		}
 		content += "}\n"
 		gen.StructAST[v.Name] = content
diff --git a/utils.go b/utils.go
index 1f58d74..21de60c 100644
--- a/utils.go
+++ b/utils.go
@@ -70,6 +70,20 @@ func uniqueFieldName(name, fieldName string) string {
 	return unique
 }
 
+// memberNames holds the identifiers of the members of one declaration.
+type memberNames map[string]bool
+
+// unique returns name, or if another member of the declaration has got that,
+// name with a number appended.
+func (members memberNames) unique(name string) string {
+	unique := name
+	for count := 2; members[unique]; count++ {
+		unique = fmt.Sprintf("%s%d", name, count)
+	}
+	members[unique] = true
+	return unique
+}
+
 // ToSnakeCase converts the provided string to snake_case.
 func ToSnakeCase(input string) string {
 	output := matchFirstCap.ReplaceAllString(input, "${1}_${2}")
-- 
2.43.0


From 5fd6508e5771503a5e837fb2f9c91c8dca489058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:41 +0000
Subject: [PATCH 41/45] fix: white space around attribute values has no meaning

---
 parser.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index 2136730..296cac2 100644
--- a/parser.go
+++ b/parser.go
@@ -15,6 +15,7 @@ import (
 	"os"
 	"path/filepath"
 	"reflect"
+	"strings"
 	"sort"
 
 	"golang.org/x/net/html/charset"
@@ -187,10 +188,18 @@ func (opt *Options) Parse() (err error) {
 }
 
 // schemaAttributes returns the attributes of a schema component without the
-// ones of other namespaces, which do not declare anything.
+// ones of other namespaces, which do not declare anything. White space around
+// their values has no meaning, except in those that hold data.
 func schemaAttributes(attrs []xml.Attr) (own []xml.Attr) {
 	for _, attr := range attrs {
-		if attr.Name.Space == "" || attr.Name.Space == "xmlns" {
+		if attr.Name.Space == "" {
+			switch attr.Name.Local {
+			case "value", "default", "fixed":
+			default:
+				attr.Value = strings.TrimSpace(attr.Value)
+			}
+			own = append(own, attr)
+		} else if attr.Name.Space == "xmlns" {
 			own = append(own, attr)
 		}
 	}
-- 
2.43.0


From 2154c1bbd2eda428bf47f1e3e32ba80f92d85b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:54 +0000
Subject: [PATCH 42/45] fix: identifiers of names with other characters than
 ASCII's

---
 genC.go          |  4 ++--
 genGo.go         | 19 +++++++++++++++----
 genJava.go       |  4 ++--
 genRust.go       |  4 ++--
 genTypeScript.go |  4 ++--
 utils.go         | 11 +++++++++++
 6 files changed, 34 insertions(+), 12 deletions(-)

diff --git a/genC.go b/genC.go
index 53f0b6b..f3e4c90 100644
--- a/genC.go
+++ b/genC.go
@@ -65,7 +65,7 @@ func innerArray(dataType string) (string, bool) {
 }
 
 func genCFieldName(name string, unique bool) (fieldName string) {
-	for _, str := range strings.Split(name, ":") {
+	for _, str := range strings.Split(legalName(name), ":") {
 		fieldName += MakeFirstUpperCase(str)
 	}
 	var tmp string
@@ -88,7 +88,7 @@ func genCFieldType(name string) string {
 		return fieldType
 	}
 	var fieldType string
-	for _, str := range strings.Split(name, ".") {
+	for _, str := range strings.Split(legalName(name), ".") {
 		fieldType += MakeFirstUpperCase(str)
 	}
 	fieldType = MakeFirstUpperCase(strings.Replace(fieldType, "-", "", -1))
diff --git a/genGo.go b/genGo.go
index 2b6b4ab..2f6d5f4 100644
--- a/genGo.go
+++ b/genGo.go
@@ -14,6 +14,8 @@ import (
 	"os"
 	"reflect"
 	"strings"
+	"unicode"
+	"unicode/utf8"
 )
 
 // CodeGenerator holds code generator overrides and runtime data that are used
@@ -95,7 +97,7 @@ func (gen *CodeGenerator) GenGo() error {
 }
 
 func genGoFieldName(name string, unique bool) (fieldName string) {
-	for _, str := range strings.Split(name, ":") {
+	for _, str := range strings.Split(legalName(name), ":") {
 		fieldName += MakeFirstUpperCase(str)
 	}
 	var tmp string
@@ -103,13 +105,22 @@ func genGoFieldName(name string, unique bool) (fieldName string) {
 		tmp += MakeFirstUpperCase(str)
 	}
 	fieldName = tmp
-	fieldName = strings.Replace(strings.Replace(fieldName, "-", "", -1), "_", "", -1)
+	fieldName = goExportedName(strings.Replace(strings.Replace(fieldName, "-", "", -1), "_", "", -1))
 	if unique {
 		fieldName = uniqueFieldName(name, fieldName)
 	}
 	return
 }
 
+// goExportedName returns name as an exported identifier, which needs an upper
+// case letter at its start: not every letter has got one.
+func goExportedName(name string) string {
+	if r, _ := utf8.DecodeRuneInString(name); name != "" && !unicode.IsUpper(r) {
+		return "X" + name
+	}
+	return name
+}
+
 func genGoFieldType(name string) string {
 	if _, ok := goBuildinType[name]; ok {
 		return name
@@ -118,10 +129,10 @@ func genGoFieldType(name string) string {
 		return "*" + fieldType
 	}
 	var fieldType string
-	for _, str := range strings.Split(name, ".") {
+	for _, str := range strings.Split(legalName(name), ".") {
 		fieldType += MakeFirstUpperCase(str)
 	}
-	fieldType = strings.Replace(MakeFirstUpperCase(strings.Replace(fieldType, "-", "", -1)), "_", "", -1)
+	fieldType = goExportedName(strings.Replace(MakeFirstUpperCase(strings.Replace(fieldType, "-", "", -1)), "_", "", -1))
 	if fieldType != "" {
 		return "*" + fieldType
 	}
diff --git a/genJava.go b/genJava.go
index 9946991..74287fa 100644
--- a/genJava.go
+++ b/genJava.go
@@ -65,7 +65,7 @@ import javax.xml.bind.annotation.XmlValue;`
 }
 
 func genJavaFieldName(name string, unique bool) (fieldName string) {
-	for _, str := range strings.Split(name, ":") {
+	for _, str := range strings.Split(legalName(name), ":") {
 		fieldName += MakeFirstUpperCase(str)
 	}
 	var tmp string
@@ -88,7 +88,7 @@ func genJavaFieldType(name string) string {
 		return fieldType
 	}
 	var fieldType string
-	for _, str := range strings.Split(name, ".") {
+	for _, str := range strings.Split(legalName(name), ".") {
 		fieldType += MakeFirstUpperCase(str)
 	}
 	fieldType = MakeFirstUpperCase(strings.Replace(fieldType, "-", "", -1))
diff --git a/genRust.go b/genRust.go
index 0b336c8..9b5c244 100644
--- a/genRust.go
+++ b/genRust.go
@@ -122,7 +122,7 @@ use serde_xml_rs::from_reader;`
 
 // genRustFieldName generate struct field name for Rust code.
 func genRustFieldName(name string) (fieldName string) {
-	for _, str := range strings.Split(name, ":") {
+	for _, str := range strings.Split(legalName(name), ":") {
 		fieldName += MakeFirstUpperCase(str)
 	}
 	var tmp string
@@ -139,7 +139,7 @@ func genRustFieldName(name string) (fieldName string) {
 
 // genRustStructName generate struct name for Rust code.
 func genRustStructName(name string, unique bool) (structName string) {
-	for _, str := range strings.Split(name, ":") {
+	for _, str := range strings.Split(legalName(name), ":") {
 		structName += MakeFirstUpperCase(str)
 	}
 	var tmp string
diff --git a/genTypeScript.go b/genTypeScript.go
index eed5735..73c87c4 100644
--- a/genTypeScript.go
+++ b/genTypeScript.go
@@ -50,7 +50,7 @@ func (gen *CodeGenerator) GenTypeScript() error {
 }
 
 func genTypeScriptFieldName(name string, unique bool) (fieldName string) {
-	for _, str := range strings.Split(name, ":") {
+	for _, str := range strings.Split(legalName(name), ":") {
 		fieldName += MakeFirstUpperCase(str)
 	}
 	var tmp string
@@ -76,7 +76,7 @@ func genTypeScriptFieldType(name string, plural bool) (fieldType string) {
 	if declared, ok := fieldNames[name]; ok && declared != "" {
 		fieldType = declared
 	} else {
-		for _, str := range strings.Split(name, ".") {
+		for _, str := range strings.Split(legalName(name), ".") {
 			fieldType += MakeFirstUpperCase(str)
 		}
 		fieldType = MakeFirstUpperCase(strings.Replace(fieldType, "-", "", -1))
diff --git a/utils.go b/utils.go
index 21de60c..3134582 100644
--- a/utils.go
+++ b/utils.go
@@ -70,6 +70,17 @@ func uniqueFieldName(name, fieldName string) string {
 	return unique
 }
 
+// legalName drops the characters of an XML name, like combining characters and
+// extenders, that not every target language takes in an identifier.
+func legalName(name string) string {
+	return strings.Map(func(r rune) rune {
+		if r >= utf8.RuneSelf && !unicode.IsLetter(r) && !unicode.IsDigit(r) {
+			return -1
+		}
+		return r
+	}, name)
+}
+
 // memberNames holds the identifiers of the members of one declaration.
 type memberNames map[string]bool
 
-- 
2.43.0


From 8924ebe08bf469a47abfe38e0ee99990d67ba03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:56 +0000
Subject: [PATCH 43/45] fix: namespace prefixes bound by elements within the
 schema

---
 parser.go |  8 ++++++++
 schema.go | 16 ++++++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/parser.go b/parser.go
index 296cac2..9bf2270 100644
--- a/parser.go
+++ b/parser.go
@@ -110,6 +110,8 @@ func (opt *Options) Parse() (err error) {
 	// notes counts the open elements from an appinfo or documentation inwards,
 	// none of which are declarations, and doc is the text of a documentation.
 	notes, doc := 0, ""
+	// scopes are the namespace bindings outside of the open elements.
+	var scopes []map[string]string
 	for {
 		var token xml.Token
 		token, err = decoder.Token()
@@ -134,6 +136,11 @@ func (opt *Options) Parse() (err error) {
 			opt.InElement = element.Name.Local
 			if opt.InElement == "appinfo" || opt.InElement == "documentation" {
 				notes, doc = 1, ""
+			} else {
+				scopes = append(scopes, opt.LocalNameNSMap)
+				if opt.InElement != "schema" {
+					opt.LocalNameNSMap = opt.innerLocalNameNSMap(element)
+				}
 			}
 			funcName := fmt.Sprintf("On%s", MakeFirstUpperCase(opt.InElement))
 			if err = callFuncByName(opt, funcName, []reflect.Value{reflect.ValueOf(element), reflect.ValueOf(opt.ProtoTree)}); err != nil {
@@ -156,6 +163,7 @@ func (opt *Options) Parse() (err error) {
 			if err = callFuncByName(opt, funcName, []reflect.Value{reflect.ValueOf(element), reflect.ValueOf(opt.ProtoTree)}); err != nil {
 				return
 			}
+			scopes, opt.LocalNameNSMap = scopes[:len(scopes)-1], scopes[len(scopes)-1]
 		case xml.CharData:
 			if notes > 0 {
 				doc += string(element)
diff --git a/schema.go b/schema.go
index 641f95e..5a17c91 100644
--- a/schema.go
+++ b/schema.go
@@ -21,6 +21,22 @@ func (opt *Options) prepareLocalNameNSMap(element xml.StartElement) {
 	}
 }
 
+// innerLocalNameNSMap returns the namespace bindings within an element, which
+// can add to the ones around it.
+func (opt *Options) innerLocalNameNSMap(element xml.StartElement) map[string]string {
+	inner := &Options{LocalNameNSMap: make(map[string]string)}
+	inner.prepareLocalNameNSMap(element)
+	if len(inner.LocalNameNSMap) == 0 {
+		return opt.LocalNameNSMap
+	}
+	for prefix, ns := range opt.LocalNameNSMap {
+		if _, ok := inner.LocalNameNSMap[prefix]; !ok {
+			inner.LocalNameNSMap[prefix] = ns
+		}
+	}
+	return inner.LocalNameNSMap
+}
+
 func (opt *Options) prepareNSSchemaLocationMap(element xml.StartElement) {
 	var currentNS string
 	for _, ele := range element.Attr {
-- 
2.43.0


From 4f9d5ae82d254d5131080c5eea18210144e84634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:05 +0000
Subject: [PATCH 44/45] fix: names that start with an underscore

---
 utils.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/utils.go b/utils.go
index 3134582..7a1c59c 100644
--- a/utils.go
+++ b/utils.go
@@ -71,14 +71,20 @@ func uniqueFieldName(name, fieldName string) string {
 }
 
 // legalName drops the characters of an XML name, like combining characters and
-// extenders, that not every target language takes in an identifier.
+// extenders, that not every target language takes in an identifier. A name that
+// does not start with a letter then gets one in front, since underscores are
+// dropped or reserved in some target languages.
 func legalName(name string) string {
-	return strings.Map(func(r rune) rune {
+	legal := strings.Map(func(r rune) rune {
 		if r >= utf8.RuneSelf && !unicode.IsLetter(r) && !unicode.IsDigit(r) {
 			return -1
 		}
 		return r
 	}, name)
+	if r, _ := utf8.DecodeRuneInString(legal); name != "" && !unicode.IsLetter(r) {
+		legal = "X" + legal
+	}
+	return legal
 }
 
 // memberNames holds the identifiers of the members of one declaration.
-- 
2.43.0


From 38f5b5d74d61d6d6b006e626f6b993de780fafc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:03 +0000
Subject: [PATCH 45/45] fix: an input directory that is a symbolic link is
 walked

---
 utils.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils.go b/utils.go
index 7a1c59c..bfac08a 100644
--- a/utils.go
+++ b/utils.go
@@ -117,7 +117,8 @@ func GetFileList(path string) (files []string, err error) {
 		return
 	}
 	if fi.IsDir() {
-		err = filepath.Walk(path, func(fp string, info os.FileInfo, err error) error {
+		// a separator at the end leads to the directory behind a symbolic link
+		err = filepath.Walk(path+string(filepath.Separator), func(fp string, info os.FileInfo, err error) error {
 			files = append(files, fp)
 			return err
 		})
-- 
2.43.0

