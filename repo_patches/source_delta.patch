From 2c52d581311c302d1b8e2ea15735202eafcfee41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:19 +0000
Subject: [PATCH 01/86] fix: rbac: do not confuse the core API group with no
 API group when merging rules

---
 pkg/rbac/parser.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/pkg/rbac/parser.go b/pkg/rbac/parser.go
index 6521d26..8bd3500 100644
--- a/pkg/rbac/parser.go
+++ b/pkg/rbac/parser.go
@@ -85,13 +85,23 @@ func (keys ruleKeys) Less(i, j int) bool { return keys[i].String() < keys[j].Str
 func (r *Rule) key() ruleKey {
 	r.normalize()
 	return ruleKey{
-		Groups:        strings.Join(r.Groups, "&"),
-		Resources:     strings.Join(r.Resources, "&"),
-		ResourceNames: strings.Join(r.ResourceNames, "&"),
-		URLs:          strings.Join(r.URLs, "&"),
+		Groups:        joinQuoted(r.Groups),
+		Resources:     joinQuoted(r.Resources),
+		ResourceNames: joinQuoted(r.ResourceNames),
+		URLs:          joinQuoted(r.URLs),
 	}
 }
 
+// joinQuoted joins strs so that different lists never give the same result
+// (the core group [""] is not the same as no group at all).
+func joinQuoted(strs []string) string {
+	quoted := make([]string, 0, len(strs))
+	for _, str := range strs {
+		quoted = append(quoted, `"`+str+`"`)
+	}
+	return strings.Join(quoted, "&")
+}
+
 func (r *Rule) keyWithGroupResourceNamesURLsVerbs() string {
 	key := r.key()
 	verbs := strings.Join(r.Verbs, "&")
-- 
2.43.0


From 89b609716241755872e8502bffe1bdd159dded44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:19 +0000
Subject: [PATCH 02/86] fix: rbac: keep the verbs of all rules that merge into
 the same groups or URLs

---
 pkg/rbac/parser.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/rbac/parser.go b/pkg/rbac/parser.go
index 8bd3500..e88ae66 100644
--- a/pkg/rbac/parser.go
+++ b/pkg/rbac/parser.go
@@ -287,6 +287,11 @@ func GenerateRoles(ctx *genall.GenerationContext, roleName string) ([]interface{
 				rule.Groups = append(rule.Groups, mergeRule.Groups...)
 			}
 			key := rule.key()
+			if existing, ok := ruleMap[key]; ok {
+				// another set of rules was merged into the same key
+				existing.addVerbs(rule.Verbs)
+				continue
+			}
 			ruleMap[key] = rule
 		}
 
@@ -306,6 +311,11 @@ func GenerateRoles(ctx *genall.GenerationContext, roleName string) ([]interface{
 				rule.URLs = append(rule.URLs, mergeRule.URLs...)
 			}
 			key := rule.key()
+			if existing, ok := ruleMap[key]; ok {
+				// another set of rules was merged into the same key
+				existing.addVerbs(rule.Verbs)
+				continue
+			}
 			ruleMap[key] = rule
 		}
 
-- 
2.43.0


From e9bf9159bc75f8253249e27f8eb7db25f8597711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:26 +0000
Subject: [PATCH 03/86] fix: markers: keep the end of a bare string that is
 followed by whitespace

A bare string followed by whitespace and a separator lost its last token
({ a } was parsed as a list of one empty string).
---
 pkg/markers/parse.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/markers/parse.go b/pkg/markers/parse.go
index f42dec0..0fecdb1 100644
--- a/pkg/markers/parse.go
+++ b/pkg/markers/parse.go
@@ -402,11 +402,14 @@ func (a *Argument) parseString(scanner *sc.Scanner, raw string, out reflect.Valu
 	// separator), ';' (the slice separator), ':' (the map separator), or '}'
 	// (delimitted slice ender)
 	startPos := scanner.Position.Offset
+	// NB: the token text is only valid until the next whitespace is skipped,
+	// so remember where each token ended right after scanning it.
+	endPos := startPos + len(scanner.TokenText())
 	for hint := peekNoSpace(scanner); hint != ',' && hint != ';' && hint != ':' && hint != '}' && hint != sc.EOF; hint = peekNoSpace(scanner) {
 		// skip this token
 		scanner.Scan()
+		endPos = scanner.Position.Offset + len(scanner.TokenText())
 	}
-	endPos := scanner.Position.Offset + len(scanner.TokenText())
 	castAndSet(out, reflect.ValueOf(raw[startPos:endPos]))
 }
 
-- 
2.43.0


From 41b4f0a84964b1dee6b51750b1e81bc4c6b35816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:26 +0000
Subject: [PATCH 04/86] fix: markers: accept negative numbers after whitespace

{1, -2} and {a: -1} were rejected although {1,-2} was accepted.
---
 pkg/markers/parse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/markers/parse.go b/pkg/markers/parse.go
index 0fecdb1..d977862 100644
--- a/pkg/markers/parse.go
+++ b/pkg/markers/parse.go
@@ -519,7 +519,7 @@ func (a *Argument) parse(scanner *sc.Scanner, raw string, out reflect.Value, inS
 			}
 		}
 	case NumberType:
-		nextChar := scanner.Peek()
+		nextChar := peekNoSpace(scanner)
 		isNegative := false
 		if nextChar == '-' {
 			isNegative = true
@@ -545,7 +545,7 @@ func (a *Argument) parse(scanner *sc.Scanner, raw string, out reflect.Value, inS
 
 		castAndSet(out, reflect.ValueOf(val))
 	case IntType:
-		nextChar := scanner.Peek()
+		nextChar := peekNoSpace(scanner)
 		isNegative := false
 		if nextChar == '-' {
 			isNegative = true
-- 
2.43.0


From 776613941974395e9b12f55e8ff71d7d088cb6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:49 +0000
Subject: [PATCH 05/86] fix: markers: do not report errors from looking ahead
 when guessing types

Bare strings such as 'foo 08' were rejected for untyped arguments because
the lookahead scans the remaining text as numbers.
---
 pkg/markers/parse.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/markers/parse.go b/pkg/markers/parse.go
index d977862..cedcce2 100644
--- a/pkg/markers/parse.go
+++ b/pkg/markers/parse.go
@@ -261,11 +261,15 @@ func makeMapType(itemType Argument) (reflect.Type, error) {
 // Maps are *always* non-uniform (i.e. type the AnyType item type), since they're frequently
 // used to represent things like defaults for an object in JSON.
 func guessType(scanner *sc.Scanner, raw string, allowSlice bool) *Argument {
+	// we're only looking ahead, so the text may not be made of well-formed tokens
+	// (e.g. the remainder of a bare string) -- actually parsing it reports errors.
+	ignoreErrors := func(*sc.Scanner, string) {}
+
 	if allowSlice {
 		maybeItem := guessType(scanner, raw, false)
 
 		subRaw := raw[scanner.Pos().Offset:]
-		subScanner := parserScanner(subRaw, scanner.Error)
+		subScanner := parserScanner(subRaw, ignoreErrors)
 
 		var tok rune
 		for {
@@ -291,7 +295,7 @@ func guessType(scanner *sc.Scanner, raw string, allowSlice bool) *Argument {
 	// (so we don't consume our scanner tokens until we actually
 	// go to use this -- Go doesn't like scanners that can be rewound).
 	subRaw := raw[scanner.Pos().Offset:]
-	subScanner := parserScanner(subRaw, scanner.Error)
+	subScanner := parserScanner(subRaw, ignoreErrors)
 
 	// skip whitespace
 	hint := peekNoSpace(subScanner)
-- 
2.43.0


From fa3b1ac03b73fc750fe0c5c9edfd206df81ab2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:46 +0000
Subject: [PATCH 06/86] fix: markers: do not take a semicolon inside a map for
 a legacy list of maps

{a: 1;2} was rejected for untyped arguments.
---
 pkg/markers/parse.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pkg/markers/parse.go b/pkg/markers/parse.go
index cedcce2..929ca31 100644
--- a/pkg/markers/parse.go
+++ b/pkg/markers/parse.go
@@ -254,6 +254,14 @@ func makeMapType(itemType Argument) (reflect.Type, error) {
 	return reflect.MapOf(reflect.TypeOf(""), itemReflectedType), nil
 }
 
+// containsMap checks if the given argument is a map, or a (nested) slice of maps.
+func containsMap(arg *Argument) bool {
+	for arg.Type == SliceType {
+		arg = arg.ItemType
+	}
+	return arg.Type == MapType
+}
+
 // guessType takes an educated guess about the type of the next field.  If allowSlice
 // is false, it will not guess slices.  It's less efficient than parsing with actual
 // type information, since we need to allocate to peek ahead full tokens, and the scanner
@@ -280,8 +288,9 @@ func guessType(scanner *sc.Scanner, raw string, allowSlice bool) *Argument {
 			// wait till we get something interesting
 		}
 
-		// semicolon means it's a legacy slice
-		if tok == ';' {
+		// semicolon means it's a legacy slice, except after a map, which can't be
+		// in a legacy slice: then the semicolon belongs to one of its values
+		if tok == ';' && !containsMap(maybeItem) {
 			return &Argument{
 				Type:     SliceType,
 				ItemType: maybeItem,
-- 
2.43.0


From 5f88bed15a8bf1c603fe39cbfaeda8de88ddf10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:00 +0000
Subject: [PATCH 07/86] fix: markers: reject integers that do not fit the
 argument's type

Out-of-range values silently wrapped around for int32 arguments.
---
 pkg/markers/parse.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/markers/parse.go b/pkg/markers/parse.go
index 929ca31..6ed29ee 100644
--- a/pkg/markers/parse.go
+++ b/pkg/markers/parse.go
@@ -567,7 +567,6 @@ func (a *Argument) parse(scanner *sc.Scanner, raw string, out reflect.Value, inS
 		if !expect(scanner, sc.Int, "integer") {
 			return
 		}
-		// TODO(directxman12): respect the size when parsing
 		text := scanner.TokenText()
 		if isNegative {
 			text = "-" + text
@@ -577,6 +576,12 @@ func (a *Argument) parse(scanner *sc.Scanner, raw string, out reflect.Value, inS
 			scanner.Error(scanner, fmt.Sprintf("unable to parse integer: %v", err))
 			return
 		}
+		// the output may be smaller than an int (but isn't necessarily an integer:
+		// it may also be the empty interface)
+		if out.CanInt() && out.OverflowInt(int64(val)) {
+			scanner.Error(scanner, fmt.Sprintf("unable to parse integer: %s is out of range for %s", text, out.Type().Kind()))
+			return
+		}
 		castAndSet(out, reflect.ValueOf(val))
 	case StringType:
 		// strings are a bit weird -- the "easy" case is quoted strings (tokenized as strings),
-- 
2.43.0


From 176e0d8226590cb79789fc86a1d048c494248fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:08 +0000
Subject: [PATCH 08/86] fix: markers: do not swallow the separator after an
 empty bare string

str=,int=4 was parsed as the string ",int=4", and the list a;;b as a and ";b".
---
 pkg/markers/parse.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/markers/parse.go b/pkg/markers/parse.go
index 6ed29ee..4bb048e 100644
--- a/pkg/markers/parse.go
+++ b/pkg/markers/parse.go
@@ -396,6 +396,13 @@ func (a *Argument) parseString(scanner *sc.Scanner, raw string, out reflect.Valu
 		scanner.Mode = oldMode
 	}()
 
+	// a separator right away means an empty bare string (which mustn't swallow
+	// the separator, and whatever comes after it)
+	if hint := peekNoSpace(scanner); hint == ',' || hint == ';' || hint == '}' {
+		castAndSet(out, reflect.ValueOf(""))
+		return
+	}
+
 	// strings are a bit weird -- the "easy" case is quoted strings (tokenized as strings),
 	// the "hard" case (present for backwards compat) is a bare sequence of tokens that aren't
 	// a comma.
-- 
2.43.0


From ba19dc6d53c8885b019a8f66b7a3491b7a4f8b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:09 +0000
Subject: [PATCH 09/86] fix: crd: do not cut descriptions in the middle of a
 character

---
 pkg/crd/desc_visitor.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/crd/desc_visitor.go b/pkg/crd/desc_visitor.go
index 1a5698b..9deb163 100644
--- a/pkg/crd/desc_visitor.go
+++ b/pkg/crd/desc_visitor.go
@@ -19,6 +19,7 @@ package crd
 import (
 	"strings"
 	"unicode"
+	"unicode/utf8"
 
 	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
 )
@@ -64,11 +65,16 @@ func truncateString(desc string, maxLen int) string {
 		return desc
 	}
 
+	// Never chop off in the middle of a (multi-byte) character.
+	for maxLen > 0 && !utf8.RuneStart(desc[maxLen]) {
+		maxLen--
+	}
 	desc = desc[0:maxLen]
 
 	// Trying to chop off at closest sentence boundary.
 	if n := strings.LastIndexFunc(desc, isSentenceTerminal); n > 0 {
-		return desc[0 : n+1]
+		_, size := utf8.DecodeRuneInString(desc[n:])
+		return desc[0 : n+size]
 	}
 
 	// Trying to chop off at closest word boundary (i.e. whitespace).
-- 
2.43.0


From 7039bc61eb4b84303dba3e6a2ba5aa590298ff03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:24 +0000
Subject: [PATCH 10/86] fix: markers: keep package-level markers in source
 order

---
 pkg/markers/collect.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/markers/collect.go b/pkg/markers/collect.go
index 23f52e3..ac09669 100644
--- a/pkg/markers/collect.go
+++ b/pkg/markers/collect.go
@@ -19,6 +19,7 @@ package markers
 import (
 	"go/ast"
 	"go/token"
+	"sort"
 	"strings"
 	"sync"
 
@@ -192,6 +193,11 @@ func (c *Collector) associateFileMarkers(file *ast.File) map[ast.Node][]markerCo
 		}
 		visitor.nodeMarkers[node] = markers[:endOfMarkers] // re-set after trimming the package markers
 	}
+	// the re-associated markers were found last (and in no particular order),
+	// so put everything back into source order
+	sort.SliceStable(visitor.pkgMarkers, func(i, j int) bool {
+		return visitor.pkgMarkers[i].Pos() < visitor.pkgMarkers[j].Pos()
+	})
 	visitor.nodeMarkers[file] = visitor.pkgMarkers
 
 	return visitor.nodeMarkers
-- 
2.43.0


From 314bc9623710f908fbbe428c04ed8372fca46c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:15 +0000
Subject: [PATCH 11/86] fix: crd: do not crash on aliases of unnamed types, any
 and error

---
 pkg/crd/schema.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pkg/crd/schema.go b/pkg/crd/schema.go
index 616141c..19e4ba7 100644
--- a/pkg/crd/schema.go
+++ b/pkg/crd/schema.go
@@ -295,8 +295,19 @@ func localNamedToSchema(ctx *schemaContext, ident *ast.Ident) *apiext.JSONSchema
 	}
 	// NB(directxman12): if there are dot imports, this might be an external reference,
 	// so use typechecking info to get the actual object
-	typeNameInfo := typeInfo.(interface{ Obj() *types.TypeName }).Obj()
+	var typeNameInfo types.Object
+	if namedInfo, isNamed := typeInfo.(interface{ Obj() *types.TypeName }); isNamed {
+		typeNameInfo = namedInfo.Obj()
+	} else {
+		// an alias of an unnamed type (e.g. `type Foo = []string`): refer to the alias itself
+		typeNameInfo = ctx.pkg.TypesInfo.ObjectOf(ident)
+	}
 	pkg := typeNameInfo.Pkg()
+	if pkg == nil {
+		// predeclared types other than the basic ones, i.e. any and error
+		ctx.pkg.AddError(loader.ErrFromNode(fmt.Errorf("unsupported type %s", ident.Name), ident))
+		return &apiext.JSONSchemaProps{}
+	}
 	pkgPath := loader.NonVendorPath(pkg.Path())
 	if pkg == ctx.pkg.Types {
 		pkgPath = ""
-- 
2.43.0


From e6e3675a79d60132fde09f7b49d6e0423604f4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:31 +0000
Subject: [PATCH 12/86] fix: crd: slices of uint8 and of named bytes are base64
 text like []byte

---
 pkg/crd/schema.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pkg/crd/schema.go b/pkg/crd/schema.go
index 19e4ba7..62ad01c 100644
--- a/pkg/crd/schema.go
+++ b/pkg/crd/schema.go
@@ -39,11 +39,6 @@ const (
 	defPrefix = "#/definitions/"
 )
 
-// byteType is the types.Type for byte (see the types documention
-// for why we need to look this up in the Universe), saved
-// for quick comparison.
-var byteType = types.Universe.Lookup("byte").Type()
-
 // SchemaMarker is any marker that needs to modify the schema of the underlying type or field.
 type SchemaMarker interface {
 	// ApplyToSchema is called after the rest of the schema for a given type
@@ -341,7 +336,7 @@ func namedToSchema(ctx *schemaContext, named *ast.SelectorExpr) *apiext.JSONSche
 // with the special `[]byte` type (according to OpenAPI standards).
 func arrayToSchema(ctx *schemaContext, array *ast.ArrayType) *apiext.JSONSchemaProps {
 	eltType := ctx.pkg.TypesInfo.TypeOf(array.Elt)
-	if eltType == byteType && array.Len == nil {
+	if array.Len == nil && isByte(eltType) {
 		// byte slices are represented as base64-encoded strings
 		// (the format is defined in OpenAPI v3, but not JSON Schema)
 		return &apiext.JSONSchemaProps{
@@ -358,6 +353,17 @@ func arrayToSchema(ctx *schemaContext, array *ast.ArrayType) *apiext.JSONSchemaP
 	}
 }
 
+// isByte checks if slices of the given type are encoded the way []byte is
+// (see encoding/json), which includes uint8 and types declared as byte, unless
+// they have their own encoding.
+func isByte(typ types.Type) bool {
+	if typ == nil {
+		return false
+	}
+	basic, isBasic := typ.Underlying().(*types.Basic)
+	return isBasic && basic.Kind() == types.Byte && !implements(typ, jsonMarshaler) && !implements(typ, textMarshaler)
+}
+
 // mapToSchema creates a schema for items of the given map.  Key types must eventually resolve
 // to string (other types aren't allowed by JSON, and thus the kubernetes API standards).
 func mapToSchema(ctx *schemaContext, mapType *ast.MapType) *apiext.JSONSchemaProps {
-- 
2.43.0


From c152a6bb035b5331301fbedb213b17ef850077e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:34 +0000
Subject: [PATCH 13/86] fix: crd: accept aliases of string types as map keys

---
 pkg/crd/schema.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/crd/schema.go b/pkg/crd/schema.go
index 62ad01c..015db4a 100644
--- a/pkg/crd/schema.go
+++ b/pkg/crd/schema.go
@@ -377,6 +377,8 @@ func mapToSchema(ctx *schemaContext, mapType *ast.MapType) *apiext.JSONSchemaPro
 				return &apiext.JSONSchemaProps{}
 			}
 			keyInfo = nil // stop iterating
+		case *types.Alias:
+			keyInfo = types.Unalias(typedKey)
 		case *types.Named:
 			keyInfo = typedKey.Underlying()
 		default:
-- 
2.43.0


From ab1c142ce92fdb32de0305eddaaa74815bc070f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:41 +0000
Subject: [PATCH 14/86] fix: crd: fields without a JSON name keep their Go name

---
 pkg/crd/schema.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/crd/schema.go b/pkg/crd/schema.go
index 015db4a..05b5057 100644
--- a/pkg/crd/schema.go
+++ b/pkg/crd/schema.go
@@ -456,7 +456,13 @@ func structToSchema(ctx *schemaContext, structType *ast.StructType) *apiext.JSON
 			}
 		}
 		fieldName := jsonOpts[0]
-		inline = inline || fieldName == "" // anonymous fields are inline fields in YAML/JSON
+		if fieldName == "" && !inline {
+			if field.Name == "" {
+				inline = true // anonymous fields are inline fields in YAML/JSON
+			} else {
+				fieldName = field.Name // other fields keep their Go name
+			}
+		}
 
 		// if no default required mode is set, default to required
 		defaultMode := "required"
-- 
2.43.0


From 6e70c2ca66c0ec23d52bce8ffce5d07293923b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:41 +0000
Subject: [PATCH 15/86] fix: crd: omitzero makes a field optional like
 omitempty

---
 pkg/crd/schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/crd/schema.go b/pkg/crd/schema.go
index 05b5057..5df7019 100644
--- a/pkg/crd/schema.go
+++ b/pkg/crd/schema.go
@@ -451,7 +451,7 @@ func structToSchema(ctx *schemaContext, structType *ast.StructType) *apiext.JSON
 			switch opt {
 			case "inline":
 				inline = true
-			case "omitempty":
+			case "omitempty", "omitzero":
 				omitEmpty = true
 			}
 		}
-- 
2.43.0


From 96d964932ee7abf45fb804673899e199a40ecfb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:41 +0000
Subject: [PATCH 16/86] fix: crd: do not require an empty property for inline
 fields marked as required

---
 pkg/crd/schema.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/crd/schema.go b/pkg/crd/schema.go
index 5df7019..ad94c44 100644
--- a/pkg/crd/schema.go
+++ b/pkg/crd/schema.go
@@ -471,6 +471,8 @@ func structToSchema(ctx *schemaContext, structType *ast.StructType) *apiext.JSON
 		}
 
 		switch {
+		case inline && fieldName == "":
+			// not a property of its own
 		case field.Markers.Get("kubebuilder:validation:Optional") != nil:
 			// explicitly optional - kubebuilder
 		case field.Markers.Get("kubebuilder:validation:Required") != nil:
-- 
2.43.0


From fb9468e15df506936cb4176b8c8a40aea7490560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:12 +0000
Subject: [PATCH 17/86] fix: crd: report unnamed struct types instead of
 crashing

---
 pkg/crd/schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/crd/schema.go b/pkg/crd/schema.go
index ad94c44..53ddbd9 100644
--- a/pkg/crd/schema.go
+++ b/pkg/crd/schema.go
@@ -422,7 +422,7 @@ func structToSchema(ctx *schemaContext, structType *ast.StructType) *apiext.JSON
 		Properties: make(map[string]apiext.JSONSchemaProps),
 	}
 
-	if ctx.info.RawSpec.Type != structType {
+	if ctx.info.RawSpec == nil || ctx.info.RawSpec.Type != structType {
 		ctx.pkg.AddError(loader.ErrFromNode(fmt.Errorf("encountered non-top-level struct (possibly embedded), those aren't allowed"), structType))
 		return props
 	}
-- 
2.43.0


From 98307908e9628f01f55083c9784207c904e6c6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:04 +0000
Subject: [PATCH 18/86] fix: crd: fields with the JSON option string are
 strings

---
 pkg/crd/schema.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/pkg/crd/schema.go b/pkg/crd/schema.go
index 53ddbd9..8afb156 100644
--- a/pkg/crd/schema.go
+++ b/pkg/crd/schema.go
@@ -447,12 +447,15 @@ func structToSchema(ctx *schemaContext, structType *ast.StructType) *apiext.JSON
 
 		inline := false
 		omitEmpty := false
+		quoted := false
 		for _, opt := range jsonOpts[1:] {
 			switch opt {
 			case "inline":
 				inline = true
 			case "omitempty", "omitzero":
 				omitEmpty = true
+			case "string":
+				quoted = true
 			}
 		}
 		fieldName := jsonOpts[0]
@@ -499,6 +502,8 @@ func structToSchema(ctx *schemaContext, structType *ast.StructType) *apiext.JSON
 		var propSchema *apiext.JSONSchemaProps
 		if field.Markers.Get(crdmarkers.SchemalessName) != nil {
 			propSchema = &apiext.JSONSchemaProps{}
+		} else if quoted && isQuotable(ctx.pkg.TypesInfo.TypeOf(field.RawField.Type)) {
+			propSchema = &apiext.JSONSchemaProps{Type: "string"}
 		} else {
 			propSchema = typeToSchema(ctx.ForInfo(&markers.TypeInfo{}), field.RawField.Type)
 		}
@@ -517,6 +522,19 @@ func structToSchema(ctx *schemaContext, structType *ast.StructType) *apiext.JSON
 	return props
 }
 
+// isQuotable checks if the "string" option of JSON tags makes a string out of
+// values of the given type (see encoding/json).
+func isQuotable(typ types.Type) bool {
+	if typ == nil {
+		return false
+	}
+	if ptr, isPtr := types.Unalias(typ).(*types.Pointer); isPtr {
+		typ = ptr.Elem()
+	}
+	basic, isBasic := typ.Underlying().(*types.Basic)
+	return isBasic && basic.Info()&(types.IsBoolean|types.IsNumeric) != 0 && !implements(typ, jsonMarshaler) && !implements(typ, textMarshaler)
+}
+
 // builtinToType converts builtin basic types to their equivalent JSON schema form.
 // It *only* handles types allowed by the kubernetes API standards. Floats are not
 // allowed unless allowDangerousTypes is true
-- 
2.43.0


From 3b73a56719bac2c10169f3fa67c83ea46ec11eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:15 +0000
Subject: [PATCH 19/86] fix: crd: apply schema markers in a fixed order

---
 pkg/crd/schema.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pkg/crd/schema.go b/pkg/crd/schema.go
index 8afb156..3688716 100644
--- a/pkg/crd/schema.go
+++ b/pkg/crd/schema.go
@@ -143,8 +143,14 @@ func applyMarkers(ctx *schemaContext, markerSet markers.MarkerValues, props *api
 	markers := make([]schemaMarkerWithName, 0, len(markerSet))
 	itemsMarkers := make([]schemaMarkerWithName, 0, len(markerSet))
 
-	for markerName, markerValues := range markerSet {
-		for _, markerValue := range markerValues {
+	markerNames := make([]string, 0, len(markerSet))
+	for markerName := range markerSet {
+		markerNames = append(markerNames, markerName)
+	}
+	sort.Strings(markerNames)
+
+	for _, markerName := range markerNames {
+		for _, markerValue := range markerSet[markerName] {
 			if schemaMarker, isSchemaMarker := markerValue.(SchemaMarker); isSchemaMarker {
 				if strings.HasPrefix(markerName, crdmarkers.ValidationItemsPrefix) {
 					itemsMarkers = append(itemsMarkers, schemaMarkerWithName{
@@ -184,8 +190,8 @@ func applyMarkers(ctx *schemaContext, markerSet markers.MarkerValues, props *api
 
 		return iPriority < jPriority
 	}
-	sort.Slice(markers, func(i, j int) bool { return cmpPriority(markers, i, j) })
-	sort.Slice(itemsMarkers, func(i, j int) bool { return cmpPriority(itemsMarkers, i, j) })
+	sort.SliceStable(markers, func(i, j int) bool { return cmpPriority(markers, i, j) })
+	sort.SliceStable(itemsMarkers, func(i, j int) bool { return cmpPriority(itemsMarkers, i, j) })
 
 	for _, schemaMarker := range markers {
 		if err := schemaMarker.SchemaMarker.ApplyToSchema(props); err != nil {
-- 
2.43.0


From b12d539bd2de90e2819922799623d972822ed17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:42 +0000
Subject: [PATCH 20/86] fix: crd: do not take equal values in allOf branches
 for conflicts

---
 pkg/crd/flatten.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/crd/flatten.go b/pkg/crd/flatten.go
index cf02c9b..149d592 100644
--- a/pkg/crd/flatten.go
+++ b/pkg/crd/flatten.go
@@ -95,7 +95,7 @@ func flattenAllOfInto(dst *apiext.JSONSchemaProps, src apiext.JSONSchemaProps, e
 			continue
 		}
 
-		if fldTyp.Comparable() && srcInt == dstInt {
+		if reflect.DeepEqual(srcInt, dstInt) {
 			// same value, continue
 			continue
 		}
-- 
2.43.0


From a9f94e1f15ad8a9cdd95b82636cdc90a6d0ffdb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:42 +0000
Subject: [PATCH 21/86] fix: crd: keep bounds and their exclusivity together
 when merging allOf

---
 pkg/crd/flatten.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pkg/crd/flatten.go b/pkg/crd/flatten.go
index 149d592..2e60a1f 100644
--- a/pkg/crd/flatten.go
+++ b/pkg/crd/flatten.go
@@ -65,6 +65,7 @@ func flattenAllOfInto(dst *apiext.JSONSchemaProps, src apiext.JSONSchemaProps, e
 	dstRemainder := apiext.JSONSchemaProps{}
 	dstRemVal := reflect.Indirect(reflect.ValueOf(&dstRemainder))
 	hoisted := false
+	dstExclusiveMaximum, dstExclusiveMinimum := dst.ExclusiveMaximum, dst.ExclusiveMinimum
 
 	for i := 0; i < srcVal.NumField(); i++ {
 		fieldName := typ.Field(i).Name
@@ -161,6 +162,16 @@ func flattenAllOfInto(dst *apiext.JSONSchemaProps, src apiext.JSONSchemaProps, e
 		}
 	}
 
+	// bounds only mean something together with their exclusivity
+	if srcRemainder.Maximum != nil {
+		srcRemainder.ExclusiveMaximum, dstRemainder.ExclusiveMaximum = src.ExclusiveMaximum, dstExclusiveMaximum
+		dst.ExclusiveMaximum = false
+	}
+	if srcRemainder.Minimum != nil {
+		srcRemainder.ExclusiveMinimum, dstRemainder.ExclusiveMinimum = src.ExclusiveMinimum, dstExclusiveMinimum
+		dst.ExclusiveMinimum = false
+	}
+
 	if hoisted {
 		dst.AllOf = append(dst.AllOf, dstRemainder, srcRemainder)
 	}
-- 
2.43.0


From 3f460e1721b09265b57a470bc575cc373a0ffa42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:42 +0000
Subject: [PATCH 22/86] fix: crd: merge the items of allOf branches

---
 pkg/crd/flatten.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pkg/crd/flatten.go b/pkg/crd/flatten.go
index 2e60a1f..0d233c7 100644
--- a/pkg/crd/flatten.go
+++ b/pkg/crd/flatten.go
@@ -143,6 +143,17 @@ func flattenAllOfInto(dst *apiext.JSONSchemaProps, src apiext.JSONSchemaProps, e
 				dstProps.Schema = &apiext.JSONSchemaProps{}
 			}
 			flattenAllOfInto(dstProps.Schema, *srcProps.Schema, errRec)
+		case "Items":
+			// lists of schemas are not allowed, so we don't have to handle them
+			srcItems := srcInt.(*apiext.JSONSchemaPropsOrArray)
+			dstItems := dstInt.(*apiext.JSONSchemaPropsOrArray)
+			if srcItems.Schema == nil || dstItems.Schema == nil {
+				if dstItems.Schema == nil {
+					dstItems.Schema = srcItems.Schema
+				}
+				continue
+			}
+			flattenAllOfInto(dstItems.Schema, *srcItems.Schema, errRec)
 		case "XPreserveUnknownFields":
 			dstField.Set(srcField)
 		case "XMapType":
-- 
2.43.0


From 96b0f0256a9298ab6c64115c51803cc40d458515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:42 +0000
Subject: [PATCH 23/86] fix: crd: report defaults and list types that conflict
 in allOf branches

---
 pkg/crd/flatten.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/crd/flatten.go b/pkg/crd/flatten.go
index 0d233c7..823db8c 100644
--- a/pkg/crd/flatten.go
+++ b/pkg/crd/flatten.go
@@ -126,7 +126,10 @@ func flattenAllOfInto(dst *apiext.JSONSchemaProps, src apiext.JSONSchemaProps, e
 				errRec.AddError(fmt.Errorf("conflicting types in allOf branches in schema: %s vs %s", dstInt, srcInt))
 			}
 			// keep the destination value, for now
-		// TODO(directxman12): Default -- use field?
+		case "Default", "XListType", "XListMapKeys":
+			// these are not allowed in allOf
+			errRec.AddError(fmt.Errorf("conflicting values for %s in allOf branches in schema", fieldName))
+			// keep the destination value, for now
 		// TODO(directxman12):
 		// - Dependencies: if field x is present, then either schema validates or all props are present
 		// - AdditionalItems: like AdditionalProperties
-- 
2.43.0


From 02d8ca3865c9dd267b42081596de693ebff5de8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:42 +0000
Subject: [PATCH 24/86] fix: crd: report properties next to
 additionalProperties in allOf branches

---
 pkg/crd/flatten.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pkg/crd/flatten.go b/pkg/crd/flatten.go
index 823db8c..fba92df 100644
--- a/pkg/crd/flatten.go
+++ b/pkg/crd/flatten.go
@@ -47,6 +47,11 @@ func isOrNil(val reflect.Value, valInt interface{}, zeroInt interface{}) bool {
 	}
 }
 
+// hasAdditionalSchema checks if the schema restricts additional properties.
+func hasAdditionalSchema(schema *apiext.JSONSchemaProps) bool {
+	return schema.AdditionalProperties != nil && schema.AdditionalProperties.Schema != nil
+}
+
 // flattenAllOfInto copies properties from src to dst, then copies the properties
 // of each item in src's allOf to dst's properties as well.
 func flattenAllOfInto(dst *apiext.JSONSchemaProps, src apiext.JSONSchemaProps, errRec ErrorRecorder) {
@@ -65,6 +70,7 @@ func flattenAllOfInto(dst *apiext.JSONSchemaProps, src apiext.JSONSchemaProps, e
 	dstRemainder := apiext.JSONSchemaProps{}
 	dstRemVal := reflect.Indirect(reflect.ValueOf(&dstRemainder))
 	hoisted := false
+	hadBoth := len(dst.Properties) > 0 && hasAdditionalSchema(dst) || len(src.Properties) > 0 && hasAdditionalSchema(&src)
 	dstExclusiveMaximum, dstExclusiveMinimum := dst.ExclusiveMaximum, dst.ExclusiveMinimum
 
 	for i := 0; i < srcVal.NumField(); i++ {
@@ -176,6 +182,11 @@ func flattenAllOfInto(dst *apiext.JSONSchemaProps, src apiext.JSONSchemaProps, e
 		}
 	}
 
+	if !hadBoth && len(dst.Properties) > 0 && hasAdditionalSchema(dst) {
+		// once merged, the properties would no longer be subject to additionalProperties
+		errRec.AddError(fmt.Errorf("cannot merge properties with additionalProperties from different allOf branches in schema"))
+	}
+
 	// bounds only mean something together with their exclusivity
 	if srcRemainder.Maximum != nil {
 		srcRemainder.ExclusiveMaximum, dstRemainder.ExclusiveMaximum = src.ExclusiveMaximum, dstExclusiveMaximum
-- 
2.43.0


From 169a05af82888173604eb2defa65c359725e5ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:58 +0000
Subject: [PATCH 25/86] fix: crd: accept package paths with a tilde in
 references

---
 pkg/crd/flatten.go | 9 +++++----
 pkg/crd/schema.go  | 6 +++---
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/pkg/crd/flatten.go b/pkg/crd/flatten.go
index fba92df..cace804 100644
--- a/pkg/crd/flatten.go
+++ b/pkg/crd/flatten.go
@@ -332,14 +332,15 @@ func RefParts(ref string) (typ string, pkgName string, err error) {
 	// decode the json pointer encodings
 	ref = strings.ReplaceAll(ref, "~1", "/")
 	ref = strings.ReplaceAll(ref, "~0", "~")
-	nameParts := strings.SplitN(ref, "~", 2)
+	// package paths may contain the separator, type names may not
+	sep := strings.LastIndex(ref, "~")
 
-	if len(nameParts) == 1 {
+	if sep < 0 {
 		// local reference
-		return nameParts[0], "", nil
+		return ref, "", nil
 	}
 	// cross-package reference
-	return nameParts[1], nameParts[0], nil
+	return ref[sep+1:], ref[:sep], nil
 }
 
 // identFromRef converts the given schema ref from the given package back
diff --git a/pkg/crd/schema.go b/pkg/crd/schema.go
index 3688716..b18b3de 100644
--- a/pkg/crd/schema.go
+++ b/pkg/crd/schema.go
@@ -243,11 +243,11 @@ func typeToSchema(ctx *schemaContext, rawType ast.Expr) *apiext.JSONSchemaProps
 
 // qualifiedName constructs a JSONSchema-safe qualified name for a type
 // (`<typeName>` or `<safePkgPath>~0<typeName>`, where `<safePkgPath>`
-// is the package path with `/` replaced by `~1`, according to JSONPointer
-// escapes).
+// is the package path with `~` replaced by `~0` and `/` replaced by `~1`,
+// according to JSONPointer escapes).
 func qualifiedName(pkgName, typeName string) string {
 	if pkgName != "" {
-		return strings.ReplaceAll(pkgName, "/", "~1") + "~0" + typeName
+		return strings.ReplaceAll(strings.ReplaceAll(pkgName, "~", "~0"), "/", "~1") + "~0" + typeName
 	}
 	return typeName
 }
-- 
2.43.0


From f272d62be79ba28c1157e1e7008a64d701c55a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:34 +0000
Subject: [PATCH 26/86] fix: crd: keep the markers and documentation of local
 aliases of named types

---
 pkg/crd/schema.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pkg/crd/schema.go b/pkg/crd/schema.go
index b18b3de..06aa524 100644
--- a/pkg/crd/schema.go
+++ b/pkg/crd/schema.go
@@ -265,9 +265,8 @@ func localNamedToSchema(ctx *schemaContext, ident *ast.Ident) *apiext.JSONSchema
 		ctx.pkg.AddError(loader.ErrFromNode(fmt.Errorf("unknown type %s", ident.Name), ident))
 		return &apiext.JSONSchemaProps{}
 	}
-	// This reproduces the behavior we had pre gotypesalias=1 (needed if this
-	// project is compiled with default settings and Go >= 1.23).
-	if aliasInfo, isAlias := typeInfo.(*types.Alias); isAlias {
+	aliasInfo, isAlias := typeInfo.(*types.Alias)
+	if isAlias {
 		typeInfo = aliasInfo.Rhs()
 	}
 	if basicInfo, isBasic := typeInfo.(*types.Basic); isBasic {
@@ -297,7 +296,10 @@ func localNamedToSchema(ctx *schemaContext, ident *ast.Ident) *apiext.JSONSchema
 	// NB(directxman12): if there are dot imports, this might be an external reference,
 	// so use typechecking info to get the actual object
 	var typeNameInfo types.Object
-	if namedInfo, isNamed := typeInfo.(interface{ Obj() *types.TypeName }); isNamed {
+	if isAlias {
+		// refer to the alias, which may have markers of its own
+		typeNameInfo = aliasInfo.Obj()
+	} else if namedInfo, isNamed := typeInfo.(interface{ Obj() *types.TypeName }); isNamed {
 		typeNameInfo = namedInfo.Obj()
 	} else {
 		// an alias of an unnamed type (e.g. `type Foo = []string`): refer to the alias itself
-- 
2.43.0


From f96dbc7e8e68e37f2d8cb35f25a58a4090ef264a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:20 +0000
Subject: [PATCH 27/86] fix: crd: apply version markers in a fixed order

---
 pkg/crd/spec.go | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/pkg/crd/spec.go b/pkg/crd/spec.go
index e4cbe3f..352ce01 100644
--- a/pkg/crd/spec.go
+++ b/pkg/crd/spec.go
@@ -58,8 +58,19 @@ func (p *Parser) NeedCRDFor(groupKind schema.GroupKind, maxDescLen *int) {
 		if gv.Group != groupKind.Group {
 			continue
 		}
+		if p.Types[TypeIdent{Package: pkg, Name: groupKind.Kind}] == nil {
+			continue
+		}
 		packages = append(packages, pkg)
 	}
+	// go through the packages in a fixed order: markers on different versions may set the same thing.
+	sort.Slice(packages, func(i, j int) bool {
+		iVer, jVer := p.GroupVersions[packages[i]].Version, p.GroupVersions[packages[j]].Version
+		if iVer != jVer {
+			return iVer < jVer
+		}
+		return packages[i].ID < packages[j].ID
+	})
 
 	defaultPlural := strings.ToLower(flect.Pluralize(groupKind.Kind))
 	crd := apiext.CustomResourceDefinition{
@@ -84,10 +95,6 @@ func (p *Parser) NeedCRDFor(groupKind schema.GroupKind, maxDescLen *int) {
 
 	for _, pkg := range packages {
 		typeIdent := TypeIdent{Package: pkg, Name: groupKind.Kind}
-		typeInfo := p.Types[typeIdent]
-		if typeInfo == nil {
-			continue
-		}
 		p.NeedFlattenedSchemaFor(typeIdent)
 		fullSchema := p.FlattenedSchemata[typeIdent]
 		fullSchema = *fullSchema.DeepCopy() // don't mutate the cache (we might be truncating description, etc)
@@ -106,15 +113,17 @@ func (p *Parser) NeedCRDFor(groupKind schema.GroupKind, maxDescLen *int) {
 
 	// markers are applied *after* initial generation of objects
 	for _, pkg := range packages {
-		typeIdent := TypeIdent{Package: pkg, Name: groupKind.Kind}
-		typeInfo := p.Types[typeIdent]
-		if typeInfo == nil {
-			continue
-		}
+		typeInfo := p.Types[TypeIdent{Package: pkg, Name: groupKind.Kind}]
 		ver := p.GroupVersions[pkg].Version
 
-		for _, markerVals := range typeInfo.Markers {
-			for _, val := range markerVals {
+		markerNames := make([]string, 0, len(typeInfo.Markers))
+		for markerName := range typeInfo.Markers {
+			markerNames = append(markerNames, markerName)
+		}
+		sort.Strings(markerNames)
+
+		for _, markerName := range markerNames {
+			for _, val := range typeInfo.Markers[markerName] {
 				if specMarker, isSpecMarker := val.(SpecMarker); isSpecMarker {
 					if err := specMarker.ApplyToCRD(&crd.Spec, ver); err != nil {
 						pkg.AddError(loader.ErrFromNode(err /* an okay guess */, typeInfo.RawSpec))
-- 
2.43.0


From 33178e161ae1ab2abfbad4e86d6c2a0c4a0aa629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:45 +0000
Subject: [PATCH 28/86] fix: crd: allow other version markers on skipped
 versions

---
 pkg/crd/spec.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pkg/crd/spec.go b/pkg/crd/spec.go
index 352ce01..e06b4a2 100644
--- a/pkg/crd/spec.go
+++ b/pkg/crd/spec.go
@@ -27,6 +27,9 @@ import (
 	"sigs.k8s.io/controller-tools/pkg/loader"
 )
 
+// skipVersionMarker is the marker that removes a version from the CRD.
+const skipVersionMarker = "kubebuilder:skipversion"
+
 // SpecMarker is a marker that knows how to apply itself to a particular
 // version in a CRD Spec.
 type SpecMarker interface {
@@ -120,7 +123,14 @@ func (p *Parser) NeedCRDFor(groupKind schema.GroupKind, maxDescLen *int) {
 		for markerName := range typeInfo.Markers {
 			markerNames = append(markerNames, markerName)
 		}
-		sort.Strings(markerNames)
+		// skip versions last, the other markers need the version to be there.
+		sort.Slice(markerNames, func(i, j int) bool {
+			iSkips, jSkips := markerNames[i] == skipVersionMarker, markerNames[j] == skipVersionMarker
+			if iSkips != jSkips {
+				return jSkips
+			}
+			return markerNames[i] < markerNames[j]
+		})
 
 		for _, markerName := range markerNames {
 			for _, val := range typeInfo.Markers[markerName] {
-- 
2.43.0


From e6b76d06f12f5c47e610ca06426888e5b6903bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:47 +0000
Subject: [PATCH 29/86] fix: crd: report several storage versions of one kind

---
 pkg/crd/spec.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pkg/crd/spec.go b/pkg/crd/spec.go
index e06b4a2..1cf81ee 100644
--- a/pkg/crd/spec.go
+++ b/pkg/crd/spec.go
@@ -165,18 +165,20 @@ func (p *Parser) NeedCRDFor(groupKind schema.GroupKind, maxDescLen *int) {
 		crd.Spec.Versions[0].Storage = true
 	}
 
-	hasStorage := false
+	var storageVersions []string
 	for _, ver := range crd.Spec.Versions {
 		if ver.Storage {
-			hasStorage = true
-			break
+			storageVersions = append(storageVersions, ver.Name)
 		}
 	}
-	if !hasStorage {
+	if len(storageVersions) == 0 {
 		// just add the error to the first relevant package for this CRD,
 		// since there's no specific error location
 		packages[0].AddError(fmt.Errorf("CRD for %s has no storage version", groupKind))
 	}
+	if len(storageVersions) > 1 {
+		packages[0].AddError(fmt.Errorf("CRD for %s has several storage versions %v", groupKind, storageVersions))
+	}
 
 	served := false
 	for _, ver := range crd.Spec.Versions {
-- 
2.43.0


From 6002b8b53081c16589f4f57e708dc6607acb5541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:50 +0000
Subject: [PATCH 30/86] fix: crd: report several packages with the same version
 of a kind

---
 pkg/crd/spec.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/crd/spec.go b/pkg/crd/spec.go
index 1cf81ee..1d5b8e4 100644
--- a/pkg/crd/spec.go
+++ b/pkg/crd/spec.go
@@ -159,6 +159,12 @@ func (p *Parser) NeedCRDFor(groupKind schema.GroupKind, maxDescLen *int) {
 	// Otherwise, crd.Spec.Version may point to different CRD versions across different runs.
 	sort.Slice(crd.Spec.Versions, func(i, j int) bool { return crd.Spec.Versions[i].Name < crd.Spec.Versions[j].Name })
 
+	for i := 1; i < len(crd.Spec.Versions); i++ {
+		if crd.Spec.Versions[i].Name == crd.Spec.Versions[i-1].Name {
+			packages[0].AddError(fmt.Errorf("CRD for %s has version %q in several packages", groupKind, crd.Spec.Versions[i].Name))
+		}
+	}
+
 	// make sure we have *a* storage version
 	// (default it if we only have one, otherwise, bail)
 	if len(crd.Spec.Versions) == 1 {
-- 
2.43.0


From 6391b7aba30e74acc04cf57f5d69edb2f6d0f05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:52 +0000
Subject: [PATCH 31/86] fix: crd: report labels without a value instead of
 crashing

---
 pkg/crd/markers/crd.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/crd/markers/crd.go b/pkg/crd/markers/crd.go
index bd3cef5..d4a035d 100644
--- a/pkg/crd/markers/crd.go
+++ b/pkg/crd/markers/crd.go
@@ -384,6 +384,9 @@ func (s Metadata) ApplyToCRD(crd *apiext.CustomResourceDefinition, _ string) err
 		}
 		for _, str := range s.Labels {
 			kv := strings.SplitN(str, "=", 2)
+			if len(kv) < 2 {
+				return fmt.Errorf("label %s is not in 'xxx=xxx' format", str)
+			}
 			crd.Labels[kv[0]] = kv[1]
 		}
 	}
-- 
2.43.0


From 57b3a4c7b66a3d1a8a136bd056a9b1e7065c927f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:55 +0000
Subject: [PATCH 32/86] fix: crd: do not write an empty manifest for kinds
 without a CRD

---
 pkg/crd/gen.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/crd/gen.go b/pkg/crd/gen.go
index 5fad65a..1be7e52 100644
--- a/pkg/crd/gen.go
+++ b/pkg/crd/gen.go
@@ -179,7 +179,11 @@ func (g Generator) Generate(ctx *genall.GenerationContext) error {
 
 	for _, groupKind := range kubeKinds {
 		parser.NeedCRDFor(groupKind, g.MaxDescLen)
-		crdRaw := parser.CustomResourceDefinitions[groupKind]
+		crdRaw, hasCRD := parser.CustomResourceDefinitions[groupKind]
+		if !hasCRD {
+			// all versions are skipped, or the package has no group
+			continue
+		}
 		addAttribution(&crdRaw)
 
 		// Prevent the top level metadata for the CRD to be generate regardless of the intention in the arguments
-- 
2.43.0


From 39156d907e25f506539d1cb89498b5db16b652f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:34 +0000
Subject: [PATCH 33/86] fix: crd: do not take packages that are only referenced
 for further versions

---
 pkg/crd/parser.go | 12 +++++++++++-
 pkg/crd/spec.go   |  3 +++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/pkg/crd/parser.go b/pkg/crd/parser.go
index 4b96ee9..379be23 100644
--- a/pkg/crd/parser.go
+++ b/pkg/crd/parser.go
@@ -69,6 +69,9 @@ type Parser struct {
 	Checker *loader.TypeChecker
 	// packages marks packages as loaded, to avoid re-loading them.
 	packages map[*loader.Package]struct{}
+	// referenced marks packages that were only loaded for the types that others
+	// refer to.  They don't contribute versions to CRDs.
+	referenced map[*loader.Package]struct{}
 
 	flattener *Flattener
 
@@ -97,6 +100,9 @@ func (p *Parser) init() {
 	if p.packages == nil {
 		p.packages = make(map[*loader.Package]struct{})
 	}
+	if p.referenced == nil {
+		p.referenced = make(map[*loader.Package]struct{})
+	}
 	if p.flattener == nil {
 		p.flattener = &Flattener{
 			Parser: p,
@@ -166,7 +172,10 @@ func (p *Parser) LookupType(pkg *loader.Package, name string) *markers.TypeInfo
 func (p *Parser) NeedSchemaFor(typ TypeIdent) {
 	p.init()
 
-	p.NeedPackage(typ.Package)
+	if _, loaded := p.packages[typ.Package]; !loaded {
+		p.NeedPackage(typ.Package)
+		p.referenced[typ.Package] = struct{}{}
+	}
 	if _, knownSchema := p.Schemata[typ]; knownSchema {
 		return
 	}
@@ -228,6 +237,7 @@ func (p *Parser) AddPackage(pkg *loader.Package) {
 // is needed for the given package.
 func (p *Parser) NeedPackage(pkg *loader.Package) {
 	p.init()
+	delete(p.referenced, pkg)
 	if _, checked := p.packages[pkg]; checked {
 		return
 	}
diff --git a/pkg/crd/spec.go b/pkg/crd/spec.go
index 1d5b8e4..d98e006 100644
--- a/pkg/crd/spec.go
+++ b/pkg/crd/spec.go
@@ -61,6 +61,9 @@ func (p *Parser) NeedCRDFor(groupKind schema.GroupKind, maxDescLen *int) {
 		if gv.Group != groupKind.Group {
 			continue
 		}
+		if _, onlyReferenced := p.referenced[pkg]; onlyReferenced {
+			continue
+		}
 		if p.Types[TypeIdent{Package: pkg, Name: groupKind.Kind}] == nil {
 			continue
 		}
-- 
2.43.0


From b6307d69152b02fe9c1f1ab8b7656f384cd431ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:23 +0000
Subject: [PATCH 34/86] fix: crd: report kinds with the same resource name
 instead of overwriting one

---
 pkg/crd/gen.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/crd/gen.go b/pkg/crd/gen.go
index 1be7e52..b84c24a 100644
--- a/pkg/crd/gen.go
+++ b/pkg/crd/gen.go
@@ -177,6 +177,7 @@ func (g Generator) Generate(ctx *genall.GenerationContext) error {
 		yamlOpts = append(yamlOpts, genall.WithTransform(transformPreserveUnknownFields(*g.DeprecatedV1beta1CompatibilityPreserveUnknownFields)))
 	}
 
+	kindsByFile := map[string]schema.GroupKind{}
 	for _, groupKind := range kubeKinds {
 		parser.NeedCRDFor(groupKind, g.MaxDescLen)
 		crdRaw, hasCRD := parser.CustomResourceDefinitions[groupKind]
@@ -206,6 +207,10 @@ func (g Generator) Generate(ctx *genall.GenerationContext) error {
 			} else {
 				fileName = fmt.Sprintf("%s_%s.%s.yaml", crdRaw.Spec.Group, crdRaw.Spec.Names.Plural, crdVersions[i])
 			}
+			if otherKind, exists := kindsByFile[fileName]; exists && otherKind != groupKind {
+				return fmt.Errorf("CRDs for %s and %s have the same resource name, and would both be written to %s", otherKind, groupKind, fileName)
+			}
+			kindsByFile[fileName] = groupKind
 			if err := ctx.WriteYAML(fileName, headerText, []interface{}{crd}, yamlOpts...); err != nil {
 				return err
 			}
-- 
2.43.0


From 5405018c5a5b18fc71d5deaf26b767b94ccde370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:40 +0000
Subject: [PATCH 35/86] fix: webhook: reject timeouts that do not fit in 32
 bits

---
 pkg/webhook/parser.go | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/pkg/webhook/parser.go b/pkg/webhook/parser.go
index 832edeb..51de7f0 100644
--- a/pkg/webhook/parser.go
+++ b/pkg/webhook/parser.go
@@ -24,6 +24,7 @@ package webhook
 
 import (
 	"fmt"
+	"math"
 	"sort"
 	"strings"
 
@@ -222,6 +223,11 @@ func (c Config) ToMutatingWebhook() (admissionregv1.MutatingWebhook, error) {
 		return admissionregv1.MutatingWebhook{}, err
 	}
 
+	timeoutSeconds, err := c.timeoutSeconds()
+	if err != nil {
+		return admissionregv1.MutatingWebhook{}, err
+	}
+
 	return admissionregv1.MutatingWebhook{
 		Name:                    c.Name,
 		Rules:                   c.rules(),
@@ -229,7 +235,7 @@ func (c Config) ToMutatingWebhook() (admissionregv1.MutatingWebhook, error) {
 		MatchPolicy:             matchPolicy,
 		ClientConfig:            clientConfig,
 		SideEffects:             c.sideEffects(),
-		TimeoutSeconds:          c.timeoutSeconds(),
+		TimeoutSeconds:          timeoutSeconds,
 		AdmissionReviewVersions: c.AdmissionReviewVersions,
 		ReinvocationPolicy:      c.reinvocationPolicy(),
 	}, nil
@@ -251,6 +257,11 @@ func (c Config) ToValidatingWebhook() (admissionregv1.ValidatingWebhook, error)
 		return admissionregv1.ValidatingWebhook{}, err
 	}
 
+	timeoutSeconds, err := c.timeoutSeconds()
+	if err != nil {
+		return admissionregv1.ValidatingWebhook{}, err
+	}
+
 	return admissionregv1.ValidatingWebhook{
 		Name:                    c.Name,
 		Rules:                   c.rules(),
@@ -258,7 +269,7 @@ func (c Config) ToValidatingWebhook() (admissionregv1.ValidatingWebhook, error)
 		MatchPolicy:             matchPolicy,
 		ClientConfig:            clientConfig,
 		SideEffects:             c.sideEffects(),
-		TimeoutSeconds:          c.timeoutSeconds(),
+		TimeoutSeconds:          timeoutSeconds,
 		AdmissionReviewVersions: c.AdmissionReviewVersions,
 	}, nil
 }
@@ -380,12 +391,15 @@ func (c Config) sideEffects() *admissionregv1.SideEffectClass {
 }
 
 // timeoutSeconds returns the timeoutSeconds config for a webhook.
-func (c Config) timeoutSeconds() *int32 {
-	if c.TimeoutSeconds != 0 {
-		timeoutSeconds := int32(c.TimeoutSeconds)
-		return &timeoutSeconds
+func (c Config) timeoutSeconds() (*int32, error) {
+	if c.TimeoutSeconds == 0 {
+		return nil, nil
 	}
-	return nil
+	if c.TimeoutSeconds < math.MinInt32 || c.TimeoutSeconds > math.MaxInt32 {
+		return nil, fmt.Errorf("TimeoutSeconds must be between 1 and 30 seconds")
+	}
+	timeoutSeconds := int32(c.TimeoutSeconds)
+	return &timeoutSeconds, nil
 }
 
 // reinvocationPolicy returns the reinvocationPolicy config for a mutating webhook.
-- 
2.43.0


From 81e37ae56572acf9c6f3b4bd2706a19db60b740a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:42 +0000
Subject: [PATCH 36/86] fix: webhook: do not change the groups of the marker

---
 pkg/webhook/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/webhook/parser.go b/pkg/webhook/parser.go
index 51de7f0..ddcefc8 100644
--- a/pkg/webhook/parser.go
+++ b/pkg/webhook/parser.go
@@ -279,7 +279,8 @@ func (c Config) ToValidatingWebhook() (admissionregv1.ValidatingWebhook, error)
 func (c Config) rules() []admissionregv1.RuleWithOperations {
 	whConfig := admissionregv1.RuleWithOperations{
 		Rule: admissionregv1.Rule{
-			APIGroups:   c.Groups,
+			// a copy, since it's changed below and the marker values are shared
+			APIGroups:   append([]string(nil), c.Groups...),
 			APIVersions: c.Versions,
 			Resources:   c.Resources,
 		},
-- 
2.43.0


From 939aa3f79df82729251ee3fc865fc13627916b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:44 +0000
Subject: [PATCH 37/86] fix: webhook: report duplicate webhookconfiguration
 markers in several packages

---
 pkg/webhook/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/webhook/parser.go b/pkg/webhook/parser.go
index ddcefc8..33e1c90 100644
--- a/pkg/webhook/parser.go
+++ b/pkg/webhook/parser.go
@@ -463,6 +463,7 @@ func (g Generator) Generate(ctx *genall.GenerationContext) error {
 	var mutatingWebhookCfgs admissionregv1.MutatingWebhookConfiguration
 	var validatingWebhookCfgs admissionregv1.ValidatingWebhookConfiguration
 
+	hasValidatingWebhookConfig, hasMutatingWebhookConfig := false, false
 	for _, root := range ctx.Roots {
 		markerSet, err := markers.PackageMarkers(ctx.Collector, root)
 		if err != nil {
@@ -470,7 +471,6 @@ func (g Generator) Generate(ctx *genall.GenerationContext) error {
 		}
 
 		webhookCfgs := markerSet[WebhookConfigDefinition.Name]
-		hasValidatingWebhookConfig, hasMutatingWebhookConfig := false, false
 		for _, webhookCfg := range webhookCfgs {
 			webhookCfg := webhookCfg.(WebhookConfig)
 
-- 
2.43.0


From eb05180fadcdd5fff48c01640585a3db47bba89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:06 +0000
Subject: [PATCH 38/86] fix: webhook: sort the webhooks of all packages by name

---
 pkg/webhook/parser.go | 50 +++++++++++++++++++++++--------------------
 1 file changed, 27 insertions(+), 23 deletions(-)

diff --git a/pkg/webhook/parser.go b/pkg/webhook/parser.go
index 33e1c90..c32afbb 100644
--- a/pkg/webhook/parser.go
+++ b/pkg/webhook/parser.go
@@ -463,6 +463,7 @@ func (g Generator) Generate(ctx *genall.GenerationContext) error {
 	var mutatingWebhookCfgs admissionregv1.MutatingWebhookConfiguration
 	var validatingWebhookCfgs admissionregv1.ValidatingWebhookConfiguration
 
+	var cfgs []Config
 	hasValidatingWebhookConfig, hasMutatingWebhookConfig := false, false
 	for _, root := range ctx.Roots {
 		markerSet, err := markers.PackageMarkers(ctx.Collector, root)
@@ -497,33 +498,36 @@ func (g Generator) Generate(ctx *genall.GenerationContext) error {
 			}
 		}
 
-		cfgs := markerSet[ConfigDefinition.Name]
-		sort.SliceStable(cfgs, func(i, j int) bool {
-			return cfgs[i].(Config).Name < cfgs[j].(Config).Name
-		})
+		for _, cfg := range markerSet[ConfigDefinition.Name] {
+			cfgs = append(cfgs, cfg.(Config))
+		}
+	}
+
+	// sort the webhooks of all packages together, so that the result doesn't depend on the order of the packages
+	sort.SliceStable(cfgs, func(i, j int) bool {
+		return cfgs[i].Name < cfgs[j].Name
+	})
 
-		for _, cfg := range cfgs {
-			cfg := cfg.(Config)
-			webhookVersions, err := cfg.webhookVersions()
+	for _, cfg := range cfgs {
+		webhookVersions, err := cfg.webhookVersions()
+		if err != nil {
+			return err
+		}
+		if cfg.Mutating {
+			w, err := cfg.ToMutatingWebhook()
 			if err != nil {
 				return err
 			}
-			if cfg.Mutating {
-				w, err := cfg.ToMutatingWebhook()
-				if err != nil {
-					return err
-				}
-				for _, webhookVersion := range webhookVersions {
-					mutatingCfgs[webhookVersion] = append(mutatingCfgs[webhookVersion], w)
-				}
-			} else {
-				w, err := cfg.ToValidatingWebhook()
-				if err != nil {
-					return err
-				}
-				for _, webhookVersion := range webhookVersions {
-					validatingCfgs[webhookVersion] = append(validatingCfgs[webhookVersion], w)
-				}
+			for _, webhookVersion := range webhookVersions {
+				mutatingCfgs[webhookVersion] = append(mutatingCfgs[webhookVersion], w)
+			}
+		} else {
+			w, err := cfg.ToValidatingWebhook()
+			if err != nil {
+				return err
+			}
+			for _, webhookVersion := range webhookVersions {
+				validatingCfgs[webhookVersion] = append(validatingCfgs[webhookVersion], w)
 			}
 		}
 	}
-- 
2.43.0


From f76d7cd5a44e90af06e27b02e1beee4b6b736ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:08 +0000
Subject: [PATCH 39/86] fix: webhook: report unknown reinvocation policies

---
 pkg/webhook/parser.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pkg/webhook/parser.go b/pkg/webhook/parser.go
index c32afbb..75c5b43 100644
--- a/pkg/webhook/parser.go
+++ b/pkg/webhook/parser.go
@@ -228,6 +228,11 @@ func (c Config) ToMutatingWebhook() (admissionregv1.MutatingWebhook, error) {
 		return admissionregv1.MutatingWebhook{}, err
 	}
 
+	reinvocationPolicy, err := c.reinvocationPolicy()
+	if err != nil {
+		return admissionregv1.MutatingWebhook{}, err
+	}
+
 	return admissionregv1.MutatingWebhook{
 		Name:                    c.Name,
 		Rules:                   c.rules(),
@@ -237,7 +242,7 @@ func (c Config) ToMutatingWebhook() (admissionregv1.MutatingWebhook, error) {
 		SideEffects:             c.sideEffects(),
 		TimeoutSeconds:          timeoutSeconds,
 		AdmissionReviewVersions: c.AdmissionReviewVersions,
-		ReinvocationPolicy:      c.reinvocationPolicy(),
+		ReinvocationPolicy:      reinvocationPolicy,
 	}, nil
 }
 
@@ -404,17 +409,19 @@ func (c Config) timeoutSeconds() (*int32, error) {
 }
 
 // reinvocationPolicy returns the reinvocationPolicy config for a mutating webhook.
-func (c Config) reinvocationPolicy() *admissionregv1.ReinvocationPolicyType {
+func (c Config) reinvocationPolicy() (*admissionregv1.ReinvocationPolicyType, error) {
 	var reinvocationPolicy admissionregv1.ReinvocationPolicyType
 	switch strings.ToLower(c.ReinvocationPolicy) {
 	case strings.ToLower(string(admissionregv1.NeverReinvocationPolicy)):
 		reinvocationPolicy = admissionregv1.NeverReinvocationPolicy
 	case strings.ToLower(string(admissionregv1.IfNeededReinvocationPolicy)):
 		reinvocationPolicy = admissionregv1.IfNeededReinvocationPolicy
+	case "":
+		return nil, nil
 	default:
-		return nil
+		return nil, fmt.Errorf("unknown value %q for reinvocationPolicy", c.ReinvocationPolicy)
 	}
-	return &reinvocationPolicy
+	return &reinvocationPolicy, nil
 }
 
 // webhookVersions returns the target API versions of the {Mutating,Validating}WebhookConfiguration objects for a webhook.
-- 
2.43.0


From 202f29cafb358bd21db3b39f345d4df81b4147c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:11 +0000
Subject: [PATCH 40/86] fix: webhook: show the help of the webhookconfiguration
 marker

---
 pkg/webhook/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/webhook/parser.go b/pkg/webhook/parser.go
index 75c5b43..5e9cc73 100644
--- a/pkg/webhook/parser.go
+++ b/pkg/webhook/parser.go
@@ -458,7 +458,7 @@ func (Generator) RegisterMarkers(into *markers.Registry) error {
 		return err
 	}
 	into.AddHelp(ConfigDefinition, Config{}.Help())
-	into.AddHelp(WebhookConfigDefinition, Config{}.Help())
+	into.AddHelp(WebhookConfigDefinition, WebhookConfig{}.Help())
 	return nil
 }
 
-- 
2.43.0


From a442b8d098647274c65ca5b3b75a9dfd88badcfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:24 +0000
Subject: [PATCH 41/86] fix: schemapatcher: only use the packages that declare
 the kind

Packages of the same group and version that do not declare the kind caused a
nil pointer dereference, packages that are only referenced were taken for
versions, and one of several packages with the same version was picked at
random.
---
 pkg/crd/spec.go          | 28 ++++++++++++++++++----------
 pkg/schemapatcher/gen.go |  9 +++++----
 2 files changed, 23 insertions(+), 14 deletions(-)

diff --git a/pkg/crd/spec.go b/pkg/crd/spec.go
index d98e006..d8d988f 100644
--- a/pkg/crd/spec.go
+++ b/pkg/crd/spec.go
@@ -46,16 +46,10 @@ type Marker interface {
 	ApplyToCRD(crd *apiext.CustomResourceDefinition, version string) error
 }
 
-// NeedCRDFor requests the full CRD for the given group-kind.  It requires
-// that the packages containing the Go structs for that CRD have already
-// been loaded with NeedPackage.
-func (p *Parser) NeedCRDFor(groupKind schema.GroupKind, maxDescLen *int) {
-	p.init()
-
-	if _, exists := p.CustomResourceDefinitions[groupKind]; exists {
-		return
-	}
-
+// PackagesWithKind finds the packages that declare the given group-kind (one
+// for each version), in a fixed order.  Packages that are only referenced by
+// the requested ones are not among them.
+func (p *Parser) PackagesWithKind(groupKind schema.GroupKind) []*loader.Package {
 	var packages []*loader.Package
 	for pkg, gv := range p.GroupVersions {
 		if gv.Group != groupKind.Group {
@@ -78,6 +72,20 @@ func (p *Parser) NeedCRDFor(groupKind schema.GroupKind, maxDescLen *int) {
 		return packages[i].ID < packages[j].ID
 	})
 
+	return packages
+}
+
+// NeedCRDFor requests the full CRD for the given group-kind.  It requires
+// that the packages containing the Go structs for that CRD have already
+// been loaded with NeedPackage.
+func (p *Parser) NeedCRDFor(groupKind schema.GroupKind, maxDescLen *int) {
+	p.init()
+
+	if _, exists := p.CustomResourceDefinitions[groupKind]; exists {
+		return
+	}
+
+	packages := p.PackagesWithKind(groupKind)
 	defaultPlural := strings.ToLower(flect.Pluralize(groupKind.Kind))
 	crd := apiext.CustomResourceDefinition{
 		TypeMeta: metav1.TypeMeta{
diff --git a/pkg/schemapatcher/gen.go b/pkg/schemapatcher/gen.go
index 063a7cf..a794b09 100644
--- a/pkg/schemapatcher/gen.go
+++ b/pkg/schemapatcher/gen.go
@@ -118,13 +118,14 @@ func (g Generator) Generate(ctx *genall.GenerationContext) (result error) {
 			continue
 		}
 
-		for pkg, gv := range parser.GroupVersions {
-			if gv.Group != groupKind.Group {
-				continue
-			}
+		for _, pkg := range parser.PackagesWithKind(groupKind) {
+			gv := parser.GroupVersions[pkg]
 			if _, wantedVersion := existingSet.Versions[gv.Version]; !wantedVersion {
 				continue
 			}
+			if _, exists := existingSet.NewSchemata[gv.Version]; exists {
+				return fmt.Errorf("%s has version %q in several packages", groupKind, gv.Version)
+			}
 
 			typeIdent := crdgen.TypeIdent{Package: pkg, Name: groupKind.Kind}
 			parser.NeedFlattenedSchemaFor(typeIdent)
-- 
2.43.0


From cc1805d848b5339edcd0c3c964766ab23d6240f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:40 +0000
Subject: [PATCH 42/86] fix: schemapatcher: do not change the cached schemata

---
 pkg/schemapatcher/gen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/schemapatcher/gen.go b/pkg/schemapatcher/gen.go
index a794b09..68faf60 100644
--- a/pkg/schemapatcher/gen.go
+++ b/pkg/schemapatcher/gen.go
@@ -131,8 +131,8 @@ func (g Generator) Generate(ctx *genall.GenerationContext) (result error) {
 			parser.NeedFlattenedSchemaFor(typeIdent)
 
 			fullSchema := parser.FlattenedSchemata[typeIdent]
+			fullSchema = *fullSchema.DeepCopy() // don't mutate the cache
 			if g.MaxDescLen != nil {
-				fullSchema = *fullSchema.DeepCopy()
 				crdgen.TruncateDescription(&fullSchema, *g.MaxDescLen)
 			}
 
-- 
2.43.0


From 96d52ad92950ebe15cfb0f19572221487558c432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:42 +0000
Subject: [PATCH 43/86] fix: schemapatcher: report versions without a name

They caused a nil pointer dereference.
---
 pkg/schemapatcher/gen.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/schemapatcher/gen.go b/pkg/schemapatcher/gen.go
index 68faf60..7f65b52 100644
--- a/pkg/schemapatcher/gen.go
+++ b/pkg/schemapatcher/gen.go
@@ -302,7 +302,13 @@ func (e *partialCRD) setVersionedSchemata(newSchemata map[string]apiext.JSONSche
 	}
 
 	for i, verNode := range versions.Content {
-		nameNode, _, _ := yamlop.GetNode(verNode, "name")
+		nameNode, hasName, err := yamlop.GetNode(verNode, "name")
+		if err != nil {
+			return fmt.Errorf("spec.versions[%d]: %w", i, err)
+		}
+		if !hasName {
+			return fmt.Errorf("unexpected missing name at spec.versions[%d]", i)
+		}
 		if nameNode.Kind != yaml.ScalarNode || nameNode.ShortTag() != "!!str" {
 			return fmt.Errorf("version name was not a string at spec.versions[%d]", i)
 		}
-- 
2.43.0


From 23d7021951b18a762b78a46cfd8ff8e781427cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:44 +0000
Subject: [PATCH 44/86] fix: schemapatcher: keep all documents of a manifest

Only the first document of a file was looked at and written back, so all
others were lost when patching in place.
---
 pkg/schemapatcher/gen.go | 190 +++++++++++++++++++++------------------
 1 file changed, 105 insertions(+), 85 deletions(-)

diff --git a/pkg/schemapatcher/gen.go b/pkg/schemapatcher/gen.go
index 7f65b52..284dab7 100644
--- a/pkg/schemapatcher/gen.go
+++ b/pkg/schemapatcher/gen.go
@@ -17,14 +17,16 @@ limitations under the License.
 package schemapatcher
 
 import (
+	"bytes"
+	"errors"
 	"fmt"
+	"io"
 	"os"
 	"path/filepath"
 
 	"gopkg.in/yaml.v3"
 	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
 	"k8s.io/apimachinery/pkg/api/equality"
-	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
 	"k8s.io/apimachinery/pkg/runtime/schema"
 	crdgen "sigs.k8s.io/controller-tools/pkg/crd"
 	crdmarkers "sigs.k8s.io/controller-tools/pkg/crd/markers"
@@ -32,7 +34,6 @@ import (
 	"sigs.k8s.io/controller-tools/pkg/loader"
 	"sigs.k8s.io/controller-tools/pkg/markers"
 	yamlop "sigs.k8s.io/controller-tools/pkg/schemapatcher/internal/yaml"
-	kyaml "sigs.k8s.io/yaml"
 )
 
 // NB(directxman12): this code is quite fragile, but there are a sufficient
@@ -106,7 +107,7 @@ func (g Generator) Generate(ctx *genall.GenerationContext) (result error) {
 	}
 
 	// load existing CRD manifests with group-kind and versions
-	partialCRDSets, err := crdsFromDirectory(ctx, g.ManifestsPath)
+	partialCRDSets, files, err := crdsFromDirectory(ctx, g.ManifestsPath)
 	if err != nil {
 		return err
 	}
@@ -184,28 +185,27 @@ func (g Generator) Generate(ctx *genall.GenerationContext) (result error) {
 	}
 
 	// write the final result out to the new location
-	for _, set := range partialCRDSets {
-		// We assume all CRD versions came from different files, since this
-		// is how controller-gen works.  If they came from the same file,
-		// it'd be non-sensical, since you couldn't reasonably use kubectl
-		// with them against older servers.
-		for _, crd := range set.CRDVersions {
-			if err := func() error {
-				outWriter, err := ctx.OutputRule.Open(nil, crd.FileName)
-				if err != nil {
-					return err
-				}
-				defer outWriter.Close()
+	for _, file := range files {
+		if err := func() error {
+			outWriter, err := ctx.OutputRule.Open(nil, file.Name)
+			if err != nil {
+				return err
+			}
+			defer outWriter.Close()
 
-				enc := yaml.NewEncoder(outWriter)
-				// yaml.v2 defaults to indent=2, yaml.v3 defaults to indent=4,
-				// so be compatible with everything else in k8s and choose 2.
-				enc.SetIndent(2)
+			enc := yaml.NewEncoder(outWriter)
+			// yaml.v2 defaults to indent=2, yaml.v3 defaults to indent=4,
+			// so be compatible with everything else in k8s and choose 2.
+			enc.SetIndent(2)
 
-				return enc.Encode(crd.Yaml)
-			}(); err != nil {
-				return err
+			for _, document := range file.Documents {
+				if err := enc.Encode(document); err != nil {
+					return err
+				}
 			}
+			return nil
+		}(); err != nil {
+			return err
 		}
 	}
 
@@ -230,18 +230,20 @@ type partialCRDSet struct {
 	Versions map[string]struct{}
 }
 
+// manifestFile is a file with at least one CRD in it.
+type manifestFile struct {
+	// Name is the source name of the file.
+	Name string
+	// Documents are all YAML documents of the file, including those that are
+	// not CRDs.
+	Documents []*yaml.Node
+}
+
 // partialCRD represents the raw YAML encoding of a given CRD instance, plus
 // the versions contained therein for easy lookup.
 type partialCRD struct {
 	// Yaml is the raw YAML structure of the CRD.
 	Yaml *yaml.Node
-	// FileName is the source name of the file that this was read from.
-	//
-	// This isn't on partialCRDSet because we could have different CRD versions
-	// stored in the same file (like controller-tools does by default) or in
-	// different files.
-	FileName string
-
 	// CRDVersion is the version of the CRD object itself, from
 	// apiextensions (currently apiextensions/v1 or apiextensions/v1beta1).
 	CRDVersion string
@@ -338,78 +340,90 @@ func (e *partialCRD) setVersionedSchemata(newSchemata map[string]apiext.JSONSche
 
 // crdsFromDirectory returns loads all CRDs from the given directory in a
 // manner that preserves ordering, comments, etc in order to make patching
-// minimally invasive.  Returned CRDs are mapped by group-kind.
-func crdsFromDirectory(ctx *genall.GenerationContext, dir string) (map[schema.GroupKind]*partialCRDSet, error) {
+// minimally invasive.  Returned CRDs are mapped by group-kind, and share their
+// nodes with the documents of the returned files.
+func crdsFromDirectory(ctx *genall.GenerationContext, dir string) (map[schema.GroupKind]*partialCRDSet, []manifestFile, error) {
 	res := map[schema.GroupKind]*partialCRDSet{}
+	var files []manifestFile
 	dirEntries, err := os.ReadDir(dir)
 	if err != nil {
-		return nil, err
+		return nil, nil, err
 	}
 	for _, fileInfo := range dirEntries {
 		// find all files that are YAML
 		if fileInfo.IsDir() || filepath.Ext(fileInfo.Name()) != ".yaml" {
 			continue
 		}
+		path := filepath.Join(dir, fileInfo.Name())
 
-		rawContent, err := ctx.ReadFile(filepath.Join(dir, fileInfo.Name()))
+		rawContent, err := ctx.ReadFile(path)
 		if err != nil {
-			return nil, err
+			return nil, nil, err
 		}
 
-		// NB(directxman12): we could use the universal deserializer for this, but it's
-		// really pretty clunky, and the alternative is actually kinda easier to understand
+		file := manifestFile{Name: fileInfo.Name()}
+		hasCRDs := false
+		for decoder := yaml.NewDecoder(bytes.NewReader(rawContent)); ; {
+			// unmarshal in a manner that preserves ordering, etc
+			yamlNodeTree := &yaml.Node{}
+			if err := decoder.Decode(yamlNodeTree); errors.Is(err, io.EOF) {
+				break
+			} else if err != nil {
+				if hasCRDs {
+					return nil, nil, fmt.Errorf("load %q: %w", path, err)
+				}
+				break // not something that we know
+			}
+			file.Documents = append(file.Documents, yamlNodeTree)
 
-		// ensure that this is a CRD
-		var typeMeta metav1.TypeMeta
-		if err := kyaml.Unmarshal(rawContent, &typeMeta); err != nil {
-			continue
-		}
+			// NB(directxman12): we could use the universal deserializer for this, but it's
+			// really pretty clunky, and the alternative is actually kinda easier to understand
 
-		if typeMeta.APIVersion == "" || typeMeta.Kind != "CustomResourceDefinition" {
-			// If there's no API version this file probably isn't a CRD.
-			// Likewise we don't need to care if the Kind isn't CustomResourceDefinition.
-			continue
-		}
-
-		if !isSupportedAPIExtGroupVer(typeMeta.APIVersion) {
-			return nil, fmt.Errorf("load %q: apiVersion %q not supported", filepath.Join(dir, fileInfo.Name()), typeMeta.APIVersion)
-		}
+			// ensure that this is a CRD
+			var typeMeta typeMetaIsh
+			if err := yamlNodeTree.Decode(&typeMeta); err != nil {
+				continue
+			}
 
-		// collect the group-kind and versions from the actual structured form
-		var actualCRD crdIsh
-		if err := kyaml.Unmarshal(rawContent, &actualCRD); err != nil {
-			continue
-		}
-		groupKind := schema.GroupKind{Group: actualCRD.Spec.Group, Kind: actualCRD.Spec.Names.Kind}
-		versions := make(map[string]struct{}, len(actualCRD.Spec.Versions))
-		for _, ver := range actualCRD.Spec.Versions {
-			versions[ver.Name] = struct{}{}
-		}
+			if typeMeta.APIVersion == "" || typeMeta.Kind != "CustomResourceDefinition" {
+				// If there's no API version this document probably isn't a CRD.
+				// Likewise we don't need to care if the Kind isn't CustomResourceDefinition.
+				continue
+			}
 
-		// then actually unmarshal in a manner that preserves ordering, etc
-		var yamlNodeTree yaml.Node
-		if err := yaml.Unmarshal(rawContent, &yamlNodeTree); err != nil {
-			continue
-		}
+			if !isSupportedAPIExtGroupVer(typeMeta.APIVersion) {
+				return nil, nil, fmt.Errorf("load %q: apiVersion %q not supported", path, typeMeta.APIVersion)
+			}
 
-		// then store this CRDVersion of the CRD in a set, populating the set if necessary
-		if res[groupKind] == nil {
-			res[groupKind] = &partialCRDSet{
-				GroupKind:   groupKind,
-				NewSchemata: make(map[string]apiext.JSONSchemaProps),
-				Versions:    make(map[string]struct{}),
+			// collect the group-kind and versions from the actual structured form
+			var actualCRD crdIsh
+			if err := yamlNodeTree.Decode(&actualCRD); err != nil {
+				return nil, nil, fmt.Errorf("load %q: %w", path, err)
 			}
+			groupKind := schema.GroupKind{Group: actualCRD.Spec.Group, Kind: actualCRD.Spec.Names.Kind}
+
+			// then store this CRDVersion of the CRD in a set, populating the set if necessary
+			if res[groupKind] == nil {
+				res[groupKind] = &partialCRDSet{
+					GroupKind:   groupKind,
+					NewSchemata: make(map[string]apiext.JSONSchemaProps),
+					Versions:    make(map[string]struct{}),
+				}
+			}
+			for _, ver := range actualCRD.Spec.Versions {
+				res[groupKind].Versions[ver.Name] = struct{}{}
+			}
+			res[groupKind].CRDVersions = append(res[groupKind].CRDVersions, &partialCRD{
+				Yaml:       yamlNodeTree,
+				CRDVersion: typeMeta.APIVersion,
+			})
+			hasCRDs = true
 		}
-		for ver := range versions {
-			res[groupKind].Versions[ver] = struct{}{}
+		if hasCRDs {
+			files = append(files, file)
 		}
-		res[groupKind].CRDVersions = append(res[groupKind].CRDVersions, &partialCRD{
-			Yaml:       &yamlNodeTree,
-			FileName:   fileInfo.Name(),
-			CRDVersion: typeMeta.APIVersion,
-		})
 	}
-	return res, nil
+	return res, files, nil
 }
 
 // isSupportedAPIExtGroupVer checks if the given string-form group-version
@@ -428,12 +442,18 @@ func isSupportedAPIExtGroupVer(groupVer string) bool {
 // Its use is tied directly to crdsFromDirectory, and is mostly an implementation detail of that.
 type crdIsh struct {
 	Spec struct {
-		Group string `json:"group"`
+		Group string `yaml:"group"`
 		Names struct {
-			Kind string `json:"kind"`
-		} `json:"names"`
+			Kind string `yaml:"kind"`
+		} `yaml:"names"`
 		Versions []struct {
-			Name string `json:"name"`
-		} `json:"versions"`
-	} `json:"spec"`
+			Name string `yaml:"name"`
+		} `yaml:"versions"`
+	} `yaml:"spec"`
+}
+
+// typeMetaIsh is the part of a document that tells what it is.
+type typeMetaIsh struct {
+	APIVersion string `yaml:"apiVersion"`
+	Kind       string `yaml:"kind"`
 }
-- 
2.43.0


From e4d9ca8251b4080c2d7a714d5d42ede2645b808f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:09 +0000
Subject: [PATCH 45/86] fix: schemapatcher: report aliases of replaced schemas

The result was not valid YAML.
---
 pkg/schemapatcher/gen.go                  |  4 ++++
 pkg/schemapatcher/internal/yaml/nested.go | 20 ++++++++++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/pkg/schemapatcher/gen.go b/pkg/schemapatcher/gen.go
index 284dab7..a960d99 100644
--- a/pkg/schemapatcher/gen.go
+++ b/pkg/schemapatcher/gen.go
@@ -335,6 +335,10 @@ func (e *partialCRD) setVersionedSchemata(newSchemata map[string]apiext.JSONSche
 			}
 		}
 	}
+
+	if anchor := yamlop.DanglingAlias(e.Yaml); anchor != "" {
+		return fmt.Errorf("anchor %q is part of a schema that is replaced, but used elsewhere", anchor)
+	}
 	return nil
 }
 
diff --git a/pkg/schemapatcher/internal/yaml/nested.go b/pkg/schemapatcher/internal/yaml/nested.go
index 70d43db..3771e13 100644
--- a/pkg/schemapatcher/internal/yaml/nested.go
+++ b/pkg/schemapatcher/internal/yaml/nested.go
@@ -85,3 +85,23 @@ func GetNode(root *yaml.Node, path ...string) (*yaml.Node, bool, error) {
 	}
 	return resNode, true, nil
 }
+
+// DanglingAlias returns the name of an alias that refers to a node that is not
+// part of the given tree (anymore), or an empty string if there is none.
+func DanglingAlias(root *yaml.Node) string {
+	nodes := map[*yaml.Node]struct{}{}
+	changeAll(root, func(node *yaml.Node) {
+		nodes[node] = struct{}{}
+	})
+
+	dangling := ""
+	changeAll(root, func(node *yaml.Node) {
+		if node.Kind != yaml.AliasNode {
+			return
+		}
+		if _, found := nodes[node.Alias]; !found || node.Alias.Anchor == "" {
+			dangling = node.Value
+		}
+	})
+	return dangling
+}
-- 
2.43.0


From 0e17b2f83c4c71ace28e15a822c284f0d57e41b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:38 +0000
Subject: [PATCH 46/86] fix: genall: keep all characters when writing YAML

Some characters that are valid in JSON strings are not allowed in YAML, or
taken for line breaks there: generation failed, or the text was changed.
---
 pkg/genall/genall.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/pkg/genall/genall.go b/pkg/genall/genall.go
index b6f3740..422e734 100644
--- a/pkg/genall/genall.go
+++ b/pkg/genall/genall.go
@@ -21,6 +21,7 @@ import (
 	"fmt"
 	"io"
 	"os"
+	"unicode/utf8"
 
 	"golang.org/x/tools/go/packages"
 	rawyaml "gopkg.in/yaml.v2"
@@ -189,7 +190,7 @@ func yamlJSONToYAMLWithFilter(j []byte, options ...*WriteYAMLOptions) ([]byte, e
 	// etc.) when unmarshalling to interface{}, it just picks float64
 	// universally. go-yaml does go through the effort of picking the right
 	// number type, so we can preserve number type throughout this process.
-	if err := rawyaml.Unmarshal(j, &jsonObj); err != nil {
+	if err := rawyaml.Unmarshal(escapeForYAML(j), &jsonObj); err != nil {
 		return nil, err
 	}
 
@@ -205,6 +206,21 @@ func yamlJSONToYAMLWithFilter(j []byte, options ...*WriteYAMLOptions) ([]byte, e
 	return rawyaml.Marshal(jsonObj)
 }
 
+// escapeForYAML escapes the characters of the given JSON that YAML, unlike JSON,
+// does not allow in strings, or takes for line breaks.
+func escapeForYAML(j []byte) []byte {
+	out := make([]byte, 0, len(j))
+	for _, r := range string(j) {
+		switch {
+		case r >= 0x7f && r < 0xa0, r == 0xfeff, r == 0xfffe, r == 0xffff:
+			out = append(out, fmt.Sprintf("\\u%04x", r)...)
+		default:
+			out = utf8.AppendRune(out, r)
+		}
+	}
+	return out
+}
+
 // ReadFile reads the given boilerplate artifact using the context's InputRule.
 func (g GenerationContext) ReadFile(path string) ([]byte, error) {
 	file, err := g.OpenForRead(path)
-- 
2.43.0


From 5fb5a0df815afaece28beb84d82fe4ece5e6a57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:38 +0000
Subject: [PATCH 47/86] fix: genall: remove the creation timestamp only where
 there is metadata

---
 pkg/genall/genall.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/genall/genall.go b/pkg/genall/genall.go
index 422e734..f6a6ddc 100644
--- a/pkg/genall/genall.go
+++ b/pkg/genall/genall.go
@@ -134,8 +134,9 @@ func WithTransform(transform func(obj map[string]interface{}) error) *WriteYAMLO
 
 // TransformRemoveCreationTimestamp ensures we do not write the metadata.creationTimestamp field.
 func TransformRemoveCreationTimestamp(obj map[string]interface{}) error {
-	metadata := obj["metadata"].(map[interface{}]interface{})
-	delete(metadata, "creationTimestamp")
+	if metadata, ok := obj["metadata"].(map[interface{}]interface{}); ok {
+		delete(metadata, "creationTimestamp")
+	}
 	return nil
 }
 
-- 
2.43.0


From 52e6a1585cddec4493e4f51a61d8e432b0cd03e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:48 +0000
Subject: [PATCH 48/86] fix: genall: report failures to close the output and to
 write all of it

---
 pkg/genall/genall.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/pkg/genall/genall.go b/pkg/genall/genall.go
index f6a6ddc..a3fd9a3 100644
--- a/pkg/genall/genall.go
+++ b/pkg/genall/genall.go
@@ -143,28 +143,36 @@ func TransformRemoveCreationTimestamp(obj map[string]interface{}) error {
 // WriteYAML writes the given objects out, serialized as YAML, using the
 // context's OutputRule.  Objects are written as separate documents, separated
 // from each other by `---` (as per the YAML spec).
-func (g GenerationContext) WriteYAML(itemPath, headerText string, objs []interface{}, options ...*WriteYAMLOptions) error {
+func (g GenerationContext) WriteYAML(itemPath, headerText string, objs []interface{}, options ...*WriteYAMLOptions) (err error) {
 	out, err := g.Open(nil, itemPath)
 	if err != nil {
 		return err
 	}
-	defer out.Close()
+	defer func() {
+		if closeErr := out.Close(); err == nil {
+			err = closeErr
+		}
+	}()
 
-	_, err = out.Write([]byte(headerText))
+	n, err := out.Write([]byte(headerText))
 	if err != nil {
 		return err
 	}
+	if n < len(headerText) {
+		return io.ErrShortWrite
+	}
 
 	for _, obj := range objs {
 		yamlContent, err := yamlMarshal(obj, options...)
 		if err != nil {
 			return err
 		}
-		n, err := out.Write(append([]byte("---\n"), yamlContent...))
+		document := append([]byte("---\n"), yamlContent...)
+		n, err := out.Write(document)
 		if err != nil {
 			return err
 		}
-		if n < len(yamlContent) {
+		if n < len(document) {
 			return io.ErrShortWrite
 		}
 	}
-- 
2.43.0


From 720021d979d4f376cb8b6015fc0a09be8592b285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:48 +0000
Subject: [PATCH 49/86] fix: deepcopy: report failures to close the output

---
 pkg/deepcopy/gen.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/deepcopy/gen.go b/pkg/deepcopy/gen.go
index a85cc85..3fefe10 100644
--- a/pkg/deepcopy/gen.go
+++ b/pkg/deepcopy/gen.go
@@ -291,7 +291,11 @@ func writeOut(ctx *genall.GenerationContext, root *loader.Package, outBytes []by
 		root.AddError(err)
 		return
 	}
-	defer outputFile.Close()
+	defer func() {
+		if err := outputFile.Close(); err != nil {
+			root.AddError(err)
+		}
+	}()
 	n, err := outputFile.Write(outBytes)
 	if err != nil {
 		root.AddError(err)
-- 
2.43.0


From a6d48c606b7f5f8bbdc09815c606f0b6a6628a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:03 +0000
Subject: [PATCH 50/86] fix: schemapatcher: report failures to close the output

---
 pkg/schemapatcher/gen.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/schemapatcher/gen.go b/pkg/schemapatcher/gen.go
index a960d99..eab4cdb 100644
--- a/pkg/schemapatcher/gen.go
+++ b/pkg/schemapatcher/gen.go
@@ -186,12 +186,16 @@ func (g Generator) Generate(ctx *genall.GenerationContext) (result error) {
 
 	// write the final result out to the new location
 	for _, file := range files {
-		if err := func() error {
+		if err := func() (err error) {
 			outWriter, err := ctx.OutputRule.Open(nil, file.Name)
 			if err != nil {
 				return err
 			}
-			defer outWriter.Close()
+			defer func() {
+				if closeErr := outWriter.Close(); err == nil {
+					err = closeErr
+				}
+			}()
 
 			enc := yaml.NewEncoder(outWriter)
 			// yaml.v2 defaults to indent=2, yaml.v3 defaults to indent=4,
-- 
2.43.0


From a80d3764fc0e7eaeb7161a71f5164f1725e122d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:40 +0000
Subject: [PATCH 51/86] fix: genall: do not panic on empty options

---
 pkg/genall/options.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/genall/options.go b/pkg/genall/options.go
index 192235b..080e9f9 100644
--- a/pkg/genall/options.go
+++ b/pkg/genall/options.go
@@ -124,7 +124,7 @@ func protoFromOptions(optionsRegistry *markers.Registry, options []string) (prot
 	gensByName := make(map[string]*Generator)
 
 	for _, rawOpt := range options {
-		if rawOpt[0] != '+' {
+		if !strings.HasPrefix(rawOpt, "+") {
 			rawOpt = "+" + rawOpt // add a `+` to make it acceptable for usage with the registry
 		}
 		defn := optionsRegistry.Lookup(rawOpt, markers.DescribesPackage)
-- 
2.43.0


From 4ab1e23a8eafbfdfe4bc026ce1f6b5f5798f3c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:41 +0000
Subject: [PATCH 52/86] fix: markers: report named arguments of markers that
 take none

---
 pkg/markers/parse.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/markers/parse.go b/pkg/markers/parse.go
index 4bb048e..debe5e9 100644
--- a/pkg/markers/parse.go
+++ b/pkg/markers/parse.go
@@ -877,6 +877,11 @@ func (d *Definition) Parse(rawMarker string) (interface{}, error) {
 
 	// TODO(directxman12): strict parsing where we error out if certain fields aren't optional
 	seen := make(map[string]struct{}, len(d.Fields))
+	if d.AnonymousField() && name == d.Name && anonName != name {
+		// `a:b:c=d`, but `a:b` has no named arguments
+		scanner.Error(scanner, fmt.Sprintf("unknown argument %q", strings.TrimPrefix(anonName, name+":")))
+		return out.Interface(), loader.MaybeErrList(errs)
+	}
 	if d.AnonymousField() && scanner.Peek() != sc.EOF {
 		// might still be a struct that something fiddled with, so double check
 		structFieldName := d.FieldNames[""]
-- 
2.43.0


From d74e3bf04259538c292a1f8d9caa2b906a580f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:48 +0000
Subject: [PATCH 53/86] fix: loader: record the parse errors of a package in
 order and once

---
 pkg/loader/loader.go | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/pkg/loader/loader.go b/pkg/loader/loader.go
index 8062b72..1b3310c 100644
--- a/pkg/loader/loader.go
+++ b/pkg/loader/loader.go
@@ -105,6 +105,7 @@ func (p *Package) NeedSyntax() {
 		return
 	}
 	out := make([]*ast.File, len(p.CompiledGoFiles))
+	errs := make([]error, len(p.CompiledGoFiles))
 	var wg sync.WaitGroup
 	wg.Add(len(p.CompiledGoFiles))
 	for i, filename := range p.CompiledGoFiles {
@@ -112,22 +113,26 @@ func (p *Package) NeedSyntax() {
 			defer wg.Done()
 			src, err := os.ReadFile(filename)
 			if err != nil {
-				p.AddError(err)
-				return
-			}
-			out[i], err = p.loader.parseFile(filename, src)
-			if err != nil {
-				p.AddError(err)
+				errs[i] = err
 				return
 			}
+			out[i], errs[i] = p.loader.parseFile(filename, src)
 		}(i, filename)
 	}
 	wg.Wait()
-	for _, file := range out {
-		if file == nil {
-			return
+
+	// record the errors in the order of the files, and only once
+	hadErrs := false
+	for _, err := range errs {
+		if err != nil {
+			p.AddError(err)
+			hadErrs = true
 		}
 	}
+	if hadErrs {
+		p.Syntax = []*ast.File{}
+		return
+	}
 	p.Syntax = out
 }
 
-- 
2.43.0


From d3d99c4643f62953e06a948494bc7ade6c8ab467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:51 +0000
Subject: [PATCH 54/86] fix: loader: do not read the state of packages that are
 being checked

---
 pkg/loader/loader.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/loader/loader.go b/pkg/loader/loader.go
index 1b3310c..3bfec46 100644
--- a/pkg/loader/loader.go
+++ b/pkg/loader/loader.go
@@ -295,8 +295,11 @@ func (l *loader) typeCheck(pkg *Package) {
 	illTyped := len(errs) > 0
 	if !illTyped {
 		for _, importedPkg := range pkg.Imports() {
-			if importedPkg.IllTyped {
-				illTyped = true
+			// it might be checked in parallel, like in the importer above
+			importedPkg.Lock()
+			illTyped = importedPkg.IllTyped
+			importedPkg.Unlock()
+			if illTyped {
 				break
 			}
 		}
-- 
2.43.0


From 0a4b81c1ba925cc56a08f2ea1a958928e881fe7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:54 +0000
Subject: [PATCH 55/86] fix: loader: report import cycles instead of waiting
 forever

---
 pkg/loader/loader.go | 51 ++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 51 insertions(+)

diff --git a/pkg/loader/loader.go b/pkg/loader/loader.go
index 3bfec46..f0e3795 100644
--- a/pkg/loader/loader.go
+++ b/pkg/loader/loader.go
@@ -23,9 +23,11 @@ import (
 	"go/scanner"
 	"go/token"
 	"go/types"
+	"maps"
 	"os"
 	"path/filepath"
 	"regexp"
+	"slices"
 	"sync"
 
 	"golang.org/x/tools/go/packages"
@@ -401,6 +403,7 @@ func LoadRootsWithConfig(cfg *packages.Config, roots ...string) ([]*Package, err
 		for i := range l.Roots {
 			visitImports(l.Roots, l.Roots[i], nil)
 		}
+		cutImportCycles(l.Roots)
 	}()
 
 	// uniquePkgIDs is used to keep track of the discovered packages to be nice
@@ -632,6 +635,54 @@ func visitImports(rootPkgs []*Package, pkg *Package, seen sets.Set[string]) {
 	}
 }
 
+// cutImportCycles removes the imports that are part of an import cycle from the
+// dependency graph, and reports them, since packages are type-checked after the
+// packages that they import.
+func cutImportCycles(rootPkgs []*Package) {
+	var (
+		index  = make(map[*Package]int)
+		low    = make(map[*Package]int)
+		cycle  = make(map[*Package]int) // the finished packages, by cycle
+		stack  []*Package
+		cycles int
+		visit  func(pkg *Package)
+	)
+	visit = func(pkg *Package) {
+		index[pkg] = len(index) + 1
+		low[pkg] = index[pkg]
+		start := len(stack)
+		stack = append(stack, pkg)
+		for _, imported := range pkg.Imports() {
+			if index[imported] == 0 {
+				visit(imported)
+			}
+			if cycle[imported] == 0 {
+				low[pkg] = min(low[pkg], low[imported])
+			}
+		}
+		if low[pkg] == index[pkg] {
+			cycles++
+			for _, member := range stack[start:] {
+				cycle[member] = cycles
+			}
+			stack = stack[:start]
+		}
+	}
+	for _, pkg := range rootPkgs {
+		if index[pkg] == 0 {
+			visit(pkg)
+		}
+	}
+	for pkg := range index {
+		for _, path := range slices.Sorted(maps.Keys(pkg.Imports())) {
+			if imported := pkg.Imports()[path]; cycle[imported] == cycle[pkg] {
+				pkg.AddError(fmt.Errorf("import cycle not allowed: %q imports %q", pkg.PkgPath, path))
+				delete(pkg.imports, path)
+			}
+		}
+	}
+}
+
 // importFunc is an implementation of the single-method
 // types.Importer interface based on a function value.
 type importerFunc func(path string) (*types.Package, error)
-- 
2.43.0


From bd4a29cbf1f2e98e7281f91e7d0bc7fa4881cecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:24 +0000
Subject: [PATCH 56/86] fix: loader: check packages that array lengths and
 constraints refer to

---
 pkg/loader/refs.go | 94 +++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 93 insertions(+), 1 deletion(-)

diff --git a/pkg/loader/refs.go b/pkg/loader/refs.go
index f58a29f..455d698 100644
--- a/pkg/loader/refs.go
+++ b/pkg/loader/refs.go
@@ -19,6 +19,7 @@ package loader
 import (
 	"fmt"
 	"go/ast"
+	"go/token"
 	"strconv"
 	"sync"
 )
@@ -82,6 +83,8 @@ type referenceSet struct {
 	file    *ast.File
 	imports *importsMap
 	pkg     *Package
+	// values are the package-level constants and variables of the package.
+	values packageValues
 
 	externalRefs map[*Package]struct{}
 }
@@ -92,12 +95,46 @@ func (r *referenceSet) init() {
 	}
 }
 
+// packageValues maps the names of package-level constants and variables to the
+// expressions that make up their values and types.
+type packageValues map[string]packageValue
+
+// packageValue is the type and value of a package-level constant or variable.
+type packageValue struct {
+	refs  *referenceSet
+	exprs []ast.Expr
+}
+
+// addFrom adds all constants and variables from the given file.
+func (v packageValues) addFrom(file *ast.File, refs *referenceSet) {
+	for _, decl := range file.Decls {
+		genDecl, ok := decl.(*ast.GenDecl)
+		if !ok || (genDecl.Tok != token.CONST && genDecl.Tok != token.VAR) {
+			continue
+		}
+		var exprs []ast.Expr
+		for _, spec := range genDecl.Specs {
+			valueSpec := spec.(*ast.ValueSpec)
+			if valueSpec.Type != nil || len(valueSpec.Values) > 0 {
+				// constants without either repeat those of the previous one
+				exprs = append([]ast.Expr(nil), valueSpec.Values...)
+				if valueSpec.Type != nil {
+					exprs = append(exprs, valueSpec.Type)
+				}
+			}
+			for _, name := range valueSpec.Names {
+				v[name.Name] = packageValue{refs: refs, exprs: exprs}
+			}
+		}
+	}
+}
+
 // NodeFilter filters nodes, accepting them for reference collection
 // when true is returned and rejecting them when false is returned.
 type NodeFilter func(ast.Node) bool
 
 // collectReferences saves all references to external types in the given info.
-func (r *referenceSet) collectReferences(rawType ast.Expr, filterNode NodeFilter) {
+func (r *referenceSet) collectReferences(rawType ast.Node, filterNode NodeFilter) {
 	r.init()
 	col := &referenceCollector{
 		refs:       r,
@@ -131,6 +168,13 @@ func (c *referenceCollector) Visit(node ast.Node) ast.Visitor {
 	case *ast.Ident:
 		// local reference or dot-import, ignore
 		return nil
+	case *ast.ArrayType:
+		// the length may come from elsewhere, via local constants
+		if typedNode.Len != nil {
+			ast.Walk(&valueReferenceCollector{refs: c.refs, seen: make(map[string]struct{})}, typedNode.Len)
+		}
+		ast.Walk(c, typedNode.Elt)
+		return nil
 	case *ast.SelectorExpr:
 		switch x := typedNode.X.(type) {
 		case *ast.Ident:
@@ -145,10 +189,53 @@ func (c *referenceCollector) Visit(node ast.Node) ast.Visitor {
 	}
 }
 
+// valueReferenceCollector visits the nodes of an expression that is evaluated
+// when type-checking, adding external references to a referenceSet, and follows
+// the package-level constants and variables that are used in it.
+type valueReferenceCollector struct {
+	refs *referenceSet
+	seen map[string]struct{}
+}
+
+func (c *valueReferenceCollector) Visit(node ast.Node) ast.Visitor {
+	switch typedNode := node.(type) {
+	case *ast.Ident:
+		c.follow(typedNode.Name)
+		return nil
+	case *ast.SelectorExpr:
+		if x, isIdent := typedNode.X.(*ast.Ident); isIdent {
+			if pkg := c.refs.imports.byName[x.Name]; pkg != nil {
+				c.refs.externalRefs[pkg] = struct{}{}
+			} else {
+				c.follow(x.Name)
+			}
+			return nil
+		}
+		ast.Walk(c, typedNode.X)
+		return nil
+	default:
+		return c
+	}
+}
+
+// follow collects the references of the package-level value with the given name, if any.
+func (c *valueReferenceCollector) follow(name string) {
+	value, isValue := c.refs.values[name]
+	if _, seen := c.seen[name]; !isValue || seen {
+		return
+	}
+	c.seen[name] = struct{}{}
+	value.refs.init()
+	for _, expr := range value.exprs {
+		ast.Walk(&valueReferenceCollector{refs: value.refs, seen: c.seen}, expr)
+	}
+}
+
 // allReferencedPackages finds all directly referenced packages in the given package.
 func allReferencedPackages(pkg *Package, filterNodes NodeFilter) []*Package {
 	pkg.NeedSyntax()
 	refsByFile := make(map[*ast.File]*referenceSet)
+	values := make(packageValues)
 	for _, file := range pkg.Syntax {
 		imports, err := mapImports(file, pkg.Imports())
 		if err != nil {
@@ -159,12 +246,17 @@ func allReferencedPackages(pkg *Package, filterNodes NodeFilter) []*Package {
 			file:    file,
 			imports: imports,
 			pkg:     pkg,
+			values:  values,
 		}
 		refsByFile[file] = refs
+		values.addFrom(file, refs)
 	}
 
 	EachType(pkg, func(file *ast.File, _ *ast.GenDecl, spec *ast.TypeSpec) {
 		refs := refsByFile[file]
+		if spec.TypeParams != nil {
+			refs.collectReferences(spec.TypeParams, filterNodes)
+		}
 		refs.collectReferences(spec.Type, filterNodes)
 	})
 
-- 
2.43.0


From 95690359d8a64dc802c80de7133e245af8ece716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:57 +0000
Subject: [PATCH 57/86] fix: loader: accept paths of Go files

---
 pkg/loader/loader.go | 66 +++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 62 insertions(+), 4 deletions(-)

diff --git a/pkg/loader/loader.go b/pkg/loader/loader.go
index f0e3795..f1b4264 100644
--- a/pkg/loader/loader.go
+++ b/pkg/loader/loader.go
@@ -28,6 +28,7 @@ import (
 	"path/filepath"
 	"regexp"
 	"slices"
+	"strings"
 	"sync"
 
 	"golang.org/x/tools/go/packages"
@@ -366,6 +367,9 @@ func LoadRoots(roots ...string) ([]*Package, error) {
 //     For more information please refer to the output of the command
 //     "go help packages".
 //
+//     Roots that are Go files are loaded together with the others from
+//     the same directory, from that directory.
+//
 //  3. Load the package/module roots as a single call to packages.Load. If
 //     there are no filesystem path roots then return early.
 //
@@ -429,9 +433,14 @@ func LoadRootsWithConfig(cfg *packages.Config, roots ...string) ([]*Package, err
 		var pkgs []*Package
 		for _, rp := range rawPkgs {
 			p := l.packageFor(rp)
-			if !uniquePkgIDs.Has(p.ID) {
+			id := p.ID
+			if isGoFile(l.cfg.Dir, roots...) {
+				// packages that are made up of listed files all have the same ID
+				id = filepath.Join(l.cfg.Dir, id)
+			}
+			if !uniquePkgIDs.Has(id) {
 				pkgs = append(pkgs, p)
-				uniquePkgIDs.Insert(p.ID)
+				uniquePkgIDs.Insert(id)
 			}
 		}
 		return pkgs, nil
@@ -448,16 +457,34 @@ func LoadRootsWithConfig(cfg *packages.Config, roots ...string) ([]*Package, err
 	}
 
 	// pkgRoots is a slice of roots that are package/modules and fspRoots
-	// is a slice of roots that are local filesystem paths.
+	// is a slice of roots that are local filesystem paths. The roots that
+	// are Go files are in fileRoots, by their directory, since the files of
+	// one directory make up one package.
 	//
 	// please refer to this function's godoc comments for more information on
 	// how these two types of roots are distinguished from one another
 	var (
 		pkgRoots  []string
 		fspRoots  []string
+		fileDirs  []string
+		fileRoots = map[string][]string{}
 		fspRootRx = regexp.MustCompile(`^\.{1,2}`)
 	)
 	for _, r := range roots {
+		if isGoFile(cfg.Dir, r) {
+			dir, err := filepath.Abs(filepath.Dir(inDir(cfg.Dir, r)))
+			if err != nil {
+				return nil, err
+			}
+			if _, ok := fileRoots[dir]; !ok {
+				fileDirs = append(fileDirs, dir)
+			}
+			file := "." + string(filepath.Separator) + filepath.Base(r)
+			if !slices.Contains(fileRoots[dir], file) {
+				fileRoots[dir] = append(fileRoots[dir], file)
+			}
+			continue
+		}
 		if filepath.IsAbs(r) || fspRootRx.MatchString(r) {
 			fspRoots = append(fspRoots, r)
 		} else {
@@ -478,7 +505,7 @@ func LoadRootsWithConfig(cfg *packages.Config, roots ...string) ([]*Package, err
 	}
 
 	// if there are no filesystem path roots then go ahead and return early
-	if len(fspRoots) == 0 {
+	if len(fspRoots) == 0 && len(fileDirs) == 0 {
 		return l.Roots, nil
 	}
 
@@ -515,6 +542,16 @@ func LoadRootsWithConfig(cfg *packages.Config, roots ...string) ([]*Package, err
 		return nil
 	}
 
+	// load the Go files of each directory from there
+	for _, dir := range fileDirs {
+		l.cfg.Dir = dir
+		pkgs, err := loadPackages(fileRoots[dir]...)
+		if err != nil {
+			return nil, err
+		}
+		l.Roots = append(l.Roots, pkgs...)
+	}
+
 	// in the first pass over the filesystem path roots we:
 	//
 	//    1. make the root into an absolute path
@@ -614,6 +651,27 @@ func LoadRootsWithConfig(cfg *packages.Config, roots ...string) ([]*Package, err
 	return l.Roots, nil
 }
 
+// inDir returns the path relative to the given directory (the working directory, if empty).
+func inDir(dir, path string) string {
+	if dir == "" || filepath.IsAbs(path) {
+		return path
+	}
+	return filepath.Join(dir, path)
+}
+
+// isGoFile checks whether all the given roots are Go files, like the "go" command does.
+func isGoFile(dir string, roots ...string) bool {
+	for _, r := range roots {
+		if !strings.HasSuffix(r, ".go") {
+			return false
+		}
+		if fi, err := os.Stat(inDir(dir, r)); err != nil || fi.IsDir() {
+			return false
+		}
+	}
+	return len(roots) > 0
+}
+
 // visitImports walks a dependency graph, replacing imported package
 // references with those from the rootPkgs list. This ensures the
 // kubebuilder marker generation is handled correctly. For more info,
-- 
2.43.0


From eda9e0985f926e4b8b3d79ea28996e1acc82d52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:22 +0000
Subject: [PATCH 58/86] fix: markers: keep accepting := before the value of a
 marker

---
 pkg/markers/parse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/markers/parse.go b/pkg/markers/parse.go
index debe5e9..7151c28 100644
--- a/pkg/markers/parse.go
+++ b/pkg/markers/parse.go
@@ -877,8 +877,8 @@ func (d *Definition) Parse(rawMarker string) (interface{}, error) {
 
 	// TODO(directxman12): strict parsing where we error out if certain fields aren't optional
 	seen := make(map[string]struct{}, len(d.Fields))
-	if d.AnonymousField() && name == d.Name && anonName != name {
-		// `a:b:c=d`, but `a:b` has no named arguments
+	if d.AnonymousField() && name == d.Name && anonName != name && anonName != name+":" {
+		// `a:b:c=d`, but `a:b` has no named arguments (`a:b:=d` gives the value itself)
 		scanner.Error(scanner, fmt.Sprintf("unknown argument %q", strings.TrimPrefix(anonName, name+":")))
 		return out.Interface(), loader.MaybeErrList(errs)
 	}
-- 
2.43.0


From 5e7117c268f6e2f761f46b4799144aaee343b360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:15 +0000
Subject: [PATCH 59/86] fix: deepcopy: look through aliases

---
 pkg/deepcopy/traverse.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pkg/deepcopy/traverse.go b/pkg/deepcopy/traverse.go
index b7bed1d..0cc5c4e 100644
--- a/pkg/deepcopy/traverse.go
+++ b/pkg/deepcopy/traverse.go
@@ -347,7 +347,7 @@ func (c *copyMethodMaker) genMapDeepCopy(actualName *namingInfo, mapType *types.
 		switch {
 		case hasDeepCopyInto || hasDeepCopy:
 			// use the manually-written methods
-			_, fieldIsPtr := mapType.Elem().(*types.Pointer)                       // is "out" actually a pointer
+			_, fieldIsPtr := types.Unalias(mapType.Elem()).(*types.Pointer)        // is "out" actually a pointer
 			inIsPtr := resultWillBePointer(mapType.Elem(), hasDeepCopy, copyOnPtr) // does copying "in" produce a pointer
 			if hasDeepCopy {
 				// If we're calling DeepCopy, check if it's receiver needs a pointer
@@ -461,7 +461,7 @@ func (c *copyMethodMaker) genStructDeepCopy(_ *namingInfo, structType *types.Str
 			// never execute there, because they're pretty clearly invalid
 			// syntax).
 
-			_, fieldIsPtr := field.Type().(*types.Pointer)
+			_, fieldIsPtr := types.Unalias(field.Type()).(*types.Pointer)
 			inIsPtr := resultWillBePointer(field.Type(), hasDeepCopy, copyOnPtr)
 			if fieldIsPtr {
 				// we'll need a if block to check for nilness
@@ -567,7 +567,7 @@ func (c *copyMethodMaker) genPointerDeepCopy(_ *namingInfo, pointerType *types.P
 // usePtrReceiver checks if we need a pointer receiver on methods for the given type
 // Pass-by-reference types don't get pointer receivers.
 func usePtrReceiver(typeInfo types.Type) bool {
-	switch typeInfo.(type) {
+	switch types.Unalias(typeInfo).(type) {
 	case *types.Pointer:
 		return false
 	case *types.Map:
@@ -588,7 +588,7 @@ func resultWillBePointer(typeInfo types.Type, hasDeepCopy, deepCopyOnPtr bool) b
 	}
 
 	// otherwise, we'll need to check its type
-	switch typeInfo := typeInfo.(type) {
+	switch typeInfo := types.Unalias(typeInfo).(type) {
 	case *types.Pointer:
 		// NB(directxman12): we don't have to worry about the elem having a deepcopy,
 		// since hasManualDeepCopy would've caught that.
@@ -754,7 +754,7 @@ func eventualUnderlyingType(typeInfo types.Type) types.Type {
 
 // fineToShallowCopy checks if a shallow-copying a type is equivalent to deepcopy-ing it.
 func fineToShallowCopy(typeInfo types.Type) bool {
-	switch typeInfo := typeInfo.(type) {
+	switch typeInfo := types.Unalias(typeInfo).(type) {
 	case *types.Basic:
 		// basic types (int, string, etc) are always fine to shallow-copy,
 		// except for Invalid and UnsafePointer, which can't be copied at all.
-- 
2.43.0


From 1136e32ddbe18d8257df064955b973c59f1294a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:16 +0000
Subject: [PATCH 60/86] fix: deepcopy: skip blank fields

---
 pkg/deepcopy/traverse.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/deepcopy/traverse.go b/pkg/deepcopy/traverse.go
index 0cc5c4e..654c531 100644
--- a/pkg/deepcopy/traverse.go
+++ b/pkg/deepcopy/traverse.go
@@ -449,6 +449,10 @@ func (c *copyMethodMaker) genStructDeepCopy(_ *namingInfo, structType *types.Str
 
 	for i := 0; i < structType.NumFields(); i++ {
 		field := structType.Field(i)
+		if field.Name() == "_" {
+			// blank fields can't be referred to
+			continue
+		}
 
 		// if we have a manual deepcopy, use that
 		hasDeepCopy, copyOnPtr := hasDeepCopyMethod(c.pkg, field.Type())
-- 
2.43.0


From 23a59cf75c853e3efdbac1d074e260dc51e3cb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:16 +0000
Subject: [PATCH 61/86] fix: deepcopy: do not crash on predeclared types

---
 pkg/deepcopy/traverse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/deepcopy/traverse.go b/pkg/deepcopy/traverse.go
index 654c531..24f2aff 100644
--- a/pkg/deepcopy/traverse.go
+++ b/pkg/deepcopy/traverse.go
@@ -198,7 +198,7 @@ func (n *namingInfo) Syntax(basePkg *loader.Package, imports *importsList) strin
 	// register that we need an import for this type,
 	// so we can get the appropriate alias to use.
 	otherPkg := typeName.Pkg()
-	if otherPkg == basePkg.Types {
+	if otherPkg == nil || otherPkg == basePkg.Types {
 		// local import
 		return typeName.Name()
 	}
-- 
2.43.0


From 08646142690aea35777dd9f0c0064b3a8806ff34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:16 +0000
Subject: [PATCH 62/86] fix: deepcopy: copy pointers, interfaces and named
 types in pointers, slices and maps

---
 pkg/deepcopy/traverse.go | 48 +++++++++++++++++++++++++++++++---------
 1 file changed, 38 insertions(+), 10 deletions(-)

diff --git a/pkg/deepcopy/traverse.go b/pkg/deepcopy/traverse.go
index 24f2aff..798414b 100644
--- a/pkg/deepcopy/traverse.go
+++ b/pkg/deepcopy/traverse.go
@@ -291,6 +291,11 @@ func (c *copyMethodMaker) genDeepCopyIntoBlock(actualName *namingInfo, typeInfo
 	// In that case (when we're not dealing with a pointer, since those need special handling
 	// to match 1-to-1 with k8s deepcopy-gen), just use that.
 	if _, isPtr := last.(*types.Pointer); !isPtr && hasAnyDeepCopyMethod(c.pkg, typeInfo) {
+		if _, isIface := last.(*types.Interface); isIface {
+			// a pointer to an interface has no methods
+			c.Line("*out = (*in).DeepCopy()")
+			return
+		}
 		c.Line("*out = in.DeepCopy()")
 		return
 	}
@@ -344,8 +349,12 @@ func (c *copyMethodMaker) genMapDeepCopy(actualName *namingInfo, mapType *types.
 		// in which case we'll just try and use those
 		hasDeepCopy, copyOnPtr := hasDeepCopyMethod(c.pkg, mapType.Elem())
 		hasDeepCopyInto := hasDeepCopyIntoMethod(c.pkg, mapType.Elem())
+		pointedTo := mapType.Elem()
+		if ptr, isPtr := types.Unalias(mapType.Elem()).(*types.Pointer); isPtr {
+			pointedTo = ptr.Elem()
+		}
 		switch {
-		case hasDeepCopyInto || hasDeepCopy:
+		case (hasDeepCopyInto || hasDeepCopy) && !needsNilCheck(c.pkg, pointedTo):
 			// use the manually-written methods
 			_, fieldIsPtr := types.Unalias(mapType.Elem()).(*types.Pointer)        // is "out" actually a pointer
 			inIsPtr := resultWillBePointer(mapType.Elem(), hasDeepCopy, copyOnPtr) // does copying "in" produce a pointer
@@ -374,8 +383,12 @@ func (c *copyMethodMaker) genMapDeepCopy(actualName *namingInfo, mapType *types.
 			underlyingElem := eventualUnderlyingType(mapType.Elem())
 
 			// if it passes by reference, let the main switch handle it
-			if passesByReference(underlyingElem) {
-				c.Linef("var outVal %[1]s", (&namingInfo{typeInfo: underlyingElem}).Syntax(c.pkg, c.importsList))
+			if passesByReference(underlyingElem) || needsNilCheck(c.pkg, mapType.Elem()) {
+				outType := underlyingElem
+				if _, isIface := underlyingElem.(*types.Interface); isIface {
+					outType = mapType.Elem()
+				}
+				c.Linef("var outVal %[1]s", (&namingInfo{typeInfo: outType}).Syntax(c.pkg, c.importsList))
 				c.IfElse("val == nil", func() {
 					c.Line("(*out)[key] = nil")
 				}, func() {
@@ -411,7 +424,7 @@ func (c *copyMethodMaker) genSliceDeepCopy(actualName *namingInfo, sliceType *ty
 
 	// check if we need to do anything special, or just copy each element appropriately
 	switch {
-	case hasAnyDeepCopyMethod(c.pkg, sliceType.Elem()):
+	case hasAnyDeepCopyMethod(c.pkg, sliceType.Elem()) && !needsNilCheck(c.pkg, sliceType.Elem()):
 		// just use deepcopy if it's present (deepcopyinto will be filled in by our code)
 		c.For("i := range *in", func() {
 			c.Line("(*in)[i].DeepCopyInto(&(*out)[i])")
@@ -423,7 +436,7 @@ func (c *copyMethodMaker) genSliceDeepCopy(actualName *namingInfo, sliceType *ty
 		// copy each element appropriately
 		c.For("i := range *in", func() {
 			// fall back to normal code for reference types or those with custom logic
-			if passesByReference(underlyingElem) || hasAnyDeepCopyMethod(c.pkg, sliceType.Elem()) {
+			if passesByReference(underlyingElem) || needsNilCheck(c.pkg, sliceType.Elem()) {
 				c.If("(*in)[i] != nil", func() {
 					c.Line("in, out := &(*in)[i], &(*out)[i]")
 					c.genDeepCopyIntoBlock(&namingInfo{typeInfo: sliceType.Elem()}, sliceType.Elem())
@@ -467,7 +480,7 @@ func (c *copyMethodMaker) genStructDeepCopy(_ *namingInfo, structType *types.Str
 
 			_, fieldIsPtr := types.Unalias(field.Type()).(*types.Pointer)
 			inIsPtr := resultWillBePointer(field.Type(), hasDeepCopy, copyOnPtr)
-			if fieldIsPtr {
+			if fieldIsPtr || needsNilCheck(c.pkg, field.Type()) {
 				// we'll need a if block to check for nilness
 				// we'll let genDeepCopyIntoBlock handle the details, we just needed the setup
 				c.If(fmt.Sprintf("in.%s != nil", field.Name()), func() {
@@ -526,7 +539,7 @@ func (c *copyMethodMaker) genPointerDeepCopy(_ *namingInfo, pointerType *types.P
 	// if we have a manually written deepcopy, just use that
 	hasDeepCopy, copyOnPtr := hasDeepCopyMethod(c.pkg, pointerType.Elem())
 	hasDeepCopyInto := hasDeepCopyIntoMethod(c.pkg, pointerType.Elem())
-	if hasDeepCopyInto || hasDeepCopy {
+	if (hasDeepCopyInto || hasDeepCopy) && !needsNilCheck(c.pkg, pointerType.Elem()) {
 		outNeedsPtr := resultWillBePointer(pointerType.Elem(), hasDeepCopy, copyOnPtr)
 		if hasDeepCopy {
 			outNeedsPtr = copyOnPtr
@@ -548,11 +561,11 @@ func (c *copyMethodMaker) genPointerDeepCopy(_ *namingInfo, pointerType *types.P
 	}
 
 	// pass-by-reference types get delegated to the main switch
-	if passesByReference(underlyingElem) {
-		c.Linef("*out = new(%s)", (&namingInfo{typeInfo: underlyingElem}).Syntax(c.pkg, c.importsList))
+	if passesByReference(underlyingElem) || needsNilCheck(c.pkg, pointerType.Elem()) {
+		c.Linef("*out = new(%s)", (&namingInfo{typeInfo: pointerType.Elem()}).Syntax(c.pkg, c.importsList))
 		c.If("**in != nil", func() {
 			c.Line("in, out := *in, *out")
-			c.genDeepCopyIntoBlock(&namingInfo{typeInfo: underlyingElem}, eventualUnderlyingType(underlyingElem))
+			c.genDeepCopyIntoBlock(&namingInfo{typeInfo: pointerType.Elem()}, pointerType.Elem())
 		})
 		return
 	}
@@ -785,6 +798,21 @@ func fineToShallowCopy(typeInfo types.Type) bool {
 	}
 }
 
+// needsNilCheck checks if the given type has values that are nil and must not
+// have their manual deepcopy methods called: pointers, and interfaces with a
+// DeepCopy method.
+func needsNilCheck(pkg *loader.Package, typeInfo types.Type) bool {
+	switch eventualUnderlyingType(typeInfo).(type) {
+	case *types.Pointer:
+		return true
+	case *types.Interface:
+		hasDeepCopy, _ := hasDeepCopyMethod(pkg, typeInfo)
+		return hasDeepCopy
+	default:
+		return false
+	}
+}
+
 // passesByReference checks if the given type passesByReference
 // (except for interfaces, which are handled separately).
 func passesByReference(typeInfo types.Type) bool {
-- 
2.43.0


From 1417709daab5685cd30dcdc49f3551dcc7110e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:35 +0000
Subject: [PATCH 63/86] fix: deepcopy: handle named pointer types

---
 pkg/deepcopy/traverse.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/pkg/deepcopy/traverse.go b/pkg/deepcopy/traverse.go
index 798414b..178fe6d 100644
--- a/pkg/deepcopy/traverse.go
+++ b/pkg/deepcopy/traverse.go
@@ -533,9 +533,15 @@ func (c *copyMethodMaker) genStructDeepCopy(_ *namingInfo, structType *types.Str
 
 // genPointerDeepCopy generates DeepCopy code for the given named type whose
 // underlying type is the given struct.
-func (c *copyMethodMaker) genPointerDeepCopy(_ *namingInfo, pointerType *types.Pointer) {
+func (c *copyMethodMaker) genPointerDeepCopy(actualName *namingInfo, pointerType *types.Pointer) {
 	underlyingElem := eventualUnderlyingType(pointerType.Elem())
 
+	// named pointer types don't have the methods of what they point to
+	inPtr := "(*in)"
+	if _, isNamed := types.Unalias(actualName.typeInfo).(*types.Named); isNamed {
+		inPtr = "(**in)"
+	}
+
 	// if we have a manually written deepcopy, just use that
 	hasDeepCopy, copyOnPtr := hasDeepCopyMethod(c.pkg, pointerType.Elem())
 	hasDeepCopyInto := hasDeepCopyIntoMethod(c.pkg, pointerType.Elem())
@@ -545,9 +551,9 @@ func (c *copyMethodMaker) genPointerDeepCopy(_ *namingInfo, pointerType *types.P
 			outNeedsPtr = copyOnPtr
 		}
 		if outNeedsPtr {
-			c.Line("*out = (*in).DeepCopy()")
+			c.Linef("*out = %s.DeepCopy()", inPtr)
 		} else {
-			c.Line("x := (*in).DeepCopy()")
+			c.Linef("x := %s.DeepCopy()", inPtr)
 			c.Line("*out = &x")
 		}
 		return
@@ -574,7 +580,7 @@ func (c *copyMethodMaker) genPointerDeepCopy(_ *namingInfo, pointerType *types.P
 	switch underlyingElem := underlyingElem.(type) {
 	case *types.Struct:
 		c.Linef("*out = new(%[1]s)", (&namingInfo{typeInfo: pointerType.Elem()}).Syntax(c.pkg, c.importsList))
-		c.Line("(*in).DeepCopyInto(*out)")
+		c.Linef("%s.DeepCopyInto(*out)", inPtr)
 	default:
 		c.pkg.AddError(fmt.Errorf("invalid pointer element type: %s", underlyingElem))
 		return
@@ -644,9 +650,9 @@ func shouldBeCopied(pkg *loader.Package, info *markers.TypeInfo) bool {
 	if _, isNamed := typeInfo.(*types.Named); isNamed {
 		// according to gengo, everything named is an alias, except for an alias to a pointer,
 		// which is just a pointer, afaict.  Just roll with it.
-		if asPtr, isPtr := typeInfo.(*types.Named).Underlying().(*types.Pointer); isPtr {
-			lastType = asPtr
-			typeInfo = asPtr
+		// Pointers can't have methods, though.
+		if _, isPtr := typeInfo.(*types.Named).Underlying().(*types.Pointer); isPtr {
+			return false
 		}
 
 		// if it has a manual deepcopy or deepcopyinto, we're fine
-- 
2.43.0


From a1f99f84665c3657deaf360ed9f0bbe36720089b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:35 +0000
Subject: [PATCH 64/86] fix: deepcopy: report types that contain themselves
 instead of overflowing the stack

---
 pkg/deepcopy/traverse.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pkg/deepcopy/traverse.go b/pkg/deepcopy/traverse.go
index 178fe6d..37d6acb 100644
--- a/pkg/deepcopy/traverse.go
+++ b/pkg/deepcopy/traverse.go
@@ -210,6 +210,8 @@ func (n *namingInfo) Syntax(basePkg *loader.Package, imports *importsList) strin
 // writing them to its codeWriter.
 type copyMethodMaker struct {
 	pkg *loader.Package
+	// expanding are the types whose code is being written.
+	expanding []types.Type
 	*importsList
 	*codeWriter
 }
@@ -300,6 +302,17 @@ func (c *copyMethodMaker) genDeepCopyIntoBlock(actualName *namingInfo, typeInfo
 		return
 	}
 
+	// maps, slices and pointers have their code written in place, which can't
+	// be done if they contain themselves.
+	for _, outer := range c.expanding {
+		if types.Identical(outer, typeInfo) {
+			c.pkg.AddError(fmt.Errorf("recursive type without structs needs a DeepCopy method: %s", typeInfo))
+			return
+		}
+	}
+	c.expanding = append(c.expanding, typeInfo)
+	defer func() { c.expanding = c.expanding[:len(c.expanding)-1] }()
+
 	switch last := last.(type) {
 	case *types.Basic:
 		switch last.Kind() {
-- 
2.43.0


From 8c7b6b9484dfd52cd2f46818bdac39a8c973285a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:36 +0000
Subject: [PATCH 65/86] fix: deepcopy: report unnamed struct types that have no
 methods

---
 pkg/deepcopy/traverse.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pkg/deepcopy/traverse.go b/pkg/deepcopy/traverse.go
index 37d6acb..a8cd39c 100644
--- a/pkg/deepcopy/traverse.go
+++ b/pkg/deepcopy/traverse.go
@@ -418,6 +418,7 @@ func (c *copyMethodMaker) genMapDeepCopy(actualName *namingInfo, mapType *types.
 			switch underlyingElem := underlyingElem.(type) {
 			case *types.Struct:
 				// structs will have deepcopy generated for them, so use that
+				c.needNamed(mapType.Elem())
 				c.Line("(*out)[key] = *val.DeepCopy()")
 			default:
 				c.pkg.AddError(fmt.Errorf("invalid map value type: %s", underlyingElem))
@@ -460,6 +461,7 @@ func (c *copyMethodMaker) genSliceDeepCopy(actualName *namingInfo, sliceType *ty
 			switch underlyingElem.(type) {
 			case *types.Struct:
 				// structs will always have deepcopy
+				c.needNamed(sliceType.Elem())
 				c.Linef("(*in)[i].DeepCopyInto(&(*out)[i])")
 			default:
 				c.pkg.AddError(fmt.Errorf("invalid slice element type: %s", underlyingElem))
@@ -535,6 +537,7 @@ func (c *copyMethodMaker) genStructDeepCopy(_ *namingInfo, structType *types.Str
 			if fineToShallowCopy(field.Type()) {
 				c.Linef("out.%[1]s = in.%[1]s", field.Name())
 			} else {
+				c.needNamed(field.Type())
 				c.Linef("in.%[1]s.DeepCopyInto(&out.%[1]s)", field.Name())
 			}
 		default:
@@ -544,6 +547,13 @@ func (c *copyMethodMaker) genStructDeepCopy(_ *namingInfo, structType *types.Str
 	}
 }
 
+// needNamed reports struct types without a name, which can't have methods.
+func (c *copyMethodMaker) needNamed(typeInfo types.Type) {
+	if _, isNamed := types.Unalias(typeInfo).(*types.Named); !isNamed {
+		c.pkg.AddError(fmt.Errorf("struct type without a name cannot have a DeepCopy method: %s", typeInfo))
+	}
+}
+
 // genPointerDeepCopy generates DeepCopy code for the given named type whose
 // underlying type is the given struct.
 func (c *copyMethodMaker) genPointerDeepCopy(actualName *namingInfo, pointerType *types.Pointer) {
@@ -592,6 +602,7 @@ func (c *copyMethodMaker) genPointerDeepCopy(actualName *namingInfo, pointerType
 	// otherwise...
 	switch underlyingElem := underlyingElem.(type) {
 	case *types.Struct:
+		c.needNamed(pointerType.Elem())
 		c.Linef("*out = new(%[1]s)", (&namingInfo{typeInfo: pointerType.Elem()}).Syntax(c.pkg, c.importsList))
 		c.Linef("%s.DeepCopyInto(*out)", inPtr)
 	default:
-- 
2.43.0


From da8bc48d553a1fd89cd250b5520c0754c4d3794f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:36 +0000
Subject: [PATCH 66/86] fix: deepcopy: report generic types and write the
 arguments of instances

---
 pkg/deepcopy/traverse.go | 37 ++++++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/pkg/deepcopy/traverse.go b/pkg/deepcopy/traverse.go
index a8cd39c..c523648 100644
--- a/pkg/deepcopy/traverse.go
+++ b/pkg/deepcopy/traverse.go
@@ -174,11 +174,14 @@ func (n *namingInfo) Syntax(basePkg *loader.Package, imports *importsList) strin
 	// NB(directxman12): typeInfo.String gets us most of the way there,
 	// but fails (for us) on named imports, since it uses the full package path.
 	var typeName *types.TypeName
+	var typeArgs string
 	switch typeInfo := n.typeInfo.(type) {
 	case *types.Alias:
 		typeName = typeInfo.Obj()
+		typeArgs = typeArgsSyntax(typeInfo.TypeArgs(), basePkg, imports)
 	case *types.Named:
 		typeName = typeInfo.Obj()
+		typeArgs = typeArgsSyntax(typeInfo.TypeArgs(), basePkg, imports)
 	case *types.Basic:
 		return typeInfo.String()
 	case *types.Pointer:
@@ -200,10 +203,22 @@ func (n *namingInfo) Syntax(basePkg *loader.Package, imports *importsList) strin
 	otherPkg := typeName.Pkg()
 	if otherPkg == nil || otherPkg == basePkg.Types {
 		// local import
-		return typeName.Name()
+		return typeName.Name() + typeArgs
 	}
 	alias := imports.NeedImport(loader.NonVendorPath(otherPkg.Path()))
-	return alias + "." + typeName.Name()
+	return alias + "." + typeName.Name() + typeArgs
+}
+
+// typeArgsSyntax calculates the code representation of the given type arguments.
+func typeArgsSyntax(args *types.TypeList, basePkg *loader.Package, imports *importsList) string {
+	if args.Len() == 0 {
+		return ""
+	}
+	names := make([]string, args.Len())
+	for i := range names {
+		names[i] = (&namingInfo{typeInfo: args.At(i)}).Syntax(basePkg, imports)
+	}
+	return "[" + strings.Join(names, ", ") + "]"
 }
 
 // copyMethodMakers makes DeepCopy (and related) methods for Go types,
@@ -671,7 +686,15 @@ func shouldBeCopied(pkg *loader.Package, info *markers.TypeInfo) bool {
 	}
 
 	lastType := typeInfo
-	if _, isNamed := typeInfo.(*types.Named); isNamed {
+	if named, isNamed := typeInfo.(*types.Named); isNamed {
+		if named.TypeParams().Len() > 0 {
+			if hasDeepCopy, _ := hasDeepCopyMethod(pkg, typeInfo); hasDeepCopy && hasDeepCopyIntoMethod(pkg, typeInfo) {
+				// nothing left to do
+				return false
+			}
+			pkg.AddError(loader.ErrFromNode(fmt.Errorf("generic types are not supported: %s", info.Name), info.RawSpec))
+			return false
+		}
 		// according to gengo, everything named is an alias, except for an alias to a pointer,
 		// which is just a pointer, afaict.  Just roll with it.
 		// Pointers can't have methods, though.
@@ -736,10 +759,10 @@ func hasDeepCopyMethod(pkg *loader.Package, typeInfo types.Type) (bool, bool) {
 			return false, false
 		}
 
-		if recvAsPtr.Elem() != resultPtr.Elem() {
+		if !types.Identical(recvAsPtr.Elem(), resultPtr.Elem()) {
 			return false, false
 		}
-	} else if methodSig.Results().At(0).Type() != methodSig.Recv().Type() {
+	} else if !types.Identical(methodSig.Results().At(0).Type(), methodSig.Recv().Type()) {
 		return false, false
 	}
 
@@ -774,9 +797,9 @@ func hasDeepCopyIntoMethod(pkg *loader.Package, typeInfo types.Type) bool {
 		// have the same underlying type, for some reason (probably that
 		// LookupFieldOrMethod calls types.NewPointer for us), so check the
 		// underlying values.
-		return paramPtr.Elem() == recvPtr.Elem()
+		return types.Identical(paramPtr.Elem(), recvPtr.Elem())
 	}
-	return methodSig.Recv().Type() == paramPtr.Elem()
+	return types.Identical(methodSig.Recv().Type(), paramPtr.Elem())
 }
 
 // hasAnyDeepCopyMethod checks if the given method has DeepCopy or DeepCopyInto
-- 
2.43.0


From ffe3d06d0c2aecf221e2d0025f3e9fecdcf03d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:24 +0000
Subject: [PATCH 67/86] fix: deepcopy: generate DeepCopyObject for types with a
 DeepCopy method, and not twice

---
 pkg/deepcopy/traverse.go | 38 +++++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/pkg/deepcopy/traverse.go b/pkg/deepcopy/traverse.go
index c523648..9c5bb2c 100644
--- a/pkg/deepcopy/traverse.go
+++ b/pkg/deepcopy/traverse.go
@@ -282,16 +282,19 @@ func (c *copyMethodMaker) GenerateMethodsFor(root *loader.Package, info *markers
 		} else {
 			c.Linef(bareDeepCopy, info.Name)
 		}
+	}
 
-		// maybe also generate DeepCopyObject, if asked.
-		if genObjectInterface(info) {
-			// we always need runtime.Object for DeepCopyObject
-			runtimeAlias := c.NeedImport("k8s.io/apimachinery/pkg/runtime")
-			if ptrReceiver {
-				c.Linef(ptrDeepCopyObj, info.Name, runtimeAlias)
-			} else {
-				c.Linef(bareDeepCopyObj, info.Name, runtimeAlias)
-			}
+	// maybe also generate DeepCopyObject, if asked.
+	if genObjectInterface(info) && !hasDeepCopyObjectMethod(root, typeInfo) {
+		// we always need runtime.Object for DeepCopyObject
+		runtimeAlias := c.NeedImport("k8s.io/apimachinery/pkg/runtime")
+		switch {
+		case hasManualDeepCopy && !deepCopyOnPtr && ptrReceiver:
+			c.Linef(ptrDeepCopyObjFromValue, info.Name, runtimeAlias)
+		case ptrReceiver || hasManualDeepCopy && deepCopyOnPtr:
+			c.Linef(ptrDeepCopyObj, info.Name, runtimeAlias)
+		default:
+			c.Linef(bareDeepCopyObj, info.Name, runtimeAlias)
 		}
 	}
 }
@@ -802,6 +805,14 @@ func hasDeepCopyIntoMethod(pkg *loader.Package, typeInfo types.Type) bool {
 	return types.Identical(methodSig.Recv().Type(), paramPtr.Elem())
 }
 
+// hasDeepCopyObjectMethod checks if this type has a manual DeepCopyObject method.
+func hasDeepCopyObjectMethod(pkg *loader.Package, typeInfo types.Type) bool {
+	deepCopyObject, ind, _ := types.LookupFieldOrMethod(typeInfo, true /* check pointers too */, pkg.Types, "DeepCopyObject")
+	_, isMethod := deepCopyObject.(*types.Func)
+	// ignore embedded methods
+	return isMethod && len(ind) == 1
+}
+
 // hasAnyDeepCopyMethod checks if the given method has DeepCopy or DeepCopyInto
 // (either of which implies the other will exist eventually).
 func hasAnyDeepCopyMethod(pkg *loader.Package, typeInfo types.Type) bool {
@@ -913,6 +924,15 @@ func (in *%[1]s) DeepCopyObject() %[2]s.Object {
 	}
 	return nil
 }
+`
+	// ptrDeepCopyObjFromValue is a DeepCopyObject for a type with an existing DeepCopy on a non-pointer receiver.
+	ptrDeepCopyObjFromValue = `
+// DeepCopyObject is an autogenerated deepcopy function, copying the receiver, creating a new runtime.Object.
+func (in *%[1]s) DeepCopyObject() %[2]s.Object {
+	if in == nil { return nil }
+	out := in.DeepCopy()
+	return &out
+}
 `
 	// ptrDeepCopy is a DeepCopyObject for a type with an existing DeepCopyInto and a non-pointer receiver.
 	bareDeepCopyObj = `
-- 
2.43.0


From 3b1b01b8ec055cb5f98fb34112e068763cf9acad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:05 +0000
Subject: [PATCH 68/86] fix: deepcopy: do not name imports like keywords,
 variables or declarations

---
 pkg/deepcopy/gen.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/pkg/deepcopy/gen.go b/pkg/deepcopy/gen.go
index 3fefe10..e10e989 100644
--- a/pkg/deepcopy/gen.go
+++ b/pkg/deepcopy/gen.go
@@ -21,6 +21,8 @@ import (
 	"fmt"
 	"go/ast"
 	"go/format"
+	"go/token"
+	"go/types"
 	"io"
 	"sort"
 	"strings"
@@ -33,6 +35,10 @@ import (
 // NB(directxman12): markers.LoadRoots ignores autogenerated code via a build tag
 // so any time we check for existing deepcopy functions, we only seen manually written ones.
 
+// usedNames are names that generated code uses itself, and those that can't be
+// import aliases.
+var usedNames = []string{"in", "out", "key", "val", "inVal", "outVal", "i", "x", "c", "clone", "init", "_", ""}
+
 const (
 	runtimeObjPath = "k8s.io/apimachinery/pkg/runtime.Object"
 )
@@ -215,6 +221,15 @@ func (ctx *ObjectGenCtx) generateForPackage(root *loader.Package) []byte {
 	}
 	// avoid confusing aliases by "reserving" the root package's name as an alias
 	imports.byAlias[root.Name] = ""
+	// ...and avoid aliases that are no valid identifiers, or that mean something else
+	for tok := token.BREAK; tok <= token.VAR; tok++ {
+		imports.byAlias[tok.String()] = ""
+	}
+	for _, names := range [][]string{usedNames, types.Universe.Names(), root.Types.Scope().Names()} {
+		for _, name := range names {
+			imports.byAlias[name] = ""
+		}
+	}
 
 	if err := markers.EachType(ctx.Collector, root, func(info *markers.TypeInfo) {
 		outContent := new(bytes.Buffer)
-- 
2.43.0


From 9d9032e548608bcd93147a6251878386df6c20bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:06 +0000
Subject: [PATCH 69/86] fix: markers: lock the registry while listing its
 definitions

---
 pkg/markers/reg.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/markers/reg.go b/pkg/markers/reg.go
index 7dcd458..4fc1a2f 100644
--- a/pkg/markers/reg.go
+++ b/pkg/markers/reg.go
@@ -124,6 +124,11 @@ func (r *Registry) HelpFor(def *Definition) *DefinitionHelp {
 
 // AllDefinitions returns all marker definitions known to this registry.
 func (r *Registry) AllDefinitions() []*Definition {
+	r.init()
+
+	r.mu.RLock()
+	defer r.mu.RUnlock()
+
 	res := make([]*Definition, 0, len(r.forPkg)+len(r.forType)+len(r.forField))
 	for _, def := range r.forPkg {
 		res = append(res, def)
-- 
2.43.0


From 5b66c9243872cf80c0af569396c2a371a25ed93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:54 +0000
Subject: [PATCH 70/86] fix: rbac: do not change the collected markers

---
 pkg/rbac/parser.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/rbac/parser.go b/pkg/rbac/parser.go
index e88ae66..5dc07b7 100644
--- a/pkg/rbac/parser.go
+++ b/pkg/rbac/parser.go
@@ -237,6 +237,8 @@ func GenerateRoles(ctx *genall.GenerationContext, roleName string) ([]interface{
 		// all the Rules having the same ruleKey will be merged into the first Rule
 		for _, rule := range rules {
 			// fix the group name first, since letting people type "core" is nice
+			// (in a copy, as the values of markers are shared)
+			rule.Groups = append([]string(nil), rule.Groups...)
 			for i, name := range rule.Groups {
 				if name == "core" {
 					rule.Groups[i] = ""
-- 
2.43.0


From bbc87bc3b684f0cf26fe399694bb15b8148c471b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:36 +0000
Subject: [PATCH 71/86] fix: markers: report errors of markers in the order of
 the source

---
 pkg/markers/collect.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/pkg/markers/collect.go b/pkg/markers/collect.go
index ac09669..0831460 100644
--- a/pkg/markers/collect.go
+++ b/pkg/markers/collect.go
@@ -98,7 +98,8 @@ func (c *Collector) MarkersInPackage(pkg *loader.Package) (map[ast.Node]MarkerVa
 
 // parseMarkersInPackage parses the given raw marker comments into output values using the registry.
 func (c *Collector) parseMarkersInPackage(nodeMarkersRaw map[ast.Node][]markerComment) (map[ast.Node]MarkerValues, error) {
-	var errors []error
+	var errorMarkers []markerComment
+	errorsByMarker := make(map[*ast.Comment][]error)
 	nodeMarkerValues := make(map[ast.Node]MarkerValues)
 	for node, markersRaw := range nodeMarkersRaw {
 		var target TargetType
@@ -119,7 +120,10 @@ func (c *Collector) parseMarkersInPackage(nodeMarkersRaw map[ast.Node][]markerCo
 			}
 			val, err := def.Parse(markerText)
 			if err != nil {
-				errors = append(errors, loader.ErrFromNode(err, markerRaw))
+				if len(errorsByMarker[markerRaw.Comment]) == 0 {
+					errorMarkers = append(errorMarkers, markerRaw)
+				}
+				errorsByMarker[markerRaw.Comment] = append(errorsByMarker[markerRaw.Comment], loader.ErrFromNode(err, markerRaw))
 				continue
 			}
 			markerVals[def.Name] = append(markerVals[def.Name], val)
@@ -127,6 +131,15 @@ func (c *Collector) parseMarkersInPackage(nodeMarkersRaw map[ast.Node][]markerCo
 		nodeMarkerValues[node] = markerVals
 	}
 
+	// report the errors in the order of the source
+	sort.Slice(errorMarkers, func(i, j int) bool {
+		return errorMarkers[i].Pos() < errorMarkers[j].Pos()
+	})
+	var errors []error
+	for _, marker := range errorMarkers {
+		errors = append(errors, errorsByMarker[marker.Comment]...)
+	}
+
 	return nodeMarkerValues, loader.MaybeErrList(errors)
 }
 
-- 
2.43.0


From aa7b46876f3bd412f71eccac0b3fa7c8afdd8a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:21 +0000
Subject: [PATCH 72/86] fix: help: give the type of number and map arguments

---
 pkg/genall/help/types.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pkg/genall/help/types.go b/pkg/genall/help/types.go
index be11104..a52ac36 100644
--- a/pkg/genall/help/types.go
+++ b/pkg/genall/help/types.go
@@ -33,19 +33,24 @@ type DetailedHelp struct {
 
 // Argument is the type data for a marker argument.
 type Argument struct {
-	// Type is the data type of the argument (string, bool, int, slice, any, raw, invalid)
+	// Type is the data type of the argument (string, bool, int, number, slice, map, any, raw, invalid)
 	Type string `json:"type"`
 	// Optional marks this argument as optional.
 	Optional bool `json:"optional"`
-	// ItemType contains the type of the slice item, if this is a slice
+	// ItemType contains the type of the slice item or map value, if this is a slice or map
 	ItemType *Argument `json:"itemType,omitempty"`
 }
 
 func (a Argument) typeString(out *strings.Builder) {
-	if a.Type == "slice" {
+	switch a.Type {
+	case "slice":
 		out.WriteString("[]")
 		a.ItemType.typeString(out)
 		return
+	case "map":
+		out.WriteString("map[string]")
+		a.ItemType.typeString(out)
+		return
 	}
 
 	out.WriteString(a.Type)
@@ -120,6 +125,8 @@ func ForArgument(argRaw markers.Argument) Argument {
 	switch argRaw.Type {
 	case markers.IntType:
 		res.Type = "int"
+	case markers.NumberType:
+		res.Type = "number"
 	case markers.StringType:
 		res.Type = "string"
 	case markers.BoolType:
@@ -128,6 +135,8 @@ func ForArgument(argRaw markers.Argument) Argument {
 		res.Type = "any"
 	case markers.SliceType:
 		res.Type = "slice"
+	case markers.MapType:
+		res.Type = "map"
 	case markers.RawType:
 		res.Type = "raw"
 	case markers.InvalidType:
-- 
2.43.0


From 7335e99da42549a902a82b1c70a3518531694c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:21 +0000
Subject: [PATCH 73/86] fix: help: order markers that the sorter considers
 equal

---
 pkg/genall/help/types.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pkg/genall/help/types.go b/pkg/genall/help/types.go
index a52ac36..a1e8e5a 100644
--- a/pkg/genall/help/types.go
+++ b/pkg/genall/help/types.go
@@ -206,7 +206,17 @@ func ByCategory(reg *markers.Registry, sorter SortGroup) []CategoryDoc {
 	for i, groupName := range allGroups {
 		markers := groupedMarkers[groupName]
 		sort.Slice(markers, func(i, j int) bool {
-			return sorter.Less(markers[i], markers[j])
+			switch {
+			case sorter.Less(markers[i], markers[j]):
+				return true
+			case sorter.Less(markers[j], markers[i]):
+				return false
+			case markers[i].Name != markers[j].Name:
+				return markers[i].Name < markers[j].Name
+			default:
+				// the same marker may exist for several targets
+				return markers[i].Target < markers[j].Target
+			}
 		})
 
 		markerDocs := make([]MarkerDoc, len(markers))
-- 
2.43.0


From ded26aa5c0aabdea2f2af8c42dad15588e71b2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:28 +0000
Subject: [PATCH 74/86] fix: webhook: list the webhookconfiguration marker in
 the help

---
 pkg/webhook/parser.go                  | 3 ++-
 pkg/webhook/zz_generated.markerhelp.go | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkg/webhook/parser.go b/pkg/webhook/parser.go
index 5e9cc73..697ba5c 100644
--- a/pkg/webhook/parser.go
+++ b/pkg/webhook/parser.go
@@ -57,8 +57,9 @@ func supportedWebhookVersions() []string {
 	return []string{defaultWebhookVersion}
 }
 
-// +controllertools:marker:generateHelp
+// +controllertools:marker:generateHelp:category=Webhook
 
+// WebhookConfig specifies how a webhook configuration object should be generated.
 type WebhookConfig struct {
 	// Mutating marks this as a mutating webhook (it's validating only if false)
 	//
diff --git a/pkg/webhook/zz_generated.markerhelp.go b/pkg/webhook/zz_generated.markerhelp.go
index 53ce42f..8fd724c 100644
--- a/pkg/webhook/zz_generated.markerhelp.go
+++ b/pkg/webhook/zz_generated.markerhelp.go
@@ -130,9 +130,9 @@ func (Generator) Help() *markers.DefinitionHelp {
 
 func (WebhookConfig) Help() *markers.DefinitionHelp {
 	return &markers.DefinitionHelp{
-		Category: "",
+		Category: "Webhook",
 		DetailedHelp: markers.DetailedHelp{
-			Summary: "",
+			Summary: "specifies how a webhook configuration object should be generated.",
 			Details: "",
 		},
 		FieldHelp: map[string]markers.DetailedHelp{
-- 
2.43.0


From 8bf47c3103ee4ee49615c75dccc6a42a1ecba4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:28 +0000
Subject: [PATCH 75/86] fix: helpgen: do not panic without a header

---
 cmd/helpgen/main.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/cmd/helpgen/main.go b/cmd/helpgen/main.go
index b7b81a8..c12ed69 100644
--- a/cmd/helpgen/main.go
+++ b/cmd/helpgen/main.go
@@ -155,9 +155,6 @@ func (g Generator) Generate(ctx *genall.GenerationContext) error {
 		sort.Strings(typeNames)
 
 		outContent := new(bytes.Buffer)
-		if headerText == "" {
-			panic("at the disco!")
-		}
 		fmt.Fprintf(outContent, header, root.Name, headerText)
 
 		for _, typ := range typeNames {
-- 
2.43.0


From 24168a618baae8c91992e29c8c8bbec202efac6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:30 +0000
Subject: [PATCH 76/86] fix: helpgen: keep the blank in front of the year

---
 cmd/helpgen/main.go                               | 2 +-
 pkg/applyconfiguration/zz_generated.markerhelp.go | 2 +-
 pkg/crd/markers/zz_generated.markerhelp.go        | 2 +-
 pkg/crd/zz_generated.markerhelp.go                | 2 +-
 pkg/deepcopy/zz_generated.markerhelp.go           | 2 +-
 pkg/genall/zz_generated.markerhelp.go             | 2 +-
 pkg/rbac/zz_generated.markerhelp.go               | 2 +-
 pkg/schemapatcher/zz_generated.markerhelp.go      | 2 +-
 pkg/webhook/zz_generated.markerhelp.go            | 2 +-
 9 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/cmd/helpgen/main.go b/cmd/helpgen/main.go
index c12ed69..b62ae85 100644
--- a/cmd/helpgen/main.go
+++ b/cmd/helpgen/main.go
@@ -121,7 +121,7 @@ func (g Generator) Generate(ctx *genall.GenerationContext) error {
 		}
 		headerText = string(headerBytes)
 	}
-	headerText = strings.ReplaceAll(headerText, " YEAR", g.Year)
+	headerText = strings.ReplaceAll(headerText, " YEAR", " "+g.Year)
 
 	for _, root := range ctx.Roots {
 		byType := make(map[string]string)
diff --git a/pkg/applyconfiguration/zz_generated.markerhelp.go b/pkg/applyconfiguration/zz_generated.markerhelp.go
index 6e0a0af..9125a69 100644
--- a/pkg/applyconfiguration/zz_generated.markerhelp.go
+++ b/pkg/applyconfiguration/zz_generated.markerhelp.go
@@ -1,7 +1,7 @@
 //go:build !ignore_autogenerated
 
 /*
-Copyright2019 The Kubernetes Authors.
+Copyright 2019 The Kubernetes Authors.
 
 Licensed under the Apache License, Version 2.0 (the "License");
 you may not use this file except in compliance with the License.
diff --git a/pkg/crd/markers/zz_generated.markerhelp.go b/pkg/crd/markers/zz_generated.markerhelp.go
index 7d8282c..08b3b8e 100644
--- a/pkg/crd/markers/zz_generated.markerhelp.go
+++ b/pkg/crd/markers/zz_generated.markerhelp.go
@@ -1,7 +1,7 @@
 //go:build !ignore_autogenerated
 
 /*
-Copyright2019 The Kubernetes Authors.
+Copyright 2019 The Kubernetes Authors.
 
 Licensed under the Apache License, Version 2.0 (the "License");
 you may not use this file except in compliance with the License.
diff --git a/pkg/crd/zz_generated.markerhelp.go b/pkg/crd/zz_generated.markerhelp.go
index 14d7a5c..1c01ef7 100644
--- a/pkg/crd/zz_generated.markerhelp.go
+++ b/pkg/crd/zz_generated.markerhelp.go
@@ -1,7 +1,7 @@
 //go:build !ignore_autogenerated
 
 /*
-Copyright2019 The Kubernetes Authors.
+Copyright 2019 The Kubernetes Authors.
 
 Licensed under the Apache License, Version 2.0 (the "License");
 you may not use this file except in compliance with the License.
diff --git a/pkg/deepcopy/zz_generated.markerhelp.go b/pkg/deepcopy/zz_generated.markerhelp.go
index 081c065..465569e 100644
--- a/pkg/deepcopy/zz_generated.markerhelp.go
+++ b/pkg/deepcopy/zz_generated.markerhelp.go
@@ -1,7 +1,7 @@
 //go:build !ignore_autogenerated
 
 /*
-Copyright2019 The Kubernetes Authors.
+Copyright 2019 The Kubernetes Authors.
 
 Licensed under the Apache License, Version 2.0 (the "License");
 you may not use this file except in compliance with the License.
diff --git a/pkg/genall/zz_generated.markerhelp.go b/pkg/genall/zz_generated.markerhelp.go
index b33c239..45b1e76 100644
--- a/pkg/genall/zz_generated.markerhelp.go
+++ b/pkg/genall/zz_generated.markerhelp.go
@@ -1,7 +1,7 @@
 //go:build !ignore_autogenerated
 
 /*
-Copyright2019 The Kubernetes Authors.
+Copyright 2019 The Kubernetes Authors.
 
 Licensed under the Apache License, Version 2.0 (the "License");
 you may not use this file except in compliance with the License.
diff --git a/pkg/rbac/zz_generated.markerhelp.go b/pkg/rbac/zz_generated.markerhelp.go
index 085898a..09c2b95 100644
--- a/pkg/rbac/zz_generated.markerhelp.go
+++ b/pkg/rbac/zz_generated.markerhelp.go
@@ -1,7 +1,7 @@
 //go:build !ignore_autogenerated
 
 /*
-Copyright2019 The Kubernetes Authors.
+Copyright 2019 The Kubernetes Authors.
 
 Licensed under the Apache License, Version 2.0 (the "License");
 you may not use this file except in compliance with the License.
diff --git a/pkg/schemapatcher/zz_generated.markerhelp.go b/pkg/schemapatcher/zz_generated.markerhelp.go
index db4cdb0..73ee56e 100644
--- a/pkg/schemapatcher/zz_generated.markerhelp.go
+++ b/pkg/schemapatcher/zz_generated.markerhelp.go
@@ -1,7 +1,7 @@
 //go:build !ignore_autogenerated
 
 /*
-Copyright2019 The Kubernetes Authors.
+Copyright 2019 The Kubernetes Authors.
 
 Licensed under the Apache License, Version 2.0 (the "License");
 you may not use this file except in compliance with the License.
diff --git a/pkg/webhook/zz_generated.markerhelp.go b/pkg/webhook/zz_generated.markerhelp.go
index 8fd724c..d08a36f 100644
--- a/pkg/webhook/zz_generated.markerhelp.go
+++ b/pkg/webhook/zz_generated.markerhelp.go
@@ -1,7 +1,7 @@
 //go:build !ignore_autogenerated
 
 /*
-Copyright2019 The Kubernetes Authors.
+Copyright 2019 The Kubernetes Authors.
 
 Licensed under the Apache License, Version 2.0 (the "License");
 you may not use this file except in compliance with the License.
-- 
2.43.0


From 9c591accadbbdbdbd8e0cedc1974870d20456f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:32 +0000
Subject: [PATCH 77/86] fix: helpgen: use the names of embedded fields

---
 cmd/helpgen/main.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/cmd/helpgen/main.go b/cmd/helpgen/main.go
index b62ae85..39bd097 100644
--- a/cmd/helpgen/main.go
+++ b/cmd/helpgen/main.go
@@ -3,6 +3,7 @@ package main
 import (
 	"bytes"
 	"fmt"
+	"go/ast"
 	"go/format"
 	"io"
 	"os"
@@ -88,6 +89,20 @@ func godocToDetails(typeName string, doc string) (summary, details string) {
 	return summary, details
 }
 
+// embeddedName returns the name of an embedded field of the given type.
+func embeddedName(typ ast.Expr) string {
+	switch typ := typ.(type) {
+	case *ast.StarExpr:
+		return embeddedName(typ.X)
+	case *ast.SelectorExpr:
+		return typ.Sel.Name
+	case *ast.Ident:
+		return typ.Name
+	default:
+		return ""
+	}
+}
+
 type Generator struct {
 	HeaderFile string `marker:",optional"`
 	Year       string `marker:",optional"`
@@ -133,8 +148,12 @@ func (g Generator) Generate(ctx *genall.GenerationContext) error {
 			outContent := new(bytes.Buffer)
 
 			for _, field := range info.Fields {
-				summary, details := godocToDetails(field.Name, field.Doc)
-				fmt.Fprintf(outContent, "%[1]q: {\nSummary: %[2]q,\n Details: %[3]q,\n},\n", field.Name, summary, details)
+				name := field.Name
+				if name == "" {
+					name = embeddedName(field.RawField.Type)
+				}
+				summary, details := godocToDetails(name, field.Doc)
+				fmt.Fprintf(outContent, "%[1]q: {\nSummary: %[2]q,\n Details: %[3]q,\n},\n", name, summary, details)
 			}
 
 			summary, details := godocToDetails(info.Name, info.Doc)
-- 
2.43.0


From e283edd130191dbf65907dc668a616351bc6ef14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:50 +0000
Subject: [PATCH 78/86] fix: applyconfiguration: report malformed markers

---
 pkg/applyconfiguration/gen.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/applyconfiguration/gen.go b/pkg/applyconfiguration/gen.go
index 73c727a..76db360 100644
--- a/pkg/applyconfiguration/gen.go
+++ b/pkg/applyconfiguration/gen.go
@@ -169,7 +169,10 @@ type ObjectGenCtx struct {
 // generateForPackage generates apply configuration implementations for
 // types in the given package, writing the formatted result to given writer.
 func (ctx *ObjectGenCtx) generateForPackage(root *loader.Package) error {
-	enabled, _ := enabledOnPackage(ctx.Collector, root)
+	enabled, err := enabledOnPackage(ctx.Collector, root)
+	if err != nil {
+		return err
+	}
 	if !enabled {
 		return nil
 	}
-- 
2.43.0


From 2e4e794b53b0a90cafcdb0e47d8b7107859c2578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:52 +0000
Subject: [PATCH 79/86] fix: applyconfiguration: report a header file that
 cannot be read

---
 pkg/applyconfiguration/gen.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/applyconfiguration/gen.go b/pkg/applyconfiguration/gen.go
index 76db360..9586c59 100644
--- a/pkg/applyconfiguration/gen.go
+++ b/pkg/applyconfiguration/gen.go
@@ -135,6 +135,9 @@ func (d Generator) Generate(ctx *genall.GenerationContext) error {
 		defer os.Remove(tmpFile.Name())
 
 		headerFilePath = tmpFile.Name()
+	} else if _, err := os.ReadFile(headerFilePath); err != nil {
+		// the generators exit the process when they cannot read it
+		return fmt.Errorf("failed to read header file: %w", err)
 	}
 
 	objGenCtx := ObjectGenCtx{
-- 
2.43.0


From c887e54158db59b237c385e3c1d66dc4ba144123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:30 +0000
Subject: [PATCH 80/86] fix: applyconfiguration: generate enabled types that
 are no objects where others use them

---
 pkg/applyconfiguration/gen.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/pkg/applyconfiguration/gen.go b/pkg/applyconfiguration/gen.go
index 9586c59..e780395 100644
--- a/pkg/applyconfiguration/gen.go
+++ b/pkg/applyconfiguration/gen.go
@@ -29,6 +29,7 @@ import (
 	"k8s.io/gengo/v2"
 	"k8s.io/gengo/v2/generator"
 	"k8s.io/gengo/v2/parser"
+	"k8s.io/gengo/v2/types"
 
 	kerrors "k8s.io/apimachinery/pkg/util/errors"
 	crdmarkers "sigs.k8s.io/controller-tools/pkg/crd/markers"
@@ -120,6 +121,16 @@ func isCRD(info *markers.TypeInfo) bool {
 	return objectEnabled != nil
 }
 
+// isObject checks if the type has the metadata of an object.
+func isObject(typ *types.Type) bool {
+	for _, member := range typ.Members {
+		if member.Embedded && member.Type.Name == (types.Name{Package: "k8s.io/apimachinery/pkg/apis/meta/v1", Name: "ObjectMeta"}) {
+			return true
+		}
+	}
+	return false
+}
+
 func (d Generator) Generate(ctx *genall.GenerationContext) error {
 	headerFilePath := d.HeaderFile
 
@@ -223,6 +234,12 @@ func (ctx *ObjectGenCtx) generateForPackage(root *loader.Package) error {
 			return
 		}
 
+		// The apply generator leaves out types that have a genclient marker but are no
+		// objects, even where it generates references to them.
+		if !isObject(typ) {
+			return
+		}
+
 		comments := sets.NewString(typ.CommentLines...)
 		comments.Insert(typ.SecondClosestCommentLines...)
 
-- 
2.43.0


From 7aa05b5a4ec4f302c1079da5fc608db681bb44de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:43 +0000
Subject: [PATCH 81/86] fix: applyconfiguration: disabled types are not
 generated for their genclient marker

---
 pkg/applyconfiguration/gen.go | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/pkg/applyconfiguration/gen.go b/pkg/applyconfiguration/gen.go
index e780395..7ee16c1 100644
--- a/pkg/applyconfiguration/gen.go
+++ b/pkg/applyconfiguration/gen.go
@@ -21,6 +21,7 @@ import (
 	"go/ast"
 	"os"
 	"path/filepath"
+	"strings"
 
 	"k8s.io/apimachinery/pkg/util/sets"
 	"k8s.io/code-generator/cmd/applyconfiguration-gen/args"
@@ -121,6 +122,18 @@ func isCRD(info *markers.TypeInfo) bool {
 	return objectEnabled != nil
 }
 
+// withoutGenclient returns the lines that are no genclient markers.
+func withoutGenclient(lines []string) []string {
+	var res []string
+	for _, line := range lines {
+		if strings.HasPrefix(strings.TrimSpace(line), "+genclient") {
+			continue
+		}
+		res = append(res, line)
+	}
+	return res
+}
+
 // isObject checks if the type has the metadata of an object.
 func isObject(typ *types.Type) bool {
 	for _, member := range typ.Members {
@@ -225,12 +238,17 @@ func (ctx *ObjectGenCtx) generateForPackage(root *loader.Package) error {
 	// For each type we think should be generated, make sure it has a genclient
 	// marker else the apply generator will not generate it.
 	if err := markers.EachType(ctx.Collector, root, func(info *markers.TypeInfo) {
-		if !enabledOnType(info) {
+		typ, ok := pkg.Types[info.Name]
+		if !ok {
 			return
 		}
 
-		typ, ok := pkg.Types[info.Name]
-		if !ok {
+		if !enabledOnType(info) {
+			if info.Markers.Get(enableTypeMarker.Name) != nil {
+				// disabled, so the apply generator must not see genclient markers of other generators
+				typ.CommentLines = withoutGenclient(typ.CommentLines)
+				typ.SecondClosestCommentLines = withoutGenclient(typ.SecondClosestCommentLines)
+			}
 			return
 		}
 
-- 
2.43.0


From 39b72ba58fa4e246fdf77234e6fa2ac0586c16d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:46 +0000
Subject: [PATCH 82/86] fix: typescaffold: reject names that are no valid kinds
 or resources

---
 pkg/typescaffold/resource.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/typescaffold/resource.go b/pkg/typescaffold/resource.go
index 7024a7c..d87eb42 100644
--- a/pkg/typescaffold/resource.go
+++ b/pkg/typescaffold/resource.go
@@ -21,6 +21,7 @@ import (
 	"strings"
 
 	"github.com/gobuffalo/flect"
+	"k8s.io/apimachinery/pkg/util/validation"
 )
 
 // Resource contains the information required to scaffold files for a resource.
@@ -49,5 +50,14 @@ func (r *Resource) Validate() error {
 		return fmt.Errorf("kind must be CamelCase (expected %s was %s)", flect.Pascalize(r.Kind), r.Kind)
 	}
 
+	// these are the restrictions for CustomResourceDefinitions, and they keep
+	// the scaffolded Go code valid
+	if errs := validation.IsDNS1035Label(strings.ToLower(r.Kind)); len(errs) > 0 {
+		return fmt.Errorf("invalid kind %q: %s", r.Kind, strings.Join(errs, "; "))
+	}
+	if errs := validation.IsDNS1035Label(r.Resource); len(errs) > 0 {
+		return fmt.Errorf("invalid resource %q: %s", r.Resource, strings.Join(errs, "; "))
+	}
+
 	return nil
 }
-- 
2.43.0


From b34f00d57627d33eed5dfada51765893a4d628ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:27 +0000
Subject: [PATCH 83/86] fix: typescaffold: give the generators the resource
 name and scope

---
 pkg/typescaffold/scaffold.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/typescaffold/scaffold.go b/pkg/typescaffold/scaffold.go
index f3640b9..ebab009 100644
--- a/pkg/typescaffold/scaffold.go
+++ b/pkg/typescaffold/scaffold.go
@@ -53,6 +53,7 @@ type {{.Resource.Kind}}Status struct {
 {{- end }}
 
 // {{.Resource.Kind}} is the Schema for the {{ .Resource.Resource }} API
+// +kubebuilder:resource:path={{ .Resource.Resource }},scope={{ if .Resource.Namespaced }}Namespaced{{ else }}Cluster{{ end }}
 // +k8s:openapi-gen=true
 type {{.Resource.Kind}} struct {
 	metav1.TypeMeta   ` + "`" + `json:",inline"` + "`" + `
-- 
2.43.0


From ce7ffe59034dce49c68b7fd6212a8d8dc303c50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:00 +0000
Subject: [PATCH 84/86] fix: crd: don't crash when asked to flatten an unknown
 type

---
 pkg/crd/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/crd/parser.go b/pkg/crd/parser.go
index 379be23..c482ab3 100644
--- a/pkg/crd/parser.go
+++ b/pkg/crd/parser.go
@@ -212,6 +212,10 @@ func (p *Parser) NeedFlattenedSchemaFor(typ TypeIdent) {
 
 	p.NeedSchemaFor(typ)
 	partialFlattened := p.flattener.FlattenType(typ)
+	if partialFlattened == nil {
+		// the type is unknown, which has been reported
+		return
+	}
 	fullyFlattened := FlattenEmbedded(partialFlattened, typ.Package)
 
 	p.FlattenedSchemata[typ] = *fullyFlattened
-- 
2.43.0


From 233a94f1f2caea0f4bc8cecacd52b1320f43a7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:00 +0000
Subject: [PATCH 85/86] fix: crd: keep large integers in +default as written

---
 pkg/crd/markers/validation.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/crd/markers/validation.go b/pkg/crd/markers/validation.go
index e1cad59..0182b69 100644
--- a/pkg/crd/markers/validation.go
+++ b/pkg/crd/markers/validation.go
@@ -560,7 +560,13 @@ func (m *KubernetesDefault) ParseMarker(_ string, _ string, restFields string) e
 		// See https://github.com/kubernetes-sigs/controller-tools/pull/938#issuecomment-2096790018
 		return nil
 	}
-	return json.Unmarshal([]byte(restFields), &m.Value)
+	if err := json.Unmarshal([]byte(restFields), &m.Value); err != nil {
+		return err
+	}
+	// keep numbers as written, floats can't represent all of them (e.g. large integers)
+	decoder := json.NewDecoder(strings.NewReader(restFields))
+	decoder.UseNumber()
+	return decoder.Decode(&m.Value)
 }
 
 // Defaults are only valid CRDs created with the v1 API
-- 
2.43.0


From dfe63a5b82742ec182f5cca9a6c8942cef62ec81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:00 +0000
Subject: [PATCH 86/86] fix: crd: report a reference to a package that is not
 imported

---
 pkg/crd/flatten.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/crd/flatten.go b/pkg/crd/flatten.go
index cace804..4d91414 100644
--- a/pkg/crd/flatten.go
+++ b/pkg/crd/flatten.go
@@ -360,9 +360,13 @@ func identFromRef(ref string, contextPkg *loader.Package) (TypeIdent, error) {
 	}
 
 	// an external reference
+	pkg := contextPkg.Imports()[pkgName]
+	if pkg == nil {
+		return TypeIdent{}, fmt.Errorf("reference %q is to package %q, which is not imported by %q", ref, pkgName, contextPkg.ID)
+	}
 	return TypeIdent{
 		Name:    typ,
-		Package: contextPkg.Imports()[pkgName],
+		Package: pkg,
 	}, nil
 }
 
-- 
2.43.0

