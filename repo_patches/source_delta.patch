From d20b6280dda479791884386c83560ca15ceb73e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:41 +0000
Subject: [PATCH 01/45] fix: macros referring to unknown identifiers were
 emitted with a function address as value

---
 translator/translator.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/translator/translator.go b/translator/translator.go
index d916d46..0d877f1 100644
--- a/translator/translator.go
+++ b/translator/translator.go
@@ -479,12 +479,12 @@ func (t *Translator) collectDefines(declares []*CDecl, defines map[string]*cc.Ma
 			typecastValue = false
 		}
 		if !valid {
-			if macro.Type().Kind() == cc.InvalidKind {
+			if v := macro.Value(); v != nil && v != cc.Unknown {
 				// fallback to the evaluated value
 				t.defines = append(t.defines, &CDecl{
 					IsDefine: true,
 					Name:     name,
-					Value:    Value(macro.Value),
+					Value:    Value(v),
 					Position: macro.Position(),
 				})
 			}
-- 
2.43.0


From 685b6db456b174b87742064153ae95ce2035908a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:55 +0000
Subject: [PATCH 02/45] fix: const variables were emitted with a function
 address as value

---
 translator/ast_walker.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/translator/ast_walker.go b/translator/ast_walker.go
index d826c16..065814f 100644
--- a/translator/ast_walker.go
+++ b/translator/ast_walker.go
@@ -2,6 +2,7 @@ package translator
 
 import (
 	"fmt"
+	"strconv"
 	"strings"
 
 	"modernc.org/cc/v4"
@@ -58,7 +59,13 @@ func (t *Translator) walkDeclaration(d *cc.Declaration) (declared []*CDecl) {
 			decl := t.declarator(declr.Type(), identifierOf(declr.DirectDeclarator), declr.IsTypename(), declr.IsStatic(), declr.IsConst(), declr.Position())
 			init := list.InitDeclarator.Initializer
 			if init != nil && init.AssignmentExpression != nil {
-				decl.Value = init.AssignmentExpression.Value
+				switch v := init.AssignmentExpression.Value().(type) {
+				case *cc.UnknownValue:
+				case cc.StringValue:
+					decl.Value = strconv.Quote(strings.TrimSuffix(string(v), "\x00"))
+				default:
+					decl.Value = v
+				}
 				decl.Expression = blessName(init.Token.SrcStr())
 			}
 			t.registerTagsOf(decl)
-- 
2.43.0


From eac66e6cf045a4119268b7138c7663f5865a328e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:06 +0000
Subject: [PATCH 03/45] fix: enum tags without a typedef produced the invalid
 type C.enum_

---
 translator/ast_walker.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/translator/ast_walker.go b/translator/ast_walker.go
index 065814f..c6f14b4 100644
--- a/translator/ast_walker.go
+++ b/translator/ast_walker.go
@@ -120,6 +120,11 @@ func (t *Translator) getStructTag(typ cc.Type) (tag string) {
 
 func (t *Translator) enumSpec(base *CTypeSpec, typ cc.Type) *CEnumSpec {
 	tag := blessName(typ.Typedef().Name())
+	if enumType, ok := typ.(*cc.EnumType); ok && len(tag) == 0 {
+		// not a typedef, e.g. enum foo { ... };
+		tagToken := enumType.Tag()
+		tag = blessName(tagToken.SrcStr())
+	}
 	spec := &CEnumSpec{
 		Tag:      tag,
 		Pointers: base.Pointers,
-- 
2.43.0


From 9d2f206b134155d6cfc6bd8e0dd630ed323a505d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:01 +0000
Subject: [PATCH 04/45] fix: functions returning const char* lost the constness
 of the result

---
 translator/ast_walker.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/translator/ast_walker.go b/translator/ast_walker.go
index c6f14b4..1e81cbc 100644
--- a/translator/ast_walker.go
+++ b/translator/ast_walker.go
@@ -279,6 +279,13 @@ func (t *Translator) functionSpec(base *CTypeSpec, typ cc.Type, name string, isC
 			if funcType.Result().Typedef() != nil {
 				name = identifierOf(funcType.Result().Typedef().DirectDeclarator)
 				isResultConst = isResultConst || funcType.Result().Typedef().IsConst()
+			} else if ptr, ok := ret.(*cc.PointerType); ok {
+				// the result has no declarator of its own, so constness of a pointed value
+				// can be told by its attributes only, e.g. const char *foo();
+				elem := ptr.Elem()
+				if attrs := elem.Attributes(); attrs != nil && elem.Kind() != cc.Ptr && elem.Typedef() == nil {
+					isResultConst = isResultConst || attrs.IsConst()
+				}
 			}
 			spec.Return = t.typeSpec(ret, name, deep+1, isResultConst, true)
 		}
-- 
2.43.0


From e2f05dd524bd691c1673f763f5ff9de9e59767d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:55 +0000
Subject: [PATCH 05/45] fix: string slices passed to C were backed by memory
 that could be freed any time

---
 generator/gen_bindings.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/generator/gen_bindings.go b/generator/gen_bindings.go
index aa16b97..0eee704 100644
--- a/generator/gen_bindings.go
+++ b/generator/gen_bindings.go
@@ -174,8 +174,10 @@ func (gen *Generator) unpackObj(buf io.Writer, goSpec tl.GoTypeSpec, cgoSpec tl.
 	indices := genIndices("i", level)
 	if getHelper, ok := fromGoHelperMap[goSpec]; ok {
 		helper := getHelper(gen, cgoSpec)
-		fmt.Fprintf(buf, "v%d[i%d], _ = %s(%sx%s)\n",
-			uplevel, uplevel, helper.Name, ptrs(goSpec.Pointers), indices)
+		fmt.Fprintf(buf, "allocs%d := new(cgoAllocMap)\n", uplevel)
+		fmt.Fprintf(buf, "v%d[i%d], allocs%d = %s(%sx%s)\n",
+			uplevel, uplevel, uplevel, helper.Name, ptrs(goSpec.Pointers), indices)
+		fmt.Fprintf(buf, "allocs.Borrow(allocs%d)\n", uplevel)
 		return helper
 	}
 	if goSpec.Pointers == 0 {
@@ -608,7 +610,8 @@ func (gen *Generator) packPlainSlice(buf io.Writer, base string, pointers uint8,
 func (gen *Generator) packObj(buf io.Writer, goSpec tl.GoTypeSpec, cgoSpec tl.CGoSpec, level uint8) *Helper {
 	if getHelper, ok := toGoHelperMap[goSpec]; ok {
 		helper := getHelper(gen, cgoSpec)
-		fmt.Fprintf(buf, "v%s = %s(%sptr%d)\n",
+		// the C memory is freed once the allocs are collected, strings must not be backed by it
+		fmt.Fprintf(buf, "v%s = RawString(%s(%sptr%d)).Copy()\n",
 			genIndices("i", level), helper.Name, ptrs(goSpec.Pointers), level)
 		return helper
 	}
-- 
2.43.0


From 6849f1f30b31737ce7602676201533855cba7e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:20 +0000
Subject: [PATCH 06/45] fix: helpers for void*** got names with a dot that are
 not valid Go

---
 generator/gen_bindings.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/gen_bindings.go b/generator/gen_bindings.go
index 0eee704..e345282 100644
--- a/generator/gen_bindings.go
+++ b/generator/gen_bindings.go
@@ -67,7 +67,7 @@ func getHelperName(goSpec tl.GoTypeSpec) string {
 	if goSpec.Unsigned {
 		buf.WriteRune('U')
 	}
-	buf.WriteString(strings.Title(goSpec.PlainType()))
+	buf.WriteString(strings.Title(strings.TrimPrefix(goSpec.PlainType(), "unsafe.")))
 	return buf.String()
 }
 
-- 
2.43.0


From b8a6f79e5e97d16cbaf77f872aca7120e5b2981d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:37 +0000
Subject: [PATCH 07/45] fix: parser: emit user defines in a fixed order

Defines is a map, so constants generated from user-provided defines came
out in a different order on every run.
---
 parser/parser.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 0c6748d..40320ed 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -8,6 +8,7 @@ import (
 	"os/exec"
 	"path/filepath"
 	"runtime"
+	"sort"
 	"strings"
 
 	"modernc.org/cc/v4"
@@ -37,8 +38,13 @@ func ParseWith(cfg *Config) (*cc.AST, error) {
 
 	var predefined string
 	// user-provided defines take precedence
-	for name, value := range cfg.Defines {
-		switch v := value.(type) {
+	names := make([]string, 0, len(cfg.Defines))
+	for name := range cfg.Defines {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	for _, name := range names {
+		switch v := cfg.Defines[name].(type) {
 		case string:
 			predefined += fmt.Sprintf("\n#define %s \"%s\"", name, v)
 		case int, int16, int32, int64, uint, uint16, uint32, uint64:
-- 
2.43.0


From 83ad67682665030e92d8bc8494a88e99a7cc98a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:37 +0000
Subject: [PATCH 08/45] fix: parser: user-provided defines take precedence over
 host ones

With -ccdefs the host compiler's defines were appended after the user's,
and the later definition of a macro wins.
---
 parser/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 40320ed..137c1f4 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -88,7 +88,8 @@ func ParseWith(cfg *Config) (*cc.AST, error) {
 		}
 	}
 	if cfg.CCDefs && ccDefsOK {
-		predefined += fmt.Sprintf("\n%s", ccDefs)
+		// the latter definition wins, so the host ones go before
+		predefined = fmt.Sprintf("\n%s", ccDefs) + predefined
 	}
 	ccConfig, _ := cc.NewConfig(runtime.GOOS, cfg.Arch)
 	// Let cc provide all predefines and builtins. Only append custom definitions.
-- 
2.43.0


From 22c57de0d1f98623f3a8d011bfc54ddbfdaba91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:45 +0000
Subject: [PATCH 09/45] fix: macros with upper case numeric prefixes and
 exponents lost their value

---
 translator/helpers.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/translator/helpers.go b/translator/helpers.go
index 0989742..7780625 100644
--- a/translator/helpers.go
+++ b/translator/helpers.go
@@ -267,10 +267,14 @@ func isNumeric(v []rune) bool {
 func readNumeric(v []rune) string {
 	long := false
 	unsigned := false
+	float := false
 	result := make([]rune, 0, len(v))
 
 	wrap := func() string {
 		switch {
+		case float:
+			// suffixes of a floating constant don't matter
+			return string(result)
 		case unsigned && long:
 			return "uint64(" + string(result) + ")"
 		case unsigned:
@@ -287,12 +291,25 @@ func readNumeric(v []rune) string {
 		switch r {
 		case '0', '1', '2', '3', '4', '5', '6', '7', '8', '9':
 			result = append(result, r)
-		case 'x':
+		case 'x', 'X':
 			isHex = true
 			result = append(result, r)
-		case '-', '+', '.', 'e', 'b':
+		case 'p', 'P':
+			// exponent of a hex floating constant, in decimal
+			isHex = false
+			float = true
+			result = append(result, r)
+		case '.':
+			float = true
+			result = append(result, r)
+		case 'e', 'E':
+			if !isHex {
+				float = true
+			}
+			result = append(result, r)
+		case '-', '+', 'b', 'B':
 			result = append(result, r)
-		case 'A', 'B', 'C', 'D', 'E', 'F', 'a', 'c', 'd', 'f':
+		case 'A', 'C', 'D', 'F', 'a', 'c', 'd', 'f':
 			if isHex {
 				result = append(result, r)
 			}
-- 
2.43.0


From 86e0f2838eabe662a555db24d6ba48f01efc50a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:14 +0000
Subject: [PATCH 10/45] fix: references to constants and types in constant
 expressions got a different name than their definition

---
 translator/ast_walker.go | 2 +-
 translator/translator.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/translator/ast_walker.go b/translator/ast_walker.go
index 1e81cbc..3f151de 100644
--- a/translator/ast_walker.go
+++ b/translator/ast_walker.go
@@ -159,7 +159,7 @@ func (t *Translator) enumSpec(base *CTypeSpec, typ cc.Type) *CEnumSpec {
 					srcParts = append(srcParts, src)
 					switch token.Ch {
 					case rune(cc.IDENTIFIER):
-						exprParts = append(exprParts, string(t.TransformName(TargetConst, src, true)))
+						exprParts = append(exprParts, string(t.TransformName(TargetConst, src)))
 					default:
 						// TODO: state machine
 						const (
diff --git a/translator/translator.go b/translator/translator.go
index 0d877f1..cd26a60 100644
--- a/translator/translator.go
+++ b/translator/translator.go
@@ -427,11 +427,11 @@ func (t *Translator) collectDefines(declares []*CDecl, defines map[string]*cc.Ma
 			case rune(cc.IDENTIFIER):
 				if _, ok := seen[src]; ok {
 					// const reference
-					exprParts = append(exprParts, string(t.TransformName(TargetConst, src, true)))
+					exprParts = append(exprParts, string(t.TransformName(TargetConst, src)))
 				} else if _, ok := t.typedefsSet[src]; ok {
 					// type reference
 					needsTypecast = true
-					exprParts = append(exprParts, string(t.TransformName(TargetType, src, true)))
+					exprParts = append(exprParts, string(t.TransformName(TargetType, src)))
 				} else {
 					// an unresolved reference
 					valid = false
-- 
2.43.0


From b475b50cdd2187a97004b466a512c519d2948c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:43 +0000
Subject: [PATCH 11/45] fix: function-typed arguments and fields were named by
 the rules for functions

---
 generator/gen_declares.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/generator/gen_declares.go b/generator/gen_declares.go
index 8bb1c8c..42b3ba2 100644
--- a/generator/gen_declares.go
+++ b/generator/gen_declares.go
@@ -51,10 +51,10 @@ func (gen *Generator) writeFunctionAsArg(wr io.Writer, decl *tl.CDecl,
 
 	var returnRef string
 	cName, _ := getName(decl)
-	goName := checkName(gen.tr.TransformName(tl.TargetFunction, cName, public))
+	goName := checkName(gen.tr.TransformName(tl.TargetType, cName, public))
 	spec := decl.Spec.(*tl.CFunctionSpec)
 	if len(spec.Typedef) > 0 {
-		funcName := checkName(gen.tr.TransformName(tl.TargetType, spec.Typedef, true))
+		funcName := checkName(gen.tr.TransformName(tl.TargetType, spec.Typedef))
 		fmt.Fprintf(wr, "%s %s", goName, funcName)
 		return
 	}
-- 
2.43.0


From 3aa7d683d836248b08ee6c42800717ebcf9e089f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:42 +0000
Subject: [PATCH 12/45] fix: missing comma in the arguments of methods whose
 receiver is in the middle

---
 generator/gen_common.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/generator/gen_common.go b/generator/gen_common.go
index d744360..e55bd3e 100644
--- a/generator/gen_common.go
+++ b/generator/gen_common.go
@@ -135,6 +135,7 @@ func (gen *Generator) writeFunctionParams(wr io.Writer, funcName string, funcSpe
 	ptrTipSpecRx, _ := gen.tr.PtrTipRx(tl.TipScopeFunction, funcName)
 	typeTipSpecRx, _ := gen.tr.TypeTipRx(tl.TipScopeFunction, funcName)
 
+	var written bool
 	writeStartParams(wr)
 	for i, param := range spec.Params {
 		ptrTip := ptrTipSpecRx.TipAt(i)
@@ -157,11 +158,11 @@ func (gen *Generator) writeFunctionParams(wr io.Writer, funcName string, funcSpe
 			}
 		}
 
-		gen.writeFunctionParam(wr, param, ptrTip, typeTip)
-
-		if i < len(spec.Params)-1 && ptrTipSpecRx.TipAt(i+1) != tl.TipPtrInst {
+		if written {
 			fmt.Fprintf(wr, ", ")
 		}
+		gen.writeFunctionParam(wr, param, ptrTip, typeTip)
+		written = true
 	}
 	writeEndParams(wr)
 }
-- 
2.43.0


From 66502b819b252aca364ce3b7611094c70ae10f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:34 +0000
Subject: [PATCH 13/45] fix: enum constants could refer to constants that are
 not generated

---
 translator/ast_walker.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/translator/ast_walker.go b/translator/ast_walker.go
index 3f151de..a230424 100644
--- a/translator/ast_walker.go
+++ b/translator/ast_walker.go
@@ -159,6 +159,11 @@ func (t *Translator) enumSpec(base *CTypeSpec, typ cc.Type) *CEnumSpec {
 					srcParts = append(srcParts, src)
 					switch token.Ch {
 					case rune(cc.IDENTIFIER):
+						if !t.IsAcceptableName(TargetConst, src) {
+							// not going to be generated
+							valid = false
+							break
+						}
 						exprParts = append(exprParts, string(t.TransformName(TargetConst, src)))
 					default:
 						// TODO: state machine
@@ -202,7 +207,7 @@ func (t *Translator) enumSpec(base *CTypeSpec, typ cc.Type) *CEnumSpec {
 					typecastValue = false
 				}
 
-				if len(exprParts) > 0 {
+				if valid && len(exprParts) > 0 {
 					m.Expression = strings.Join(exprParts, " ")
 				} else {
 					m.Value = en.Value()
-- 
2.43.0


From f433e5c50456a056b3a50ed7e8e6f3e8b880b1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:58 +0000
Subject: [PATCH 14/45] fix: string macros with a known value were emitted
 without quotes

---
 translator/translator.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/translator/translator.go b/translator/translator.go
index cd26a60..1584bef 100644
--- a/translator/translator.go
+++ b/translator/translator.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"regexp"
 	"sort"
+	"strconv"
 	"strings"
 
 	"github.com/dlclark/regexp2"
@@ -401,7 +402,7 @@ func (t *Translator) collectDefines(declares []*CDecl, defines map[string]*cc.Ma
 				t.defines = append(t.defines, &CDecl{
 					IsDefine: true,
 					Name:     name,
-					Value:    Value(macro.Value()),
+					Value:    constValue(macro.Value()),
 					Position: macro.Position(),
 				})
 				continue
@@ -484,7 +485,7 @@ func (t *Translator) collectDefines(declares []*CDecl, defines map[string]*cc.Ma
 				t.defines = append(t.defines, &CDecl{
 					IsDefine: true,
 					Name:     name,
-					Value:    Value(v),
+					Value:    constValue(v),
 					Position: macro.Position(),
 				})
 			}
@@ -500,6 +501,14 @@ func (t *Translator) collectDefines(declares []*CDecl, defines map[string]*cc.Ma
 	}
 }
 
+// constValue returns the value in a form that can be used in Go sources.
+func constValue(v cc.Value) Value {
+	if str, ok := v.(cc.StringValue); ok {
+		return strconv.Quote(strings.TrimSuffix(string(str), "\x00"))
+	}
+	return Value(v)
+}
+
 func (t *Translator) resolveTypedefs(typedefs []*CDecl) {
 	for _, decl := range typedefs {
 		if t.IsTokenIgnored(decl.Position) {
-- 
2.43.0


From 185842190a6d526dfe0dc404b5b53d14980d3045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:42 +0000
Subject: [PATCH 15/45] fix: the order of tips for structs and types was random

---
 translator/translator.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/translator/translator.go b/translator/translator.go
index 1584bef..9727bae 100644
--- a/translator/translator.go
+++ b/translator/translator.go
@@ -240,11 +240,12 @@ func getPtrTipRxs(tips PtrTips) (PtrTipRxMap, error) {
 				self:    spec.Self,
 			}
 			rxMap[scope] = append(rxMap[scope], specRx)
-			if scope == TipScopeStruct {
-				rxMap[TipScopeType] = append(rxMap[TipScopeType], specRx)
-			}
 		}
 	}
+	// tips for structs also apply to types, after the tips given for types
+	if structRxs := rxMap[TipScopeStruct]; len(structRxs) > 0 {
+		rxMap[TipScopeType] = append(rxMap[TipScopeType], structRxs...)
+	}
 	return rxMap, nil
 }
 
@@ -267,11 +268,12 @@ func getTypeTipRxs(tips TypeTips) (TypeTipRxMap, error) {
 				self:    spec.Self,
 			}
 			rxMap[scope] = append(rxMap[scope], specRx)
-			if scope == TipScopeStruct {
-				rxMap[TipScopeType] = append(rxMap[TipScopeType], specRx)
-			}
 		}
 	}
+	// tips for structs also apply to types, after the tips given for types
+	if structRxs := rxMap[TipScopeStruct]; len(structRxs) > 0 {
+		rxMap[TipScopeType] = append(rxMap[TipScopeType], structRxs...)
+	}
 	return rxMap, nil
 }
 
-- 
2.43.0


From faac8e5834e813f24982b12f638abed5bb629dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:17 +0000
Subject: [PATCH 16/45] fix: constant expressions were copied to Go where they
 have another meaning

Operators have another precedence in Go, casts bind tighter than operators,
literals have other prefixes and escape sequences, and there is no conditional
operator, sizeof, or operators that make numbers out of conditions.
---
 translator/ast_walker.go |  69 ++-----------
 translator/const_expr.go | 206 +++++++++++++++++++++++++++++++++++++++
 translator/translator.go |  75 +++-----------
 3 files changed, 228 insertions(+), 122 deletions(-)
 create mode 100644 translator/const_expr.go

diff --git a/translator/ast_walker.go b/translator/ast_walker.go
index a230424..2f30d6a 100644
--- a/translator/ast_walker.go
+++ b/translator/ast_walker.go
@@ -145,68 +145,19 @@ func (t *Translator) enumSpec(base *CTypeSpec, typ cc.Type) *CEnumSpec {
 			case t.constRules[ConstEnum] == ConstExpand:
 				enTokens := cc.NodeTokens(en.ConstantExpression)
 				srcParts := make([]string, 0, len(enTokens))
-				exprParts := make([]string, 0, len(enTokens))
-				valid := true
-
-				// TODO: needsTypecast is never true here
-				// TODO: some state machine
-				needsTypecast := false
-				typecastValue := false
-				typecastValueParens := 0
-
 				for _, token := range enTokens {
-					src := token.SrcStr()
-					srcParts = append(srcParts, src)
-					switch token.Ch {
-					case rune(cc.IDENTIFIER):
-						if !t.IsAcceptableName(TargetConst, src) {
-							// not going to be generated
-							valid = false
-							break
-						}
-						exprParts = append(exprParts, string(t.TransformName(TargetConst, src)))
-					default:
-						// TODO: state machine
-						const (
-							lparen = rune(40)
-							rparen = rune(41)
-						)
-						switch {
-						case needsTypecast && token.Ch == rparen:
-							typecastValue = true
-							needsTypecast = false
-							exprParts = append(exprParts, src+"(")
-						case typecastValue && token.Ch == lparen:
-							typecastValueParens++
-						case typecastValue && token.Ch == rparen:
-							if typecastValueParens == 0 {
-								typecastValue = false
-								exprParts = append(exprParts, ")"+src)
-							} else {
-								typecastValueParens--
-							}
-						default:
-							// somewhere in the world a helpless kitten died because of this
-							if token.Ch == '~' {
-								src = "^"
-							}
-							if runes := []rune(src); len(runes) > 0 && isNumeric(runes) {
-								// TODO(xlab): better const handling
-								src = readNumeric(runes)
-							}
-							exprParts = append(exprParts, src)
-						}
-					}
-					if !valid {
-						break
-					}
+					srcParts = append(srcParts, token.SrcStr())
 				}
-				if typecastValue {
-					// still in typecast value, need to close paren
-					exprParts = append(exprParts, ")")
-					typecastValue = false
+				expr := &constExpr{
+					tokens: enTokens,
+					constName: func(name string) (string, bool) {
+						return string(t.TransformName(TargetConst, name)), t.IsAcceptableName(TargetConst, name)
+					},
+					typeName: func(name string) (string, bool) {
+						return "", false
+					},
 				}
-
+				exprParts, valid := expr.rewrite()
 				if valid && len(exprParts) > 0 {
 					m.Expression = strings.Join(exprParts, " ")
 				} else {
diff --git a/translator/const_expr.go b/translator/const_expr.go
new file mode 100644
index 0000000..dbb2799
--- /dev/null
+++ b/translator/const_expr.go
@@ -0,0 +1,206 @@
+package translator
+
+import (
+	"strconv"
+	"strings"
+	"unicode/utf8"
+
+	"modernc.org/cc/v4"
+)
+
+// constExpr rewrites a C constant expression as a constant expression of Go.
+type constExpr struct {
+	tokens []cc.Token
+	// constName and typeName return names that constants and types have in Go,
+	// or false if there are no such constants or types.
+	constName func(name string) (string, bool)
+	typeName  func(name string) (string, bool)
+}
+
+const highestPrec = 6
+
+// goPrec and cPrec are precedences of binary operators in Go and in C.
+var (
+	goPrec = map[rune]int{
+		'*': 5, '/': 5, '%': 5, rune(cc.LSH): 5, rune(cc.RSH): 5, '&': 5,
+		'+': 4, '-': 4, '|': 4, '^': 4,
+	}
+	cPrec = map[rune]int{
+		'*': 6, '/': 6, '%': 6, '+': 5, '-': 5, rune(cc.LSH): 4, rune(cc.RSH): 4,
+		'&': 3, '^': 2, '|': 1,
+	}
+)
+
+// rewrite returns the parts of the Go expression,
+// or false if the C expression is not a constant expression in Go.
+func (e *constExpr) rewrite() ([]string, bool) {
+	if len(e.tokens) == 0 {
+		return nil, true
+	}
+	parts, _, ok := e.binary(1)
+	return parts, ok && len(e.tokens) == 0
+}
+
+func (e *constExpr) next() (token cc.Token, ok bool) {
+	if len(e.tokens) == 0 {
+		return token, false
+	}
+	token, e.tokens = e.tokens[0], e.tokens[1:]
+	return token, true
+}
+
+func (e *constExpr) nextIs(i int, ch rune) bool {
+	return i < len(e.tokens) && e.tokens[i].Ch == ch
+}
+
+// binary rewrites operators of the precedence minPrec and above,
+// it also returns the precedence that the result has in Go.
+func (e *constExpr) binary(minPrec int) (parts []string, prec int, ok bool) {
+	parts, prec, ok = e.unary()
+	for ok && len(e.tokens) > 0 && cPrec[e.tokens[0].Ch] >= minPrec {
+		op, _ := e.next()
+		right, rightPrec, rightOk := e.binary(cPrec[op.Ch] + 1)
+		if !rightOk {
+			return nil, 0, false
+		}
+		if prec < goPrec[op.Ch] {
+			parts = inParens(parts)
+		}
+		if rightPrec <= goPrec[op.Ch] {
+			right = inParens(right)
+		}
+		parts = append(append(parts, op.SrcStr()), right...)
+		prec = goPrec[op.Ch]
+	}
+	return parts, prec, ok
+}
+
+func (e *constExpr) unary() (parts []string, prec int, ok bool) {
+	token, ok := e.next()
+	if !ok {
+		return nil, 0, false
+	}
+	src := token.SrcStr()
+	switch token.Ch {
+	case '-', '+', '~':
+		if token.Ch == '~' {
+			src = "^"
+		}
+		operand, operandPrec, ok := e.unary()
+		if operandPrec < highestPrec {
+			operand = inParens(operand)
+		}
+		return append([]string{src}, operand...), highestPrec, ok
+	case '(':
+		if e.nextIs(0, rune(cc.IDENTIFIER)) && e.nextIs(1, ')') {
+			if name, ok := e.typeName(e.tokens[0].SrcStr()); ok {
+				e.tokens = e.tokens[2:]
+				operand, _, ok := e.unary()
+				parts = append([]string{"(", name, ")("}, operand...)
+				return append(parts, ")"), highestPrec, ok
+			}
+		}
+		inner, _, ok := e.binary(1)
+		if !ok || !e.nextIs(0, ')') {
+			return nil, 0, false
+		}
+		e.next()
+		return inParens(inner), highestPrec, true
+	case rune(cc.IDENTIFIER):
+		name, ok := e.constName(src)
+		return []string{name}, highestPrec, ok
+	case rune(cc.PPNUMBER), rune(cc.INTCONST), rune(cc.FLOATCONST):
+		return []string{readNumeric([]rune(src))}, highestPrec, true
+	case rune(cc.CHARCONST), rune(cc.LONGCHARCONST):
+		src, ok := readLiteral(src)
+		return []string{src}, highestPrec, ok
+	case rune(cc.STRINGLITERAL), rune(cc.LONGSTRINGLITERAL):
+		literal, ok := readLiteral(src)
+		parts, prec = []string{literal}, highestPrec
+		for ok && (e.nextIs(0, rune(cc.STRINGLITERAL)) || e.nextIs(0, rune(cc.LONGSTRINGLITERAL))) {
+			token, _ = e.next()
+			literal, ok = readLiteral(token.SrcStr())
+			parts, prec = append(parts, "+", literal), goPrec['+']
+		}
+		return parts, prec, ok
+	}
+	return nil, 0, false
+}
+
+func inParens(parts []string) []string {
+	return append(append([]string{"("}, parts...), ")")
+}
+
+// readLiteral reads a character constant or a string literal of C,
+// whose prefixes and escape sequences differ from the ones Go has.
+func readLiteral(src string) (string, bool) {
+	start := strings.IndexAny(src, `'"`)
+	if start < 0 || len(src) < start+2 {
+		return "", false
+	}
+	wide := start > 0 && src[:start] != "u8"
+	isChar := src[start] == '\''
+	src = src[start+1 : len(src)-1]
+
+	var value []byte
+	for len(src) > 0 {
+		ch, size := src[0], 1
+		if ch != '\\' {
+			value, src = append(value, ch), src[size:]
+			continue
+		}
+		if len(src) < 2 {
+			return "", false
+		}
+		src = src[1:]
+		base, maxLen, bits := 16, len(src), 8
+		switch ch = src[0]; ch {
+		case '0', '1', '2', '3', '4', '5', '6', '7':
+			base, maxLen, size = 8, 3, 0
+		case 'x':
+		case 'u', 'U':
+			maxLen, bits = 5, 32
+			if ch == 'U' {
+				maxLen = 9
+			}
+		default:
+			i := strings.IndexByte(`abfnrtv\'"?`, ch)
+			if i < 0 {
+				return "", false
+			}
+			value, src = append(value, "\a\b\f\n\r\t\v\\'\"?"[i]), src[size:]
+			continue
+		}
+		end := size
+		for end < len(src) && end < maxLen && isDigit(src[end], base) {
+			end++
+		}
+		code, err := strconv.ParseUint(src[size:end], base, bits)
+		if err != nil || wide && bits == 8 && code >= utf8.RuneSelf {
+			return "", false
+		}
+		if bits == 8 {
+			value = append(value, byte(code))
+		} else {
+			value = utf8.AppendRune(value, rune(code))
+		}
+		src = src[end:]
+	}
+	if !isChar {
+		return strconv.Quote(string(value)), true
+	}
+	r, size := utf8.DecodeRune(value)
+	switch {
+	case len(value) == 1 && value[0] >= utf8.RuneSelf:
+		// char is signed
+		return strconv.Itoa(int(int8(value[0]))), true
+	case len(value) == 1, wide && len(value) > 0 && size == len(value):
+		return strconv.QuoteRune(r), true
+	}
+	return "", false
+}
+
+func isDigit(ch byte, base int) bool {
+	_, err := strconv.ParseUint(string(ch), base, 8)
+	return err == nil
+}
diff --git a/translator/translator.go b/translator/translator.go
index 9727bae..6caf76e 100644
--- a/translator/translator.go
+++ b/translator/translator.go
@@ -415,72 +415,21 @@ func (t *Translator) collectDefines(declares []*CDecl, defines map[string]*cc.Ma
 		}
 		tokens := macro.ReplacementList()
 		srcParts := make([]string, 0, len(tokens))
-		exprParts := make([]string, 0, len(tokens))
-		valid := true
-
-		// TODO: some state machine
-		needsTypecast := false
-		typecastValue := false
-		typecastValueParens := 0
-
 		for _, token := range tokens {
-			src := token.SrcStr()
-			srcParts = append(srcParts, src)
-			switch token.Ch {
-			case rune(cc.IDENTIFIER):
-				if _, ok := seen[src]; ok {
-					// const reference
-					exprParts = append(exprParts, string(t.TransformName(TargetConst, src)))
-				} else if _, ok := t.typedefsSet[src]; ok {
-					// type reference
-					needsTypecast = true
-					exprParts = append(exprParts, string(t.TransformName(TargetType, src)))
-				} else {
-					// an unresolved reference
-					valid = false
-					break
-				}
-			default:
-				// TODO: state machine
-				const (
-					lparen = rune(40)
-					rparen = rune(41)
-				)
-				switch {
-				case needsTypecast && token.Ch == rparen:
-					typecastValue = true
-					needsTypecast = false
-					exprParts = append(exprParts, src+"(")
-				case typecastValue && token.Ch == lparen:
-					typecastValueParens++
-				case typecastValue && token.Ch == rparen:
-					if typecastValueParens == 0 {
-						typecastValue = false
-						exprParts = append(exprParts, ")"+src)
-					} else {
-						typecastValueParens--
-					}
-				default:
-					// somewhere in the world a kitten died because of this
-					if token.Ch == '~' {
-						src = "^"
-					}
-					if runes := []rune(src); len(runes) > 0 && isNumeric(runes) {
-						// TODO(xlab): better const handling
-						src = readNumeric(runes)
-					}
-					exprParts = append(exprParts, src)
-				}
-			}
-			if !valid {
-				break
-			}
+			srcParts = append(srcParts, token.SrcStr())
 		}
-		if typecastValue {
-			// still in typecast value, need to close paren
-			exprParts = append(exprParts, ")")
-			typecastValue = false
+		expr := &constExpr{
+			tokens: tokens,
+			constName: func(name string) (string, bool) {
+				_, ok := seen[name]
+				return string(t.TransformName(TargetConst, name)), ok
+			},
+			typeName: func(name string) (string, bool) {
+				_, ok := t.typedefsSet[name]
+				return string(t.TransformName(TargetType, name)), ok
+			},
 		}
+		exprParts, valid := expr.rewrite()
 		if !valid {
 			if v := macro.Value(); v != nil && v != cc.Unknown {
 				// fallback to the evaluated value
-- 
2.43.0


From 6e23750f65f7b77427d25d122ad3e10cef0aa972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:35 +0000
Subject: [PATCH 17/45] fix: macros referred to macros without a value in Go,
 or took them for operands

A macro that is not generated must not be named by other ones, and a macro
stands for its tokens: (1 + 2) * 3 is not what A * 3 means for A being 1 + 2.
---
 translator/const_expr.go | 46 ++++++++++++++++++++++++++++++++++++++++
 translator/translator.go | 30 ++++++++++++++++++++++++--
 2 files changed, 74 insertions(+), 2 deletions(-)

diff --git a/translator/const_expr.go b/translator/const_expr.go
index dbb2799..e13af33 100644
--- a/translator/const_expr.go
+++ b/translator/const_expr.go
@@ -127,6 +127,52 @@ func (e *constExpr) unary() (parts []string, prec int, ok bool) {
 	return nil, 0, false
 }
 
+// expandMacros replaces names of macros that stand for tokens
+// and don't form an operand on their own.
+func expandMacros(tokens []cc.Token, macros map[string]*cc.Macro, hidden map[string]bool) []cc.Token {
+	if len(tokens) < 2 {
+		return tokens
+	}
+	result := make([]cc.Token, 0, len(tokens))
+	for _, token := range tokens {
+		name := token.SrcStr()
+		macro, ok := macros[name]
+		if !ok || hidden[name] || isOperand([]cc.Token{token}, macros, len(macros)) {
+			result = append(result, token)
+			continue
+		}
+		hidden[name] = true
+		result = append(result, expandMacros(macro.ReplacementList(), macros, hidden)...)
+		delete(hidden, name)
+	}
+	return result
+}
+
+// isOperand checks for a single token or an expression in parens, maybe with signs before.
+func isOperand(tokens []cc.Token, macros map[string]*cc.Macro, maxDepth int) bool {
+	for len(tokens) > 1 && strings.ContainsRune("+-~", tokens[0].Ch) {
+		tokens = tokens[1:]
+	}
+	if len(tokens) == 1 {
+		macro, ok := macros[tokens[0].SrcStr()]
+		return !ok || macro.IsFnLike || maxDepth == 0 ||
+			isOperand(macro.ReplacementList(), macros, maxDepth-1)
+	}
+	depth := 0
+	for i, token := range tokens {
+		switch token.Ch {
+		case '(':
+			depth++
+		case ')':
+			depth--
+		}
+		if depth == 0 && i < len(tokens)-1 {
+			return false
+		}
+	}
+	return len(tokens) > 0
+}
+
 func inParens(parts []string) []string {
 	return append(append([]string{"("}, parts...), ")")
 }
diff --git a/translator/translator.go b/translator/translator.go
index 6caf76e..e076405 100644
--- a/translator/translator.go
+++ b/translator/translator.go
@@ -347,6 +347,7 @@ func (t *Translator) Learn(ast *cc.AST) {
 
 func (t *Translator) collectDefines(declares []*CDecl, defines map[string]*cc.Macro) {
 	seen := make(map[string]struct{}, len(defines)+len(declares))
+	members := make(map[string]struct{}, len(declares))
 
 	// traverse declared constants because macro can reference them,
 	// so we need to collect a map of valid references beforehand
@@ -361,6 +362,7 @@ func (t *Translator) collectDefines(declares []*CDecl, defines map[string]*cc.Ma
 					continue
 				}
 				seen[member.Name] = struct{}{}
+				members[member.Name] = struct{}{}
 			}
 		}
 	}
@@ -380,12 +382,35 @@ func (t *Translator) collectDefines(declares []*CDecl, defines map[string]*cc.Ma
 		seen[name] = struct{}{}
 	}
 
+	// macros can depend on macros that turn out to have no value in Go
+	for again := true; again; {
+		t.defines = nil
+		t.addDefines(defines, seen)
+		defined := make(map[string]struct{}, len(t.defines))
+		for _, decl := range t.defines {
+			if decl.Value != nil || len(decl.Expression) > 0 {
+				defined[decl.Name] = struct{}{}
+			}
+		}
+		again = false
+		for name := range seen {
+			_, isMember := members[name]
+			if _, ok := defined[name]; ok || isMember {
+				continue
+			}
+			delete(seen, name)
+			again = true
+		}
+	}
+}
+
+func (t *Translator) addDefines(defines map[string]*cc.Macro, seen map[string]struct{}) {
 	for _, macro := range defines {
 		if t.IsTokenIgnored(macro.Position()) {
 			continue
 		}
 		name := string(macro.Name.SrcStr())
-		if _, ok := seen[name]; !ok {
+		if macro.IsFnLike || !t.IsAcceptableName(TargetConst, name) {
 			continue
 		}
 		expand := false
@@ -413,7 +438,7 @@ func (t *Translator) collectDefines(declares []*CDecl, defines map[string]*cc.Ma
 			// ban bools
 			continue
 		}
-		tokens := macro.ReplacementList()
+		tokens := expandMacros(macro.ReplacementList(), defines, map[string]bool{name: true})
 		srcParts := make([]string, 0, len(tokens))
 		for _, token := range tokens {
 			srcParts = append(srcParts, token.SrcStr())
@@ -426,6 +451,7 @@ func (t *Translator) collectDefines(declares []*CDecl, defines map[string]*cc.Ma
 			},
 			typeName: func(name string) (string, bool) {
 				_, ok := t.typedefsSet[name]
+				ok = ok && t.IsAcceptableName(TargetType, name)
 				return string(t.TransformName(TargetType, name)), ok
 			},
 		}
-- 
2.43.0


From 75066d39a73bc0796d8ac61af3eff743b801671a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:18 +0000
Subject: [PATCH 18/45] fix: enum constants with suffixed numbers had another
 type than their enum

Also follow macros that stand for the name of another macro when looking
for operands (completes the commit before).
---
 translator/ast_walker.go | 2 ++
 translator/const_expr.go | 8 ++++----
 translator/translator.go | 5 ++++-
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/translator/ast_walker.go b/translator/ast_walker.go
index 2f30d6a..53abd80 100644
--- a/translator/ast_walker.go
+++ b/translator/ast_walker.go
@@ -156,6 +156,8 @@ func (t *Translator) enumSpec(base *CTypeSpec, typ cc.Type) *CEnumSpec {
 					typeName: func(name string) (string, bool) {
 						return "", false
 					},
+					// the type is the one of the enum
+					untyped: true,
 				}
 				exprParts, valid := expr.rewrite()
 				if valid && len(exprParts) > 0 {
diff --git a/translator/const_expr.go b/translator/const_expr.go
index e13af33..fe66321 100644
--- a/translator/const_expr.go
+++ b/translator/const_expr.go
@@ -15,6 +15,8 @@ type constExpr struct {
 	// or false if there are no such constants or types.
 	constName func(name string) (string, bool)
 	typeName  func(name string) (string, bool)
+	// untyped tells to give up numbers with a type of their own.
+	untyped bool
 }
 
 const highestPrec = 6
@@ -110,7 +112,8 @@ func (e *constExpr) unary() (parts []string, prec int, ok bool) {
 		name, ok := e.constName(src)
 		return []string{name}, highestPrec, ok
 	case rune(cc.PPNUMBER), rune(cc.INTCONST), rune(cc.FLOATCONST):
-		return []string{readNumeric([]rune(src))}, highestPrec, true
+		src = readNumeric([]rune(src))
+		return []string{src}, highestPrec, !e.untyped || !strings.HasSuffix(src, ")")
 	case rune(cc.CHARCONST), rune(cc.LONGCHARCONST):
 		src, ok := readLiteral(src)
 		return []string{src}, highestPrec, ok
@@ -130,9 +133,6 @@ func (e *constExpr) unary() (parts []string, prec int, ok bool) {
 // expandMacros replaces names of macros that stand for tokens
 // and don't form an operand on their own.
 func expandMacros(tokens []cc.Token, macros map[string]*cc.Macro, hidden map[string]bool) []cc.Token {
-	if len(tokens) < 2 {
-		return tokens
-	}
 	result := make([]cc.Token, 0, len(tokens))
 	for _, token := range tokens {
 		name := token.SrcStr()
diff --git a/translator/translator.go b/translator/translator.go
index e076405..f48b91c 100644
--- a/translator/translator.go
+++ b/translator/translator.go
@@ -438,7 +438,10 @@ func (t *Translator) addDefines(defines map[string]*cc.Macro, seen map[string]st
 			// ban bools
 			continue
 		}
-		tokens := expandMacros(macro.ReplacementList(), defines, map[string]bool{name: true})
+		tokens := macro.ReplacementList()
+		if len(tokens) > 1 {
+			tokens = expandMacros(tokens, defines, map[string]bool{name: true})
+		}
 		srcParts := make([]string, 0, len(tokens))
 		for _, token := range tokens {
 			srcParts = append(srcParts, token.SrcStr())
-- 
2.43.0


From 72f92d54d7c016b0b0c69d1c6b69c88aaf913836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:19 +0000
Subject: [PATCH 19/45] fix: macros referring to members of enums with a
 typedef were dropped

---
 translator/translator.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/translator/translator.go b/translator/translator.go
index f48b91c..2abfd84 100644
--- a/translator/translator.go
+++ b/translator/translator.go
@@ -317,7 +317,7 @@ func (t *Translator) Learn(ast *cc.AST) {
 	t.resolveTypedefs(t.typedefs)
 	sort.Sort(declList(t.declares))
 	sort.Sort(declList(t.typedefs))
-	t.collectDefines(t.declares, ast.Macros)
+	t.collectDefines(append(t.declares[:len(t.declares):len(t.declares)], t.typedefs...), ast.Macros)
 	sort.Sort(declList(t.defines))
 }
 
@@ -355,6 +355,10 @@ func (t *Translator) collectDefines(declares []*CDecl, defines map[string]*cc.Ma
 		if t.IsTokenIgnored(decl.Position) {
 			continue
 		}
+		if decl.IsTypedef && !t.IsAcceptableName(TargetType, decl.Name) &&
+			!t.IsAcceptableName(TargetType, decl.Spec.GetTag()) {
+			continue // not going to be generated
+		}
 		if decl.Spec.Kind() == EnumKind {
 			enumMembers := decl.Spec.(*CEnumSpec).Members
 			for _, member := range enumMembers {
-- 
2.43.0


From 485c78399f6d97c3761a5afafc4feca2ee619c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:31 +0000
Subject: [PATCH 20/45] fix: constants with a long double value were emitted as
 a Go struct

---
 translator/ast_walker.go | 5 +----
 translator/translator.go | 8 ++++++--
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/translator/ast_walker.go b/translator/ast_walker.go
index 53abd80..c1ff7ea 100644
--- a/translator/ast_walker.go
+++ b/translator/ast_walker.go
@@ -2,7 +2,6 @@ package translator
 
 import (
 	"fmt"
-	"strconv"
 	"strings"
 
 	"modernc.org/cc/v4"
@@ -61,10 +60,8 @@ func (t *Translator) walkDeclaration(d *cc.Declaration) (declared []*CDecl) {
 			if init != nil && init.AssignmentExpression != nil {
 				switch v := init.AssignmentExpression.Value().(type) {
 				case *cc.UnknownValue:
-				case cc.StringValue:
-					decl.Value = strconv.Quote(strings.TrimSuffix(string(v), "\x00"))
 				default:
-					decl.Value = v
+					decl.Value = constValue(v)
 				}
 				decl.Expression = blessName(init.Token.SrcStr())
 			}
diff --git a/translator/translator.go b/translator/translator.go
index 2abfd84..8823406 100644
--- a/translator/translator.go
+++ b/translator/translator.go
@@ -3,6 +3,7 @@ package translator
 import (
 	"bytes"
 	"fmt"
+	"math/big"
 	"regexp"
 	"sort"
 	"strconv"
@@ -487,8 +488,11 @@ func (t *Translator) addDefines(defines map[string]*cc.Macro, seen map[string]st
 
 // constValue returns the value in a form that can be used in Go sources.
 func constValue(v cc.Value) Value {
-	if str, ok := v.(cc.StringValue); ok {
-		return strconv.Quote(strings.TrimSuffix(string(str), "\x00"))
+	switch v := v.(type) {
+	case cc.StringValue:
+		return strconv.Quote(strings.TrimSuffix(string(v), "\x00"))
+	case *cc.LongDoubleValue:
+		return (*big.Float)(v).Text('g', -1)
 	}
 	return Value(v)
 }
-- 
2.43.0


From 5ea3d4e410d003788b4f9163c155d0583f49dbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:25 +0000
Subject: [PATCH 21/45] fix: handles (typedefs of pointers to opaque structs)
 were called by the tag of the struct

---
 translator/ast_walker.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/translator/ast_walker.go b/translator/ast_walker.go
index c1ff7ea..73e2633 100644
--- a/translator/ast_walker.go
+++ b/translator/ast_walker.go
@@ -383,6 +383,10 @@ func (t *Translator) typeSpec(typ cc.Type, name string, deep int, isConst bool,
 		s := t.structSpec(spec, typ, deep+1)
 		if !isRet {
 			s.Typedef = typedefNameOf(typ)
+			if len(s.Typedef) == 0 && s.IsOpaque() {
+				// the typedef may name a pointer to the opaque struct, e.g. typedef struct a_T* a;
+				s.Typedef = spec.Raw
+			}
 		}
 		return s
 	case cc.Function:
-- 
2.43.0


From c870b1703295ef6844cd213a012008f05d24439c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:27 +0000
Subject: [PATCH 22/45] fix: pointers and arrays under a typedef were counted
 twice

---
 translator/ast_walker.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/translator/ast_walker.go b/translator/ast_walker.go
index 73e2633..6179e9d 100644
--- a/translator/ast_walker.go
+++ b/translator/ast_walker.go
@@ -401,6 +401,13 @@ func (t *Translator) typeSpec(typ cc.Type, name string, deep int, isConst bool,
 					s.Typedef = retTypedef
 				}
 				if s.Return != nil {
+					switch s.Return.Kind() {
+					case TypeKind, EnumKind, StructKind, UnionKind:
+						if s.Return.GetBase() != "void*" {
+							// as with params, pointers are counted by the spec already
+							retTypedef = baseTypedefNameOf(funcType.Result())
+						}
+					}
 					s.Return.SetRaw(retTypedef)
 				}
 			}
@@ -410,6 +417,10 @@ func (t *Translator) typeSpec(typ cc.Type, name string, deep int, isConst bool,
 		panic("unknown type " + typ.String())
 	}
 
+	if !isRet {
+		// pointers and arrays under a typedef are counted by the spec already
+		spec.Raw = baseTypedefNameOf(typ)
+	}
 	return spec
 }
 
@@ -449,6 +460,20 @@ func typedefNameOf(typ cc.Type) string {
 	return name
 }
 
+// baseTypedefNameOf gets the typedef name that remains for a type under its pointers and arrays.
+func baseTypedefNameOf(typ cc.Type) string {
+	for {
+		switch t := typ.(type) {
+		case *cc.PointerType:
+			typ = t.Elem()
+		case *cc.ArrayType:
+			typ = t.Elem()
+		default:
+			return typedefNameOf(typ)
+		}
+	}
+}
+
 func identifierOf(dd *cc.DirectDeclarator) string {
 	if dd == nil {
 		return ""
-- 
2.43.0


From ac6672eb2e0987b47ca5049e72a1bd6d3c145c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:30 +0000
Subject: [PATCH 23/45] fix: typedefs of pointers to structs were taken for the
 struct itself

---
 generator/gen_typedef.go |  6 ++++--
 generator/generator.go   |  8 ++++++--
 translator/translator.go | 25 ++++++++++++++++++++++---
 3 files changed, 32 insertions(+), 7 deletions(-)

diff --git a/generator/gen_typedef.go b/generator/gen_typedef.go
index 4722d6b..7fed722 100644
--- a/generator/gen_typedef.go
+++ b/generator/gen_typedef.go
@@ -115,15 +115,17 @@ func (gen *Generator) writeStructTypedef(wr io.Writer, decl *tl.CDecl, raw bool,
 		return
 	}
 
+	spec := decl.Spec.Copy()
+	spec.SetPointers(0) // the struct itself, even if the typedef is for a pointer to it
 	fmt.Fprintf(wr, "// %s as declared in %s\n", goName,
 		filepath.ToSlash(gen.tr.SrcLocation(tl.TargetType, cName, decl.Position)))
 	fmt.Fprintf(wr, "type %s struct {", goName)
 	writeSpace(wr, 1)
 	gen.submitHelper(cgoAllocMap)
-	gen.writeStructMembers(wr, cName, decl.Spec)
+	gen.writeStructMembers(wr, cName, spec)
 	writeEndStruct(wr)
 	writeSpace(wr, 1)
-	for _, helper := range gen.getStructHelpers(goName, cName, decl.Spec) {
+	for _, helper := range gen.getStructHelpers(goName, cName, spec) {
 		gen.submitHelper(helper)
 	}
 }
diff --git a/generator/generator.go b/generator/generator.go
index 4025cc4..27f371c 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -208,7 +208,9 @@ func (gen *Generator) WriteTypedefs(wr io.Writer) int {
 						continue
 					}
 				}
-				seenStructTags[tag] = true
+				if decl.Spec.IsOpaque() || decl.Spec.GetPointers() == 0 {
+					seenStructTags[tag] = true
+				}
 			}
 			memTip := gen.MemTipOf(decl)
 			gen.writeStructTypedef(wr, decl, memTip == tl.TipMemRaw, seenStructNames)
@@ -225,7 +227,9 @@ func (gen *Generator) WriteTypedefs(wr io.Writer) int {
 						continue
 					}
 				}
-				seenUnionTags[tag] = true
+				if decl.Spec.GetPointers() == 0 {
+					seenUnionTags[tag] = true
+				}
 			}
 			gen.writeUnionTypedef(wr, decl)
 		case tl.EnumKind:
diff --git a/translator/translator.go b/translator/translator.go
index 8823406..9cc57b3 100644
--- a/translator/translator.go
+++ b/translator/translator.go
@@ -888,7 +888,7 @@ func (t *Translator) TranslateSpec(spec CType, tips ...Tip) GoTypeSpec {
 				// e.g. typedef struct a_T* a; int f(a *arg);
 				// -> go_F(C.a *arg) but not go_F(C.a **arg) because of residual pointers.
 				wrapper.Pointers = 0
-				wrapper.splitPointers(ptrTip, spec.GetPointers()-decl.Spec.GetPointers())
+				wrapper.splitPointers(ptrTip, spec.GetPointers()-typedefPointers(decl, spec))
 			} else {
 				wrapper.splitPointers(ptrTip, spec.GetPointers())
 			}
@@ -908,8 +908,9 @@ func (t *Translator) NormalizeSpecPointers(spec CType) CType {
 	if spec.Kind() == OpaqueStructKind {
 		decl, tagKnown := t.tagMap[spec.GetTag()]
 		if tagKnown {
+			pointers := typedefPointers(decl, spec)
 			spec := spec.Copy()
-			spec.SetPointers(spec.GetPointers() - decl.Spec.GetPointers())
+			spec.SetPointers(spec.GetPointers() - pointers)
 			return spec
 		}
 	}
@@ -924,7 +925,7 @@ func (t *Translator) CGoSpec(spec CType, asArg bool) CGoSpec {
 	}
 	if decl, ok := t.tagMap[spec.GetTag()]; ok {
 		// count in the pointers of the base type under typedef
-		cgo.Pointers = spec.GetPointers() - decl.Spec.GetPointers()
+		cgo.Pointers = spec.GetPointers() - typedefPointers(decl, spec)
 	}
 	if typ, ok := spec.(*CTypeSpec); ok {
 		if typ.Base == "void*" {
@@ -940,6 +941,20 @@ func (t *Translator) CGoSpec(spec CType, asArg bool) CGoSpec {
 	return cgo
 }
 
+// typedefPointers tells how many pointers of the spec belong to the typedef it is named by.
+func typedefPointers(decl *CDecl, spec CType) uint8 {
+	if n := decl.Spec.GetPointers(); n <= spec.GetPointers() && decl.Name == spec.GetBase() {
+		return n
+	}
+	return 0
+}
+
+// isPointerAlias checks if the declaration is a typedef for a pointer to a complete struct or union,
+// the typedef isn't a name of the struct itself then.
+func isPointerAlias(decl *CDecl) bool {
+	return decl.IsTypedef && decl.Spec.GetPointers() > 0 && (decl.Spec.IsComplete() || decl.Spec.Kind() == UnionKind)
+}
+
 func (t *Translator) registerTagsOf(decl *CDecl) {
 	switch decl.Spec.Kind() {
 	case TypeKind, EnumKind, StructKind, OpaqueStructKind, UnionKind:
@@ -953,6 +968,10 @@ func (t *Translator) registerTagsOf(decl *CDecl) {
 			case !hasPrev:
 				// first time seen -> store the tag
 				t.tagMap[tag] = decl
+			case isPointerAlias(decl):
+				// a typedef for a pointer to a known struct is not the struct itself
+			case isPointerAlias(prev):
+				t.tagMap[tag] = decl
 			case decl.IsTypedef && !prev.IsTypedef:
 				// a typedef for tag prevails simple tag declarations
 				t.tagMap[tag] = decl
-- 
2.43.0


From ea0c34fbf3dbfbe9d823e9b3e009d120d8dc7013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:32 +0000
Subject: [PATCH 24/45] fix: an unsupported Arch (or a missing host compiler)
 made the parser panic

---
 parser/parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 137c1f4..7cdd82d 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -91,7 +91,10 @@ func ParseWith(cfg *Config) (*cc.AST, error) {
 		// the latter definition wins, so the host ones go before
 		predefined = fmt.Sprintf("\n%s", ccDefs) + predefined
 	}
-	ccConfig, _ := cc.NewConfig(runtime.GOOS, cfg.Arch)
+	ccConfig, err := cc.NewConfig(runtime.GOOS, cfg.Arch)
+	if err != nil {
+		return nil, err
+	}
 	// Let cc provide all predefines and builtins. Only append custom definitions.
 	ccConfig.Predefined += predefined
 	ccConfig.IncludePaths = append(ccConfig.IncludePaths, cfg.IncludePaths...)
-- 
2.43.0


From b5520ca4b4fc1e5f8648f4fad9f1422657f2ad8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:42 +0000
Subject: [PATCH 25/45] fix: a NULL result with the arr tip made the generated
 function panic

---
 generator/gen_bindings.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/generator/gen_bindings.go b/generator/gen_bindings.go
index e345282..9a4b9f7 100644
--- a/generator/gen_bindings.go
+++ b/generator/gen_bindings.go
@@ -903,8 +903,8 @@ func (gen *Generator) proxyRetToGo(memTip tl.Tip, varName, ptrName string,
 		return proxy, helper.Nillable
 	case isPlain && goSpec.Slices != 0: // ex: []byte
 		specStr := ptrs(goSpec.Pointers) + goSpec.PlainType()
-		proxy = fmt.Sprintf("%s := (*(*[%s]%s)(unsafe.Pointer(%s)))[:0]",
-			varName, gen.maxMem, specStr, ptrName)
+		proxy = fmt.Sprintf("var %s []%s\nif %s != nil {\n%s = (*(*[%s]%s)(unsafe.Pointer(%s)))[:0]\n}",
+			varName, specStr, ptrName, varName, gen.maxMem, specStr, ptrName)
 		return
 	case isPlain: // ex: byte, [4]byte
 		if (goSpec.Kind == tl.PlainTypeKind || goSpec.Kind == tl.EnumKind) &&
-- 
2.43.0


From e2520e3fafbee90d4b930c7f235f4716b60ad569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:48 +0000
Subject: [PATCH 26/45] fix: pass nil slice members of structs as NULL

The copy helpers of plain slices gave C a pointer to an empty allocation
when the slice was nil, so that C could not tell it from a present one.
---
 generator/gen_bindings.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/generator/gen_bindings.go b/generator/gen_bindings.go
index 9a4b9f7..bf9d754 100644
--- a/generator/gen_bindings.go
+++ b/generator/gen_bindings.go
@@ -379,6 +379,9 @@ func (gen *Generator) getCopyBytesHelper(cgoSpec tl.CGoSpec) *Helper {
 		Name:        name,
 		Description: fmt.Sprintf("%s copies the data from Go slice as %s.", name, cgoSpec),
 		Source: fmt.Sprintf(`func %s(slice *sliceHeader) (%s, *cgoAllocMap) {
+			if slice.Data == nil {
+				return nil, nil
+			}
 			allocs := new(cgoAllocMap)
 			defer runtime.SetFinalizer(allocs, func(a *cgoAllocMap) {
 				go a.Free()
-- 
2.43.0


From 2c2bfbfc2c5402715acd2049125438a1e0d8fdb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:45 +0000
Subject: [PATCH 27/45] fix: name the typedef in results of callbacks declared
 as plain functions

---
 translator/ast_walker.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/translator/ast_walker.go b/translator/ast_walker.go
index 6179e9d..261af8c 100644
--- a/translator/ast_walker.go
+++ b/translator/ast_walker.go
@@ -391,13 +391,13 @@ func (t *Translator) typeSpec(typ cc.Type, name string, deep int, isConst bool,
 		return s
 	case cc.Function:
 		s := t.functionSpec(spec, typ, name, isConst, deep+1)
-		if !isRet && typ.Typedef() == nil {
+		if !isRet {
 			if funcType, ok := typ.(*cc.FunctionType); ok {
 				// According to comparison with cc v1 behavior, typedef is set to return value typedef
 				// if this is not a function typedef.
 				// This is somehow strange, and probably causes some bugs, but I'm trying to replicate previous behaviour here.
 				retTypedef := typedefNameOf(funcType.Result())
-				if s.Typedef == "" {
+				if s.Typedef == "" && typ.Typedef() == nil {
 					s.Typedef = retTypedef
 				}
 				if s.Return != nil {
-- 
2.43.0


From bf2eb68b0a2e4240b3ff06a1562667c375a0fe56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:45 +0000
Subject: [PATCH 28/45] fix: callbacks return pointers by default, as their
 types say

---
 generator/gen_callbacks.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/generator/gen_callbacks.go b/generator/gen_callbacks.go
index 658ff53..8ca4f5a 100644
--- a/generator/gen_callbacks.go
+++ b/generator/gen_callbacks.go
@@ -134,7 +134,12 @@ func (gen *Generator) getCallbackHelpers(goFuncName, cFuncName string, spec tl.C
 		ret := fmt.Sprintf("ret%2x", crc)
 		fmt.Fprintf(buf, "%s := %sFunc(%s)\n", ret, cbGoName, paramNamesGoList)
 		ptrTipRx, typeTipRx, memTipRx := gen.tr.TipRxsForSpec(tl.TipScopeFunction, cFuncName, funcSpec)
-		retGoSpec := gen.tr.TranslateSpec(funcSpec.Return, ptrTipRx.Self(), typeTipRx.Self())
+		ptrTip := ptrTipRx.Self()
+		if !ptrTip.IsValid() {
+			// defaults to ref for the returns
+			ptrTip = tl.TipPtrRef
+		}
+		retGoSpec := gen.tr.TranslateSpec(funcSpec.Return, ptrTip, typeTipRx.Self())
 		retCGoSpec := gen.tr.CGoSpec(funcSpec.Return, true) // asArg?
 		retProxy, _ := gen.proxyArgFromGo(memTipRx.Self(), ret, retGoSpec, retCGoSpec)
 		fmt.Fprintf(buf, "ret, _ := %s\n", retProxy)
-- 
2.43.0


From cb2de5bf864d304835a84f7906e3f36737fc201d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:45 +0000
Subject: [PATCH 29/45] fix: leave callback members alone in Deref, the code
 for them didn't compile

---
 generator/gen_struct_helpers.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/generator/gen_struct_helpers.go b/generator/gen_struct_helpers.go
index 85dfa91..2d3e6b9 100644
--- a/generator/gen_struct_helpers.go
+++ b/generator/gen_struct_helpers.go
@@ -331,6 +331,9 @@ func (gen *Generator) getDerefSource(goStructName []byte, cStructName string, sp
 			if !gen.tr.IsAcceptableName(tl.TargetType, typeName) {
 				continue
 			}
+		case tl.FunctionKind:
+			// a C function can't be made a Go func
+			continue
 		}
 		memTip := memTipRx.TipAt(i)
 		if !memTip.IsValid() {
-- 
2.43.0


From 7a6dc7aa9c29c356d3a9815051ecdca0d4a696f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:23 +0000
Subject: [PATCH 30/45] fix: callbacks with a parameter called ret didn't
 compile

---
 generator/gen_callbacks.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/gen_callbacks.go b/generator/gen_callbacks.go
index 8ca4f5a..f22ee29 100644
--- a/generator/gen_callbacks.go
+++ b/generator/gen_callbacks.go
@@ -131,7 +131,7 @@ func (gen *Generator) getCallbackHelpers(goFuncName, cFuncName string, spec tl.C
 	fmt.Fprintf(buf, "if %sFunc != nil {\n", cbGoName)
 	buf.WriteString(proxySrc.String())
 	if funcSpec.Return != nil {
-		ret := fmt.Sprintf("ret%2x", crc)
+		ret := fmt.Sprintf("__ret%2x", crc)
 		fmt.Fprintf(buf, "%s := %sFunc(%s)\n", ret, cbGoName, paramNamesGoList)
 		ptrTipRx, typeTipRx, memTipRx := gen.tr.TipRxsForSpec(tl.TipScopeFunction, cFuncName, funcSpec)
 		ptrTip := ptrTipRx.Self()
-- 
2.43.0


From da20f54b3ddb63152d38e87c3799cdfd9147a59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:23 +0000
Subject: [PATCH 31/45] fix: callbacks with parameters like x and cx didn't
 compile

---
 generator/gen_callbacks.go | 16 +---------------
 1 file changed, 1 insertion(+), 15 deletions(-)

diff --git a/generator/gen_callbacks.go b/generator/gen_callbacks.go
index f22ee29..6b2afee 100644
--- a/generator/gen_callbacks.go
+++ b/generator/gen_callbacks.go
@@ -198,13 +198,6 @@ func (gen *Generator) createCallbackProxies(funcName string, funcSpec tl.CType)
 	spec := funcSpec.(*tl.CFunctionSpec)
 	to = make([]proxyDecl, 0, len(spec.Params))
 
-	cNamesSeen := make(map[string]struct{}, len(spec.Params))
-	for _, param := range spec.Params {
-		if len(param.Name) > 0 {
-			cNamesSeen[param.Name] = struct{}{}
-		}
-	}
-
 	crc := getRefCRC(funcSpec)
 	ptrTipRx, typeTipRx, memTipRx := gen.tr.TipRxsForSpec(tl.TipScopeFunction, funcName, funcSpec)
 	for i, param := range spec.Params {
@@ -220,14 +213,7 @@ func (gen *Generator) createCallbackProxies(funcName string, funcSpec tl.CType)
 		}
 		toBuf := new(bytes.Buffer)
 
-		cname := "c" + refName
-		_, seen := cNamesSeen[cname]
-		for seen {
-			cname = "c" + cname
-			_, seen = cNamesSeen[cname]
-		}
-		cNamesSeen[cname] = struct{}{}
-
+		cname := "c" + refName // as in writeCallbackProxyFuncParams
 		refName = fmt.Sprintf("%s%2x", refName, crc)
 		toProxy, _ := gen.proxyCallbackArgToGo(memTipRx.TipAt(i), refName, cname, goSpec, cgoSpec)
 		if len(toProxy) > 0 {
-- 
2.43.0


From f12429b8eea930a5e028e660f8a3654e0dec23eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:52 +0000
Subject: [PATCH 32/45] fix: see the const of unnamed parameters, const char *
 became []byte

---
 translator/ast_walker.go | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/translator/ast_walker.go b/translator/ast_walker.go
index 261af8c..5862b88 100644
--- a/translator/ast_walker.go
+++ b/translator/ast_walker.go
@@ -234,13 +234,9 @@ func (t *Translator) functionSpec(base *CTypeSpec, typ cc.Type, name string, isC
 			if funcType.Result().Typedef() != nil {
 				name = identifierOf(funcType.Result().Typedef().DirectDeclarator)
 				isResultConst = isResultConst || funcType.Result().Typedef().IsConst()
-			} else if ptr, ok := ret.(*cc.PointerType); ok {
-				// the result has no declarator of its own, so constness of a pointed value
-				// can be told by its attributes only, e.g. const char *foo();
-				elem := ptr.Elem()
-				if attrs := elem.Attributes(); attrs != nil && elem.Kind() != cc.Ptr && elem.Typedef() == nil {
-					isResultConst = isResultConst || attrs.IsConst()
-				}
+			} else {
+				// the result has no declarator of its own, e.g. const char *foo();
+				isResultConst = isResultConst || pointsToConst(ret, false)
 			}
 			spec.Return = t.typeSpec(ret, name, deep+1, isResultConst, true)
 		}
@@ -252,6 +248,13 @@ func (t *Translator) functionSpec(base *CTypeSpec, typ cc.Type, name string, isC
 				if p.Declarator != nil {
 					name = identifierOf(p.Declarator.DirectDeclarator)
 					isParamConst = p.Declarator.IsConst()
+				} else {
+					// neither has an unnamed parameter, e.g. void foo(const char *);
+					typ := p.Type()
+					for ptr, ok := typ.(*cc.PointerType); ok && ptr.Elem().Kind() == cc.Ptr; ptr, ok = typ.(*cc.PointerType) {
+						typ = ptr.Elem()
+					}
+					isParamConst = pointsToConst(typ, true)
 				}
 				spec.Params = append(spec.Params, &CDecl{
 					Name:     paramName(i, p),
@@ -264,6 +267,18 @@ func (t *Translator) functionSpec(base *CTypeSpec, typ cc.Type, name string, isC
 	return spec
 }
 
+// pointsToConst tells the constness of a pointed value by its attributes, named
+// allows it to be of a typedef.
+func pointsToConst(typ cc.Type, named bool) bool {
+	ptr, ok := typ.(*cc.PointerType)
+	if !ok || typ.Typedef() != nil {
+		return false
+	}
+	elem := ptr.Elem()
+	attrs := elem.Attributes()
+	return attrs != nil && elem.Kind() != cc.Ptr && (named || elem.Typedef() == nil) && attrs.IsConst()
+}
+
 func (t *Translator) typeSpec(typ cc.Type, name string, deep int, isConst bool, isRet bool) CType {
 	spec := &CTypeSpec{
 		Const: isConst,
-- 
2.43.0


From 09888783e5ddcd221722ad131748243b2581dc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:44 +0000
Subject: [PATCH 33/45] fix: doc rules were given no name for enums without a
 typedef

---
 generator/gen_const.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/generator/gen_const.go b/generator/gen_const.go
index ff1bd7f..fa96fd6 100644
--- a/generator/gen_const.go
+++ b/generator/gen_const.go
@@ -135,6 +135,7 @@ func (gen *Generator) expandEnum(wr io.Writer, decl *tl.CDecl, namesSeen map[str
 	}
 
 	spec := decl.Spec.(*tl.CEnumSpec)
+	cName, _ := getName(decl)
 	tagName := gen.tr.TransformName(tl.TargetType, decl.Spec.GetBase())
 	enumType := gen.tr.TranslateSpec(&spec.Type)
 	if tips, ok := gen.tr.TypeTipRx(tl.TipScopeEnum, string(tagName)); ok {
@@ -143,21 +144,21 @@ func (gen *Generator) expandEnum(wr io.Writer, decl *tl.CDecl, namesSeen map[str
 		}
 	}
 	fmt.Fprintf(wr, "// %s as declared in %s\n", tagName,
-		filepath.ToSlash(gen.tr.SrcLocation(tl.TargetConst, decl.Name, decl.Position)))
+		filepath.ToSlash(gen.tr.SrcLocation(tl.TargetConst, cName, decl.Position)))
 	fmt.Fprintf(wr, "type %s %s\n", tagName, enumType)
 	writeSpace(wr, 1)
 	if isTypedef {
 		if !bytes.Equal(tagName, declName) && len(declName) > 0 {
 			// alias type decl name to the tag
 			fmt.Fprintf(wr, "// %s as declared in %s\n", declName,
-				filepath.ToSlash(gen.tr.SrcLocation(tl.TargetConst, decl.Name, decl.Position)))
+				filepath.ToSlash(gen.tr.SrcLocation(tl.TargetConst, cName, decl.Position)))
 			fmt.Fprintf(wr, "type %s %s", declName, tagName)
 			writeSpace(wr, 1)
 		}
 	}
 
 	fmt.Fprintf(wr, "// %s enumeration from %s\n", tagName,
-		filepath.ToSlash(gen.tr.SrcLocation(tl.TargetConst, decl.Name, decl.Position)))
+		filepath.ToSlash(gen.tr.SrcLocation(tl.TargetConst, cName, decl.Position)))
 	writeStartConst(wr)
 	for i, m := range spec.Members {
 		if !gen.tr.IsAcceptableName(tl.TargetConst, m.Name) {
-- 
2.43.0


From 6d3f398e7706fac68c4a42f8f2bdb9cba680cf6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:53 +0000
Subject: [PATCH 34/45] fix: predefined macros were said to be in the working
 directory

---
 translator/helpers.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/translator/helpers.go b/translator/helpers.go
index 7780625..cf7e14e 100644
--- a/translator/helpers.go
+++ b/translator/helpers.go
@@ -31,6 +31,10 @@ var (
 
 // narrowPath reduces full path to file name and parent dir only.
 func narrowPath(fp string) string {
+	if strings.HasPrefix(fp, "<") {
+		// not a file but <predefined> or <builtin>
+		return fp
+	}
 	if !filepath.IsAbs(fp) {
 		if abs, err := filepath.Abs(fp); err != nil {
 			// seems to be reduced already
-- 
2.43.0


From 4bc24a682c5186204a2c164685c8337dd4f6f2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:10 +0000
Subject: [PATCH 35/45] fix: callbacks returning raw structs didn't compile

---
 generator/gen_callbacks.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/generator/gen_callbacks.go b/generator/gen_callbacks.go
index 6b2afee..5adc18d 100644
--- a/generator/gen_callbacks.go
+++ b/generator/gen_callbacks.go
@@ -141,7 +141,11 @@ func (gen *Generator) getCallbackHelpers(goFuncName, cFuncName string, spec tl.C
 		}
 		retGoSpec := gen.tr.TranslateSpec(funcSpec.Return, ptrTip, typeTipRx.Self())
 		retCGoSpec := gen.tr.CGoSpec(funcSpec.Return, true) // asArg?
-		retProxy, _ := gen.proxyArgFromGo(memTipRx.Self(), ret, retGoSpec, retCGoSpec)
+		retTip := memTipRx.Self()
+		if !retTip.IsValid() {
+			retTip = gen.MemTipOf(&tl.CDecl{Spec: funcSpec.Return})
+		}
+		retProxy, _ := gen.proxyArgFromGo(retTip, ret, retGoSpec, retCGoSpec)
 		fmt.Fprintf(buf, "ret, _ := %s\n", retProxy)
 		fmt.Fprintf(buf, "return ret\n")
 	} else {
-- 
2.43.0


From 9c114ae1cde96a96d25c3ae87435d3e479cf9ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:10 +0000
Subject: [PATCH 36/45] fix: parameters that are arrays of arrays or pointers
 to arrays didn't compile

---
 generator/gen_bindings.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/generator/gen_bindings.go b/generator/gen_bindings.go
index bf9d754..84ab855 100644
--- a/generator/gen_bindings.go
+++ b/generator/gen_bindings.go
@@ -541,6 +541,10 @@ func (gen *Generator) proxyArgFromGo(memTip tl.Tip, name string,
 	}
 	gen.submitHelper(cgoAllocMap)
 
+	// pointers to arrays are passed as such
+	argSpec := cgoSpec
+	argSpec.Base = cgoSpec.InnerArr.String() + cgoSpec.Base
+
 	isPlain := (memTip == tl.TipMemRaw) || goSpec.IsPlain() || goSpec.IsPlainKind()
 	switch {
 	case !isPlain && (goSpec.Slices > 0 || len(goSpec.OuterArr) > 0), // ex: []string
@@ -559,7 +563,7 @@ func (gen *Generator) proxyArgFromGo(memTip tl.Tip, name string,
 		}
 		helper := gen.getCopyBytesHelper(cgoSpec)
 		gen.submitHelper(helper)
-		proxy = fmt.Sprintf("(%s)(unsafe.Pointer((*sliceHeader)(unsafe.Pointer(&%s)).Data)), cgoAllocsUnknown", cgoSpec.AtLevel(0), name)
+		proxy = fmt.Sprintf("(%s)(unsafe.Pointer((*sliceHeader)(unsafe.Pointer(&%s)).Data)), cgoAllocsUnknown", argSpec.AtLevel(0), name)
 		return proxy, helper.Nillable
 	case isPlain: // ex: byte, [4]byte
 		var ref, ptr string
@@ -584,7 +588,7 @@ func (gen *Generator) proxyArgFromGo(memTip tl.Tip, name string,
 			ptr = "*"
 		}
 		proxy = fmt.Sprintf("%s(%s%s)(unsafe.Pointer(%s%s)), cgoAllocsUnknown",
-			ptr, ptr, cgoSpec.AtLevel(0), ref, name)
+			ptr, ptr, argSpec.AtLevel(0), ref, name)
 		return
 	default: // ex: *SomeType
 		if goSpec.Pointers == 0 {
-- 
2.43.0


From 01264366aeef0f86a820ea21ddbbaf0c8ba0fab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:10 +0000
Subject: [PATCH 37/45] fix: helpers of different C types with the same Go type
 shared a name

---
 generator/gen_bindings.go | 20 ++++++++++++++++----
 generator/generator.go    |  2 ++
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/generator/gen_bindings.go b/generator/gen_bindings.go
index 84ab855..d458a60 100644
--- a/generator/gen_bindings.go
+++ b/generator/gen_bindings.go
@@ -71,6 +71,19 @@ func getHelperName(goSpec tl.GoTypeSpec) string {
 	return buf.String()
 }
 
+// getProxyHelperName returns the name of the proxy helper for the goSpec, C types
+// that share a Go type (char and unsigned char, long and long long) don't share helpers.
+func (gen *Generator) getProxyHelperName(prefix string, goSpec tl.GoTypeSpec, cgoSpec tl.CGoSpec) string {
+	name := prefix + getHelperName(goSpec)
+	base, ok := gen.helperBases[name]
+	if !ok {
+		gen.helperBases[name] = cgoSpec.Base
+	} else if base != cgoSpec.Base {
+		name += gen.getTypedHelperName("", tl.CGoSpec{Base: cgoSpec.Base})
+	}
+	return name
+}
+
 func (gen *Generator) getTypedHelperName(goBase string, spec tl.CGoSpec) string {
 	if strings.HasPrefix(spec.Base, "C.") {
 		spec.Base = spec.Base[2:]
@@ -419,10 +432,9 @@ func goSpecArg(goSpec tl.GoTypeSpec, isArg bool) string {
 func (gen *Generator) getUnpackHelper(goSpec tl.GoTypeSpec, cgoSpec tl.CGoSpec, isArg bool) *Helper {
 	name := "unpack"
 	if isArg {
-		name += "Arg" + getHelperName(goSpec)
-	} else {
-		name += getHelperName(goSpec)
+		name += "Arg"
 	}
+	name = gen.getProxyHelperName(name, goSpec, cgoSpec)
 	code := new(bytes.Buffer)
 	fmt.Fprintf(code, "func %s(x %s) (unpacked %s, allocs *cgoAllocMap) {\n",
 		name, goSpecArg(goSpec, isArg), cgoSpecArg(cgoSpec, 0, isArg))
@@ -685,7 +697,7 @@ func (gen *Generator) getPackStringHelper(cgoSpec tl.CGoSpec) *Helper {
 }
 
 func (gen *Generator) getPackHelper(memTip tl.Tip, goSpec tl.GoTypeSpec, cgoSpec tl.CGoSpec) *Helper {
-	name := "pack" + getHelperName(goSpec)
+	name := gen.getProxyHelperName("pack", goSpec, cgoSpec)
 	code := new(bytes.Buffer)
 	var ref string
 	if len(goSpec.OuterArr) > 0 {
diff --git a/generator/generator.go b/generator/generator.go
index 27f371c..e2bc161 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -17,6 +17,7 @@ type Generator struct {
 	closed        bool
 	closeC, doneC chan struct{}
 	helpersChan   chan *Helper
+	helperBases   map[string]string
 	rand          *rand.Rand
 	noTimestamps  bool
 	maxMem        MemSpec
@@ -61,6 +62,7 @@ func New(pkg string, cfg *Config, tr *tl.Translator) (*Generator, error) {
 		tr:  tr,
 		//
 		helpersChan: make(chan *Helper, 1),
+		helperBases: make(map[string]string),
 		closeC:      make(chan struct{}),
 		doneC:       make(chan struct{}),
 		rand:        rand.New(rand.NewSource(+79269965690)),
-- 
2.43.0


From fe16112e6e54b26cb8792b8dfb898b9f1c60e089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:41 +0000
Subject: [PATCH 38/45] fix: raw structs without a typedef were passed as if
 they were wrapped

---
 generator/generator.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/generator/generator.go b/generator/generator.go
index e2bc161..319deb5 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -182,6 +182,12 @@ func (gen *Generator) WriteConst(wr io.Writer) int {
 func (gen *Generator) MemTipOf(decl *tl.CDecl) tl.Tip {
 	var memTip tl.Tip
 	if name := decl.Spec.CGoName(); len(name) > 0 {
+		if tag := decl.Spec.GetTag(); name == "struct_"+tag {
+			// structs without a typedef go by their tag
+			if memTipRx, ok := gen.tr.MemTipRx(tag); ok {
+				return memTipRx.Self()
+			}
+		}
 		if memTipRx, ok := gen.tr.MemTipRx(name); ok {
 			memTip = memTipRx.Self()
 		}
@@ -261,11 +267,8 @@ func (gen *Generator) WriteTypedefs(wr io.Writer) int {
 			} else if !gen.tr.IsAcceptableName(tl.TargetType, tag) {
 				continue
 			}
-			if memTipRx, ok := gen.tr.MemTipRx(tag); ok {
-				gen.writeStructTypedef(wr, decl, memTipRx.Self() == tl.TipMemRaw, seenStructNames)
-			} else {
-				gen.writeStructTypedef(wr, decl, false, seenStructNames)
-			}
+			memTip := gen.MemTipOf(decl)
+			gen.writeStructTypedef(wr, decl, memTip == tl.TipMemRaw, seenStructNames)
 			writeSpace(wr, 1)
 			count++
 		case tl.UnionKind:
-- 
2.43.0


From 126c7c9d1fbd2500b60e7dcce3ac5e6deeb7f374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:43 +0000
Subject: [PATCH 39/45] fix: accessors for arrays of structs didn't compile

---
 generator/gen_bindings.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/gen_bindings.go b/generator/gen_bindings.go
index d458a60..d1cb00b 100644
--- a/generator/gen_bindings.go
+++ b/generator/gen_bindings.go
@@ -835,7 +835,7 @@ func (gen *Generator) proxyValueToGo(memTip tl.Tip, varName, ptrName string,
 		gen.submitHelper(sliceHeader)
 		gen.submitHelper(helper)
 		if len(goSpec.OuterArr) > 0 {
-			ptrName = fmt.Sprintf("(*%s)(unsafe.Pointer(&%s))", cgoSpec, ptrName)
+			ptrName = fmt.Sprintf("(*%s)(unsafe.Pointer(&%s))", cgoSpec, strings.TrimPrefix(ptrName, "&"))
 		}
 		var ref string
 		switch {
-- 
2.43.0


From 40d20b25e44bfaffa4a3d554f4eeb479576a8c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:14 +0000
Subject: [PATCH 40/45] fix: typedefs of named pointers were given a slice too
 many with a type map

A typedef of T* for an accepted T, where the type map or the const char
mapping makes something else of the pointer, was written with both.
---
 generator/gen_typedef.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/gen_typedef.go b/generator/gen_typedef.go
index 7fed722..cad05f0 100644
--- a/generator/gen_typedef.go
+++ b/generator/gen_typedef.go
@@ -9,7 +9,7 @@ import (
 )
 
 func (gen *Generator) writeTypeTypedef(wr io.Writer, decl *tl.CDecl, seenNames map[string]bool) {
-	goSpec := gen.tr.TranslateSpec(decl.Spec)
+	goSpec := gen.tr.TranslateSpec(decl.Spec, tl.TipTypePlain)
 	goTypeName := gen.tr.TransformName(tl.TargetType, decl.Name)
 	if seenNames[string(goTypeName)] {
 		return
-- 
2.43.0


From 307d59e61955369c83f62f5df9a70ef049e2481d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:27 +0000
Subject: [PATCH 41/45] fix: a typedef called like its struct or union was lost
 after another typedef of it

---
 generator/generator.go | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/generator/generator.go b/generator/generator.go
index 319deb5..8f59a6a 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -211,11 +211,6 @@ func (gen *Generator) WriteTypedefs(wr io.Writer) int {
 		switch decl.Spec.Kind() {
 		case tl.StructKind, tl.OpaqueStructKind:
 			if tag := decl.Spec.GetTag(); len(tag) > 0 {
-				if len(decl.Name) == 0 || decl.Name == tag {
-					if seenStructTags[tag] {
-						continue
-					}
-				}
 				if decl.Spec.IsOpaque() || decl.Spec.GetPointers() == 0 {
 					seenStructTags[tag] = true
 				}
@@ -223,18 +218,12 @@ func (gen *Generator) WriteTypedefs(wr io.Writer) int {
 			memTip := gen.MemTipOf(decl)
 			gen.writeStructTypedef(wr, decl, memTip == tl.TipMemRaw, seenStructNames)
 		case tl.UnionKind:
-			if len(decl.Name) > 0 {
-				if seenUnionNames[decl.Name] {
-					continue
-				}
-				seenUnionNames[decl.Name] = true
+			if goName := string(gen.tr.TransformName(tl.TargetType, decl.Name)); seenUnionNames[goName] {
+				continue
+			} else {
+				seenUnionNames[goName] = true
 			}
 			if tag := decl.Spec.GetTag(); len(tag) > 0 {
-				if len(decl.Name) == 0 || decl.Name == tag {
-					if seenUnionTags[tag] {
-						continue
-					}
-				}
 				if decl.Spec.GetPointers() == 0 {
 					seenUnionTags[tag] = true
 				}
-- 
2.43.0


From 5624b7a60c8eb49b5570d2dd79f6445ff59bb8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:18 +0000
Subject: [PATCH 42/45] fix: a variable of an enum brought its type in although
 the rules ignore it

---
 generator/generator.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/generator/generator.go b/generator/generator.go
index 8f59a6a..7d164d7 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -130,7 +130,9 @@ func (gen *Generator) WriteConst(wr io.Writer) int {
 		}
 	}
 
+	typedefs := make(map[string]bool)
 	for _, decl := range gen.tr.Typedefs() {
+		typedefs[decl.Name] = true
 		if decl.Spec.Kind() != tl.EnumKind {
 			continue
 		} else if !decl.Spec.IsComplete() {
@@ -148,10 +150,9 @@ func (gen *Generator) WriteConst(wr io.Writer) int {
 			if !decl.Spec.IsComplete() {
 				continue
 			}
-			if len(decl.Name) > 0 {
-				if !gen.tr.IsAcceptableName(tl.TargetType, decl.Name) {
-					continue
-				}
+			if tag := decl.Spec.GetTag(); len(decl.Name) > 0 && typedefs[tag] {
+				// a variable does not bring in the type that it is of
+				continue
 			}
 			if expandEnum(decl) {
 				count++
-- 
2.43.0


From c35eec78f3555d3eb5e8c012b774298965883953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:37 +0000
Subject: [PATCH 43/45] fix: complex types are complex64 and complex128 in Go

---
 translator/ast_walker.go    | 6 +++---
 translator/model_go_type.go | 2 +-
 translator/model_type.go    | 5 ++++-
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/translator/ast_walker.go b/translator/ast_walker.go
index 5862b88..b43d4f0 100644
--- a/translator/ast_walker.go
+++ b/translator/ast_walker.go
@@ -370,13 +370,13 @@ func (t *Translator) typeSpec(typ cc.Type, name string, deep int, isConst bool,
 		spec.Base = "_Bool"
 		// according to C99, _Bool is unsigned, but the flag is not used here.
 	case cc.ComplexFloat:
-		spec.Base = "complexfloat"
+		spec.Base = "float"
 		spec.Complex = true
 	case cc.ComplexDouble:
-		spec.Base = "complexdouble"
+		spec.Base = "double"
 		spec.Complex = true
 	case cc.ComplexLongDouble:
-		spec.Base = "complexdouble"
+		spec.Base = "double"
 		spec.Long = true
 		spec.Complex = true
 	case cc.Enum:
diff --git a/translator/model_go_type.go b/translator/model_go_type.go
index 7845645..a7a7fbc 100644
--- a/translator/model_go_type.go
+++ b/translator/model_go_type.go
@@ -45,7 +45,7 @@ func (spec GoTypeSpec) IsPlainKind() bool {
 
 func (spec GoTypeSpec) IsPlain() bool {
 	switch spec.Base {
-	case "int", "byte", "rune", "float", "unsafe.Pointer", "bool":
+	case "int", "byte", "rune", "float", "unsafe.Pointer", "bool", "complex":
 		return true
 	case "string":
 		return false
diff --git a/translator/model_type.go b/translator/model_type.go
index 347894e..40e0c2e 100644
--- a/translator/model_type.go
+++ b/translator/model_type.go
@@ -84,6 +84,9 @@ func (c *CTypeSpec) CGoName() (name string) {
 	if len(c.Raw) > 0 {
 		return c.Raw
 	}
+	if c.Complex {
+		name = "complex"
+	}
 	switch c.Base {
 	case "int", "short", "long", "char":
 		if c.Unsigned {
@@ -103,7 +106,7 @@ func (c *CTypeSpec) CGoName() (name string) {
 			name += c.Base
 		}
 	default:
-		name = c.Base
+		name += c.Base
 	}
 	return
 }
-- 
2.43.0


From bc4e67a6ed5e42a806d3a66df6d26ac291712336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:37 +0000
Subject: [PATCH 44/45] fix: a source given by an absolute path that does not
 exist is an error

---
 parser/parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 7cdd82d..ed607a4 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -129,7 +129,9 @@ func checkConfig(cfg *Config) (*Config, error) {
 				path = hPath
 			}
 		}
-		if info, err := os.Stat(path); err != nil || info.IsDir() {
+		if info, err := os.Stat(path); err != nil {
+			return nil, fmt.Errorf("parser: file specified but not found: %s", path)
+		} else if info.IsDir() {
 			continue
 		}
 		if absPath, err := filepath.Abs(path); err != nil {
-- 
2.43.0


From 5f81521fb6e78b3dfe0825b0d4d29cb1621d9f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:37 +0000
Subject: [PATCH 45/45] fix: float macros of the configuration keep their value

---
 parser/parser.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index ed607a4..7e575b3 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -50,7 +50,12 @@ func ParseWith(cfg *Config) (*cc.AST, error) {
 		case int, int16, int32, int64, uint, uint16, uint32, uint64:
 			predefined += fmt.Sprintf("\n#define %s %d", name, v)
 		case float32, float64:
-			predefined += fmt.Sprintf("\n#define %s %ff", name, v)
+			// the shortest form with this value, with a suffix it needs a point or an exponent
+			num := fmt.Sprintf("%g", v)
+			if !strings.ContainsAny(num, ".e") {
+				num += ".0"
+			}
+			predefined += fmt.Sprintf("\n#define %s %sf", name, num)
 		case map[interface{}]interface{}:
 			if len(v) == 0 { // the special case for override a definition beforehand
 				predefined += fmt.Sprintf("\n#define %s", name)
-- 
2.43.0

