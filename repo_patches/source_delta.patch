From 61184fc2cbd6a186e8724b2df3a4e9dbcd5e5c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:07 +0000
Subject: [PATCH 01/70] fix: C++ generation panics on in/not_in rules of
 wrapper fields

---
 templates/cc/register.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/templates/cc/register.go b/templates/cc/register.go
index 615932c..4f9e8cc 100644
--- a/templates/cc/register.go
+++ b/templates/cc/register.go
@@ -292,6 +292,11 @@ func (fns CCFuncs) inType(f pgs.Field, x interface{}) string {
 			return "string"
 		case []*durationpb.Duration:
 			return "pgv::protobuf_wkt::Duration"
+		case [][]byte:
+			return "string"
+		case []float32, []float64, []int32, []int64, []uint32, []uint64:
+			// Rules of a wrapper type: the list holds the wrapped scalar.
+			return fns.cTypeOfString(pgsgo.TypeName(fmt.Sprintf("%T", x)).Element().String())
 		default:
 			return fns.className(f.Type().Element().Embed())
 		}
-- 
2.43.0


From 58400f0c79b2b553a9e526a1713313c2beecb411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:28 +0000
Subject: [PATCH 02/70] fix: C++ numeric rule literals lose precision or do not
 compile

Float and double literals in generated C++ were rendered with %f or %v,
so a bound such as 1e-7 became 0; the smallest int64 overflowed. Render
the shortest exact form instead, and use lit in the range comparisons.
---
 templates/cc/ltgt.go     | 24 ++++++++++++------------
 templates/cc/register.go | 12 +++++++++++-
 2 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/templates/cc/ltgt.go b/templates/cc/ltgt.go
index f296d93..9f31025 100644
--- a/templates/cc/ltgt.go
+++ b/templates/cc/ltgt.go
@@ -4,61 +4,61 @@ const ltgtTpl = `{{ $f := .Field }}{{ $r := .Rules }}{{ $v := (accessor .) }}
 	{{ if $r.Lt }}
 		{{ if $r.Gt }}
 			{{  if gt $r.GetLt $r.GetGt }}
-				if ({{ $v }} <= {{ $r.Gt }} || {{ $v }} >= {{ $r.Lt }}) {
+				if ({{ $v }} <= {{ lit $r.GetGt }} || {{ $v }} >= {{ lit $r.GetLt }}) {
 					{{ err . "value must be inside range (" $r.GetGt ", " $r.GetLt ")" }}
 				}
 			{{ else }}
-				if ({{ $v }} >= {{ $r.Lt }} && {{ $v }} <= {{ $r.Gt }}) {
+				if ({{ $v }} >= {{ lit $r.GetLt }} && {{ $v }} <= {{ lit $r.GetGt }}) {
 					{{ err . "value must be outside range [" $r.GetLt ", " $r.GetGt "]" }}
 				}
 			{{ end }}
 		{{ else if $r.Gte }}
 			{{  if gt $r.GetLt $r.GetGte }}
-				if ({{ $v }} < {{ $r.Gte }} || {{ $v }} >= {{ $r.Lt }}) {
+				if ({{ $v }} < {{ lit $r.GetGte }} || {{ $v }} >= {{ lit $r.GetLt }}) {
 					{{ err . "value must be inside range [" $r.GetGte ", " $r.GetLt ")" }}
 				}
 			{{ else }}
-				if ({{ $v }} >= {{ $r.Lt }} && {{ $v }} < {{ $r.Gte }}) {
+				if ({{ $v }} >= {{ lit $r.GetLt }} && {{ $v }} < {{ lit $r.GetGte }}) {
 					{{ err . "value must be outside range [" $r.GetLt ", " $r.GetGte ")" }}
 				}
 			{{ end }}
 		{{ else }}
-			if ({{ accessor . }} >= {{ $r.Lt }}) {
+			if ({{ accessor . }} >= {{ lit $r.GetLt }}) {
 				{{ err . "value must be less than " $r.GetLt }}
 			}
 		{{ end }}
 	{{ else if $r.Lte }}
 		{{ if $r.Gt }}
 			{{  if gt $r.GetLte $r.GetGt }}
-				if ({{ $v }} <= {{ $r.Gt }} || {{ $v }} > {{ $r.Lte }}) {
+				if ({{ $v }} <= {{ lit $r.GetGt }} || {{ $v }} > {{ lit $r.GetLte }}) {
 					{{ err . "value must be inside range (" $r.GetGt ", " $r.GetLte "]" }}
 				}
 			{{ else }}
-				if ({{ $v }} > {{ $r.Lte }} && {{ $v }} <= {{ $r.Gt }}) {
+				if ({{ $v }} > {{ lit $r.GetLte }} && {{ $v }} <= {{ lit $r.GetGt }}) {
 					{{ err . "value must be outside range (" $r.GetLte ", " $r.GetGt "]" }}
 				}
 			{{ end }}
 		{{ else if $r.Gte }}
 			{{ if gt $r.GetLte $r.GetGte }}
-				if ({{ $v }} < {{ $r.Gte }} || {{ $v }} > {{ $r.Lte }}) {
+				if ({{ $v }} < {{ lit $r.GetGte }} || {{ $v }} > {{ lit $r.GetLte }}) {
 					{{ err . "value must be inside range [" $r.GetGte ", " $r.GetLte "]" }}
 				}
 			{{ else }}
-				if ({{ $v }} > {{ $r.Lte }} && {{ $v }} < {{ $r.Gte }}) {
+				if ({{ $v }} > {{ lit $r.GetLte }} && {{ $v }} < {{ lit $r.GetGte }}) {
 					{{ err . "value must be outside range (" $r.GetLte ", " $r.GetGte ")" }}
 				}
 			{{ end }}
 		{{ else }}
-			if ({{ accessor . }} > {{ $r.Lte }}) {
+			if ({{ accessor . }} > {{ lit $r.GetLte }}) {
 				{{ err . "value must be less than or equal to " $r.GetLte }}
 			}
 		{{ end }}
 	{{ else if $r.Gt }}
-		if ({{ accessor . }} <= {{ $r.Gt }}) {
+		if ({{ accessor . }} <= {{ lit $r.GetGt }}) {
 			{{ err . "value must be greater than " $r.GetGt }}
 		}
 	{{ else if $r.Gte }}
-		if ({{ accessor . }} < {{ $r.Gte }}) {
+		if ({{ accessor . }} < {{ lit $r.GetGte }}) {
 			{{ err . "value must be greater than or equal to " $r.GetGte }}
 		}
 	{{ end }}
diff --git a/templates/cc/register.go b/templates/cc/register.go
index 4f9e8cc..ab5f400 100644
--- a/templates/cc/register.go
+++ b/templates/cc/register.go
@@ -2,6 +2,7 @@ package cc
 
 import (
 	"fmt"
+	"math"
 	"reflect"
 	"strconv"
 	"strings"
@@ -254,7 +255,16 @@ func (fns CCFuncs) lit(x interface{}) string {
 			panic(fmt.Sprintf("don't know how to format literals of type %v", val.Kind()))
 		}
 	case reflect.Float32:
-		return fmt.Sprintf("%fF", x)
+		// The shortest form that parses back to exactly this value.
+		return strconv.FormatFloat(val.Float(), 'e', -1, 32) + "F"
+	case reflect.Float64:
+		return strconv.FormatFloat(val.Float(), 'e', -1, 64)
+	case reflect.Int64:
+		if val.Int() == math.MinInt64 {
+			// C++ has no negative literals: the digits alone do not fit.
+			return fmt.Sprintf("(%d - 1)", int64(math.MinInt64+1))
+		}
+		return fmt.Sprint(val.Int())
 	default:
 		return fmt.Sprint(x)
 	}
-- 
2.43.0


From 333737b81ea2474e59ef237afdcf6ab4ca86629d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:58 +0000
Subject: [PATCH 03/70] fix: Go bytes in/not_in literals below 0x10 are not
 valid Go

---
 templates/goshared/register.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates/goshared/register.go b/templates/goshared/register.go
index e532d08..6223918 100644
--- a/templates/goshared/register.go
+++ b/templates/goshared/register.go
@@ -199,7 +199,7 @@ func (fns goSharedFuncs) isBytes(f interface {
 func (fns goSharedFuncs) byteStr(x []byte) string {
 	elms := make([]string, len(x))
 	for i, b := range x {
-		elms[i] = fmt.Sprintf(`\x%X`, b)
+		elms[i] = fmt.Sprintf(`\x%02X`, b)
 	}
 
 	return fmt.Sprintf(`"%s"`, strings.Join(elms, ""))
-- 
2.43.0


From 6c50dd7755449b430a675ab5edc3fb5006e1f98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:58 +0000
Subject: [PATCH 04/70] fix: Go code for a map with skipped message values does
 not compile

---
 templates/goshared/map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates/goshared/map.go b/templates/goshared/map.go
index cadf990..1655ac7 100644
--- a/templates/goshared/map.go
+++ b/templates/goshared/map.go
@@ -37,7 +37,7 @@ const mapTpl = `
 
 	{{ if or $r.GetNoSparse (ne (.Elem "" "").Typ "none") (ne (.Key "" "").Typ "none") }}
 		for key, val := range {{ accessor . }} {
-			_ = val
+			_, _ = key, val
 
 			{{ if $r.GetNoSparse }}
 				if val == nil {
-- 
2.43.0


From 53f4dbb8879ea330be2e5d0113ede778ef06f7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:58 +0000
Subject: [PATCH 05/70] fix: uuid pattern missing when only a nested message
 uses it

---
 templates/shared/well_known.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates/shared/well_known.go b/templates/shared/well_known.go
index 87f5e98..0747f16 100644
--- a/templates/shared/well_known.go
+++ b/templates/shared/well_known.go
@@ -14,7 +14,7 @@ const (
 )
 
 func FileNeeds(f pgs.File, wk WellKnown) bool {
-	for _, msg := range f.Messages() {
+	for _, msg := range f.AllMessages() {
 		needed := Needs(msg, wk)
 		if needed {
 			return true
-- 
2.43.0


From d7683ac30e0dfcd7fd68105eedddb5c40144aeaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:36 +0000
Subject: [PATCH 06/70] fix: rules on wrapper list items and map values crash
 the plugin

---
 templates/cc/register.go       |  2 +-
 templates/goshared/register.go |  2 +-
 templates/shared/context.go    | 10 ++++++++++
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/templates/cc/register.go b/templates/cc/register.go
index ab5f400..e5f7987 100644
--- a/templates/cc/register.go
+++ b/templates/cc/register.go
@@ -419,7 +419,7 @@ func (fns CCFuncs) unwrap(ctx shared.RuleContext, name string) (shared.RuleConte
 	}
 
 	ctx.AccessorOverride = fmt.Sprintf("%s.%s()", name,
-		ctx.Field.Type().Embed().Fields()[0].Name())
+		shared.WrapperOf(ctx.Field).Fields()[0].Name())
 
 	return ctx, nil
 }
diff --git a/templates/goshared/register.go b/templates/goshared/register.go
index 6223918..a890070 100644
--- a/templates/goshared/register.go
+++ b/templates/goshared/register.go
@@ -292,7 +292,7 @@ func (fns goSharedFuncs) unwrap(ctx shared.RuleContext, name string) (shared.Rul
 	}
 
 	ctx.AccessorOverride = fmt.Sprintf("%s.Get%s()", name,
-		pgsgo.PGGUpperCamelCase(ctx.Field.Type().Embed().Fields()[0].Name()))
+		pgsgo.PGGUpperCamelCase(shared.WrapperOf(ctx.Field).Fields()[0].Name()))
 
 	return ctx, nil
 }
diff --git a/templates/shared/context.go b/templates/shared/context.go
index a374135..ce4e53d 100644
--- a/templates/shared/context.go
+++ b/templates/shared/context.go
@@ -104,10 +104,20 @@ func (ctx RuleContext) Unwrap(name string) (out RuleContext, err error) {
 		Rules:            ctx.Rules,
 		MessageRules:     ctx.MessageRules,
 		Typ:              ctx.WrapperTyp,
+		Index:            ctx.Index,
 		AccessorOverride: name,
 	}, nil
 }
 
+// WrapperOf returns the wrapper message a field holds, either itself or as the
+// elements of a list or map.
+func WrapperOf(f pgs.Field) pgs.Message {
+	if emb := f.Type().Embed(); emb != nil {
+		return emb
+	}
+	return f.Type().Element().Embed()
+}
+
 func Render(tpl *template.Template) func(ctx RuleContext) (string, error) {
 	return func(ctx RuleContext) (string, error) {
 		var b bytes.Buffer
-- 
2.43.0


From 4dbfddc98be9441d2c29d76a218840b721f982a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:07 +0000
Subject: [PATCH 07/70] fix: Go code for in/not_in/pattern on items, map keys
 and values does not compile

Lookup tables were only declared for string and enum items and for string
patterns, and key and value patterns shared one name. Declare them for
every element context; violations of key rules are marked as such.
---
 templates/goshared/any.go      |  4 +-
 templates/goshared/bytes.go    |  6 +--
 templates/goshared/duration.go |  4 +-
 templates/goshared/in.go       |  4 +-
 templates/goshared/msg.go      | 80 ++++++++--------------------------
 templates/goshared/register.go | 58 ++++++++++++------------
 templates/goshared/repeated.go |  6 +--
 templates/goshared/string.go   |  2 +-
 templates/shared/context.go    |  1 +
 9 files changed, 61 insertions(+), 104 deletions(-)

diff --git a/templates/goshared/any.go b/templates/goshared/any.go
index a120592..15817da 100644
--- a/templates/goshared/any.go
+++ b/templates/goshared/any.go
@@ -5,13 +5,13 @@ const anyTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 
 	if a := {{ accessor . }}; a != nil {
 		{{ if $r.In }}
-			if _, ok := {{ lookup $f "InLookup" }}[a.GetTypeUrl()]; !ok {
+			if _, ok := {{ lookup . "InLookup" }}[a.GetTypeUrl()]; !ok {
 				err := {{ err . "type URL must be in list " $r.In }}
 				if !all { return err }
 				errors = append(errors, err)
 			}
 		{{ else if $r.NotIn }}
-			if _, ok := {{ lookup $f "NotInLookup" }}[a.GetTypeUrl()]; ok {
+			if _, ok := {{ lookup . "NotInLookup" }}[a.GetTypeUrl()]; ok {
 				err := {{ err . "type URL must not be in list " $r.NotIn }}
 				if !all { return err }
 				errors = append(errors, err)
diff --git a/templates/goshared/bytes.go b/templates/goshared/bytes.go
index e9caa66..f17435f 100644
--- a/templates/goshared/bytes.go
+++ b/templates/goshared/bytes.go
@@ -68,13 +68,13 @@ const bytesTpl = `
 	{{ end }}
 
 	{{ if $r.In }}
-		if _, ok := {{ lookup $f "InLookup" }}[string({{ accessor . }})]; !ok {
+		if _, ok := {{ lookup . "InLookup" }}[string({{ accessor . }})]; !ok {
 			err := {{ err . "value must be in list " $r.In }}
 			if !all { return err }
 			errors = append(errors, err)
 		}
 	{{ else if $r.NotIn }}
-		if _, ok := {{ lookup $f "NotInLookup" }}[string({{ accessor . }})]; ok {
+		if _, ok := {{ lookup . "NotInLookup" }}[string({{ accessor . }})]; ok {
 			err := {{ err . "value must not be in list " $r.NotIn }}
 			if !all { return err }
 			errors = append(errors, err)
@@ -110,7 +110,7 @@ const bytesTpl = `
 	{{ end }}
 
 	{{ if $r.Pattern }}
-	if !{{ lookup $f "Pattern" }}.Match({{ accessor . }}) {
+	if !{{ lookup . "Pattern" }}.Match({{ accessor . }}) {
 		err := {{ err . "value does not match regex pattern " (lit $r.GetPattern) }}
 		if !all { return err }
 		errors = append(errors, err)
diff --git a/templates/goshared/duration.go b/templates/goshared/duration.go
index c039ab5..758dbb0 100644
--- a/templates/goshared/duration.go
+++ b/templates/goshared/duration.go
@@ -103,13 +103,13 @@ const durationcmpTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 
 
 			{{ if $r.In }}
-				if _, ok := {{ lookup $f "InLookup" }}[dur]; !ok {
+				if _, ok := {{ lookup . "InLookup" }}[dur]; !ok {
 					err := {{ err . "value must be in list " $r.In }}
 					if !all { return err }
 					errors = append(errors, err)
 				}
 			{{ else if $r.NotIn }}
-				if _, ok := {{ lookup $f "NotInLookup" }}[dur]; ok {
+				if _, ok := {{ lookup . "NotInLookup" }}[dur]; ok {
 					err := {{ err . "value must not be in list " $r.NotIn }}
 					if !all { return err }
 					errors = append(errors, err)
diff --git a/templates/goshared/in.go b/templates/goshared/in.go
index b6fdfa4..c72e670 100644
--- a/templates/goshared/in.go
+++ b/templates/goshared/in.go
@@ -2,13 +2,13 @@ package goshared
 
 const inTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 	{{ if $r.In }}
-		if _, ok := {{ lookup $f "InLookup" }}[{{ accessor . }}]; !ok {
+		if _, ok := {{ lookup . "InLookup" }}[{{ accessor . }}]; !ok {
 			err := {{ err . "value must be in list " $r.In }}
 			if !all { return err }
 			errors = append(errors, err)
 		}
 	{{ else if $r.NotIn }}
-		if _, ok := {{ lookup $f "NotInLookup" }}[{{ accessor . }}]; ok {
+		if _, ok := {{ lookup . "NotInLookup" }}[{{ accessor . }}]; ok {
 			err := {{ err . "value must not be in list " $r.NotIn }}
 			if !all { return err }
 			errors = append(errors, err)
diff --git a/templates/goshared/msg.go b/templates/goshared/msg.go
index 4e09f77..828ab30 100644
--- a/templates/goshared/msg.go
+++ b/templates/goshared/msg.go
@@ -132,79 +132,37 @@ var _ interface{
 	ErrorName() string
 } = {{ errname . }}{}
 
-{{ range .Fields }}{{ with (context .) }}{{ $f := .Field }}
+{{ range .Fields }}{{ with (context .) }}
+	{{ template "lookups" . }}
+	{{ if eq .Typ "repeated" }}{{ template "lookups" (.Elem "" "") }}{{ end }}
+	{{ if eq .Typ "map" }}
+		{{ template "lookups" (.Key "" "") }}
+		{{ template "lookups" (.Elem "" "") }}
+	{{ end }}
+{{ end }}{{ end }}
+{{- end -}}
+`
+
+// lookupsTpl declares the package-level tables and patterns used by the rules
+// of a field, a list item, a map key or a map value.
+const lookupsTpl = `
 	{{ if has .Rules "In" }}{{ if .Rules.In }}
-		var {{ lookup .Field "InLookup" }} = map[{{ inType .Field .Rules.In }}]struct{}{
+		var {{ lookup . "InLookup" }} = map[{{ inType . .Rules.In }}]struct{}{
 			{{- range .Rules.In }}
-				{{ inKey $f . }}: {},
+				{{ inKey . }}: {},
 			{{- end }}
 		}
 	{{ end }}{{ end }}
 
 	{{ if has .Rules "NotIn" }}{{ if .Rules.NotIn }}
-		var {{ lookup .Field "NotInLookup" }} = map[{{ inType .Field .Rules.In }}]struct{}{
+		var {{ lookup . "NotInLookup" }} = map[{{ inType . .Rules.NotIn }}]struct{}{
 			{{- range .Rules.NotIn }}
-				{{ inKey $f . }}: {},
+				{{ inKey . }}: {},
 			{{- end }}
 		}
 	{{ end }}{{ end }}
 
 	{{ if has .Rules "Pattern"}}{{ if .Rules.Pattern }}
-		var {{ lookup .Field "Pattern" }} = regexp.MustCompile({{ lit .Rules.GetPattern }})
-	{{ end }}{{ end }}
-
-	{{ if has .Rules "Items"}}{{ if .Rules.Items }}
-	{{ if has .Rules.Items.GetString_ "Pattern" }} {{ if .Rules.Items.GetString_.Pattern }}
-		var {{ lookup .Field "Pattern" }} = regexp.MustCompile({{ lit .Rules.Items.GetString_.GetPattern }})
-	{{ end }}{{ end }}
-	{{ end }}{{ end }}
-
-	{{ if has .Rules "Items"}}{{ if .Rules.Items }}
-	{{ if has .Rules.Items.GetString_ "In" }} {{ if .Rules.Items.GetString_.In }}
-		var {{ lookup .Field "InLookup" }} = map[string]struct{}{
-			{{- range .Rules.Items.GetString_.In }}
-				{{ inKey $f . }}: {},
-			{{- end }}
-		}
-	{{ end }}{{ end }}
-	{{ if has .Rules.Items.GetEnum "In" }} {{ if .Rules.Items.GetEnum.In }}
-		var {{ lookup .Field "InLookup" }} = map[{{ inType .Field .Rules.Items.GetEnum.In }}]struct{}{
-			{{- range .Rules.Items.GetEnum.In }}
-				{{ inKey $f . }}: {},
-			{{- end }}
-		}
-	{{ end }}{{ end }}
-	{{ end }}{{ end }}
-
-	{{ if has .Rules "Items"}}{{ if .Rules.Items }}
-	{{ if has .Rules.Items.GetString_ "NotIn" }} {{ if .Rules.Items.GetString_.NotIn }}
-		var {{ lookup .Field "NotInLookup" }} = map[string]struct{}{
-			{{- range .Rules.Items.GetString_.NotIn }}
-				{{ inKey $f . }}: {},
-			{{- end }}
-		}
-	{{ end }}{{ end }}
-	{{ if has .Rules.Items.GetEnum "NotIn" }} {{ if .Rules.Items.GetEnum.NotIn }}
-		var {{ lookup .Field "NotInLookup" }} = map[{{ inType .Field .Rules.Items.GetEnum.NotIn }}]struct{}{
-			{{- range .Rules.Items.GetEnum.NotIn }}
-				{{ inKey $f . }}: {},
-			{{- end }}
-		}
-	{{ end }}{{ end }}
-	{{ end }}{{ end }}
-
-	{{ if has .Rules "Keys"}}{{ if .Rules.Keys }}
-	{{ if has .Rules.Keys.GetString_ "Pattern" }} {{ if .Rules.Keys.GetString_.Pattern }}
-		var {{ lookup .Field "Pattern" }} = regexp.MustCompile({{ lit .Rules.Keys.GetString_.GetPattern }})
-	{{ end }}{{ end }}
-	{{ end }}{{ end }}
-
-	{{ if has .Rules "Values"}}{{ if .Rules.Values }}
-	{{ if has .Rules.Values.GetString_ "Pattern" }} {{ if .Rules.Values.GetString_.Pattern }}
-		var {{ lookup .Field "Pattern" }} = regexp.MustCompile({{ lit .Rules.Values.GetString_.GetPattern }})
+		var {{ lookup . "Pattern" }} = regexp.MustCompile({{ lit .Rules.GetPattern }})
 	{{ end }}{{ end }}
-	{{ end }}{{ end }}
-
-{{ end }}{{ end }}
-{{- end -}}
 `
diff --git a/templates/goshared/register.go b/templates/goshared/register.go
index a890070..afc4bc4 100644
--- a/templates/goshared/register.go
+++ b/templates/goshared/register.go
@@ -51,6 +51,7 @@ func Register(tpl *template.Template, params pgs.Parameters) {
 	})
 
 	template.Must(tpl.New("msg").Parse(msgTpl))
+	template.Must(tpl.New("lookups").Parse(lookupsTpl))
 	template.Must(tpl.New("const").Parse(constTpl))
 	template.Must(tpl.New("ltgt").Parse(ltgtTpl))
 	template.Must(tpl.New("in").Parse(inTpl))
@@ -154,7 +155,12 @@ func (fns goSharedFuncs) errIdx(ctx shared.RuleContext, idx string, reason ...in
 	return fns.errIdxCause(ctx, idx, "nil", reason...)
 }
 
-func (fns goSharedFuncs) lookup(f pgs.Field, name string) string {
+func (fns goSharedFuncs) lookup(ctx shared.RuleContext, name string) string {
+	f := ctx.Field
+	if ctx.OnKey {
+		name = "Key" + name
+	}
+
 	return fmt.Sprintf(
 		"_%s_%s_%s",
 		fns.Name(f.Message()),
@@ -209,40 +215,32 @@ func (fns goSharedFuncs) oneofTypeName(f pgs.Field) pgsgo.TypeName {
 	return pgsgo.TypeName(fns.OneofOption(f)).Pointer()
 }
 
-func (fns goSharedFuncs) inType(f pgs.Field, x interface{}) string {
-	switch f.Type().ProtoType() {
-	case pgs.BytesT:
-		return "string"
-	case pgs.MessageT:
-		switch x.(type) {
-		case []*durationpb.Duration:
-			return "time.Duration"
-		default:
-			return pgsgo.TypeName(fmt.Sprintf("%T", x)).Element().String()
-		}
-	case pgs.EnumT:
-		if f.Type().IsRepeated() {
-			return strings.TrimLeft(fns.Type(f).String(), "[]")
-		} else {
-			return fns.Type(f).String()
+func (fns goSharedFuncs) inType(ctx shared.RuleContext, x interface{}) string {
+	if ctx.Typ == "enum" {
+		typ := fns.Type(ctx.Field)
+		if ctx.Field.Type().IsRepeated() || ctx.Field.Type().IsMap() {
+			return typ.Element().String()
 		}
+		return typ.Value().String()
+	}
+
+	switch x.(type) {
+	case [][]byte:
+		return "string"
+	case []*durationpb.Duration:
+		return "time.Duration"
 	default:
-		return fns.Type(f).String()
+		return pgsgo.TypeName(fmt.Sprintf("%T", x)).Element().String()
 	}
 }
 
-func (fns goSharedFuncs) inKey(f pgs.Field, x interface{}) string {
-	switch f.Type().ProtoType() {
-	case pgs.BytesT:
-		return fns.byteStr(x.([]byte))
-	case pgs.MessageT:
-		switch x := x.(type) {
-		case *durationpb.Duration:
-			dur := x.AsDuration()
-			return fns.lit(int64(dur))
-		default:
-			return fns.lit(x)
-		}
+func (fns goSharedFuncs) inKey(x interface{}) string {
+	switch x := x.(type) {
+	case []byte:
+		return fns.byteStr(x)
+	case *durationpb.Duration:
+		dur := x.AsDuration()
+		return fns.lit(int64(dur))
 	default:
 		return fns.lit(x)
 	}
diff --git a/templates/goshared/repeated.go b/templates/goshared/repeated.go
index a98f350..c5a7ce5 100644
--- a/templates/goshared/repeated.go
+++ b/templates/goshared/repeated.go
@@ -36,7 +36,7 @@ const repTpl = `
 	{{ end }}
 
 	{{ if $r.GetUnique }}
-		{{ lookup $f "Unique" }} := {{ if isBytes $f.Type.Element -}}
+		{{ lookup . "Unique" }} := {{ if isBytes $f.Type.Element -}}
 			make(map[string]struct{}, len({{ accessor . }}))
 		{{ else -}}
 			make(map[{{ (typ $f).Element }}]struct{}, len({{ accessor . }}))
@@ -47,12 +47,12 @@ const repTpl = `
 		for idx, item := range {{ accessor . }} {
 			_, _ = idx, item
 			{{ if $r.GetUnique }}
-				if _, exists := {{ lookup $f "Unique" }}[{{ if isBytes $f.Type.Element }}string(item){{ else }}item{{ end }}]; exists {
+				if _, exists := {{ lookup . "Unique" }}[{{ if isBytes $f.Type.Element }}string(item){{ else }}item{{ end }}]; exists {
 					err := {{ errIdx . "idx" "repeated value must contain unique items" }}
 					if !all { return err }
 					errors = append(errors, err)
 				} else {
-					{{ lookup $f "Unique" }}[{{ if isBytes $f.Type.Element }}string(item){{ else }}item{{ end }}] = struct{}{}
+					{{ lookup . "Unique" }}[{{ if isBytes $f.Type.Element }}string(item){{ else }}item{{ end }}] = struct{}{}
 				}
 			{{ end }}
 
diff --git a/templates/goshared/string.go b/templates/goshared/string.go
index 8df69b3..d64ba92 100644
--- a/templates/goshared/string.go
+++ b/templates/goshared/string.go
@@ -176,7 +176,7 @@ const strTpl = `
 	{{ end }}
 
 	{{ if $r.Pattern }}
-		if !{{ lookup $f "Pattern" }}.MatchString({{ accessor . }}) {
+		if !{{ lookup . "Pattern" }}.MatchString({{ accessor . }}) {
 			err := {{ err . "value does not match regex pattern " (lit $r.GetPattern) }}
 			if !all { return err }
 			errors = append(errors, err)
diff --git a/templates/shared/context.go b/templates/shared/context.go
index ce4e53d..081ff77 100644
--- a/templates/shared/context.go
+++ b/templates/shared/context.go
@@ -54,6 +54,7 @@ func (ctx RuleContext) Key(name, idx string) (out RuleContext, err error) {
 	out.Field = ctx.Field
 	out.AccessorOverride = name
 	out.Index = idx
+	out.OnKey = true
 
 	out.Typ, out.Rules, out.MessageRules, _ = resolveRules(ctx.Field.Type().Key(), rules.GetKeys())
 
-- 
2.43.0


From f4f8f6a02107a67d1a8df96edd2d83532c97b891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:26 +0000
Subject: [PATCH 08/70] fix: C++ code for in/not_in/pattern on items, map keys
 and values does not compile

As for Go: declare lookup tables and patterns for every element context,
typed by the rule, and name the enum class with its namespace.
---
 templates/cc/any.go      |   4 +-
 templates/cc/bytes.go    |   2 +-
 templates/cc/duration.go |   4 +-
 templates/cc/in.go       |   4 +-
 templates/cc/msg.go      | 109 ++++++++++++---------------------------
 templates/cc/register.go |  67 ++++++++++++------------
 templates/cc/repeated.go |   6 +--
 templates/cc/string.go   |   2 +-
 8 files changed, 78 insertions(+), 120 deletions(-)

diff --git a/templates/cc/any.go b/templates/cc/any.go
index 2dd32ca..0640b40 100644
--- a/templates/cc/any.go
+++ b/templates/cc/any.go
@@ -4,12 +4,12 @@ const anyTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 	{{ template "required" . }}
 
 	{{ if $r.In }}
-		{{ $table := lookup $f "InLookup" }}
+		{{ $table := lookup . "InLookup" }}
 		if ({{ hasAccessor . }} && {{ $table }}.find({{ accessor . }}.type_url()) == {{ $table }}.end()) {
 			{{ err . "type URL must be in list " $r.In }}
 		}
 	{{ else if $r.NotIn }}
-		{{ $table := lookup $f "NotInLookup" }}
+		{{ $table := lookup . "NotInLookup" }}
 		if ({{ hasAccessor . }} && {{ $table }}.find({{ accessor . }}.type_url()) != {{ $table }}.end()) {
 			{{ err . "type URL must not be in list " $r.NotIn }}
 		}
diff --git a/templates/cc/bytes.go b/templates/cc/bytes.go
index 9bae2c8..7af0ba0 100644
--- a/templates/cc/bytes.go
+++ b/templates/cc/bytes.go
@@ -69,7 +69,7 @@ const bytesTpl = `
         {{ if $r.Pattern }}
         {
                 if (!RE2::FullMatch(re2::StringPiece({{ accessor . }}.c_str(), {{ accessor . }}.size()),
-                                    {{ lookup $f "Pattern" }})) {
+                                    {{ lookup . "Pattern" }})) {
 		        {{ err . "value does not match regex pattern " (lit $r.GetPattern) }}
 	        }
         }
diff --git a/templates/cc/duration.go b/templates/cc/duration.go
index 16f086f..90e7f1e 100644
--- a/templates/cc/duration.go
+++ b/templates/cc/duration.go
@@ -76,10 +76,10 @@ const durationTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 
 
 			{{ if $r.In }}
-				if ({{ lookup $f "InLookup" }}.find(dur) == {{ lookup $f "InLookup" }}.end())
+				if ({{ lookup . "InLookup" }}.find(dur) == {{ lookup . "InLookup" }}.end())
 					{{ err . "value must be in list " $r.In }}
 			{{ else if $r.NotIn }}
-				if ({{ lookup $f "NotInLookup" }}.find(dur) != {{ lookup $f "NotInLookup" }}.end())
+				if ({{ lookup . "NotInLookup" }}.find(dur) != {{ lookup . "NotInLookup" }}.end())
 					{{ err . "value must not be in list " $r.NotIn }}
 			{{ end }}
 	        }
diff --git a/templates/cc/in.go b/templates/cc/in.go
index c9b8f75..79b1bfc 100644
--- a/templates/cc/in.go
+++ b/templates/cc/in.go
@@ -2,11 +2,11 @@ package cc
 
 const inTpl = `{{ $f := .Field -}}{{ $r := .Rules -}}
 	{{- if $r.In }}
-		if ({{ lookup $f "InLookup" }}.find(static_cast<decltype({{ lookup $f "InLookup" }})::key_type>({{ accessor . }})) == {{ lookup $f "InLookup" }}.end()) {
+		if ({{ lookup . "InLookup" }}.find(static_cast<decltype({{ lookup . "InLookup" }})::key_type>({{ accessor . }})) == {{ lookup . "InLookup" }}.end()) {
 			{{ err . "value must be in list " $r.In }}
 		}
 	{{- else if $r.NotIn }}
-		if ({{ lookup $f "NotInLookup" }}.find(static_cast<decltype({{ lookup $f "NotInLookup" }})::key_type>({{ accessor . }})) != {{ lookup $f "NotInLookup" }}.end()) {
+		if ({{ lookup . "NotInLookup" }}.find(static_cast<decltype({{ lookup . "NotInLookup" }})::key_type>({{ accessor . }})) != {{ lookup . "NotInLookup" }}.end()) {
 			{{ err . "value must not be in list " $r.NotIn }}
 		}
 	{{- end }}
diff --git a/templates/cc/msg.go b/templates/cc/msg.go
index a54450e..0e4dcae 100644
--- a/templates/cc/msg.go
+++ b/templates/cc/msg.go
@@ -14,83 +14,13 @@ const msgTpl = `
 	{{ cmt "Validate checks the field values on " (class .) " with the rules defined in the proto definition for this message. If any rules are violated, the return value is false and an error message is written to the input string argument." }}
 {{- end -}}
 
-{{ range .Fields }}{{ with (context .) }}{{ $f := .Field }}
-	{{ if has .Rules "In" }}{{ if .Rules.In }}
-	const std::set<{{ inType .Field .Rules.In }}> {{ lookup .Field "InLookup" }} = {
-			{{- range .Rules.In }}
-				{{ inKey $f . }},
-			{{- end }}
-		};
-	{{ end }}{{ end }}
-
-	{{ if has .Rules "NotIn" }}{{ if .Rules.NotIn }}
-	const std::set<{{ inType .Field .Rules.NotIn }}> {{ lookup .Field "NotInLookup" }} = {
-			{{- range .Rules.NotIn }}
-				{{ inKey $f . }},
-			{{- end }}
-		};
-	{{ end }}{{ end }}
-
-	{{ if has .Rules "Items"}}{{ if .Rules.Items }}
-	{{ if has .Rules.Items.GetString_ "In" }} {{ if .Rules.Items.GetString_.In }}
-	const std::set<string> {{ lookup .Field "InLookup" }} = {
-			{{- range .Rules.Items.GetString_.In }}
-				{{ inKey $f . }},
-			{{- end }}
-		};
-	{{ end }}{{ end }}
-	{{ if has .Rules.Items.GetEnum "In" }} {{ if .Rules.Items.GetEnum.In }}
-	const std::set<{{ inType .Field .Rules.Items.GetEnum.In }}> {{ lookup .Field "InLookup" }} = {
-			{{- range .Rules.Items.GetEnum.In }}
-				{{ inKey $f . }},
-			{{- end }}
-		};
-	{{ end }}{{ end }}
-	{{ end }}{{ end }}
-
-	{{ if has .Rules "Items"}}{{ if .Rules.Items }}
-	{{ if has .Rules.Items.GetString_ "NotIn" }} {{ if .Rules.Items.GetString_.NotIn }}
-	const std::set<string> {{ lookup .Field "NotInLookup" }} = {
-			{{- range .Rules.Items.GetString_.NotIn }}
-				{{ inKey $f . }},
-			{{- end }}
-		};
-	{{ end }}{{ end }}
-	{{ if has .Rules.Items.GetEnum "NotIn" }} {{ if .Rules.Items.GetEnum.NotIn }}
-	const std::set<{{ inType .Field .Rules.Items.GetEnum.NotIn }}> {{ lookup .Field "NotInLookup" }} = {
-			{{- range .Rules.Items.GetEnum.NotIn }}
-				{{ inKey $f . }},
-			{{- end }}
-		};
-	{{ end }}{{ end }}
-	{{ end }}{{ end }}
-
-        {{ if has .Rules "Pattern"}}{{ if .Rules.Pattern }}
-               const re2::RE2 {{ lookup .Field "Pattern" }}(re2::StringPiece({{ lit .Rules.GetPattern }},
-                                                            sizeof({{ lit .Rules.GetPattern }}) - 1));
-	{{ end }}{{ end }}
-
-	{{ if has .Rules "Items"}}{{ if .Rules.Items }}
-        {{ if has .Rules.Items.GetString_ "Pattern" }} {{ if .Rules.Items.GetString_.Pattern }}
-               const re2::RE2 {{ lookup .Field "Pattern" }}(re2::StringPiece({{ lit .Rules.Items.GetString_.GetPattern }},
-                                              sizeof({{ lit .Rules.Items.GetString_.GetPattern }}) - 1));
-	{{ end }}{{ end }}
-        {{ end }}{{ end }}
-
-        {{ if has .Rules "Keys"}}{{ if .Rules.Keys }}
-	{{ if has .Rules.Keys.GetString_ "Pattern" }} {{ if .Rules.Keys.GetString_.Pattern }}
-		const re2::RE2 {{ lookup .Field "Pattern" }}(re2::StringPiece({{ lit .Rules.Keys.GetString_.GetPattern }},
-                                              sizeof({{ lit .Rules.Keys.GetString_.GetPattern }}) - 1));
-	{{ end }}{{ end }}
-	{{ end }}{{ end }}
-
-	{{ if has .Rules "Values"}}{{ if .Rules.Values }}
-	{{ if has .Rules.Values.GetString_ "Pattern" }} {{ if .Rules.Values.GetString_.Pattern }}
-		const re2::RE2 {{ lookup .Field "Pattern" }}(re2::StringPiece({{ lit .Rules.Values.GetString_.GetPattern }},
-                                              sizeof({{ lit .Rules.Values.GetString_.GetPattern }}) - 1));
-	{{ end }}{{ end }}
-	{{ end }}{{ end }}
-
+{{ range .Fields }}{{ with (context .) }}
+	{{ template "lookups" . }}
+	{{ if eq .Typ "repeated" }}{{ template "lookups" (.Elem "" "") }}{{ end }}
+	{{ if eq .Typ "map" }}
+		{{ template "lookups" (.Key "" "") }}
+		{{ template "lookups" (.Elem "" "") }}
+	{{ end }}
 {{ end }}{{ end }}
 
 bool Validate(const {{ class . }}& m, pgv::ValidationMsg* err) {
@@ -122,3 +52,28 @@ bool Validate(const {{ class . }}& m, pgv::ValidationMsg* err) {
 }
 {{- end -}}
 `
+
+// lookupsTpl declares the tables and patterns used by the rules of a field, a
+// list item, a map key or a map value.
+const lookupsTpl = `{{ $c := . }}
+	{{ if has .Rules "In" }}{{ if .Rules.In }}
+	const std::set<{{ inType . .Rules.In }}> {{ lookup . "InLookup" }} = {
+			{{- range .Rules.In }}
+				{{ inKey $c . }},
+			{{- end }}
+		};
+	{{ end }}{{ end }}
+
+	{{ if has .Rules "NotIn" }}{{ if .Rules.NotIn }}
+	const std::set<{{ inType . .Rules.NotIn }}> {{ lookup . "NotInLookup" }} = {
+			{{- range .Rules.NotIn }}
+				{{ inKey $c . }},
+			{{- end }}
+		};
+	{{ end }}{{ end }}
+
+	{{ if has .Rules "Pattern"}}{{ if .Rules.Pattern }}
+	const re2::RE2 {{ lookup . "Pattern" }}(re2::StringPiece({{ lit .Rules.GetPattern }},
+							sizeof({{ lit .Rules.GetPattern }}) - 1));
+	{{ end }}{{ end }}
+`
diff --git a/templates/cc/register.go b/templates/cc/register.go
index e5f7987..3ac12e1 100644
--- a/templates/cc/register.go
+++ b/templates/cc/register.go
@@ -52,6 +52,7 @@ func RegisterModule(tpl *template.Template, params pgs.Parameters) {
 	})
 	template.Must(tpl.Parse(moduleFileTpl))
 	template.Must(tpl.New("msg").Parse(msgTpl))
+	template.Must(tpl.New("lookups").Parse(lookupsTpl))
 	template.Must(tpl.New("const").Parse(constTpl))
 	template.Must(tpl.New("ltgt").Parse(ltgtTpl))
 	template.Must(tpl.New("in").Parse(inTpl))
@@ -218,7 +219,12 @@ func (fns CCFuncs) errIdxCause(ctx shared.RuleContext, idx, cause string, reason
 	return strings.Join(output, "\n")
 }
 
-func (fns CCFuncs) lookup(f pgs.Field, name string) string {
+func (fns CCFuncs) lookup(ctx shared.RuleContext, name string) string {
+	f := ctx.Field
+	if ctx.OnKey {
+		name = "Key" + name
+	}
+
 	return fmt.Sprintf(
 		"_%s_%s_%s",
 		pgsgo.PGGUpperCamelCase(f.Message().Name()),
@@ -292,29 +298,29 @@ func (fns CCFuncs) oneofTypeName(f pgs.Field) pgsgo.TypeName {
 		strings.ReplaceAll(pgsgo.PGGUpperCamelCase(f.Name()).String(), "_", "")))
 }
 
-func (fns CCFuncs) inType(f pgs.Field, x interface{}) string {
-	switch f.Type().ProtoType() {
-	case pgs.BytesT:
+func (fns CCFuncs) inType(ctx shared.RuleContext, x interface{}) string {
+	if ctx.Typ == "enum" {
+		return fns.enumClass(ctx.Field)
+	}
+
+	switch x.(type) {
+	case []string, [][]byte:
 		return "string"
-	case pgs.MessageT:
-		switch x.(type) {
-		case []string:
-			return "string"
-		case []*durationpb.Duration:
-			return "pgv::protobuf_wkt::Duration"
-		case [][]byte:
-			return "string"
-		case []float32, []float64, []int32, []int64, []uint32, []uint64:
-			// Rules of a wrapper type: the list holds the wrapped scalar.
-			return fns.cTypeOfString(pgsgo.TypeName(fmt.Sprintf("%T", x)).Element().String())
-		default:
-			return fns.className(f.Type().Element().Embed())
-		}
+	case []*durationpb.Duration:
+		return "pgv::protobuf_wkt::Duration"
 	default:
-		return fns.cType(f.Type())
+		return fns.cTypeOfString(pgsgo.TypeName(fmt.Sprintf("%T", x)).Element().String())
 	}
 }
 
+// enumClass returns the class of the enum a field, its items or its map values hold.
+func (fns CCFuncs) enumClass(f pgs.Field) string {
+	if f.Type().IsRepeated() || f.Type().IsMap() {
+		return fns.className(f.Type().Element().Enum())
+	}
+	return fns.className(f.Type().Enum())
+}
+
 func (fns CCFuncs) cType(t pgs.FieldType) string {
 	if t.IsEmbed() {
 		return fns.className(t.Embed())
@@ -357,19 +363,16 @@ func (fns CCFuncs) cTypeOfString(s string) string {
 	}
 }
 
-func (fns CCFuncs) inKey(f pgs.Field, x interface{}) string {
-	switch f.Type().ProtoType() {
-	case pgs.BytesT:
-		return fns.byteStr(x.([]byte))
-	case pgs.MessageT:
-		switch x := x.(type) {
-		case *durationpb.Duration:
-			return fns.durLit(x)
-		default:
-			return fns.lit(x)
-		}
-	case pgs.EnumT:
-		return fmt.Sprintf("%s(%d)", fns.cType(f.Type()), x.(int32))
+func (fns CCFuncs) inKey(ctx shared.RuleContext, x interface{}) string {
+	if ctx.Typ == "enum" {
+		return fmt.Sprintf("%s(%d)", fns.enumClass(ctx.Field), x.(int32))
+	}
+
+	switch x := x.(type) {
+	case []byte:
+		return fns.byteStr(x)
+	case *durationpb.Duration:
+		return fns.durLit(x)
 	default:
 		return fns.lit(x)
 	}
diff --git a/templates/cc/repeated.go b/templates/cc/repeated.go
index 53b2a35..bf0a236 100644
--- a/templates/cc/repeated.go
+++ b/templates/cc/repeated.go
@@ -1,7 +1,7 @@
 package cc
 
 const repTpl = `
-	{{ $f := .Field }}{{ $r := .Rules }}{{ $typ := inType $f nil }}
+	{{ $f := .Field }}{{ $r := .Rules }}{{ $typ := ctype $f.Type }}
 	{{ if $r.GetIgnoreEmpty }}
 		if ({{ accessor . }}.size() > 0) {
 	{{ end }}
@@ -42,7 +42,7 @@ const repTpl = `
 	};
 
 	// Save a set of references to avoid copying overhead
-	std::unordered_set<std::reference_wrapper<{{ $typ }}>, hash, cmp> {{ lookup $f "Unique" }};
+	std::unordered_set<std::reference_wrapper<{{ $typ }}>, hash, cmp> {{ lookup . "Unique" }};
 	{{ end }}
 
 	{{ if or $r.GetUnique (ne (.Elem "" "").Typ "none") }}
@@ -51,7 +51,7 @@ const repTpl = `
 			(void)item;
 
 			{{ if $r.GetUnique }}
-				auto p = {{ lookup $f "Unique" }}.emplace(const_cast<{{ $typ }}&>(item));
+				auto p = {{ lookup . "Unique" }}.emplace(const_cast<{{ $typ }}&>(item));
 				if (p.second == false) {
 					{{ errIdx . "i" "repeated value must contain unique items" }}
 				}
diff --git a/templates/cc/string.go b/templates/cc/string.go
index 112966c..b058a06 100644
--- a/templates/cc/string.go
+++ b/templates/cc/string.go
@@ -112,7 +112,7 @@ const strTpl = `
         {{ if $r.Pattern }}
         {
                 if (!RE2::FullMatch(re2::StringPiece({{ accessor . }}.c_str(), {{ accessor . }}.size()),
-                                    {{ lookup $f "Pattern" }})) {
+                                    {{ lookup . "Pattern" }})) {
 		        {{ err . "value does not match regex pattern " (lit $r.GetPattern) }}
 	        }
         }
-- 
2.43.0


From c680ed29e35c96b4c9148b11a6df82e2576b7d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:18 +0000
Subject: [PATCH 09/70] fix: C++ code for unique enum lists does not compile

---
 templates/cc/repeated.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/templates/cc/repeated.go b/templates/cc/repeated.go
index bf0a236..4313862 100644
--- a/templates/cc/repeated.go
+++ b/templates/cc/repeated.go
@@ -2,6 +2,8 @@ package cc
 
 const repTpl = `
 	{{ $f := .Field }}{{ $r := .Rules }}{{ $typ := ctype $f.Type }}
+	{{- /* Enum items are stored as int. */ -}}
+	{{ if $f.Type.Element.IsEnum }}{{ $typ = "int" }}{{ end }}
 	{{ if $r.GetIgnoreEmpty }}
 		if ({{ accessor . }}.size() > 0) {
 	{{ end }}
-- 
2.43.0


From 7dee6094527297bbfb70c7e532cb59bf8963ec64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:07 +0000
Subject: [PATCH 10/70] fix: Go helpers missing for string formats on
 StringValue items and values

---
 templates/shared/well_known.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/templates/shared/well_known.go b/templates/shared/well_known.go
index 0747f16..a0b6c8e 100644
--- a/templates/shared/well_known.go
+++ b/templates/shared/well_known.go
@@ -34,17 +34,15 @@ func Needs(m pgs.Message, wk WellKnown) bool {
 		}
 
 		switch {
-		case f.Type().IsRepeated() && f.Type().Element().ProtoType() == pgs.StringT:
+		case f.Type().IsRepeated():
 			if strRulesNeeds(rules.GetRepeated().GetItems().GetString_(), wk) {
 				return true
 			}
 		case f.Type().IsMap():
-			if f.Type().Key().ProtoType() == pgs.StringT &&
-				strRulesNeeds(rules.GetMap().GetKeys().GetString_(), wk) {
+			if strRulesNeeds(rules.GetMap().GetKeys().GetString_(), wk) {
 				return true
 			}
-			if f.Type().Element().ProtoType() == pgs.StringT &&
-				strRulesNeeds(rules.GetMap().GetValues().GetString_(), wk) {
+			if strRulesNeeds(rules.GetMap().GetValues().GetString_(), wk) {
 				return true
 			}
 		case f.Type().ProtoType() == pgs.StringT:
-- 
2.43.0


From f5eb477468204df083b9bfef2e131a0312b7001d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:37 +0000
Subject: [PATCH 11/70] fix: Go hostname check accepts non-ASCII letters that
 lower-case to ASCII

strings.ToLower maps U+212A and U+0130 to 'k' and 'i', so host names
containing them passed. Check both cases instead of folding.
---
 templates/goshared/known.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/templates/goshared/known.go b/templates/goshared/known.go
index ad32cfc..d5b5c45 100644
--- a/templates/goshared/known.go
+++ b/templates/goshared/known.go
@@ -2,7 +2,7 @@ package goshared
 
 const hostTpl = `
 	func (m {{ (msgTyp .).Pointer }}) _validateHostname(host string) error {
-		s := strings.ToLower(strings.TrimSuffix(host, "."))
+		s := strings.TrimSuffix(host, ".")
 
 		if len(host) > 253 {
 			return errors.New("hostname cannot exceed 253 characters")
@@ -22,7 +22,7 @@ const hostTpl = `
 			}
 
 			for _, r := range part {
-				if (r < 'a' || r > 'z') && (r < '0' || r > '9') && r != '-' {
+				if (r < 'A' || r > 'Z') && (r < 'a' || r > 'z') && (r < '0' || r > '9') && r != '-' {
 					return fmt.Errorf("hostname parts can only contain alphanumeric characters or hyphens, got %q", string(r))
 				}
 			}
-- 
2.43.0


From 99cbc51f37be0ee225103c7bf8ba3cb2bb0f5196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:10 +0000
Subject: [PATCH 12/70] fix: C++ validation of unregistered messages writes to
 the shared registry

operator[] inserted a null entry during validation, a data race when
messages are validated concurrently. Look the type up without inserting.
---
 validate/validate.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/validate/validate.h b/validate/validate.h
index b859497..5c2c729 100644
--- a/validate/validate.h
+++ b/validate/validate.h
@@ -58,9 +58,10 @@ public:
 
   static bool CheckMessage(const T& m, ValidationMsg* err)
   {
-    auto val = static_cast<Validator<T>*>(validators()[std::type_index(typeid(T))]);
-    if (val) {
-      return val->check_(m, err);
+    // Only read the registry: messages may be validated concurrently.
+    const auto it = validators().find(std::type_index(typeid(T)));
+    if (it != validators().end()) {
+      return static_cast<Validator<T>*>(it->second)->check_(m, err);
     }
     return true;
   }
-- 
2.43.0


From 6722d5d3fde6eb1c08bd1807f70f6170b4e4ebc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:10 +0000
Subject: [PATCH 13/70] fix: C++ ip rules accept an address followed by a NUL
 and anything

---
 validate/validate.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/validate/validate.h b/validate/validate.h
index 5c2c729..80104f4 100644
--- a/validate/validate.h
+++ b/validate/validate.h
@@ -97,12 +97,13 @@ static inline bool NotContains(const string& search_in, const string& to_find)
 
 static inline bool IsIpv4(const string& to_validate) {
 	struct sockaddr_in sa;
-	return !(inet_pton(AF_INET, to_validate.c_str(), &sa.sin_addr) < 1);
+	// inet_pton stops at a NUL, which is not part of any address.
+	return to_validate.find('\0') == string::npos && !(inet_pton(AF_INET, to_validate.c_str(), &sa.sin_addr) < 1);
 }
 
 static inline bool IsIpv6(const string& to_validate) {
   struct sockaddr_in6 sa_six;
-	return !(inet_pton(AF_INET6, to_validate.c_str(), &sa_six.sin6_addr) < 1);
+	return to_validate.find('\0') == string::npos && !(inet_pton(AF_INET6, to_validate.c_str(), &sa_six.sin6_addr) < 1);
 }
 
 static inline bool IsIp(const string& to_validate) {
-- 
2.43.0


From 6e051fedd46818697a619ab6c47c5358488f0f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:23 +0000
Subject: [PATCH 14/70] fix: C++ string and bytes literals are truncated at NUL
 or mis-escaped

---
 templates/cc/msg.go      |  3 +--
 templates/cc/register.go | 41 ++++++++++++++++++++++++++++------------
 2 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/templates/cc/msg.go b/templates/cc/msg.go
index 0e4dcae..cc4842f 100644
--- a/templates/cc/msg.go
+++ b/templates/cc/msg.go
@@ -73,7 +73,6 @@ const lookupsTpl = `{{ $c := . }}
 	{{ end }}{{ end }}
 
 	{{ if has .Rules "Pattern"}}{{ if .Rules.Pattern }}
-	const re2::RE2 {{ lookup . "Pattern" }}(re2::StringPiece({{ lit .Rules.GetPattern }},
-							sizeof({{ lit .Rules.GetPattern }}) - 1));
+	const re2::RE2 {{ lookup . "Pattern" }}({{ lit .Rules.GetPattern }});
 	{{ end }}{{ end }}
 `
diff --git a/templates/cc/register.go b/templates/cc/register.go
index 3ac12e1..5f762fd 100644
--- a/templates/cc/register.go
+++ b/templates/cc/register.go
@@ -1,6 +1,7 @@
 package cc
 
 import (
+	"bytes"
 	"fmt"
 	"math"
 	"reflect"
@@ -207,7 +208,7 @@ func (fns CCFuncs) errIdxCause(ctx shared.RuleContext, idx, cause string, reason
 		output = append(output, fmt.Sprintf(`msg << "[" << %s << "]";`, ctx.Index))
 	}
 
-	output = append(output, fmt.Sprintf(`msg << ": " << %q;`, fmt.Sprint(reason...)))
+	output = append(output, fmt.Sprintf(`msg << ": " << %s;`, fns.quoted([]byte(fmt.Sprint(reason...)))))
 
 	if cause != "nil" && cause != "" {
 		output = append(output, fmt.Sprintf(`msg << " | caused by " << %s;`, cause))
@@ -246,17 +247,13 @@ func (fns CCFuncs) lit(x interface{}) string {
 
 	switch val.Kind() {
 	case reflect.String:
-		return fmt.Sprintf("%q", x)
+		return fns.byteStr([]byte(val.String()))
 	case reflect.Uint8:
 		return fmt.Sprintf("%d", x)
 	case reflect.Slice:
-		els := make([]string, val.Len())
 		switch reflect.TypeOf(x).Elem().Kind() {
 		case reflect.Uint8:
-			for i, l := 0, val.Len(); i < l; i++ {
-				els[i] = fmt.Sprintf("\\x%x", val.Index(i).Interface())
-			}
-			return fmt.Sprintf("\"%s\"", strings.Join(els, ""))
+			return fns.byteStr(val.Bytes())
 		default:
 			panic(fmt.Sprintf("don't know how to format literals of type %v", val.Kind()))
 		}
@@ -282,13 +279,33 @@ func (fns CCFuncs) isBytes(f interface {
 	return f.ProtoType() == pgs.BytesT
 }
 
+// byteStr renders a C++ expression holding exactly the bytes x.
 func (fns CCFuncs) byteStr(x []byte) string {
-	elms := make([]string, len(x))
-	for i, b := range x {
-		elms[i] = fmt.Sprintf(`\x%X`, b)
+	lit := fns.quoted(x)
+	if bytes.IndexByte(x, 0) >= 0 {
+		// A literal alone would end at the NUL.
+		return fmt.Sprintf("std::string(%s, %d)", lit, len(x))
 	}
-
-	return fmt.Sprintf(`"%s"`, strings.Join(elms, ""))
+	return lit
+}
+
+// quoted renders a C++ string literal. Go's quoting does not do: C++ hex
+// escapes extend over any following hex digits, and it has no escapes for
+// some code points.
+func (fns CCFuncs) quoted(x []byte) string {
+	var out strings.Builder
+	for _, b := range x {
+		switch {
+		case b == '"' || b == '\\' || b == '?':
+			out.WriteByte('\\')
+			out.WriteByte(b)
+		case b >= ' ' && b <= '~':
+			out.WriteByte(b)
+		default:
+			fmt.Fprintf(&out, `\%03o`, b)
+		}
+	}
+	return `"` + out.String() + `"`
 }
 
 func (fns CCFuncs) oneofTypeName(f pgs.Field) pgsgo.TypeName {
-- 
2.43.0


From 303390973a47d0b94732ab5c3b2aa0c44f589fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:58 +0000
Subject: [PATCH 15/70] fix: bytes len mixed with min_len/max_len is not
 rejected

---
 module/checker.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/module/checker.go b/module/checker.go
index d8beabe..1869721 100644
--- a/module/checker.go
+++ b/module/checker.go
@@ -231,6 +231,7 @@ func (m *Module) CheckString(r *validate.StringRules) {
 }
 
 func (m *Module) CheckBytes(r *validate.BytesRules) {
+	m.checkLen(r.Len, r.MinLen, r.MaxLen)
 	m.checkMinMax(r.MinLen, r.MaxLen)
 	m.checkIns(len(r.In), len(r.NotIn))
 	m.checkPattern(r.Pattern, len(r.In))
-- 
2.43.0


From 4116dc0d9c99431438ec015c5d130bd4077ce141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:59 +0000
Subject: [PATCH 16/70] fix: Any, Duration and Timestamp rules on fields of
 other types are not rejected

---
 module/checker.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/module/checker.go b/module/checker.go
index 1869721..2c3b570 100644
--- a/module/checker.go
+++ b/module/checker.go
@@ -154,6 +154,12 @@ func (m *Module) MustType(typ FieldType, pt pgs.ProtoType, wrapper pgs.WellKnown
 	)
 }
 
+func (m *Module) mustWKT(typ FieldType, wkt pgs.WellKnownType) {
+	emb := typ.Embed()
+	m.Assert(emb != nil && emb.WellKnownType() == wkt,
+		"field is not a ", wkt.Name(), " but got ", wkt.Name(), " rules")
+}
+
 func (m *Module) CheckFloat(r *validate.FloatRules) {
 	m.checkNums(len(r.In), len(r.NotIn), r.Const, r.Lt, r.Lte, r.Gt, r.Gte)
 }
@@ -332,10 +338,12 @@ func (m *Module) CheckMap(ft FieldType, r *validate.MapRules) {
 }
 
 func (m *Module) CheckAny(ft FieldType, r *validate.AnyRules) {
+	m.mustWKT(ft, pgs.AnyWKT)
 	m.checkIns(len(r.In), len(r.NotIn))
 }
 
 func (m *Module) CheckDuration(ft FieldType, r *validate.DurationRules) {
+	m.mustWKT(ft, pgs.DurationWKT)
 	m.checkNums(
 		len(r.GetIn()),
 		len(r.GetNotIn()),
@@ -357,6 +365,7 @@ func (m *Module) CheckDuration(ft FieldType, r *validate.DurationRules) {
 }
 
 func (m *Module) CheckTimestamp(ft FieldType, r *validate.TimestampRules) {
+	m.mustWKT(ft, pgs.TimestampWKT)
 	m.checkNums(0, 0,
 		m.checkTS(r.GetConst()),
 		m.checkTS(r.GetLt()),
-- 
2.43.0


From 62b610d9f3c5e09f3c61c05159f5c3d7ee8929e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:34 +0000
Subject: [PATCH 17/70] fix: an empty bytes const rule is ignored

---
 templates/cc/bytes.go          | 6 +++++-
 templates/cc/register.go       | 4 ++++
 templates/goshared/bytes.go    | 2 +-
 templates/goshared/register.go | 4 ++++
 4 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/templates/cc/bytes.go b/templates/cc/bytes.go
index 7af0ba0..3d1b8a3 100644
--- a/templates/cc/bytes.go
+++ b/templates/cc/bytes.go
@@ -5,7 +5,11 @@ const bytesTpl = `
 	{{ if $r.GetIgnoreEmpty }}
 		if ({{ accessor . }}.size() > 0) {
 	{{ end }}
-	{{ template "const" . }}
+	{{ if isSet $r.Const }}
+		if ({{ accessor . }} != {{ lit $r.Const }}) {
+			{{ err . "value must equal " (lit $r.Const) }}
+		}
+	{{ end }}
 	{{ template "in" . }}
 
 	{{ if or $r.Len (and $r.MinLen $r.MaxLen (eq $r.GetMinLen $r.GetMaxLen)) }}
diff --git a/templates/cc/register.go b/templates/cc/register.go
index 5f762fd..2f9a728 100644
--- a/templates/cc/register.go
+++ b/templates/cc/register.go
@@ -37,6 +37,7 @@ func RegisterModule(tpl *template.Template, params pgs.Parameters) {
 		"inKey":         fns.inKey,
 		"inType":        fns.inType,
 		"isBytes":       fns.isBytes,
+		"isSet":         fns.isSet,
 		"lit":           fns.lit,
 		"lookup":        fns.lookup,
 		"oneof":         fns.oneofTypeName,
@@ -279,6 +280,9 @@ func (fns CCFuncs) isBytes(f interface {
 	return f.ProtoType() == pgs.BytesT
 }
 
+// isSet reports whether a bytes rule is present, even if it is empty.
+func (fns CCFuncs) isSet(x []byte) bool { return x != nil }
+
 // byteStr renders a C++ expression holding exactly the bytes x.
 func (fns CCFuncs) byteStr(x []byte) string {
 	lit := fns.quoted(x)
diff --git a/templates/goshared/bytes.go b/templates/goshared/bytes.go
index f17435f..cee7b5e 100644
--- a/templates/goshared/bytes.go
+++ b/templates/goshared/bytes.go
@@ -81,7 +81,7 @@ const bytesTpl = `
 		}
 	{{ end }}
 
-	{{ if $r.Const }}
+	{{ if isSet $r.Const }}
 		if !bytes.Equal({{ accessor . }}, {{ lit $r.Const }}) {
 			err := {{ err . "value must equal " $r.Const }}
 			if !all { return err }
diff --git a/templates/goshared/register.go b/templates/goshared/register.go
index afc4bc4..d86d20b 100644
--- a/templates/goshared/register.go
+++ b/templates/goshared/register.go
@@ -35,6 +35,7 @@ func Register(tpl *template.Template, params pgs.Parameters) {
 		"inKey":         fns.inKey,
 		"inType":        fns.inType,
 		"isBytes":       fns.isBytes,
+		"isSet":         fns.isSet,
 		"lit":           fns.lit,
 		"lookup":        fns.lookup,
 		"msgTyp":        fns.msgTyp,
@@ -202,6 +203,9 @@ func (fns goSharedFuncs) isBytes(f interface {
 	return f.ProtoType() == pgs.BytesT
 }
 
+// isSet reports whether a bytes rule is present, even if it is empty.
+func (fns goSharedFuncs) isSet(x []byte) bool { return x != nil }
+
 func (fns goSharedFuncs) byteStr(x []byte) string {
 	elms := make([]string, len(x))
 	for i, b := range x {
-- 
2.43.0


From b6951293e508f0ba1efe7b10be1b789a4958916b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:57 +0000
Subject: [PATCH 18/70] fix: Go code for in/not_in lists repeating a value does
 not compile

---
 templates/goshared/msg.go      |  8 ++++----
 templates/goshared/register.go | 15 ++++++++++++++-
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/templates/goshared/msg.go b/templates/goshared/msg.go
index 828ab30..db745cf 100644
--- a/templates/goshared/msg.go
+++ b/templates/goshared/msg.go
@@ -148,16 +148,16 @@ var _ interface{
 const lookupsTpl = `
 	{{ if has .Rules "In" }}{{ if .Rules.In }}
 		var {{ lookup . "InLookup" }} = map[{{ inType . .Rules.In }}]struct{}{
-			{{- range .Rules.In }}
-				{{ inKey . }}: {},
+			{{- range inKeys .Rules.In }}
+				{{ . }}: {},
 			{{- end }}
 		}
 	{{ end }}{{ end }}
 
 	{{ if has .Rules "NotIn" }}{{ if .Rules.NotIn }}
 		var {{ lookup . "NotInLookup" }} = map[{{ inType . .Rules.NotIn }}]struct{}{
-			{{- range .Rules.NotIn }}
-				{{ inKey . }}: {},
+			{{- range inKeys .Rules.NotIn }}
+				{{ . }}: {},
 			{{- end }}
 		}
 	{{ end }}{{ end }}
diff --git a/templates/goshared/register.go b/templates/goshared/register.go
index d86d20b..682dd8a 100644
--- a/templates/goshared/register.go
+++ b/templates/goshared/register.go
@@ -32,7 +32,7 @@ func Register(tpl *template.Template, params pgs.Parameters) {
 		"errIdxCause":   fns.errIdxCause,
 		"errname":       fns.errName,
 		"multierrname":  fns.multiErrName,
-		"inKey":         fns.inKey,
+		"inKeys":        fns.inKeys,
 		"inType":        fns.inType,
 		"isBytes":       fns.isBytes,
 		"isSet":         fns.isSet,
@@ -238,6 +238,19 @@ func (fns goSharedFuncs) inType(ctx shared.RuleContext, x interface{}) string {
 	}
 }
 
+// inKeys renders the distinct values of a list, as Go map literals may not
+// repeat a key.
+func (fns goSharedFuncs) inKeys(list interface{}) (out []string) {
+	seen := map[string]bool{}
+	for l, i := reflect.ValueOf(list), 0; i < l.Len(); i++ {
+		if k := fns.inKey(l.Index(i).Interface()); !seen[k] {
+			seen[k] = true
+			out = append(out, k)
+		}
+	}
+	return out
+}
+
 func (fns goSharedFuncs) inKey(x interface{}) string {
 	switch x := x.(type) {
 	case []byte:
-- 
2.43.0


From c8f25eea63ec0712fc08b360a4097e54030c2bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:47 +0000
Subject: [PATCH 19/70] fix: enums of other packages in lists and maps are not
 imported in Go

---
 templates/goshared/register.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/templates/goshared/register.go b/templates/goshared/register.go
index 682dd8a..939f627 100644
--- a/templates/goshared/register.go
+++ b/templates/goshared/register.go
@@ -321,7 +321,12 @@ func (fns goSharedFuncs) externalEnums(file pgs.File) []pgs.Enum {
 
 	for _, msg := range file.AllMessages() {
 		for _, fld := range msg.Fields() {
-			if en := fld.Type().Enum(); fld.Type().IsEnum() && en.Package().ProtoName() != fld.Package().ProtoName() && fns.PackageName(en) != fns.PackageName(fld) {
+			en := fld.Type().Enum()
+			if el := fld.Type().Element(); el != nil {
+				en = el.Enum()
+			}
+
+			if en != nil && fns.ImportPath(en) != fns.ImportPath(fld) {
 				out = append(out, en)
 			}
 		}
-- 
2.43.0


From 08b969c3dba80cfe5161ade1759b8fbe8941b449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:08 +0000
Subject: [PATCH 20/70] fix: order of the plugin's output files is random

---
 module/validate.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/module/validate.go b/module/validate.go
index 1ca8510..f58b26f 100644
--- a/module/validate.go
+++ b/module/validate.go
@@ -5,6 +5,7 @@ import (
 	"github.com/envoyproxy/protoc-gen-validate/templates/java"
 	pgs "github.com/lyft/protoc-gen-star"
 	pgsgo "github.com/lyft/protoc-gen-star/lang/go"
+	"sort"
 	"strings"
 )
 
@@ -37,7 +38,15 @@ func (m *Module) Execute(targets map[string]pgs.File, pkgs map[string]pgs.Packag
 	tpls := templates.Template(m.Parameters())[lang]
 	m.Assert(tpls != nil, "could not find templates for `lang`: ", lang)
 
-	for _, f := range targets {
+	// Map iteration order is random, the output must not be.
+	names := make([]string, 0, len(targets))
+	for name := range targets {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+
+	for _, name := range names {
+		f := targets[name]
 		m.Push(f.Name().String())
 
 		for _, msg := range f.AllMessages() {
-- 
2.43.0


From 34338194828560396282cccde39c9428016de076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:15 +0000
Subject: [PATCH 21/70] fix: module parameter removes more than the path prefix

---
 module/validate.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/module/validate.go b/module/validate.go
index f58b26f..7af2896 100644
--- a/module/validate.go
+++ b/module/validate.go
@@ -60,7 +60,12 @@ func (m *Module) Execute(targets map[string]pgs.File, pkgs map[string]pgs.Packag
 			// implementation-specific FilePathFor implementations.
 			// Ex: Don't generate Java validators for files that don't reference PGV.
 			if out != nil {
-				outPath := strings.TrimLeft(strings.ReplaceAll(out.String(), module, ""), "/")
+				outPath := out.String()
+				if module != "" {
+					// Only a prefix of whole path elements is the module.
+					outPath = strings.TrimPrefix(outPath, strings.TrimSuffix(module, "/")+"/")
+				}
+				outPath = strings.TrimLeft(outPath, "/")
 
 				if opts := f.Descriptor().GetOptions(); opts != nil && opts.GetJavaMultipleFiles() && lang == "java" {
 					// TODO: Only Java supports multiple file generation. If more languages add multiple file generation
-- 
2.43.0


From 6435b4a540b95d63850a2c4ff49ed82f815f0cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:07 +0000
Subject: [PATCH 22/70] fix: lt_now and gt_now set to false are enforced

---
 templates/cc/timestamp.go       | 8 ++++----
 templates/go/timestamp.go       | 2 +-
 templates/goshared/timestamp.go | 6 +++---
 templates/java/timestamp.go     | 4 ++--
 4 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/templates/cc/timestamp.go b/templates/cc/timestamp.go
index 9e27fcf..775dd3c 100644
--- a/templates/cc/timestamp.go
+++ b/templates/cc/timestamp.go
@@ -3,14 +3,14 @@ package cc
 const timestampTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 	{{ template "required" . }}
 
-	{{ if or $r.Lt $r.Lte $r.Gt $r.Gte $r.LtNow $r.GtNow $r.Within $r.Const }}
+	{{ if or $r.Lt $r.Lte $r.Gt $r.Gte $r.GetLtNow $r.GetGtNow $r.Within $r.Const }}
 		{{ unimplemented "C++ timestamp comparison validations are not implemented" }}
 		{{/*
 		if t := {{ accessor . }}; t != nil {
 			ts, err := ptypes.Timestamp(t)
 			if err != nil { return {{ errCause . "err" "value is not a valid timestamp" }} }
 
-			{{ if or $r.LtNow $r.GtNow $r.Within }} now := time.Now(); {{ end }}
+			{{ if or $r.GetLtNow $r.GetGtNow $r.Within }} now := time.Now(); {{ end }}
 			{{- if $r.Lt }}  lt  := {{ tsLit $r.Lt }};  {{ end }}
 			{{- if $r.Lte }} lte := {{ tsLit $r.Lte }}; {{ end }}
 			{{- if $r.Gt }}  gt  := {{ tsLit $r.Gt }};  {{ end }}
@@ -77,7 +77,7 @@ const timestampTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 				if ts.Sub(gte) < 0 {
 					return {{ err . "value must be greater than or equal to " (tsStr $r.GetGte) }}
 				}
-			{{ else if $r.LtNow }}
+			{{ else if $r.GetLtNow }}
 				{{ if $r.Within }}
 					if ts.Sub(now) >= 0 || ts.Sub(now.Add(-within)) < 0 {
 						return {{ err . "value must be less than now within " (durStr $r.GetWithin) }}
@@ -87,7 +87,7 @@ const timestampTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 						return {{ err . "value must be less than now" }}
 					}
 				{{ end }}
-			{{ else if $r.GtNow }}
+			{{ else if $r.GetGtNow }}
 				{{ if $r.Within }}
 					if ts.Sub(now) >= 0 || ts.Sub(now.Add(within)) > 0 {
 						return {{ err . "value must be greater than now within " (durStr $r.GetWithin) }}
diff --git a/templates/go/timestamp.go b/templates/go/timestamp.go
index a0943bf..4b85291 100644
--- a/templates/go/timestamp.go
+++ b/templates/go/timestamp.go
@@ -3,7 +3,7 @@ package golang
 const timestampTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 	{{ template "required" . }}
 
-	{{ if or $r.Lt $r.Lte $r.Gt $r.Gte $r.LtNow $r.GtNow $r.Within $r.Const }}
+	{{ if or $r.Lt $r.Lte $r.Gt $r.Gte $r.GetLtNow $r.GetGtNow $r.Within $r.Const }}
 		if t := {{ accessor . }}; t != nil {
 			ts, err := t.AsTime(), t.CheckValid()
 			if err != nil {
diff --git a/templates/goshared/timestamp.go b/templates/goshared/timestamp.go
index 3031626..60315c3 100644
--- a/templates/goshared/timestamp.go
+++ b/templates/goshared/timestamp.go
@@ -9,7 +9,7 @@ const timestampcmpTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 				}
 			{{ end }}
 
-			{{ if or $r.LtNow $r.GtNow $r.Within }} now := time.Now(); {{ end }}
+			{{ if or $r.GetLtNow $r.GetGtNow $r.Within }} now := time.Now(); {{ end }}
 			{{- if $r.Lt }}  lt  := {{ tsLit $r.Lt }};  {{ end }}
 			{{- if $r.Lte }} lte := {{ tsLit $r.Lte }}; {{ end }}
 			{{- if $r.Gt }}  gt  := {{ tsLit $r.Gt }};  {{ end }}
@@ -100,7 +100,7 @@ const timestampcmpTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 					if !all { return err }
 					errors = append(errors, err)
 				}
-			{{ else if $r.LtNow }}
+			{{ else if $r.GetLtNow }}
 				{{ if $r.Within }}
 					if ts.Sub(now) >= 0 || ts.Sub(now.Add(-within)) < 0 {
 						err := {{ err . "value must be less than now within " (durStr $r.GetWithin) }}
@@ -114,7 +114,7 @@ const timestampcmpTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 						errors = append(errors, err)
 					}
 				{{ end }}
-			{{ else if $r.GtNow }}
+			{{ else if $r.GetGtNow }}
 				{{ if $r.Within }}
 					if ts.Sub(now) <= 0 || ts.Sub(now.Add(within)) > 0 {
 						err := {{ err . "value must be greater than now within " (durStr $r.GetWithin) }}
diff --git a/templates/java/timestamp.go b/templates/java/timestamp.go
index 8ff860f..70f7775 100644
--- a/templates/java/timestamp.go
+++ b/templates/java/timestamp.go
@@ -42,10 +42,10 @@ const timestampTpl = `{{ $f := .Field }}{{ $r := .Rules -}}
 			if ({{ hasAccessor . }}) io.envoyproxy.pgv.ComparativeValidation.greaterThanOrEqual("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Gte" }}, com.google.protobuf.util.Timestamps.comparator());
 {{- end -}}
 {{- end -}}
-{{- if $r.LtNow }}
+{{- if $r.GetLtNow }}
 			if ({{ hasAccessor . }}) io.envoyproxy.pgv.ComparativeValidation.lessThan("{{ $f.FullyQualifiedName }}", {{ accessor . }}, io.envoyproxy.pgv.TimestampValidation.currentTimestamp(), com.google.protobuf.util.Timestamps.comparator());
 {{- end -}}
-{{- if $r.GtNow }}
+{{- if $r.GetGtNow }}
 			if ({{ hasAccessor . }}) io.envoyproxy.pgv.ComparativeValidation.greaterThan("{{ $f.FullyQualifiedName }}", {{ accessor . }}, io.envoyproxy.pgv.TimestampValidation.currentTimestamp(), com.google.protobuf.util.Timestamps.comparator());
 {{- end -}}
 {{- if $r.Within }}
-- 
2.43.0


From db6cd277015105c311dfd0f0264f80bf0196458e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:05 +0000
Subject: [PATCH 23/70] fix: Go defined_only on proto2 enum fields does not
 compile

---
 templates/goshared/enum.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates/goshared/enum.go b/templates/goshared/enum.go
index ffd6dc6..eb8f728 100644
--- a/templates/goshared/enum.go
+++ b/templates/goshared/enum.go
@@ -6,7 +6,7 @@ const enumTpl = `
 		{{ template "in" . }}
 
 		{{ if $r.GetDefinedOnly }}
-			if _, ok := {{ (typ $f).Element }}_name[int32({{ accessor . }})]; !ok {
+			if _, ok := {{ (typ $f).Element.Value }}_name[int32({{ accessor . }})]; !ok {
 				err := {{ err . "value must be one of the defined enum values" }}
 				if !all { return err }
 				errors = append(errors, err)
-- 
2.43.0


From 7cd1496e64c1d5327ee6d299afb269eee33e7171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:22 +0000
Subject: [PATCH 24/70] fix: C++ messages with two lists of unique items do not
 compile

---
 templates/cc/repeated.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/templates/cc/repeated.go b/templates/cc/repeated.go
index 4313862..e5fa6ad 100644
--- a/templates/cc/repeated.go
+++ b/templates/cc/repeated.go
@@ -28,6 +28,7 @@ const repTpl = `
 	{{ end }}
 
 	{{ if $r.GetUnique }}
+	{ // A message may have several such fields.
 	// Implement comparison for wrapped reference types
 	struct cmp {
 		bool operator() (const std::reference_wrapper<{{ $typ }}> lhs, const std::reference_wrapper<{{ $typ }}> rhs) const {
@@ -62,6 +63,9 @@ const repTpl = `
 			{{ render (.Elem "item" "i") }}
 		}
 	{{ end }}
+	{{ if $r.GetUnique }}
+	}
+	{{ end }}
 	{{ if $r.GetIgnoreEmpty }}
 		}
 	{{ end }}
-- 
2.43.0


From 6577687a93f0df82a86790a04a622b5c5d72ab87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:33 +0000
Subject: [PATCH 25/70] fix: C++ namespaces of packages with underscores,
 digits, upper case or no name

---
 templates/cc/file.go     |  8 ++++----
 templates/cc/register.go | 20 ++++++++++++++++++--
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/templates/cc/file.go b/templates/cc/file.go
index a85cf82..a02d691 100644
--- a/templates/cc/file.go
+++ b/templates/cc/file.go
@@ -34,7 +34,7 @@ pgv::Validator<{{ class . }}> {{ staticVarName . }}(static_cast<bool(*)(const {{
 } // namespace validate
 } // namespace pgv
 
-{{ range .Package.ProtoName.Split }}
+{{ range namespaces .File }}
 namespace {{ . }} {
 {{- end }}
 
@@ -42,7 +42,7 @@ namespace {{ . }} {
 	{{- template "msg" . }}
 {{ end }}
 
-{{ range .Package.ProtoName.Split -}}
+{{ range namespaces .File -}}
 } // namespace
 {{ end }}
 `
@@ -62,7 +62,7 @@ const headerFileTpl = `// Code generated by protoc-gen-validate
 #include "validate/validate.h"
 #include "{{ output .File ".h" }}"
 
-{{ range .Package.ProtoName.Split }}
+{{ range namespaces .File }}
 namespace {{ . }} {
 {{- end }}
 
@@ -72,7 +72,7 @@ using std::string;
 	{{- template "decl" . }}
 {{ end }}
 
-{{ range .Package.ProtoName.Split -}}
+{{ range namespaces .File -}}
 } // namespace
 {{ end }}
 
diff --git a/templates/cc/register.go b/templates/cc/register.go
index 2f9a728..0990647 100644
--- a/templates/cc/register.go
+++ b/templates/cc/register.go
@@ -42,6 +42,7 @@ func RegisterModule(tpl *template.Template, params pgs.Parameters) {
 		"lookup":        fns.lookup,
 		"oneof":         fns.oneofTypeName,
 		"output":        fns.output,
+		"namespaces":    fns.namespaces,
 		"package":       fns.packageName,
 		"quote":         fns.quote,
 		"staticVarName": fns.staticVarName,
@@ -100,6 +101,7 @@ func RegisterHeader(tpl *template.Template, params pgs.Parameters) {
 
 	tpl.Funcs(map[string]interface{}{
 		"class":                fns.className,
+		"namespaces":           fns.namespaces,
 		"output":               fns.output,
 		"screaming_snake_case": strcase.ToScreamingSnake,
 	})
@@ -165,8 +167,22 @@ func (fns CCFuncs) className(ent childEntity) string {
 	return fns.packageName(ent) + "::" + fns.classBaseName(ent)
 }
 
-func (fns CCFuncs) packageName(msg pgs.Entity) string {
-	return "::" + strings.Join(msg.Package().ProtoName().Split(), "::")
+// namespaces lists the C++ namespaces protoc declares for the proto package of
+// ent: one per dot-separated component, none without a package.
+func (fns CCFuncs) namespaces(ent pgs.Entity) []string {
+	pkg := ent.Package().ProtoName().String()
+	if pkg == "" {
+		return nil
+	}
+	return strings.Split(pkg, ".")
+}
+
+func (fns CCFuncs) packageName(ent pgs.Entity) string {
+	name := ""
+	for _, ns := range fns.namespaces(ent) {
+		name += "::" + ns
+	}
+	return name
 }
 
 func (fns CCFuncs) quote(s interface {
-- 
2.43.0


From ac60a02b40491ca2d961a26f8aadb182fac8ae11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:33 +0000
Subject: [PATCH 26/70] fix: C++ accessor and oneof names of fields with upper
 case, digits or keywords

---
 templates/cc/register.go | 66 +++++++++++++++++++++++++++++++++-------
 1 file changed, 55 insertions(+), 11 deletions(-)

diff --git a/templates/cc/register.go b/templates/cc/register.go
index 0990647..68cfa79 100644
--- a/templates/cc/register.go
+++ b/templates/cc/register.go
@@ -119,16 +119,60 @@ func CcFilePath(f pgs.File, ctx pgsgo.Context, tpl *template.Template) *pgs.File
 	return &out
 }
 
+// keywords lists the names protoc appends an underscore to in C++ code.
+var keywords = func() map[string]bool {
+	set := map[string]bool{}
+	for _, word := range strings.Fields(`
+		NULL alignas alignof and and_eq asm auto bitand bitor bool break case
+		catch char class compl const const_cast constexpr continue decltype
+		default delete do double dynamic_cast else enum explicit export extern
+		false float for friend goto if inline int long mutable namespace new
+		noexcept not not_eq nullptr operator or or_eq private protected public
+		register reinterpret_cast return short signed sizeof static
+		static_assert static_cast struct switch template this thread_local
+		throw true try typedef typeid typename union unsigned using virtual
+		void volatile wchar_t while xor xor_eq`) {
+		set[word] = true
+	}
+	return set
+}()
+
+func resolveKeyword(name string) string {
+	if keywords[name] {
+		return name + "_"
+	}
+	return name
+}
+
+// methodName returns the name of the accessor protoc generates for a field:
+// these are always in lower case.
 func (fns CCFuncs) methodName(name interface{}) string {
-	nameStr := fmt.Sprintf("%s", name)
-	switch nameStr {
-	case "const":
-		return "const_"
-	case "inline":
-		return "inline_"
-	default:
-		return nameStr
+	return resolveKeyword(strings.ToLower(fmt.Sprintf("%s", name)))
+}
+
+// camelCase follows protoc's UnderscoresToCamelCase.
+func camelCase(name pgs.Name) string {
+	var out strings.Builder
+	upper := true
+	for _, c := range []byte(name.String()) {
+		switch {
+		case c >= 'a' && c <= 'z':
+			if upper {
+				c -= 'a' - 'A'
+			}
+			upper = false
+			out.WriteByte(c)
+		case c >= 'A' && c <= 'Z':
+			upper = false
+			out.WriteByte(c)
+		default:
+			upper = true
+			if c >= '0' && c <= '9' {
+				out.WriteByte(c)
+			}
+		}
 	}
+	return out.String()
 }
 
 func (fns CCFuncs) accessor(ctx shared.RuleContext) string {
@@ -164,7 +208,7 @@ func (fns CCFuncs) classBaseName(ent childEntity) string {
 }
 
 func (fns CCFuncs) className(ent childEntity) string {
-	return fns.packageName(ent) + "::" + fns.classBaseName(ent)
+	return fns.packageName(ent) + "::" + resolveKeyword(fns.classBaseName(ent))
 }
 
 // namespaces lists the C++ namespaces protoc declares for the proto package of
@@ -331,8 +375,8 @@ func (fns CCFuncs) quoted(x []byte) string {
 func (fns CCFuncs) oneofTypeName(f pgs.Field) pgsgo.TypeName {
 	return pgsgo.TypeName(fmt.Sprintf("%s::%sCase::k%s",
 		fns.className(f.Message()),
-		pgsgo.PGGUpperCamelCase(f.OneOf().Name()),
-		strings.ReplaceAll(pgsgo.PGGUpperCamelCase(f.Name()).String(), "_", "")))
+		camelCase(f.OneOf().Name()),
+		camelCase(f.Name())))
 }
 
 func (fns CCFuncs) inType(ctx shared.RuleContext, x interface{}) string {
-- 
2.43.0


From e37ea1abba07e44b4ab43a2237410db3b8720a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:05 +0000
Subject: [PATCH 27/70] fix: HTTP_HEADER_NAME accepts a comma, which is not a
 token character

---
 module/checker.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/module/checker.go b/module/checker.go
index 2c3b570..2070185 100644
--- a/module/checker.go
+++ b/module/checker.go
@@ -14,7 +14,7 @@ import (
 )
 
 var unknown = ""
-var httpHeaderName = "^:?[0-9a-zA-Z!#$%&'*+-.^_|~\x60]+$"
+var httpHeaderName = "^:?[0-9a-zA-Z!#$%&'*+.^_|~\x60-]+$"
 var httpHeaderValue = "^[^\u0000-\u0008\u000A-\u001F\u007F]*$"
 var headerString = "^[^\u0000\u000A\u000D]*$" // For non-strict validation.
 
-- 
2.43.0


From 4cdc03788034f73c475cbca79eb37f9294949a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:15 +0000
Subject: [PATCH 28/70] fix: different far away duration and timestamp bounds
 are rejected as equal

---
 module/checker.go | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/module/checker.go b/module/checker.go
index 2070185..f3d0d50 100644
--- a/module/checker.go
+++ b/module/checker.go
@@ -3,12 +3,10 @@ package module
 import (
 	"reflect"
 	"regexp"
-	"time"
 	"unicode/utf8"
 
 	"github.com/envoyproxy/protoc-gen-validate/validate"
 	"github.com/lyft/protoc-gen-star"
-	"google.golang.org/protobuf/proto"
 	"google.golang.org/protobuf/types/known/durationpb"
 	"google.golang.org/protobuf/types/known/timestamppb"
 )
@@ -387,7 +385,7 @@ func (m *Module) CheckTimestamp(ft FieldType, r *validate.TimestampRules) {
 
 	dur := m.checkDur(r.Within)
 	m.Assert(
-		dur == nil || *dur > 0,
+		dur == nil || dur.seconds > 0 || dur.nanos > 0,
 		"`within` rule must be positive and non-zero")
 }
 
@@ -496,22 +494,27 @@ func (m *Module) checkPattern(p *string, in int) {
 	}
 }
 
-func (m *Module) checkDur(d *durationpb.Duration) *time.Duration {
+// instant is a valid Duration or Timestamp. Unlike time.Duration and Unix
+// nanoseconds, it holds all of them, so different bounds never compare equal.
+type instant struct {
+	seconds int64
+	nanos   int32
+}
+
+func (m *Module) checkDur(d *durationpb.Duration) *instant {
 	if d == nil {
 		return nil
 	}
 
-	dur, err := d.AsDuration(), d.CheckValid()
-	m.CheckErr(err, "could not resolve duration")
-	return &dur
+	m.CheckErr(d.CheckValid(), "could not resolve duration")
+	return &instant{d.GetSeconds(), d.GetNanos()}
 }
 
-func (m *Module) checkTS(ts *timestamppb.Timestamp) *int64 {
+func (m *Module) checkTS(ts *timestamppb.Timestamp) *instant {
 	if ts == nil {
 		return nil
 	}
 
-	t, err := ts.AsTime(), ts.CheckValid()
-	m.CheckErr(err, "could not resolve timestamp")
-	return proto.Int64(t.UnixNano())
+	m.CheckErr(ts.CheckValid(), "could not resolve timestamp")
+	return &instant{ts.GetSeconds(), ts.GetNanos()}
 }
-- 
2.43.0


From e7ce6cc1d003f4c971ad07ce6c3a673088582a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:16 +0000
Subject: [PATCH 29/70] fix: C++ duration ranges with bounds beyond 292 years
 are inverted

---
 templates/cc/register.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/templates/cc/register.go b/templates/cc/register.go
index 68cfa79..1538575 100644
--- a/templates/cc/register.go
+++ b/templates/cc/register.go
@@ -471,10 +471,11 @@ func (fns CCFuncs) durStr(dur *durationpb.Duration) string {
 }
 
 func (fns CCFuncs) durGt(a, b *durationpb.Duration) bool {
-	ad := a.AsDuration()
-	bd := b.AsDuration()
+	if a.GetSeconds() != b.GetSeconds() {
+		return a.GetSeconds() > b.GetSeconds()
+	}
 
-	return ad > bd
+	return a.GetNanos() > b.GetNanos()
 }
 
 func (fns CCFuncs) tsLit(ts *timestamppb.Timestamp) string {
-- 
2.43.0


From f71d794559e75bc4cd919837847b7b12ca4c19fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:44 +0000
Subject: [PATCH 30/70] fix: C++ accepts durations whose seconds and nanos
 differ in sign

---
 templates/cc/duration.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/templates/cc/duration.go b/templates/cc/duration.go
index 90e7f1e..a50775a 100644
--- a/templates/cc/duration.go
+++ b/templates/cc/duration.go
@@ -10,7 +10,9 @@ const durationTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 
 			if (dur.nanos() > 999999999 || dur.nanos() < -999999999 ||
 			    dur.seconds() > pgv::protobuf::util::TimeUtil::kDurationMaxSeconds ||
-			    dur.seconds() < pgv::protobuf::util::TimeUtil::kDurationMinSeconds)
+			    dur.seconds() < pgv::protobuf::util::TimeUtil::kDurationMinSeconds ||
+			    (dur.seconds() > 0 && dur.nanos() < 0) ||
+			    (dur.seconds() < 0 && dur.nanos() > 0))
 				{{ errCause . "err" "value is not a valid duration" }}
 
 
-- 
2.43.0


From 82c76427763ca021b289b12554cd75fb79d21c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:09 +0000
Subject: [PATCH 31/70] fix: message rules on list items, map keys and values
 go unchecked

A message rule (skip, required) on an element that is no embedded message,
or on an Any, Duration or Timestamp element, was accepted and ignored.
Check it like the message rules of a field.
---
 module/checker.go | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/module/checker.go b/module/checker.go
index f3d0d50..3430ae0 100644
--- a/module/checker.go
+++ b/module/checker.go
@@ -33,6 +33,11 @@ type Repeatable interface {
 	IsRepeated() bool
 }
 
+type Embeddable interface {
+	IsEmbed() bool
+	Embed() pgs.Message
+}
+
 func (m *Module) CheckRules(msg pgs.Message) {
 	m.Push("msg: " + msg.Name().String())
 	defer m.Pop()
@@ -276,8 +281,12 @@ func (m *Module) CheckEnum(ft FieldType, r *validate.EnumRules) {
 }
 
 func (m *Module) CheckMessage(f pgs.Field, rules *validate.FieldRules) {
-	m.Assert(f.Type().IsEmbed(), "field is not embedded but got message rules")
-	emb := f.Type().Embed()
+	m.checkEmbed(f.Type(), rules)
+}
+
+func (m *Module) checkEmbed(typ Embeddable, rules *validate.FieldRules) {
+	m.Assert(typ.IsEmbed(), "field is not embedded but got message rules")
+	emb := typ.Embed()
 	if emb != nil && emb.IsWellKnown() {
 		switch emb.WellKnownType() {
 		case pgs.AnyWKT:
@@ -294,6 +303,16 @@ func (m *Module) CheckMessage(f pgs.Field, rules *validate.FieldRules) {
 	}
 }
 
+// checkElement checks the rules on the items of a list, or on the keys or
+// values of a map.
+func (m *Module) checkElement(typ pgs.FieldTypeElem, rules *validate.FieldRules) {
+	if rules.GetMessage() != nil {
+		m.checkEmbed(typ, rules)
+	}
+
+	m.CheckFieldRules(typ, rules)
+}
+
 func (m *Module) CheckRepeated(ft FieldType, r *validate.RepeatedRules) {
 	typ := m.mustFieldType(ft)
 
@@ -308,7 +327,7 @@ func (m *Module) CheckRepeated(ft FieldType, r *validate.RepeatedRules) {
 	}
 
 	m.Push("items")
-	m.CheckFieldRules(typ.Element(), r.Items)
+	m.checkElement(typ.Element(), r.Items)
 	m.Pop()
 }
 
@@ -327,11 +346,11 @@ func (m *Module) CheckMap(ft FieldType, r *validate.MapRules) {
 	}
 
 	m.Push("keys")
-	m.CheckFieldRules(typ.Key(), r.Keys)
+	m.checkElement(typ.Key(), r.Keys)
 	m.Pop()
 
 	m.Push("values")
-	m.CheckFieldRules(typ.Element(), r.Values)
+	m.checkElement(typ.Element(), r.Values)
 	m.Pop()
 }
 
-- 
2.43.0


From 7d82b2877512c419e472c85615d3c660c687f5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:14 +0000
Subject: [PATCH 32/70] fix: Java generation panics on rules for wrapper items
 and map values

The wrapper template looked for the wrapper message of the field itself,
which a repeated or map field does not have.
---
 templates/java/register.go | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/templates/java/register.go b/templates/java/register.go
index 534785a..c07eb23 100644
--- a/templates/java/register.go
+++ b/templates/java/register.go
@@ -330,6 +330,10 @@ func (fns javaFuncs) fieldName(ctx shared.RuleContext) string {
 func (fns javaFuncs) javaTypeFor(ctx shared.RuleContext) string {
 	t := ctx.Field.Type()
 
+	if wrapped, ok := fns.wrappedType(ctx); ok {
+		return fns.javaTypeForProtoType(wrapped)
+	}
+
 	// Map key and value types
 	if t.IsMap() {
 		switch ctx.AccessorOverride {
@@ -376,6 +380,28 @@ func (fns javaFuncs) javaTypeFor(ctx shared.RuleContext) string {
 	return fns.javaTypeForProtoType(t.ProtoType())
 }
 
+// wrappedType returns the proto type inside the wrapper messages that are the
+// items of a repeated field or the values of a map.
+func (fns javaFuncs) wrappedType(ctx shared.RuleContext) (pgs.ProtoType, bool) {
+	t := ctx.Field.Type()
+	if ctx.OnKey || !(t.IsRepeated() || t.IsMap()) {
+		return 0, false
+	}
+
+	emb := t.Element().Embed()
+	if emb == nil || !emb.IsWellKnown() {
+		return 0, false
+	}
+
+	switch emb.WellKnownType() {
+	case pgs.DoubleValueWKT, pgs.FloatValueWKT, pgs.Int64ValueWKT, pgs.UInt64ValueWKT, pgs.Int32ValueWKT,
+		pgs.UInt32ValueWKT, pgs.BoolValueWKT, pgs.StringValueWKT, pgs.BytesValueWKT:
+		return emb.Fields()[0].Type().ProtoType(), true
+	}
+
+	return 0, false
+}
+
 func (fns javaFuncs) javaTypeForProtoType(t pgs.ProtoType) string {
 
 	switch t {
@@ -401,6 +427,10 @@ func (fns javaFuncs) javaTypeForProtoType(t pgs.ProtoType) string {
 func (fns javaFuncs) javaTypeLiteralSuffixFor(ctx shared.RuleContext) string {
 	t := ctx.Field.Type()
 
+	if wrapped, ok := fns.wrappedType(ctx); ok {
+		return fns.javaTypeLiteralSuffixForPrototype(wrapped)
+	}
+
 	if t.IsMap() {
 		switch ctx.AccessorOverride {
 		case "key":
@@ -498,12 +528,13 @@ func (fns javaFuncs) isOfStringType(f pgs.Field) bool {
 }
 
 func (fns javaFuncs) unwrap(ctx shared.RuleContext) (shared.RuleContext, error) {
+	accessor := fns.accessor(ctx)
 	ctx, err := ctx.Unwrap("wrapped")
 	if err != nil {
 		return ctx, err
 	}
-	ctx.AccessorOverride = fmt.Sprintf("%s.get%s()", fns.fieldAccessor(ctx.Field),
-		fns.camelCase(ctx.Field.Type().Embed().Fields()[0].Name()))
+	ctx.AccessorOverride = fmt.Sprintf("%s.get%s()", accessor,
+		fns.camelCase(shared.WrapperOf(ctx.Field).Fields()[0].Name()))
 	return ctx, nil
 }
 
-- 
2.43.0


From 5b9857eab790c3e0d66eacda246dc489cf4d79bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:48 +0000
Subject: [PATCH 33/70] fix: max_len and max_bytes of 2^63 and more are refused

---
 module/checker.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/module/checker.go b/module/checker.go
index 3430ae0..ff16d45 100644
--- a/module/checker.go
+++ b/module/checker.go
@@ -221,10 +221,10 @@ func (m *Module) CheckString(r *validate.StringRules) {
 	m.checkPattern(r.Pattern, len(r.In))
 
 	if r.MaxLen != nil {
-		max := int(r.GetMaxLen())
-		m.Assert(utf8.RuneCountInString(r.GetPrefix()) <= max, "`prefix` length exceeds the `max_len`")
-		m.Assert(utf8.RuneCountInString(r.GetSuffix()) <= max, "`suffix` length exceeds the `max_len`")
-		m.Assert(utf8.RuneCountInString(r.GetContains()) <= max, "`contains` length exceeds the `max_len`")
+		max := r.GetMaxLen()
+		m.Assert(uint64(utf8.RuneCountInString(r.GetPrefix())) <= max, "`prefix` length exceeds the `max_len`")
+		m.Assert(uint64(utf8.RuneCountInString(r.GetSuffix())) <= max, "`suffix` length exceeds the `max_len`")
+		m.Assert(uint64(utf8.RuneCountInString(r.GetContains())) <= max, "`contains` length exceeds the `max_len`")
 
 		m.Assert(
 			r.MaxBytes == nil || r.GetMaxBytes() >= r.GetMaxLen(),
@@ -232,10 +232,10 @@ func (m *Module) CheckString(r *validate.StringRules) {
 	}
 
 	if r.MaxBytes != nil {
-		max := int(r.GetMaxBytes())
-		m.Assert(len(r.GetPrefix()) <= max, "`prefix` length exceeds the `max_bytes`")
-		m.Assert(len(r.GetSuffix()) <= max, "`suffix` length exceeds the `max_bytes`")
-		m.Assert(len(r.GetContains()) <= max, "`contains` length exceeds the `max_bytes`")
+		max := r.GetMaxBytes()
+		m.Assert(uint64(len(r.GetPrefix())) <= max, "`prefix` length exceeds the `max_bytes`")
+		m.Assert(uint64(len(r.GetSuffix())) <= max, "`suffix` length exceeds the `max_bytes`")
+		m.Assert(uint64(len(r.GetContains())) <= max, "`contains` length exceeds the `max_bytes`")
 	}
 }
 
@@ -246,10 +246,10 @@ func (m *Module) CheckBytes(r *validate.BytesRules) {
 	m.checkPattern(r.Pattern, len(r.In))
 
 	if r.MaxLen != nil {
-		max := int(r.GetMaxLen())
-		m.Assert(len(r.GetPrefix()) <= max, "`prefix` length exceeds the `max_len`")
-		m.Assert(len(r.GetSuffix()) <= max, "`suffix` length exceeds the `max_len`")
-		m.Assert(len(r.GetContains()) <= max, "`contains` length exceeds the `max_len`")
+		max := r.GetMaxLen()
+		m.Assert(uint64(len(r.GetPrefix())) <= max, "`prefix` length exceeds the `max_len`")
+		m.Assert(uint64(len(r.GetSuffix())) <= max, "`suffix` length exceeds the `max_len`")
+		m.Assert(uint64(len(r.GetContains())) <= max, "`contains` length exceeds the `max_len`")
 	}
 }
 
-- 
2.43.0


From 3603ad7867684d1adcf54704efcd9b25bb9645eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:49 +0000
Subject: [PATCH 34/70] fix: Go uuid pattern names of different files are equal
 or invalid

---
 templates/go/file.go           |  2 +-
 templates/goshared/known.go    |  2 +-
 templates/goshared/register.go | 15 +++++++++++----
 3 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/templates/go/file.go b/templates/go/file.go
index 81cbf64..84bd512 100644
--- a/templates/go/file.go
+++ b/templates/go/file.go
@@ -45,7 +45,7 @@ var (
 
 {{- if fileneeds . "uuid" }}
 // define the regex for a UUID once up-front
-var _{{ snakeCase .File.InputPath.BaseName }}_uuidPattern = regexp.MustCompile("^[0-9a-fA-F]{8}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{12}$")
+var {{ uuidPattern .File }} = regexp.MustCompile("^[0-9a-fA-F]{8}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{12}$")
 {{ end }}
 
 {{ range .AllMessages }}
diff --git a/templates/goshared/known.go b/templates/goshared/known.go
index d5b5c45..97e0b27 100644
--- a/templates/goshared/known.go
+++ b/templates/goshared/known.go
@@ -56,7 +56,7 @@ const emailTpl = `
 
 const uuidTpl = `
 	func (m {{ (msgTyp .).Pointer }}) _validateUuid(uuid string) error {
-		if matched := _{{ snakeCase .File.InputPath.BaseName }}_uuidPattern.MatchString(uuid); !matched {
+		if matched := {{ uuidPattern .File }}.MatchString(uuid); !matched {
 			return errors.New("invalid uuid format")
 		}
 
diff --git a/templates/goshared/register.go b/templates/goshared/register.go
index 939f627..c806cc6 100644
--- a/templates/goshared/register.go
+++ b/templates/goshared/register.go
@@ -5,8 +5,8 @@ import (
 	"reflect"
 	"strings"
 	"text/template"
+	"unicode"
 
-	"github.com/iancoleman/strcase"
 	"google.golang.org/protobuf/types/known/durationpb"
 	"google.golang.org/protobuf/types/known/timestamppb"
 
@@ -21,7 +21,7 @@ func Register(tpl *template.Template, params pgs.Parameters) {
 	tpl.Funcs(map[string]interface{}{
 		"accessor":      fns.accessor,
 		"byteStr":       fns.byteStr,
-		"snakeCase":	 fns.snakeCase,
+		"uuidPattern":   fns.uuidPattern,
 		"cmt":           pgs.C80,
 		"durGt":         fns.durGt,
 		"durLit":        fns.durLit,
@@ -345,6 +345,13 @@ func (fns goSharedFuncs) enumPackages(enums []pgs.Enum) map[pgs.FilePath]pgs.Nam
 	return out
 }
 
-func (fns goSharedFuncs) snakeCase(name string) string {
-	return strcase.ToSnake(name)
+// uuidPattern names the variable holding the UUID regex of a file. It is an
+// identifier, and differs wherever protoc-gen-go's own names for the file do.
+func (fns goSharedFuncs) uuidPattern(file pgs.File) string {
+	return "_" + strings.Map(func(r rune) rune {
+		if unicode.IsLetter(r) || unicode.IsDigit(r) {
+			return r
+		}
+		return '_'
+	}, file.InputPath().String()) + "_uuidPattern"
 }
-- 
2.43.0


From 7e1825fc805518babef1c1e537566714ec41816c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:50 +0000
Subject: [PATCH 35/70] fix: Go code for in/not_in lists with both zeros does
 not compile

---
 templates/goshared/register.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/templates/goshared/register.go b/templates/goshared/register.go
index c806cc6..ef7e7d1 100644
--- a/templates/goshared/register.go
+++ b/templates/goshared/register.go
@@ -243,7 +243,11 @@ func (fns goSharedFuncs) inType(ctx shared.RuleContext, x interface{}) string {
 func (fns goSharedFuncs) inKeys(list interface{}) (out []string) {
 	seen := map[string]bool{}
 	for l, i := reflect.ValueOf(list), 0; i < l.Len(); i++ {
-		if k := fns.inKey(l.Index(i).Interface()); !seen[k] {
+		k := fns.inKey(l.Index(i).Interface())
+		if k == "-0" {
+			k = "0"
+		}
+		if !seen[k] {
 			seen[k] = true
 			out = append(out, k)
 		}
-- 
2.43.0


From fe074dfa559c475d4a27432568dd5fcfadcded01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:15 +0000
Subject: [PATCH 36/70] fix: code for infinite and NaN rule literals does not
 compile

---
 templates/cc/file.go           |  2 ++
 templates/cc/register.go       | 15 ++++++++++++---
 templates/go/file.go           |  2 ++
 templates/goshared/ltgt.go     | 24 ++++++++++++------------
 templates/goshared/register.go | 14 ++++++++++++++
 5 files changed, 42 insertions(+), 15 deletions(-)

diff --git a/templates/cc/file.go b/templates/cc/file.go
index a02d691..a88ae06 100644
--- a/templates/cc/file.go
+++ b/templates/cc/file.go
@@ -54,6 +54,8 @@ const headerFileTpl = `// Code generated by protoc-gen-validate
 #pragma once
 
 #include <algorithm>
+#include <limits>
+#include <set>
 #include <string>
 #include <sstream>
 #include <unordered_set>
diff --git a/templates/cc/register.go b/templates/cc/register.go
index 1538575..79548e6 100644
--- a/templates/cc/register.go
+++ b/templates/cc/register.go
@@ -318,11 +318,20 @@ func (fns CCFuncs) lit(x interface{}) string {
 		default:
 			panic(fmt.Sprintf("don't know how to format literals of type %v", val.Kind()))
 		}
-	case reflect.Float32:
+	case reflect.Float32, reflect.Float64:
+		typ := "std::numeric_limits<" + fns.cTypeOfString(val.Kind().String()) + ">"
+		switch f := val.Float(); {
+		case math.IsNaN(f):
+			return typ + "::quiet_NaN()"
+		case math.IsInf(f, 1):
+			return typ + "::infinity()"
+		case math.IsInf(f, -1):
+			return "-" + typ + "::infinity()"
+		case val.Kind() == reflect.Float64:
+			return strconv.FormatFloat(f, 'e', -1, 64)
+		}
 		// The shortest form that parses back to exactly this value.
 		return strconv.FormatFloat(val.Float(), 'e', -1, 32) + "F"
-	case reflect.Float64:
-		return strconv.FormatFloat(val.Float(), 'e', -1, 64)
 	case reflect.Int64:
 		if val.Int() == math.MinInt64 {
 			// C++ has no negative literals: the digits alone do not fit.
diff --git a/templates/go/file.go b/templates/go/file.go
index 84bd512..51ee579 100644
--- a/templates/go/file.go
+++ b/templates/go/file.go
@@ -9,6 +9,7 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
+	"math"
 	"net"
 	"net/mail"
 	"net/url"
@@ -29,6 +30,7 @@ var (
 	_ = bytes.MinRead
 	_ = errors.New("")
 	_ = fmt.Print
+	_ = math.Pi
 	_ = utf8.UTFMax
 	_ = (*regexp.Regexp)(nil)
 	_ = (*strings.Reader)(nil)
diff --git a/templates/goshared/ltgt.go b/templates/goshared/ltgt.go
index 06ca63b..f9b57ce 100644
--- a/templates/goshared/ltgt.go
+++ b/templates/goshared/ltgt.go
@@ -4,13 +4,13 @@ const ltgtTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 	{{ if $r.Lt }}
 		{{ if $r.Gt }}
 			{{  if gt $r.GetLt $r.GetGt }}
-				if val := {{ accessor . }};  val <= {{ $r.Gt }} || val >= {{ $r.Lt }} {
+				if val := {{ accessor . }};  val <= {{ lit $r.GetGt }} || val >= {{ lit $r.GetLt }} {
 					err := {{ err . "value must be inside range (" $r.GetGt ", " $r.GetLt ")" }}
 					if !all { return err }
 					errors = append(errors, err)
 				}
 			{{ else }}
-				if val := {{ accessor . }}; val >= {{ $r.Lt }} && val <= {{ $r.Gt }} {
+				if val := {{ accessor . }}; val >= {{ lit $r.GetLt }} && val <= {{ lit $r.GetGt }} {
 					err := {{ err . "value must be outside range [" $r.GetLt ", " $r.GetGt "]" }}
 					if !all { return err }
 					errors = append(errors, err)
@@ -18,20 +18,20 @@ const ltgtTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 			{{ end }}
 		{{ else if $r.Gte }}
 			{{  if gt $r.GetLt $r.GetGte }}
-				if val := {{ accessor . }};  val < {{ $r.Gte }} || val >= {{ $r.Lt }} {
+				if val := {{ accessor . }};  val < {{ lit $r.GetGte }} || val >= {{ lit $r.GetLt }} {
 					err := {{ err . "value must be inside range [" $r.GetGte ", " $r.GetLt ")" }}
 					if !all { return err }
 					errors = append(errors, err)
 				}
 			{{ else }}
-				if val := {{ accessor . }}; val >= {{ $r.Lt }} && val < {{ $r.Gte }} {
+				if val := {{ accessor . }}; val >= {{ lit $r.GetLt }} && val < {{ lit $r.GetGte }} {
 					err := {{ err . "value must be outside range [" $r.GetLt ", " $r.GetGte ")" }}
 					if !all { return err }
 					errors = append(errors, err)
 				}
 			{{ end }}
 		{{ else }}
-			if {{ accessor . }} >= {{ $r.Lt }} {
+			if {{ accessor . }} >= {{ lit $r.GetLt }} {
 				err := {{ err . "value must be less than " $r.GetLt }}
 				if !all { return err }
 				errors = append(errors, err)
@@ -40,13 +40,13 @@ const ltgtTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 	{{ else if $r.Lte }}
 		{{ if $r.Gt }}
 			{{  if gt $r.GetLte $r.GetGt }}
-				if val := {{ accessor . }};  val <= {{ $r.Gt }} || val > {{ $r.Lte }} {
+				if val := {{ accessor . }};  val <= {{ lit $r.GetGt }} || val > {{ lit $r.GetLte }} {
 					err := {{ err . "value must be inside range (" $r.GetGt ", " $r.GetLte "]" }}
 					if !all { return err }
 					errors = append(errors, err)
 				}
 			{{ else }}
-				if val := {{ accessor . }}; val > {{ $r.Lte }} && val <= {{ $r.Gt }} {
+				if val := {{ accessor . }}; val > {{ lit $r.GetLte }} && val <= {{ lit $r.GetGt }} {
 					err := {{ err . "value must be outside range (" $r.GetLte ", " $r.GetGt "]" }}
 					if !all { return err }
 					errors = append(errors, err)
@@ -54,33 +54,33 @@ const ltgtTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 			{{ end }}
 		{{ else if $r.Gte }}
 			{{ if gt $r.GetLte $r.GetGte }}
-				if val := {{ accessor . }};  val < {{ $r.Gte }} || val > {{ $r.Lte }} {
+				if val := {{ accessor . }};  val < {{ lit $r.GetGte }} || val > {{ lit $r.GetLte }} {
 					err := {{ err . "value must be inside range [" $r.GetGte ", " $r.GetLte "]" }}
 					if !all { return err }
 					errors = append(errors, err)
 				}
 			{{ else }}
-				if val := {{ accessor . }}; val > {{ $r.Lte }} && val < {{ $r.Gte }} {
+				if val := {{ accessor . }}; val > {{ lit $r.GetLte }} && val < {{ lit $r.GetGte }} {
 					err := {{ err . "value must be outside range (" $r.GetLte ", " $r.GetGte ")" }}
 					if !all { return err }
 					errors = append(errors, err)
 				}
 			{{ end }}
 		{{ else }}
-			if {{ accessor . }} > {{ $r.Lte }} {
+			if {{ accessor . }} > {{ lit $r.GetLte }} {
 				err := {{ err . "value must be less than or equal to " $r.GetLte }}
 				if !all { return err }
 				errors = append(errors, err)
 			}
 		{{ end }}
 	{{ else if $r.Gt }}
-		if {{ accessor . }} <= {{ $r.Gt }} {
+		if {{ accessor . }} <= {{ lit $r.GetGt }} {
 			err := {{ err . "value must be greater than " $r.GetGt }}
 			if !all { return err }
 			errors = append(errors, err)
 		}
 	{{ else if $r.Gte }}
-		if {{ accessor . }} < {{ $r.Gte }} {
+		if {{ accessor . }} < {{ lit $r.GetGte }} {
 			err := {{ err . "value must be greater than or equal to " $r.GetGte }}
 			if !all { return err }
 			errors = append(errors, err)
diff --git a/templates/goshared/register.go b/templates/goshared/register.go
index ef7e7d1..7b37183 100644
--- a/templates/goshared/register.go
+++ b/templates/goshared/register.go
@@ -2,6 +2,7 @@ package goshared
 
 import (
 	"fmt"
+	"math"
 	"reflect"
 	"strings"
 	"text/template"
@@ -192,6 +193,19 @@ func (fns goSharedFuncs) lit(x interface{}) string {
 			els[i] = fns.lit(val.Index(i).Interface())
 		}
 		return fmt.Sprintf("%T{%s}", val.Interface(), strings.Join(els, ", "))
+	case reflect.Float32, reflect.Float64:
+		lit := ""
+		switch f := val.Float(); {
+		case math.IsNaN(f):
+			lit = "math.NaN()"
+		case math.IsInf(f, 1):
+			lit = "math.Inf(1)"
+		case math.IsInf(f, -1):
+			lit = "math.Inf(-1)"
+		default:
+			return fmt.Sprint(x)
+		}
+		return fmt.Sprintf("%v(%s)", val.Kind(), lit)
 	default:
 		return fmt.Sprint(x)
 	}
-- 
2.43.0


From 0594ae13f8884684b661c733684cffd8e398f318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:16 +0000
Subject: [PATCH 37/70] fix: C++ in/not_in rules take NaN for a listed value

---
 templates/cc/msg.go      |  4 ++--
 templates/cc/register.go | 11 +++++++++++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/templates/cc/msg.go b/templates/cc/msg.go
index cc4842f..34f6599 100644
--- a/templates/cc/msg.go
+++ b/templates/cc/msg.go
@@ -57,7 +57,7 @@ bool Validate(const {{ class . }}& m, pgv::ValidationMsg* err) {
 // list item, a map key or a map value.
 const lookupsTpl = `{{ $c := . }}
 	{{ if has .Rules "In" }}{{ if .Rules.In }}
-	const std::set<{{ inType . .Rules.In }}> {{ lookup . "InLookup" }} = {
+	const {{ inSet . .Rules.In }} {{ lookup . "InLookup" }} = {
 			{{- range .Rules.In }}
 				{{ inKey $c . }},
 			{{- end }}
@@ -65,7 +65,7 @@ const lookupsTpl = `{{ $c := . }}
 	{{ end }}{{ end }}
 
 	{{ if has .Rules "NotIn" }}{{ if .Rules.NotIn }}
-	const std::set<{{ inType . .Rules.NotIn }}> {{ lookup . "NotInLookup" }} = {
+	const {{ inSet . .Rules.NotIn }} {{ lookup . "NotInLookup" }} = {
 			{{- range .Rules.NotIn }}
 				{{ inKey $c . }},
 			{{- end }}
diff --git a/templates/cc/register.go b/templates/cc/register.go
index 79548e6..b74e0fc 100644
--- a/templates/cc/register.go
+++ b/templates/cc/register.go
@@ -35,6 +35,7 @@ func RegisterModule(tpl *template.Template, params pgs.Parameters) {
 		"errIdxCause":   fns.errIdxCause,
 		"hasAccessor":   fns.hasAccessor,
 		"inKey":         fns.inKey,
+		"inSet":         fns.inSet,
 		"inType":        fns.inType,
 		"isBytes":       fns.isBytes,
 		"isSet":         fns.isSet,
@@ -403,6 +404,16 @@ func (fns CCFuncs) inType(ctx shared.RuleContext, x interface{}) string {
 	}
 }
 
+// inSet returns the type of the table of a list rule.
+func (fns CCFuncs) inSet(ctx shared.RuleContext, x interface{}) string {
+	typ := fns.inType(ctx, x)
+	if typ == "float" || typ == "double" {
+		// An ordered set takes NaN for equal to any of its values.
+		return fmt.Sprintf("std::unordered_set<%s>", typ)
+	}
+	return fmt.Sprintf("std::set<%s>", typ)
+}
+
 // enumClass returns the class of the enum a field, its items or its map values hold.
 func (fns CCFuncs) enumClass(f pgs.Field) string {
 	if f.Type().IsRepeated() || f.Type().IsMap() {
-- 
2.43.0


From 159e41b2bdca17dcaae45eca14351bc4ac67e089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:06 +0000
Subject: [PATCH 38/70] fix: Go code for lengths of 2^63 and more does not
 compile

---
 templates/goshared/bytes.go    | 10 +++++-----
 templates/goshared/map.go      |  8 ++++----
 templates/goshared/register.go | 10 ++++++++++
 templates/goshared/repeated.go |  8 ++++----
 templates/goshared/string.go   | 20 ++++++++++----------
 5 files changed, 33 insertions(+), 23 deletions(-)

diff --git a/templates/goshared/bytes.go b/templates/goshared/bytes.go
index cee7b5e..0d0c224 100644
--- a/templates/goshared/bytes.go
+++ b/templates/goshared/bytes.go
@@ -9,13 +9,13 @@ const bytesTpl = `
 
 	{{ if or $r.Len (and $r.MinLen $r.MaxLen (eq $r.GetMinLen $r.GetMaxLen)) }}
 		{{ if $r.Len }}
-			if len({{ accessor . }}) != {{ $r.GetLen }} {
+			if len({{ accessor . }}) != {{ size $r.GetLen }} {
 				err := {{ err . "value length must be " $r.GetLen " bytes" }}
 				if !all { return err }
 				errors = append(errors, err)
 			}
 		{{ else }}
-			if len({{ accessor . }}) != {{ $r.GetMinLen }} {
+			if len({{ accessor . }}) != {{ size $r.GetMinLen }} {
 				err := {{ err . "value length must be " $r.GetMinLen " bytes" }}
 				if !all { return err }
 				errors = append(errors, err)
@@ -23,20 +23,20 @@ const bytesTpl = `
 		{{ end }}
 	{{ else if $r.MinLen }}
 		{{ if $r.MaxLen }}
-			if l := len({{ accessor . }}); l < {{ $r.GetMinLen }} || l > {{ $r.GetMaxLen }} {
+			if l := len({{ accessor . }}); l < {{ size $r.GetMinLen }} || l > {{ size $r.GetMaxLen }} {
 				err := {{ err . "value length must be between " $r.GetMinLen " and " $r.GetMaxLen " bytes, inclusive" }}
 				if !all { return err }
 				errors = append(errors, err)
 			}
 		{{ else }}
-			if len({{ accessor . }}) < {{ $r.GetMinLen }} {
+			if len({{ accessor . }}) < {{ size $r.GetMinLen }} {
 				err := {{ err . "value length must be at least " $r.GetMinLen " bytes" }}
 				if !all { return err }
 				errors = append(errors, err)
 			}
 		{{ end }}
 	{{ else if $r.MaxLen }}
-		if len({{ accessor . }}) > {{ $r.GetMaxLen }} {
+		if len({{ accessor . }}) > {{ size $r.GetMaxLen }} {
 			err := {{ err . "value length must be at most " $r.GetMaxLen " bytes" }}
 			if !all { return err }
 			errors = append(errors, err)
diff --git a/templates/goshared/map.go b/templates/goshared/map.go
index 1655ac7..c715206 100644
--- a/templates/goshared/map.go
+++ b/templates/goshared/map.go
@@ -9,26 +9,26 @@ const mapTpl = `
 
 	{{ if $r.GetMinPairs }}
 		{{ if eq $r.GetMinPairs $r.GetMaxPairs }}
-			if len({{ accessor . }}) != {{ $r.GetMinPairs }} {
+			if len({{ accessor . }}) != {{ size $r.GetMinPairs }} {
 				err := {{ err . "value must contain exactly " $r.GetMinPairs " pair(s)" }}
 				if !all { return err }
 				errors = append(errors, err)
 			}
 		{{ else if $r.MaxPairs }}
-			if l := len({{ accessor . }}); l < {{ $r.GetMinPairs }} || l > {{ $r.GetMaxPairs }} {
+			if l := len({{ accessor . }}); l < {{ size $r.GetMinPairs }} || l > {{ size $r.GetMaxPairs }} {
 				err := {{ err . "value must contain between " $r.GetMinPairs " and " $r.GetMaxPairs " pairs, inclusive" }}
 				if !all { return err }
 				errors = append(errors, err)
 			}
 		{{ else }}
-			if len({{ accessor . }}) < {{ $r.GetMinPairs }} {
+			if len({{ accessor . }}) < {{ size $r.GetMinPairs }} {
 				err := {{ err . "value must contain at least " $r.GetMinPairs " pair(s)" }}
 				if !all { return err }
 				errors = append(errors, err)
 			}
 		{{ end }}
 	{{ else if $r.MaxPairs }}
-		if len({{ accessor . }}) > {{ $r.GetMaxPairs }} {
+		if len({{ accessor . }}) > {{ size $r.GetMaxPairs }} {
 			err := {{ err . "value must contain no more than " $r.GetMaxPairs " pair(s)" }}
 			if !all { return err }
 			errors = append(errors, err)
diff --git a/templates/goshared/register.go b/templates/goshared/register.go
index 7b37183..846e98d 100644
--- a/templates/goshared/register.go
+++ b/templates/goshared/register.go
@@ -43,6 +43,7 @@ func Register(tpl *template.Template, params pgs.Parameters) {
 		"name":          fns.Name,
 		"oneof":         fns.oneofTypeName,
 		"pkg":           fns.PackageName,
+		"size":          fns.size,
 		"tsGt":          fns.tsGt,
 		"tsLit":         fns.tsLit,
 		"tsStr":         fns.tsStr,
@@ -211,6 +212,15 @@ func (fns goSharedFuncs) lit(x interface{}) string {
 	}
 }
 
+// size renders a length to compare with len(x). No length exceeds the highest
+// int, and larger constants are not ints.
+func (fns goSharedFuncs) size(n uint64) string {
+	if n > math.MaxInt64 {
+		return "math.MaxInt64"
+	}
+	return fmt.Sprint(n)
+}
+
 func (fns goSharedFuncs) isBytes(f interface {
 	ProtoType() pgs.ProtoType
 }) bool {
diff --git a/templates/goshared/repeated.go b/templates/goshared/repeated.go
index c5a7ce5..718f8ac 100644
--- a/templates/goshared/repeated.go
+++ b/templates/goshared/repeated.go
@@ -9,26 +9,26 @@ const repTpl = `
 
 	{{ if $r.GetMinItems }}
 		{{ if eq $r.GetMinItems $r.GetMaxItems }}
-			if len({{ accessor . }}) != {{ $r.GetMinItems }} {
+			if len({{ accessor . }}) != {{ size $r.GetMinItems }} {
 				err := {{ err . "value must contain exactly " $r.GetMinItems " item(s)" }}
 				if !all { return err }
 				errors = append(errors, err)
 			}
 		{{ else if $r.MaxItems }}
-			if l := len({{ accessor . }}); l < {{ $r.GetMinItems }} || l > {{ $r.GetMaxItems }} {
+			if l := len({{ accessor . }}); l < {{ size $r.GetMinItems }} || l > {{ size $r.GetMaxItems }} {
 				err := {{ err . "value must contain between " $r.GetMinItems " and " $r.GetMaxItems " items, inclusive" }}
 				if !all { return err }
 				errors = append(errors, err)
 			}
 		{{ else }}
-			if len({{ accessor . }}) < {{ $r.GetMinItems }} {
+			if len({{ accessor . }}) < {{ size $r.GetMinItems }} {
 				err := {{ err . "value must contain at least " $r.GetMinItems " item(s)" }}
 				if !all { return err }
 				errors = append(errors, err)
 			}
 		{{ end }}
 	{{ else if $r.MaxItems }}
-		if len({{ accessor . }}) > {{ $r.GetMaxItems }} {
+		if len({{ accessor . }}) > {{ size $r.GetMaxItems }} {
 			err := {{ err . "value must contain no more than " $r.GetMaxItems " item(s)" }}
 			if !all { return err }
 			errors = append(errors, err)
diff --git a/templates/goshared/string.go b/templates/goshared/string.go
index d64ba92..03c86ef 100644
--- a/templates/goshared/string.go
+++ b/templates/goshared/string.go
@@ -12,12 +12,12 @@ const strTpl = `
 
 	{{ if or $r.Len (and $r.MinLen $r.MaxLen (eq $r.GetMinLen $r.GetMaxLen)) }}
 		{{ if $r.Len }}
-		if utf8.RuneCountInString({{ accessor . }}) != {{ $r.GetLen }} {
+		if utf8.RuneCountInString({{ accessor . }}) != {{ size $r.GetLen }} {
 			err := {{ err . "value length must be " $r.GetLen " runes" }}
 			if !all { return err }
 			errors = append(errors, err)
 		{{ else }}
-		if utf8.RuneCountInString({{ accessor . }}) != {{ $r.GetMinLen }} {
+		if utf8.RuneCountInString({{ accessor . }}) != {{ size $r.GetMinLen }} {
 			err := {{ err . "value length must be " $r.GetMinLen " runes" }}
 			if !all { return err }
 			errors = append(errors, err)
@@ -25,20 +25,20 @@ const strTpl = `
 	}
 	{{ else if $r.MinLen }}
 		{{ if $r.MaxLen }}
-			if l := utf8.RuneCountInString({{ accessor . }}); l < {{ $r.GetMinLen }} || l > {{ $r.GetMaxLen }} {
+			if l := utf8.RuneCountInString({{ accessor . }}); l < {{ size $r.GetMinLen }} || l > {{ size $r.GetMaxLen }} {
 				err := {{ err . "value length must be between " $r.GetMinLen " and " $r.GetMaxLen " runes, inclusive" }}
 				if !all { return err }
 				errors = append(errors, err)
 			}
 		{{ else }}
-			if utf8.RuneCountInString({{ accessor . }}) < {{ $r.GetMinLen }} {
+			if utf8.RuneCountInString({{ accessor . }}) < {{ size $r.GetMinLen }} {
 				err := {{ err . "value length must be at least " $r.GetMinLen " runes" }}
 				if !all { return err }
 				errors = append(errors, err)
 			}
 		{{ end }}
 	{{ else if $r.MaxLen }}
-		if utf8.RuneCountInString({{ accessor . }}) > {{ $r.GetMaxLen }} {
+		if utf8.RuneCountInString({{ accessor . }}) > {{ size $r.GetMaxLen }} {
 			err := {{ err . "value length must be at most " $r.GetMaxLen " runes" }}
 			if !all { return err }
 			errors = append(errors, err)
@@ -47,13 +47,13 @@ const strTpl = `
 
 	{{ if or $r.LenBytes (and $r.MinBytes $r.MaxBytes (eq $r.GetMinBytes $r.GetMaxBytes)) }}
 		{{ if $r.LenBytes }}
-			if len({{ accessor . }}) != {{ $r.GetLenBytes }} {
+			if len({{ accessor . }}) != {{ size $r.GetLenBytes }} {
 				err := {{ err . "value length must be " $r.GetLenBytes " bytes" }}
 				if !all { return err }
 				errors = append(errors, err)
 			}
 		{{ else }}
-			if len({{ accessor . }}) != {{ $r.GetMinBytes }} {
+			if len({{ accessor . }}) != {{ size $r.GetMinBytes }} {
 				err := {{ err . "value length must be " $r.GetMinBytes " bytes" }}
 				if !all { return err }
 				errors = append(errors, err)
@@ -61,20 +61,20 @@ const strTpl = `
 		{{ end }}
 	{{ else if $r.MinBytes }}
 		{{ if $r.MaxBytes }}
-			if l := len({{ accessor . }}); l < {{ $r.GetMinBytes }} || l > {{ $r.GetMaxBytes }} {
+			if l := len({{ accessor . }}); l < {{ size $r.GetMinBytes }} || l > {{ size $r.GetMaxBytes }} {
 					err := {{ err . "value length must be between " $r.GetMinBytes " and " $r.GetMaxBytes " bytes, inclusive" }}
 					if !all { return err }
 					errors = append(errors, err)
 			}
 		{{ else }}
-			if len({{ accessor . }}) < {{ $r.GetMinBytes }} {
+			if len({{ accessor . }}) < {{ size $r.GetMinBytes }} {
 				err := {{ err . "value length must be at least " $r.GetMinBytes " bytes" }}
 				if !all { return err }
 				errors = append(errors, err)
 			}
 		{{ end }}
 	{{ else if $r.MaxBytes }}
-		if len({{ accessor . }}) > {{ $r.GetMaxBytes }} {
+		if len({{ accessor . }}) > {{ size $r.GetMaxBytes }} {
 			err := {{ err . "value length must be at most " $r.GetMaxBytes " bytes" }}
 			if !all { return err }
 			errors = append(errors, err)
-- 
2.43.0


From 8e092779b5b001c3787b8c2388764cd7d398f5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:28 +0000
Subject: [PATCH 39/70] fix: Go code for duration bounds beyond 292 years does
 not compile

---
 templates/goshared/register.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/templates/goshared/register.go b/templates/goshared/register.go
index 846e98d..66ca5aa 100644
--- a/templates/goshared/register.go
+++ b/templates/goshared/register.go
@@ -292,6 +292,13 @@ func (fns goSharedFuncs) inKey(x interface{}) string {
 }
 
 func (fns goSharedFuncs) durLit(dur *durationpb.Duration) string {
+	switch dur.AsDuration() {
+	case math.MaxInt64:
+		return "time.Duration(math.MaxInt64)"
+	case math.MinInt64:
+		// As AsDuration does with the values to validate.
+		return "time.Duration(math.MinInt64)"
+	}
 	return fmt.Sprintf(
 		"time.Duration(%d * time.Second + %d * time.Nanosecond)",
 		dur.GetSeconds(), dur.GetNanos())
-- 
2.43.0


From eb5949f2554967f66f7ba9bbabd4175cdf987c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:12 +0000
Subject: [PATCH 40/70] fix: C++ rule tables of nested messages with equal
 names are redefined

---
 templates/cc/register.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates/cc/register.go b/templates/cc/register.go
index b74e0fc..276b9e2 100644
--- a/templates/cc/register.go
+++ b/templates/cc/register.go
@@ -290,7 +290,7 @@ func (fns CCFuncs) lookup(ctx shared.RuleContext, name string) string {
 
 	return fmt.Sprintf(
 		"_%s_%s_%s",
-		pgsgo.PGGUpperCamelCase(f.Message().Name()),
+		fns.classBaseName(f.Message()),
 		pgsgo.PGGUpperCamelCase(f.Name()),
 		name,
 	)
-- 
2.43.0


From b7606185fa054acb00e57890675b919907f3cc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:40 +0000
Subject: [PATCH 41/70] fix: Go imports of enum packages clash with each other
 and with other names

---
 templates/go/file.go           |  6 ++---
 templates/goshared/enum.go     |  2 +-
 templates/goshared/register.go | 40 ++++++++++++++++++++++++++--------
 templates/goshared/repeated.go |  2 +-
 4 files changed, 36 insertions(+), 14 deletions(-)

diff --git a/templates/go/file.go b/templates/go/file.go
index 51ee579..6b6b4a6 100644
--- a/templates/go/file.go
+++ b/templates/go/file.go
@@ -20,8 +20,8 @@ import (
 
 	"google.golang.org/protobuf/types/known/anypb"
 
-	{{ range $path, $pkg := enumPackages (externalEnums .) }}
-		{{ $pkg }} "{{ $path }}"
+	{{ range $path, $alias := enumPackages . }}
+		{{ $alias }} "{{ $path }}"
 	{{ end }}
 )
 
@@ -41,7 +41,7 @@ var (
 	_ = anypb.Any{}
 
 	{{ range (externalEnums .) }}
-		_ = {{ pkg . }}.{{ name . }}(0)
+		_ = {{ enumTyp . $.File }}(0)
 	{{ end }}
 )
 
diff --git a/templates/goshared/enum.go b/templates/goshared/enum.go
index eb8f728..acb848f 100644
--- a/templates/goshared/enum.go
+++ b/templates/goshared/enum.go
@@ -6,7 +6,7 @@ const enumTpl = `
 		{{ template "in" . }}
 
 		{{ if $r.GetDefinedOnly }}
-			if _, ok := {{ (typ $f).Element.Value }}_name[int32({{ accessor . }})]; !ok {
+			if _, ok := {{ enumFieldTyp $f }}_name[int32({{ accessor . }})]; !ok {
 				err := {{ err . "value must be one of the defined enum values" }}
 				if !all { return err }
 				errors = append(errors, err)
diff --git a/templates/goshared/register.go b/templates/goshared/register.go
index 66ca5aa..475a01c 100644
--- a/templates/goshared/register.go
+++ b/templates/goshared/register.go
@@ -51,6 +51,8 @@ func Register(tpl *template.Template, params pgs.Parameters) {
 		"unwrap":        fns.unwrap,
 		"externalEnums": fns.externalEnums,
 		"enumPackages":  fns.enumPackages,
+		"enumTyp":       fns.enumTyp,
+		"enumFieldTyp":  fns.enumFieldTyp,
 	})
 
 	template.Must(tpl.New("msg").Parse(msgTpl))
@@ -245,11 +247,7 @@ func (fns goSharedFuncs) oneofTypeName(f pgs.Field) pgsgo.TypeName {
 
 func (fns goSharedFuncs) inType(ctx shared.RuleContext, x interface{}) string {
 	if ctx.Typ == "enum" {
-		typ := fns.Type(ctx.Field)
-		if ctx.Field.Type().IsRepeated() || ctx.Field.Type().IsMap() {
-			return typ.Element().String()
-		}
-		return typ.Value().String()
+		return fns.enumFieldTyp(ctx.Field)
 	}
 
 	switch x.(type) {
@@ -370,16 +368,40 @@ func (fns goSharedFuncs) externalEnums(file pgs.File) []pgs.Enum {
 	return out
 }
 
-func (fns goSharedFuncs) enumPackages(enums []pgs.Enum) map[pgs.FilePath]pgs.Name {
-	out := make(map[pgs.FilePath]pgs.Name, len(enums))
+// enumPackages maps the import paths of the enums a file uses from other Go
+// packages to the names they are imported under. The package's own name could
+// be that of another import, or of a variable in the generated code.
+func (fns goSharedFuncs) enumPackages(file pgs.File) map[pgs.FilePath]string {
+	out := make(map[pgs.FilePath]string)
 
-	for _, en := range enums {
-		out[fns.ImportPath(en)] = fns.PackageName(en)
+	for _, en := range fns.externalEnums(file) {
+		if path := fns.ImportPath(en); out[path] == "" {
+			out[path] = fmt.Sprintf("%s_%d", fns.PackageName(en), len(out)+1)
+		}
 	}
 
 	return out
 }
 
+// enumTyp renders the Go type of an enum as the code generated for file names it.
+func (fns goSharedFuncs) enumTyp(en pgs.Enum, file pgs.File) string {
+	if alias := fns.enumPackages(file)[fns.ImportPath(en)]; alias != "" {
+		return alias + "." + fns.Name(en).String()
+	}
+
+	return fns.Name(en).String()
+}
+
+// enumFieldTyp is enumTyp for the enum of a field, or of its items or values.
+func (fns goSharedFuncs) enumFieldTyp(f pgs.Field) string {
+	en := f.Type().Enum()
+	if el := f.Type().Element(); el != nil {
+		en = el.Enum()
+	}
+
+	return fns.enumTyp(en, f.File())
+}
+
 // uuidPattern names the variable holding the UUID regex of a file. It is an
 // identifier, and differs wherever protoc-gen-go's own names for the file do.
 func (fns goSharedFuncs) uuidPattern(file pgs.File) string {
diff --git a/templates/goshared/repeated.go b/templates/goshared/repeated.go
index 718f8ac..def65db 100644
--- a/templates/goshared/repeated.go
+++ b/templates/goshared/repeated.go
@@ -39,7 +39,7 @@ const repTpl = `
 		{{ lookup . "Unique" }} := {{ if isBytes $f.Type.Element -}}
 			make(map[string]struct{}, len({{ accessor . }}))
 		{{ else -}}
-			make(map[{{ (typ $f).Element }}]struct{}, len({{ accessor . }}))
+			make(map[{{ if $f.Type.Element.IsEnum }}{{ enumFieldTyp $f }}{{ else }}{{ (typ $f).Element }}{{ end }}]struct{}, len({{ accessor . }}))
 		{{ end -}}
 	{{ end }}
 
-- 
2.43.0


From ab93e6d06960759ab53fb9979eeca98c880aa259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:51 +0000
Subject: [PATCH 42/70] fix: Java validator class names differ from the names
 of the protobuf classes

---
 templates/java/register.go | 72 +++++++++++++-------------------------
 1 file changed, 24 insertions(+), 48 deletions(-)

diff --git a/templates/java/register.go b/templates/java/register.go
index c07eb23..14919f7 100644
--- a/templates/java/register.go
+++ b/templates/java/register.go
@@ -160,24 +160,33 @@ func classNameFile(f pgs.File) string {
 	return className
 }
 
+// With java_multiple_files a message's class has exactly the message's name.
 func classNameMessage(m pgs.Message) string {
-	className := m.Name().String()
-	// This is really silly, but when the multiple files option is true, protoc puts underscores in file names.
-	// When multiple files is false, underscores are stripped. Short of rewriting all the name sanitization
-	// logic for java, using "UnderscoreUnderscoreUnderscore" is an escape sequence seems to work with an extremely
-	// small likelihood of name conflict.
-	className = strings.Replace(className, "_", "UnderscoreUnderscoreUnderscore", -1)
-	className = sanitizeClassName(className)
-	className = strings.Replace(className, "UnderscoreUnderscoreUnderscore", "_", -1)
-	return className
+	return m.Name().String()
 }
 
-func sanitizeClassName(className string) string {
-	className = makeInvalidClassnameCharactersUnderscores(className)
-	className = underscoreBetweenConsecutiveUppercase(className)
-	className = strcase.ToCamel(strcase.ToSnake(className))
-	className = upperCaseAfterNumber(className)
-	return className
+// sanitizeClassName makes a class name of a file name the way protoc does.
+func sanitizeClassName(name string) string {
+	var sb strings.Builder
+	upperNext := true
+	for _, c := range name {
+		switch {
+		case c >= 'a' && c <= 'z':
+			if upperNext {
+				c = unicode.ToUpper(c)
+			}
+			upperNext = false
+		case c >= 'A' && c <= 'Z':
+			upperNext = false
+		case c >= '0' && c <= '9':
+			upperNext = true
+		default:
+			upperNext = true
+			continue
+		}
+		sb.WriteRune(c)
+	}
+	return sb.String()
 }
 
 func javaPackage(file pgs.File) string {
@@ -218,24 +227,6 @@ func (fns javaFuncs) qualifiedName(entity pgs.Entity) string {
 	return entity.Name().String()
 }
 
-// Replace invalid identifier characters with an underscore
-func makeInvalidClassnameCharactersUnderscores(name string) string {
-	var sb string
-	for _, c := range name {
-		switch {
-		case c >= '0' && c <= '9':
-			sb += string(c)
-		case c >= 'a' && c <= 'z':
-			sb += string(c)
-		case c >= 'A' && c <= 'Z':
-			sb += string(c)
-		default:
-			sb += "_"
-		}
-	}
-	return sb
-}
-
 func upperCaseAfterNumber(name string) string {
 	var sb string
 	var p rune
@@ -251,21 +242,6 @@ func upperCaseAfterNumber(name string) string {
 	return sb
 }
 
-func underscoreBetweenConsecutiveUppercase(name string) string {
-	var sb string
-	var p rune
-
-	for _, c := range name {
-		if unicode.IsUpper(p) && unicode.IsUpper(c) {
-			sb += "_" + string(c)
-		} else {
-			sb += string(c)
-		}
-		p = c
-	}
-	return sb
-}
-
 func appendOuterClassName(outerClassName string, file pgs.File) string {
 	conflict := false
 
-- 
2.43.0


From 48481f57ac75ba631fa0b34927c9c3d39865c121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:51 +0000
Subject: [PATCH 43/70] fix: Java outer class name ignores nested messages and
 enums of the same name

---
 templates/java/register.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/templates/java/register.go b/templates/java/register.go
index 14919f7..473a290 100644
--- a/templates/java/register.go
+++ b/templates/java/register.go
@@ -245,13 +245,14 @@ func upperCaseAfterNumber(name string) string {
 func appendOuterClassName(outerClassName string, file pgs.File) string {
 	conflict := false
 
-	for _, enum := range file.Enums() {
+	// protoc avoids the names of nested messages and enums, too
+	for _, enum := range file.AllEnums() {
 		if enum.Name().String() == outerClassName {
 			conflict = true
 		}
 	}
 
-	for _, message := range file.Messages() {
+	for _, message := range file.AllMessages() {
 		if message.Name().String() == outerClassName {
 			conflict = true
 		}
-- 
2.43.0


From fbe963f8a4d42c68f831b071f4c56fbe61a6f676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:54 +0000
Subject: [PATCH 44/70] fix: no Java validators for files that import the rules
 publicly

---
 templates/java/register.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/templates/java/register.go b/templates/java/register.go
index 473a290..fb88deb 100644
--- a/templates/java/register.go
+++ b/templates/java/register.go
@@ -142,6 +142,29 @@ func importsPvg(f pgs.File) bool {
 			return true
 		}
 	}
+	// The rules are also available through the public imports of imported files.
+	for _, dep := range f.Imports() {
+		if publiclyImportsPvg(dep) {
+			return true
+		}
+	}
+	return false
+}
+
+func publiclyImportsPvg(f pgs.File) bool {
+	public := map[string]bool{}
+	for _, i := range f.Descriptor().GetPublicDependency() {
+		dep := f.Descriptor().GetDependency()[i]
+		if strings.HasSuffix(dep, "validate.proto") {
+			return true
+		}
+		public[dep] = true
+	}
+	for _, dep := range f.Imports() {
+		if public[dep.InputPath().String()] && publiclyImportsPvg(dep) {
+			return true
+		}
+	}
 	return false
 }
 
-- 
2.43.0


From 3ac70b5a69adafe33a4d316a10f9243cbf8c150a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:57 +0000
Subject: [PATCH 45/70] fix: Java code for required wrappers names a memory
 address instead of the field

---
 templates/java/wrapper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates/java/wrapper.go b/templates/java/wrapper.go
index 3e3984e..80e1adc 100644
--- a/templates/java/wrapper.go
+++ b/templates/java/wrapper.go
@@ -8,5 +8,5 @@ const wrapperTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 				{{- render (unwrap .) }}
 			}
 			{{ if .MessageRules.GetRequired }} else {
-				throw new io.envoyproxy.pgv.ValidationException("{{ $f }}", "null", "is required");
+				throw new io.envoyproxy.pgv.ValidationException("{{ $f.FullyQualifiedName }}", "null", "is required");
 			} {{ end }}`
-- 
2.43.0


From 70956d7ce96a036f3581dcada569e74b4b65c347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:28 +0000
Subject: [PATCH 46/70] fix: explicit validator index never runs the fallback
 validator

The fallback looked the validator up in the fallback index but did not call
it, so every message of an unregistered class was accepted.
---
 .../src/main/java/io/envoyproxy/pgv/ExplicitValidatorIndex.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ExplicitValidatorIndex.java b/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ExplicitValidatorIndex.java
index 828d13e..f1051d3 100644
--- a/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ExplicitValidatorIndex.java
+++ b/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ExplicitValidatorIndex.java
@@ -33,7 +33,7 @@ public final class ExplicitValidatorIndex implements ValidatorIndex {
     @SuppressWarnings("unchecked")
     public <T> Validator<T> validatorFor(Class clazz) {
         return VALIDATOR_INDEX.computeIfAbsent(clazz, c ->
-                proto -> VALIDATOR_IMPL_INDEX.getOrDefault(c, (p, i) -> fallbackIndex.validatorFor(c))
+                proto -> VALIDATOR_IMPL_INDEX.getOrDefault(c, (p, i) -> fallbackIndex.validatorFor(c).assertValid(p))
                         .assertValid(proto, ExplicitValidatorIndex.this));
     }
 }
-- 
2.43.0


From 60d7208554abaeb5d5333ed764d7c217930e3911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:28 +0000
Subject: [PATCH 47/70] fix: reflective validator index throws for ignored
 messages

validatorFor of a generated class returns null for messages it has no
validator for (ignored ones, or the file's other messages); using the
index on such a message threw a NullPointerException.
---
 .../main/java/io/envoyproxy/pgv/ReflectiveValidatorIndex.java | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ReflectiveValidatorIndex.java b/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ReflectiveValidatorIndex.java
index f9f7778..c561680 100644
--- a/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ReflectiveValidatorIndex.java
+++ b/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ReflectiveValidatorIndex.java
@@ -48,6 +48,10 @@ public final class ReflectiveValidatorIndex implements ValidatorIndex {
         String validatorClassName = enclosingClass.getName() + "Validator";
         Class validatorClass = clazz.getClassLoader().loadClass(validatorClassName);
         ValidatorImpl impl = (ValidatorImpl) validatorClass.getDeclaredMethod("validatorFor", Class.class).invoke(null, clazz);
+        if (impl == null) {
+            // The enclosing validator has none for this class, which ignores validation
+            return fallbackIndex.validatorFor(clazz);
+        }
 
         return proto -> impl.assertValid(proto, ReflectiveValidatorIndex.this);
     }
-- 
2.43.0


From fcf876e04ce4d3a5b44c13277840b5b03be377aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:28 +0000
Subject: [PATCH 48/70] fix: server interceptor keeps delivering messages after
 rejecting one

Further messages of an aborted call reached the service, and a second
invalid message closed the call again, which grpc answers with an
IllegalStateException.
---
 .../io/envoyproxy/pgv/grpc/ValidatingServerInterceptor.java   | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/java/pgv-java-grpc/src/main/java/io/envoyproxy/pgv/grpc/ValidatingServerInterceptor.java b/java/pgv-java-grpc/src/main/java/io/envoyproxy/pgv/grpc/ValidatingServerInterceptor.java
index 60b5147..d9e11ab 100644
--- a/java/pgv-java-grpc/src/main/java/io/envoyproxy/pgv/grpc/ValidatingServerInterceptor.java
+++ b/java/pgv-java-grpc/src/main/java/io/envoyproxy/pgv/grpc/ValidatingServerInterceptor.java
@@ -25,6 +25,10 @@ public class ValidatingServerInterceptor implements ServerInterceptor {
 
             @Override
             public void onMessage(ReqT message) {
+                if (aborted) {
+                    // The call is closed already, messages that were under way are dropped
+                    return;
+                }
                 try {
                     index.validatorFor(message.getClass()).assertValid(message);
                     super.onMessage(message);
-- 
2.43.0


From 2fed0d62429241134df8dfcf62391640d19c1101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:25 +0000
Subject: [PATCH 49/70] fix: server interceptor closes calls the service has
 closed already

An invalid message that arrives after the service closed the call made the
interceptor close it a second time, which grpc answers with an
IllegalStateException and the loss of the status the service sent.
---
 .../pgv/grpc/ValidatingServerInterceptor.java    | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/java/pgv-java-grpc/src/main/java/io/envoyproxy/pgv/grpc/ValidatingServerInterceptor.java b/java/pgv-java-grpc/src/main/java/io/envoyproxy/pgv/grpc/ValidatingServerInterceptor.java
index d9e11ab..ebda1cd 100644
--- a/java/pgv-java-grpc/src/main/java/io/envoyproxy/pgv/grpc/ValidatingServerInterceptor.java
+++ b/java/pgv-java-grpc/src/main/java/io/envoyproxy/pgv/grpc/ValidatingServerInterceptor.java
@@ -4,6 +4,8 @@ import io.envoyproxy.pgv.ValidationException;
 import io.envoyproxy.pgv.ValidatorIndex;
 import io.grpc.*;
 
+import java.util.concurrent.atomic.AtomicBoolean;
+
 /**
  * {@code ValidatingServerInterceptor} is a gRPC {@code ServerInterceptor} that validates inbound gRPC messages before
  * processing. Non-compliant messages result in an {@code INVALID_ARGUMENT} status response.
@@ -17,7 +19,15 @@ public class ValidatingServerInterceptor implements ServerInterceptor {
 
     @Override
     public <ReqT, RespT> ServerCall.Listener<ReqT> interceptCall(ServerCall<ReqT, RespT> call, Metadata headers, ServerCallHandler<ReqT, RespT> next) {
-        return new ForwardingServerCallListener.SimpleForwardingServerCallListener<ReqT>(next.startCall(call, headers)) {
+        final AtomicBoolean closed = new AtomicBoolean();
+        final ServerCall<ReqT, RespT> trackedCall = new ForwardingServerCall.SimpleForwardingServerCall<ReqT, RespT>(call) {
+            @Override
+            public void close(Status status, Metadata trailers) {
+                closed.set(true);
+                super.close(status, trailers);
+            }
+        };
+        return new ForwardingServerCallListener.SimpleForwardingServerCallListener<ReqT>(next.startCall(trackedCall, headers)) {
 
             // Implementations are free to block for extended periods of time. Implementations are not
             // required to be thread-safe.
@@ -35,7 +45,9 @@ public class ValidatingServerInterceptor implements ServerInterceptor {
                 } catch (ValidationException ex) {
                     StatusRuntimeException status = ValidationExceptions.asStatusRuntimeException(ex);
                     aborted = true;
-                    call.close(status.getStatus(), status.getTrailers());
+                    if (closed.compareAndSet(false, true)) {
+                        call.close(status.getStatus(), status.getTrailers());
+                    }
                 }
             }
 
-- 
2.43.0


From 112208867d4fdec63444c9dc6fe0fa5bb6ffe323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:25 +0000
Subject: [PATCH 50/70] fix: Java timestamp within overflows on distances
 beyond 292 years

The distance was converted to nanoseconds in a long, so that timestamps far
away threw an ArithmeticException instead of failing validation.
---
 .../main/java/io/envoyproxy/pgv/TimestampValidation.java   | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/TimestampValidation.java b/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/TimestampValidation.java
index ff51948..cceb7a2 100644
--- a/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/TimestampValidation.java
+++ b/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/TimestampValidation.java
@@ -13,7 +13,7 @@ public final class TimestampValidation {
 
     public static void within(String field, Timestamp value, Duration duration, Timestamp when) throws ValidationException {
         Duration between = Timestamps.between(when, value);
-        if (Long.compare(Math.abs(Durations.toNanos(between)), Math.abs(Durations.toNanos(duration))) == 1) {
+        if (Durations.compare(abs(between), abs(duration)) > 0) {
             throw new ValidationException(field, value, "value must be within " + Durations.toString(duration) + " of " + Timestamps.toString(when));
         }
     }
@@ -21,6 +21,11 @@ public final class TimestampValidation {
     /**
      * Converts {@code seconds} and {@code nanos} to a protobuf {@code Timestamp}.
      */
+    private static Duration abs(Duration duration) {
+        Duration zero = Duration.getDefaultInstance();
+        return Durations.compare(duration, zero) < 0 ? Durations.subtract(zero, duration) : duration;
+    }
+
     public static Timestamp toTimestamp(long seconds, int nanos) {
         return Timestamp.newBuilder()
                 .setSeconds(seconds)
-- 
2.43.0


From 054d56734c845c725f924705fc172448a8cc0674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:16 +0000
Subject: [PATCH 51/70] fix: Java validates ignored messages when generating a
 file per message

With java_multiple_files, `ignored` was honoured for nested messages only.
---
 templates/java/file.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/templates/java/file.go b/templates/java/file.go
index 567831c..1f2abfd 100644
--- a/templates/java/file.go
+++ b/templates/java/file.go
@@ -26,9 +26,11 @@ public class {{ classNameFile . }}Validator {
 * Validates {@code {{ simpleName . }}} protobuf objects.
 */
 @SuppressWarnings("all")
-public class {{ classNameMessage .}}Validator implements io.envoyproxy.pgv.ValidatorImpl<{{ qualifiedName . }}>{
+public class {{ classNameMessage .}}Validator {{ if not (ignored .) }}implements io.envoyproxy.pgv.ValidatorImpl<{{ qualifiedName . }}>{{ end }}{
 	public static io.envoyproxy.pgv.ValidatorImpl validatorFor(Class clazz) {
+		{{ if not (ignored .) -}}
 		if (clazz.equals({{ qualifiedName . }}.class)) return new {{ simpleName .}}Validator();
+		{{- end }}
 		{{ range .AllMessages }}
 		{{ if not (ignored .) -}}
 		if (clazz.equals({{ qualifiedName . }}.class)) return new {{ simpleName .}}Validator();
@@ -36,7 +38,9 @@ public class {{ classNameMessage .}}Validator implements io.envoyproxy.pgv.Valid
 		{{- end }}
 		return null;
 	}
+	{{ if not (ignored .) -}}
 	{{- template "msgInner" . -}}
+	{{- end }}
 	{{ range .AllMessages -}}
 	{{- template "msg" . -}}
 	{{- end }}
-- 
2.43.0


From a242f0fdd0d6707f376bad9417b9b4c31d195b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:58 +0000
Subject: [PATCH 52/70] fix: Java email validation accepts a stray closing
 bracket

Of a value ending in '>' only what follows '<' was checked, without asking
for the '<': a@b.com> was a valid email.
---
 .../main/java/io/envoyproxy/pgv/StringValidation.java | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/StringValidation.java b/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/StringValidation.java
index 22e3a9e..f8f00f8 100644
--- a/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/StringValidation.java
+++ b/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/StringValidation.java
@@ -106,16 +106,23 @@ public final class StringValidation {
             final char[] chars = value.toCharArray();
             final StringBuilder sb = new StringBuilder();
             boolean insideQuotes = false;
+            boolean opened = false;
             for (int i = chars.length - 2; i >= 0; i--) {
                 final char c = chars[i];
                 if (c == '<') {
-                    if (!insideQuotes) break;
+                    if (!insideQuotes) {
+                        opened = true;
+                        break;
+                    }
                 } else if (c == '"') {
                     insideQuotes = !insideQuotes;
                 }
                 sb.append(c);
             }
-            value = sb.reverse().toString();
+            // Without the opening bracket, the closing one is part of the value
+            if (opened) {
+                value = sb.reverse().toString();
+            }
         }
 
         if (!Lazy.EMAIL_VALIDATOR.isValid(value)) {
-- 
2.43.0


From 101334da1a5e10dec3e0a22ce3964c36d79dd5bf Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:31:48 +0000
Subject: [PATCH 53/70] fix: Java code for large unsigned and infinite rule
 values does not compile

---
 templates/java/num.go      |  14 ++---
 templates/java/register.go | 110 +++++++++++++++++--------------------
 2 files changed, 56 insertions(+), 68 deletions(-)

diff --git a/templates/java/num.go b/templates/java/num.go
index e0a25e9..7565792 100644
--- a/templates/java/num.go
+++ b/templates/java/num.go
@@ -2,31 +2,31 @@ package java
 
 const numConstTpl = `{{ $f := .Field }}{{ $r := .Rules -}}
 {{- if $r.Const }}
-		private final {{ javaTypeFor .}} {{ constantName . "Const" }} = {{ $r.GetConst }}{{ javaTypeLiteralSuffixFor . }};
+		private final {{ javaTypeFor .}} {{ constantName . "Const" }} = {{ numLit $r.GetConst }};
 {{- end -}}
 {{- if $r.Lt }}
-		private final {{ javaTypeFor .}} {{ constantName . "Lt" }} = {{ $r.GetLt }}{{ javaTypeLiteralSuffixFor . }};
+		private final {{ javaTypeFor .}} {{ constantName . "Lt" }} = {{ numLit $r.GetLt }};
 {{- end -}}
 {{- if $r.Lte }}
-		private final {{ javaTypeFor .}} {{ constantName . "Lte" }} = {{ $r.GetLte }}{{ javaTypeLiteralSuffixFor . }};
+		private final {{ javaTypeFor .}} {{ constantName . "Lte" }} = {{ numLit $r.GetLte }};
 {{- end -}}
 {{- if $r.Gt }}
-		private final {{ javaTypeFor .}} {{ constantName . "Gt" }} = {{ $r.GetGt }}{{ javaTypeLiteralSuffixFor . }};
+		private final {{ javaTypeFor .}} {{ constantName . "Gt" }} = {{ numLit $r.GetGt }};
 {{- end -}}
 {{- if $r.Gte }}
-		private final {{ javaTypeFor .}} {{ constantName . "Gte" }} = {{ $r.GetGte }}{{ javaTypeLiteralSuffixFor . }};
+		private final {{ javaTypeFor .}} {{ constantName . "Gte" }} = {{ numLit $r.GetGte }};
 {{- end -}}
 {{- if $r.In }}
 		private final {{ javaTypeFor . }}[] {{ constantName . "In" }} = new {{ javaTypeFor . }}[]{
 			{{- range $r.In -}}
-				{{- sprintf "%v" . -}}{{ javaTypeLiteralSuffixFor $ }},
+				{{- numLit . -}},
 			{{- end -}}
 		};
 {{- end -}}
 {{- if $r.NotIn }}
 		private final {{ javaTypeFor . }}[] {{ constantName . "NotIn" }} = new {{ javaTypeFor . }}[]{
 			{{- range $r.NotIn -}}
-				{{- sprintf "%v" . -}}{{ javaTypeLiteralSuffixFor $ }},
+				{{- numLit . -}},
 			{{- end -}}
 		};
 {{- end -}}`
diff --git a/templates/java/register.go b/templates/java/register.go
index fb88deb..45e89b3 100644
--- a/templates/java/register.go
+++ b/templates/java/register.go
@@ -3,6 +3,7 @@ package java
 import (
 	"bytes"
 	"fmt"
+	"math"
 	"os"
 	"strings"
 	"text/template"
@@ -32,29 +33,29 @@ func Register(tpl *template.Template, params pgs.Parameters) {
 	fns := javaFuncs{pgsgo.InitContext(params)}
 
 	tpl.Funcs(map[string]interface{}{
-		"accessor":                 fns.accessor,
-		"byteArrayLit":             fns.byteArrayLit,
-		"camelCase":                fns.camelCase,
-		"classNameFile":            classNameFile,
-		"classNameMessage":         classNameMessage,
-		"durLit":                   fns.durLit,
-		"fieldName":                fns.fieldName,
-		"javaPackage":              javaPackage,
-		"javaStringEscape":         fns.javaStringEscape,
-		"javaTypeFor":              fns.javaTypeFor,
-		"javaTypeLiteralSuffixFor": fns.javaTypeLiteralSuffixFor,
-		"hasAccessor":              fns.hasAccessor,
-		"oneof":                    fns.oneofTypeName,
-		"sprintf":                  fmt.Sprintf,
-		"simpleName":               fns.Name,
-		"tsLit":                    fns.tsLit,
-		"qualifiedName":            fns.qualifiedName,
-		"isOfFileType":             fns.isOfFileType,
-		"isOfMessageType":          fns.isOfMessageType,
-		"isOfStringType":           fns.isOfStringType,
-		"unwrap":                   fns.unwrap,
-		"renderConstants":          fns.renderConstants(tpl),
-		"constantName":             fns.constantName,
+		"accessor":         fns.accessor,
+		"byteArrayLit":     fns.byteArrayLit,
+		"camelCase":        fns.camelCase,
+		"classNameFile":    classNameFile,
+		"classNameMessage": classNameMessage,
+		"durLit":           fns.durLit,
+		"fieldName":        fns.fieldName,
+		"javaPackage":      javaPackage,
+		"javaStringEscape": fns.javaStringEscape,
+		"javaTypeFor":      fns.javaTypeFor,
+		"numLit":           fns.numLit,
+		"hasAccessor":      fns.hasAccessor,
+		"oneof":            fns.oneofTypeName,
+		"sprintf":          fmt.Sprintf,
+		"simpleName":       fns.Name,
+		"tsLit":            fns.tsLit,
+		"qualifiedName":    fns.qualifiedName,
+		"isOfFileType":     fns.isOfFileType,
+		"isOfMessageType":  fns.isOfMessageType,
+		"isOfStringType":   fns.isOfStringType,
+		"unwrap":           fns.unwrap,
+		"renderConstants":  fns.renderConstants(tpl),
+		"constantName":     fns.constantName,
 	})
 
 	template.Must(tpl.Parse(fileTpl))
@@ -424,48 +425,35 @@ func (fns javaFuncs) javaTypeForProtoType(t pgs.ProtoType) string {
 	}
 }
 
-func (fns javaFuncs) javaTypeLiteralSuffixFor(ctx shared.RuleContext) string {
-	t := ctx.Field.Type()
-
-	if wrapped, ok := fns.wrappedType(ctx); ok {
-		return fns.javaTypeLiteralSuffixForPrototype(wrapped)
-	}
-
-	if t.IsMap() {
-		switch ctx.AccessorOverride {
-		case "key":
-			return fns.javaTypeLiteralSuffixForPrototype(t.Key().ProtoType())
-		case "value":
-			return fns.javaTypeLiteralSuffixForPrototype(t.Element().ProtoType())
-		}
-	}
-
-	if t.IsEmbed() {
-		if embed := t.Embed(); embed.IsWellKnown() {
-			switch embed.WellKnownType() {
-			case pgs.Int64ValueWKT, pgs.UInt64ValueWKT:
-				return "L"
-			case pgs.FloatValueWKT:
-				return "F"
-			case pgs.DoubleValueWKT:
-				return "D"
-			}
-		}
+// numLit renders the value of a numeric rule. Java has no unsigned types, there
+// uint32 and uint64 values beyond the signed range are negative numbers.
+func (fns javaFuncs) numLit(x interface{}) string {
+	switch v := x.(type) {
+	case uint32:
+		return fmt.Sprintf("%d", int32(v))
+	case int64:
+		return fmt.Sprintf("%dL", v)
+	case uint64:
+		return fmt.Sprintf("%dL", int64(v))
+	case float32:
+		return floatLit(float64(v), "Float", fmt.Sprintf("%vF", v))
+	case float64:
+		return floatLit(v, "Double", fmt.Sprintf("%vD", v))
+	default:
+		return fmt.Sprintf("%v", v)
 	}
-
-	return fns.javaTypeLiteralSuffixForPrototype(t.ProtoType())
 }
 
-func (fns javaFuncs) javaTypeLiteralSuffixForPrototype(t pgs.ProtoType) string {
-	switch t {
-	case pgs.Int64T, pgs.UInt64T, pgs.SInt64, pgs.Fixed64T, pgs.SFixed64:
-		return "L"
-	case pgs.FloatT:
-		return "F"
-	case pgs.DoubleT:
-		return "D"
+func floatLit(v float64, class, finite string) string {
+	switch {
+	case math.IsNaN(v):
+		return "java.lang." + class + ".NaN"
+	case math.IsInf(v, 1):
+		return "java.lang." + class + ".POSITIVE_INFINITY"
+	case math.IsInf(v, -1):
+		return "java.lang." + class + ".NEGATIVE_INFINITY"
 	default:
-		return ""
+		return finite
 	}
 }
 
-- 
2.43.0


From f1a470082cd119879db2d0a511ff903df3566c4c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:31:50 +0000
Subject: [PATCH 54/70] fix: Java compares unsigned numbers as signed ones

---
 templates/java/num.go      | 10 +++++-----
 templates/java/register.go | 14 ++++++++++++++
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/templates/java/num.go b/templates/java/num.go
index 7565792..22ee613 100644
--- a/templates/java/num.go
+++ b/templates/java/num.go
@@ -39,19 +39,19 @@ const numTpl = `{{ $f := .Field }}{{ $r := .Rules -}}
 			io.envoyproxy.pgv.ConstantValidation.constant("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Const" }});
 {{- end -}}
 {{- if and (or $r.Lt $r.Lte) (or $r.Gt $r.Gte)}}
-			io.envoyproxy.pgv.ComparativeValidation.range("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ if $r.Lt }}{{ constantName . "Lt" }}{{ else }}null{{ end }}, {{ if $r.Lte }}{{ constantName . "Lte" }}{{ else }}null{{ end }}, {{ if $r.Gt }}{{ constantName . "Gt" }}{{ else }}null{{ end }}, {{ if $r.Gte }}{{ constantName . "Gte" }}{{ else }}null{{ end }}, java.util.Comparator.naturalOrder());
+			io.envoyproxy.pgv.ComparativeValidation.range("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ if $r.Lt }}{{ constantName . "Lt" }}{{ else }}null{{ end }}, {{ if $r.Lte }}{{ constantName . "Lte" }}{{ else }}null{{ end }}, {{ if $r.Gt }}{{ constantName . "Gt" }}{{ else }}null{{ end }}, {{ if $r.Gte }}{{ constantName . "Gte" }}{{ else }}null{{ end }}, {{ comparator . }});
 {{- else -}}
 {{- if $r.Lt }}
-			io.envoyproxy.pgv.ComparativeValidation.lessThan("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Lt" }}, java.util.Comparator.naturalOrder());
+			io.envoyproxy.pgv.ComparativeValidation.lessThan("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Lt" }}, {{ comparator . }});
 {{- end -}}
 {{- if $r.Lte }}
-			io.envoyproxy.pgv.ComparativeValidation.lessThanOrEqual("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Lte" }}, java.util.Comparator.naturalOrder());
+			io.envoyproxy.pgv.ComparativeValidation.lessThanOrEqual("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Lte" }}, {{ comparator . }});
 {{- end -}}
 {{- if $r.Gt }}
-			io.envoyproxy.pgv.ComparativeValidation.greaterThan("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Gt" }}, java.util.Comparator.naturalOrder());
+			io.envoyproxy.pgv.ComparativeValidation.greaterThan("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Gt" }}, {{ comparator . }});
 {{- end -}}
 {{- if $r.Gte }}
-			io.envoyproxy.pgv.ComparativeValidation.greaterThanOrEqual("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Gte" }}, java.util.Comparator.naturalOrder());
+			io.envoyproxy.pgv.ComparativeValidation.greaterThanOrEqual("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Gte" }}, {{ comparator . }});
 {{- end -}}
 {{- end -}}
 {{- if $r.In }}
diff --git a/templates/java/register.go b/templates/java/register.go
index 45e89b3..698bcb6 100644
--- a/templates/java/register.go
+++ b/templates/java/register.go
@@ -10,6 +10,7 @@ import (
 	"unicode"
 
 	"github.com/envoyproxy/protoc-gen-validate/templates/shared"
+	"github.com/envoyproxy/protoc-gen-validate/validate"
 	"github.com/iancoleman/strcase"
 	pgs "github.com/lyft/protoc-gen-star"
 	pgsgo "github.com/lyft/protoc-gen-star/lang/go"
@@ -48,6 +49,7 @@ func Register(tpl *template.Template, params pgs.Parameters) {
 		"oneof":            fns.oneofTypeName,
 		"sprintf":          fmt.Sprintf,
 		"simpleName":       fns.Name,
+		"comparator":       fns.comparator,
 		"tsLit":            fns.tsLit,
 		"qualifiedName":    fns.qualifiedName,
 		"isOfFileType":     fns.isOfFileType,
@@ -444,6 +446,18 @@ func (fns javaFuncs) numLit(x interface{}) string {
 	}
 }
 
+// comparator names the comparator of a numeric type.
+func (fns javaFuncs) comparator(ctx shared.RuleContext) string {
+	switch ctx.Rules.(type) {
+	case *validate.UInt32Rules, *validate.Fixed32Rules:
+		return "java.lang.Integer::compareUnsigned"
+	case *validate.UInt64Rules, *validate.Fixed64Rules:
+		return "java.lang.Long::compareUnsigned"
+	default:
+		return "java.util.Comparator.naturalOrder()"
+	}
+}
+
 func floatLit(v float64, class, finite string) string {
 	switch {
 	case math.IsNaN(v):
-- 
2.43.0


From 493115e7090fd1cd0d498a378eb27415752bc7ec Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:31:51 +0000
Subject: [PATCH 55/70] fix: Java float and double rules tell negative zero
 from zero

---
 templates/java/num.go      | 16 ++++++++--------
 templates/java/register.go | 18 ++++++++++++++++--
 2 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/templates/java/num.go b/templates/java/num.go
index 22ee613..cbb59a6 100644
--- a/templates/java/num.go
+++ b/templates/java/num.go
@@ -36,29 +36,29 @@ const numTpl = `{{ $f := .Field }}{{ $r := .Rules -}}
 			if ( {{ accessor . }} != 0 ) {
 {{- end -}}
 {{- if $r.Const }}
-			io.envoyproxy.pgv.ConstantValidation.constant("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Const" }});
+			io.envoyproxy.pgv.ConstantValidation.constant("{{ $f.FullyQualifiedName }}", {{ numAccessor . }}, {{ constantName . "Const" }});
 {{- end -}}
 {{- if and (or $r.Lt $r.Lte) (or $r.Gt $r.Gte)}}
-			io.envoyproxy.pgv.ComparativeValidation.range("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ if $r.Lt }}{{ constantName . "Lt" }}{{ else }}null{{ end }}, {{ if $r.Lte }}{{ constantName . "Lte" }}{{ else }}null{{ end }}, {{ if $r.Gt }}{{ constantName . "Gt" }}{{ else }}null{{ end }}, {{ if $r.Gte }}{{ constantName . "Gte" }}{{ else }}null{{ end }}, {{ comparator . }});
+			io.envoyproxy.pgv.ComparativeValidation.range("{{ $f.FullyQualifiedName }}", {{ numAccessor . }}, {{ if $r.Lt }}{{ constantName . "Lt" }}{{ else }}null{{ end }}, {{ if $r.Lte }}{{ constantName . "Lte" }}{{ else }}null{{ end }}, {{ if $r.Gt }}{{ constantName . "Gt" }}{{ else }}null{{ end }}, {{ if $r.Gte }}{{ constantName . "Gte" }}{{ else }}null{{ end }}, {{ comparator . }});
 {{- else -}}
 {{- if $r.Lt }}
-			io.envoyproxy.pgv.ComparativeValidation.lessThan("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Lt" }}, {{ comparator . }});
+			io.envoyproxy.pgv.ComparativeValidation.lessThan("{{ $f.FullyQualifiedName }}", {{ numAccessor . }}, {{ constantName . "Lt" }}, {{ comparator . }});
 {{- end -}}
 {{- if $r.Lte }}
-			io.envoyproxy.pgv.ComparativeValidation.lessThanOrEqual("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Lte" }}, {{ comparator . }});
+			io.envoyproxy.pgv.ComparativeValidation.lessThanOrEqual("{{ $f.FullyQualifiedName }}", {{ numAccessor . }}, {{ constantName . "Lte" }}, {{ comparator . }});
 {{- end -}}
 {{- if $r.Gt }}
-			io.envoyproxy.pgv.ComparativeValidation.greaterThan("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Gt" }}, {{ comparator . }});
+			io.envoyproxy.pgv.ComparativeValidation.greaterThan("{{ $f.FullyQualifiedName }}", {{ numAccessor . }}, {{ constantName . "Gt" }}, {{ comparator . }});
 {{- end -}}
 {{- if $r.Gte }}
-			io.envoyproxy.pgv.ComparativeValidation.greaterThanOrEqual("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Gte" }}, {{ comparator . }});
+			io.envoyproxy.pgv.ComparativeValidation.greaterThanOrEqual("{{ $f.FullyQualifiedName }}", {{ numAccessor . }}, {{ constantName . "Gte" }}, {{ comparator . }});
 {{- end -}}
 {{- end -}}
 {{- if $r.In }}
-			io.envoyproxy.pgv.CollectiveValidation.in("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "In" }});
+			io.envoyproxy.pgv.CollectiveValidation.in("{{ $f.FullyQualifiedName }}", {{ numAccessor . }}, {{ constantName . "In" }});
 {{- end -}}
 {{- if $r.NotIn }}
-			io.envoyproxy.pgv.CollectiveValidation.notIn("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "NotIn" }});
+			io.envoyproxy.pgv.CollectiveValidation.notIn("{{ $f.FullyQualifiedName }}", {{ numAccessor . }}, {{ constantName . "NotIn" }});
 {{- end -}}
 {{- if $r.GetIgnoreEmpty }}
 			}
diff --git a/templates/java/register.go b/templates/java/register.go
index 698bcb6..350093a 100644
--- a/templates/java/register.go
+++ b/templates/java/register.go
@@ -50,6 +50,7 @@ func Register(tpl *template.Template, params pgs.Parameters) {
 		"sprintf":          fmt.Sprintf,
 		"simpleName":       fns.Name,
 		"comparator":       fns.comparator,
+		"numAccessor":      fns.numAccessor,
 		"tsLit":            fns.tsLit,
 		"qualifiedName":    fns.qualifiedName,
 		"isOfFileType":     fns.isOfFileType,
@@ -438,14 +439,27 @@ func (fns javaFuncs) numLit(x interface{}) string {
 	case uint64:
 		return fmt.Sprintf("%dL", int64(v))
 	case float32:
-		return floatLit(float64(v), "Float", fmt.Sprintf("%vF", v))
+		return floatLit(float64(v), "Float", fmt.Sprintf("%vF", v+0))
 	case float64:
-		return floatLit(v, "Double", fmt.Sprintf("%vD", v))
+		return floatLit(v, "Double", fmt.Sprintf("%vD", v+0))
 	default:
 		return fmt.Sprintf("%v", v)
 	}
 }
 
+// numAccessor is the value of a numeric field. Comparators and equals tell the
+// two zeros of the floating point types apart; adding zero makes them the same.
+func (fns javaFuncs) numAccessor(ctx shared.RuleContext) string {
+	switch ctx.Rules.(type) {
+	case *validate.FloatRules:
+		return fmt.Sprintf("%s + 0F", fns.accessor(ctx))
+	case *validate.DoubleRules:
+		return fmt.Sprintf("%s + 0D", fns.accessor(ctx))
+	default:
+		return fns.accessor(ctx)
+	}
+}
+
 // comparator names the comparator of a numeric type.
 func (fns javaFuncs) comparator(ctx shared.RuleContext) string {
 	switch ctx.Rules.(type) {
-- 
2.43.0


From 200ec7f73f3fcf41d3faf4ccb8e9f2ab10bc5106 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:31:52 +0000
Subject: [PATCH 56/70] fix: string literals in Java code are not escaped

---
 templates/java/any.go      |  4 ++--
 templates/java/register.go | 28 +++++++++++++++++++++-------
 templates/java/string.go   | 14 +++++++-------
 3 files changed, 30 insertions(+), 16 deletions(-)

diff --git a/templates/java/any.go b/templates/java/any.go
index e7ec579..ec7f6e7 100644
--- a/templates/java/any.go
+++ b/templates/java/any.go
@@ -4,14 +4,14 @@ const anyConstTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 {{- if $r.In }}
 		private final String[] {{ constantName . "In" }} = new String[]{
 			{{- range $r.In }}
-			"{{ . }}",
+			{{ javaStringEscape . }},
 			{{- end }}
 		};
 {{- end -}}
 {{- if $r.NotIn }}
 		private final String[] {{ constantName . "NotIn" }} = new String[]{
 			{{- range $r.NotIn }}
-			"{{ . }}",
+			{{ javaStringEscape . }},
 			{{- end }}
 		};
 {{- end -}}`
diff --git a/templates/java/register.go b/templates/java/register.go
index 350093a..e8e143d 100644
--- a/templates/java/register.go
+++ b/templates/java/register.go
@@ -8,6 +8,7 @@ import (
 	"strings"
 	"text/template"
 	"unicode"
+	"unicode/utf16"
 
 	"github.com/envoyproxy/protoc-gen-validate/templates/shared"
 	"github.com/envoyproxy/protoc-gen-validate/validate"
@@ -485,14 +486,27 @@ func floatLit(v float64, class, finite string) string {
 	}
 }
 
+// javaStringEscape makes a string literal. Everything that could mean something
+// else to the Java compiler becomes an escape of a UTF-16 code unit.
 func (fns javaFuncs) javaStringEscape(s string) string {
-	s = fmt.Sprintf("%q", s)
-	s = s[1 : len(s)-1]
-	s = strings.Replace(s, `\u00`, `\x`, -1)
-	s = strings.Replace(s, `\x`, `\\x`, -1)
-	// s = strings.Replace(s, `\`, `\\`, -1)
-	s = strings.Replace(s, `"`, `\"`, -1)
-	return `"` + s + `"`
+	var sb strings.Builder
+	sb.WriteByte('"')
+	for _, c := range utf16.Encode([]rune(s)) {
+		switch {
+		case c == '"' || c == '\\':
+			sb.WriteByte('\\')
+			sb.WriteByte(byte(c))
+		case c < ' ':
+			// a \uXXXX escape of a line end would end the line
+			fmt.Fprintf(&sb, `\%03o`, c)
+		case c < 0x7f:
+			sb.WriteByte(byte(c))
+		default:
+			fmt.Fprintf(&sb, `\u%04x`, c)
+		}
+	}
+	sb.WriteByte('"')
+	return sb.String()
 }
 
 func (fns javaFuncs) camelCase(name pgs.Name) string {
diff --git a/templates/java/string.go b/templates/java/string.go
index 2a11215..9dd6699 100644
--- a/templates/java/string.go
+++ b/templates/java/string.go
@@ -4,14 +4,14 @@ const stringConstTpl = `{{ $f := .Field }}{{ $r := .Rules -}}
 {{- if $r.In }}
 		private final {{ javaTypeFor . }}[] {{ constantName . "In" }} = new {{ javaTypeFor . }}[]{
 			{{- range $r.In -}}
-				"{{- sprintf "%v" . -}}",
+				{{- javaStringEscape . -}},
 			{{- end -}}
 		};
 {{- end -}}
 {{- if $r.NotIn }}
 		private final {{ javaTypeFor . }}[] {{ constantName . "NotIn" }} = new {{ javaTypeFor . }}[]{
 			{{- range $r.NotIn -}}
-				"{{- sprintf "%v" . -}}",
+				{{- javaStringEscape . -}},
 			{{- end -}}
 		};
 {{- end -}}
@@ -24,7 +24,7 @@ const stringTpl = `{{ $f := .Field }}{{ $r := .Rules -}}
 			if ( !{{ accessor . }}.isEmpty() ) {
 {{- end -}}
 {{- if $r.Const }}
-			io.envoyproxy.pgv.ConstantValidation.constant("{{ $f.FullyQualifiedName }}", {{ accessor . }}, "{{ $r.GetConst }}");
+			io.envoyproxy.pgv.ConstantValidation.constant("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ javaStringEscape $r.GetConst }});
 {{- end -}}
 {{- if $r.In }}
 			io.envoyproxy.pgv.CollectiveValidation.in("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "In" }});
@@ -54,16 +54,16 @@ const stringTpl = `{{ $f := .Field }}{{ $r := .Rules -}}
 			io.envoyproxy.pgv.StringValidation.pattern("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Pattern" }});
 {{- end -}}
 {{- if $r.Prefix }}
-			io.envoyproxy.pgv.StringValidation.prefix("{{ $f.FullyQualifiedName }}", {{ accessor . }}, "{{ $r.GetPrefix }}");
+			io.envoyproxy.pgv.StringValidation.prefix("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ javaStringEscape $r.GetPrefix }});
 {{- end -}}
 {{- if $r.Contains }}
-			io.envoyproxy.pgv.StringValidation.contains("{{ $f.FullyQualifiedName }}", {{ accessor . }}, "{{ $r.GetContains }}");
+			io.envoyproxy.pgv.StringValidation.contains("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ javaStringEscape $r.GetContains }});
 {{- end -}}
 {{- if $r.NotContains }}
-			io.envoyproxy.pgv.StringValidation.notContains("{{ $f.FullyQualifiedName }}", {{ accessor . }}, "{{ $r.GetNotContains }}");
+			io.envoyproxy.pgv.StringValidation.notContains("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ javaStringEscape $r.GetNotContains }});
 {{- end -}}
 {{- if $r.Suffix }}
-			io.envoyproxy.pgv.StringValidation.suffix("{{ $f.FullyQualifiedName }}", {{ accessor . }}, "{{ $r.GetSuffix }}");
+			io.envoyproxy.pgv.StringValidation.suffix("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ javaStringEscape $r.GetSuffix }});
 {{- end -}}
 {{- if $r.GetEmail }}
 			io.envoyproxy.pgv.StringValidation.email("{{ $f.FullyQualifiedName }}", {{ accessor . }});
-- 
2.43.0


From f3ba0e3454c5c38a46f5920c0dd0bbd474898203 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:31:54 +0000
Subject: [PATCH 57/70] fix: an empty bytes const rule is ignored in Java

---
 templates/java/bytes.go    | 4 ++--
 templates/java/register.go | 4 ++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/templates/java/bytes.go b/templates/java/bytes.go
index 52f9f4c..caea99a 100644
--- a/templates/java/bytes.go
+++ b/templates/java/bytes.go
@@ -1,7 +1,7 @@
 package java
 
 const bytesConstTpl = `{{ $f := .Field }}{{ $r := .Rules -}}
-{{- if $r.Const }}
+{{- if isSet $r.Const }}
 		private final com.google.protobuf.ByteString {{ constantName . "Const" }} = com.google.protobuf.ByteString.copyFrom({{ byteArrayLit $r.GetConst }});
 {{- end -}}
 {{- if $r.In }}
@@ -35,7 +35,7 @@ const bytesTpl = `{{ $f := .Field }}{{ $r := .Rules -}}
 {{- if $r.GetIgnoreEmpty }}
 			if ( !{{ accessor . }}.isEmpty() ) {
 {{- end -}}
-{{- if $r.Const }}
+{{- if isSet $r.Const }}
 			io.envoyproxy.pgv.ConstantValidation.constant("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Const" }});
 {{- end -}}
 {{- if $r.Len }}
diff --git a/templates/java/register.go b/templates/java/register.go
index e8e143d..bafdc40 100644
--- a/templates/java/register.go
+++ b/templates/java/register.go
@@ -52,6 +52,7 @@ func Register(tpl *template.Template, params pgs.Parameters) {
 		"simpleName":       fns.Name,
 		"comparator":       fns.comparator,
 		"numAccessor":      fns.numAccessor,
+		"isSet":            fns.isSet,
 		"tsLit":            fns.tsLit,
 		"qualifiedName":    fns.qualifiedName,
 		"isOfFileType":     fns.isOfFileType,
@@ -549,6 +550,9 @@ func (fns javaFuncs) isOfFileType(o interface{}) bool {
 	}
 }
 
+// isSet reports whether a bytes rule is present, even if it is empty.
+func (fns javaFuncs) isSet(x []byte) bool { return x != nil }
+
 func (fns javaFuncs) isOfMessageType(f pgs.Field) bool {
 	return f.Type().ProtoType() == pgs.MessageT
 }
-- 
2.43.0


From 0ae8fdd3222dde3488f506c523b732c1c7ee4fcb Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:31:55 +0000
Subject: [PATCH 58/70] fix: Java code for lengths of 2^31 and more does not
 compile

---
 templates/java/bytes.go    |  6 +++---
 templates/java/map.go      |  4 ++--
 templates/java/register.go |  9 +++++++++
 templates/java/repeated.go |  4 ++--
 templates/java/string.go   | 12 ++++++------
 5 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/templates/java/bytes.go b/templates/java/bytes.go
index caea99a..836b394 100644
--- a/templates/java/bytes.go
+++ b/templates/java/bytes.go
@@ -39,13 +39,13 @@ const bytesTpl = `{{ $f := .Field }}{{ $r := .Rules -}}
 			io.envoyproxy.pgv.ConstantValidation.constant("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Const" }});
 {{- end -}}
 {{- if $r.Len }}
-			io.envoyproxy.pgv.BytesValidation.length("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ $r.GetLen }});
+			io.envoyproxy.pgv.BytesValidation.length("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ sizeLit $r.GetLen }});
 {{- end -}}
 {{- if $r.MinLen }}
-			io.envoyproxy.pgv.BytesValidation.minLength("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ $r.GetMinLen }});
+			io.envoyproxy.pgv.BytesValidation.minLength("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ sizeLit $r.GetMinLen }});
 {{- end -}}
 {{- if $r.MaxLen }}
-			io.envoyproxy.pgv.BytesValidation.maxLength("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ $r.GetMaxLen }});
+			io.envoyproxy.pgv.BytesValidation.maxLength("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ sizeLit $r.GetMaxLen }});
 {{- end -}}
 {{- if $r.Pattern }}
 			io.envoyproxy.pgv.BytesValidation.pattern("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Pattern" }});
diff --git a/templates/java/map.go b/templates/java/map.go
index 632d7eb..0914608 100644
--- a/templates/java/map.go
+++ b/templates/java/map.go
@@ -12,10 +12,10 @@ const mapTpl = `{{ $f := .Field }}{{ $r := .Rules -}}
 			if ( !{{ accessor . }}.isEmpty() ) {
 {{- end -}}
 {{- if $r.GetMinPairs }}
-			io.envoyproxy.pgv.MapValidation.min("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ $r.GetMinPairs }});
+			io.envoyproxy.pgv.MapValidation.min("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ sizeLit $r.GetMinPairs }});
 {{- end -}}
 {{- if $r.GetMaxPairs }}
-			io.envoyproxy.pgv.MapValidation.max("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ $r.GetMaxPairs }});
+			io.envoyproxy.pgv.MapValidation.max("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ sizeLit $r.GetMaxPairs }});
 {{- end -}}
 {{- if $r.GetNoSparse }}
 			io.envoyproxy.pgv.MapValidation.noSparse("{{ $f.FullyQualifiedName }}", {{ accessor . }});
diff --git a/templates/java/register.go b/templates/java/register.go
index bafdc40..92c1725 100644
--- a/templates/java/register.go
+++ b/templates/java/register.go
@@ -53,6 +53,7 @@ func Register(tpl *template.Template, params pgs.Parameters) {
 		"comparator":       fns.comparator,
 		"numAccessor":      fns.numAccessor,
 		"isSet":            fns.isSet,
+		"sizeLit":          fns.sizeLit,
 		"tsLit":            fns.tsLit,
 		"qualifiedName":    fns.qualifiedName,
 		"isOfFileType":     fns.isOfFileType,
@@ -449,6 +450,14 @@ func (fns javaFuncs) numLit(x interface{}) string {
 	}
 }
 
+// sizeLit renders a length or size; nothing in Java is larger than an int.
+func (fns javaFuncs) sizeLit(n uint64) string {
+	if n > math.MaxInt32 {
+		return "java.lang.Integer.MAX_VALUE"
+	}
+	return fmt.Sprintf("%d", n)
+}
+
 // numAccessor is the value of a numeric field. Comparators and equals tell the
 // two zeros of the floating point types apart; adding zero makes them the same.
 func (fns javaFuncs) numAccessor(ctx shared.RuleContext) string {
diff --git a/templates/java/repeated.go b/templates/java/repeated.go
index 776b407..7bd86f3 100644
--- a/templates/java/repeated.go
+++ b/templates/java/repeated.go
@@ -7,10 +7,10 @@ const repeatedTpl = `{{ $f := .Field }}{{ $r := .Rules -}}
 			if ( !{{ accessor . }}.isEmpty() ) {
 {{- end -}}
 {{- if $r.GetMinItems }}
-			io.envoyproxy.pgv.RepeatedValidation.minItems("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ $r.GetMinItems }});
+			io.envoyproxy.pgv.RepeatedValidation.minItems("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ sizeLit $r.GetMinItems }});
 {{- end -}}
 {{- if $r.GetMaxItems }}
-			io.envoyproxy.pgv.RepeatedValidation.maxItems("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ $r.GetMaxItems }});
+			io.envoyproxy.pgv.RepeatedValidation.maxItems("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ sizeLit $r.GetMaxItems }});
 {{- end -}}
 {{- if $r.GetUnique }}
 			io.envoyproxy.pgv.RepeatedValidation.unique("{{ $f.FullyQualifiedName }}", {{ accessor . }});
diff --git a/templates/java/string.go b/templates/java/string.go
index 9dd6699..76cb93c 100644
--- a/templates/java/string.go
+++ b/templates/java/string.go
@@ -33,22 +33,22 @@ const stringTpl = `{{ $f := .Field }}{{ $r := .Rules -}}
 			io.envoyproxy.pgv.CollectiveValidation.notIn("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "NotIn" }});
 {{- end -}}
 {{- if $r.Len }}
-			io.envoyproxy.pgv.StringValidation.length("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ $r.GetLen }});
+			io.envoyproxy.pgv.StringValidation.length("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ sizeLit $r.GetLen }});
 {{- end -}}
 {{- if $r.MinLen }}
-			io.envoyproxy.pgv.StringValidation.minLength("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ $r.GetMinLen }});
+			io.envoyproxy.pgv.StringValidation.minLength("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ sizeLit $r.GetMinLen }});
 {{- end -}}
 {{- if $r.MaxLen }}
-			io.envoyproxy.pgv.StringValidation.maxLength("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ $r.GetMaxLen }});
+			io.envoyproxy.pgv.StringValidation.maxLength("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ sizeLit $r.GetMaxLen }});
 {{- end -}}
 {{- if $r.LenBytes }}
-			io.envoyproxy.pgv.StringValidation.lenBytes("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ $r.GetLenBytes }});
+			io.envoyproxy.pgv.StringValidation.lenBytes("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ sizeLit $r.GetLenBytes }});
 {{- end -}}
 {{- if $r.MinBytes }}
-			io.envoyproxy.pgv.StringValidation.minBytes("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ $r.GetMinBytes }});
+			io.envoyproxy.pgv.StringValidation.minBytes("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ sizeLit $r.GetMinBytes }});
 {{- end -}}
 {{- if $r.MaxBytes }}
-			io.envoyproxy.pgv.StringValidation.maxBytes("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ $r.GetMaxBytes }});
+			io.envoyproxy.pgv.StringValidation.maxBytes("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ sizeLit $r.GetMaxBytes }});
 {{- end -}}
 {{- if $r.Pattern }}
 			io.envoyproxy.pgv.StringValidation.pattern("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Pattern" }});
-- 
2.43.0


From be602093092eb0371cdb846b738ee39ba9537148 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:31:57 +0000
Subject: [PATCH 59/70] fix: max_items and max_pairs of zero are ignored in
 Java

---
 templates/java/map.go      | 2 +-
 templates/java/repeated.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/templates/java/map.go b/templates/java/map.go
index 0914608..4d01b2c 100644
--- a/templates/java/map.go
+++ b/templates/java/map.go
@@ -14,7 +14,7 @@ const mapTpl = `{{ $f := .Field }}{{ $r := .Rules -}}
 {{- if $r.GetMinPairs }}
 			io.envoyproxy.pgv.MapValidation.min("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ sizeLit $r.GetMinPairs }});
 {{- end -}}
-{{- if $r.GetMaxPairs }}
+{{- if $r.MaxPairs }}
 			io.envoyproxy.pgv.MapValidation.max("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ sizeLit $r.GetMaxPairs }});
 {{- end -}}
 {{- if $r.GetNoSparse }}
diff --git a/templates/java/repeated.go b/templates/java/repeated.go
index 7bd86f3..3789b5b 100644
--- a/templates/java/repeated.go
+++ b/templates/java/repeated.go
@@ -9,7 +9,7 @@ const repeatedTpl = `{{ $f := .Field }}{{ $r := .Rules -}}
 {{- if $r.GetMinItems }}
 			io.envoyproxy.pgv.RepeatedValidation.minItems("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ sizeLit $r.GetMinItems }});
 {{- end -}}
-{{- if $r.GetMaxItems }}
+{{- if $r.MaxItems }}
 			io.envoyproxy.pgv.RepeatedValidation.maxItems("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ sizeLit $r.GetMaxItems }});
 {{- end -}}
 {{- if $r.GetUnique }}
-- 
2.43.0


From 8b6da0f3184e22444b148b4a2a3e5bf3f3b146ae Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:31:58 +0000
Subject: [PATCH 60/70] fix: Java does not require message fields that are also
 skipped

---
 templates/java/message.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates/java/message.go b/templates/java/message.go
index a9b7a62..b176101 100644
--- a/templates/java/message.go
+++ b/templates/java/message.go
@@ -1,10 +1,10 @@
 package java
 
 const messageTpl = `{{ $f := .Field }}{{ $r := .Rules }}
+	{{- template "required" . }}
 	{{- if .MessageRules.GetSkip }}
 			// skipping validation for {{ $f.Name }}
 	{{- else -}}
-		{{- template "required" . }}
 		{{- if (isOfMessageType $f) }}
 			// Validate {{ $f.Name }}
 			if ({{ hasAccessor . }}) index.validatorFor({{ accessor . }}).assertValid({{ accessor . }});
-- 
2.43.0


From 05e881771b6de4e263a4b06aee8147016dda5ff6 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:32:00 +0000
Subject: [PATCH 61/70] fix: Java code for enum rules on map values does not
 compile

---
 templates/java/register.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/templates/java/register.go b/templates/java/register.go
index 92c1725..74b569a 100644
--- a/templates/java/register.go
+++ b/templates/java/register.go
@@ -347,6 +347,9 @@ func (fns javaFuncs) javaTypeFor(ctx shared.RuleContext) string {
 		case "key":
 			return fns.javaTypeForProtoType(t.Key().ProtoType())
 		case "value":
+			if t.Element().IsEnum() {
+				return fns.qualifiedName(t.Element().Enum())
+			}
 			return fns.javaTypeForProtoType(t.Element().ProtoType())
 		}
 	}
-- 
2.43.0


From 685f4fd70a4cc653b1ede06a5aa636ecd6ae7bd8 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:32:44 +0000
Subject: [PATCH 62/70] fix: Java throws IllegalArgumentException for invalid
 durations and timestamps

---
 .../io/envoyproxy/pgv/TimestampValidation.java | 18 ++++++++++++++++++
 templates/java/duration.go                     |  3 +++
 templates/java/timestamp.go                    |  3 +++
 3 files changed, 24 insertions(+)

diff --git a/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/TimestampValidation.java b/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/TimestampValidation.java
index cceb7a2..f6013dc 100644
--- a/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/TimestampValidation.java
+++ b/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/TimestampValidation.java
@@ -18,6 +18,24 @@ public final class TimestampValidation {
         }
     }
 
+    /**
+     * Rejects values that do not represent any instant, which cannot be compared.
+     */
+    public static void valid(String field, Timestamp value) throws ValidationException {
+        if (!Timestamps.isValid(value)) {
+            throw new ValidationException(field, value, "value is not a valid timestamp");
+        }
+    }
+
+    /**
+     * Rejects values that do not represent any length of time, which cannot be compared.
+     */
+    public static void valid(String field, Duration value) throws ValidationException {
+        if (!Durations.isValid(value)) {
+            throw new ValidationException(field, value, "value is not a valid duration");
+        }
+    }
+
     /**
      * Converts {@code seconds} and {@code nanos} to a protobuf {@code Timestamp}.
      */
diff --git a/templates/java/duration.go b/templates/java/duration.go
index 49e991b..82df81b 100644
--- a/templates/java/duration.go
+++ b/templates/java/duration.go
@@ -34,6 +34,9 @@ const durationConstTpl = `{{ $f := .Field }}{{ $r := .Rules -}}
 const durationTpl = `{{ $f := .Field }}{{ $r := .Rules -}}
 {{- template "required" . -}}
 
+{{- if or $r.Const $r.Lt $r.Lte $r.Gt $r.Gte $r.In $r.NotIn }}
+			if ({{ hasAccessor . }}) io.envoyproxy.pgv.TimestampValidation.valid("{{ $f.FullyQualifiedName }}", {{ accessor . }});
+{{- end -}}
 {{- if $r.Const }}
 			if ({{ hasAccessor . }}) io.envoyproxy.pgv.ConstantValidation.constant("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Const" }});
 {{- end -}}
diff --git a/templates/java/timestamp.go b/templates/java/timestamp.go
index 70f7775..a102e86 100644
--- a/templates/java/timestamp.go
+++ b/templates/java/timestamp.go
@@ -23,6 +23,9 @@ const timestampConstTpl = `{{ $f := .Field }}{{ $r := .Rules -}}
 const timestampTpl = `{{ $f := .Field }}{{ $r := .Rules -}}
 {{- template "required" . -}}
 
+{{- if or $r.Const $r.Lt $r.Lte $r.Gt $r.Gte $r.GetLtNow $r.GetGtNow $r.Within }}
+			if ({{ hasAccessor . }}) io.envoyproxy.pgv.TimestampValidation.valid("{{ $f.FullyQualifiedName }}", {{ accessor . }});
+{{- end -}}
 {{- if $r.Const }}
 			if ({{ hasAccessor . }}) io.envoyproxy.pgv.ConstantValidation.constant("{{ $f.FullyQualifiedName }}", {{ accessor . }}, {{ constantName . "Const" }});
 {{- end -}}
-- 
2.43.0


From f5fded07e9b823e3823ab5226dfe03f4e9773a92 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:32:45 +0000
Subject: [PATCH 63/70] fix: Java accessor names of fields and oneofs with
 digits, underscores or reserved names

---
 templates/java/register.go | 108 +++++++++++++++++++++----------------
 1 file changed, 62 insertions(+), 46 deletions(-)

diff --git a/templates/java/register.go b/templates/java/register.go
index 74b569a..9cfa78e 100644
--- a/templates/java/register.go
+++ b/templates/java/register.go
@@ -184,7 +184,7 @@ func classNameFile(f pgs.File) string {
 
 	protoName := pgs.FilePath(f.Name().String()).BaseName()
 
-	className := sanitizeClassName(protoName)
+	className := javaCamelCase(pgs.Name(protoName))
 	className = appendOuterClassName(className, f)
 
 	return className
@@ -195,30 +195,6 @@ func classNameMessage(m pgs.Message) string {
 	return m.Name().String()
 }
 
-// sanitizeClassName makes a class name of a file name the way protoc does.
-func sanitizeClassName(name string) string {
-	var sb strings.Builder
-	upperNext := true
-	for _, c := range name {
-		switch {
-		case c >= 'a' && c <= 'z':
-			if upperNext {
-				c = unicode.ToUpper(c)
-			}
-			upperNext = false
-		case c >= 'A' && c <= 'Z':
-			upperNext = false
-		case c >= '0' && c <= '9':
-			upperNext = true
-		default:
-			upperNext = true
-			continue
-		}
-		sb.WriteRune(c)
-	}
-	return sb.String()
-}
-
 func javaPackage(file pgs.File) string {
 	// Explicit java package overrides implicit package
 	options := file.Descriptor().GetOptions()
@@ -257,21 +233,6 @@ func (fns javaFuncs) qualifiedName(entity pgs.Entity) string {
 	return entity.Name().String()
 }
 
-func upperCaseAfterNumber(name string) string {
-	var sb string
-	var p rune
-
-	for _, c := range name {
-		if unicode.IsDigit(p) {
-			sb += string(unicode.ToUpper(c))
-		} else {
-			sb += string(c)
-		}
-		p = c
-	}
-	return sb
-}
-
 func appendOuterClassName(outerClassName string, file pgs.File) string {
 	conflict := false
 
@@ -309,7 +270,7 @@ func (fns javaFuncs) accessor(ctx shared.RuleContext) string {
 }
 
 func (fns javaFuncs) fieldAccessor(f pgs.Field) string {
-	fieldName := strcase.ToCamel(f.Name().String())
+	fieldName := accessorName(f)
 	if f.Type().IsMap() {
 		fieldName += "Map"
 	}
@@ -317,7 +278,6 @@ func (fns javaFuncs) fieldAccessor(f pgs.Field) string {
 		fieldName += "List"
 	}
 
-	fieldName = upperCaseAfterNumber(fieldName)
 	return fmt.Sprintf("proto.get%s()", fieldName)
 }
 
@@ -325,9 +285,65 @@ func (fns javaFuncs) hasAccessor(ctx shared.RuleContext) string {
 	if ctx.AccessorOverride != "" {
 		return "true"
 	}
-	fiedlName := strcase.ToCamel(ctx.Field.Name().String())
-	fiedlName = upperCaseAfterNumber(fiedlName)
-	return "proto.has" + fiedlName + "()"
+	return "proto.has" + accessorName(ctx.Field) + "()"
+}
+
+// javaCamelCase converts the name of a field or oneof the way protoc does.
+func javaCamelCase(name pgs.Name) string {
+	var sb strings.Builder
+	upperNext := true
+	for _, c := range name.String() {
+		switch {
+		case c >= 'a' && c <= 'z':
+			if upperNext {
+				c = unicode.ToUpper(c)
+			}
+			upperNext = false
+		case c >= 'A' && c <= 'Z':
+			upperNext = false
+		case c >= '0' && c <= '9':
+			upperNext = true
+		default:
+			upperNext = true
+			continue
+		}
+		sb.WriteRune(c)
+	}
+	return sb.String()
+}
+
+// capitalizedName is the name of the field in accessors, unless it conflicts
+// with another field. Some would override methods of all messages.
+func capitalizedName(f pgs.Field) string {
+	name := javaCamelCase(f.Name())
+	switch name {
+	case "Class", "DefaultInstanceForType", "ParserForType", "SerializedSize", "AllFields",
+		"DescriptorForType", "InitializationErrorString", "UnknownFields", "CachedSize":
+		return name + "_"
+	}
+	return name
+}
+
+// accessorName is the name protoc gives to the accessors of a field: fields with
+// conflicting names have their numbers appended.
+func accessorName(f pgs.Field) string {
+	name := capitalizedName(f)
+	for _, other := range f.Message().Fields() {
+		if other.Name() == f.Name() {
+			continue
+		}
+		otherName := capitalizedName(other)
+		if name == otherName || shadows(f, name, otherName) || shadows(other, otherName, name) {
+			return fmt.Sprintf("%s%d", name, f.Descriptor().GetNumber())
+		}
+	}
+	return name
+}
+
+// shadows reports whether the repeated field of the given name has an accessor
+// that a field of the other name has as well.
+func shadows(f pgs.Field, name, other string) bool {
+	return (f.Type().IsRepeated() || f.Type().IsMap()) && (other == name+"Count" || other == name+"List")
 }
 
 func (fns javaFuncs) fieldName(ctx shared.RuleContext) string {
@@ -523,7 +539,7 @@ func (fns javaFuncs) javaStringEscape(s string) string {
 }
 
 func (fns javaFuncs) camelCase(name pgs.Name) string {
-	return strcase.ToCamel(name.String())
+	return javaCamelCase(name)
 }
 
 func (fns javaFuncs) byteArrayLit(bytes []uint8) string {
-- 
2.43.0


From 3572971506202c58e5b51524dd2d3619f001eb0d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:32:46 +0000
Subject: [PATCH 64/70] fix: Java code for files without a package does not
 compile

---
 templates/java/file.go     |  2 +-
 templates/java/register.go | 20 ++++++++++++--------
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/templates/java/file.go b/templates/java/file.go
index 1f2abfd..f6dbb42 100644
--- a/templates/java/file.go
+++ b/templates/java/file.go
@@ -3,7 +3,7 @@ package java
 const fileTpl = `// Code generated by protoc-gen-validate. DO NOT EDIT.
 // source: {{ .File.InputPath }}
 
-package {{ javaPackage .File }};
+{{ with javaPackage .File }}package {{ . }};{{ end }}
 
 {{ if isOfFileType . }}
 @SuppressWarnings("all")
diff --git a/templates/java/register.go b/templates/java/register.go
index 9cfa78e..40bcc38 100644
--- a/templates/java/register.go
+++ b/templates/java/register.go
@@ -208,12 +208,8 @@ func (fns javaFuncs) qualifiedName(entity pgs.Entity) string {
 	file, isFile := entity.(pgs.File)
 	if isFile {
 		name := javaPackage(file)
-		if file.Descriptor().GetOptions() != nil {
-			if !file.Descriptor().GetOptions().GetJavaMultipleFiles() {
-				name += ("." + classNameFile(file))
-			}
-		} else {
-			name += ("." + classNameFile(file))
+		if !file.Descriptor().GetOptions().GetJavaMultipleFiles() {
+			name = joinNames(name, classNameFile(file))
 		}
 		return name
 	}
@@ -221,18 +217,26 @@ func (fns javaFuncs) qualifiedName(entity pgs.Entity) string {
 	message, isMessage := entity.(pgs.Message)
 	if isMessage && message.Parent() != nil {
 		// recurse
-		return fns.qualifiedName(message.Parent()) + "." + entity.Name().String()
+		return joinNames(fns.qualifiedName(message.Parent()), entity.Name().String())
 	}
 
 	enum, isEnum := entity.(pgs.Enum)
 	if isEnum && enum.Parent() != nil {
 		// recurse
-		return fns.qualifiedName(enum.Parent()) + "." + entity.Name().String()
+		return joinNames(fns.qualifiedName(enum.Parent()), entity.Name().String())
 	}
 
 	return entity.Name().String()
 }
 
+// joinNames qualifies a name; files without a package are in Java's unnamed one.
+func joinNames(parent, name string) string {
+	if parent == "" {
+		return name
+	}
+	return parent + "." + name
+}
+
 func appendOuterClassName(outerClassName string, file pgs.File) string {
 	conflict := false
 
-- 
2.43.0


From 7f195ca7b621402a91d742dae386c73132d1f33b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:32:47 +0000
Subject: [PATCH 65/70] fix: Java code for disabled messages with unsuitable
 rules does not compile

---
 templates/java/msg.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/templates/java/msg.go b/templates/java/msg.go
index 26ba40a..162f720 100644
--- a/templates/java/msg.go
+++ b/templates/java/msg.go
@@ -12,12 +12,14 @@ const msgTpl = `
 `
 
 const msgInnerTpl = `
+	{{- if not (disabled .) }}
 	{{- range .NonOneOfFields }}
 		{{ renderConstants (context .) }}
 	{{ end }}
 	{{ range .OneOfs }}
 		{{ template "oneOfConst" . }}
 	{{ end }}
+	{{- end }}
 
 	public void assertValid({{ qualifiedName . }} proto, io.envoyproxy.pgv.ValidatorIndex index) throws io.envoyproxy.pgv.ValidationException {
 	{{ if disabled . }}
-- 
2.43.0


From f9983b716211235a0f465cecb716dc45bc3a8706 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:32:49 +0000
Subject: [PATCH 66/70] fix: Java validators of nested messages with equal
 names are declared twice

---
 templates/java/file.go     |  6 +++---
 templates/java/msg.go      |  2 +-
 templates/java/register.go | 29 +++++++++++++++++++++++++++++
 3 files changed, 33 insertions(+), 4 deletions(-)

diff --git a/templates/java/file.go b/templates/java/file.go
index f6dbb42..28da1f8 100644
--- a/templates/java/file.go
+++ b/templates/java/file.go
@@ -11,7 +11,7 @@ public class {{ classNameFile . }}Validator {
 	public static io.envoyproxy.pgv.ValidatorImpl validatorFor(Class clazz) {
 		{{ range .AllMessages }}
 		{{ if not (ignored .) -}}
-		if (clazz.equals({{ qualifiedName . }}.class)) return new {{ simpleName .}}Validator();
+		if (clazz.equals({{ qualifiedName . }}.class)) return new {{ validatorName .}}Validator();
 		{{- end }}
 		{{- end }}
 		return null;
@@ -29,11 +29,11 @@ public class {{ classNameFile . }}Validator {
 public class {{ classNameMessage .}}Validator {{ if not (ignored .) }}implements io.envoyproxy.pgv.ValidatorImpl<{{ qualifiedName . }}>{{ end }}{
 	public static io.envoyproxy.pgv.ValidatorImpl validatorFor(Class clazz) {
 		{{ if not (ignored .) -}}
-		if (clazz.equals({{ qualifiedName . }}.class)) return new {{ simpleName .}}Validator();
+		if (clazz.equals({{ qualifiedName . }}.class)) return new {{ validatorName .}}Validator();
 		{{- end }}
 		{{ range .AllMessages }}
 		{{ if not (ignored .) -}}
-		if (clazz.equals({{ qualifiedName . }}.class)) return new {{ simpleName .}}Validator();
+		if (clazz.equals({{ qualifiedName . }}.class)) return new {{ validatorName .}}Validator();
 		{{- end }}
 		{{- end }}
 		return null;
diff --git a/templates/java/msg.go b/templates/java/msg.go
index 162f720..4580f35 100644
--- a/templates/java/msg.go
+++ b/templates/java/msg.go
@@ -5,7 +5,7 @@ const msgTpl = `
 	/**
 	 * Validates {@code {{ simpleName . }}} protobuf objects.
 	 */
-	public static class {{ simpleName . }}Validator implements io.envoyproxy.pgv.ValidatorImpl<{{ qualifiedName . }}> {
+	public static class {{ validatorName . }}Validator implements io.envoyproxy.pgv.ValidatorImpl<{{ qualifiedName . }}> {
 		{{- template "msgInner" . -}}
 	}
 {{- end -}}
diff --git a/templates/java/register.go b/templates/java/register.go
index 40bcc38..9c9d16c 100644
--- a/templates/java/register.go
+++ b/templates/java/register.go
@@ -54,6 +54,7 @@ func Register(tpl *template.Template, params pgs.Parameters) {
 		"numAccessor":      fns.numAccessor,
 		"isSet":            fns.isSet,
 		"sizeLit":          fns.sizeLit,
+		"validatorName":    fns.validatorName,
 		"tsLit":            fns.tsLit,
 		"qualifiedName":    fns.qualifiedName,
 		"isOfFileType":     fns.isOfFileType,
@@ -569,6 +570,34 @@ func (fns javaFuncs) tsLit(ts *timestamppb.Timestamp) string {
 		ts.GetSeconds(), ts.GetNanos())
 }
 
+// validatorName is the name of the message's validator class without its suffix.
+// All of a file's messages share one class, or those of a top level message when
+// there are multiple files, so of those with the same name only the first keeps it.
+func (fns javaFuncs) validatorName(m pgs.Message) string {
+	var scope []pgs.Message
+	if file := m.File(); file.Descriptor().GetOptions().GetJavaMultipleFiles() {
+		top := m
+		for parent, ok := top.Parent().(pgs.Message); ok; parent, ok = top.Parent().(pgs.Message) {
+			top = parent
+		}
+		scope = append([]pgs.Message{top}, top.AllMessages()...)
+	} else {
+		scope = file.AllMessages()
+	}
+
+	for _, other := range scope {
+		if other.FullyQualifiedName() == m.FullyQualifiedName() {
+			break
+		}
+		if other.Name() == m.Name() {
+			// the message's path is unique; few names have this form
+			return strings.Replace(strings.TrimPrefix(m.FullyQualifiedName(), "."), ".", "_", -1)
+		}
+	}
+
+	return m.Name().String()
+}
+
 func (fns javaFuncs) oneofTypeName(f pgs.Field) pgsgo.TypeName {
 	return pgsgo.TypeName(fmt.Sprintf("%s", strings.ToUpper(f.Name().String())))
 }
-- 
2.43.0


From f101388dc2760627a04e0784aef7c425472ea407 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:38:36 +0000
Subject: [PATCH 67/70] fix: Java code for durations and timestamps of 2^31
 seconds and more does not compile

---
 templates/java/register.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/templates/java/register.go b/templates/java/register.go
index 9c9d16c..ba99080 100644
--- a/templates/java/register.go
+++ b/templates/java/register.go
@@ -560,13 +560,13 @@ func (fns javaFuncs) byteArrayLit(bytes []uint8) string {
 
 func (fns javaFuncs) durLit(dur *durationpb.Duration) string {
 	return fmt.Sprintf(
-		"io.envoyproxy.pgv.TimestampValidation.toDuration(%d,%d)",
+		"io.envoyproxy.pgv.TimestampValidation.toDuration(%dL,%d)",
 		dur.GetSeconds(), dur.GetNanos())
 }
 
 func (fns javaFuncs) tsLit(ts *timestamppb.Timestamp) string {
 	return fmt.Sprintf(
-		"io.envoyproxy.pgv.TimestampValidation.toTimestamp(%d,%d)",
+		"io.envoyproxy.pgv.TimestampValidation.toTimestamp(%dL,%d)",
 		ts.GetSeconds(), ts.GetNanos())
 }
 
-- 
2.43.0


From 4353161fe799088b083b176db5e289193570b4f1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:53:19 +0000
Subject: [PATCH 68/70] fix: Java code uses messages named like classes of
 java.lang

---
 templates/java/any.go      |  4 ++--
 templates/java/file.go     |  8 ++++----
 templates/java/register.go | 24 ++++++++++++------------
 3 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/templates/java/any.go b/templates/java/any.go
index ec7f6e7..680af28 100644
--- a/templates/java/any.go
+++ b/templates/java/any.go
@@ -2,14 +2,14 @@ package java
 
 const anyConstTpl = `{{ $f := .Field }}{{ $r := .Rules }}
 {{- if $r.In }}
-		private final String[] {{ constantName . "In" }} = new String[]{
+		private final java.lang.String[] {{ constantName . "In" }} = new java.lang.String[]{
 			{{- range $r.In }}
 			{{ javaStringEscape . }},
 			{{- end }}
 		};
 {{- end -}}
 {{- if $r.NotIn }}
-		private final String[] {{ constantName . "NotIn" }} = new String[]{
+		private final java.lang.String[] {{ constantName . "NotIn" }} = new java.lang.String[]{
 			{{- range $r.NotIn }}
 			{{ javaStringEscape . }},
 			{{- end }}
diff --git a/templates/java/file.go b/templates/java/file.go
index 28da1f8..75a402f 100644
--- a/templates/java/file.go
+++ b/templates/java/file.go
@@ -6,9 +6,9 @@ const fileTpl = `// Code generated by protoc-gen-validate. DO NOT EDIT.
 {{ with javaPackage .File }}package {{ . }};{{ end }}
 
 {{ if isOfFileType . }}
-@SuppressWarnings("all")
+@java.lang.SuppressWarnings("all")
 public class {{ classNameFile . }}Validator {
-	public static io.envoyproxy.pgv.ValidatorImpl validatorFor(Class clazz) {
+	public static io.envoyproxy.pgv.ValidatorImpl validatorFor(java.lang.Class clazz) {
 		{{ range .AllMessages }}
 		{{ if not (ignored .) -}}
 		if (clazz.equals({{ qualifiedName . }}.class)) return new {{ validatorName .}}Validator();
@@ -25,9 +25,9 @@ public class {{ classNameFile . }}Validator {
 /**
 * Validates {@code {{ simpleName . }}} protobuf objects.
 */
-@SuppressWarnings("all")
+@java.lang.SuppressWarnings("all")
 public class {{ classNameMessage .}}Validator {{ if not (ignored .) }}implements io.envoyproxy.pgv.ValidatorImpl<{{ qualifiedName . }}>{{ end }}{
-	public static io.envoyproxy.pgv.ValidatorImpl validatorFor(Class clazz) {
+	public static io.envoyproxy.pgv.ValidatorImpl validatorFor(java.lang.Class clazz) {
 		{{ if not (ignored .) -}}
 		if (clazz.equals({{ qualifiedName . }}.class)) return new {{ validatorName .}}Validator();
 		{{- end }}
diff --git a/templates/java/register.go b/templates/java/register.go
index ba99080..0924c18 100644
--- a/templates/java/register.go
+++ b/templates/java/register.go
@@ -379,19 +379,19 @@ func (fns javaFuncs) javaTypeFor(ctx shared.RuleContext) string {
 		if embed := t.Embed(); embed.IsWellKnown() {
 			switch embed.WellKnownType() {
 			case pgs.AnyWKT:
-				return "String"
+				return "java.lang.String"
 			case pgs.DurationWKT:
 				return "com.google.protobuf.Duration"
 			case pgs.TimestampWKT:
 				return "com.google.protobuf.Timestamp"
 			case pgs.Int32ValueWKT, pgs.UInt32ValueWKT:
-				return "Integer"
+				return "java.lang.Integer"
 			case pgs.Int64ValueWKT, pgs.UInt64ValueWKT:
-				return "Long"
+				return "java.lang.Long"
 			case pgs.DoubleValueWKT:
-				return "Double"
+				return "java.lang.Double"
 			case pgs.FloatValueWKT:
-				return "Float"
+				return "java.lang.Float"
 			}
 		}
 	}
@@ -437,21 +437,21 @@ func (fns javaFuncs) javaTypeForProtoType(t pgs.ProtoType) string {
 
 	switch t {
 	case pgs.Int32T, pgs.UInt32T, pgs.SInt32, pgs.Fixed32T, pgs.SFixed32:
-		return "Integer"
+		return "java.lang.Integer"
 	case pgs.Int64T, pgs.UInt64T, pgs.SInt64, pgs.Fixed64T, pgs.SFixed64:
-		return "Long"
+		return "java.lang.Long"
 	case pgs.DoubleT:
-		return "Double"
+		return "java.lang.Double"
 	case pgs.FloatT:
-		return "Float"
+		return "java.lang.Float"
 	case pgs.BoolT:
-		return "Boolean"
+		return "java.lang.Boolean"
 	case pgs.StringT:
-		return "String"
+		return "java.lang.String"
 	case pgs.BytesT:
 		return "com.google.protobuf.ByteString"
 	default:
-		return "Object"
+		return "java.lang.Object"
 	}
 }
 
-- 
2.43.0


From 49e1ce9e3c6f572b85705a830771f4adcf4a7899 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:57:09 +0000
Subject: [PATCH 69/70] fix: Java constants of fields with similar names are
 declared twice

---
 templates/java/register.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/templates/java/register.go b/templates/java/register.go
index 0924c18..ff781fb 100644
--- a/templates/java/register.go
+++ b/templates/java/register.go
@@ -654,5 +654,12 @@ func (fns javaFuncs) renderConstants(tpl *template.Template) func(ctx shared.Rul
 }
 
 func (fns javaFuncs) constantName(ctx shared.RuleContext, rule string) string {
+	snake := strcase.ToScreamingSnake(ctx.Field.Name().String())
+	for _, other := range ctx.Field.Message().Fields() {
+		if other.Name() != ctx.Field.Name() && strcase.ToScreamingSnake(other.Name().String()) == snake {
+			// the numbers of fields are always different
+			return fmt.Sprintf("FIELD_%d_%s", ctx.Field.Descriptor().GetNumber(), strcase.ToScreamingSnake(ctx.Index+"_"+rule))
+		}
+	}
 	return strcase.ToScreamingSnake(ctx.Field.Name().String() + "_" + ctx.Index + "_" + rule)
 }
-- 
2.43.0


From 032a8d280c6cf5d03bf21be1efae92b41d020d3b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 02:28:14 +0000
Subject: [PATCH 70/70] fix: Java takes the two zeros of floating point lists
 for unique items

---
 .../io/envoyproxy/pgv/RepeatedValidation.java   | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/RepeatedValidation.java b/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/RepeatedValidation.java
index 745229e..60388bf 100644
--- a/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/RepeatedValidation.java
+++ b/java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/RepeatedValidation.java
@@ -24,15 +24,28 @@ public final class RepeatedValidation {
     }
 
     public static <T> void unique(String field, List<T> values) throws ValidationException {
-        Set<T> seen = new HashSet<>();
+        Set<Object> seen = new HashSet<>();
         for (T value : values) {
             // Abort at the first sign of a duplicate
-            if (!seen.add(value)) {
+            if (!seen.add(withoutNegativeZero(value))) {
                 throw new ValidationException(field, values, "must have all unique values");
             }
         }
     }
 
+    /**
+     * {@code equals} tells the two zeros of the floating point types apart; adding zero makes them the same.
+     */
+    private static Object withoutNegativeZero(Object value) {
+        if (value instanceof Double) {
+            return (Double) value + 0D;
+        }
+        if (value instanceof Float) {
+            return (Float) value + 0F;
+        }
+        return value;
+    }
+
     @FunctionalInterface
     public interface ValidationConsumer<T> {
         void accept(T value) throws ValidationException;
-- 
2.43.0

