From be3122028c16e14ee8b2a2ec2c55da32f73b2c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:49 +0000
Subject: [PATCH 01/20] fix: leave fields tagged json:"-" out of encoding and
 of the member checks

---
 generator/codegen/struct.go | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/generator/codegen/struct.go b/generator/codegen/struct.go
index 67fedc8..1a8486a 100644
--- a/generator/codegen/struct.go
+++ b/generator/codegen/struct.go
@@ -27,6 +27,18 @@ func NewStruct(name string, tags []string, spec *ast.StructType) *Struct {
 	}
 }
 
+// jsonFields returns the fields that take part in JSON, leaving out those tagged `json:"-"`
+func (s *Struct) jsonFields() []*ast.Field {
+	var result = make([]*ast.Field, 0, len(s.spec.Fields.List))
+	for _, fld := range s.spec.Fields.List {
+		if fld.Tag != nil && tags.Parse(fld.Tag.Value).JsonName() == "-" {
+			continue
+		}
+		result = append(result, fld)
+	}
+	return result
+}
+
 func (s *Struct) UnmarshalFunc() []ast.Decl {
 	return NewUnmarshalFunc(s.name)
 }
@@ -125,7 +137,8 @@ func (s *Struct) ValidatorFunc() ast.Decl {
 			asthlp.ReturnEmpty(),
 		),
 	)
-	for i, fieldSpec := range s.spec.Fields.List {
+	var fields = s.jsonFields()
+	for i, fieldSpec := range fields {
 		var fieldTags tags.Tags
 		if fieldSpec.Tag != nil {
 			fieldTags = tags.Parse(fieldSpec.Tag.Value)
@@ -182,10 +195,10 @@ func (s *Struct) ValidatorFunc() ast.Decl {
 		asthlp.If(asthlp.NotEqual(asthlp.NewIdent(names.VarNameError), asthlp.Nil), asthlp.Return(asthlp.NewIdent(names.VarNameError))),
 	)
 
-	if len(s.spec.Fields.List) > 0 {
+	if len(fields) > 0 {
 		// var checkFields [1]int
 		fn.AppendStmt(
-			asthlp.Var(asthlp.VariableType(checkFieldsVarName, asthlp.ArrayType(asthlp.Int, asthlp.IntegerConstant(len(s.spec.Fields.List)).Expr()))),
+			asthlp.Var(asthlp.VariableType(checkFieldsVarName, asthlp.ArrayType(asthlp.Int, asthlp.IntegerConstant(len(fields)).Expr()))),
 		)
 	}
 
@@ -220,7 +233,8 @@ func (s *Struct) MarshalToFunc() ast.Decl {
 		Params(asthlp.Field(names.VarNameWriter, nil, asthlp.Star(asthlp.SimpleSelector("jwriter", "Writer")))).
 		Results(asthlp.Field("", nil, asthlp.ErrorType))
 
-	if len(s.spec.Fields.List) == 0 {
+	var fields = s.jsonFields()
+	if len(fields) == 0 {
 		return fn.AppendStmt(
 			asthlp.CallStmt(asthlp.Call(field.RawStringFn, asthlp.StringConstant("{}").Expr())),
 			asthlp.Return(asthlp.Nil),
@@ -249,7 +263,7 @@ func (s *Struct) MarshalToFunc() ast.Decl {
 		)),
 	)
 
-	for _, fld := range s.spec.Fields.List {
+	for _, fld := range fields {
 		fn.AppendStmt(jsonFieldStmts(fld)...)
 	}
 
-- 
2.43.0


From 85ca74ee62ae2636590ba33e3c6067a4bcd3b51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:50 +0000
Subject: [PATCH 02/20] fix: keep commas in layout and default tags

---
 generator/codegen/tags/tags.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/generator/codegen/tags/tags.go b/generator/codegen/tags/tags.go
index 4005038..d7ee62c 100644
--- a/generator/codegen/tags/tags.go
+++ b/generator/codegen/tags/tags.go
@@ -72,8 +72,8 @@ func (t Tags) Layout() string {
 func Parse(tag string) Tags {
 	var result = make(map[string][]string)
 	result["json"] = strings.Split(StructTag(tag).Get("json"), ",")
-	result["layout"] = strings.Split(StructTag(tag).Get("layout"), ",")
-	result["default"] = strings.Split(StructTag(tag).Get("default"), ",")
+	result["layout"] = []string{StructTag(tag).Get("layout")}
+	result["default"] = []string{StructTag(tag).Get("default")}
 	return result
 }
 
-- 
2.43.0


From 56d9c517b45ce40a0c27fdf88e848ba1aa265717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:50 +0000
Subject: [PATCH 03/20] fix: resolve chains of defined types to their base type

---
 generator/codegen/helpers/gotypes.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/generator/codegen/helpers/gotypes.go b/generator/codegen/helpers/gotypes.go
index a7cc143..b3454d4 100644
--- a/generator/codegen/helpers/gotypes.go
+++ b/generator/codegen/helpers/gotypes.go
@@ -19,6 +19,9 @@ func DenotedIdent(t *ast.Ident) ast.Expr {
 	if t.Obj != nil {
 		ts, ok := t.Obj.Decl.(*ast.TypeSpec)
 		if ok {
+			if base, isIdent := ts.Type.(*ast.Ident); isIdent {
+				return DenotedIdent(base)
+			}
 			return ts.Type
 		}
 	}
-- 
2.43.0


From 9985ea07deb0aa02c705ecf0be17e28bedada2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:04 +0000
Subject: [PATCH 04/20] fix: a nil pointer to a struct without fields encodes
 as null

---
 generator/codegen/struct.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/generator/codegen/struct.go b/generator/codegen/struct.go
index 1a8486a..51466f9 100644
--- a/generator/codegen/struct.go
+++ b/generator/codegen/struct.go
@@ -236,6 +236,11 @@ func (s *Struct) MarshalToFunc() ast.Decl {
 	var fields = s.jsonFields()
 	if len(fields) == 0 {
 		return fn.AppendStmt(
+			asthlp.If(
+				asthlp.IsNil(asthlp.NewIdent(names.VarNameReceiver)),
+				asthlp.CallStmt(asthlp.Call(field.RawStringFn, asthlp.StringConstant("null").Expr())),
+				asthlp.Return(asthlp.Nil),
+			),
 			asthlp.CallStmt(asthlp.Call(field.RawStringFn, asthlp.StringConstant("{}").Expr())),
 			asthlp.Return(asthlp.Nil),
 		).Decl()
-- 
2.43.0


From 608637200add1d5b4dbce72e78141d05260c711f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:08 +0000
Subject: [PATCH 05/20] fix: take the name of an imported package from the
 package itself

The last element of the import path was used, and a package in the module's
own directory was not found at all.
---
 generator/discoverer/parser.go | 24 ++++++++++++++++++++++++
 generator/parser.go            |  4 +---
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/generator/discoverer/parser.go b/generator/discoverer/parser.go
index 7a54e99..aedb675 100644
--- a/generator/discoverer/parser.go
+++ b/generator/discoverer/parser.go
@@ -5,6 +5,7 @@ import (
 	"go/ast"
 	"go/parser"
 	"go/token"
+	"path"
 	"strings"
 )
 
@@ -43,6 +44,9 @@ func (d *Discoverer) GetPackagePath(packageName string, hints ...string) (string
 }
 
 func (d *Discoverer) PackagePathFromPath(packagePath string) string {
+	if packagePath == d.module {
+		return d.modPath
+	}
 	if strings.HasPrefix(packagePath, d.module+"/") {
 		packagePath = packagePath[len(d.module)+1:]
 	}
@@ -137,6 +141,26 @@ func (v *lookupVisitor) Visit(node ast.Node) (w ast.Visitor) {
 	return v
 }
 
+// GetPackageName returns the name declared by the package with the given import path
+func (d *Discoverer) GetPackageName(packagePath string) string {
+	var found string
+	dir := d.PackagePathFromPath(packagePath)
+	for name, paths := range d.packages {
+		if name == "main" || strings.HasSuffix(name, "_test") {
+			continue
+		}
+		for _, p := range paths {
+			if p == dir && (found == "" || name < found) {
+				found = name
+			}
+		}
+	}
+	if found == "" {
+		return path.Base(packagePath)
+	}
+	return found
+}
+
 func (d *Discoverer) GetModuleName() string {
 	return d.module
 }
diff --git a/generator/parser.go b/generator/parser.go
index 878e64a..2cc6392 100644
--- a/generator/parser.go
+++ b/generator/parser.go
@@ -50,9 +50,7 @@ func (g *Gen) Parse() (err error) {
 			continue
 		}
 		if name == "" {
-			// FIXME @menshenin the name of package must be read from the package itself
-			split := strings.Split(pkgPath, "/")
-			name = split[len(split)-1]
+			name = g.discovery.GetPackageName(pkgPath)
 		}
 		g.packages[name] = append(
 			g.packages[name],
-- 
2.43.0


From 193ec83d65febd88164ff95a75dfc8dcbd75217c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:10 +0000
Subject: [PATCH 06/20] fix: inline a struct of the package the file imports

The package was looked up by its name in the whole module, so an alias was not
found and the struct of another package of the same name could be inlined.
---
 generator/analyse.go |  2 +-
 generator/parser.go  | 14 ++++++++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/generator/analyse.go b/generator/analyse.go
index 15c33ae..e839258 100644
--- a/generator/analyse.go
+++ b/generator/analyse.go
@@ -310,7 +310,7 @@ func (v *visitor) exploreInlinedSelector(inlined *ast.SelectorExpr) (fields []*a
 	if !ok {
 		panic(fmt.Errorf("can't inline struct %q; can't recognize %+v expression", inlined.Sel.Name, inlined.X))
 	}
-	pkg, err := v.g.discovery.GetPackage(packIdent.Name, inlined.Sel.Name)
+	pkg, err := v.g.importedPackage(packIdent.Name, inlined.Sel.Name)
 	if err != nil {
 		panic(fmt.Errorf("can't inline struct %q; can't parse '%s' package: %+v", inlined.Sel.Name, packIdent.Name, err))
 	}
diff --git a/generator/parser.go b/generator/parser.go
index 2cc6392..25ca160 100644
--- a/generator/parser.go
+++ b/generator/parser.go
@@ -162,6 +162,20 @@ func (g *Gen) ExploreType(p explorer.Package, objName string) *ast.TypeSpec {
 	return nil
 }
 
+// importedPackage returns the package that the source file imports under the given name
+func (g *Gen) importedPackage(name string, hint string) (ast.Node, error) {
+	for _, p := range g.packages[name] {
+		parsed, err := parsePackage(g.discovery.PackagePathFromPath(p.Path))
+		if err != nil {
+			return nil, err
+		}
+		if pack, ok := parsed[g.discovery.GetPackageName(p.Path)]; ok {
+			return pack, nil
+		}
+	}
+	return g.discovery.GetPackage(name, hint)
+}
+
 func fmtGOFile(fileName string) (err error) {
 	var fileSet = token.NewFileSet()
 	f, err := parser.ParseFile(fileSet, fileName, nil, parser.ParseComments)
-- 
2.43.0


From e9f098ed3a0ee674732e23e6abcde6c7101c2ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:11 +0000
Subject: [PATCH 07/20] fix: qualify the types behind pointers, lists and maps
 of inlined foreign structs

---
 generator/analyse.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/generator/analyse.go b/generator/analyse.go
index e839258..5f1c9e4 100644
--- a/generator/analyse.go
+++ b/generator/analyse.go
@@ -232,12 +232,7 @@ func (v *visitor) collectFields(src []*ast.Field) []*ast.Field {
 			sel.Sel.Obj = v.resolveExternal(sel)
 		}
 		if v.over != nil {
-			if i, ok := fld.Type.(*ast.Ident); ok && unicode.IsUpper([]rune(i.Name)[0]) {
-				fld.Type = &ast.SelectorExpr{
-					X:   v.over,
-					Sel: i,
-				}
-			}
+			fld.Type = v.qualified(fld.Type)
 		}
 		if tag.JsonAppendix() == "inline" {
 			inlinedFields, canInline := v.exploreInlined(fld)
@@ -252,6 +247,23 @@ func (v *visitor) collectFields(src []*ast.Field) []*ast.Field {
 	return flds
 }
 
+// qualified adds the package qualifier to the exported types of the package being inlined
+func (v *visitor) qualified(expr ast.Expr) ast.Expr {
+	switch t := expr.(type) {
+	case *ast.Ident:
+		if unicode.IsUpper([]rune(t.Name)[0]) {
+			return &ast.SelectorExpr{X: v.over, Sel: t}
+		}
+	case *ast.StarExpr:
+		return &ast.StarExpr{X: v.qualified(t.X)}
+	case *ast.ArrayType:
+		return &ast.ArrayType{Len: t.Len, Elt: v.qualified(t.Elt)}
+	case *ast.MapType:
+		return &ast.MapType{Key: v.qualified(t.Key), Value: v.qualified(t.Value)}
+	}
+	return expr
+}
+
 func (v *visitor) resolveExternal(sel *ast.SelectorExpr) *ast.Object {
 	packages, ok := v.g.packages[sel.X.(*ast.Ident).String()]
 	if ok {
-- 
2.43.0


From 969d3bee9760677f7672af9157e507525a5feee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:47 +0000
Subject: [PATCH 08/20] fix: find the module from any working directory

With a relative path only the directories named in it were searched for go.mod.
---
 generator/parser.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/generator/parser.go b/generator/parser.go
index 25ca160..5cfffd5 100644
--- a/generator/parser.go
+++ b/generator/parser.go
@@ -9,6 +9,7 @@ import (
 	"go/token"
 	"os"
 	"path"
+	"path/filepath"
 	"strings"
 
 	"github.com/iv-menshenin/go-ast/explorer"
@@ -205,9 +206,14 @@ func parsePackage(path string) (map[string]*ast.Package, error) {
 }
 
 func New(file string) *Gen {
+	// the module is looked for upwards, beyond the working directory
+	dir, err := filepath.Abs(path.Dir(file))
+	if err != nil {
+		panic(err)
+	}
 	return &Gen{
 		fileName:  file,
-		discovery: discoverer.New(path.Dir(file)),
+		discovery: discoverer.New(dir),
 		packages:  make(map[string][]explorer.Package),
 	}
 }
-- 
2.43.0


From a633459e2067fa717eca0dc96d8d53f70db46b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:47 +0000
Subject: [PATCH 09/20] fix: a broken go file anywhere in the module is no
 reason to fail

The output of an interrupted run could not be generated again.
---
 generator/discoverer/projstruct.go | 3 ++-
 generator/parser.go                | 7 ++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/generator/discoverer/projstruct.go b/generator/discoverer/projstruct.go
index b2901a1..53e62c7 100644
--- a/generator/discoverer/projstruct.go
+++ b/generator/discoverer/projstruct.go
@@ -88,7 +88,8 @@ func (d *Discoverer) discoverPackages(dir string) error {
 func (d *Discoverer) discoverPackage(goFilePath string) error {
 	f, err := parser.ParseFile(token.NewFileSet(), goFilePath, nil, parser.PackageClauseOnly)
 	if err != nil {
-		return err
+		// not a package: an empty or a broken file, an interrupted output for instance
+		return nil
 	}
 	goFileDir := path.Dir(goFilePath)
 	if packPaths, exists := d.packages[f.Name.Name]; exists {
diff --git a/generator/parser.go b/generator/parser.go
index 5cfffd5..39b38fa 100644
--- a/generator/parser.go
+++ b/generator/parser.go
@@ -202,7 +202,12 @@ func parseGo(file string) (ast.Node, error) {
 
 func parsePackage(path string) (map[string]*ast.Package, error) {
 	f := token.NewFileSet()
-	return parser.ParseDir(f, path, nil, parser.ParseComments|parser.AllErrors)
+	pkgs, err := parser.ParseDir(f, path, nil, parser.ParseComments|parser.AllErrors)
+	if len(pkgs) > 0 {
+		// the files that could not be parsed are left out
+		return pkgs, nil
+	}
+	return nil, err
 }
 
 func New(file string) *Gen {
-- 
2.43.0


From 4deee56ad239ec572fedadc15cbcbcbfd1d03dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:36 +0000
Subject: [PATCH 10/20] fix: look for an imported type in the imported package
 only

Any package found in the directory would do, an ignored main package too.
---
 generator/parser.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/generator/parser.go b/generator/parser.go
index 39b38fa..18fab3d 100644
--- a/generator/parser.go
+++ b/generator/parser.go
@@ -138,10 +138,7 @@ func (g *Gen) ExploreType(p explorer.Package, objName string) *ast.TypeSpec {
 	if err != nil {
 		return nil
 	}
-	for name, pack := range parsed {
-		if strings.HasSuffix(name, "_test") {
-			continue
-		}
+	if pack, ok := parsed[g.discovery.GetPackageName(p.Path)]; ok {
 		for _, file := range pack.Files {
 			for _, decl := range file.Decls {
 				genDecl, ok := decl.(*ast.GenDecl)
-- 
2.43.0


From 665381fc01ba6ae48042c5b1768621a1251469cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:41 +0000
Subject: [PATCH 11/20] fix: do not let the imports of one file into the next
 one

The registry of packages of the explorer is common to the process: a package
imported by a file generated earlier was imported by the next one where a variable
had its name, or took the place of a package the generated code needs. And a
package could only be imported under one of the names it was used by.
---
 generator/imports.go | 73 ++++++++++++++++++++++++++++++++++++++++++++
 generator/parser.go  | 26 +++++-----------
 2 files changed, 81 insertions(+), 18 deletions(-)
 create mode 100644 generator/imports.go

diff --git a/generator/imports.go b/generator/imports.go
new file mode 100644
index 0000000..63b8575
--- /dev/null
+++ b/generator/imports.go
@@ -0,0 +1,73 @@
+package generator
+
+import (
+	"fmt"
+	"go/ast"
+	"go/token"
+	"path"
+	"sort"
+
+	"github.com/iv-menshenin/go-ast/explorer"
+)
+
+// generatedImports returns the packages that the generated code itself refers to
+func generatedImports() map[string]explorer.Package {
+	return map[string]explorer.Package{
+		"base64":   {Path: "encoding/base64", Kind: explorer.PkgKindSystem},
+		"bytes":    {Path: "bytes", Kind: explorer.PkgKindSystem},
+		"errors":   {Path: "errors", Kind: explorer.PkgKindSystem},
+		"fmt":      {Path: "fmt", Kind: explorer.PkgKindSystem},
+		"math":     {Path: "math", Kind: explorer.PkgKindSystem},
+		"strconv":  {Path: "strconv", Kind: explorer.PkgKindSystem},
+		"time":     {Path: "time", Kind: explorer.PkgKindSystem},
+		"fastjson": {Path: "github.com/valyala/fastjson", Kind: explorer.PkgKindExternal},
+		"jwriter":  {Path: "github.com/mailru/easyjson/jwriter", Kind: explorer.PkgKindExternal},
+		"uuid":     {Path: "github.com/google/uuid", Kind: explorer.PkgKindExternal},
+	}
+}
+
+// importSpec builds the import declaration of the packages which are used in the node.
+// Unlike explorer.Discoverer it keeps no registry: the imports of one file do not get into the other.
+func importSpec(node ast.Node, known map[string]explorer.Package) []ast.Spec {
+	var used = make(map[string]struct{})
+	ast.Inspect(node, func(node ast.Node) bool {
+		if sel, ok := node.(*ast.SelectorExpr); ok {
+			if x, ok := sel.X.(*ast.Ident); ok {
+				used[x.Name] = struct{}{}
+			}
+		}
+		return true
+	})
+	var names []string
+	for name := range used {
+		if _, ok := known[name]; ok {
+			names = append(names, name)
+		}
+	}
+	sort.Slice(names, func(i, j int) bool {
+		a, b := known[names[i]], known[names[j]]
+		if a.Kind != b.Kind {
+			return a.Kind < b.Kind
+		}
+		if a.Path != b.Path {
+			return a.Path < b.Path
+		}
+		return names[i] < names[j]
+	})
+
+	var specs []ast.Spec
+	for i, name := range names {
+		var addLine, alias string
+		if path.Base(known[name].Path) != name {
+			alias = name + " "
+		}
+		if i == 0 || known[names[i-1]].Kind != known[name].Kind {
+			addLine = "\n\t"
+		}
+		specs = append(specs, &ast.ImportSpec{Path: &ast.BasicLit{
+			Kind:  token.STRING,
+			Value: fmt.Sprintf("%s%s\"%s\"", addLine, alias, known[name].Path),
+		}})
+	}
+	return specs
+}
diff --git a/generator/parser.go b/generator/parser.go
index 18fab3d..916d137 100644
--- a/generator/parser.go
+++ b/generator/parser.go
@@ -65,45 +65,35 @@ func (g *Gen) Parse() (err error) {
 }
 
 func (g *Gen) FixImports(internals ...string) {
-	explorer.RegisterPackage("jwriter", explorer.Package{
-		Path: "github.com/mailru/easyjson/jwriter",
-		Kind: explorer.PkgKindExternal,
-	})
-	explorer.RegisterPackage("base64", explorer.Package{
-		Path: "encoding/base64",
-		Kind: explorer.PkgKindSystem,
-	})
-
 	// discovery used imports and build their declaration
+	var known = generatedImports()
 	for name, pkg := range g.packages {
 		for i := range pkg {
-			explorer.RegisterPackage(name, pkg[i])
+			known[name] = pkg[i]
 		}
 	}
 	for i := 0; i < len(internals); i += 2 {
-		explorer.RegisterPackage(internals[i], explorer.Package{
+		known[internals[i]] = explorer.Package{
 			Path: internals[i+1],
 			Kind: explorer.PkgKindInternal,
-		})
+		}
 	}
-	g.imports()
+	g.imports(known)
 }
 
-func (g *Gen) imports() {
+func (g *Gen) imports(known map[string]explorer.Package) {
 	defer func() {
 		if r := recover(); r != nil {
 			panic(fmt.Errorf("PANIC at %q: %+v", g.fileName, r))
 		}
 	}()
-	discovery := explorer.New()
-	discovery.Explore(&g.result)
 	var decls = make([]ast.Decl, 0, len(g.result.Decls)+1)
 
-	imports := discovery.ImportSpec()
+	imports := importSpec(&g.result, known)
 	if len(imports) > 0 {
 		decls = append(decls, &ast.GenDecl{
 			Tok:   token.IMPORT,
-			Specs: discovery.ImportSpec(),
+			Specs: imports,
 		})
 	}
 	decls = append(decls, g.result.Decls...)
-- 
2.43.0


From fdf865e8171c5993de41d3d8a00e0cf9f4259d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:32 +0000
Subject: [PATCH 12/20] fix: import time and uuid under the name the source
 gives them

---
 generator/imports.go | 16 ++++++++++++++++
 generator/parser.go  |  1 +
 2 files changed, 17 insertions(+)

diff --git a/generator/imports.go b/generator/imports.go
index 63b8575..1df7afd 100644
--- a/generator/imports.go
+++ b/generator/imports.go
@@ -6,6 +6,7 @@ import (
 	"go/token"
 	"path"
 	"sort"
+	"strings"
 
 	"github.com/iv-menshenin/go-ast/explorer"
 )
@@ -26,6 +27,21 @@ func generatedImports() map[string]explorer.Package {
 	}
 }
 
+// foreignPackage registers a package from outside of the module
+func (g *Gen) foreignPackage(name, pkgPath string) {
+	kind := explorer.PkgKindSystem
+	if strings.Contains(strings.Split(pkgPath, "/")[0], ".") {
+		kind = explorer.PkgKindExternal
+	}
+	if name == "" {
+		if kind != explorer.PkgKindSystem {
+			return // the name is not known
+		}
+		name = path.Base(pkgPath)
+	}
+	g.packages[name] = append(g.packages[name], explorer.Package{Path: pkgPath, Kind: kind})
+}
+
 // importSpec builds the import declaration of the packages which are used in the node.
 // Unlike explorer.Discoverer it keeps no registry: the imports of one file do not get into the other.
 func importSpec(node ast.Node, known map[string]explorer.Package) []ast.Spec {
diff --git a/generator/parser.go b/generator/parser.go
index 916d137..ed5f131 100644
--- a/generator/parser.go
+++ b/generator/parser.go
@@ -48,6 +48,7 @@ func (g *Gen) Parse() (err error) {
 		}
 		pkgPath := strings.Trim(imp.Path.Value, `"`)
 		if !strings.HasPrefix(pkgPath, g.discovery.GetModuleName()) {
+			g.foreignPackage(name, pkgPath)
 			continue
 		}
 		if name == "" {
-- 
2.43.0


From e1744e83f0474185b63b4d4b8fd2614294aeb14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:55 +0000
Subject: [PATCH 13/20] fix: take every option of a json tag into account

Only the first one was looked at, so omitempty was ignored next to required, and
the name of a member could be taken for an option.
---
 generator/codegen/field/fields.go  | 14 +++++++-------
 generator/codegen/field/fill.go    |  2 +-
 generator/codegen/field/marshal.go | 16 ++++++++--------
 generator/codegen/tags/tags.go     |  6 ++++++
 4 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/generator/codegen/field/fields.go b/generator/codegen/field/fields.go
index 411573e..c6d5821 100644
--- a/generator/codegen/field/fields.go
+++ b/generator/codegen/field/fields.go
@@ -161,17 +161,17 @@ func (f *Field) MarshalStatements(src ast.Expr, name string) []ast.Stmt {
 
 	case *ast.SelectorExpr:
 		if tt.Sel.Name == "Time" {
-			block := timeMarshal(src, f.tags.JsonName(), f.tags.Layout(), f.tags.JsonAppendix() == "omitempty", f.isStar)
+			block := timeMarshal(src, f.tags.JsonName(), f.tags.Layout(), f.tags.HasOption("omitempty"), f.isStar)
 			return block.Render(putCommaFirstIf)
 		}
 		if tt.Sel.Name == "UUID" {
-			block := uuidMarshal(src, f.tags.JsonName(), f.tags.JsonAppendix() == "omitempty")
+			block := uuidMarshal(src, f.tags.JsonName(), f.tags.HasOption("omitempty"))
 			return block.Render(putCommaFirstIf)
 		}
-		return marshalTransit(src, f.tags.JsonName(), f.tags.JsonAppendix() == "omitempty", f.isStar).Render(putCommaFirstIf)
+		return marshalTransit(src, f.tags.JsonName(), f.tags.HasOption("omitempty"), f.isStar).Render(putCommaFirstIf)
 
 	case *ast.StructType:
-		return marshalTransit(src, f.tags.JsonName(), f.tags.JsonAppendix() == "omitempty", f.isStar).Render(putCommaFirstIf)
+		return marshalTransit(src, f.tags.JsonName(), f.tags.HasOption("omitempty"), f.isStar).Render(putCommaFirstIf)
 
 	case *ast.MapType:
 		var isString bool
@@ -181,18 +181,18 @@ func (f *Field) MarshalStatements(src ast.Expr, name string) []ast.Stmt {
 		dec := GetDecorExpr(tt.Value)
 		valType := helpers.DenotedType(tt.Value)
 		errExpr := asthlp.Call(asthlp.FmtErrorfFn, asthlp.StringConstant(`can't marshal "`+f.tags.JsonName()+`" attribute %q: %w`).Expr(), asthlp.NewIdent("_k"), asthlp.NewIdent("err"))
-		block := mapMarshal(src, f.tags.JsonName(), f.tags.JsonAppendix() == "omitempty", isString, GetValueExtractor(valType, errExpr, dec))
+		block := mapMarshal(src, f.tags.JsonName(), f.tags.HasOption("omitempty"), isString, GetValueExtractor(valType, errExpr, dec))
 		return block.Render(putCommaFirstIf)
 
 	case *ast.ArrayType:
 		var block WriteBlock
 		if helpers.IsIdent(tt.Elt, "byte") {
-			block = byteSliceMarshal(src, f.tags.JsonName(), f.tags.JsonAppendix() == "omitempty", tt)
+			block = byteSliceMarshal(src, f.tags.JsonName(), f.tags.HasOption("omitempty"), tt)
 		} else {
 			dec := GetDecorExpr(tt.Elt)
 			valType := helpers.DenotedType(tt.Elt)
 			errExpr := asthlp.Call(asthlp.FmtErrorfFn, asthlp.StringConstant(`can't marshal "`+f.tags.JsonName()+`" item at position %d: %w`).Expr(), asthlp.NewIdent("_k"), asthlp.NewIdent("err"))
-			block = arrayMarshal(src, f.tags.JsonName(), f.tags.JsonAppendix() == "omitempty", GetValueExtractor(valType, errExpr, dec), tt.Len == nil)
+			block = arrayMarshal(src, f.tags.JsonName(), f.tags.HasOption("omitempty"), GetValueExtractor(valType, errExpr, dec), tt.Len == nil)
 		}
 		return block.Render(putCommaFirstIf)
 
diff --git a/generator/codegen/field/fill.go b/generator/codegen/field/fill.go
index 35d7662..6f62d1c 100644
--- a/generator/codegen/field/fill.go
+++ b/generator/codegen/field/fill.go
@@ -720,7 +720,7 @@ func (f *Field) typedRefFillIn(rhs, dst ast.Expr, t string) []ast.Stmt {
 //	}
 func (f *Field) ifDefault(varName, name string) []ast.Stmt {
 	if f.tags.DefaultValue() == "" {
-		if f.tags.JsonAppendix() == "required" {
+		if f.tags.HasOption("required") {
 			// return fmt.Errorf("required element '{json}' is missing", objPath)
 			return []ast.Stmt{
 				asthlp.Return(
diff --git a/generator/codegen/field/marshal.go b/generator/codegen/field/marshal.go
index 4265b0e..01f3a15 100644
--- a/generator/codegen/field/marshal.go
+++ b/generator/codegen/field/marshal.go
@@ -60,23 +60,23 @@ func (f *Field) typeMarshal(src ast.Expr, t string) []ast.Stmt {
 	switch t {
 
 	case "int", "int8", "int16", "int32", "int64":
-		wb = intMarshal(ur, f.tags.JsonName(), f.tags.JsonAppendix() == "omitempty", nc || t != "int64")
+		wb = intMarshal(ur, f.tags.JsonName(), f.tags.HasOption("omitempty"), nc || t != "int64")
 
 	case "uint", "uint8", "uint16", "uint32", "uint64":
-		wb = uintMarshal(ur, f.tags.JsonName(), f.tags.JsonAppendix() == "omitempty", nc || t != "uint64")
+		wb = uintMarshal(ur, f.tags.JsonName(), f.tags.HasOption("omitempty"), nc || t != "uint64")
 
 	case "float32", "float64":
-		wb = floatMarshal(ur, f.tags.JsonName(), f.tags.JsonAppendix() == "omitempty", nc || t != "float64")
+		wb = floatMarshal(ur, f.tags.JsonName(), f.tags.HasOption("omitempty"), nc || t != "float64")
 
 	case "bool":
 		if f.isStar {
-			wb = refBoolMarshal(ur, f.tags.JsonName(), f.tags.JsonAppendix() == "omitempty")
+			wb = refBoolMarshal(ur, f.tags.JsonName(), f.tags.HasOption("omitempty"))
 		} else {
-			wb = boolMarshal(ur, f.tags.JsonName(), f.tags.JsonAppendix() == "omitempty")
+			wb = boolMarshal(ur, f.tags.JsonName(), f.tags.HasOption("omitempty"))
 		}
 
 	case "string":
-		wb = stringMarshal(ur, f.tags.JsonName(), f.tags.JsonAppendix() == "omitempty", nc)
+		wb = stringMarshal(ur, f.tags.JsonName(), f.tags.HasOption("omitempty"), nc)
 
 	default:
 		panic(fmt.Errorf("unknown base type %q", t))
@@ -87,7 +87,7 @@ func (f *Field) typeMarshal(src ast.Expr, t string) []ast.Stmt {
 		if s, ok := src.(*ast.StarExpr); ok {
 			wb.NotZero = asthlp.And(asthlp.NotNil(s.X), wb.NotZero)
 		}
-		if f.tags.JsonAppendix() != "omitempty" {
+		if !f.tags.HasOption("omitempty") {
 			wb.IfZero = []ast.Stmt{
 				asthlp.CallStmt(asthlp.Call(
 					RawStringFn,
@@ -163,7 +163,7 @@ func (f *Field) typeRefMarshal(src ast.Expr, v, t string) []ast.Stmt {
 // result.WriteString("\"{name}\":{default}")
 func (f *Field) ifNil() []ast.Stmt {
 	if f.tags.DefaultValue() == "" {
-		if f.tags.JsonTags().Has("omitempty") {
+		if f.tags.HasOption("omitempty") {
 			return nil
 		}
 		return asthlp.Block(
diff --git a/generator/codegen/tags/tags.go b/generator/codegen/tags/tags.go
index d7ee62c..2679038 100644
--- a/generator/codegen/tags/tags.go
+++ b/generator/codegen/tags/tags.go
@@ -49,6 +49,12 @@ func (t Tags) JsonTags() StructTags {
 	return nil
 }
 
+// HasOption shows whether the option stands behind the name
+func (t Tags) HasOption(option string) bool {
+	opts := t.JsonTags()
+	return len(opts) > 1 && opts[1:].Has(option)
+}
+
 func (t Tags) DefaultValue() string {
 	if t == nil {
 		return ""
-- 
2.43.0


From f8d8788e00faf9096f44ddc39e2d58d4239dd004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:57 +0000
Subject: [PATCH 14/20] fix: read struct tags written as quoted strings

---
 generator/codegen/tags/tags.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/generator/codegen/tags/tags.go b/generator/codegen/tags/tags.go
index 2679038..60a36e7 100644
--- a/generator/codegen/tags/tags.go
+++ b/generator/codegen/tags/tags.go
@@ -2,6 +2,7 @@ package tags
 
 import (
 	"reflect"
+	"strconv"
 	"strings"
 )
 
@@ -87,10 +88,11 @@ func StructTag(tag string) reflect.StructTag {
 	if len(tag) < 2 {
 		return ""
 	}
-	if tag[0] == '`' && tag[len(tag)-1] == '`' {
-		return reflect.StructTag(tag[1 : len(tag)-1])
+	text, err := strconv.Unquote(tag)
+	if err != nil {
+		return ""
 	}
-	return ""
+	return reflect.StructTag(text)
 }
 
 type StructTags []string
-- 
2.43.0


From 5d24d5fe84171a523bb45b917c0f6c48f6d52ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:59 +0000
Subject: [PATCH 15/20] fix: a field without a name in its json tag goes by its
 own name

As in encoding/json; the whole object was decoded into it, and it was written
under an empty name.
---
 generator/analyse.go           | 3 +++
 generator/codegen/tags/tags.go | 9 +++++++++
 2 files changed, 12 insertions(+)

diff --git a/generator/analyse.go b/generator/analyse.go
index 5f1c9e4..505773b 100644
--- a/generator/analyse.go
+++ b/generator/analyse.go
@@ -241,6 +241,9 @@ func (v *visitor) collectFields(src []*ast.Field) []*ast.Field {
 				continue
 			}
 			// cant inline? try to process as a field
+		} else if len(fld.Names) == 1 && fld.Tag != nil {
+			// a field without a json name has the name of its own
+			fld.Tag.Value = tags.WithName(fld.Tag.Value, fld.Names[0].Name)
 		}
 		flds = append(flds, fld)
 	}
diff --git a/generator/codegen/tags/tags.go b/generator/codegen/tags/tags.go
index 60a36e7..b731af3 100644
--- a/generator/codegen/tags/tags.go
+++ b/generator/codegen/tags/tags.go
@@ -84,6 +84,15 @@ func Parse(tag string) Tags {
 	return result
 }
 
+// WithName returns the tag with the name filled in if it has none, a name of its own takes precedence
+func WithName(tag, name string) string {
+	text := string(StructTag(tag))
+	if opts := Parse(tag); opts.JsonName() != "" || strings.Contains(text, "`") {
+		return tag
+	}
+	return "`" + strings.Replace(text, `json:"`, `json:"`+name, 1) + "`"
+}
+
 func StructTag(tag string) reflect.StructTag {
 	if len(tag) < 2 {
 		return ""
-- 
2.43.0


From aeee190cfb30a3c2957a67a9270cf78a21375ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:00 +0000
Subject: [PATCH 16/20] fix: quote string defaults

---
 generator/codegen/helpers/asthelpers.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/generator/codegen/helpers/asthelpers.go b/generator/codegen/helpers/asthelpers.go
index 3c0daae..114be7d 100644
--- a/generator/codegen/helpers/asthelpers.go
+++ b/generator/codegen/helpers/asthelpers.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"go/ast"
 	"go/token"
+	"strconv"
 	"strings"
 
 	asthlp "github.com/iv-menshenin/go-ast"
@@ -47,7 +48,7 @@ func BasicLiteralFromType(t ast.Expr, val string) ast.Expr {
 		case "string":
 			return &ast.BasicLit{
 				Kind:  token.STRING,
-				Value: "\"" + strings.Replace(val, "\"", "\\\"", -1) + "\"",
+				Value: strconv.Quote(val),
 			}
 
 		case "byte", "rune":
-- 
2.43.0


From e5540d5611ef5580088139c2ce0e58b8203520c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:30 +0000
Subject: [PATCH 17/20] fix: a list handed down its tags to an element tagged
 in a group

---
 generator/analyse.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/generator/analyse.go b/generator/analyse.go
index 505773b..9e98b16 100644
--- a/generator/analyse.go
+++ b/generator/analyse.go
@@ -183,6 +183,9 @@ func (v *visitor) processDecl(decl taggedDecl, result []renderer) []renderer {
 			if elDecl != nil && len(elDecl.tags) == 0 {
 				var elDeclT = *elDecl
 				elDeclT.tags = decl.tags // inherits tags from an heir
+				if own := v.ownTags(el.Name); len(own) > 0 {
+					elDeclT.tags = own
+				}
 				result = v.processDecl(elDeclT, result)
 			}
 		}
@@ -216,6 +219,16 @@ func (v *visitor) getDeclByName(name string) *taggedDecl {
 	return nil
 }
 
+// ownTags returns the tags of the type, a declaration in a group is met twice: with the tags of the group and with its own
+func (v *visitor) ownTags(name string) []string {
+	for _, decl := range v.decls {
+		if decl.spec.Name.Name == name && len(decl.tags) > 0 {
+			return decl.tags
+		}
+	}
+	return nil
+}
+
 func (v *visitor) collectFields(src []*ast.Field) []*ast.Field {
 	var flds = make([]*ast.Field, 0, len(src))
 	for _, fld := range src {
-- 
2.43.0


From 882074881e1467eeac78acf963de8a28b48ccf4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 18/20] fix: lists with different tags of one untagged type

---
 generator/analyse.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/generator/analyse.go b/generator/analyse.go
index 9e98b16..0e0e343 100644
--- a/generator/analyse.go
+++ b/generator/analyse.go
@@ -38,7 +38,7 @@ type (
 func (g *Gen) BuildDecoders() {
 	var v = visitor{g: g}
 	ast.Walk(&v, g.parsed)
-	for _, structDecl := range v.getNormalized() {
+	for _, structDecl := range v.getNormalized(tags.StructTags.EncodersOnly) {
 		if structDecl.Tags().Custom() {
 			continue
 		}
@@ -60,7 +60,7 @@ func (g *Gen) BuildDecoders() {
 func (g *Gen) BuildEncoders() {
 	var v = visitor{g: g}
 	ast.Walk(&v, g.parsed)
-	for _, structDecl := range v.getNormalized() {
+	for _, structDecl := range v.getNormalized(tags.StructTags.DecodersOnly) {
 		if structDecl.Tags().Custom() {
 			continue
 		}
@@ -128,7 +128,8 @@ func extractTags(comment *ast.CommentGroup) []string {
 	return commentTags
 }
 
-func (v *visitor) getNormalized() []renderer {
+// getNormalized leaves out the declarations without the methods in question, they do not hand down their tags either
+func (v *visitor) getNormalized(without func(tags.StructTags) bool) []renderer {
 	var result []renderer
 	var declProcessed taggedDecl
 	defer func() {
@@ -143,6 +144,9 @@ func (v *visitor) getNormalized() []renderer {
 			// only tagged structures
 			continue
 		}
+		if declTags := tags.StructTags(decl.tags); declTags.Custom() || without(declTags) {
+			continue
+		}
 		result = v.processDecl(decl, result)
 	}
 	return result
-- 
2.43.0


From d769d663230357d9b49dad1f3b8155529595e4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:17 +0000
Subject: [PATCH 19/20] fix: a layout named by a constant of package time is
 used for writing too

---
 generator/codegen/field/extractors.go | 17 ++++++++++-------
 generator/codegen/field/marshalers.go | 17 +++++++++++++++--
 2 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/generator/codegen/field/extractors.go b/generator/codegen/field/extractors.go
index 0bfdb51..a5966c9 100644
--- a/generator/codegen/field/extractors.go
+++ b/generator/codegen/field/extractors.go
@@ -317,13 +317,8 @@ func timeExtraction(dst *ast.Ident, v, jsonName, layout string) []ast.Stmt {
 	if layout == "" {
 		extrStmt = timeExtractionUnify(dst, srcString)
 	} else {
-		var layoutExpr ast.Expr
-		if l := strings.Split(layout, "."); len(l) == 2 && l[0] == "time" {
-			layoutExpr = &ast.SelectorExpr{
-				X:   ast.NewIdent(l[0]),
-				Sel: ast.NewIdent(l[1]),
-			}
-		} else {
+		var layoutExpr = layoutConst(layout)
+		if layoutExpr == nil {
 			layoutExpr = &ast.BasicLit{Kind: token.STRING, Value: fmt.Sprintf(`"%s"`, strings.Replace(layout, "\"", "\\\"", -1))}
 		}
 		extrStmt = []ast.Stmt{
@@ -369,6 +364,14 @@ func timeExtraction(dst *ast.Ident, v, jsonName, layout string) []ast.Stmt {
 	)
 }
 
+// layoutConst returns the constant of package time named by the layout (time.RFC3339), or nil if it is a text
+func layoutConst(layout string) ast.Expr {
+	if l := strings.Split(layout, "."); len(l) == 2 && l[0] == "time" {
+		return asthlp.SimpleSelector(l[0], l[1])
+	}
+	return nil
+}
+
 // valDateBegin, err := parseDateTime(string(b))
 func timeExtractionUnify(dst *ast.Ident, v ast.Expr) []ast.Stmt {
 	return []ast.Stmt{
diff --git a/generator/codegen/field/marshalers.go b/generator/codegen/field/marshalers.go
index 1ef5143..1e1df9e 100644
--- a/generator/codegen/field/marshalers.go
+++ b/generator/codegen/field/marshalers.go
@@ -54,7 +54,10 @@ func (w WriteBlock) Render(putComma ast.Stmt) []ast.Stmt {
 //	}
 func timeMarshal(src ast.Expr, jsonName, layout string, omitempty, isStar bool) WriteBlock {
 	var layoutExpr = names.TimeDefaultLayout
-	if layout != "" {
+	var constant = layoutConst(layout)
+	if constant != nil {
+		layoutExpr = constant
+	} else if layout != "" {
 		layoutExpr = asthlp.StringConstant(layout).Expr()
 	}
 	var notZero = asthlp.Not(asthlp.Call(asthlp.InlineFunc(asthlp.Selector(src, names.MethodNameZero))))
@@ -74,7 +77,17 @@ func timeMarshal(src ast.Expr, jsonName, layout string, omitempty, isStar bool)
 			SetCommaVar,
 		},
 	}
-	if !omitempty {
+	if !omitempty && constant != nil {
+		// the text of the zero date is not known here
+		w.IfZero = []ast.Stmt{
+			asthlp.CallStmt(asthlp.Call(RawStringFn, asthlp.StringConstant(fmt.Sprintf(`"%s":`, jsonName)).Expr())),
+			// writeTime(result, time.Time{}, time.Kitchen)
+			asthlp.CallStmt(
+				asthlp.Call(names.WriteTimeFunc, asthlp.NewIdent(names.VarNameWriter), asthlp.StructLiteral(asthlp.SimpleSelector("time", "Time")).Expr(), constant),
+			),
+			SetCommaVar,
+		}
+	} else if !omitempty {
 		if layout == "" {
 			layout = time.RFC3339
 		}
-- 
2.43.0


From 98ca51e0a872320bd136e7b46fa3f61933e4fd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:41 +0000
Subject: [PATCH 20/20] fix: a struct inlined from a package that uses other
 packages itself

---
 generator/analyse.go | 29 ++++++++++++++++++---
 generator/imports.go | 62 ++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 87 insertions(+), 4 deletions(-)

diff --git a/generator/analyse.go b/generator/analyse.go
index 0e0e343..abc9a82 100644
--- a/generator/analyse.go
+++ b/generator/analyse.go
@@ -16,6 +16,7 @@ type (
 	visitor struct {
 		g     *Gen
 		over  *ast.Ident
+		names map[string]string // how the source file calls the packages that the inlined declarations refer to
 		decls []taggedDecl
 	}
 	taggedDecl struct {
@@ -244,13 +245,15 @@ func (v *visitor) collectFields(src []*ast.Field) []*ast.Field {
 				panic(fmt.Errorf("all fields should have tags, but %q haven't", fld.Names[0].Name))
 			}
 		}
+		if v.over != nil {
+			var adopted = *fld
+			adopted.Type = v.qualified(v.renamed(fld.Type))
+			fld = &adopted
+		}
 		if sel, ok := fld.Type.(*ast.SelectorExpr); ok && sel.Sel.Obj == nil {
 			// try to resolve external type
 			sel.Sel.Obj = v.resolveExternal(sel)
 		}
-		if v.over != nil {
-			fld.Type = v.qualified(fld.Type)
-		}
 		if tag.JsonAppendix() == "inline" {
 			inlinedFields, canInline := v.exploreInlined(fld)
 			if canInline {
@@ -272,7 +275,7 @@ func (v *visitor) qualified(expr ast.Expr) ast.Expr {
 	switch t := expr.(type) {
 	case *ast.Ident:
 		if unicode.IsUpper([]rune(t.Name)[0]) {
-			return &ast.SelectorExpr{X: v.over, Sel: t}
+			return &ast.SelectorExpr{X: v.over, Sel: ast.NewIdent(t.Name)}
 		}
 	case *ast.StarExpr:
 		return &ast.StarExpr{X: v.qualified(t.X)}
@@ -284,6 +287,23 @@ func (v *visitor) qualified(expr ast.Expr) ast.Expr {
 	return expr
 }
 
+// renamed calls the packages by the names they have in the source file
+func (v *visitor) renamed(expr ast.Expr) ast.Expr {
+	switch t := expr.(type) {
+	case *ast.SelectorExpr:
+		if x, ok := t.X.(*ast.Ident); ok && v.names[x.Name] != "" {
+			return &ast.SelectorExpr{X: ast.NewIdent(v.names[x.Name]), Sel: ast.NewIdent(t.Sel.Name)}
+		}
+	case *ast.StarExpr:
+		return &ast.StarExpr{X: v.renamed(t.X)}
+	case *ast.ArrayType:
+		return &ast.ArrayType{Len: t.Len, Elt: v.renamed(t.Elt)}
+	case *ast.MapType:
+		return &ast.MapType{Key: v.renamed(t.Key), Value: v.renamed(t.Value)}
+	}
+	return expr
+}
+
 func (v *visitor) resolveExternal(sel *ast.SelectorExpr) *ast.Object {
 	packages, ok := v.g.packages[sel.X.(*ast.Ident).String()]
 	if ok {
@@ -356,6 +376,7 @@ func (v *visitor) exploreInlinedSelector(inlined *ast.SelectorExpr) (fields []*a
 	if !ok {
 		panic("can't inline")
 	}
+	v1.names = v.g.adoptImports(pkg, inlined.Sel.Name)
 	fields = v1.collectFields(stct.Fields.List)
 	// you can't inline if there is the same name field as the inlined structure
 	canInline = findFieldWithName(fields, inlined.Sel.Name) == nil
diff --git a/generator/imports.go b/generator/imports.go
index 1df7afd..e6a21f1 100644
--- a/generator/imports.go
+++ b/generator/imports.go
@@ -42,6 +42,68 @@ func (g *Gen) foreignPackage(name, pkgPath string) {
 	g.packages[name] = append(g.packages[name], explorer.Package{Path: pkgPath, Kind: kind})
 }
 
+// adoptImports registers the packages that are imported in the file where the type is declared,
+// it returns the names they have in the source file
+func (g *Gen) adoptImports(pkg ast.Node, typeName string) map[string]string {
+	var names = make(map[string]string)
+	p, ok := pkg.(*ast.Package)
+	if !ok {
+		return names
+	}
+	for _, file := range p.Files {
+		if file.Scope == nil || file.Scope.Lookup(typeName) == nil {
+			continue
+		}
+		for _, imp := range file.Imports {
+			pkgPath := strings.Trim(imp.Path.Value, `"`)
+			name := g.discovery.GetPackageName(pkgPath)
+			if imp.Name != nil {
+				name = imp.Name.Name
+			}
+			if name == "_" || name == "." {
+				continue
+			}
+			names[name] = g.adoptPackage(name, pkgPath)
+		}
+	}
+	return names
+}
+
+// adoptPackage returns the name that the package has in the source file, the packages it does not import are registered
+func (g *Gen) adoptPackage(name, pkgPath string) string {
+	var known = generatedImports()
+	for knownName, pkg := range known {
+		if pkg.Path == pkgPath {
+			return knownName
+		}
+	}
+	var own string
+	for ownName, pkgs := range g.packages {
+		for _, pkg := range pkgs {
+			if pkg.Path == pkgPath && ownName != "_" && ownName != "." && (own == "" || ownName < own) {
+				own = ownName
+			}
+		}
+	}
+	if own != "" {
+		return own
+	}
+	var free = name
+	for i := 2; ; i++ {
+		_, reserved := known[free]
+		if len(g.packages[free]) == 0 && !reserved {
+			break
+		}
+		free = fmt.Sprintf("%s%d", name, i)
+	}
+	if strings.HasPrefix(pkgPath, g.discovery.GetModuleName()) {
+		g.packages[free] = []explorer.Package{{Path: pkgPath, Kind: explorer.PkgKindInternal}}
+	} else {
+		g.foreignPackage(free, pkgPath)
+	}
+	return free
+}
+
 // importSpec builds the import declaration of the packages which are used in the node.
 // Unlike explorer.Discoverer it keeps no registry: the imports of one file do not get into the other.
 func importSpec(node ast.Node, known map[string]explorer.Package) []ast.Spec {
-- 
2.43.0

