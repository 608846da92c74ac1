From 8f211cde766c59293d9ccea80b1e819c5e0b2d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:12 +0000
Subject: [PATCH 01/55] fix: AddReturnType appends duplicates once two
 responses exist

---
 safePushing.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/safePushing.go b/safePushing.go
index 82cd297..37e5475 100644
--- a/safePushing.go
+++ b/safePushing.go
@@ -4,16 +4,16 @@ package astra
 // It uses the field type, package and status code to determine if the return type already exists.
 func AddReturnType(prev []ReturnType, n ...ReturnType) []ReturnType {
 	for _, newReturn := range n {
-		if len(prev) == 0 {
-			prev = append(prev, newReturn)
-		} else {
-			for _, existingReturn := range prev {
-				if newReturn.Field.Type != existingReturn.Field.Type || newReturn.Field.Package != existingReturn.Field.Package || newReturn.StatusCode != existingReturn.StatusCode || newReturn.ContentType != existingReturn.ContentType {
-					prev = append(prev, newReturn)
-					break
-				}
+		var found bool
+		for _, existingReturn := range prev {
+			if newReturn.Field.Type == existingReturn.Field.Type && newReturn.Field.Package == existingReturn.Field.Package && newReturn.StatusCode == existingReturn.StatusCode && newReturn.ContentType == existingReturn.ContentType {
+				found = true
+				break
 			}
 		}
+		if !found {
+			prev = append(prev, newReturn)
+		}
 	}
 
 	return prev
-- 
2.43.0


From b382aaaa511b4101a719d149094b93c62235d217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:10 +0000
Subject: [PATCH 02/55] fix: panic on embedded struct fields, which have no
 names in the AST

---
 astTraversal/type.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/astTraversal/type.go b/astTraversal/type.go
index aca6adf..6bbbe1f 100644
--- a/astTraversal/type.go
+++ b/astTraversal/type.go
@@ -233,7 +233,7 @@ func (t *TypeTraverser) Result() (Result, error) {
 				node, err := structFieldResult.Package.ASTAtPos(pos)
 				if err == nil && node != nil {
 					if field, ok := node.(*ast.Field); ok {
-						t.Traverser.Log.Debug().Str("field", field.Names[0].Name).Msg("Found doc for field")
+						t.Traverser.Log.Debug().Str("field", f.Name()).Msg("Found doc for field")
 						structFieldResult.Doc = FormatDoc(field.Doc.Text())
 					}
 				}
-- 
2.43.0


From 733c1ddf318273c0a63ccb96471c35fea99bc506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:24 +0000
Subject: [PATCH 03/55] fix: panic after a call whose arguments cannot be
 resolved

Build returns a nil route with its error, and the handlers assigned it to the
current route, so the next call of the same handler dereferenced nil.
---
 inputs/gin/parseFunction.go | 50 ++++++++++++++++++-------------------
 1 file changed, 25 insertions(+), 25 deletions(-)

diff --git a/inputs/gin/parseFunction.go b/inputs/gin/parseFunction.go
index bba2ef9..7c4ab9d 100644
--- a/inputs/gin/parseFunction.go
+++ b/inputs/gin/parseFunction.go
@@ -123,7 +123,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 			if signature.Recv() != nil && signature.Recv().Type().String() == signaturePath {
 				switch funcType.Name() {
 				case "JSON":
-					currRoute, err = funcBuilder.StatusCode().ExpressionResult().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
+					_, err = funcBuilder.StatusCode().ExpressionResult().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
 						statusCode, ok := params[0].(int)
 						if !ok {
 							return nil, errors.New("failed to parse status code")
@@ -148,7 +148,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return false
 					}
 				case "XML":
-					currRoute, err = funcBuilder.StatusCode().ExpressionResult().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
+					_, err = funcBuilder.StatusCode().ExpressionResult().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
 						statusCode, ok := params[0].(int)
 						if !ok {
 							return nil, errors.New("failed to parse status code")
@@ -173,7 +173,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return false
 					}
 				case "YAML":
-					currRoute, err = funcBuilder.StatusCode().ExpressionResult().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
+					_, err = funcBuilder.StatusCode().ExpressionResult().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
 						statusCode, ok := params[0].(int)
 						if !ok {
 							return nil, errors.New("failed to parse status code")
@@ -198,7 +198,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return false
 					}
 				case "ProtoBuf":
-					currRoute, err = funcBuilder.StatusCode().ExpressionResult().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
+					_, err = funcBuilder.StatusCode().ExpressionResult().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
 						statusCode, ok := params[0].(int)
 						if !ok {
 							return nil, errors.New("failed to parse status code")
@@ -223,7 +223,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return false
 					}
 				case "Data":
-					currRoute, err = funcBuilder.StatusCode().Ignored().ExpressionResult().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
+					_, err = funcBuilder.StatusCode().Ignored().ExpressionResult().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
 						statusCode, ok := params[0].(int)
 						if !ok {
 							return nil, errors.New("failed to parse status code")
@@ -247,7 +247,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return false
 					}
 				case "String": // c.String
-					currRoute, err = funcBuilder.StatusCode().Ignored().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
+					_, err = funcBuilder.StatusCode().Ignored().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
 						statusCode, ok := params[0].(int)
 						if !ok {
 							return nil, errors.New("failed to parse status code")
@@ -269,7 +269,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return false
 					}
 				case "Status": // c.Status
-					currRoute, err = funcBuilder.StatusCode().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
+					_, err = funcBuilder.StatusCode().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
 						statusCode, ok := params[0].(int)
 						if !ok {
 							return nil, errors.New("failed to parse status code")
@@ -288,7 +288,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 					})
 				// Query Param methods
 				case "GetQuery", "Query":
-					currRoute, err = funcBuilder.Value().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
+					_, err = funcBuilder.Value().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
 						name, ok := params[0].(string)
 						if !ok {
 							return nil, errors.New("failed to parse name")
@@ -309,7 +309,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return false
 					}
 				case "GetQueryArray", "QueryArray":
-					currRoute, err = funcBuilder.Value().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
+					_, err = funcBuilder.Value().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
 						name, ok := params[0].(string)
 						if !ok {
 							return nil, errors.New("failed to parse name")
@@ -331,7 +331,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return false
 					}
 				case "GetQueryMap", "QueryMap":
-					currRoute, err = funcBuilder.Value().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
+					_, err = funcBuilder.Value().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
 						name, ok := params[0].(string)
 						if !ok {
 							return nil, errors.New("failed to parse name")
@@ -353,7 +353,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return false
 					}
 				case "ShouldBindQuery", "BindQuery":
-					currRoute, err = funcBuilder.ExpressionResult().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
+					_, err = funcBuilder.ExpressionResult().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
 						result, ok := params[0].(astTraversal.Result)
 						if !ok {
 							return nil, errors.New("failed to parse result")
@@ -374,7 +374,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 
 				// Body Param methods
 				case "ShouldBind", "Bind":
-					currRoute, err = funcBuilder.ExpressionResult().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
+					_, err = funcBuilder.ExpressionResult().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
 						result, ok := params[0].(astTraversal.Result)
 						if !ok {
 							return nil, errors.New("failed to parse result")
@@ -415,7 +415,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return false
 					}
 				case "ShouldBindJSON", "BindJSON":
-					currRoute, err = funcBuilder.ExpressionResult().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
+					_, err = funcBuilder.ExpressionResult().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
 						result, ok := params[0].(astTraversal.Result)
 						if !ok {
 							return nil, errors.New("failed to parse result")
@@ -435,7 +435,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return false
 					}
 				case "ShouldBindXML", "BindXML":
-					currRoute, err = funcBuilder.ExpressionResult().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
+					_, err = funcBuilder.ExpressionResult().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
 						result, ok := params[0].(astTraversal.Result)
 						if !ok {
 							return nil, errors.New("failed to parse result")
@@ -455,7 +455,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return false
 					}
 				case "ShouldBindYAML", "BindYAML":
-					currRoute, err = funcBuilder.ExpressionResult().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
+					_, err = funcBuilder.ExpressionResult().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
 						result, ok := params[0].(astTraversal.Result)
 						if !ok {
 							return nil, errors.New("failed to parse result")
@@ -475,7 +475,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return false
 					}
 				case "GetPostForm", "PostForm":
-					currRoute, err = funcBuilder.Value().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
+					_, err = funcBuilder.Value().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
 						name, ok := params[0].(string)
 						if !ok {
 							return nil, errors.New("failed to parse name")
@@ -497,7 +497,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return false
 					}
 				case "GetPostFormArray", "PostFormArray":
-					currRoute, err = funcBuilder.Value().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
+					_, err = funcBuilder.Value().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
 						name, ok := params[0].(string)
 						if !ok {
 							return nil, errors.New("failed to parse name")
@@ -520,7 +520,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return false
 					}
 				case "GetPostFormMap", "PostFormMap":
-					currRoute, err = funcBuilder.Value().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
+					_, err = funcBuilder.Value().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
 						name, ok := params[0].(string)
 						if !ok {
 							return nil, errors.New("failed to parse name")
@@ -543,7 +543,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return false
 					}
 				case "FormFile":
-					currRoute, err = funcBuilder.Value().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
+					_, err = funcBuilder.Value().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
 						name, ok := params[0].(string)
 						if !ok {
 							return nil, errors.New("failed to parse name")
@@ -565,7 +565,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return false
 					}
 				case "GetHeader":
-					currRoute, err = funcBuilder.Value().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
+					_, err = funcBuilder.Value().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
 						name, ok := params[0].(string)
 						if !ok {
 							return nil, errors.New("failed to parse name")
@@ -586,7 +586,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return false
 					}
 				case "ShouldBindHeader", "BindHeader":
-					currRoute, err = funcBuilder.ExpressionResult().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
+					_, err = funcBuilder.ExpressionResult().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
 						result, ok := params[0].(astTraversal.Result)
 						if !ok {
 							return nil, errors.New("failed to parse result")
@@ -605,7 +605,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return false
 					}
 				case "Header":
-					currRoute, err = funcBuilder.Value().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
+					_, err = funcBuilder.Value().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
 						name, ok := params[0].(string)
 						if !ok {
 							return nil, errors.New("failed to parse name")
@@ -623,7 +623,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return route, nil
 					})
 				case "AbortWithError":
-					currRoute, err = funcBuilder.StatusCode().Ignored().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
+					_, err = funcBuilder.StatusCode().Ignored().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
 						statusCode, ok := params[0].(int)
 						if !ok {
 							return nil, errors.New("failed to parse status code")
@@ -644,7 +644,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return false
 					}
 				case "AbortWithStatus":
-					currRoute, err = funcBuilder.StatusCode().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
+					_, err = funcBuilder.StatusCode().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
 						statusCode, ok := params[0].(int)
 						if !ok {
 							return nil, errors.New("failed to parse status code")
@@ -665,7 +665,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return false
 					}
 				case "AbortWithStatusJSON":
-					currRoute, err = funcBuilder.StatusCode().ExpressionResult().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
+					_, err = funcBuilder.StatusCode().ExpressionResult().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
 						statusCode, ok := params[0].(int)
 						if !ok {
 							return nil, errors.New("failed to parse status code")
-- 
2.43.0


From 1e1fcb12055fcc9b90c202063759c2419dac63ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:25 +0000
Subject: [PATCH 04/55] fix: a call that cannot be analysed hides the calls
 nested in it

Returning false pruned its arguments and function literals, and a helper that
failed left the traverser in the helper's file.
---
 inputs/gin/parseFunction.go | 60 ++++++++++++++++++-------------------
 1 file changed, 30 insertions(+), 30 deletions(-)

diff --git a/inputs/gin/parseFunction.go b/inputs/gin/parseFunction.go
index 7c4ab9d..352f9f9 100644
--- a/inputs/gin/parseFunction.go
+++ b/inputs/gin/parseFunction.go
@@ -73,7 +73,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 			var newRoute *astra.Route
 			newRoute, err = customFunc(ctxName, funcBuilder)
 			if err != nil {
-				return false
+				return true
 			}
 			if newRoute != nil {
 				currRoute = newRoute
@@ -91,28 +91,28 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 			var function *astTraversal.FunctionTraverser
 			function, err = callExpr.Function()
 			if err != nil {
+				traverser.SetActiveFile(activeFile)
 				traverser.Log.Error().Err(err).Msg("failed to get function")
-				return false
+				return true
 			}
 
 			err = parseFunction(s, function, currRoute, function.Traverser.ActiveFile(), level+1)
+			traverser.SetActiveFile(activeFile)
 			if err != nil {
 				traverser.Log.Error().Err(err).Msg("error parsing function")
-				return false
+				return true
 			}
-
-			traverser.SetActiveFile(activeFile)
 		} else {
 			var funcType *types.Func
 			funcType, err = callExpr.Type()
 			if err != nil {
-				return false
+				return true
 			}
 
 			signature, ok := funcType.Type().(*types.Signature)
 			if !ok {
 				traverser.Log.Error().Err(err).Msg("error getting function signature")
-				return false
+				return true
 			}
 
 			signaturePath := GinPackagePath + "." + GinContextType
@@ -145,7 +145,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return route, nil
 					})
 					if err != nil {
-						return false
+						return true
 					}
 				case "XML":
 					_, err = funcBuilder.StatusCode().ExpressionResult().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
@@ -170,7 +170,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return route, nil
 					})
 					if err != nil {
-						return false
+						return true
 					}
 				case "YAML":
 					_, err = funcBuilder.StatusCode().ExpressionResult().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
@@ -195,7 +195,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return route, nil
 					})
 					if err != nil {
-						return false
+						return true
 					}
 				case "ProtoBuf":
 					_, err = funcBuilder.StatusCode().ExpressionResult().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
@@ -220,7 +220,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return route, nil
 					})
 					if err != nil {
-						return false
+						return true
 					}
 				case "Data":
 					_, err = funcBuilder.StatusCode().Ignored().ExpressionResult().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
@@ -244,7 +244,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return route, nil
 					})
 					if err != nil {
-						return false
+						return true
 					}
 				case "String": // c.String
 					_, err = funcBuilder.StatusCode().Ignored().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
@@ -266,7 +266,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return route, nil
 					})
 					if err != nil {
-						return false
+						return true
 					}
 				case "Status": // c.Status
 					_, err = funcBuilder.StatusCode().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
@@ -306,7 +306,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return route, nil
 					})
 					if err != nil {
-						return false
+						return true
 					}
 				case "GetQueryArray", "QueryArray":
 					_, err = funcBuilder.Value().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
@@ -328,7 +328,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return route, nil
 					})
 					if err != nil {
-						return false
+						return true
 					}
 				case "GetQueryMap", "QueryMap":
 					_, err = funcBuilder.Value().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
@@ -350,7 +350,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return route, nil
 					})
 					if err != nil {
-						return false
+						return true
 					}
 				case "ShouldBindQuery", "BindQuery":
 					_, err = funcBuilder.ExpressionResult().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
@@ -369,7 +369,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return route, nil
 					})
 					if err != nil {
-						return false
+						return true
 					}
 
 				// Body Param methods
@@ -412,7 +412,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return route, nil
 					})
 					if err != nil {
-						return false
+						return true
 					}
 				case "ShouldBindJSON", "BindJSON":
 					_, err = funcBuilder.ExpressionResult().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
@@ -432,7 +432,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return route, nil
 					})
 					if err != nil {
-						return false
+						return true
 					}
 				case "ShouldBindXML", "BindXML":
 					_, err = funcBuilder.ExpressionResult().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
@@ -452,7 +452,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return route, nil
 					})
 					if err != nil {
-						return false
+						return true
 					}
 				case "ShouldBindYAML", "BindYAML":
 					_, err = funcBuilder.ExpressionResult().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
@@ -472,7 +472,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return route, nil
 					})
 					if err != nil {
-						return false
+						return true
 					}
 				case "GetPostForm", "PostForm":
 					_, err = funcBuilder.Value().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
@@ -494,7 +494,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return route, nil
 					})
 					if err != nil {
-						return false
+						return true
 					}
 				case "GetPostFormArray", "PostFormArray":
 					_, err = funcBuilder.Value().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
@@ -517,7 +517,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return route, nil
 					})
 					if err != nil {
-						return false
+						return true
 					}
 				case "GetPostFormMap", "PostFormMap":
 					_, err = funcBuilder.Value().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
@@ -540,7 +540,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return route, nil
 					})
 					if err != nil {
-						return false
+						return true
 					}
 				case "FormFile":
 					_, err = funcBuilder.Value().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
@@ -562,7 +562,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return route, nil
 					})
 					if err != nil {
-						return false
+						return true
 					}
 				case "GetHeader":
 					_, err = funcBuilder.Value().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
@@ -583,7 +583,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return route, nil
 					})
 					if err != nil {
-						return false
+						return true
 					}
 				case "ShouldBindHeader", "BindHeader":
 					_, err = funcBuilder.ExpressionResult().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
@@ -602,7 +602,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return route, nil
 					})
 					if err != nil {
-						return false
+						return true
 					}
 				case "Header":
 					_, err = funcBuilder.Value().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
@@ -641,7 +641,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return route, nil
 					})
 					if err != nil {
-						return false
+						return true
 					}
 				case "AbortWithStatus":
 					_, err = funcBuilder.StatusCode().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
@@ -662,7 +662,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return route, nil
 					})
 					if err != nil {
-						return false
+						return true
 					}
 				case "AbortWithStatusJSON":
 					_, err = funcBuilder.StatusCode().ExpressionResult().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
@@ -687,7 +687,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return route, nil
 					})
 					if err != nil {
-						return false
+						return true
 					}
 				}
 			}
-- 
2.43.0


From 098d4653ef499d75fc5de7204b722fd4d7009e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:41 +0000
Subject: [PATCH 05/55] fix: panic on calls with fewer arguments than
 parameters

---
 contextFuncBuilder.go | 36 +++++++++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/contextFuncBuilder.go b/contextFuncBuilder.go
index cc14aea..fbfb765 100644
--- a/contextFuncBuilder.go
+++ b/contextFuncBuilder.go
@@ -1,6 +1,10 @@
 package astra
 
-import "github.com/ls6-events/astra/astTraversal"
+import (
+	"go/ast"
+
+	"github.com/ls6-events/astra/astTraversal"
+)
 
 type ContextFuncBuilder struct {
 	Route           *Route
@@ -21,6 +25,15 @@ func (c *ContextFuncBuilder) getCurrentParamIndex() int {
 	return len(c.paramOperations)
 }
 
+// argument returns the call's argument at the index, which may not exist (i.e. for a call f(g()) where g returns several values).
+func (c *ContextFuncBuilder) argument(index int) (ast.Expr, error) {
+	if index >= len(c.Traverser.Node.Args) {
+		return nil, astTraversal.ErrInvalidIndex
+	}
+
+	return c.Traverser.Node.Args[index], nil
+}
+
 func (c *ContextFuncBuilder) Ignored() *ContextFuncBuilder {
 	c.paramOperations = append(c.paramOperations, func() (any, error) {
 		//nolint:nilnil // This is intentional
@@ -33,7 +46,12 @@ func (c *ContextFuncBuilder) Ignored() *ContextFuncBuilder {
 func (c *ContextFuncBuilder) StatusCode() *ContextFuncBuilder {
 	currIndex := c.getCurrentParamIndex()
 	c.paramOperations = append(c.paramOperations, func() (any, error) {
-		return c.Traverser.Traverser.ExtractStatusCode(c.Traverser.Node.Args[currIndex])
+		arg, err := c.argument(currIndex)
+		if err != nil {
+			return nil, err
+		}
+
+		return c.Traverser.Traverser.ExtractStatusCode(arg)
 	})
 
 	return c
@@ -42,7 +60,12 @@ func (c *ContextFuncBuilder) StatusCode() *ContextFuncBuilder {
 func (c *ContextFuncBuilder) ExpressionResult() *ContextFuncBuilder {
 	currIndex := c.getCurrentParamIndex()
 	c.paramOperations = append(c.paramOperations, func() (any, error) {
-		exprType, err := c.Traverser.Traverser.Expression(c.Traverser.Node.Args[currIndex]).Type()
+		arg, err := c.argument(currIndex)
+		if err != nil {
+			return nil, err
+		}
+
+		exprType, err := c.Traverser.Traverser.Expression(arg).Type()
 		if err != nil {
 			return nil, err
 		}
@@ -56,9 +79,12 @@ func (c *ContextFuncBuilder) ExpressionResult() *ContextFuncBuilder {
 func (c *ContextFuncBuilder) Value() *ContextFuncBuilder {
 	currIndex := c.getCurrentParamIndex()
 	c.paramOperations = append(c.paramOperations, func() (any, error) {
-		expr := c.Traverser.Traverser.Expression(c.Traverser.Node.Args[currIndex])
+		arg, err := c.argument(currIndex)
+		if err != nil {
+			return nil, err
+		}
 
-		return expr.Value()
+		return c.Traverser.Traverser.Expression(arg).Value()
 	})
 
 	return c
-- 
2.43.0


From 8a35094ca87c2c13f3a2413953c714426e3d3bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:41 +0000
Subject: [PATCH 06/55] fix: custom functions share one builder and lose a
 route they return

A function that declined after it had used the builder shifted the arguments
of the functions tried after it, and a route returned under another pointer
never reached the service.
---
 inputs/gin/parseFunction.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inputs/gin/parseFunction.go b/inputs/gin/parseFunction.go
index 352f9f9..9a36d04 100644
--- a/inputs/gin/parseFunction.go
+++ b/inputs/gin/parseFunction.go
@@ -71,12 +71,12 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 		var shouldBreak bool
 		for _, customFunc := range s.CustomFuncs {
 			var newRoute *astra.Route
-			newRoute, err = customFunc(ctxName, funcBuilder)
+			newRoute, err = customFunc(ctxName, astra.NewContextFuncBuilder(currRoute, callExpr))
 			if err != nil {
 				return true
 			}
 			if newRoute != nil {
-				currRoute = newRoute
+				*currRoute = *newRoute
 				shouldBreak = true
 				break
 			}
-- 
2.43.0


From 9be3b1f9c2036bf07343b1060979e79cbd133975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:58 +0000
Subject: [PATCH 07/55] fix: recursive helpers overflow the stack

---
 inputs/gin/parseFunction.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/inputs/gin/parseFunction.go b/inputs/gin/parseFunction.go
index 9a36d04..ab53861 100644
--- a/inputs/gin/parseFunction.go
+++ b/inputs/gin/parseFunction.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"go/ast"
 	"go/types"
+	"slices"
 	"strings"
 
 	"github.com/ls6-events/astra"
@@ -25,9 +26,20 @@ const (
 // And the package name and path are used to determine the package of the currently analysed function.
 // The currRoute reference is used to manipulate the current route being analysed.
 // The imports are used to determine the package of the context variable.
-func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTraverser, currRoute *astra.Route, activeFile *astTraversal.FileNode, level int) error {
+func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTraverser, currRoute *astra.Route, activeFile *astTraversal.FileNode, level int, callers ...*ast.BlockStmt) error {
 	traverser := funcTraverser.Traverser
 
+	// Functions without a body are implemented outside of Go.
+	if funcTraverser.Node.Body == nil {
+		return nil
+	}
+
+	// Functions can call themselves, directly or through others, their body must only be followed once.
+	if slices.Contains(callers, funcTraverser.Node.Body) {
+		return nil
+	}
+	callers = append(slices.Clone(callers), funcTraverser.Node.Body)
+
 	traverser.SetActiveFile(activeFile)
 	traverser.SetAddComponentFunction(addComponent(s))
 
@@ -96,7 +108,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 				return true
 			}
 
-			err = parseFunction(s, function, currRoute, function.Traverser.ActiveFile(), level+1)
+			err = parseFunction(s, function, currRoute, function.Traverser.ActiveFile(), level+1, callers...)
 			traverser.SetActiveFile(activeFile)
 			if err != nil {
 				traverser.Log.Error().Err(err).Msg("error parsing function")
-- 
2.43.0


From d1d5816c1a300f9651509fa69e62196df2cf46a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:21 +0000
Subject: [PATCH 08/55] fix: alias types of programs for Go 1.23 are unknown
 types

---
 astTraversal/function.go |  4 +++-
 astTraversal/type.go     | 17 +++++++++++++++--
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/astTraversal/function.go b/astTraversal/function.go
index 8bee5cc..3631893 100644
--- a/astTraversal/function.go
+++ b/astTraversal/function.go
@@ -58,13 +58,15 @@ func (f *FunctionTraverser) FindArgumentNameByType(typeName string, packagePath
 		}
 
 		if isPointer {
-			if named, ok := argType.(*types.Pointer); ok {
+			if named, ok := Unalias(argType).(*types.Pointer); ok {
 				argType = named.Elem()
 			} else {
 				continue
 			}
 		}
 
+		argType = Unalias(argType)
+
 		if named, ok := argType.(*types.Named); ok && named.Obj().Pkg().Path() == packagePath && named.Obj().Name() == typeName {
 			return arg.Names[0].Name
 		} else if basic, ok := argType.(*types.Basic); ok && basic.Name() == typeName {
diff --git a/astTraversal/type.go b/astTraversal/type.go
index 6bbbe1f..1112529 100644
--- a/astTraversal/type.go
+++ b/astTraversal/type.go
@@ -32,7 +32,7 @@ func (t *TypeTraverser) SetName(name string) *TypeTraverser {
 
 func (t *TypeTraverser) Result() (Result, error) {
 	var result Result
-	switch n := t.Node.(type) {
+	switch n := Unalias(t.Node).(type) {
 	case *types.Basic:
 		result = Result{
 			Type:    n.Name(),
@@ -269,8 +269,21 @@ func (t *TypeTraverser) Result() (Result, error) {
 	}
 }
 
+// Unalias returns the type an alias stands for, and any other type as it is.
+// Aliases are only represented in programs for Go 1.23 and later, types.Alias does not exist in the Go version of this module.
+func Unalias(node types.Type) types.Type {
+	for {
+		alias, ok := node.(interface{ Rhs() types.Type })
+		if !ok {
+			return node
+		}
+
+		node = alias.Rhs()
+	}
+}
+
 func (t *TypeTraverser) Doc() (string, error) {
-	if named, ok := t.Node.(*types.Named); ok {
+	if named, ok := Unalias(t.Node).(*types.Named); ok {
 		pkg := t.Traverser.Packages.AddPackage(named.Obj().Pkg().Path())
 
 		_, err := t.Traverser.Packages.Get(pkg)
-- 
2.43.0


From daed653795e63f4cdf3626df3517a676689b4c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:21 +0000
Subject: [PATCH 09/55] fix: helpers are followed by the name of the context,
 not its type

A function literal with its own name for the context, or a renamed context,
hid the helpers called with it; a shadowed name hid the context's calls.
---
 inputs/gin/parseFunction.go | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/inputs/gin/parseFunction.go b/inputs/gin/parseFunction.go
index ab53861..f190c7e 100644
--- a/inputs/gin/parseFunction.go
+++ b/inputs/gin/parseFunction.go
@@ -98,8 +98,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 		}
 
 		// If the function takes the context as any argument, traverse it
-		_, ok := callExpr.ArgIndex(ctxName)
-		if ok {
+		if passesContext(callExpr) {
 			var function *astTraversal.FunctionTraverser
 			function, err = callExpr.Function()
 			if err != nil {
@@ -127,12 +126,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 				return true
 			}
 
-			signaturePath := GinPackagePath + "." + GinContextType
-			if GinContextIsPointer {
-				signaturePath = "*" + signaturePath
-			}
-
-			if signature.Recv() != nil && signature.Recv().Type().String() == signaturePath {
+			if signature.Recv() != nil && signature.Recv().Type().String() == contextSignaturePath() {
 				switch funcType.Name() {
 				case "JSON":
 					_, err = funcBuilder.StatusCode().ExpressionResult().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
@@ -719,6 +713,32 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 	return nil
 }
 
+// passesContext returns whether one of the arguments of the call is the context, under whatever name.
+func passesContext(callExpr *astTraversal.CallExpressionTraverser) bool {
+	for _, arg := range callExpr.Args() {
+		argType, err := callExpr.File.Package.FindTypeForExpr(arg)
+		if err != nil {
+			continue
+		}
+
+		if astTraversal.Unalias(argType).String() == contextSignaturePath() {
+			return true
+		}
+	}
+
+	return false
+}
+
+// contextSignaturePath returns the full name of the type of the context variable.
+func contextSignaturePath() string {
+	signaturePath := GinPackagePath + "." + GinContextType
+	if GinContextIsPointer {
+		signaturePath = "*" + signaturePath
+	}
+
+	return signaturePath
+}
+
 func addComponent(s *astra.Service) func(astTraversal.Result) error {
 	return func(result astTraversal.Result) error {
 		field := astra.ParseResultToField(result)
-- 
2.43.0


From 787b0a884bcd8a314979daecc284829b5d94b93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:22 +0000
Subject: [PATCH 10/55] fix: panic on unnamed context parameters and
 predeclared parameter types

---
 astTraversal/function.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/astTraversal/function.go b/astTraversal/function.go
index 3631893..51ec5c8 100644
--- a/astTraversal/function.go
+++ b/astTraversal/function.go
@@ -67,7 +67,12 @@ func (f *FunctionTraverser) FindArgumentNameByType(typeName string, packagePath
 
 		argType = Unalias(argType)
 
-		if named, ok := argType.(*types.Named); ok && named.Obj().Pkg().Path() == packagePath && named.Obj().Name() == typeName {
+		// The parameters can be left unnamed.
+		if len(arg.Names) == 0 {
+			continue
+		}
+
+		if named, ok := argType.(*types.Named); ok && named.Obj().Pkg() != nil && named.Obj().Pkg().Path() == packagePath && named.Obj().Name() == typeName {
 			return arg.Names[0].Name
 		} else if basic, ok := argType.(*types.Basic); ok && basic.Name() == typeName {
 			return arg.Names[0].Name
-- 
2.43.0


From ab34d65c7409dd0065ebbab9ae1ac40b748d81b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:50 +0000
Subject: [PATCH 11/55] fix: recursive types overflow the stack

---
 astTraversal/traverser.go | 22 ++++++++++++++++++++++
 astTraversal/type.go      | 30 ++++++++++++++++++------------
 2 files changed, 40 insertions(+), 12 deletions(-)

diff --git a/astTraversal/traverser.go b/astTraversal/traverser.go
index 846e597..d8fb9a9 100644
--- a/astTraversal/traverser.go
+++ b/astTraversal/traverser.go
@@ -3,6 +3,7 @@ package astTraversal
 import (
 	"errors"
 	"go/ast"
+	"go/types"
 
 	"github.com/rs/zerolog"
 )
@@ -14,6 +15,8 @@ type BaseTraverser struct {
 	Packages           *PackageManager
 	shouldAddComponent bool
 	addComponent       func(result Result) error
+	// components are the named types whose component is added already, or is being added (types can refer to themselves)
+	components map[string]struct{}
 }
 
 func New(workDir string) *BaseTraverser {
@@ -134,6 +137,25 @@ func (t *BaseTraverser) FindDeclarationForNode(node ast.Node) (*DeclarationTrave
 	return nil, errors.New("unsupported type")
 }
 
+// enterComponent returns whether the component of the named type is still to be added.
+func (t *BaseTraverser) enterComponent(n *types.Named) bool {
+	if _, ok := t.components[n.String()]; ok {
+		return false
+	}
+
+	if t.components == nil {
+		t.components = make(map[string]struct{})
+	}
+	t.components[n.String()] = struct{}{}
+
+	return true
+}
+
+// leaveComponent forgets a named type whose component could not be added.
+func (t *BaseTraverser) leaveComponent(n *types.Named) {
+	delete(t.components, n.String())
+}
+
 func (t *BaseTraverser) SetAddComponentFunction(addComponent func(result Result) error) *BaseTraverser {
 	t.addComponent = addComponent
 	t.shouldAddComponent = true
diff --git a/astTraversal/type.go b/astTraversal/type.go
index 1112529..1513df7 100644
--- a/astTraversal/type.go
+++ b/astTraversal/type.go
@@ -136,19 +136,10 @@ func (t *TypeTraverser) Result() (Result, error) {
 				return Result{}, err
 			}
 
-			if t.Traverser.shouldAddComponent {
-				namedUnderlyingResult, err := t.Traverser.Type(n.Underlying(), pkg).SetName(n.Obj().Name()).Result()
-				if err != nil {
-					return Result{}, err
-				}
-
-				namedUnderlyingResult.Doc, err = t.Doc()
-				if err != nil {
-					return Result{}, err
-				}
-
-				err = t.Traverser.addComponent(namedUnderlyingResult)
+			if t.Traverser.shouldAddComponent && t.Traverser.enterComponent(n) {
+				err = t.addNamedComponent(n, pkg)
 				if err != nil {
+					t.Traverser.leaveComponent(n)
 					return Result{}, err
 				}
 			}
@@ -269,6 +260,21 @@ func (t *TypeTraverser) Result() (Result, error) {
 	}
 }
 
+// addNamedComponent adds the component of a named type.
+func (t *TypeTraverser) addNamedComponent(n *types.Named, pkg *PackageNode) error {
+	namedUnderlyingResult, err := t.Traverser.Type(n.Underlying(), pkg).SetName(n.Obj().Name()).Result()
+	if err != nil {
+		return err
+	}
+
+	namedUnderlyingResult.Doc, err = t.Doc()
+	if err != nil {
+		return err
+	}
+
+	return t.Traverser.addComponent(namedUnderlyingResult)
+}
+
 // Unalias returns the type an alias stands for, and any other type as it is.
 // Aliases are only represented in programs for Go 1.23 and later, types.Alias does not exist in the Go version of this module.
 func Unalias(node types.Type) types.Type {
-- 
2.43.0


From 205ace81e165e07a623d18b33c7c8ef16ad9f453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:56 +0000
Subject: [PATCH 12/55] fix: a func or chan field hides the whole struct

---
 astTraversal/type.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/astTraversal/type.go b/astTraversal/type.go
index 1513df7..54671e1 100644
--- a/astTraversal/type.go
+++ b/astTraversal/type.go
@@ -1,6 +1,7 @@
 package astTraversal
 
 import (
+	"errors"
 	"go/ast"
 	"go/token"
 	"go/types"
@@ -209,7 +210,10 @@ func (t *TypeTraverser) Result() (Result, error) {
 			}
 
 			structFieldResult, err := t.Traverser.Type(f.Type(), t.Package).Result()
-			if err != nil {
+			if errors.Is(err, ErrInvalidNodeType) {
+				// Fields that cannot be described (functions, channels) must not hide the rest of the struct
+				structFieldResult = Result{Type: "any", Package: t.Package}
+			} else if err != nil {
 				return Result{}, err
 			}
 
-- 
2.43.0


From 5f7335eb6bc704946e7b4688015d4dc87da17192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:52 +0000
Subject: [PATCH 13/55] fix: enum values misread escaped, raw, negative,
 hexadecimal and boolean literals

---
 astTraversal/type.go | 95 +++++++++++++++++++++++---------------------
 1 file changed, 50 insertions(+), 45 deletions(-)

diff --git a/astTraversal/type.go b/astTraversal/type.go
index 54671e1..d1df113 100644
--- a/astTraversal/type.go
+++ b/astTraversal/type.go
@@ -3,10 +3,9 @@ package astTraversal
 import (
 	"errors"
 	"go/ast"
+	"go/constant"
 	"go/token"
 	"go/types"
-	"strconv"
-	"strings"
 )
 
 type TypeTraverser struct {
@@ -73,49 +72,9 @@ func (t *TypeTraverser) Result() (Result, error) {
 										if ident.Name == t.name {
 											// We iterate over every value in the value spec
 											for _, value := range valueSpec.Values {
-												// If the value is a basic literal, we add it to the enum values
-												if basicLit, ok := value.(*ast.BasicLit); ok {
-													// Switch over the basic literal's kind to determine the type of the value
-													// And format it accordingly
-													switch n.Kind() {
-													case types.String:
-														result.EnumValues = append(result.EnumValues, strings.Trim(basicLit.Value, "\""))
-													case types.Int:
-														i, err := strconv.Atoi(basicLit.Value)
-														if err != nil {
-															continue
-														}
-
-														result.EnumValues = append(result.EnumValues, i)
-													case types.Float32, types.Float64:
-														f, err := strconv.ParseFloat(basicLit.Value, 64)
-														if err != nil {
-															continue
-														}
-
-														result.EnumValues = append(result.EnumValues, f)
-													case types.Bool:
-														b, err := strconv.ParseBool(basicLit.Value)
-														if err != nil {
-															continue
-														}
-
-														result.EnumValues = append(result.EnumValues, b)
-													case types.Int8, types.Int16, types.Int32, types.Int64:
-														i, err := strconv.ParseInt(basicLit.Value, 10, 64)
-														if err != nil {
-															continue
-														}
-
-														result.EnumValues = append(result.EnumValues, i)
-													case types.Uint, types.Uint8, types.Uint16, types.Uint32, types.Uint64:
-														i, err := strconv.ParseUint(basicLit.Value, 10, 64)
-														if err != nil {
-															continue
-														}
-
-														result.EnumValues = append(result.EnumValues, i)
-													}
+												// If the value is a literal, we add it to the enum values
+												if enumValue, ok := literalValue(t.Package.Package.TypesInfo, value, n); ok {
+													result.EnumValues = append(result.EnumValues, enumValue)
 												}
 											}
 										}
@@ -264,6 +223,52 @@ func (t *TypeTraverser) Result() (Result, error) {
 	}
 }
 
+// literalValue returns the value of a literal (with or without a sign) that is a constant of the basic type.
+func literalValue(info *types.Info, expr ast.Expr, basic *types.Basic) (any, bool) {
+	literal := expr
+	if unary, ok := literal.(*ast.UnaryExpr); ok && (unary.Op == token.SUB || unary.Op == token.ADD) {
+		literal = unary.X
+	}
+
+	switch l := literal.(type) {
+	case *ast.BasicLit:
+	case *ast.Ident:
+		// The boolean literals are identifiers
+		if info.Uses[l] != types.Universe.Lookup("true") && info.Uses[l] != types.Universe.Lookup("false") {
+			return nil, false
+		}
+	default:
+		return nil, false
+	}
+
+	value := info.Types[expr].Value
+	if value == nil {
+		return nil, false
+	}
+
+	switch basic.Kind() {
+	case types.String:
+		return constant.StringVal(value), true
+	case types.Bool:
+		return constant.BoolVal(value), true
+	case types.Int:
+		i, ok := constant.Int64Val(constant.ToInt(value))
+		return int(i), ok
+	case types.Int8, types.Int16, types.Int32, types.Int64:
+		return constant.Int64Val(constant.ToInt(value))
+	case types.Uint, types.Uint8, types.Uint16, types.Uint32, types.Uint64:
+		return constant.Uint64Val(constant.ToInt(value))
+	case types.Float32:
+		f, _ := constant.Float32Val(value)
+		return f, true
+	case types.Float64:
+		f, _ := constant.Float64Val(value)
+		return f, true
+	}
+
+	return nil, false
+}
+
 // addNamedComponent adds the component of a named type.
 func (t *TypeTraverser) addNamedComponent(n *types.Named, pkg *PackageNode) error {
 	namedUnderlyingResult, err := t.Traverser.Type(n.Underlying(), pkg).SetName(n.Obj().Name()).Result()
-- 
2.43.0


From 2b03c969d14c92a1b71a992c67a2fd9a7f39bf7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:12 +0000
Subject: [PATCH 14/55] fix: nested collections, anonymous structs and elements
 of other packages lose their schema

Only the name of an element was kept, in the package of the collection. The
element is now kept as a field of its own.
---
 astTraversal/result.go        |  3 +++
 astTraversal/type.go          |  6 ++++++
 clean.go                      |  5 +++++
 outputs/openapi/components.go | 12 +++++++++---
 outputs/openapi/generate.go   | 12 ++++++------
 outputs/openapi/schema.go     | 11 ++++++++---
 types.go                      |  3 +++
 utils.go                      |  6 ++++++
 8 files changed, 46 insertions(+), 12 deletions(-)

diff --git a/astTraversal/result.go b/astTraversal/result.go
index 7c0b8cc..23e3aa5 100644
--- a/astTraversal/result.go
+++ b/astTraversal/result.go
@@ -43,6 +43,9 @@ type Result struct {
 	// ArrayLength is the length of the array (e.g. for a [5]string)
 	ArrayLength int64
 
+	// Elem is the element of a slice or array, or the value of a map
+	Elem *Result
+
 	// StructFields is a map of struct fields (e.g. for a struct { Foo string })
 	StructFields map[string]Result
 
diff --git a/astTraversal/type.go b/astTraversal/type.go
index d1df113..3284585 100644
--- a/astTraversal/type.go
+++ b/astTraversal/type.go
@@ -121,6 +121,7 @@ func (t *TypeTraverser) Result() (Result, error) {
 			Type:      "slice",
 			SliceType: sliceElemResult.Type,
 			Package:   sliceElemResult.Package,
+			Elem:      &sliceElemResult,
 		}
 	case *types.Array:
 		arrayElemResult, err := t.Traverser.Type(n.Elem(), t.Package).Result()
@@ -133,6 +134,7 @@ func (t *TypeTraverser) Result() (Result, error) {
 			ArrayType:   arrayElemResult.Type,
 			ArrayLength: n.Len(),
 			Package:     arrayElemResult.Package,
+			Elem:        &arrayElemResult,
 		}
 	case *types.Map:
 		keyResult, err := t.Traverser.Type(n.Key(), t.Package).Result()
@@ -151,6 +153,7 @@ func (t *TypeTraverser) Result() (Result, error) {
 			MapKeyPackage: keyResult.Package,
 			MapValueType:  valueResult.Type,
 			Package:       valueResult.Package,
+			Elem:          &valueResult,
 		}
 	case *types.Struct:
 		fields := make(map[string]Result)
@@ -276,6 +279,9 @@ func (t *TypeTraverser) addNamedComponent(n *types.Named, pkg *PackageNode) erro
 		return err
 	}
 
+	// A named slice, array or map belongs to its own package, not to the package of its elements
+	namedUnderlyingResult.Package = pkg
+
 	namedUnderlyingResult.Doc, err = t.Doc()
 	if err != nil {
 		return err
diff --git a/clean.go b/clean.go
index 35a57f3..49d7716 100644
--- a/clean.go
+++ b/clean.go
@@ -54,6 +54,11 @@ func (s *Service) cleanField(f Field, mainPkg string) Field {
 		f.MapKeyPackage = "main"
 	}
 
+	if f.Elem != nil {
+		elem := s.cleanField(*f.Elem, mainPkg)
+		f.Elem = &elem
+	}
+
 	for k, v := range f.StructFields {
 		f.StructFields[k] = s.cleanField(v, mainPkg)
 	}
diff --git a/outputs/openapi/components.go b/outputs/openapi/components.go
index 68405fd..d4df1af 100644
--- a/outputs/openapi/components.go
+++ b/outputs/openapi/components.go
@@ -189,7 +189,9 @@ func componentToSchema(service *astra.Service, component astra.Field, bindingTyp
 	} else if component.Type == "slice" {
 		itemSchema := mapPredefinedTypeFormat(component.SliceType)
 
-		if itemSchema.Type == "" && !astra.IsAcceptedType(component.SliceType) {
+		if component.Elem != nil {
+			itemSchema, _ = componentToSchema(service, *component.Elem, bindingType)
+		} else if itemSchema.Type == "" && !astra.IsAcceptedType(component.SliceType) {
 			componentRef, componentBound := makeComponentRef(bindingType, component.SliceType, component.Package)
 			if componentBound {
 				itemSchema = Schema{
@@ -205,7 +207,9 @@ func componentToSchema(service *astra.Service, component astra.Field, bindingTyp
 	} else if component.Type == "array" {
 		itemSchema := mapPredefinedTypeFormat(component.ArrayType)
 
-		if itemSchema.Type == "" && !astra.IsAcceptedType(component.ArrayType) {
+		if component.Elem != nil {
+			itemSchema, _ = componentToSchema(service, *component.Elem, bindingType)
+		} else if itemSchema.Type == "" && !astra.IsAcceptedType(component.ArrayType) {
 			componentRef, componentBound := makeComponentRef(bindingType, component.ArrayType, component.Package)
 			if componentBound {
 				itemSchema = Schema{
@@ -222,7 +226,9 @@ func componentToSchema(service *astra.Service, component astra.Field, bindingTyp
 	} else if component.Type == "map" {
 		additionalProperties := mapPredefinedTypeFormat(component.MapValueType)
 
-		if additionalProperties.Type == "" && !astra.IsAcceptedType(component.MapValueType) {
+		if component.Elem != nil {
+			additionalProperties, _ = componentToSchema(service, *component.Elem, bindingType)
+		} else if additionalProperties.Type == "" && !astra.IsAcceptedType(component.MapValueType) {
 			componentRef, ok := makeComponentRef(bindingType, component.MapValueType, component.Package)
 			if ok {
 				additionalProperties.Ref = componentRef
diff --git a/outputs/openapi/generate.go b/outputs/openapi/generate.go
index 7829bbf..5e6ca9e 100644
--- a/outputs/openapi/generate.go
+++ b/outputs/openapi/generate.go
@@ -57,7 +57,7 @@ func Generate(filePath string) astra.ServiceFunction {
 
 			for _, pathParam := range endpoint.PathParams {
 				s.Log.Debug().Str("endpointPath", endpoint.Path).Str("method", endpoint.Method).Str("param", pathParam.Name).Msg("Adding endpointPath parameter")
-				schema, bound := mapParamToSchema(astTraversal.URIBindingTag, pathParam)
+				schema, bound := mapParamToSchema(s, astTraversal.URIBindingTag, pathParam)
 				if !bound {
 					continue
 				}
@@ -72,7 +72,7 @@ func Generate(filePath string) astra.ServiceFunction {
 
 			for _, requestHeader := range endpoint.RequestHeaders {
 				s.Log.Debug().Str("endpointPath", endpoint.Path).Str("method", endpoint.Method).Str("param", requestHeader.Name).Msg("Adding request header")
-				schema, bound := mapParamToSchema(astTraversal.HeaderBindingTag, requestHeader)
+				schema, bound := mapParamToSchema(s, astTraversal.HeaderBindingTag, requestHeader)
 				if !bound {
 					continue
 				}
@@ -89,7 +89,7 @@ func Generate(filePath string) astra.ServiceFunction {
 
 			for _, queryParam := range endpoint.QueryParams {
 				s.Log.Debug().Str("endpointPath", endpoint.Path).Str("method", endpoint.Method).Str("param", queryParam.Name).Msg("Adding query parameter")
-				schema, bound := mapParamToSchema(astTraversal.FormBindingTag, queryParam)
+				schema, bound := mapParamToSchema(s, astTraversal.FormBindingTag, queryParam)
 				if !bound {
 					continue
 				}
@@ -139,7 +139,7 @@ func Generate(filePath string) astra.ServiceFunction {
 			for _, bodyParam := range endpoint.Body {
 				s.Log.Debug().Str("endpointPath", endpoint.Path).Str("method", endpoint.Method).Str("param", bodyParam.Name).Msg("Adding body parameter")
 				bindingType := astra.ContentTypeToBindingTag(bodyParam.ContentType)
-				schema, bound := mapFieldToSchema(bindingType, bodyParam.Field)
+				schema, bound := mapFieldToSchema(s, bindingType, bodyParam.Field)
 				if !bound {
 					continue
 				}
@@ -170,7 +170,7 @@ func Generate(filePath string) astra.ServiceFunction {
 				responseHeaders = make(map[string]Header)
 				for _, responseHeader := range endpoint.ResponseHeaders {
 					s.Log.Debug().Str("endpointPath", endpoint.Path).Str("method", endpoint.Method).Str("param", responseHeader.Name).Msg("Adding response header")
-					schema, bound := mapParamToSchema(astTraversal.HeaderBindingTag, responseHeader)
+					schema, bound := mapParamToSchema(s, astTraversal.HeaderBindingTag, responseHeader)
 					if bound {
 						responseHeaders[responseHeader.Name] = Header{
 							Schema:   schema,
@@ -184,7 +184,7 @@ func Generate(filePath string) astra.ServiceFunction {
 				s.Log.Debug().Str("endpointPath", endpoint.Path).Str("method", endpoint.Method).Str("return", returnType.Field.Name).Msg("Adding return type")
 				var mediaType MediaType
 				bindingType := astra.ContentTypeToBindingTag(returnType.ContentType)
-				schema, bound := mapFieldToSchema(bindingType, returnType.Field)
+				schema, bound := mapFieldToSchema(s, bindingType, returnType.Field)
 				if bound {
 					mediaType.Schema = schema
 				}
diff --git a/outputs/openapi/schema.go b/outputs/openapi/schema.go
index 8417b96..44f07b3 100644
--- a/outputs/openapi/schema.go
+++ b/outputs/openapi/schema.go
@@ -5,9 +5,9 @@ import (
 	"github.com/ls6-events/astra/astTraversal"
 )
 
-func mapParamToSchema(bindingType astTraversal.BindingTagType, param astra.Param) (Schema, bool) {
+func mapParamToSchema(service *astra.Service, bindingType astTraversal.BindingTagType, param astra.Param) (Schema, bool) {
 	if param.IsBound {
-		return mapFieldToSchema(bindingType, param.Field)
+		return mapFieldToSchema(service, bindingType, param.Field)
 	} else if param.IsArray {
 		itemSchema := mapPredefinedTypeFormat(param.Field.Type)
 		if !astra.IsAcceptedType(param.Field.Type) {
@@ -41,7 +41,12 @@ func mapParamToSchema(bindingType astTraversal.BindingTagType, param astra.Param
 	}
 }
 
-func mapFieldToSchema(bindingType astTraversal.BindingTagType, field astra.Field) (Schema, bool) {
+func mapFieldToSchema(service *astra.Service, bindingType astTraversal.BindingTagType, field astra.Field) (Schema, bool) {
+	// Slices, arrays, maps and structs without a name have no component, they are described in place.
+	if field.Elem != nil || field.StructFields != nil {
+		return componentToSchema(service, field, bindingType)
+	}
+
 	if !astra.IsAcceptedType(field.Type) {
 		componentRef, bound := makeComponentRef(bindingType, field.Type, field.Package)
 		if bound {
diff --git a/types.go b/types.go
index 48deddd..a581b17 100644
--- a/types.go
+++ b/types.go
@@ -66,6 +66,7 @@ type Processable struct {
 // It also contains whether the field is required and whether it is embedded.
 // If the field is a slice, it contains the type of the slice (package is the package of the type).
 // If the field is a map, it contains the key and value types of the map (and the key package, we treat the package as the value package).
+// If the field is a slice, array or map, it also contains the element (or map value) as a field of its own.
 // If the field is a struct, it contains the fields of the struct.
 type Field struct {
 	Package string `json:"package,omitempty" yaml:"package,omitempty"`
@@ -86,6 +87,8 @@ type Field struct {
 	MapKeyType    string `json:"mapKeyType,omitempty" yaml:"mapKeyType,omitempty"`
 	MapValueType  string `json:"mapValueType,omitempty" yaml:"mapValueType,omitempty"`
 
+	Elem *Field `json:"elem,omitempty" yaml:"elem,omitempty"`
+
 	StructFields              map[string]Field              `json:"structFields,omitempty" yaml:"structFields,omitempty"`
 	StructFieldBindingTags    astTraversal.BindingTagMap    `json:"structFieldBindingTags,omitempty" yaml:"structFieldBindingTags,omitempty"`
 	StructFieldValidationTags astTraversal.ValidationTagMap `json:"structFieldValidationTags,omitempty" yaml:"structFieldValidationTags,omitempty"`
diff --git a/utils.go b/utils.go
index adaaa9b..31d83f0 100644
--- a/utils.go
+++ b/utils.go
@@ -44,6 +44,12 @@ func ParseResultToField(result astTraversal.Result) Field {
 		field.MapKeyPackage = result.MapKeyPackage.Path()
 	}
 
+	// If the element is populated, we need to parse it.
+	if result.Elem != nil {
+		elem := ParseResultToField(*result.Elem)
+		field.Elem = &elem
+	}
+
 	// If the struct fields are populated, we need to parse them.
 	if result.StructFields != nil {
 		field.StructFields = make(map[string]Field)
-- 
2.43.0


From 38eb026a97971f5d8e9f4b03bbef04cbb91bea8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:13 +0000
Subject: [PATCH 15/55] fix: the length of an array is its maximum number of
 items, not a string length

---
 outputs/openapi/components.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/outputs/openapi/components.go b/outputs/openapi/components.go
index d4df1af..55b0502 100644
--- a/outputs/openapi/components.go
+++ b/outputs/openapi/components.go
@@ -219,9 +219,9 @@ func componentToSchema(service *astra.Service, component astra.Field, bindingTyp
 		}
 
 		schema = Schema{
-			Type:      "array",
-			Items:     &itemSchema,
-			MaxLength: int(component.ArrayLength),
+			Type:     "array",
+			Items:    &itemSchema,
+			MaxItems: int(component.ArrayLength),
 		}
 	} else if component.Type == "map" {
 		additionalProperties := mapPredefinedTypeFormat(component.MapValueType)
-- 
2.43.0


From a607334ca7d9a52d4ba725529165f2ffb19c3d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:00 +0000
Subject: [PATCH 16/55] fix: component names collide for nested and
 suffix-related package paths

The pairs of packages were not all compared, only the last difference counted,
shorter paths panicked, and the names of an earlier generation were kept.
---
 outputs/openapi/components.go | 60 +++++++++++++++++++----------------
 1 file changed, 32 insertions(+), 28 deletions(-)

diff --git a/outputs/openapi/components.go b/outputs/openapi/components.go
index 55b0502..b9f095c 100644
--- a/outputs/openapi/components.go
+++ b/outputs/openapi/components.go
@@ -1,7 +1,6 @@
 package openapi
 
 import (
-	"slices"
 	"strings"
 
 	"github.com/ls6-events/astra"
@@ -33,6 +32,9 @@ func getPackageName(pkg string) string {
 // This needs to be run before any routes or components are generated.
 // As the makeComponentRefName function relies on the collisionSafeNames map.
 func makeCollisionSafeNamesFromComponents(components []astra.Field) {
+	// The names of an earlier generation must not be found in this one.
+	collisionSafeNames = make(map[string]string)
+
 	// Group the components by package name.
 	packageNames := make(map[string][]astra.Field)
 	for _, component := range components {
@@ -48,32 +50,8 @@ func makeCollisionSafeNamesFromComponents(components []astra.Field) {
 	}
 
 	for _, components := range packageNames {
-		// Iterate over every component and see if there is ever a case where the full package path doesn't match up.
-		sameUntil := 0
-		for i := 0; i < len(components)-1; i++ {
-			for j := i + 1; j < len(components)-i; j++ {
-				// If the packages don't match, we need to find the first point where they don't match.
-				if components[i].Package != components[j].Package {
-					// Create a slice of the package path split by "/".
-					iComponentPackageSplit := strings.Split(components[i].Package, "/")
-					jComponentPackageSplit := strings.Split(components[j].Package, "/")
-
-					// Reverse the package path so we can iterate from the end first.
-					slices.Reverse(iComponentPackageSplit)
-					slices.Reverse(jComponentPackageSplit)
-
-					// Iterate over the package path slices and find the first point where they don't match.
-					for k := 0; k < len(iComponentPackageSplit) && k < len(jComponentPackageSplit); k++ {
-						if iComponentPackageSplit[k] != jComponentPackageSplit[k] {
-							// We've found the first point where they don't match, set sameUntil to k and break out of the loop.
-							sameUntil = k
-							break
-						}
-					}
-					break
-				}
-			}
-		}
+		// Find out how much of the end of the package paths is the same for different packages.
+		sameUntil := packagePathsSameUntil(components)
 
 		// Iterate over every component and create a collision safe name.
 		for _, component := range components {
@@ -89,7 +67,8 @@ func makeCollisionSafeNamesFromComponents(components []astra.Field) {
 					// e.g. github.com/ls6-events/astra and github.com/different/astra would give us sameUntil = 1.
 					// and split into "ls6-events" and "different".
 
-					splitPackage = splitPackage[len(splitPackage)-(sameUntil+1):]
+					// A package path that is shorter is used as a whole.
+					splitPackage = splitPackage[max(0, len(splitPackage)-(sameUntil+1)):]
 
 					if uniqueBindings {
 						// If there are unique bindings, we need to add the binding type to the collision safe name.
@@ -112,6 +91,31 @@ func makeCollisionSafeNamesFromComponents(components []astra.Field) {
 	}
 }
 
+// packagePathsSameUntil returns the number of path elements, counted from the end of the package path, that do not tell the packages of the components apart.
+// It is 0 if the last element does, and then grows until every package has an end of its path of its own.
+func packagePathsSameUntil(components []astra.Field) int {
+	packagePaths := make(map[string]struct{})
+	longest := 0
+	for _, component := range components {
+		packagePaths[component.Package] = struct{}{}
+		longest = max(longest, strings.Count(component.Package, "/"))
+	}
+
+	for sameUntil := 0; sameUntil < longest; sameUntil++ {
+		packageEnds := make(map[string]struct{})
+		for packagePath := range packagePaths {
+			splitPackage := strings.Split(packagePath, "/")
+			packageEnds[strings.Join(splitPackage[max(0, len(splitPackage)-(sameUntil+1)):], "/")] = struct{}{}
+		}
+
+		if len(packageEnds) == len(packagePaths) {
+			return sameUntil
+		}
+	}
+
+	return longest
+}
+
 // makeComponentRef creates a reference to the component in the OpenAPI specification.
 func makeComponentRef(bindingType astTraversal.BindingTagType, name, pkg string) (string, bool) {
 	componentName, bound := makeComponentRefName(bindingType, name, pkg)
-- 
2.43.0


From 9ee3f3ca59080a0f0d0c21760f7b621024e8cf10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:32 +0000
Subject: [PATCH 17/55] fix: views of structs whose fields lack a tag, or that
 contain structs with several views

A field without the tag of the view hid the whole struct, and a struct with
the same names in every view showed the last view of the structs in it.
---
 outputs/openapi/components.go | 116 ++++++++++++++++++++++++++++++----
 1 file changed, 102 insertions(+), 14 deletions(-)

diff --git a/outputs/openapi/components.go b/outputs/openapi/components.go
index b9f095c..86d20ab 100644
--- a/outputs/openapi/components.go
+++ b/outputs/openapi/components.go
@@ -1,6 +1,7 @@
 package openapi
 
 import (
+	"slices"
 	"strings"
 
 	"github.com/ls6-events/astra"
@@ -49,14 +50,21 @@ func makeCollisionSafeNamesFromComponents(components []astra.Field) {
 		packageNames[packageName] = append(packageNames[packageName], component)
 	}
 
+	uniqueComponents := findUniqueComponents(components)
+
 	for _, components := range packageNames {
 		// Find out how much of the end of the package paths is the same for different packages.
 		sameUntil := packagePathsSameUntil(components)
 
 		// Iterate over every component and create a collision safe name.
 		for _, component := range components {
-			bindingTags, uniqueBindings := astra.ExtractBindingTags(component.StructFields)
-			for _, bindingType := range bindingTags {
+			uniqueBindings := uniqueComponents[collisionSafeKey(astTraversal.NoBindingTag, component.Name, component.Package)]
+			for _, bindingType := range componentBindings(component) {
+				// A unique component has no representation without a binding type.
+				if uniqueBindings && bindingType == astTraversal.NoBindingTag {
+					continue
+				}
+
 				// If sameUntil is greater than 0, we need to remove the package path up to the point where they first don't match.
 				if sameUntil > 0 {
 					// Split the package path by "/".
@@ -116,6 +124,89 @@ func packagePathsSameUntil(components []astra.Field) int {
 	return longest
 }
 
+// componentBindings returns the binding types a component can be represented for.
+// A struct with binding tags is represented for these, everything else is the same for every binding type.
+func componentBindings(component astra.Field) []astTraversal.BindingTagType {
+	bindingTags := make([]astTraversal.BindingTagType, 0)
+	if component.Type == "struct" {
+		taggedBindings, _ := astra.ExtractBindingTags(component.StructFields)
+		for _, bindingType := range astTraversal.BindingTags {
+			if len(component.StructFields) > 0 && slices.Contains(taggedBindings, bindingType) {
+				bindingTags = append(bindingTags, bindingType)
+			}
+		}
+	}
+
+	if len(bindingTags) == 0 {
+		bindingTags = append(bindingTags, astTraversal.BindingTags...)
+		bindingTags = append(bindingTags, astTraversal.NoBindingTag)
+	}
+
+	return bindingTags
+}
+
+// fieldBinding returns the binding tag of a struct field for a binding type.
+// A field without that tag is known by its name.
+func fieldBinding(fieldName string, field astra.Field, bindingType astTraversal.BindingTagType) astTraversal.BindingTag {
+	for _, tag := range []astTraversal.BindingTagType{bindingType, astTraversal.NoBindingTag} {
+		if binding, ok := field.StructFieldBindingTags[tag]; ok && binding != (astTraversal.BindingTag{}) {
+			return binding
+		}
+	}
+
+	return astTraversal.BindingTag{Name: fieldName}
+}
+
+// findUniqueComponents finds the components that have a different representation for different binding types.
+// These are the structs with different binding tags, and everything that refers to them.
+func findUniqueComponents(components []astra.Field) map[string]bool {
+	unique := make(map[string]bool)
+	for _, component := range components {
+		key := collisionSafeKey(astTraversal.NoBindingTag, component.Name, component.Package)
+
+		_, unique[key] = astra.ExtractBindingTags(component.StructFields)
+		for fieldName, field := range component.StructFields {
+			for _, bindingType := range componentBindings(component) {
+				if fieldBinding(fieldName, field, bindingType) != fieldBinding(fieldName, field, componentBindings(component)[0]) {
+					unique[key] = true
+				}
+			}
+		}
+	}
+
+	for found := true; found; {
+		found = false
+		for _, component := range components {
+			key := collisionSafeKey(astTraversal.NoBindingTag, component.Name, component.Package)
+			if !unique[key] && refersToUniqueComponent(component, unique) {
+				unique[key] = true
+				found = true
+			}
+		}
+	}
+
+	return unique
+}
+
+// refersToUniqueComponent returns whether a field or one of the fields or elements in it has a type that is unique.
+func refersToUniqueComponent(field astra.Field, unique map[string]bool) bool {
+	if unique[collisionSafeKey(astTraversal.NoBindingTag, field.Type, field.Package)] {
+		return true
+	}
+
+	if field.Elem != nil && refersToUniqueComponent(*field.Elem, unique) {
+		return true
+	}
+
+	for _, structField := range field.StructFields {
+		if refersToUniqueComponent(structField, unique) {
+			return true
+		}
+	}
+
+	return false
+}
+
 // makeComponentRef creates a reference to the component in the OpenAPI specification.
 func makeComponentRef(bindingType astTraversal.BindingTagType, name, pkg string) (string, bool) {
 	componentName, bound := makeComponentRefName(bindingType, name, pkg)
@@ -143,12 +234,17 @@ func componentToSchema(service *astra.Service, component astra.Field, bindingTyp
 	}
 
 	if component.Type == "struct" {
+		// A struct without any tag of the binding type, but with others, is not bound by it.
+		if !slices.Contains(componentBindings(component), bindingType) {
+			return Schema{}, false
+		}
+
 		embeddedProperties := make([]Schema, 0)
 		schema = Schema{
 			Type:       "object",
 			Properties: make(map[string]Schema),
 		}
-		for _, field := range component.StructFields {
+		for fieldName, field := range component.StructFields {
 			// We should aim to use doc comments in the future.
 			// However https://github.com/OAI/OpenAPI-Specification/issues/1514.
 			if field.IsEmbedded {
@@ -162,19 +258,11 @@ func componentToSchema(service *astra.Service, component astra.Field, bindingTyp
 				continue
 			}
 
-			fieldBinding := field.StructFieldBindingTags[bindingType]
-			fieldNoBinding := field.StructFieldBindingTags[astTraversal.NoBindingTag]
-			if fieldBinding == (astTraversal.BindingTag{}) && fieldNoBinding == (astTraversal.BindingTag{}) {
-				return Schema{}, false
-			}
-			if fieldBinding == (astTraversal.BindingTag{}) {
-				fieldBinding = fieldNoBinding
-			}
-
-			if !fieldBinding.NotShown {
+			binding := fieldBinding(fieldName, field, bindingType)
+			if !binding.NotShown {
 				fieldSchema, fieldBound := componentToSchema(service, field, bindingType)
 				if fieldBound {
-					schema.Properties[fieldBinding.Name] = fieldSchema
+					schema.Properties[binding.Name] = fieldSchema
 				}
 			}
 		}
-- 
2.43.0


From 3d4314cb489c4b7334ed7be7f76001b7e67b6439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:36 +0000
Subject: [PATCH 18/55] fix: responses and fields of types without tags for
 their encoding lose their schema

---
 outputs/openapi/components.go | 58 +++++++++++++++++++++++++++--------
 outputs/openapi/generate.go   | 11 ++++---
 outputs/openapi/schema.go     |  4 +--
 3 files changed, 55 insertions(+), 18 deletions(-)

diff --git a/outputs/openapi/components.go b/outputs/openapi/components.go
index 86d20ab..be92b67 100644
--- a/outputs/openapi/components.go
+++ b/outputs/openapi/components.go
@@ -227,6 +227,43 @@ func makeComponentRefName(bindingType astTraversal.BindingTagType, name, pkg str
 	return componentName, bound
 }
 
+// nestedBindings returns the binding types to try for a type that is used within another, or in a response.
+// There the type is encoded whether or not it has tags for that encoding.
+func nestedBindings(bindingType astTraversal.BindingTagType) []astTraversal.BindingTagType {
+	return []astTraversal.BindingTagType{
+		bindingType,
+		astTraversal.NoBindingTag,
+		astTraversal.JSONBindingTag,
+		astTraversal.XMLBindingTag,
+		astTraversal.YAMLBindingTag,
+		astTraversal.FormBindingTag,
+		astTraversal.HeaderBindingTag,
+		astTraversal.URIBindingTag,
+	}
+}
+
+// makeNestedComponentRef creates a reference to the component for the first of the binding types that it has.
+func makeNestedComponentRef(bindingType astTraversal.BindingTagType, name, pkg string) (string, bool) {
+	for _, nestedBinding := range nestedBindings(bindingType) {
+		if componentRef, bound := makeComponentRef(nestedBinding, name, pkg); bound {
+			return componentRef, bound
+		}
+	}
+
+	return "", false
+}
+
+// nestedToSchema converts a field or an element to a schema, for the first of the binding types that it has.
+func nestedToSchema(service *astra.Service, field astra.Field, bindingType astTraversal.BindingTagType) Schema {
+	for _, nestedBinding := range nestedBindings(bindingType) {
+		if schema, bound := componentToSchema(service, field, nestedBinding); bound {
+			return schema
+		}
+	}
+
+	return Schema{}
+}
+
 // componentToSchema converts a component to a schema.
 func componentToSchema(service *astra.Service, component astra.Field, bindingType astTraversal.BindingTagType) (schema Schema, bound bool) {
 	if _, ok := service.GetTypeMapping(component.Name, component.Package); ok {
@@ -248,7 +285,7 @@ func componentToSchema(service *astra.Service, component astra.Field, bindingTyp
 			// We should aim to use doc comments in the future.
 			// However https://github.com/OAI/OpenAPI-Specification/issues/1514.
 			if field.IsEmbedded {
-				componentRef, componentBound := makeComponentRef(bindingType, field.Type, field.Package)
+				componentRef, componentBound := makeNestedComponentRef(bindingType, field.Type, field.Package)
 				if componentBound {
 					embeddedProperties = append(embeddedProperties, Schema{
 						Ref: componentRef,
@@ -260,10 +297,7 @@ func componentToSchema(service *astra.Service, component astra.Field, bindingTyp
 
 			binding := fieldBinding(fieldName, field, bindingType)
 			if !binding.NotShown {
-				fieldSchema, fieldBound := componentToSchema(service, field, bindingType)
-				if fieldBound {
-					schema.Properties[binding.Name] = fieldSchema
-				}
+				schema.Properties[binding.Name] = nestedToSchema(service, field, bindingType)
 			}
 		}
 
@@ -282,9 +316,9 @@ func componentToSchema(service *astra.Service, component astra.Field, bindingTyp
 		itemSchema := mapPredefinedTypeFormat(component.SliceType)
 
 		if component.Elem != nil {
-			itemSchema, _ = componentToSchema(service, *component.Elem, bindingType)
+			itemSchema = nestedToSchema(service, *component.Elem, bindingType)
 		} else if itemSchema.Type == "" && !astra.IsAcceptedType(component.SliceType) {
-			componentRef, componentBound := makeComponentRef(bindingType, component.SliceType, component.Package)
+			componentRef, componentBound := makeNestedComponentRef(bindingType, component.SliceType, component.Package)
 			if componentBound {
 				itemSchema = Schema{
 					Ref: componentRef,
@@ -300,9 +334,9 @@ func componentToSchema(service *astra.Service, component astra.Field, bindingTyp
 		itemSchema := mapPredefinedTypeFormat(component.ArrayType)
 
 		if component.Elem != nil {
-			itemSchema, _ = componentToSchema(service, *component.Elem, bindingType)
+			itemSchema = nestedToSchema(service, *component.Elem, bindingType)
 		} else if itemSchema.Type == "" && !astra.IsAcceptedType(component.ArrayType) {
-			componentRef, componentBound := makeComponentRef(bindingType, component.ArrayType, component.Package)
+			componentRef, componentBound := makeNestedComponentRef(bindingType, component.ArrayType, component.Package)
 			if componentBound {
 				itemSchema = Schema{
 					Ref: componentRef,
@@ -319,9 +353,9 @@ func componentToSchema(service *astra.Service, component astra.Field, bindingTyp
 		additionalProperties := mapPredefinedTypeFormat(component.MapValueType)
 
 		if component.Elem != nil {
-			additionalProperties, _ = componentToSchema(service, *component.Elem, bindingType)
+			additionalProperties = nestedToSchema(service, *component.Elem, bindingType)
 		} else if additionalProperties.Type == "" && !astra.IsAcceptedType(component.MapValueType) {
-			componentRef, ok := makeComponentRef(bindingType, component.MapValueType, component.Package)
+			componentRef, ok := makeNestedComponentRef(bindingType, component.MapValueType, component.Package)
 			if ok {
 				additionalProperties.Ref = componentRef
 			}
@@ -334,7 +368,7 @@ func componentToSchema(service *astra.Service, component astra.Field, bindingTyp
 	} else {
 		schema = mapPredefinedTypeFormat(component.Type)
 		if schema.Type == "" && !astra.IsAcceptedType(component.Type) {
-			componentRef, componentBound := makeComponentRef(bindingType, component.Type, component.Package)
+			componentRef, componentBound := makeNestedComponentRef(bindingType, component.Type, component.Package)
 			if componentBound {
 				schema = Schema{
 					Ref: componentRef,
diff --git a/outputs/openapi/generate.go b/outputs/openapi/generate.go
index 5e6ca9e..dc9b745 100644
--- a/outputs/openapi/generate.go
+++ b/outputs/openapi/generate.go
@@ -184,9 +184,12 @@ func Generate(filePath string) astra.ServiceFunction {
 				s.Log.Debug().Str("endpointPath", endpoint.Path).Str("method", endpoint.Method).Str("return", returnType.Field.Name).Msg("Adding return type")
 				var mediaType MediaType
 				bindingType := astra.ContentTypeToBindingTag(returnType.ContentType)
-				schema, bound := mapFieldToSchema(s, bindingType, returnType.Field)
-				if bound {
-					mediaType.Schema = schema
+				for _, responseBinding := range nestedBindings(bindingType) {
+					schema, bound := mapFieldToSchema(s, responseBinding, returnType.Field)
+					if bound {
+						mediaType.Schema = schema
+						break
+					}
 				}
 
 				statusCode := strconv.Itoa(returnType.StatusCode)
@@ -199,7 +202,7 @@ func Generate(filePath string) astra.ServiceFunction {
 					}
 				}
 
-				if !reflect.DeepEqual(mediaType, MediaType{}) {
+				if returnType.ContentType != "" || !reflect.DeepEqual(mediaType, MediaType{}) {
 					operation.Responses[statusCode].Content[returnType.ContentType] = mediaType
 				}
 			}
diff --git a/outputs/openapi/schema.go b/outputs/openapi/schema.go
index 44f07b3..91df846 100644
--- a/outputs/openapi/schema.go
+++ b/outputs/openapi/schema.go
@@ -63,7 +63,7 @@ func mapFieldToSchema(service *astra.Service, bindingType astTraversal.BindingTa
 				Type: mapPredefinedTypeFormat(field.SliceType).Type,
 			}
 			if !astra.IsAcceptedType(field.SliceType) {
-				componentRef, bound := makeComponentRef(bindingType, field.SliceType, field.Package)
+				componentRef, bound := makeNestedComponentRef(bindingType, field.SliceType, field.Package)
 				if bound {
 					itemSchema = Schema{
 						Ref: componentRef,
@@ -74,7 +74,7 @@ func mapFieldToSchema(service *astra.Service, bindingType astTraversal.BindingTa
 		} else if field.Type == "map" {
 			var additionalProperties Schema
 			if !astra.IsAcceptedType(field.MapValueType) {
-				componentRef, bound := makeComponentRef(bindingType, field.MapValueType, field.Package)
+				componentRef, bound := makeNestedComponentRef(bindingType, field.MapValueType, field.Package)
 				if bound {
 					additionalProperties.Ref = componentRef
 				}
-- 
2.43.0


From eb637e3121317ef5a904579187f72a4e286bd945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:03 +0000
Subject: [PATCH 19/55] fix: only the last of several form fields is
 documented, and never as an array or map

---
 outputs/openapi/generate.go |  7 ++++++-
 outputs/openapi/schema.go   | 32 ++++++++++++++++++++++++++++++++
 2 files changed, 38 insertions(+), 1 deletion(-)

diff --git a/outputs/openapi/generate.go b/outputs/openapi/generate.go
index dc9b745..0a12d65 100644
--- a/outputs/openapi/generate.go
+++ b/outputs/openapi/generate.go
@@ -139,7 +139,7 @@ func Generate(filePath string) astra.ServiceFunction {
 			for _, bodyParam := range endpoint.Body {
 				s.Log.Debug().Str("endpointPath", endpoint.Path).Str("method", endpoint.Method).Str("param", bodyParam.Name).Msg("Adding body parameter")
 				bindingType := astra.ContentTypeToBindingTag(bodyParam.ContentType)
-				schema, bound := mapFieldToSchema(s, bindingType, bodyParam.Field)
+				schema, bound := mapBodyParamToSchema(s, bindingType, bodyParam)
 				if !bound {
 					continue
 				}
@@ -162,6 +162,11 @@ func Generate(filePath string) astra.ServiceFunction {
 					mediaType.Schema = schema
 				}
 
+				// Every field that is read from a form adds to the same body.
+				if previous, set := operation.RequestBody.Content[bodyParam.ContentType]; set && bindingType == astTraversal.FormBindingTag {
+					mediaType.Schema = mergeFormSchemas(previous.Schema, mediaType.Schema)
+				}
+
 				operation.RequestBody.Content[bodyParam.ContentType] = mediaType
 			}
 
diff --git a/outputs/openapi/schema.go b/outputs/openapi/schema.go
index 91df846..4981eae 100644
--- a/outputs/openapi/schema.go
+++ b/outputs/openapi/schema.go
@@ -1,6 +1,8 @@
 package openapi
 
 import (
+	"reflect"
+
 	"github.com/ls6-events/astra"
 	"github.com/ls6-events/astra/astTraversal"
 )
@@ -41,6 +43,36 @@ func mapParamToSchema(service *astra.Service, bindingType astTraversal.BindingTa
 	}
 }
 
+// mapBodyParamToSchema maps a body param, a field of a form can be an array or a map.
+func mapBodyParamToSchema(service *astra.Service, bindingType astTraversal.BindingTagType, bodyParam astra.BodyParam) (Schema, bool) {
+	return mapParamToSchema(service, bindingType, astra.Param{
+		Name:    bodyParam.Name,
+		Field:   bodyParam.Field,
+		IsBound: bodyParam.IsBound || (!bodyParam.IsArray && !bodyParam.IsMap),
+		IsArray: bodyParam.IsArray,
+		IsMap:   bodyParam.IsMap,
+	})
+}
+
+// mergeFormSchemas merges the schema of another form field into the schema of the form.
+func mergeFormSchemas(form, formField Schema) Schema {
+	if reflect.DeepEqual(form, formField) {
+		return form
+	}
+
+	if form.Properties == nil || formField.Properties == nil {
+		return Schema{
+			AllOf: []Schema{form, formField},
+		}
+	}
+
+	for name, property := range formField.Properties {
+		form.Properties[name] = property
+	}
+
+	return form
+}
+
 func mapFieldToSchema(service *astra.Service, bindingType astTraversal.BindingTagType, field astra.Field) (Schema, bool) {
 	// Slices, arrays, maps and structs without a name have no component, they are described in place.
 	if field.Elem != nil || field.StructFields != nil {
-- 
2.43.0


From 6af07d983480ad43e29031158fc74a5c9ac62055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:10 +0000
Subject: [PATCH 20/55] fix: bound headers have no name, Bind documents headers
 it does not read and bound queries lose embedded fields

---
 inputs/gin/parseFunction.go | 10 -------
 outputs/openapi/generate.go | 36 ++++++++++++++-----------
 outputs/openapi/schema.go   | 53 +++++++++++++++++++++++++++++++++++--
 3 files changed, 72 insertions(+), 27 deletions(-)

diff --git a/inputs/gin/parseFunction.go b/inputs/gin/parseFunction.go
index f190c7e..6fe8cc3 100644
--- a/inputs/gin/parseFunction.go
+++ b/inputs/gin/parseFunction.go
@@ -388,21 +388,11 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 
 						field := astra.ParseResultToField(result)
 
-						route.PathParams = append(route.PathParams, astra.Param{
-							IsBound: true,
-							Field:   field,
-						})
-
 						route.QueryParams = append(route.QueryParams, astra.Param{
 							IsBound: true,
 							Field:   field,
 						})
 
-						route.RequestHeaders = append(route.RequestHeaders, astra.Param{
-							IsBound: true,
-							Field:   field,
-						})
-
 						for _, bodyBindingTag := range []astTraversal.BindingTagType{astTraversal.FormBindingTag, astTraversal.JSONBindingTag, astTraversal.XMLBindingTag, astTraversal.YAMLBindingTag} {
 							contentTypes := astra.BindingTagToContentTypes(bodyBindingTag)
 
diff --git a/outputs/openapi/generate.go b/outputs/openapi/generate.go
index 0a12d65..92b08c7 100644
--- a/outputs/openapi/generate.go
+++ b/outputs/openapi/generate.go
@@ -72,6 +72,21 @@ func Generate(filePath string) astra.ServiceFunction {
 
 			for _, requestHeader := range endpoint.RequestHeaders {
 				s.Log.Debug().Str("endpointPath", endpoint.Path).Str("method", endpoint.Method).Str("param", requestHeader.Name).Msg("Adding request header")
+
+				// OpenAPI spec requires the use of a name, so bound parameters must be spread
+				if requestHeader.IsBound {
+					for propertyName, propertySchema := range boundParamToSchemas(s, astTraversal.HeaderBindingTag, requestHeader.Field) {
+						operation.Parameters = append(operation.Parameters, Parameter{
+							Name:     propertyName,
+							In:       "header",
+							Required: requestHeader.IsRequired,
+							Schema:   propertySchema,
+						})
+					}
+
+					continue
+				}
+
 				schema, bound := mapParamToSchema(s, astTraversal.HeaderBindingTag, requestHeader)
 				if !bound {
 					continue
@@ -89,24 +104,10 @@ func Generate(filePath string) astra.ServiceFunction {
 
 			for _, queryParam := range endpoint.QueryParams {
 				s.Log.Debug().Str("endpointPath", endpoint.Path).Str("method", endpoint.Method).Str("param", queryParam.Name).Msg("Adding query parameter")
-				schema, bound := mapParamToSchema(s, astTraversal.FormBindingTag, queryParam)
-				if !bound {
-					continue
-				}
 
 				// OpenAPI spec requires the use of a name, so bound parameters must be spread
 				if queryParam.IsBound {
-					field, found := findComponentByPackageAndType(s.Components, queryParam.Field.Package, queryParam.Field.Type)
-					if !found {
-						continue
-					}
-
-					component, bound := componentToSchema(s, field, astTraversal.FormBindingTag)
-					if !bound {
-						continue
-					}
-
-					for propertyName, propertySchema := range component.Properties {
+					for propertyName, propertySchema := range boundParamToSchemas(s, astTraversal.FormBindingTag, queryParam.Field) {
 						style, explode := getQueryParamStyle(propertySchema)
 
 						parameter := Parameter{
@@ -121,6 +122,11 @@ func Generate(filePath string) astra.ServiceFunction {
 						operation.Parameters = append(operation.Parameters, parameter)
 					}
 				} else {
+					schema, bound := mapParamToSchema(s, astTraversal.FormBindingTag, queryParam)
+					if !bound {
+						continue
+					}
+
 					style, explode := getQueryParamStyle(schema)
 
 					parameter := Parameter{
diff --git a/outputs/openapi/schema.go b/outputs/openapi/schema.go
index 4981eae..b8892d0 100644
--- a/outputs/openapi/schema.go
+++ b/outputs/openapi/schema.go
@@ -2,6 +2,7 @@ package openapi
 
 import (
 	"reflect"
+	"slices"
 
 	"github.com/ls6-events/astra"
 	"github.com/ls6-events/astra/astTraversal"
@@ -56,8 +57,10 @@ func mapBodyParamToSchema(service *astra.Service, bindingType astTraversal.Bindi
 
 // mergeFormSchemas merges the schema of another form field into the schema of the form.
 func mergeFormSchemas(form, formField Schema) Schema {
-	if reflect.DeepEqual(form, formField) {
-		return form
+	for _, part := range append([]Schema{form}, form.AllOf...) {
+		if reflect.DeepEqual(part, formField) {
+			return form
+		}
 	}
 
 	if form.Properties == nil || formField.Properties == nil {
@@ -163,6 +166,52 @@ func getQueryParamStyle(schema Schema) (style string, explode bool) {
 	return "form", false
 }
 
+// boundParamToSchemas maps a bound param to the schemas of the params the binding type gives it, by their name.
+func boundParamToSchemas(service *astra.Service, bindingType astTraversal.BindingTagType, field astra.Field, parents ...astra.Processable) map[string]Schema {
+	if field.StructFields == nil {
+		// A struct can be embedded in itself by a pointer.
+		processable := astra.Processable{Name: field.Type, Pkg: field.Package}
+		if slices.Contains(parents, processable) {
+			return nil
+		}
+		parents = append(slices.Clone(parents), processable)
+
+		component, found := findComponentByPackageAndType(service.Components, field.Package, field.Type)
+		if !found {
+			return nil
+		}
+		field = component
+	}
+
+	if _, mapped := service.GetTypeMapping(field.Name, field.Package); mapped {
+		return nil
+	}
+
+	if field.Type != "struct" || !slices.Contains(componentBindings(field), bindingType) {
+		return nil
+	}
+
+	schemas := make(map[string]Schema)
+	for _, structField := range field.StructFields {
+		// The fields of embedded structs are params as any other, unless the struct has a field of that name itself.
+		if structField.IsEmbedded {
+			for name, schema := range boundParamToSchemas(service, bindingType, structField, parents...) {
+				if _, set := schemas[name]; !set {
+					schemas[name] = schema
+				}
+			}
+		}
+	}
+	for fieldName, structField := range field.StructFields {
+		binding := fieldBinding(fieldName, structField, bindingType)
+		if !structField.IsEmbedded && !binding.NotShown {
+			schemas[binding.Name] = nestedToSchema(service, structField, bindingType)
+		}
+	}
+
+	return schemas
+}
+
 // findComponentByPackageAndType finds the schema by the package and type.
 func findComponentByPackageAndType(fields []astra.Field, pkg string, typeName string) (astra.Field, bool) {
 	for _, field := range fields {
-- 
2.43.0


From ae450b11f7d799cbe078de6a3ca84784afdb4070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:06 +0000
Subject: [PATCH 21/55] fix: parameters are repeated and, like embedded
 structs, in a random order

---
 outputs/openapi/components.go |  6 ++++++
 outputs/openapi/generate.go   | 11 ++++++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/outputs/openapi/components.go b/outputs/openapi/components.go
index be92b67..b5572b4 100644
--- a/outputs/openapi/components.go
+++ b/outputs/openapi/components.go
@@ -2,6 +2,7 @@ package openapi
 
 import (
 	"slices"
+	"sort"
 	"strings"
 
 	"github.com/ls6-events/astra"
@@ -301,6 +302,11 @@ func componentToSchema(service *astra.Service, component astra.Field, bindingTyp
 			}
 		}
 
+		// The fields have no order.
+		sort.Slice(embeddedProperties, func(i, j int) bool {
+			return embeddedProperties[i].Ref < embeddedProperties[j].Ref
+		})
+
 		if len(embeddedProperties) > 0 {
 			if len(schema.Properties) == 0 {
 				schema.AllOf = embeddedProperties
diff --git a/outputs/openapi/generate.go b/outputs/openapi/generate.go
index 92b08c7..5d5de4a 100644
--- a/outputs/openapi/generate.go
+++ b/outputs/openapi/generate.go
@@ -7,6 +7,7 @@ import (
 	"os"
 	"path"
 	"reflect"
+	"slices"
 	"sort"
 	"strconv"
 	"strings"
@@ -227,10 +228,18 @@ func Generate(filePath string) astra.ServiceFunction {
 			}
 
 			// Sort parameters by name
-			sort.Slice(operation.Parameters, func(i, j int) bool {
+			sort.SliceStable(operation.Parameters, func(i, j int) bool {
+				if operation.Parameters[i].Name == operation.Parameters[j].Name {
+					return operation.Parameters[i].In < operation.Parameters[j].In
+				}
 				return operation.Parameters[i].Name < operation.Parameters[j].Name
 			})
 
+			// A parameter that is read several times is still one parameter
+			operation.Parameters = slices.CompactFunc(operation.Parameters, func(a, b Parameter) bool {
+				return a.Name == b.Name && a.In == b.In
+			})
+
 			var endpointPath Path
 			if _, ok := paths[endpoint.Path]; !ok {
 				endpointPath = Path{}
-- 
2.43.0


From 47b03849167846764632c9773277770938f3bc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:07 +0000
Subject: [PATCH 22/55] fix: TRACE routes are missing from the OpenAPI paths

---
 outputs/openapi/generate.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/outputs/openapi/generate.go b/outputs/openapi/generate.go
index 5d5de4a..3213ee2 100644
--- a/outputs/openapi/generate.go
+++ b/outputs/openapi/generate.go
@@ -261,6 +261,8 @@ func Generate(filePath string) astra.ServiceFunction {
 				endpointPath.Head = &operation
 			case http.MethodOptions:
 				endpointPath.Options = &operation
+			case http.MethodTrace:
+				endpointPath.Trace = &operation
 			}
 
 			paths[endpoint.Path] = endpointPath
-- 
2.43.0


From d5c31b572cecfca9f21b4ec2dac4149d94bfcb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:34 +0000
Subject: [PATCH 23/55] fix: values of constant expressions, raw or escaped
 strings and variables assigned together are misread

---
 astTraversal/declaration.go |  10 +++
 astTraversal/expression.go  | 130 +++++++++++++++++++++---------------
 astTraversal/packageNode.go |  39 +++++++++++
 3 files changed, 125 insertions(+), 54 deletions(-)

diff --git a/astTraversal/declaration.go b/astTraversal/declaration.go
index 17aefa3..c1cbc95 100644
--- a/astTraversal/declaration.go
+++ b/astTraversal/declaration.go
@@ -31,6 +31,11 @@ func (d *DeclarationTraverser) Value() (ast.Node, error) {
 			}
 		}
 
+		// One value can be assigned to several names.
+		if len(n.Values) != len(n.Names) {
+			return nil, ErrInvalidIndex
+		}
+
 		return n.Values[index], nil
 	case *ast.AssignStmt:
 		var index int
@@ -41,6 +46,11 @@ func (d *DeclarationTraverser) Value() (ast.Node, error) {
 			}
 		}
 
+		// One value can be assigned to several names.
+		if len(n.Rhs) != len(n.Lhs) {
+			return nil, ErrInvalidIndex
+		}
+
 		return n.Rhs[index], nil
 	default:
 		return nil, ErrInvalidNodeType
diff --git a/astTraversal/expression.go b/astTraversal/expression.go
index 52790b4..54ed1ac 100644
--- a/astTraversal/expression.go
+++ b/astTraversal/expression.go
@@ -3,9 +3,10 @@ package astTraversal
 import (
 	"errors"
 	"go/ast"
+	"go/constant"
 	"go/token"
 	"go/types"
-	"strings"
+	"strconv"
 )
 
 type ExpressionTraverser struct {
@@ -46,90 +47,111 @@ func (e *ExpressionTraverser) BuiltInFunctions(callExpr *ast.CallExpr) (types.Ty
 }
 
 func (e *ExpressionTraverser) Value() (string, error) {
+	// The type checker knows the value of every constant expression.
+	if e.File != nil && e.File.Package != nil && e.File.Package.Package != nil {
+		if value, ok := constantValue(e.File.Package.Package.TypesInfo.Types[e.Node].Value); ok {
+			return value, nil
+		}
+	}
+
 	switch n := e.Node.(type) {
 	case *ast.BasicLit:
 		value := n.Value
 		if n.Kind == token.STRING {
-			value = strings.Trim(value, "\"")
+			return strconv.Unquote(value)
 		}
 
 		return value, nil
+	case *ast.ParenExpr:
+		return e.inFile(n.X, e.File).Value()
 	case *ast.Ident:
-		obj, err := e.File.Package.FindObjectForIdent(n)
-		if err != nil {
-			return "", err
-		}
-
-		if constant, ok := obj.(*types.Const); ok {
-			return constant.Val().String(), nil
-		}
+		return e.objectValue(n)
+	case *ast.SelectorExpr:
+		return e.objectValue(n.Sel)
+	}
 
-		node, err := e.File.Package.ASTAtPos(obj.Pos())
-		if err != nil {
-			return "", err
-		}
+	return "", errors.New("value not retrievable")
+}
 
-		declaration, err := e.Traverser.Declaration(node, n.Name)
-		if err != nil {
-			return "", err
-		}
+// inFile returns the traverser of an expression that is found in a file, which may not be the active one.
+func (e *ExpressionTraverser) inFile(node ast.Expr, file *FileNode) *ExpressionTraverser {
+	expression := e.Traverser.Expression(node)
+	expression.File = file
+	return expression
+}
 
-		astNode, err := declaration.Value()
-		if err != nil {
-			return "", err
-		}
+// objectValue returns the value of the constant, or the value that the variable is declared with, that an identifier refers to.
+func (e *ExpressionTraverser) objectValue(ident *ast.Ident) (string, error) {
+	obj, err := e.File.Package.FindObjectForIdent(ident)
+	if err != nil {
+		return "", err
+	}
 
-		exprNode, ok := astNode.(ast.Expr)
-		if !ok {
-			return "", errors.New("astNode is not of type ast.Expr")
+	if constant, ok := obj.(*types.Const); ok {
+		if value, ok := constantValue(constant.Val()); ok {
+			return value, nil
 		}
+	}
 
-		return e.Traverser.Expression(exprNode).Value()
-	case *ast.SelectorExpr:
-		obj, err := e.File.Package.FindObjectForIdent(n.Sel)
-		if err != nil {
-			return "", err
-		}
+	if _, ok := obj.(*types.Var); !ok || obj.Pkg() == nil {
+		return "", errors.New("value not retrievable")
+	}
 
-		pkg := e.Traverser.Packages.FindOrAdd(obj.Pkg().Path())
+	pkg := e.File.Package
+	if obj.Pkg() != pkg.Package.Types {
+		pkg = e.Traverser.Packages.FindOrAdd(obj.Pkg().Path())
 		_, err = e.Traverser.Packages.Get(pkg)
 		if err != nil {
 			return "", err
 		}
 
-		obj, err = pkg.FindObjectForIdentFuzzy(n.Sel)
+		obj, err = pkg.FindObjectForName(ident.Name)
 		if err != nil {
 			return "", err
 		}
+	}
 
-		if constant, ok := obj.(*types.Const); ok {
-			return constant.Val().String(), nil
-		}
+	node, file, err := pkg.DeclarationAtPos(obj.Pos())
+	if err != nil {
+		return "", err
+	}
 
-		node, err := pkg.ASTAtPos(obj.Pos())
-		if err != nil {
-			return "", err
-		}
+	declaration, err := e.Traverser.Declaration(node, ident.Name)
+	if err != nil {
+		return "", err
+	}
 
-		declaration, err := e.Traverser.Declaration(node, n.Sel.Name)
-		if err != nil {
-			return "", err
-		}
+	astNode, err := declaration.Value()
+	if err != nil {
+		return "", err
+	}
 
-		astNode, err := declaration.Value()
-		if err != nil {
-			return "", err
-		}
+	exprNode, ok := astNode.(ast.Expr)
+	if !ok {
+		return "", errors.New("astNode is not of type ast.Expr")
+	}
 
-		exprNode, ok := astNode.(ast.Expr)
-		if !ok {
-			return "", errors.New("astNode is not of type ast.Expr")
-		}
+	return e.inFile(exprNode, file).Value()
+}
 
-		return e.Traverser.Expression(exprNode).Value()
+// constantValue returns a constant as a string, a string itself is not quoted.
+func constantValue(value constant.Value) (string, bool) {
+	if value == nil {
+		return "", false
 	}
 
-	return "", errors.New("value not retrievable")
+	switch value.Kind() {
+	case constant.Unknown:
+		return "", false
+	case constant.String:
+		return constant.StringVal(value), true
+	case constant.Float, constant.Complex:
+		if integer := constant.ToInt(value); integer.Kind() == constant.Int {
+			value = integer
+		}
+	}
+
+	return value.ExactString(), true
 }
 
 func (e *ExpressionTraverser) Type() (types.Type, error) {
diff --git a/astTraversal/packageNode.go b/astTraversal/packageNode.go
index 1266453..ba53ba3 100644
--- a/astTraversal/packageNode.go
+++ b/astTraversal/packageNode.go
@@ -198,6 +198,45 @@ func (p *PackageNode) ASTAtPos(pos token.Pos) (ast.Node, error) {
 	return nil, fmt.Errorf("node at %s not found in package %s", node, p.Path())
 }
 
+// DeclarationAtPos finds the declaration or assignment that declares the name at the position, and its file.
+func (p *PackageNode) DeclarationAtPos(pos token.Pos) (ast.Node, *FileNode, error) {
+	if p.Package == nil {
+		return nil, nil, fmt.Errorf("package %s not populated", p.Path())
+	}
+
+	for _, file := range p.Files {
+		if file.AST == nil || pos < file.AST.FileStart || pos > file.AST.FileEnd {
+			continue
+		}
+
+		var result ast.Node
+		ast.Inspect(file.AST, func(n ast.Node) bool {
+			switch node := n.(type) {
+			case *ast.ValueSpec:
+				for _, name := range node.Names {
+					if name.Pos() == pos {
+						result = node
+					}
+				}
+			case *ast.AssignStmt:
+				for _, name := range node.Lhs {
+					if name.Pos() == pos {
+						result = node
+					}
+				}
+			}
+
+			return result == nil
+		})
+
+		if result != nil {
+			return result, file, nil
+		}
+	}
+
+	return nil, nil, fmt.Errorf("declaration at %s not found in package %s", p.Package.Fset.Position(pos), p.Path())
+}
+
 // FindDocForType finds the documentation for a type in the package.
 func (p *PackageNode) FindDocForType(typeName string) (string, bool) {
 	p.populateTypeDocMap()
-- 
2.43.0


From c886eac1b59d6df3982b73a39377c77ae4cc56b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:01 +0000
Subject: [PATCH 24/55] fix: the type of an expression is unknown unless it is
 of one of a few forms

---
 astTraversal/expression.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/astTraversal/expression.go b/astTraversal/expression.go
index 54ed1ac..2b9c0e8 100644
--- a/astTraversal/expression.go
+++ b/astTraversal/expression.go
@@ -155,6 +155,14 @@ func constantValue(value constant.Value) (string, bool) {
 }
 
 func (e *ExpressionTraverser) Type() (types.Type, error) {
+	// The type checker knows the type of every expression, except for which of several returned values is needed.
+	if e.ReturnNum == 0 && e.File != nil && e.File.Package != nil {
+		exprType, err := e.File.Package.FindTypeForExpr(e.Node)
+		if _, isTuple := exprType.(*types.Tuple); err == nil && !isTuple {
+			return exprType, nil
+		}
+	}
+
 	switch n := e.Node.(type) {
 	case *ast.StarExpr:
 		return e.Traverser.Expression(n.X).Type()
-- 
2.43.0


From 36a9f092053e4a55dca9babaa4ecddb68035dc2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:15 +0000
Subject: [PATCH 25/55] fix: helpers of packages with another name, dot
 imported, generic or in parentheses are not followed

---
 astTraversal/traverser.go | 53 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 53 insertions(+)

diff --git a/astTraversal/traverser.go b/astTraversal/traverser.go
index d8fb9a9..e4f1a77 100644
--- a/astTraversal/traverser.go
+++ b/astTraversal/traverser.go
@@ -85,9 +85,31 @@ func (t *BaseTraverser) ExtractVarName(node ast.Node) Result {
 }
 
 func (t *BaseTraverser) FindDeclarationForNode(node ast.Node) (*DeclarationTraverser, error) {
+	// Whatever the package is called in this file, the type checker knows the function.
+	if function, ok := t.findFunction(node); ok {
+		pkg := t.ActiveFile().Package
+		if pkg.Package.Types != function.Pkg() {
+			pkg = t.Packages.FindOrAdd(function.Pkg().Path())
+			_, err := t.Packages.Get(pkg)
+			if err != nil {
+				return nil, err
+			}
+		}
+
+		newNode, file, err := pkg.FindASTForType(function.Name())
+		if err != nil {
+			return nil, err
+		}
+		t.activeFile = file
+
+		return t.Declaration(newNode, function.Name())
+	}
+
 	switch nodeType := node.(type) {
 	case *ast.UnaryExpr:
 		return t.FindDeclarationForNode(nodeType.X)
+	case *ast.ParenExpr:
+		return t.FindDeclarationForNode(nodeType.X)
 	case *ast.Ident:
 		if nodeType.Obj != nil { // Defined in file.
 			declNode, ok := nodeType.Obj.Decl.(ast.Node)
@@ -137,6 +159,37 @@ func (t *BaseTraverser) FindDeclarationForNode(node ast.Node) (*DeclarationTrave
 	return nil, errors.New("unsupported type")
 }
 
+// findFunction finds the function, that is not a method, that a node refers to.
+func (t *BaseTraverser) findFunction(node ast.Node) (*types.Func, bool) {
+	var ident *ast.Ident
+	switch nodeType := node.(type) {
+	case *ast.Ident:
+		ident = nodeType
+	case *ast.SelectorExpr:
+		ident = nodeType.Sel
+	case *ast.ParenExpr:
+		return t.findFunction(nodeType.X)
+	case *ast.IndexExpr: // A generic function with its type argument.
+		return t.findFunction(nodeType.X)
+	case *ast.IndexListExpr:
+		return t.findFunction(nodeType.X)
+	default:
+		return nil, false
+	}
+
+	obj, err := t.ActiveFile().Package.FindUsesForIdent(ident)
+	if err != nil {
+		return nil, false
+	}
+
+	function, ok := obj.(*types.Func)
+	if !ok || function.Pkg() == nil || function.Parent() != function.Pkg().Scope() {
+		return nil, false
+	}
+
+	return function, true
+}
+
 // enterComponent returns whether the component of the named type is still to be added.
 func (t *BaseTraverser) enterComponent(n *types.Named) bool {
 	if _, ok := t.components[n.String()]; ok {
-- 
2.43.0


From f684a17bc4ef4930664678cb49ed379b08bcba12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:43 +0000
Subject: [PATCH 26/55] fix: error is only substituted as a component, which it
 never is, and time.Duration keeps its constants as an enum

---
 substituteTypes.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/substituteTypes.go b/substituteTypes.go
index 7fb7219..0cc9a36 100644
--- a/substituteTypes.go
+++ b/substituteTypes.go
@@ -13,6 +13,9 @@ func (s *Service) HandleSubstituteTypes(component *Field) {
 	qualifiedName := component.Name
 	if component.Package != "" {
 		qualifiedName = fmt.Sprintf("%s.%s", component.Package, component.Name)
+	} else if component.Name == "" {
+		// A type of no package is no component, it is only ever used by its type.
+		qualifiedName = component.Type
 	}
 
 	if _, ok := substituteTypes[qualifiedName]; ok {
@@ -23,5 +26,6 @@ func (s *Service) HandleSubstituteTypes(component *Field) {
 		component.StructFields = nil
 		component.SliceType = ""
 		component.MapValueType = ""
+		component.EnumValues = nil
 	}
 }
-- 
2.43.0


From 577e29b1debeb5e3b00c57e10a76a9ee899df01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:09 +0000
Subject: [PATCH 27/55] fix: headers bound to types of the main package are not
 cleaned

---
 clean.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/clean.go b/clean.go
index 49d7716..b2602bc 100644
--- a/clean.go
+++ b/clean.go
@@ -26,6 +26,12 @@ func (s *Service) Clean() error {
 		for j := 0; j < len(s.Routes[i].QueryParams); j++ {
 			s.Routes[i].QueryParams[j].Field = s.cleanField(s.Routes[i].QueryParams[j].Field, mainPkg)
 		}
+		for j := 0; j < len(s.Routes[i].RequestHeaders); j++ {
+			s.Routes[i].RequestHeaders[j].Field = s.cleanField(s.Routes[i].RequestHeaders[j].Field, mainPkg)
+		}
+		for j := 0; j < len(s.Routes[i].ResponseHeaders); j++ {
+			s.Routes[i].ResponseHeaders[j].Field = s.cleanField(s.Routes[i].ResponseHeaders[j].Field, mainPkg)
+		}
 		for j := 0; j < len(s.Routes[i].Body); j++ {
 			s.Routes[i].Body[j].Field = s.cleanField(s.Routes[i].Body[j].Field, mainPkg)
 		}
-- 
2.43.0


From f6d4dd2635bd156b97bf68c976f1b69a73e51b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:38 +0000
Subject: [PATCH 28/55] fix: struct tag options are misread ("-,", omitempty
 after another option, rules that contain required)

---
 astTraversal/tags.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/astTraversal/tags.go b/astTraversal/tags.go
index 4be5a0f..11c678f 100644
--- a/astTraversal/tags.go
+++ b/astTraversal/tags.go
@@ -2,6 +2,7 @@ package astTraversal
 
 import (
 	"reflect"
+	"slices"
 	"strings"
 )
 
@@ -56,17 +57,13 @@ func ParseStructTag(field string, tag string) (BindingTagMap, ValidationTagMap)
 		tagItems := strings.Split(tagValue, ",")
 		if tagItems[0] == "" {
 			newBindingTag.Name = field
-		} else if tagItems[0] != "-" {
+		} else if tagValue != "-" { // The tag "-," names a field "-"
 			newBindingTag.Name = tagItems[0]
 		} else {
 			newBindingTag.NotShown = true
 		}
 
-		if len(tagItems) > 1 && tagItems[1] == "omitempty" {
-			newBindingTag.ReturnOptional = true
-		} else {
-			newBindingTag.ReturnOptional = false
-		}
+		newBindingTag.ReturnOptional = slices.Contains(tagItems[1:], "omitempty")
 
 		bindingTags[bindingTag] = newBindingTag
 	}
@@ -82,7 +79,7 @@ func ParseStructTag(field string, tag string) (BindingTagMap, ValidationTagMap)
 		}
 
 		validationTags[validationTag] = ValidationTag{
-			IsRequired: strings.Contains(tagValue, "required"),
+			IsRequired: slices.Contains(strings.Split(tagValue, ","), "required"),
 		}
 	}
 
-- 
2.43.0


From 2e7e3c91d105db039811a9d31fff1752331f1b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:26 +0000
Subject: [PATCH 29/55] fix: embedded types that are unexported, hidden, named
 or no structs are not encoded as promoted fields

---
 astTraversal/type.go          | 18 +++++++++++++++---
 outputs/openapi/components.go |  9 ++++++++-
 outputs/openapi/schema.go     |  6 +++---
 3 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/astTraversal/type.go b/astTraversal/type.go
index 3284585..891a854 100644
--- a/astTraversal/type.go
+++ b/astTraversal/type.go
@@ -159,13 +159,15 @@ func (t *TypeTraverser) Result() (Result, error) {
 		fields := make(map[string]Result)
 		for i := 0; i < n.NumFields(); i++ {
 			f := n.Field(i)
-			name := f.Id()
+			name := f.Name()
 			isExported := f.Exported()
-			isEmbedded := f.Embedded()
+			// Only structs have fields to promote, any other embedded type is a field with the name of the type
+			isEmbedded := f.Embedded() && isStruct(f.Type())
 
 			var bindingTag BindingTagMap
 			var validationTags ValidationTagMap
-			if isExported {
+			// The fields of an embedded struct are promoted even if the struct itself is not exported
+			if isExported || isEmbedded {
 				bindingTag, validationTags = ParseStructTag(name, n.Tag(i))
 			} else {
 				continue
@@ -226,6 +228,16 @@ func (t *TypeTraverser) Result() (Result, error) {
 	}
 }
 
+// isStruct returns whether the type is a struct or a pointer to a struct.
+func isStruct(node types.Type) bool {
+	if pointer, ok := Unalias(node).(*types.Pointer); ok {
+		node = pointer.Elem()
+	}
+
+	_, ok := Unalias(node).Underlying().(*types.Struct)
+	return ok
+}
+
 // literalValue returns the value of a literal (with or without a sign) that is a constant of the basic type.
 func literalValue(info *types.Info, expr ast.Expr, basic *types.Basic) (any, bool) {
 	literal := expr
diff --git a/outputs/openapi/components.go b/outputs/openapi/components.go
index b5572b4..a371eae 100644
--- a/outputs/openapi/components.go
+++ b/outputs/openapi/components.go
@@ -158,6 +158,13 @@ func fieldBinding(fieldName string, field astra.Field, bindingType astTraversal.
 	return astTraversal.BindingTag{Name: fieldName}
 }
 
+// isPromoted returns whether the fields of an embedded struct are promoted for a binding type.
+// They are not if the binding tag hides the struct, or gives it a name.
+func isPromoted(fieldName string, field astra.Field, bindingType astTraversal.BindingTagType) bool {
+	binding := fieldBinding(fieldName, field, bindingType)
+	return field.IsEmbedded && !binding.NotShown && binding.Name == fieldName
+}
+
 // findUniqueComponents finds the components that have a different representation for different binding types.
 // These are the structs with different binding tags, and everything that refers to them.
 func findUniqueComponents(components []astra.Field) map[string]bool {
@@ -285,7 +292,7 @@ func componentToSchema(service *astra.Service, component astra.Field, bindingTyp
 		for fieldName, field := range component.StructFields {
 			// We should aim to use doc comments in the future.
 			// However https://github.com/OAI/OpenAPI-Specification/issues/1514.
-			if field.IsEmbedded {
+			if isPromoted(fieldName, field, bindingType) {
 				componentRef, componentBound := makeNestedComponentRef(bindingType, field.Type, field.Package)
 				if componentBound {
 					embeddedProperties = append(embeddedProperties, Schema{
diff --git a/outputs/openapi/schema.go b/outputs/openapi/schema.go
index b8892d0..7b662a7 100644
--- a/outputs/openapi/schema.go
+++ b/outputs/openapi/schema.go
@@ -192,9 +192,9 @@ func boundParamToSchemas(service *astra.Service, bindingType astTraversal.Bindin
 	}
 
 	schemas := make(map[string]Schema)
-	for _, structField := range field.StructFields {
+	for fieldName, structField := range field.StructFields {
 		// The fields of embedded structs are params as any other, unless the struct has a field of that name itself.
-		if structField.IsEmbedded {
+		if isPromoted(fieldName, structField, bindingType) {
 			for name, schema := range boundParamToSchemas(service, bindingType, structField, parents...) {
 				if _, set := schemas[name]; !set {
 					schemas[name] = schema
@@ -204,7 +204,7 @@ func boundParamToSchemas(service *astra.Service, bindingType astTraversal.Bindin
 	}
 	for fieldName, structField := range field.StructFields {
 		binding := fieldBinding(fieldName, structField, bindingType)
-		if !structField.IsEmbedded && !binding.NotShown {
+		if !isPromoted(fieldName, structField, bindingType) && !binding.NotShown {
 			schemas[binding.Name] = nestedToSchema(service, structField, bindingType)
 		}
 	}
-- 
2.43.0


From dc4bd975058b11ce49aa0c1eaf18183b9bba700c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:15 +0000
Subject: [PATCH 30/55] fix: a YAML cache cannot be written, functions and the
 logger are no part of it

---
 input.go   | 6 +++---
 output.go  | 6 +++---
 service.go | 8 ++++----
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/input.go b/input.go
index d74e0e1..08a5039 100644
--- a/input.go
+++ b/input.go
@@ -2,9 +2,9 @@ package astra
 
 // Input is the input for the generator.
 type Input struct {
-	Mode         InputMode       `json:"mode"`
-	CreateRoutes ServiceFunction `json:"-"`
-	ParseRoutes  ServiceFunction `json:"-"`
+	Mode         InputMode       `json:"mode" yaml:"mode"`
+	CreateRoutes ServiceFunction `json:"-" yaml:"-"`
+	ParseRoutes  ServiceFunction `json:"-" yaml:"-"`
 }
 
 type InputMode string
diff --git a/output.go b/output.go
index 8f08481..e0c3e09 100644
--- a/output.go
+++ b/output.go
@@ -3,9 +3,9 @@ package astra
 // Output is the output for the generator
 // It takes in a configuration object to allow the caching mechanism to store the file paths for the outputs.
 type Output struct {
-	Mode          OutputMode      `json:"mode"`
-	Generate      ServiceFunction `json:"-"`
-	Configuration IOConfiguration `json:"configuration"`
+	Mode          OutputMode      `json:"mode" yaml:"mode"`
+	Generate      ServiceFunction `json:"-" yaml:"-"`
+	Configuration IOConfiguration `json:"configuration" yaml:"configuration"`
 }
 
 type OutputMode string
diff --git a/service.go b/service.go
index e6431cc..436ad55 100644
--- a/service.go
+++ b/service.go
@@ -21,7 +21,7 @@ type Service struct {
 	Inputs  []Input  `json:"inputs" yaml:"inputs"`
 	Outputs []Output `json:"outputs" yaml:"outputs"`
 
-	Log zerolog.Logger `json:"-"`
+	Log zerolog.Logger `json:"-" yaml:"-"`
 
 	Config *Config `json:"config" yaml:"config"`
 
@@ -32,9 +32,9 @@ type Service struct {
 	tempMainPackageName string
 	WorkDir             string `json:"-" yaml:"-"`
 
-	CacheEnabled bool    `json:"-"`
-	CachePath    string  `json:"-"`
-	CLIMode      CLIMode `json:"-"`
+	CacheEnabled bool    `json:"-" yaml:"-"`
+	CachePath    string  `json:"-" yaml:"-"`
+	CLIMode      CLIMode `json:"-" yaml:"-"`
 
 	PathDenyList []func(string) bool `json:"-" yaml:"-"`
 
-- 
2.43.0


From d730e41ac1233a92530346e47ca0dc3d4fc5334b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:40 +0000
Subject: [PATCH 31/55] fix: custom type mappings are not restored from the
 cache

---
 cache.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cache.go b/cache.go
index c6865bc..8190b30 100644
--- a/cache.go
+++ b/cache.go
@@ -109,6 +109,10 @@ func (s *Service) LoadCacheFromCustomPath(cachePath string) error {
 	s.Config = service.Config
 	s.Routes = service.Routes
 	s.Components = service.Components
+	if service.CustomTypeMapping != nil {
+		s.CustomTypeMapping = service.CustomTypeMapping
+		s.fullTypeMapping = nil
+	}
 	return nil
 }
 
-- 
2.43.0


From 7f39e3ba8b2afe56a51cfaa7b59e254582a3027f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:40 +0000
Subject: [PATCH 32/55] fix: the CLI refuses every Azure Functions output

---
 cli/astra/cmd/rebind.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/astra/cmd/rebind.go b/cli/astra/cmd/rebind.go
index ec4d33a..d549c60 100644
--- a/cli/astra/cmd/rebind.go
+++ b/cli/astra/cmd/rebind.go
@@ -50,7 +50,7 @@ func rebindOutputs(s *astra.Service) error {
 		switch output.Mode {
 		case outputs.OutputModeAzureFunctions:
 			directoryPath, ok := output.Configuration[astra.IOConfigurationKeyDirectoryPath].(string)
-			if ok || directoryPath == "" {
+			if !ok || directoryPath == "" {
 				return astra.ErrOutputDirectoryPathRequired
 			}
 			outputs.WithAzureFunctionsOutput(directoryPath)(s)
-- 
2.43.0


From 975c897df78ae5c80ccfb2c23664862f41fb0625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:06 +0000
Subject: [PATCH 33/55] fix: Azure Functions routes replace parameters inside
 of others whose name they start

---
 outputs/azureFunctions/convertRoute.go | 28 +++++++++++++-------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/outputs/azureFunctions/convertRoute.go b/outputs/azureFunctions/convertRoute.go
index c34d171..9d0bfa4 100644
--- a/outputs/azureFunctions/convertRoute.go
+++ b/outputs/azureFunctions/convertRoute.go
@@ -1,9 +1,8 @@
 package azureFunctions
 
 import (
-	"strings"
-
 	"github.com/ls6-events/astra"
+	"github.com/ls6-events/astra/utils"
 )
 
 // Adapted from https://learn.microsoft.com/en-us/aspnet/web-api/overview/web-api-routing-and-actions/attribute-routing-in-web-api-2#route-constraints
@@ -26,21 +25,22 @@ var acceptedTypeMap = map[string]string{
 }
 
 func convertRoute(route astra.Route) string {
-	routeString := route.Path
-
-	for _, pathParams := range route.PathParams {
-		if azureType, ok := acceptedTypeMap[pathParams.Field.Type]; ok {
-			if azureType == "" {
-				return ""
+	return utils.MapPathParams(route.Path, func(param string) string {
+		isRequired := param[0] == ':'
+		for _, pathParam := range route.PathParams {
+			if pathParam.Name != param[1:] || pathParam.IsRequired != isRequired {
+				continue
 			}
 
-			if pathParams.IsRequired {
-				routeString = strings.Replace(routeString, ":"+pathParams.Name, "{"+pathParams.Name+":"+azureType+"}", 1)
-			} else {
-				routeString = strings.Replace(routeString, "*"+pathParams.Name, "{"+pathParams.Name+":"+azureType+"?}", 1)
+			if azureType, ok := acceptedTypeMap[pathParam.Field.Type]; ok {
+				if isRequired {
+					return "{" + pathParam.Name + ":" + azureType + "}"
+				}
+
+				return "{" + pathParam.Name + ":" + azureType + "?}"
 			}
 		}
-	}
 
-	return routeString
+		return param
+	})
 }
-- 
2.43.0


From 8c25693f275cecf093e6ddc5c02c4bda86bb3f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:58 +0000
Subject: [PATCH 34/55] fix: Azure Functions output fails on what an earlier
 run left, and can delete the whole project

---
 dir.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/dir.go b/dir.go
index 3f5870f..8470cde 100644
--- a/dir.go
+++ b/dir.go
@@ -5,6 +5,8 @@ import (
 	"io/fs"
 	"os"
 	"path"
+	"path/filepath"
+	"strings"
 )
 
 // This creates a new directory in the current working directory called .astra.
@@ -34,7 +36,13 @@ func (s *Service) setupAstraDir() error {
 func (s *Service) SetupTempOutputDir(dirPath string) (string, error) {
 	tempDir := path.Join(s.getAstraDirPath(), dirPath)
 
-	err := os.Mkdir(tempDir, 0755)
+	// A generation that did not finish can have left it.
+	err := os.RemoveAll(tempDir)
+	if err != nil {
+		return "", err
+	}
+
+	err = os.Mkdir(tempDir, 0755)
 	if err != nil {
 		return "", err
 	}
@@ -46,7 +54,16 @@ func (s *Service) MoveTempOutputDir(dirPath, outputDir string) error {
 	sourcePath := path.Join(s.getAstraDirPath(), dirPath)
 	destinationPath := path.Join(s.WorkDir, outputDir)
 
-	_, err := os.Stat(destinationPath)
+	// The destination is replaced as a whole, which must not delete what does not belong to it.
+	relativePath, err := filepath.Rel(destinationPath, sourcePath)
+	if err != nil {
+		return err
+	}
+	if !strings.HasPrefix(relativePath, "..") {
+		return errors.New("output directory contains the working directory")
+	}
+
+	_, err = os.Stat(destinationPath)
 	if !errors.Is(err, fs.ErrNotExist) {
 		err := os.RemoveAll(destinationPath)
 		if err != nil {
-- 
2.43.0


From adf2428c9639fd4d0ca6efb9a903c623a43952f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:24 +0000
Subject: [PATCH 35/55] fix: handlers of packages with a dot in the last path
 element are not found

---
 utils/splitHandlerPath.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/utils/splitHandlerPath.go b/utils/splitHandlerPath.go
index 04f8a75..564a343 100644
--- a/utils/splitHandlerPath.go
+++ b/utils/splitHandlerPath.go
@@ -1,6 +1,9 @@
 package utils
 
-import "strings"
+import (
+	"net/url"
+	"strings"
+)
 
 type HandlerPath struct {
 	PathParts    []string
@@ -16,7 +19,12 @@ func SplitHandlerPath(handlerPath string) HandlerPath {
 
 	// Remove the last dot-separated part from the path parts
 	pathParts = pathParts[:len(pathParts)-1]
-	pathParts = append(pathParts, handlerParts[0])
+	// Go escapes the dots of the last path part
+	packageName, err := url.PathUnescape(handlerParts[0])
+	if err != nil {
+		packageName = handlerParts[0]
+	}
+	pathParts = append(pathParts, packageName)
 
 	// Remove the first handler part from the handler parts
 	handlerParts = handlerParts[1:]
-- 
2.43.0


From 390a519cfe64b1ea53420e7ee124882ce358e704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:30 +0000
Subject: [PATCH 36/55] fix: packages of another module with the same path are
 documented instead

---
 astTraversal/loadPackage.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/astTraversal/loadPackage.go b/astTraversal/loadPackage.go
index 0fe9305..ac06fb4 100644
--- a/astTraversal/loadPackage.go
+++ b/astTraversal/loadPackage.go
@@ -11,7 +11,9 @@ var cachedPackages = make(map[string]*packages.Package)
 // LoadPackage loads a package from a path.
 // Because of the way the packages.Load function works, we cache the packages to avoid loading the same package multiple times.
 func LoadPackage(pkgPath string, workDir string) (*packages.Package, error) {
-	if pkg, ok := cachedPackages[pkgPath]; ok {
+	// The same path can be another package in another module.
+	cacheKey := workDir + ":" + pkgPath
+	if pkg, ok := cachedPackages[cacheKey]; ok {
 		return pkg, nil
 	}
 
@@ -20,7 +22,7 @@ func LoadPackage(pkgPath string, workDir string) (*packages.Package, error) {
 		return nil, err
 	}
 
-	cachedPackages[pkgPath] = pkg
+	cachedPackages[cacheKey] = pkg
 
 	return pkg, nil
 }
-- 
2.43.0


From a34173a90bef6521efada8baab6438707a3892d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:59 +0000
Subject: [PATCH 37/55] fix: method handlers, and handlers made by functions of
 other packages, fail the generation or are not found

---
 inputs/gin/createRoute.go |  26 +++++---
 inputs/gin/parseRoute.go  | 135 ++++++++++++++++++++++----------------
 2 files changed, 98 insertions(+), 63 deletions(-)

diff --git a/inputs/gin/createRoute.go b/inputs/gin/createRoute.go
index 5d553f4..88cf9ee 100644
--- a/inputs/gin/createRoute.go
+++ b/inputs/gin/createRoute.go
@@ -15,16 +15,26 @@ import (
 func createRoute(s *astra.Service, file string, line int, info gin.RouteInfo) error {
 	log := s.Log.With().Str("path", info.Path).Str("method", info.Method).Str("handler", info.Handler).Logger()
 
-	cwd, err := os.Getwd()
-	if err != nil {
-		log.Error().Err(err).Msg("Failed to get working directory")
-		return err
+	cwd := s.WorkDir
+	if !filepath.IsAbs(cwd) {
+		wd, err := os.Getwd()
+		if err != nil {
+			log.Error().Err(err).Msg("Failed to get working directory")
+			return err
+		}
+
+		cwd = filepath.Join(wd, cwd)
 	}
 
-	relativePath, err := filepath.Rel(cwd, file)
-	if err != nil {
-		log.Error().Err(err).Msg("Failed to get relative path")
-		return err
+	// Methods are called by code that is generated, which has no file.
+	relativePath := file
+	if filepath.IsAbs(file) {
+		var err error
+		relativePath, err = filepath.Rel(cwd, file)
+		if err != nil {
+			log.Error().Err(err).Msg("Failed to get relative path")
+			return err
+		}
 	}
 
 	baseRoute := astra.Route{
diff --git a/inputs/gin/parseRoute.go b/inputs/gin/parseRoute.go
index fbd814b..aea0224 100644
--- a/inputs/gin/parseRoute.go
+++ b/inputs/gin/parseRoute.go
@@ -3,7 +3,9 @@ package gin
 import (
 	"fmt"
 	"go/ast"
+	"os"
 	"path"
+	"path/filepath"
 
 	"github.com/ls6-events/astra"
 	"github.com/ls6-events/astra/astTraversal"
@@ -43,6 +45,19 @@ func parseRoute(s *astra.Service, baseRoute *astra.Route) error {
 
 	funcName := handler.FuncName()
 
+	baseRoute.PathParams = utils.ExtractParamsFromPath(baseRoute.Path)
+	if len(baseRoute.PathParams) > 0 {
+		log.Debug().Interface("pathParams", baseRoute.PathParams).Msg("Found path params")
+	} else {
+		log.Debug().Msg("No path params found")
+	}
+
+	// Methods are called by code that is generated, which has no file.
+	if path.Ext(baseRoute.File) != ".go" {
+		log.Debug().Msg("Handler has no source file")
+		return nil
+	}
+
 	pkgNode := traverser.Packages.AddPackage(pkgPath)
 
 	log.Debug().Str("pkgName", pkgName).Str("funcName", funcName).Msg("Found handler name")
@@ -55,6 +70,26 @@ func parseRoute(s *astra.Service, baseRoute *astra.Route) error {
 		return err
 	}
 
+	// If the function that returns the handler was inlined, the handler is named after another package.
+	handlerFile := baseRoute.File
+	if !filepath.IsAbs(handlerFile) {
+		handlerFile = filepath.Join(s.WorkDir, handlerFile)
+	}
+	if !inPackage(s, pkgNode, handlerFile) {
+		filePkg, err := astTraversal.LoadPackage("file="+handlerFile, s.WorkDir)
+		if err != nil {
+			log.Error().Err(err).Msg("Failed to get package of file")
+			return err
+		}
+
+		pkgNode = traverser.Packages.AddPackage(filePkg.PkgPath)
+		_, err = traverser.Packages.Get(pkgNode)
+		if err != nil {
+			log.Error().Err(err).Msg("Failed to get package of file")
+			return err
+		}
+	}
+
 	for _, file := range pkgNode.Files {
 		if path.Base(file.FileName) == path.Base(baseRoute.File) {
 			log.Debug().Str("fileName", file.FileName).Msg("Found file")
@@ -69,79 +104,54 @@ func parseRoute(s *astra.Service, baseRoute *astra.Route) error {
 		return err
 	}
 
-	baseRoute.PathParams = utils.ExtractParamsFromPath(baseRoute.Path)
-	if len(baseRoute.PathParams) > 0 {
-		log.Debug().Interface("pathParams", baseRoute.PathParams).Msg("Found path params")
-	} else {
-		log.Debug().Msg("No path params found")
+	lineNo := func(n ast.Node) int {
+		return traverser.ActiveFile().Package.Package.Fset.Position(n.Pos()).Line
 	}
 
+	var found bool
 	ast.Inspect(traverser.ActiveFile().AST, func(n ast.Node) bool {
-		if n == nil {
-			return true
+		if n == nil || found {
+			return false
 		}
 
-		funcDecl, ok := n.(*ast.FuncDecl)
-
-		if ok && funcDecl.Name.Name == funcName {
+		if funcDecl, ok := n.(*ast.FuncDecl); ok && funcDecl.Name.Name == funcName && baseRoute.LineNo == lineNo(funcDecl) {
+			found = true
 			log.Debug().Str("funcName", funcName).Msg("Found handler function")
 
-			startPos := traverser.ActiveFile().Package.Package.Fset.Position(funcDecl.Pos())
-
-			if baseRoute.LineNo != startPos.Line {
-				// This means that the function is set inline in the route definition
-				log.Debug().Str("funcName", funcName).Msg("Function is inline")
-
-				ast.Inspect(funcDecl, func(n ast.Node) bool {
-					if n == nil {
-						return true
-					}
-
-					funcLit, ok := n.(*ast.FuncLit)
-
-					if ok {
-						inlineStartPos := traverser.ActiveFile().Package.Package.Fset.Position(funcLit.Pos())
-
-						if baseRoute.LineNo == inlineStartPos.Line {
-							log.Debug().Str("funcName", funcName).Msg("Found inline handler function")
-
-							function, err := traverser.Function(funcLit)
-							if err != nil {
-								log.Error().Err(err).Msg("Failed to get function")
-								return false
-							}
+			function, err := traverser.Function(funcDecl)
+			if err != nil {
+				log.Error().Err(err).Msg("Failed to get function")
+				return false
+			}
 
-							err = parseFunction(s, function, baseRoute, traverser.ActiveFile(), 0)
-							if err != nil {
-								log.Error().Err(err).Msg("Failed to parse inline function")
-								return false
-							}
+			// Define the function name as the operation ID
+			baseRoute.OperationID = strcase.ToLowerCamel(funcName)
 
-							log.Debug().Str("funcName", funcName).Interface("route", *baseRoute).Msg("Adding route")
+			err = parseFunction(s, function, baseRoute, traverser.ActiveFile(), 0)
+			if err != nil {
+				log.Error().Err(err).Msg("Failed to parse function")
+				return false
+			}
 
-							return false
-						}
-					}
+			log.Debug().Str("funcName", funcName).Interface("route", *baseRoute).Msg("Adding route")
 
-					return true
-				})
+			return false
+		}
 
-				return false
-			}
+		// Otherwise the function is set inline, in the route definition or in any function that returns it
+		if funcLit, ok := n.(*ast.FuncLit); ok && baseRoute.LineNo == lineNo(funcLit) {
+			found = true
+			log.Debug().Str("funcName", funcName).Msg("Found inline handler function")
 
-			// If the function is not inline, we can just parse it normally
-			function, err := traverser.Function(funcDecl)
+			function, err := traverser.Function(funcLit)
 			if err != nil {
 				log.Error().Err(err).Msg("Failed to get function")
 				return false
 			}
 
-			// And define the function name as the operation ID
-			baseRoute.OperationID = strcase.ToLowerCamel(funcName)
-
 			err = parseFunction(s, function, baseRoute, traverser.ActiveFile(), 0)
 			if err != nil {
-				log.Error().Err(err).Msg("Failed to parse function")
+				log.Error().Err(err).Msg("Failed to parse inline function")
 				return false
 			}
 
@@ -153,9 +163,24 @@ func parseRoute(s *astra.Service, baseRoute *astra.Route) error {
 		return true
 	})
 
+	return nil
+}
+
+// inPackage returns whether a file is in the directory of the package.
+// A file that does not exist (it can have been built elsewhere) is taken to be.
+func inPackage(s *astra.Service, pkgNode *astTraversal.PackageNode, file string) bool {
+	fileDir, err := os.Stat(filepath.Dir(file))
 	if err != nil {
-		return err
+		return true
 	}
 
-	return nil
+	var dir string
+	if pkgNode.Path() == "main" {
+		dir = s.WorkDir
+	} else if len(pkgNode.Files) > 0 {
+		dir = filepath.Dir(pkgNode.Files[0].FileName)
+	}
+
+	pkgDir, err := os.Stat(dir)
+	return err != nil || os.SameFile(fileDir, pkgDir)
 }
-- 
2.43.0


From e6a19984a0b4ce50bff74e456851c5fa16ea7a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:21 +0000
Subject: [PATCH 38/55] fix: main packages that embed files, mention their
 package clause elsewhere or are not at the root of the module break

---
 mainPackage.go | 88 +++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 77 insertions(+), 11 deletions(-)

diff --git a/mainPackage.go b/mainPackage.go
index 7ca4555..d2286f8 100644
--- a/mainPackage.go
+++ b/mainPackage.go
@@ -1,8 +1,11 @@
 package astra
 
 import (
+	"go/parser"
+	"go/token"
 	"os"
 	"path"
+	"path/filepath"
 	"strings"
 )
 
@@ -15,8 +18,6 @@ const mainPackageReplacementPath = astraDir + "/" + mainPackageReplacement
 
 // setupTempMainPackage copies the main package to a temporary directory and replaces the package name with a different name.
 func (s *Service) setupTempMainPackage() error {
-	var pkgName string
-
 	newMainPkgPath := path.Join(s.getAstraDirPath(), mainPackageReplacement)
 	if _, err := os.Stat(newMainPkgPath); err == nil {
 		err := os.RemoveAll(newMainPkgPath)
@@ -42,24 +43,21 @@ func (s *Service) setupTempMainPackage() error {
 				return err
 			}
 
-			fileData = []byte(strings.ReplaceAll(string(fileData), "package main", "package "+mainPackageReplacement))
+			fileData = renameMainPackage(fileData)
 
 			newFilePath := path.Join(newMainPkgPath, file.Name())
 			err = os.WriteFile(newFilePath, fileData, 0644)
 			if err != nil {
 				return err
 			}
-		} else if strings.HasSuffix(file.Name(), ".mod") {
-			fileName := path.Join(s.WorkDir, file.Name())
-			fileData, err := os.ReadFile(fileName)
-			if err != nil {
-				return err
-			}
-
-			pkgName = strings.Replace(strings.Split(string(fileData), "\n")[0], "module ", "", 1)
 		}
 	}
 
+	pkgName, err := s.workDirPackagePath()
+	if err != nil {
+		return err
+	}
+
 	newMainPkg := path.Join(pkgName, mainPackageReplacementPath)
 
 	s.tempMainPackageName = newMainPkg
@@ -89,3 +87,71 @@ func (s *Service) GetMainPackageName() (string, error) {
 	}
 	return s.tempMainPackageName, nil
 }
+
+// renameMainPackage renames the main package in a file, everything else in it stays as it is.
+// Except that files can only be embedded in the package that they are next to.
+func renameMainPackage(fileData []byte) []byte {
+	fset := token.NewFileSet()
+	file, err := parser.ParseFile(fset, "", fileData, parser.ParseComments)
+	if file == nil || file.Name == nil {
+		return fileData
+	}
+
+	renamed := string(fileData)
+	if err == nil {
+		// From the end of the file, as the positions after a change are no longer right.
+		for i := len(file.Comments) - 1; i >= 0; i-- {
+			comments := file.Comments[i].List
+			for j := len(comments) - 1; j >= 0; j-- {
+				if strings.HasPrefix(comments[j].Text, "//go:embed") {
+					offset := fset.Position(comments[j].Pos()).Offset + len("//")
+					renamed = renamed[:offset] + " " + renamed[offset:]
+				}
+			}
+		}
+	}
+
+	if name, isMain := strings.CutPrefix(file.Name.Name, "main"); isMain && (name == "" || name == "_test") {
+		offset := fset.Position(file.Name.Pos()).Offset
+		renamed = renamed[:offset] + mainPackageReplacement + renamed[offset+len("main"):]
+	}
+
+	return []byte(renamed)
+}
+
+// workDirPackagePath finds the path of the package in the working directory.
+// The module that it is in can be the one of a parent directory.
+func (s *Service) workDirPackagePath() (string, error) {
+	moduleDir, err := filepath.Abs(s.WorkDir)
+	if err != nil {
+		return "", err
+	}
+
+	var pkgPath string
+	for {
+		fileData, err := os.ReadFile(filepath.Join(moduleDir, "go.mod"))
+		if err == nil {
+			return path.Join(modulePath(fileData), pkgPath), nil
+		}
+
+		parentDir := filepath.Dir(moduleDir)
+		if parentDir == moduleDir {
+			return "", nil
+		}
+
+		pkgPath = path.Join(filepath.Base(moduleDir), pkgPath)
+		moduleDir = parentDir
+	}
+}
+
+// modulePath finds the path of the module in a go.mod file.
+func modulePath(fileData []byte) string {
+	for _, line := range strings.Split(string(fileData), "\n") {
+		line, _, _ = strings.Cut(line, "//")
+		if fields := strings.Fields(line); len(fields) == 2 && fields[0] == "module" {
+			return strings.Trim(fields[1], "\"`")
+		}
+	}
+
+	return ""
+}
-- 
2.43.0


From 2fd77e32df8ff739e594e0d9b8e3f1e6d19a65a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:15 +0000
Subject: [PATCH 39/55] fix: large integer enum values change in a JSON cache

---
 types.go | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/types.go b/types.go
index a581b17..8113452 100644
--- a/types.go
+++ b/types.go
@@ -1,6 +1,12 @@
 package astra
 
-import "github.com/ls6-events/astra/astTraversal"
+import (
+	"bytes"
+	"encoding/json"
+	"strconv"
+
+	"github.com/ls6-events/astra/astTraversal"
+)
 
 // These are types that are used throughout the astra package.
 
@@ -95,3 +101,31 @@ type Field struct {
 
 	Doc string `json:"doc,omitempty" yaml:"doc,omitempty"`
 }
+
+// UnmarshalJSON reads a field from JSON, where the enum values keep integers that a float64 cannot represent.
+func (f *Field) UnmarshalJSON(data []byte) error {
+	type plainField Field
+
+	decoder := json.NewDecoder(bytes.NewReader(data))
+	decoder.UseNumber()
+	if err := decoder.Decode((*plainField)(f)); err != nil {
+		return err
+	}
+
+	for i, enumValue := range f.EnumValues {
+		number, ok := enumValue.(json.Number)
+		if !ok {
+			continue
+		}
+
+		if integer, err := strconv.ParseInt(number.String(), 10, 64); err == nil {
+			f.EnumValues[i] = integer
+		} else if unsigned, err := strconv.ParseUint(number.String(), 10, 64); err == nil {
+			f.EnumValues[i] = unsigned
+		} else if float, err := number.Float64(); err == nil {
+			f.EnumValues[i] = float
+		}
+	}
+
+	return nil
+}
-- 
2.43.0


From 4686e96f6e27cc60f1f6f57d50bb9ac7259ad690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:45 +0000
Subject: [PATCH 40/55] fix: responses written by Data have an empty content
 type

---
 inputs/gin/parseFunction.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/inputs/gin/parseFunction.go b/inputs/gin/parseFunction.go
index 6fe8cc3..fb42537 100644
--- a/inputs/gin/parseFunction.go
+++ b/inputs/gin/parseFunction.go
@@ -229,6 +229,14 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return true
 					}
 				case "Data":
+					// The content type is only known if it is a constant.
+					contentType := "*/*"
+					if args := callExpr.Args(); len(args) > 1 {
+						if value, valueErr := traverser.Expression(args[1]).Value(); valueErr == nil && value != "" {
+							contentType = value
+						}
+					}
+
 					_, err = funcBuilder.StatusCode().Ignored().ExpressionResult().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
 						statusCode, ok := params[0].(int)
 						if !ok {
@@ -241,8 +249,9 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						}
 
 						returnType := astra.ReturnType{
-							StatusCode: statusCode,
-							Field:      astra.ParseResultToField(result),
+							StatusCode:  statusCode,
+							ContentType: contentType,
+							Field:       astra.ParseResultToField(result),
 						}
 
 						route.ReturnTypes = astra.AddReturnType(route.ReturnTypes, returnType)
-- 
2.43.0


From 51ae0b20c1ebf10dae8fb8724e0f75ef99164b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:11 +0000
Subject: [PATCH 41/55] fix: responses written by Data are never documented

---
 inputs/gin/parseFunction.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inputs/gin/parseFunction.go b/inputs/gin/parseFunction.go
index fb42537..7680056 100644
--- a/inputs/gin/parseFunction.go
+++ b/inputs/gin/parseFunction.go
@@ -243,7 +243,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 							return nil, errors.New("failed to parse status code")
 						}
 
-						result, ok := params[1].(astTraversal.Result)
+						result, ok := params[2].(astTraversal.Result)
 						if !ok {
 							return nil, errors.New("failed to parse result")
 						}
-- 
2.43.0


From b95cc3d353adb9bce9cd90b995a93dbb5bc6b1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:10 +0000
Subject: [PATCH 42/55] fix: structs with unnamed structs whose fields have
 different tags are documented once for every encoding

---
 outputs/openapi/components.go | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/outputs/openapi/components.go b/outputs/openapi/components.go
index a371eae..184e138 100644
--- a/outputs/openapi/components.go
+++ b/outputs/openapi/components.go
@@ -172,14 +172,7 @@ func findUniqueComponents(components []astra.Field) map[string]bool {
 	for _, component := range components {
 		key := collisionSafeKey(astTraversal.NoBindingTag, component.Name, component.Package)
 
-		_, unique[key] = astra.ExtractBindingTags(component.StructFields)
-		for fieldName, field := range component.StructFields {
-			for _, bindingType := range componentBindings(component) {
-				if fieldBinding(fieldName, field, bindingType) != fieldBinding(fieldName, field, componentBindings(component)[0]) {
-					unique[key] = true
-				}
-			}
-		}
+		unique[key] = hasUniqueBindings(component)
 	}
 
 	for found := true; found; {
@@ -196,6 +189,28 @@ func findUniqueComponents(components []astra.Field) map[string]bool {
 	return unique
 }
 
+// hasUniqueBindings returns whether a struct, or an unnamed one in it, has different binding tags.
+func hasUniqueBindings(field astra.Field) bool {
+	if _, uniqueBindings := astra.ExtractBindingTags(field.StructFields); uniqueBindings {
+		return true
+	}
+
+	bindings := componentBindings(field)
+	for fieldName, structField := range field.StructFields {
+		for _, bindingType := range bindings {
+			if fieldBinding(fieldName, structField, bindingType) != fieldBinding(fieldName, structField, bindings[0]) {
+				return true
+			}
+		}
+
+		if hasUniqueBindings(structField) {
+			return true
+		}
+	}
+
+	return field.Elem != nil && hasUniqueBindings(*field.Elem)
+}
+
 // refersToUniqueComponent returns whether a field or one of the fields or elements in it has a type that is unique.
 func refersToUniqueComponent(field astra.Field, unique map[string]bool) bool {
 	if unique[collisionSafeKey(astTraversal.NoBindingTag, field.Type, field.Package)] {
-- 
2.43.0


From e418192f63feea696d565b1dfbd3901cd4375d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:44 +0000
Subject: [PATCH 43/55] fix: fields with the same name in an encoding are
 documented in a random order

---
 outputs/openapi/components.go | 15 ++++++++++++++-
 outputs/openapi/schema.go     |  7 +++++--
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/outputs/openapi/components.go b/outputs/openapi/components.go
index 184e138..a451394 100644
--- a/outputs/openapi/components.go
+++ b/outputs/openapi/components.go
@@ -158,6 +158,17 @@ func fieldBinding(fieldName string, field astra.Field, bindingType astTraversal.
 	return astTraversal.BindingTag{Name: fieldName}
 }
 
+// sortedFieldNames returns the names of the fields of a struct, in an order that is always the same.
+func sortedFieldNames(field astra.Field) []string {
+	fieldNames := make([]string, 0, len(field.StructFields))
+	for fieldName := range field.StructFields {
+		fieldNames = append(fieldNames, fieldName)
+	}
+	sort.Strings(fieldNames)
+
+	return fieldNames
+}
+
 // isPromoted returns whether the fields of an embedded struct are promoted for a binding type.
 // They are not if the binding tag hides the struct, or gives it a name.
 func isPromoted(fieldName string, field astra.Field, bindingType astTraversal.BindingTagType) bool {
@@ -304,7 +315,9 @@ func componentToSchema(service *astra.Service, component astra.Field, bindingTyp
 			Type:       "object",
 			Properties: make(map[string]Schema),
 		}
-		for fieldName, field := range component.StructFields {
+		for _, fieldName := range sortedFieldNames(component) {
+			field := component.StructFields[fieldName]
+
 			// We should aim to use doc comments in the future.
 			// However https://github.com/OAI/OpenAPI-Specification/issues/1514.
 			if isPromoted(fieldName, field, bindingType) {
diff --git a/outputs/openapi/schema.go b/outputs/openapi/schema.go
index 7b662a7..80ed6bd 100644
--- a/outputs/openapi/schema.go
+++ b/outputs/openapi/schema.go
@@ -192,7 +192,9 @@ func boundParamToSchemas(service *astra.Service, bindingType astTraversal.Bindin
 	}
 
 	schemas := make(map[string]Schema)
-	for fieldName, structField := range field.StructFields {
+	for _, fieldName := range sortedFieldNames(field) {
+		structField := field.StructFields[fieldName]
+
 		// The fields of embedded structs are params as any other, unless the struct has a field of that name itself.
 		if isPromoted(fieldName, structField, bindingType) {
 			for name, schema := range boundParamToSchemas(service, bindingType, structField, parents...) {
@@ -202,7 +204,8 @@ func boundParamToSchemas(service *astra.Service, bindingType astTraversal.Bindin
 			}
 		}
 	}
-	for fieldName, structField := range field.StructFields {
+	for _, fieldName := range sortedFieldNames(field) {
+		structField := field.StructFields[fieldName]
 		binding := fieldBinding(fieldName, structField, bindingType)
 		if !isPromoted(fieldName, structField, bindingType) && !binding.NotShown {
 			schemas[binding.Name] = nestedToSchema(service, structField, bindingType)
-- 
2.43.0


From e2967320682925899e80b3cb433cf64447e31872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:40 +0000
Subject: [PATCH 44/55] fix: the encoding in a component name can be taken for
 a package of another

---
 outputs/openapi/components.go | 38 ++++++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/outputs/openapi/components.go b/outputs/openapi/components.go
index a451394..850993e 100644
--- a/outputs/openapi/components.go
+++ b/outputs/openapi/components.go
@@ -3,6 +3,7 @@ package openapi
 import (
 	"slices"
 	"sort"
+	"strconv"
 	"strings"
 
 	"github.com/ls6-events/astra"
@@ -17,7 +18,8 @@ func collisionSafeKey(bindingType astTraversal.BindingTagType, name, pkg string)
 	var keyComponents []string
 
 	if bindingType != astTraversal.NoBindingTag {
-		keyComponents = []string{pkg, string(bindingType), name}
+		// A package path has no "#".
+		keyComponents = []string{pkg, "#" + string(bindingType), name}
 	} else {
 		keyComponents = []string{pkg, name}
 	}
@@ -98,6 +100,40 @@ func makeCollisionSafeNamesFromComponents(components []astra.Field) {
 			}
 		}
 	}
+
+	separateSameNames(components)
+}
+
+// separateSameNames changes the names that several components have been given.
+// The binding type in one name can be an element of the package path in another.
+func separateSameNames(components []astra.Field) {
+	sortedComponents := slices.Clone(components)
+	sort.SliceStable(sortedComponents, func(i, j int) bool {
+		if sortedComponents[i].Package != sortedComponents[j].Package {
+			return sortedComponents[i].Package < sortedComponents[j].Package
+		}
+		return sortedComponents[i].Name < sortedComponents[j].Name
+	})
+
+	owners := make(map[string]string)
+	for _, component := range sortedComponents {
+		owner := collisionSafeKey(astTraversal.NoBindingTag, component.Name, component.Package)
+		for _, bindingType := range componentBindings(component) {
+			key := collisionSafeKey(bindingType, component.Name, component.Package)
+			componentName, exists := collisionSafeNames[key]
+			if !exists {
+				continue
+			}
+
+			safeName := componentName
+			for i := 2; owners[safeName] != "" && owners[safeName] != owner; i++ {
+				safeName = componentName + "_" + strconv.Itoa(i)
+			}
+
+			owners[safeName] = owner
+			collisionSafeNames[key] = safeName
+		}
+	}
 }
 
 // packagePathsSameUntil returns the number of path elements, counted from the end of the package path, that do not tell the packages of the components apart.
-- 
2.43.0


From d88a0d95ec8b6656ba917e05e525bded7dcefdfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:34 +0000
Subject: [PATCH 45/55] fix: the doc of a struct field is found at random, or
 is that of something else

---
 astTraversal/loadPackage.go |  7 ++++++-
 astTraversal/packageNode.go |  3 ++-
 astTraversal/type.go        | 10 +++++-----
 3 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/astTraversal/loadPackage.go b/astTraversal/loadPackage.go
index ac06fb4..6f9b5e0 100644
--- a/astTraversal/loadPackage.go
+++ b/astTraversal/loadPackage.go
@@ -2,12 +2,16 @@ package astTraversal
 
 import (
 	"fmt"
+	"go/token"
 
 	"golang.org/x/tools/go/packages"
 )
 
 var cachedPackages = make(map[string]*packages.Package)
 
+// fileSet is shared by every package that is loaded, so that a position is of one file, whichever package it is looked up in.
+var fileSet = token.NewFileSet()
+
 // LoadPackage loads a package from a path.
 // Because of the way the packages.Load function works, we cache the packages to avoid loading the same package multiple times.
 func LoadPackage(pkgPath string, workDir string) (*packages.Package, error) {
@@ -41,7 +45,8 @@ func LoadPackageNoCache(pkgPath string, workDir string) (*packages.Package, erro
 			packages.NeedTypesInfo |
 			packages.NeedTypesSizes |
 			packages.NeedModule,
-		Dir: workDir,
+		Dir:  workDir,
+		Fset: fileSet,
 	}, pkgPath)
 	if err != nil {
 		return nil, err
diff --git a/astTraversal/packageNode.go b/astTraversal/packageNode.go
index ba53ba3..ec8927c 100644
--- a/astTraversal/packageNode.go
+++ b/astTraversal/packageNode.go
@@ -179,7 +179,8 @@ func (p *PackageNode) ASTAtPos(pos token.Pos) (ast.Node, error) {
 					return true
 				}
 
-				if n.Pos() == pos {
+				// The file can have been loaded more than once, each time with positions of its own
+				if position := p.Package.Fset.Position(n.Pos()); position.Line == node.Line && position.Column == node.Column {
 					result = n
 					return false
 				}
diff --git a/astTraversal/type.go b/astTraversal/type.go
index 891a854..3ae6e9f 100644
--- a/astTraversal/type.go
+++ b/astTraversal/type.go
@@ -181,15 +181,15 @@ func (t *TypeTraverser) Result() (Result, error) {
 				return Result{}, err
 			}
 
-			if structFieldResult.Package != nil {
-				_, err = t.Traverser.Packages.Get(structFieldResult.Package)
+			// The doc is where the field is declared, which is not where its type is
+			if f.Pkg() != nil {
+				pkg := t.Traverser.Packages.FindOrAdd(f.Pkg().Path())
+				_, err = t.Traverser.Packages.Get(pkg)
 				if err != nil {
 					return Result{}, err
 				}
 
-				pos := f.Pos()
-
-				node, err := structFieldResult.Package.ASTAtPos(pos)
+				node, err := pkg.ASTAtPos(f.Pos())
 				if err == nil && node != nil {
 					if field, ok := node.(*ast.Field); ok {
 						t.Traverser.Log.Debug().Str("field", f.Name()).Msg("Found doc for field")
-- 
2.43.0


From b290653cab82b04e90e89025981d65ffb320a804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:50 +0000
Subject: [PATCH 46/55] fix: outputs of a service that is generated again are
 written to another path

---
 outputs/json/generate.go    | 5 +++--
 outputs/openapi/generate.go | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/outputs/json/generate.go b/outputs/json/generate.go
index a51b1f3..fc421f5 100644
--- a/outputs/json/generate.go
+++ b/outputs/json/generate.go
@@ -39,8 +39,9 @@ func Generate(filePath string) astra.ServiceFunction {
 		}
 
 		s.Log.Debug().Str("filePath", filePath).Msg("Writing JSON output to file")
-		filePath = path.Join(s.WorkDir, filePath)
-		err = os.WriteFile(filePath, file, 0644)
+		// The path stays as it is for the next generation
+		outputPath := path.Join(s.WorkDir, filePath)
+		err = os.WriteFile(outputPath, file, 0644)
 		if err != nil {
 			s.Log.Error().Err(err).Msg("Failed to write JSON output to file")
 			return err
diff --git a/outputs/openapi/generate.go b/outputs/openapi/generate.go
index 3213ee2..cd4cd88 100644
--- a/outputs/openapi/generate.go
+++ b/outputs/openapi/generate.go
@@ -338,8 +338,9 @@ func Generate(filePath string) astra.ServiceFunction {
 			return err
 		}
 
-		filePath = path.Join(s.WorkDir, filePath)
-		err = os.WriteFile(filePath, file, 0644)
+		// The path stays as it is for the next generation
+		outputPath := path.Join(s.WorkDir, filePath)
+		err = os.WriteFile(outputPath, file, 0644)
 		if err != nil {
 			s.Log.Error().Err(err).Msg("Failed to write OpenAPI schema file")
 			return err
-- 
2.43.0


From 68779e6a0fcf3ad4510b90c9897c37583567ae90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:50 +0000
Subject: [PATCH 47/55] fix: directories and links that look like sources of
 the main package fail the generation

---
 mainPackage.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/mainPackage.go b/mainPackage.go
index d2286f8..8c870c3 100644
--- a/mainPackage.go
+++ b/mainPackage.go
@@ -36,8 +36,22 @@ func (s *Service) setupTempMainPackage() error {
 	}
 
 	for _, file := range files {
+		// These are not part of the package, and what they are or link to might not be readable
+		if strings.HasPrefix(file.Name(), ".") || strings.HasPrefix(file.Name(), "_") {
+			continue
+		}
+
 		if strings.HasSuffix(file.Name(), ".go") {
 			fileName := path.Join(s.WorkDir, file.Name())
+			fileInfo, err := os.Stat(fileName)
+			if err != nil {
+				return err
+			}
+
+			if fileInfo.IsDir() {
+				continue
+			}
+
 			fileData, err := os.ReadFile(fileName)
 			if err != nil {
 				return err
-- 
2.43.0


From 40b647c5588783a8abb91693ea8fff81b0f71d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:57 +0000
Subject: [PATCH 48/55] fix: documents of programs without routes have no paths

---
 outputs/openapi/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/outputs/openapi/types.go b/outputs/openapi/types.go
index 3ec78d1..a47f015 100644
--- a/outputs/openapi/types.go
+++ b/outputs/openapi/types.go
@@ -6,7 +6,7 @@ type OpenAPISchema struct {
 	Info              Info          `json:"info" yaml:"info"`
 	JSONSchemaDialect string        `json:"jsonSchemaDialect,omitempty" yaml:"jsonSchemaDialect,omitempty"`
 	Servers           []Server      `json:"servers,omitempty" yaml:"servers,omitempty"`
-	Paths             Paths         `json:"paths,omitempty" yaml:"paths,omitempty"`
+	Paths             Paths         `json:"paths" yaml:"paths"`
 	Webhooks          Paths         `json:"webhooks,omitempty" yaml:"webhooks,omitempty"`
 	Components        Components    `json:"components,omitempty" yaml:"components,omitempty"`
 	Security          []Security    `json:"security,omitempty" yaml:"security,omitempty"`
-- 
2.43.0


From 2d3cb9771906c772cdc8c79815dc75086e06710b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:57 +0000
Subject: [PATCH 49/55] fix: schemas that are empty are missing from YAML
 documents

---
 outputs/openapi/types.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/outputs/openapi/types.go b/outputs/openapi/types.go
index a47f015..f988b5a 100644
--- a/outputs/openapi/types.go
+++ b/outputs/openapi/types.go
@@ -8,7 +8,7 @@ type OpenAPISchema struct {
 	Servers           []Server      `json:"servers,omitempty" yaml:"servers,omitempty"`
 	Paths             Paths         `json:"paths" yaml:"paths"`
 	Webhooks          Paths         `json:"webhooks,omitempty" yaml:"webhooks,omitempty"`
-	Components        Components    `json:"components,omitempty" yaml:"components,omitempty"`
+	Components        Components    `json:"components,omitempty" yaml:"components"`
 	Security          []Security    `json:"security,omitempty" yaml:"security,omitempty"`
 	Tags              []Tag         `json:"tags,omitempty" yaml:"tags,omitempty"`
 	ExternalDocs      *ExternalDocs `json:"externalDocs,omitempty" yaml:"externalDocs,omitempty"`
@@ -90,7 +90,7 @@ type Parameter struct {
 	AllowEmpty  bool   `json:"allowEmptyValue,omitempty" yaml:"allowEmptyValue,omitempty"`
 	Style       string `json:"style,omitempty" yaml:"style,omitempty"`
 	Explode     bool   `json:"explode,omitempty" yaml:"explode,omitempty"`
-	Schema      Schema `json:"schema,omitempty" yaml:"schema,omitempty"`
+	Schema      Schema `json:"schema,omitempty" yaml:"schema"`
 }
 
 // RequestBody is the OpenAPI request body.
@@ -103,7 +103,7 @@ type RequestBody struct {
 
 // MediaType is the OpenAPI media type.
 type MediaType struct {
-	Schema   Schema              `json:"schema,omitempty" yaml:"schema,omitempty"`
+	Schema   Schema              `json:"schema,omitempty" yaml:"schema"`
 	Encoding map[string]Encoding `json:"encoding,omitempty" yaml:"encoding,omitempty"`
 }
 
@@ -120,7 +120,7 @@ type Header struct {
 	Required    bool   `json:"required,omitempty" yaml:"required,omitempty"`
 	Deprecated  bool   `json:"deprecated,omitempty" yaml:"deprecated,omitempty"`
 	AllowEmpty  bool   `json:"allowEmptyValue,omitempty" yaml:"allowEmptyValue,omitempty"`
-	Schema      Schema `json:"schema,omitempty" yaml:"schema,omitempty"`
+	Schema      Schema `json:"schema,omitempty" yaml:"schema"`
 }
 
 // Responses is the OpenAPI responses.
-- 
2.43.0


From 6df389e5068cea0bf9ca510019e250a86d311246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:20 +0000
Subject: [PATCH 50/55] fix: instances of a generic type share one component

---
 astTraversal/traverser.go     | 11 +++++++---
 astTraversal/type.go          | 38 +++++++++++++++++++++++++++++++++--
 clean.go                      |  7 +++++++
 formatTypes.go                | 10 ++++++++-
 outputs/openapi/components.go | 27 +++++++++++++++++++++----
 5 files changed, 83 insertions(+), 10 deletions(-)

diff --git a/astTraversal/traverser.go b/astTraversal/traverser.go
index e4f1a77..5a30919 100644
--- a/astTraversal/traverser.go
+++ b/astTraversal/traverser.go
@@ -192,21 +192,26 @@ func (t *BaseTraverser) findFunction(node ast.Node) (*types.Func, bool) {
 
 // enterComponent returns whether the component of the named type is still to be added.
 func (t *BaseTraverser) enterComponent(n *types.Named) bool {
-	if _, ok := t.components[n.String()]; ok {
+	if _, ok := t.components[t.componentKey(n)]; ok {
 		return false
 	}
 
 	if t.components == nil {
 		t.components = make(map[string]struct{})
 	}
-	t.components[n.String()] = struct{}{}
+	t.components[t.componentKey(n)] = struct{}{}
 
 	return true
 }
 
 // leaveComponent forgets a named type whose component could not be added.
 func (t *BaseTraverser) leaveComponent(n *types.Named) {
-	delete(t.components, n.String())
+	delete(t.components, t.componentKey(n))
+}
+
+// componentKey identifies the component of a named type.
+func (t *BaseTraverser) componentKey(n *types.Named) string {
+	return n.Obj().Pkg().Path() + "." + t.typeName(n)
 }
 
 func (t *BaseTraverser) SetAddComponentFunction(addComponent func(result Result) error) *BaseTraverser {
diff --git a/astTraversal/type.go b/astTraversal/type.go
index 3ae6e9f..0fbb028 100644
--- a/astTraversal/type.go
+++ b/astTraversal/type.go
@@ -6,6 +6,7 @@ import (
 	"go/constant"
 	"go/token"
 	"go/types"
+	"strings"
 )
 
 type TypeTraverser struct {
@@ -106,7 +107,7 @@ func (t *TypeTraverser) Result() (Result, error) {
 		}
 
 		result = Result{
-			Type:    n.Obj().Name(),
+			Type:    t.Traverser.typeName(n),
 			Package: pkg,
 		}
 	case *types.Pointer:
@@ -228,6 +229,39 @@ func (t *TypeTraverser) Result() (Result, error) {
 	}
 }
 
+// typeName returns the name of a named type, that no other type of its package has.
+// The instances of a generic type are told apart by their type arguments.
+func (t *BaseTraverser) typeName(n *types.Named) string {
+	name := n.Obj().Name()
+	if n.TypeArgs().Len() == 0 {
+		return name
+	}
+
+	typeArgs := make([]string, 0, n.TypeArgs().Len())
+	for i := 0; i < n.TypeArgs().Len(); i++ {
+		typeArgs = append(typeArgs, t.typeArgName(n.TypeArgs().At(i)))
+	}
+
+	return name + "[" + strings.Join(typeArgs, ",") + "]"
+}
+
+// typeArgName returns the name of a type argument, with the path of its package.
+func (t *BaseTraverser) typeArgName(node types.Type) string {
+	switch n := Unalias(node).(type) {
+	case *types.Named:
+		if n.Obj().Pkg() == nil {
+			return n.Obj().Name()
+		}
+		return n.Obj().Pkg().Path() + "." + t.typeName(n)
+	case *types.Pointer:
+		return "*" + t.typeArgName(n.Elem())
+	case *types.Slice:
+		return "[]" + t.typeArgName(n.Elem())
+	default:
+		return types.TypeString(n, nil)
+	}
+}
+
 // isStruct returns whether the type is a struct or a pointer to a struct.
 func isStruct(node types.Type) bool {
 	if pointer, ok := Unalias(node).(*types.Pointer); ok {
@@ -286,7 +320,7 @@ func literalValue(info *types.Info, expr ast.Expr, basic *types.Basic) (any, boo
 
 // addNamedComponent adds the component of a named type.
 func (t *TypeTraverser) addNamedComponent(n *types.Named, pkg *PackageNode) error {
-	namedUnderlyingResult, err := t.Traverser.Type(n.Underlying(), pkg).SetName(n.Obj().Name()).Result()
+	namedUnderlyingResult, err := t.Traverser.Type(n.Underlying(), pkg).SetName(t.Traverser.typeName(n)).Result()
 	if err != nil {
 		return err
 	}
diff --git a/clean.go b/clean.go
index b2602bc..2870a25 100644
--- a/clean.go
+++ b/clean.go
@@ -1,5 +1,7 @@
 package astra
 
+import "strings"
+
 // Clean cleans up the structs.
 // At the moment it only changes the package name of the main package to "main".
 // It also handles the "special" types.
@@ -60,6 +62,11 @@ func (s *Service) cleanField(f Field, mainPkg string) Field {
 		f.MapKeyPackage = "main"
 	}
 
+	// The names of generic types contain those of their type arguments.
+	for _, name := range []*string{&f.Type, &f.Name, &f.SliceType, &f.ArrayType, &f.MapKeyType, &f.MapValueType} {
+		*name = strings.ReplaceAll(*name, mainPkg+".", "main.")
+	}
+
 	if f.Elem != nil {
 		elem := s.cleanField(*f.Elem, mainPkg)
 		f.Elem = &elem
diff --git a/formatTypes.go b/formatTypes.go
index a9a16ab..b127eef 100644
--- a/formatTypes.go
+++ b/formatTypes.go
@@ -1,6 +1,9 @@
 package astra
 
-import "maps"
+import (
+	"maps"
+	"strings"
+)
 
 // TypeFormat is the types of the standard go types that are accepted by OpenAPI.
 type TypeFormat struct {
@@ -138,6 +141,11 @@ func (s *Service) GetTypeMapping(key string, pkg string) (TypeFormat, bool) {
 	}
 
 	value, exists := s.fullTypeMapping[key]
+	if !exists {
+		// The mapping of a generic type is that of all its instances.
+		genericKey, _, _ := strings.Cut(key, "[")
+		value, exists = s.fullTypeMapping[genericKey]
+	}
 
 	return value, exists
 }
diff --git a/outputs/openapi/components.go b/outputs/openapi/components.go
index 850993e..ccb1b6d 100644
--- a/outputs/openapi/components.go
+++ b/outputs/openapi/components.go
@@ -1,6 +1,7 @@
 package openapi
 
 import (
+	"regexp"
 	"slices"
 	"sort"
 	"strconv"
@@ -83,18 +84,18 @@ func makeCollisionSafeNamesFromComponents(components []astra.Field) {
 
 					if uniqueBindings {
 						// If there are unique bindings, we need to add the binding type to the collision safe name.
-						collisionSafeNames[collisionSafeKey(bindingType, component.Name, component.Package)] = strings.Join(splitPackage, ".") + "." + string(bindingType) + "." + component.Name
+						collisionSafeNames[collisionSafeKey(bindingType, component.Name, component.Package)] = strings.Join(splitPackage, ".") + "." + string(bindingType) + "." + safeTypeName(component.Name)
 					} else {
 						// If there are no unique bindings, we can just use the package name.
-						collisionSafeNames[collisionSafeKey(bindingType, component.Name, component.Package)] = strings.Join(splitPackage, ".") + "." + component.Name
+						collisionSafeNames[collisionSafeKey(bindingType, component.Name, component.Package)] = strings.Join(splitPackage, ".") + "." + safeTypeName(component.Name)
 					}
 				} else {
 					if uniqueBindings {
 						// If there are unique bindings, we need to add the binding type to the collision safe name.
-						collisionSafeNames[collisionSafeKey(bindingType, component.Name, component.Package)] = getPackageName(component.Package) + "." + string(bindingType) + "." + component.Name
+						collisionSafeNames[collisionSafeKey(bindingType, component.Name, component.Package)] = getPackageName(component.Package) + "." + string(bindingType) + "." + safeTypeName(component.Name)
 					} else {
 						// If there are no unique bindings, we can just use the package name.
-						collisionSafeNames[collisionSafeKey(bindingType, component.Name, component.Package)] = getPackageName(component.Package) + "." + component.Name
+						collisionSafeNames[collisionSafeKey(bindingType, component.Name, component.Package)] = getPackageName(component.Package) + "." + safeTypeName(component.Name)
 					}
 				}
 			}
@@ -104,6 +105,24 @@ func makeCollisionSafeNamesFromComponents(components []astra.Field) {
 	separateSameNames(components)
 }
 
+// unsafePackagePath and unsafeCharacters are what the name of a generic type has, and the name of a component must not have.
+var (
+	unsafePackagePath = regexp.MustCompile(`[^\[\](){},;:*"\s]*/`)
+	unsafeCharacters  = regexp.MustCompile(`[^a-zA-Z0-9._-]+`)
+)
+
+// safeTypeName returns the name of a type as it can be part of the name of a component.
+// Only instances of generic types have names that cannot, they have the type arguments in brackets.
+func safeTypeName(name string) string {
+	genericName, typeArgs, isGeneric := strings.Cut(name, "[")
+	if !isGeneric {
+		return name
+	}
+
+	typeArgs = unsafePackagePath.ReplaceAllString(typeArgs, "")
+	return genericName + "_" + strings.Trim(unsafeCharacters.ReplaceAllString(typeArgs, "_"), "_")
+}
+
 // separateSameNames changes the names that several components have been given.
 // The binding type in one name can be an element of the package path in another.
 func separateSameNames(components []astra.Field) {
-- 
2.43.0


From 99d9040d66f5e75033d07b0aba4fdad485d67ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:20 +0000
Subject: [PATCH 51/55] fix: types declared in functions share the component of
 others with their name

---
 astTraversal/packageNode.go | 43 +++++++++++++++++++++++++++++++++++++
 astTraversal/type.go        | 19 +++++++++++++++-
 2 files changed, 61 insertions(+), 1 deletion(-)

diff --git a/astTraversal/packageNode.go b/astTraversal/packageNode.go
index ec8927c..779b00b 100644
--- a/astTraversal/packageNode.go
+++ b/astTraversal/packageNode.go
@@ -5,6 +5,7 @@ import (
 	"go/ast"
 	"go/token"
 	"go/types"
+	"strconv"
 
 	"golang.org/x/tools/go/packages"
 )
@@ -238,6 +239,48 @@ func (p *PackageNode) DeclarationAtPos(pos token.Pos) (ast.Node, *FileNode, erro
 	return nil, nil, fmt.Errorf("declaration at %s not found in package %s", p.Package.Fset.Position(pos), p.Path())
 }
 
+// LocalTypeName returns the name of a type that is declared in a function, which other types of the package can have as well.
+// The first of them keeps the name, the types of the package itself before all others.
+func (p *PackageNode) LocalTypeName(obj types.Object) string {
+	if p.Package == nil {
+		return obj.Name()
+	}
+
+	names := make(map[string]struct{})
+	var before int
+	position := p.Package.Fset.Position(obj.Pos())
+	for _, def := range p.Package.TypesInfo.Defs {
+		typeDef, ok := def.(*types.TypeName)
+		if !ok || typeDef.IsAlias() {
+			continue
+		}
+		names[typeDef.Name()] = struct{}{}
+
+		if typeDef.Name() != obj.Name() {
+			continue
+		}
+		if _, isTypeParam := typeDef.Type().(*types.TypeParam); isTypeParam {
+			continue
+		}
+
+		defPosition := p.Package.Fset.Position(typeDef.Pos())
+		if typeDef.Parent() == p.Package.Types.Scope() || defPosition.Filename < position.Filename ||
+			(defPosition.Filename == position.Filename && defPosition.Offset < position.Offset) {
+			before++
+		}
+	}
+
+	name := obj.Name()
+	for i := 2; before > 0; i++ {
+		name = obj.Name() + "_" + strconv.Itoa(i)
+		if _, taken := names[name]; !taken {
+			before--
+		}
+	}
+
+	return name
+}
+
 // FindDocForType finds the documentation for a type in the package.
 func (p *PackageNode) FindDocForType(typeName string) (string, bool) {
 	p.populateTypeDocMap()
diff --git a/astTraversal/type.go b/astTraversal/type.go
index 0fbb028..3ea5fd5 100644
--- a/astTraversal/type.go
+++ b/astTraversal/type.go
@@ -230,9 +230,16 @@ func (t *TypeTraverser) Result() (Result, error) {
 }
 
 // typeName returns the name of a named type, that no other type of its package has.
-// The instances of a generic type are told apart by their type arguments.
+// The instances of a generic type are told apart by their type arguments, types that are declared in functions by a number.
 func (t *BaseTraverser) typeName(n *types.Named) string {
 	name := n.Obj().Name()
+	if isLocal(n) {
+		pkg := t.Packages.FindOrAdd(n.Obj().Pkg().Path())
+		if _, err := t.Packages.Get(pkg); err == nil {
+			name = pkg.LocalTypeName(n.Obj())
+		}
+	}
+
 	if n.TypeArgs().Len() == 0 {
 		return name
 	}
@@ -262,6 +269,11 @@ func (t *BaseTraverser) typeArgName(node types.Type) string {
 	}
 }
 
+// isLocal returns whether a named type is declared in a function.
+func isLocal(n *types.Named) bool {
+	return n.Obj().Pkg() != nil && n.Obj().Parent() != n.Obj().Pkg().Scope()
+}
+
 // isStruct returns whether the type is a struct or a pointer to a struct.
 func isStruct(node types.Type) bool {
 	if pointer, ok := Unalias(node).(*types.Pointer); ok {
@@ -358,6 +370,11 @@ func (t *TypeTraverser) Doc() (string, error) {
 			return "", err
 		}
 
+		// A type that is declared in a function has no part in the docs of the package.
+		if isLocal(named) {
+			return "", nil
+		}
+
 		doc, ok := pkg.FindDocForType(named.Obj().Name())
 		if ok {
 			return FormatDoc(doc), nil
-- 
2.43.0


From c51e870112b865e98a7cd22173ece10b2b0a7652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:21 +0000
Subject: [PATCH 52/55] fix: instances with map or array arguments of types of
 functions share one component

---
 astTraversal/type.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/astTraversal/type.go b/astTraversal/type.go
index 3ea5fd5..fb2b5ce 100644
--- a/astTraversal/type.go
+++ b/astTraversal/type.go
@@ -6,6 +6,7 @@ import (
 	"go/constant"
 	"go/token"
 	"go/types"
+	"strconv"
 	"strings"
 )
 
@@ -264,6 +265,10 @@ func (t *BaseTraverser) typeArgName(node types.Type) string {
 		return "*" + t.typeArgName(n.Elem())
 	case *types.Slice:
 		return "[]" + t.typeArgName(n.Elem())
+	case *types.Array:
+		return "[" + strconv.FormatInt(n.Len(), 10) + "]" + t.typeArgName(n.Elem())
+	case *types.Map:
+		return "map[" + t.typeArgName(n.Key()) + "]" + t.typeArgName(n.Elem())
 	default:
 		return types.TypeString(n, nil)
 	}
-- 
2.43.0


From 476e4be94f25ecbdef8e0fab2a3200d1e5d7fd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:49 +0000
Subject: [PATCH 53/55] fix: programs whose go.mod has the module path in a
 block fail

---
 mainPackage.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/mainPackage.go b/mainPackage.go
index 8c870c3..cf45551 100644
--- a/mainPackage.go
+++ b/mainPackage.go
@@ -160,9 +160,20 @@ func (s *Service) workDirPackagePath() (string, error) {
 
 // modulePath finds the path of the module in a go.mod file.
 func modulePath(fileData []byte) string {
+	var inBlock bool
 	for _, line := range strings.Split(string(fileData), "\n") {
 		line, _, _ = strings.Cut(line, "//")
-		if fields := strings.Fields(line); len(fields) == 2 && fields[0] == "module" {
+		fields := strings.Fields(line)
+		if inBlock && len(fields) > 0 {
+			return strings.Trim(fields[0], "\"`")
+		}
+
+		if len(fields) == 2 && fields[0] == "module" {
+			// The path can be in a block.
+			if fields[1] == "(" {
+				inBlock = true
+				continue
+			}
 			return strings.Trim(fields[1], "\"`")
 		}
 	}
-- 
2.43.0


From 09bbd289d6445ee132d615266c141ca286de6642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:02 +0000
Subject: [PATCH 54/55] fix: fields that are declared together have no doc but
 the first

---
 astTraversal/packageNode.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/astTraversal/packageNode.go b/astTraversal/packageNode.go
index 779b00b..335f90e 100644
--- a/astTraversal/packageNode.go
+++ b/astTraversal/packageNode.go
@@ -180,6 +180,16 @@ func (p *PackageNode) ASTAtPos(pos token.Pos) (ast.Node, error) {
 					return true
 				}
 
+				// The names of fields that are declared together belong to the same field
+				if field, ok := n.(*ast.Field); ok {
+					for _, name := range field.Names {
+						if position := p.Package.Fset.Position(name.Pos()); position.Line == node.Line && position.Column == node.Column {
+							result = field
+							return false
+						}
+					}
+				}
+
 				// The file can have been loaded more than once, each time with positions of its own
 				if position := p.Package.Fset.Position(n.Pos()); position.Line == node.Line && position.Column == node.Column {
 					result = n
-- 
2.43.0


From aa60578c70f3b7f3a3e25cec194eca9882684662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:06 +0000
Subject: [PATCH 55/55] fix: names of components have characters of types and
 packages that OpenAPI does not allow

---
 outputs/openapi/components.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/outputs/openapi/components.go b/outputs/openapi/components.go
index ccb1b6d..143747a 100644
--- a/outputs/openapi/components.go
+++ b/outputs/openapi/components.go
@@ -144,6 +144,9 @@ func separateSameNames(components []astra.Field) {
 				continue
 			}
 
+			// Names of types and packages can have characters that names of components must not have.
+			componentName = unsafeCharacters.ReplaceAllString(componentName, "_")
+
 			safeName := componentName
 			for i := 2; owners[safeName] != "" && owners[safeName] != owner; i++ {
 				safeName = componentName + "_" + strconv.Itoa(i)
-- 
2.43.0

