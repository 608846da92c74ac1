#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property texts live here, one place)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "observe_at": observe, "hook_needed": None}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(d)

GENPROG = "The existing tests parse about twenty hand-written handlers (a pet store and one handler per feature); "

p("C01", "Documented responses are exactly the responses the handler can write",
  "For every gin handler that writes its responses with the supported context calls (JSON, XML, YAML, ProtoBuf, String, Data, Status, AbortWithStatus, AbortWithStatusJSON, AbortWithError) under a status code that is a constant or a once-assigned variable, the generated OpenAPI operation has exactly one response entry per status code written, with exactly the content types written under that status and for each the schema of the Go value passed. Nothing is dropped, invented, or moved to another status, content type or route, however many responses the handler has and in whatever order and control-flow position they occur. Response headers set by the handler are listed on its responses, and no others.",
  ["programs", "inputs"], "all compilable handlers built from the supported response calls, all status-code expressions of the documented forms, all value expressions whose static type is known, in any control-flow position",
  GENPROG + "they fix one or two responses per handler, so combinations (several types, statuses, content types, duplicates, nesting) are never sampled.",
  ["inputs/gin/parseFunction.go", "safePushing.go", "contextFuncBuilder.go", "astTraversal/expression.go", "astTraversal/extractStatusCode.go", "outputs/openapi/generate.go"],
  [("dispatch on gin context methods", "inputs/gin/parseFunction.go"), ("return type set", "safePushing.go:AddReturnType"), ("constant resolution", "astTraversal/expression.go:Value"), ("response assembly", "outputs/openapi/generate.go")],
  ["paths.*.*.responses of the generated OpenAPI file"],
  [("Route.ReturnTypes", "responses found so far", "types.go")])

p("C02", "Documented request inputs are exactly the inputs the handler reads",
  "For every gin handler, the OpenAPI operation's query, header and path parameters and its request body are exactly the inputs the handler reads through the supported context calls (Query*/GetQuery*, PostForm*/GetPostForm*, FormFile, GetHeader, and the Bind/ShouldBind families), each with the right name, location, array/map/file/scalar shape and serialisation (maps of query values as deepObject) and, for a form, one property per field read; only path variables are required. A parameter appears once per (name, location) however often it is read, and a struct bound as query or header values is spread into one named parameter per field the binding tag exposes. No parameter or body is invented, and every emitted parameter has a non-empty name.",
  ["programs", "inputs"], "all handlers combining any number of the supported input calls, with names given as literals, raw literals, constants or once-assigned variables, and all bound struct types",
  GENPROG + "each reads a single input, so several form fields, repeated reads, mixed locations and named constants are never exercised.",
  ["inputs/gin/parseFunction.go", "outputs/openapi/generate.go", "outputs/openapi/schema.go", "astTraversal/expression.go", "utils/pathParams.go"],
  [("dispatch on gin context methods", "inputs/gin/parseFunction.go"), ("parameter and body assembly", "outputs/openapi/generate.go"), ("shape to schema", "outputs/openapi/schema.go:mapParamToSchema")],
  ["paths.*.*.parameters", "paths.*.*.requestBody"])

p("C03", "Component schemas describe the Go types field for field",
  "For every Go type reachable from a handler, the schema generated for it describes the values that type encodes to: an object schema's property names are exactly the exported, non-hidden field names of the encoding it is used with, each property has the type and format of its Go field, slices and arrays become arrays of the element's schema, maps become objects of the value's schema, pointers are transparent, embedded structs contribute their promoted properties through allOf, and named types are referenced, not inlined or confused. This holds for any nesting, any package the type lives in, and recursive types.",
  ["programs", "inputs"], "all type graphs over basic types, named types, structs (tags, embedding, hidden, unexported and anonymous-struct fields), pointers, slices, arrays, maps, interfaces, across packages, including recursive ones",
  GENPROG + "their types are a fixed handful of flat structs; type graphs are unbounded.",
  ["astTraversal/type.go", "astTraversal/tags.go", "utils.go", "outputs/openapi/components.go", "outputs/openapi/schema.go", "formatTypes.go"],
  [("type traversal", "astTraversal/type.go:Result"), ("field conversion", "utils.go:ParseResultToField"), ("component to schema", "outputs/openapi/components.go:componentToSchema"), ("basic type table", "formatTypes.go")],
  ["components.schemas", "encoding/json output of values of the type"],
  [("Service.Components", "named types found so far", "service.go")])

p("C04", "Every reference resolves and no two types share a component name",
  "In every generated OpenAPI document each $ref resolves to a component in the same document, and two different Go types never share a component name, whatever their packages' paths: types with the same name in packages with the same last path element, in nested or suffix-related paths, or in any number of packages, types declared in functions and instances of generic types, all keep their own schema. Generation never fails or panics because of type names or package paths. A type whose name no other type clashes with in a package with the same last path element keeps the plain package.Type form.",
  ["programs", "inputs"], "all sets of (package path, type name, binding-tag set) and all reference graphs over them",
  "Two tests use two fixed packages that differ in one path element; three packages, equal suffixes, paths of different depth and different binding tags are not covered.",
  ["outputs/openapi/components.go", "bindingTags.go"],
  [("collision-safe naming", "outputs/openapi/components.go:makeCollisionSafeNamesFromComponents"), ("reference lookup", "outputs/openapi/components.go:makeComponentRef")],
  ["every $ref in the document", "keys of components.schemas"],
  [("collisionSafeNames", "type and binding to component name", "outputs/openapi/components.go")])

p("C05", "Documentation does not depend on where or how the code is written",
  "Moving handler code without changing what it does leaves the generated operations the same: extracting any statements into a helper function that takes the context (same file, other file, other package, several levels deep, with the context in any argument position), nesting them in blocks, branches, loops or switches, renaming the context variable, import or constants, defining the handler inline or as a named function, and placing it in main or any other package. Types referenced through main or another package keep their schema.",
  ["programs"], "all pairs of a program and a behaviour-preserving rewrite of it from the listed family",
  "Tests contain one helper style and one inline style, each with a fixed expectation; no test relates two spellings of the same handler.",
  ["inputs/gin/parseFunction.go", "inputs/gin/parseRoute.go", "astTraversal/traverser.go", "astTraversal/callExpression.go", "mainPackage.go", "clean.go"],
  [("helper following", "inputs/gin/parseFunction.go"), ("handler lookup by file and line", "inputs/gin/parseRoute.go"), ("main package copy", "mainPackage.go")],
  ["operations of the generated OpenAPI file"],
  [("BaseTraverser.activeFile", "file whose imports and types resolve identifiers", "astTraversal/traverser.go")])

p("C06", "CLI generation equals direct generation",
  "For every program that uses only features the CLI can restore (gin input, OpenAPI, JSON and Azure Functions outputs, configuration, custom type mappings, deny lists), running the program in CLI setup mode and then the astra generate command produces the same output files as calling Parse directly. This holds for any working directory the command is run from when the cache file and directory are passed, and for repeated generation from the same cache.",
  ["programs", "configurations", "histories"], "all programs and configurations in the CLI-supported subset; setup once, generate one or more times from any directory",
  "There is no test of the CLI command; cache tests only check that a file appears.",
  ["cli/cli.go", "cli/astra/cmd/generate.go", "cli/astra/cmd/rebind.go", "cache.go", "parse.go"],
  [("cache after setup", "cache.go:Cache"), ("rebinding inputs and outputs", "cli/astra/cmd/rebind.go")],
  ["output files of both paths"])

p("C07", "Cache round trip loses nothing",
  "Saving a service to its cache and loading it into a fresh service restores its inputs' and outputs' modes and configuration, its config, its routes, its components and its custom type mapping exactly, for JSON and YAML caches (.json, .yaml or .yml) and for any cache path. Generating any output from the restored service gives the same bytes as from the original.",
  ["inputs", "histories"], "all service states (routes, parameters, bodies, responses, headers, components, nested fields, enum values, tags, config), both formats, any save/load/clear sequence",
  "Cache tests use an almost empty service and compare a few members.",
  ["cache.go", "service.go", "types.go", "input.go", "output.go", "io.go"],
  [("serialisation", "cache.go:Cache"), ("restoration", "cache.go:LoadCacheFromCustomPath")],
  ["restored service", "outputs generated from it"])

p("C08", "The documented paths are exactly the registered, non-denied routes",
  "For every gin router, the OpenAPI paths and methods are exactly the registered routes that no deny-list entry (exact path, regular expression, predicate) matches, with :name and *name segments rewritten to OpenAPI templates, the methods GET, POST, PUT, PATCH, DELETE, HEAD, OPTIONS and TRACE kept apart, and exactly one path parameter per variable of the path, with its name. A denied path never appears, and a deny entry never hides a path it does not match.",
  ["inputs", "configurations"], "all route tables gin accepts (groups, parameters, catch-alls, several methods per path, shared handlers) and all deny-list combinations",
  "Tests deny one literal path and register about ten routes with one parameter at most.",
  ["inputs/gin/createRoutes.go", "listing.go", "utils/pathParams.go", "outputs/openapi/generate.go", "routes.go"],
  [("deny list", "inputs/gin/createRoutes.go"), ("path rewriting", "utils/pathParams.go:MapPathParams"), ("method dispatch", "outputs/openapi/generate.go")],
  ["paths of the generated OpenAPI file"])

p("C09", "Generation is deterministic and independent of history",
  "Generating twice from the same program and configuration produces byte-identical OpenAPI, JSON and Azure outputs, in the same process, in a new process, or after other services were generated before it in the same process. The documentation of a route does not depend on which other routes exist, and the set of operations and schemas does not depend on the order in which routes are registered.",
  ["programs", "histories"], "all programs; repeated runs, interleavings of several services in one process, permutations and subsets of the route table",
  "Every test generates once per program; map iteration order and package-level state only show up over repetitions and histories.",
  ["outputs/openapi/generate.go", "outputs/openapi/components.go", "astTraversal/loadPackage.go", "bindingTags.go", "safePushing.go"],
  [("sorted parameters", "outputs/openapi/generate.go"), ("name table", "outputs/openapi/components.go"), ("package cache", "astTraversal/loadPackage.go")],
  ["bytes of the output files"],
  [("collisionSafeNames", "global name table", "outputs/openapi/components.go"), ("cachedPackages", "global package cache", "astTraversal/loadPackage.go")])

p("C10", "Generation touches only its outputs and recovers from leftovers",
  "A successful direct Parse changes nothing in the project directory except the requested output files: no temporary directory, no copy of the main package, and no source, module or unrelated file is created, modified or removed. If the process was killed or failed at any earlier point, the next Parse succeeds with the same outputs as from a clean directory, whatever was left in the temporary directory. In cached mode only the temporary directory with its cache and ignore file remains.",
  ["crash_points", "histories", "fault_sequences"], "all programs and output sets; every stage at which the process can be killed or a stage can fail, and arbitrary leftover contents of the temporary directory",
  "Tests create and remove the directory once on the success path and never start from a leftover one.",
  ["setup.go", "teardown.go", "dir.go", "mainPackage.go", "outputs/azureFunctions/generate.go"],
  [("temporary directory life cycle", "dir.go"), ("main package copy", "mainPackage.go"), ("teardown", "teardown.go")],
  ["file tree of the project directory before and after"])

p("C11", "Azure Functions output has one correct binding per route",
  "For every route with its own handler name, the Azure Functions output contains exactly one function directory, named after the handler, whose function.json has an HTTP trigger listing the route's method (and options) and a route template equal to the gin path with each :name replaced by {name:constraint} and each *name by {name:constraint?}, every other character unchanged, plus an HTTP output binding. Nothing from an earlier generation remains in the output directory.",
  ["inputs", "histories"], "all gin paths and parameter names (including names that are prefixes of each other or of constraint names), all methods, repeated generation into an existing directory",
  "Unit tests convert four fixed paths.",
  ["outputs/azureFunctions/generate.go", "outputs/azureFunctions/convertRoute.go", "outputs/azureFunctions/associatedMethods.go", "dir.go"],
  [("route conversion", "outputs/azureFunctions/convertRoute.go"), ("directory replacement", "dir.go:MoveTempOutputDir")],
  ["function.json files"])

p("C12", "All output formats tell the same story",
  "For every program, the YAML and JSON renderings of the OpenAPI document decode to equal documents, the file format follows the file name (.json, .yaml, .yml, anything else gets .json), and every document is structurally valid OpenAPI 3.0 (unique parameters, path variables declared, responses with descriptions, component names of the allowed characters). The JSON debugging output lists the same routes and components as the OpenAPI document, and describes each component's Go structure: kinds, element and key types, lengths, fields, doc comments, binding tags and validation tags. Producing several outputs in one run gives each the same content as producing it alone.",
  ["programs", "configurations"], "all programs and all combinations, orders and file names of outputs",
  "Tests produce one JSON document; YAML and several outputs together are not compared.",
  ["outputs/openapi/generate.go", "outputs/openapi/types.go", "outputs/json/generate.go", "generate.go"],
  [("struct tags for both encoders", "outputs/openapi/types.go"), ("suffix handling", "outputs/openapi/generate.go")],
  ["output files"])

p("C13", "Type mappings apply everywhere a mapped type is used",
  "A type with a predefined mapping (time.Time, uuid.UUID) or a custom mapping is represented by exactly the mapped type and format everywhere it is used (fields, slices, arrays, maps, pointers, responses, bodies), custom mappings override predefined ones, the last mapping given for a type wins, and types that are not mapped are unaffected. Substituted types (time.Duration, error) become their documented primitive, and the basic Go types map to their documented type and format.",
  ["inputs", "configurations"], "all custom mapping tables over the types of all programs, all positions of a mapped type",
  "Tests map one field of one type.",
  ["formatTypes.go", "substituteTypes.go", "outputs/openapi/schema.go", "outputs/openapi/components.go", "clean.go"],
  [("mapping lookup", "formatTypes.go:GetTypeMapping"), ("substitution", "substituteTypes.go")],
  ["component schemas and in-place schemas"],
  [("Service.fullTypeMapping", "merged mapping table, built once", "service.go")])

p("C14", "Enum schemas list exactly the declared constants",
  "For every named string, integer, float or boolean type with constants declared with that type in its package, the schema lists exactly the values of those literal constants, as the encoded JSON values, in source order within a file, whatever the literal's spelling (escapes, raw strings, hexadecimal, negative, underscores) and however the declarations are grouped over files. Constants of other types, other packages or with no explicit type never appear, and a type without constants has no enum list.",
  ["inputs", "programs"], "all constant declarations over all basic kinds and literal spellings, grouped in any way over the files of the package",
  "One test has one plain string enum and one plain integer enum.",
  ["astTraversal/type.go", "outputs/openapi/components.go"],
  [("constant collection", "astTraversal/type.go:Result (types.Basic)")],
  ["enum of the component schema"])

p("C15", "Descriptions and operation IDs come from the right declaration",
  "An operation's description is the normalised doc comment of its handler function, a component's description is that of its type declaration, and an operation of a named handler has the lower-camel-case handler name as its operation ID while inline handlers have none. No text comes from another declaration, from helpers, from comments inside bodies, or is attached when the declaration has no doc comment.",
  ["programs", "inputs"], "all doc comments (line, block, multi-line, unicode, grouped and ungrouped declarations, detached comments) on all handlers and types",
  "Tests cover three comments on one handler and one type.",
  ["astTraversal/doc.go", "astTraversal/function.go", "astTraversal/packageNode.go", "inputs/gin/parseRoute.go", "inputs/gin/parseFunction.go", "outputs/openapi/generate.go"],
  [("type documentation map", "astTraversal/packageNode.go:populateTypeDocMap"), ("handler documentation", "inputs/gin/parseFunction.go"), ("operation id", "inputs/gin/parseRoute.go")],
  ["description and operationId in the OpenAPI file"])

p("C16", "Arbitrary handler code never breaks generation",
  "For every compilable program, generation finishes without panicking, hanging or failing, whatever Go constructs its handlers, helpers and types contain: unresolvable calls, closures, goroutines, defers, generics, method values, builtins, conversions, recursion, shadowing, labels, channels. Code astra does not understand costs at most the information in that call: every other response and input of the same handler, nested calls in arguments and func literals included, and every other route stay documented.",
  ["programs"], "all compilable handler bodies mixing supported calls with arbitrary other Go statements and expressions at any position",
  GENPROG + "they contain only code the analysis understands.",
  ["inputs/gin/parseFunction.go", "inputs/gin/parseRoute.go", "astTraversal/expression.go", "astTraversal/type.go", "astTraversal/function.go", "astTraversal/declaration.go", "astTraversal/callExpression.go"],
  [("error recovery in the AST walk", "inputs/gin/parseFunction.go"), ("expression typing", "astTraversal/expression.go:Type")],
  ["exit of Parse", "operations of the generated OpenAPI file"])

p("C17", "Custom context functions are applied exactly",
  "A custom function registered by the user is offered every call the handler (and any helper followed) makes, its Ignored, StatusCode, ExpressionResult and Value operations yield the argument at the matching position, what it can ask about the call (its arguments, their positions and types, its results) is true, and what it adds to the route, types it makes up included, is in the output. A call it handles is not analysed again by the built-in rules or later custom functions, a call it declines is analysed as if it were not registered, and the calls nested in or following a handled call are still analysed. If a custom function fails, the failure costs no more than that call.",
  ["programs", "configurations"], "all lists of custom functions, all argument layouts and all handlers mixing handled and unhandled calls",
  "One test registers one custom function for one helper.",
  ["contextFuncBuilder.go", "inputs/gin/parseFunction.go"],
  [("positional operations", "contextFuncBuilder.go"), ("custom functions first", "inputs/gin/parseFunction.go")],
  ["operations of the generated OpenAPI file"])

p("C18", "Configuration is validated, defaulted and published verbatim",
  "Validation accepts a configuration exactly when it has a port, fills an empty host with localhost and an empty base path with /, and changes nothing else; the builder yields exactly what was set. The document's info and server URL (scheme by Secure, host, port, base path) are exactly the configuration's values, for any text, with only an empty description defaulted, and generation without a configuration is refused.",
  ["inputs", "configurations"], "all configurations (any strings, ports, flags) and any order of builder calls",
  "Tests use one configuration.",
  ["config.go", "configBuilder.go", "outputs/openapi/generate.go"],
  [("validation", "config.go:Validate"), ("info and servers", "outputs/openapi/generate.go")],
  ["info and servers of the OpenAPI file", "errors"])

p("C19", "Failures are reported, in order, and stop the pipeline",
  "If any stage fails (no input, no output, a missing configuration, an input's or output's own error, an unwritable output or cache file, a corrupt or missing cache), the call that runs it returns that error and no later stage runs; if no stage fails it returns nil and every stage ran exactly once, in the documented order, for every input and output in registration order. Loading a broken cache changes nothing in the service.",
  ["fault_sequences", "histories"], "all assignments of success or failure to every stage of every input and output, with file-system faults at each file the pipeline writes or reads",
  "Tests inject one failure at one stage at a time with one input and output.",
  ["parse.go", "setup.go", "createRoutes.go", "parseRoutes.go", "generate.go", "clean.go", "cache.go"],
  [("stage sequencing", "parse.go"), ("error returns", "parse.go, generate.go, createRoutes.go, parseRoutes.go")],
  ["returned error", "order of stage calls"])

p("C20", "Route, response and component collections behave as sets",
  "Adding responses keeps exactly one entry per distinct (type, package, status, content type) in first-seen order, whatever the sequence and grouping of additions; adding components keeps exactly one per (name, package), the first one; replacing a route changes exactly the first route with that path and method and nothing else. Adding the same things again changes nothing.",
  ["inputs", "histories"], "all sequences and groupings of additions and replacements",
  "Unit tests add one duplicate to a one-element list.",
  ["safePushing.go", "routes.go"],
  [("AddReturnType", "safePushing.go"), ("AddComponent", "safePushing.go"), ("ReplaceRoute", "routes.go")],
  ["returned slices"])

p("C21", "Each content type gets the view of the struct its tags define",
  "When a struct's binding tags (header, form, uri, json, xml, yaml) give fields different names, each body, response or parameter uses the view of the tag of its own content type or location: the names of that tag, without the fields that tag hides, with the Go field name where that tag is absent. Bind and ShouldBind document one body per body tag (form, json, xml, yaml) the struct supports and none for the others, and parsing a struct tag yields for each tag key its name, hidden flag and omitempty option and for each validation key whether required is demanded.",
  ["inputs", "programs"], "all assignments of tag names, hidden flags and options over the six tag keys to the fields of all structs, used under every content type",
  "One test uses one field with three tags.",
  ["astTraversal/tags.go", "bindingTags.go", "outputs/openapi/components.go", "outputs/openapi/generate.go", "inputs/gin/parseFunction.go"],
  [("tag parsing", "astTraversal/tags.go:ParseStructTag"), ("tag set per type", "bindingTags.go:ExtractBindingTags"), ("view selection", "outputs/openapi/components.go")],
  ["properties of each view's component"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["id"]
        f.write(json.dumps(d) + "\n")
