"""property -> (technique, level_note)"""
_M = "; generated programs are analysed by the real generator in a process of its own and failing ones are compiled and minimised"
_L = "Random programs of a bounded grammar, not all programs. Trusts the reference model of harness/internal/prog and stub modules in place of gin and uuid."
FIXES = [("characters of types and packages that OpenAPI", "C12"), ("fields that are declared together", "C12"), ("module path in a block", "C16"), ("instances of a generic type share one", "C04"), ("types declared in functions share the component", "C04"), ("instances with map or array arguments", "C04"), ("documents of programs without routes", "C12"), ("schemas that are empty are missing", "C12"), ("outputs of a service that is generated again", "C09"), ("look like sources of the main package", "C10"), ("doc of a struct field is found at random", "C09"), ("taken for a package of another", "C04"), ("same name in an encoding", "C09"), ("responses written by Data are never", "C01"), ("unnamed structs whose fields have different tags", "C21")]
CHECKS = {
 "C01": ("model-based property testing of generated gin programs: the documented responses against a reference model" + _M, _L),
 "C02": ("model-based property testing of generated gin programs: documented parameters and bodies against a reference model" + _M, _L),
 "C03": ("property testing of generated type graphs: schemas compared with the Go types by bisimulation over the references" + _M, _L),
 "C13": ("property testing of generated types and mapping options against a reference table" + _M, _L),
 "C14": ("property testing of generated constant declarations against the values they were generated from" + _M, _L),
 "C15": ("property testing of generated doc comments and handler names against a reference model" + _M, _L),
 "C16": ("grammar-based fuzzing: documented calls mixed with and nested in arbitrary Go statements must stay documented and never fail the run" + _M, _L),
 "C17": ("property testing of generated programs and custom functions: what each is offered and what the document says, against a reference model" + _M, _L),
 "C21": ("property testing of generated struct tags against a reference model of each encoding" + _M, _L),
 "C07": ("round-trip property testing of generated services: state and generated outputs before and after the cache", "Random service states of a bounded grammar; text that yaml.v3 itself does not round-trip is excluded."),
 "C08": ("model-based property testing with real gin routers: the paths, methods and path variables of the document against router.Routes() and the deny lists", "Random route tables and deny lists; exploration, not proof. Trusts gin's own list of its routes."),
 "C11": ("model-based property testing of histories of route tables: the written function directories against a reference translation", "Random route tables and histories; exploration, not proof. Trusts the reference translation of paths."),
 "C18": ("property testing of validation, builder and document against a reference model over generated text", "Random configurations; exploration, not proof."),
 "C19": ("fault-injection property testing: generated pipelines with injected failures and sabotaged files against a reference trace", "Random pipelines of recording inputs and outputs with faults at random stages; exploration, not proof."),
 "C20": ("stateful property-based testing of the collections against a reference set model (rapid, shrinking)",
         "Random histories of additions and replacements against an independent model; exploration, not proof. Trusts the model of identity (type, package, status, content type; name, package; path, method)."),
 "C04": ("property testing of component names over generated sets of types and packages, and of references in generated programs", "Random sets of types and programs of a bounded grammar; exploration, not proof."),
 "C05": ("metamorphic property testing: generated programs and behaviour-preserving rewrites of them must be documented equally" + _M, _L),
 "C06": ("differential property testing: generated projects documented by the program and by the CLI must give the same files", "Random projects of a bounded grammar with stub modules in place of gin; the CLI runs as a real process."),
 "C09": ("metamorphic property testing: generated programs generated repeatedly, after other programs, with reordered and fewer routes, must give the same bytes and operations" + _M, _L),
 "C10": ("fault-injection property testing: generated projects, kills at stages and random times, failing outputs and leftovers; the file tree before and after", "Random projects, faults and leftovers; kills at stage boundaries and at random times, not at every system call."),
 "C12": ("differential property testing of the outputs of generated programs and services: together and alone, JSON and YAML, and against the structure of OpenAPI 3.0" + _M, _L),
}
