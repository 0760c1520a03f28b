#!/usr/bin/env python3
"""Writes ../properties.jsonl and ../MANIFEST.json. CLAIMED lists the properties with a check."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()), quantifier=dict(over=over, text=" ".join(text.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     observe_at=list(observe), hook_needed=None)))

NOTEST = "No test in the repository executes the decorator this template generates; templates_tests only samples a few calls of a few templates."

p("C01", "Generated decorators forward calls, arguments, results and panics unchanged",
  """A decorator generated from any bundled template whose own condition does not intervene (no validation failure, no open circuit, admitted by the limiter, no
  retry needed, no timeout expiry) calls exactly the same method of the wrapped implementation exactly once with the caller's arguments, the variadic slice included.
  The caller gets back exactly the implementation's results in order, and a panic of the implementation reaches the caller with its value (fallback, which calls implementations in goroutines of its own, excepted).
  The context handed on is the caller's or one derived from it. This holds in the interface's own package as in any other, for decorators of several interfaces and templates side by side in one package, and for decorators of decorators.""",
  ["inputs", "programs"], "every method shape of the source interface (context, error, variadic, named and unnamed results, none), all argument and result values, returning or panicking, for every bundled template",
  NOTEST, ["templates/"], [("Pass/Call/Declaration of a method", "generator/types.go"), ("method bodies", "templates/*")])
p("C02", "Retry: bounded attempts, one interval apart, last result returned",
  """A method that returns an error is attempted again after a failure, at most retryCount more times, each attempt with the same arguments and separated by the retry
  interval; it stops at the first success and returns the results of the last attempt made. Methods that do not return an error and decorators with
  retryCount below 1 make one attempt. When the method takes a context and it is done while waiting, no further attempt is made and the last attempt's results are returned.""",
  ["inputs", "histories", "schedules"], "all retry counts up to the bound, every sequence of outcomes, every moment of cancellation",
  NOTEST, ["templates/retry"], [("retry loop", "templates/retry")])
p("C03", "Circuit breaker follows its state machine under any call history",
  """The circuit opens when the configured number of consecutive failures (errors not in the ignore list, wrapped ones included) is reached, and stays open for the open interval
  counted from the failure that opened it; while open, calls of error-returning methods fail immediately with an error of their own and do not reach the implementation, and
  methods without an error are unaffected. A success or an ignored error resets the failure count and closes the circuit; a failure after the interval opens it again at once.
  Concurrent calls do not wait for each other, are all counted, and the state has no data race.""",
  ["histories", "inputs", "schedules"], "every history of calls, outcomes, pauses and durations up to the bound; every interleaving of concurrent calls within the preemption bound",
  NOTEST, ["templates/circuitbreaker"], [("lock and counters", "templates/circuitbreaker")],
  [("_consecutiveErrors", "failures since the last success", "templates/circuitbreaker"), ("_closesAt", "end of the open interval", "templates/circuitbreaker")])
p("C04", "Fallback returns the first success and starts implementations in turn",
  """Implementations are started in the given order: the first at once, each next one when an earlier one fails or the interval passes, and none after the call has returned.
  The call returns the results of the first implementation to finish without an error (for methods without an error, the first to finish); if all fail it returns one error that mentions every failure, and if the
  context ends first it returns at once with an error wrapping the context's. No goroutine of the decorator outlives the implementations' own calls, and nothing deadlocks or races.""",
  ["schedules", "inputs", "fault_sequences"], "any number of implementations up to the bound, every order and timing of their successes and failures, every moment of cancellation, every method shape",
  NOTEST, ["templates/fallback"], [("start, result and done channels", "templates/fallback")])
p("C05", "Rate limit admits at most the burst plus one call per interval",
  """Over any span from its creation the decorator has admitted at most burst calls plus one per 1/rps interval elapsed, across all methods and concurrent callers, and idle time does not accumulate into a larger burst
  than the configured one plus the ticks in flight. Calls within the burst do not wait, waiting calls are admitted one per interval, and a call of a method that takes a context and returns an error gives up with the context's error, without calling the implementation, when its context ends first.""",
  ["schedules", "inputs", "histories"], "bursts, rates, pauses between calls, numbers of concurrent callers and cancellation moments within the bounds",
  NOTEST, ["templates/ratelimit"], [("ticks channel", "templates/ratelimit")])
p("C06", "Pool: an implementation serves one call at a time and always returns to it",
  """No implementation of the pool is ever executing two calls at once; a call waits only while all implementations are busy, and every implementation is back in the pool
  when its call ends, by returning or by panicking. Creating an empty pool panics.""",
  ["schedules", "inputs"], "pool sizes and numbers of concurrent callers within the bound, every interleaving within the preemption bound, calls that return or panic",
  NOTEST, ["templates/syncpool"], [("pool channel", "templates/syncpool")])
p("C07", "Round-robin pool spreads calls evenly, also under concurrency",
  """Any k*n calls on a pool of n implementations, sequential or concurrent and of whatever methods, reach each implementation exactly k times, and sequential calls visit all implementations cyclically.
  An empty pool is refused: the constructor returns an error and its Must form panics.""",
  ["schedules", "histories"], "pool sizes and call counts within the bound, every interleaving within the preemption bound",
  NOTEST, ["templates/robinpool"], [("atomic counter", "templates/robinpool")])
p("C08", "Timeout: the implementation's context ends at the earlier deadline",
  """For a method that takes a context and has a positive timeout configured, the implementation receives a context derived from the caller's whose deadline is the earlier of the caller's own and now plus that method's timeout, and that is
  cancelled when the call returns. Without a positive timeout the context is handed on without a new deadline, and methods without a context are unaffected.""",
  ["inputs"], "all timeout values and caller deadlines, every method",
  NOTEST, ["templates/timeout"], [("context.WithTimeout per method", "templates/timeout")])
p("C09", "Validation decorators refuse invalid arguments before the call",
  """For validate, grpc_validate and twirp_validate: a method that returns an error is not called when any of its arguments has a Validate() error method that returns an error; the call then returns zero results
  and the error of the first such argument (as is, as a gRPC InvalidArgument status, or as a twirp invalid argument error with its text respectively). Every argument is validated at most once and arguments without such a method, nil interfaces and methods without an error are let through.""",
  ["inputs"], "every combination of arguments, dynamic types and validation outcomes",
  NOTEST, ["templates/validate", "templates/grpc_validate", "templates/twirp_validate"], [("type assertion per parameter", "templates/*validate")])
p("C10", "Twirp error decorator keeps the error and adds the request data",
  """When the implementation returns a twirp error the caller receives a twirp error of the same code and message that carries the original metadata plus the request data, the JSON form of the first argument after the context; any other error
  becomes an internal twirp error that wraps it, with its message and the request data. A nil error, the other results and errors of methods without such an argument pass unchanged.""",
  ["inputs"], "all methods, error kinds, metadata and argument values", NOTEST, ["templates/twirp_error"], [("metadata loop", "templates/twirp_error")])
p("C11", "Tracing decorators open and always close one span per call",
  """For opencensus, opentelemetry, opentracing and elasticapm: a call of a method that takes a context runs within exactly one span named after the decorator instance and method that is a child of the span in the caller's context
  and is handed to the implementation in its context; the span is ended exactly once however the call ends, panics included, and records an error if and only if the method returned one. Methods without a context pass without a span.""",
  ["inputs"], "all methods, outcomes, presence of a parent span, instance names and span decorators", NOTEST,
  ["templates/opencensus", "templates/opentelemetry", "templates/opentracing", "templates/elasticapm"], [("deferred end of the span", "templates/*")])
p("C12", "Prometheus decorator observes every call once with the right labels",
  """Every call, panics included, adds exactly one observation with the instance name, the method name and the result label, which is "error" if the method returned a non-nil error and "ok" otherwise;
  the observed value is the duration of the implementation's call in seconds. The metric is named by MetricName or <interface>_duration_seconds.""",
  ["inputs", "histories"], "all methods, outcomes, durations, instance names", NOTEST, ["templates/prometheus"], [("deferred observation", "templates/prometheus")])
p("C13", "Log decorators report every call before and after with its data",
  """For log and logrus: each call logs one record with the method's name and its parameters before the implementation runs and one with its results after it, also when it panics;
  a returned error goes to the error logger or error level with its text and a success does not. Every parameter and result is logged with its own value, by logrus under its own name and by log in order.""",
  ["inputs"], "all methods, parameter and result values, outcomes", NOTEST, ["templates/log", "templates/logrus"], [("deferred record", "templates/log, templates/logrus")])

GT = "The unit tests check a handful of fixed signatures and types; the guarantee is over all declarations a user may write."
p("C14", "Parameter and result names handed to templates are usable and unique",
  """In every method handed to a template, the names of all parameters and results taken together are pairwise distinct, non-blank Go identifiers; a name declared in the source is kept unless it has to change to be so.
  The last result is called err exactly when its type is error, and the first parameter is called ctx when it is a Context.""",
  ["inputs", "programs"], "all method signatures within the bound: any mix of named, unnamed, blank and grouped parameters and results of any types", GT,
  ["generator/types.go"], [("NewMethod/makeParams/NewParam/genName", "generator/types.go")])
p("C15", "Types are rendered so that they parse back to the same type",
  """The text a template gets for the type of a parameter or result parses as a Go type that is identical to the declared one (directions of channels, array lengths, variadic element, struct fields and tags, function
  parameters and results, generic arguments included), when the decorator goes to the source package itself.""",
  ["inputs", "programs"], "all type expressions up to the depth bound", GT, ["printer/printer.go"], [("PrintType", "printer/printer.go")])
p("C16", "Types of the source package are qualified everywhere in other packages",
  """When the decorator goes to a different package, every reference to a type declared in the source package, at any depth of a parameter's or result's type, is qualified with the selector under which the generated file imports
  that package, and every other name (predeclared types, selectors, field, parameter and method names) is left alone. The import carrying that selector is among the generated file's imports.""",
  ["inputs", "programs"], "all type expressions up to the depth bound; all package names and aliases", GT, ["printer/printer.go", "generator/generator.go"], [("printIdent and recursion", "printer/printer.go"), ("source selector", "generator/generator.go NewGenerator")])
p("C17", "The decorator has exactly the method set of the source interface",
  """The methods handed to templates are exactly the method set of the named interface: own methods and those of interfaces embedded at any depth, from the same file, another file of the package or another package under any import name, each with its own signature;
  whatever is embedded that cannot be resolved to an interface is an error and never a silent omission.""",
  ["programs", "configurations"], "all embedding graphs within the bound over files and packages, import aliases included", GT, ["generator/generator.go"],
  [("findMethods/processInterface/processEmbedded/mergeMethods", "generator/generator.go")])
p("C18", "Unexported names that the target package cannot use are refused",
  """Generating into another package fails, producing nothing, when the interface has a method that is unexported, or a method's signature mentions at any depth an unexported type of the source package; generating into the same package, and mentions of
  exported or predeclared types, never fail for that reason.""",
  ["inputs", "programs"], "all names and type expressions within the bound", GT, ["generator/generator.go", "printer/printer.go"], [("errUnexportedMethod/errUnexportedType", "generator/generator.go, printer/printer.go")])
p("C19", "Method helpers render consistent, valid Go for every signature",
  """For every method the texts rendered for templates (declaration, signature, call, pass-through, parameter and result names, structs, pointer structs, maps and struct return) are syntactically valid Go that lists exactly the method's
  parameters or results in order with their names and types; variadic parameters become slices in structs and are spread in calls.""",
  ["inputs"], "all methods within the bound on numbers of parameters and results, names and types", GT, ["generator/types.go"], [("Method and ParamsSlice methods", "generator/types.go")])
p("C20", "Generic interfaces keep their type parameters and embedded instantiations",
  """For a generic interface, the type parameter list and the type argument list handed to templates name the same parameters in declaration order with their constraints, source package types qualified.
  Methods obtained by embedding an instantiated generic interface have each of its type parameters replaced by the corresponding type argument wherever it occurs in their signatures.""",
  ["inputs", "programs"], "all type parameter lists, constraints and embedded instantiations within the bound", GT, ["generator/generics.go", "generator/generator.go"],
  [("buildVars/buildGenericTypesFromSpec/buildGenericParamsString", "generator/generics.go")])
p("C21", "Import block is the sorted, deduplicated union of all imports",
  """The import block a template renders contains every import of the source file, those the signatures of embedded interfaces need, and every import the template asks for, quoted, each exactly once and in sorted order, however the paths asked for are quoted or surrounded by spaces.""",
  ["inputs"], "all lists of imports within the bound", GT, ["generator/generator.go"], [("TemplateInputs.Import", "generator/generator.go")])
p("C22", "The go:generate line reproduces the command that made the file",
  """Unless -g is given, the generated file carries exactly one go:generate line, and running that line in the output directory is equivalent to the original command: same interface, source package, template, output file, local prefix and the same
  variables with the same values in the same order. With -g there is none.""",
  ["inputs", "configurations"], "all flag values within the bound", "Tests compare one or two rendered headers; the round trip has to hold for every flag value.", ["cmd_generate.go"], [("headerTemplate/varsToArgs/loadTemplate", "cmd_generate.go")])
p("C23", "Remote template loading returns the right body or an error, never a mix",
  """Loading a remote template returns the complete body and its URL on success; a failed request, a status other than 200, a failed read, a failed close or undecodable metadata is an error, a template without commits is an error, and the response body is always closed exactly once.
  A bare name is resolved to its latest commit in the gowrap repository, URLs are fetched as they are, and file:// paths are read directly or, when absent, below the git root.
  Listing returns the name of every file below templates/ of the repository's tree once and in order, or an error.""",
  ["fault_sequences", "inputs"], "every sequence of responses, statuses, bodies and failures within the bound, every path form", "Tests sample a few responses.", ["loader/loader.go"], [("get/fetchFromGithub/Load", "loader/loader.go")])
p("C24", "Local templates win over remote ones; other read errors are not masked",
  """A template name that can be read as a local file is used from there without any network access; only when the file does not exist is the remote loader asked, and any other read failure is reported. The template reference recorded in the file's header and for regeneration is the URL for templates given as http(s) URLs or found remotely, and otherwise the path of the template relative to the output directory.""",
  ["inputs", "fault_sequences"], "all outcomes of the local read and of the remote load, all paths within the bound", "Tests sample one path and one error.", ["cmd_generate.go"], [("loader.Load/loadTemplate", "cmd_generate.go")])
p("C25", "gen writes the whole output once on success and nothing on failure",
  """The gen command writes to its output file exactly once, with the complete generated source, only after everything else has succeeded; when any step fails (flags, loading, template, generation, formatting) it returns that error and the output file is
  left as it was. No other file is changed and no directory is left behind by a failure, and the output can be read and replaced by its owner. Missing output, interface or template flags are reported as command line errors.""",
  ["fault_sequences", "inputs"], "every failing step and every combination of missing flags", "Tests cover some failing steps only.", ["cmd_generate.go"], [("GenerateCommand.Run", "cmd_generate.go")])
p("C26", "template list and copy report exactly what the loader delivers",
  """template list prints every remote template name once, in order, and fails when there are none; template copy writes exactly the loaded body to the given file, which its owner can read and replace, and names its URL, writing nothing when loading fails and reporting
  write failures. Missing or unknown subcommands and arguments are command line errors.""",
  ["inputs", "fault_sequences"], "all loader results and failures, all argument lists within the bound", "Tests sample a few cases.", ["cmd_template.go"], [("TemplateCommand.Run/list/fetch", "cmd_template.go")])
p("C27", "The command line dispatches and reports failures by exit status",
  """For every command line the program ends without a Go panic: exit status 0 after a successful command or help, 2 with a message for wrong usage (no or unknown command, bad flags, too many help arguments) and 1 with the error's own text for a
  failing command.""",
  ["inputs"], "all argument vectors within the bound and all command outcomes", "The main package has no tests.", ["cmd/gowrap/gowrap.go", "command.go"], [("main/help/die", "cmd/gowrap/gowrap.go")])
p("C28", "Template string functions meet their documentation for all strings",
  """upFirst and downFirst change the case of the first letter only and leave the rest alone, up and down map all letters, replace replaces every occurrence, and snake yields a lower-case name that differs from its input, case aside, only by inserted
  underscores between words; none of them fails on any string.""",
  ["inputs"], "all strings up to the length bound", "Tests check a dozen strings.", ["cmd_generate.go"], [("upFirst/downFirst/toSnakeCase", "cmd_generate.go")])
p("C29", "Generation is deterministic",
  """Generating twice from the same sources with the same options hands the same data to the templates and produces the same output, whatever the iteration order of maps.""",
  ["schedules", "programs"], "all orders in which maps may be iterated, for the declarations within the bound", "A test runs one iteration order.", ["generator/generator.go", "printer/printer.go"], [("iteration over files and imports", "generator/generator.go")])

p("C30", "Generated files import every package they use exactly once",
  """Whatever the source file and the template import, under their own names or others, the generated file is valid Go that declares each import at most once, imports nothing it does not use, and
  every package reference of the method signatures and of the template finds the package it means. Packages below the local prefix asked for come after the others when nothing is renamed.""",
  ["inputs"], "every combination of imports of the source file and of the template, plain, named as the package and under another name, in one declaration or several, used in the interface or elsewhere, for decorators in the source package and in another one",
  "The tests compare single outputs; whether imports of the source file and the template collide depends on both.",
  ["generator/generator.go", "cmd_generate.go"], [("imports of the source file", "generator/generator.go NewGenerator, makeImports"), ("merging the imports", "generator/generator.go Generate")])

p("C31", "The generated file joins the package of its directory",
  """The generated file's package clause names the package that its output directory already holds, otherwise the directory itself; when neither gives a name the command fails. In the interface's own package
  the decorated interface is referred to by its plain name, from elsewhere through the name under which the generated file imports the interface's package, and that reference is the interface the user named.""",
  ["inputs"], "source and output directories that are the same or different, empty or not, whose names equal their packages' or not, given relative or with ./ and ../",
  "The tests generate into a few fixed directories and do not look at how the references resolve.",
  ["generator/generator.go", "cmd_generate.go"], [("destination package", "generator/generator.go loadDestinationPackage, makePackage"), ("interface reference", "generator/generator.go NewGenerator"), ("package clause", "cmd_generate.go headerTemplate")])
p("C32", "Templates get every -v variable with the last value given for it",
  """Each -v key=value gives the template a variable of that name whose value is the text after the first equal sign, -v key one whose value is true; a variable given again takes the last value, and no other variables appear.""",
  ["inputs"], "all sequences of -v arguments within the bound, with any bytes in keys and values", "The tests check single arguments.",
  ["cmd_generate.go"], [("vars.Set and vars.toMap", "cmd_generate.go")])
p("C33", "Methods carry their own comments",
  """Every method handed to the template has the lines of its own doc comment, in order, and its own trailing comment, and nothing of its neighbours, wherever the method is declared: in the interface itself or an embedded one, in another file or package, in a generic interface.""",
  ["inputs", "programs"], "every combination of absent, one-line and multi-line comments in both places, of both comment styles, for direct and embedded methods",
  "One test looks at one interface's comments.", ["generator/types.go"], [("Doc and Comment", "generator/types.go NewMethod")])
p("C34", "Help shows every command and flag as they are",
  """gowrap help lists every command once, in order, with its description; gowrap help COMMAND shows the command's usage line, every flag of the command with its description and default, and the command's help text, all as they are and on the standard output.""",
  ["inputs"], "any text in the descriptions, usage lines, flags and help of a command, with and without flags", "The tests compare a few fixed help texts.",
  ["cmd/gowrap/gowrap.go", "command.go"], [("help", "cmd/gowrap/gowrap.go help"), ("Usage and HelpMessage", "command.go")])
p("C35", "Generators are all or nothing, repeatable and independent of each other",
  """A generator writes the complete source in case of success; whatever goes wrong (wrong template, failing template, text that is not Go, failing writer) is reported, and then nothing is written. Used again it
  produces the same source, whatever other generators do in between, also when they are made with the same options, and the caller's options stay as they are. A package loaded before gives the same source as its path.""",
  ["inputs", "histories"], "every kind of failure in header and body, pairs of generators over interfaces, outputs and shared options",
  "The tests make one generator at a time and look at its first result.", ["generator/generator.go"], [("NewGenerator and Generate", "generator/generator.go")])

p("C36", "Templates get the data and the functions the documentation promises",
  """The header and the body template see the options, variables and custom functions they were given, unchanged, the source and the destination package, and the interface under its name, type, type parameters and methods; the header comes
  before the body and nothing is executed before Generate. With the gen command every function of the sprig library is available under its name and does what it does there, except where gowrap documents a function of its own.""",
  ["inputs"], "any texts in options and variables, variables of several kinds, interfaces with and without type parameters, every function of the library",
  "The tests run a few templates.", ["generator/generator.go", "cmd_generate.go"], [("TemplateInputs and the header's data", "generator/generator.go Generate"), ("helperFuncs", "cmd_generate.go")])

p("C37", "Decorators may be shared by goroutines",
  """Generated decorators of every bundled template may be used by several goroutines at once, on the same and on different methods: there is no data race, no deadlock, and every caller's arguments and context reach the implementation as its own,
  every caller gets the results or the error of its own call, and what a decorator counts per call (attempts) is counted per caller. The implementation is taken to be safe for that itself, which pools of exclusive implementations don't require.""",
  ["schedules", "inputs"], "all schedules of concurrent calls of any two methods within the preemption bound, succeeding and failing, for every bundled template",
  "No test calls a decorator concurrently, and a schedule that happens to pass says nothing of the others.", ["templates/"], [("method bodies and state of decorators", "templates/*")])

p("C38", "Generation ends with a file or an error whatever the source declares",
  """Whatever the source package declares, generation comes to an end: it makes a file that has the methods of the interface, or reports an error. It does not panic, recurse without end or hang,
  be it interfaces that embed each other, themselves or what is not an interface, types declared as themselves, forms the compiler would refuse, or a file one byte of which is wrong.""",
  ["inputs", "programs"], "every pair of declarations of two types over the forms of types, embedded or named, every expression in the place of a type in signatures, constraints and type arguments, any byte at any place of a source file",
  "The tests generate from sources that compile.", ["generator/generator.go", "generator/generics.go", "generator/types.go", "printer/printer.go"],
  [("findTarget, processInterface, processIdent", "generator/generator.go"), ("parseGenericType", "generator/generics.go"), ("PrintType", "printer/printer.go")])

CLAIMED = "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C26 C27 C28 C29 C30 C31 C32 C33 C34 C35 C36 C37 C38".split()
PENDING = "The check for this property is under construction."
NA = {}
PENDING_IDS = [x["id"] for x in P if x["id"] not in CLAIMED and x["id"] not in NA]

NOTE_DECO = ("The decorator is generated from the current template by the current generator, its SSA is executed symbolically; within the bounds stated in DESIGN.md and the evidence file every path, "
  "input value and, for concurrent entries, schedule up to the preemption bound is decided by the engine and z3. Trusted: go/ssa, the engine's reading of it (cross-checked by native replay), the stub modules for third-party libraries, the virtual clock.")
NOTE_GEN = ("The SSA of the current packages is executed symbolically, standard library included; within the bounds stated in DESIGN.md and the evidence file every path and input value is decided by the engine and z3. "
  "Trusted: go/ssa, the engine's reading of it (cross-checked by native replay), and the models of the operating system boundary.")
def main():
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for x in P: f.write(json.dumps(x) + "\n")
    checks = []
    for x in P:
        i = x["id"]
        if i not in CLAIMED: continue
        checks.append(dict(property=i, quick_cmd="bash check.sh " + i, thorough_cmd="bash check.sh %s -tier thorough" % i,
            evidence_file="evidence/%s.json" % i,
            technique="symbolic execution of Go SSA with an SMT solver (z3), " + ("schedules and timers included; native replay" if i < "C14" or i == "C37" else "native replay of counterexamples"),
            level="model_checking", level_note=NOTE_DECO if i < "C14" or i == "C37" else NOTE_GEN))
    na = [dict(property=k, reason=v) for k, v in NA.items()] + [dict(property=k, reason=PENDING) for k in PENDING_IDS]
    json.dump(dict(version=1, setup_cmd="bash build_engine.sh", checks=checks, not_applicable=na,
        notes="One engine (/verif/engine, Go) executes the SSA of /repo's current code symbolically; harnesses under /verif/harness state the properties. See DESIGN.md."),
        open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
main()
