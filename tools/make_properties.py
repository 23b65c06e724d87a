import json
P=[]
def p(id,title,statement,over,qt,why,files,mech,state=None,observe=None,hook=None):
    d={"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":a,"where":b} for a,b in mech]}}
    if state: d["anchors"]["state"]=[{"name":a,"meaning":b,"where":c} for a,b,c in state]
    d["anchors"]["observe_at"]=observe or []
    d["anchors"]["hook_needed"]=hook
    assert len(title)<=80,(id,len(title))
    assert statement.count('. ')<=2,(id,statement.count('. '))
    P.append(d)

p("C01","Concurrent and nested renders never interfere",
"Every render of a template yields exactly the text that the template (with its base templates, imported functions and overridden blocks) defines for its own context, no matter how many other renders of the same or other templates are interleaved with it in other threads or started from inside one of its own expressions. Functions and blocks obtained in one render (as the render result object, as a bound function, or by rendering a named function or block instead of the whole page) keep producing the output of that render's context after other renders have run. The mapping the caller passes in as the context is never modified.",
["schedules","inputs","programs"],
"all interleavings of renders at the granularity of executed lines and bytecodes, all nestings, all templates and contexts",
"The tests render one template at a time in one thread; interference needs a second render in the middle of the first.",
["tonnikala/loader.py","tonnikala/runtime/python.py","tonnikala/languages/python/generator.py","tonnikala/runtime/_buffer.c"],
[("per-render context copy and per-render binder closure","Template.render_to_buffer, make_template_context, generated __TK__binder"),("one output buffer per function call","PythonNode.make_buffer_frame"),("import into a copied context","TonnikalaRuntime.import_defs")],
[("builtins cache","shared dictionary of built-in names, copied for every render","loader._builtins")],
["Template.render","Template.render_to_buffer","functions captured from a bound context"])

p("C02","A failing render raises its own error and damages nothing",
"If an expression, a called function, a conversion to text or a translation raises during a render, the render raises that very exception object (type, arguments, cause and context intact; exceptions that are not ordinary errors, such as a keyboard interrupt, pass through as well) and returns no text. The caller's context is unmodified, other renders in progress are unaffected, and every later render of the same or any other loaded template is exactly what it would have been had the failing render never happened.",
["fault_sequences","schedules","inputs"],
"every evaluation step of every template as the failing step, every exception type, failing renders interleaved with and followed by others",
"The tests raise from one or two fixed places and do not look at what the template does afterwards.",
["tonnikala/loader.py","tonnikala/runtime/python.py","tonnikala/runtime/debug.py","tonnikala/runtime/_buffer.c"],
[("exception capture and re-raise","loader.handle_exception, runtime.debug.make_traceback, helpers.reraise"),("state only in per-render objects","Template.render_to_buffer")],
None,["Template.render"])

p("C03","Tracebacks point at the failing template line",
"When a render fails, the traceback of the raised exception contains, for every template construct active at the time (main body, block, function, in base, child and imported templates), an entry with that template's file name and the line of that template on which the expression being evaluated is written. The innermost template entry is the line of the expression that failed, whether it failed while being evaluated, while being converted to text or escaped, or while being written as an attribute; concurrent failing renders each get their own entries only. When a template cannot be compiled, the traceback of the error ends with an entry of that template's file (or the error itself has its name) and the line of the faulty construct, also if the template is loaded as a base or import of another one.",
["fault_sequences","programs","schedules"],
"every evaluation or conversion step of every template as the failing step; every nesting of template functions; concurrent failures",
"The tests check the line of a handful of fixed errors, all raised by the evaluation of the expression itself.",
["tonnikala/runtime/debug.py","tonnikala/loader.py","tonnikala/languages/python/generator.py"],
[("source positions carried into the generated syntax tree","generator.adjust_locations, get_fragment_ast, ast.fix_missing_locations"),("traceback rewriting","runtime.debug.translate_exception, fake_exc_info")],
None,["exception.__traceback__"])

p("C04","Expressions are evaluated exactly once, in document order, until one fails",
"During a render every dynamic expression that the control flow reaches is evaluated exactly once per time it is reached, in document order (within a start tag: attribute expressions in source order, then the dynamic attribute mapping; a strip condition of an element with content is evaluated once for each of its two tags), a value that is to be escaped is converted to text before the next expression is evaluated, and expressions that control flow does not reach are never evaluated. If an expression fails, nothing after it is evaluated. This holds unchanged when other renders are interleaved.",
["fault_sequences","programs","schedules"],
"all templates, all control flows and loop lengths, every evaluation as failure point, all interleavings",
"Tests compare final text, in which double, missing, reordered or superfluous evaluation of side-effect-free expressions is invisible.",
["tonnikala/languages/python/generator.py","tonnikala/ir/generate.py","tonnikala/syntaxes/tonnikala.py"],
[("code generation and output coalescing preserve order","generator.coalesce_outputs, PyAttributeNode, PyAttrsNode, PyIfNode, PyForNode")],
None,["calls made by template expressions"])

p("C05","With reload on, edited templates are picked up promptly",
"With reloading enabled, once a template file that a page depends on (the page itself, any base it extends, any template it imports) has been replaced by different content with a different modification time, every load of that page begun more than half a second later renders entirely according to the new content. This holds whether the new modification time is later or earlier than the old one, however often or rarely templates are loaded in between, whatever the system's wall clock does meanwhile, and when the edit lands while the file is being read.",
["histories","schedules","fault_sequences"],
"all histories of edits, restores of older files, loads and renders; all instants of an edit relative to reads and checks; all clock jumps",
"The one reload test waits on real time for a single newer edit between two loads; it cannot place an edit inside a load, step the clock, or restore an older file.",
["tonnikala/loader.py"],
[("periodic check of modification times and purge of the cache","FileLoader._maybe_purge_cache"),("modification time recorded at load","FileLoader.load")],
[("cache","loaded templates by name","FileLoader.cache"),("last check time","when modification times were last compared","FileLoader._last_reload_check")],
["FileLoader.load"])

p("C06","With reload on, a broken or missing file affects only its dependents",
"With reloading enabled, when a template file is deleted, unreadable or invalid, or the disk fails while it is checked or read, loading and rendering templates that do not depend on it keeps working and keeps being up to date. Loading a template that does depend on it either raises an error that describes the problem or returns a complete earlier version. Once the file is valid and readable again, loads begun more than half a second later succeed with the current content.",
["fault_sequences","histories"],
"all sequences of deletions, restorations, invalid edits and disk errors at every file operation, interleaved with loads of all templates",
"Tests never delete, damage or fail a file under a loader.",
["tonnikala/loader.py"],
[("handling of files that vanished","FileLoader._maybe_purge_cache"),("error on missing template","FileLoader.load")],
[("cache","loaded templates by name","FileLoader.cache")],["FileLoader.load"])

p("C07","Concurrent loading gives every thread a complete, current template",
"When any number of threads load and render templates through one loader while files are being edited, every load returns a template, no load fails because another thread is loading or checking, and each rendered page is one that the file contents could produce: every file taking part shows one version it really had at some time between half a second before the load and the end of the render. Once edits stop, loads begun more than half a second after the last edit and after all loads in progress have ended all render the final content, for pages composed of several files too.",
["schedules","histories"],
"all interleavings of loading, reload checks and edits in several threads over templates with bases and imports",
"The tests load from one thread only.",
["tonnikala/loader.py","tonnikala/runtime/python.py"],
[("shared template cache","FileLoader.load, FileLoader._maybe_purge_cache"),("base templates captured when the child is executed, imports loaded at bind time","generated __TK__parent_template, TonnikalaRuntime.import_defs")],
[("cache","loaded templates by name","FileLoader.cache")],["FileLoader.load","Template.render"])

p("C08","Loaded templates stay as they are unless reloading says otherwise",
"With reloading disabled, once a template has been loaded every later load of that name returns the same template object and renders the same text however its file or the disk changes, and loading it again touches no file. With reloading enabled and no file changed, repeated loads return the same template object and read no template again. A template object that a caller already holds keeps rendering the version of its file and bases that it was loaded with, whatever is reloaded later (templates it imports are looked up when it renders).",
["histories","fault_sequences"],
"all histories of loads, edits, deletions, disk failures and clock jumps with reloading off; all quiet histories with reloading on",
"Tests load each file once and never change it afterwards.",
["tonnikala/loader.py"],
[("template cache","FileLoader.load"),("modification-time comparison","FileLoader._maybe_purge_cache")],
[("cache","loaded templates by name","FileLoader.cache")],["FileLoader.load","file operations"])

p("C09","A load that fails or is interrupted leaves no trace",
"If loading a template fails (file missing, unreadable, not valid UTF-8, truncated or invalid template, an error in a base template, out of memory) or is interrupted at any point by an asynchronous exception, the load raises that error, nothing incomplete is ever returned by a later load, no file is left open, and a later load of the same name with the cause gone succeeds and renders the file's content as a fresh loader would. Other templates, in the same and in other threads, are unaffected.",
["crash_points","fault_sequences","histories"],
"every executed line of a load as the point of interruption, every file operation as the failing one",
"Tests do not fail or interrupt loads and retry them.",
["tonnikala/loader.py","tonnikala/runtime/python.py","tonnikala/languages/python/generator.py","tonnikala/syntaxes/docparser.py"],
[("templates enter the cache only when complete","FileLoader.load"),("file closed on every path","FileLoader.load")],
[("cache","loaded templates by name","FileLoader.cache")],["FileLoader.load","open file descriptors"])

p("C10","Untrusted values can never inject markup",
"Wherever a template outputs a dynamic value - in element content, alone or mixed in an attribute value, in a dynamic attribute mapping, through functions, blocks, loops, bases, imports and translations of content - the characters & < > \" ' of that value reach the page only in escaped form, exactly once, unless the value is explicitly marked safe (literal(), or an object that provides its own HTML form); values marked safe and the results of template functions are not escaped again. This holds for values whose text changes from one conversion to the next, whose conversion fails, or whose conversion starts further renders, and under interleaving.",
["inputs","schedules","fault_sequences","programs"],
"all values including time-varying and failing ones, all output positions, both buffer implementations, all interleavings",
"Tests escape a few constant strings in a few positions.",
["tonnikala/runtime/python.py","tonnikala/runtime/_buffer.c","tonnikala/languages/python/generator.py","tonnikala/loader.py"],
[("escape call around every expression","PyExpressionNode.get_expression"),("attribute output","Buffer.output_boolean_attr, runtime.python.output_attrs"),("text converted once, after which only the converted text is used","markupsafe.escape at evaluation time")],
None,["rendered text"])

p("C11","The C and the Python output buffer behave identically",
"For every history of operations on output buffers - appending texts, other buffers (itself included), arbitrary objects, boolean, missing and text attributes, joining, converting to text - including operations whose arguments raise or re-enter the same buffers during conversion, the accelerated and the pure Python buffer end with the same contents, return equal values and raise the same type of exception at the same operation.",
["histories","fault_sequences","inputs"],
"all operation histories over several buffers with failing and re-entrant conversions at any point",
"Tests run with whichever buffer is importable and never compare the two.",
["tonnikala/runtime/_buffer.c","tonnikala/runtime/python.py"],
[("two implementations of one interface","_buffer.c Buffer, runtime.python._TKPythonBufferImpl")],
None,["Buffer.__call__","Buffer.output_boolean_attr","Buffer.join"])

p("C12","Memory exhaustion in the accelerated buffer is an ordinary error",
"If any single memory allocation, or all allocations from some point on, fail during an operation of the accelerated output buffer, the operation raises a memory error or completes correctly; the interpreter does not crash, the buffer stays usable with the contents of the operations completed so far (the failed operation having contributed at most a prefix of its arguments), and no memory is leaked. No operation, failing or not, leaks memory or releases objects it does not own.",
["fault_sequences","crash_points"],
"every allocation of every buffer operation as the failing one, singly and persistently",
"Allocation failures never happen in tests.",
["tonnikala/runtime/_buffer.c"],
[("error checks and reference counting in C","_buffer.c Buffer_new, _do_append, Buffer_output_boolean_attr, Buffer_join, Buffer_dealloc")],
None,["process exit status","reference counts and allocated blocks"])

p("C13","Templates and loaders keep nothing of finished renders or old versions",
"Once a render has ended, normally or by an exception that has been handled, and its result has been dropped, no object that was reachable only through its context stays alive; and once a template has been superseded by a reload and is no longer referenced by the caller, it is released. Memory held by a loader therefore does not grow with the number of renders, failures, reload checks or reloads.",
["histories","fault_sequences"],
"all histories of renders, failing renders, nested and interleaved renders, loads and reloads",
"Leaks do not change output and no test watches object lifetimes.",
["tonnikala/loader.py","tonnikala/runtime/python.py","tonnikala/runtime/debug.py","tonnikala/runtime/_buffer.c"],
[("per-render state only in closures","Template.render_to_buffer"),("traceback rewriting without lasting references","runtime.debug.fake_exc_info, loader.handle_exception")],
[("cache","loaded templates by name","FileLoader.cache")],["weak references to context values and templates"])

p("C14","Translations come from the render's own context",
"With translation enabled, every static text and the static parts of every title, alt, placeholder, value and caption attribute of a page are looked up through the translation function in that render's own context, once per output and with the message as written (surrounding white space kept outside of the message), and the result is output escaped; the content of script and style elements is never translated. Renders with different languages that are interleaved in threads, nested, or that switch the language in mid-page never show each other's translations, and translation is never remembered from one render to the next; without translation enabled no static text is looked up.",
["schedules","histories","inputs"],
"all interleavings and nestings of renders in different languages, all templates with bases, imports and functions, failing translation functions",
"The tests translate a few strings with one constant translation table.",
["tonnikala/languages/python/generator.py","tonnikala/expr.py","tonnikala/syntaxes/tonnikala.py","tonnikala/loader.py"],
[("translation function bound per render","generated binder: gettext, egettext"),("translatable text recognition","expr.handle_text_node")],
None,["calls of the context's gettext","rendered text"])

p("C15","Results do not depend on the order in which templates are loaded",
"For a fixed set of template files with inheritance (several levels), block and function overriding and imports, what a page renders depends only on the files and the context: it is the same whichever templates were loaded, rendered or failed before, in whatever order, through however many loaders and threads, and whether bases were first loaded on their own or through a child. A child's blocks and functions replace the base's for that child only, and importing a template never changes what the importing page's own names mean.",
["histories","schedules","programs"],
"all orders and interleavings of first loads and renders of all file sets",
"Tests load each base/child pair once, in one order, in a fresh loader.",
["tonnikala/loader.py","tonnikala/runtime/python.py","tonnikala/languages/python/generator.py"],
[("child binds first, base fills the gaps","runtime.python.bind, generated __TK__binder"),("imports see a copy of the context","TonnikalaRuntime.import_defs")],
[("cache","loaded templates by name","FileLoader.cache")],["Template.render"])

p("C16","The Pyramid renderer serves concurrent requests independently",
"Under any number of concurrent requests, each response of the web framework integration is the rendering of the view's template with exactly that view's values plus the framework's system values, where a template name with a package prefix (package:path) is found in that package and any other name through the configured search paths in order, while reload and translation settings given in the configuration are in effect. A view value that cannot be used as a mapping gives a value error, a failing template gives that template's error, in that request only; fragments rendered inside a request do not change the page around them beyond their own output.",
["schedules","fault_sequences","histories"],
"all interleavings of requests to several views, with failing views, edited templates and nested fragments",
"There is no test of the integration at all.",
["tonnikala/pyramid/__init__.py","tonnikala/loader.py"],
[("one loader shared by all requests, one system mapping per request","TonnikalaTemplateRenderer.__call__, TonnikalaRendererFactory"),("search path resolution","PyramidTonnikalaLoader.resolve"),("settings","includeme")],
[("cache","templates shared by all requests","PyramidTonnikalaLoader.cache")],["WSGI responses","renderer return values"])

p("C17","Browser templates work in any module arrival order and interleaving",
"JavaScript compiled from a template gives the output the template defines for its own context in whichever order and with whatever delays or repeated failures the module loader delivers the template modules and their base templates, and however renders of several templates and contexts are interleaved or nested in expressions. Text and attributes from values are escaped exactly once, an exception in an expression reaches the caller and leaves later renders unaffected.",
["schedules","fault_sequences","inputs"],
"all arrival orders and delays of modules, all interleavings of renders at expression granularity, failing expressions",
"The tests evaluate each compiled template once, with its modules given in advance.",
["tonnikala/languages/javascript/generator.py","tonnikala/runtime/javascript.js","tonnikala/loader.py"],
[("module definition with dependencies","javascript generator: define([...])"),("buffers and escaping","runtime/javascript.js"),("per-render binding","generated binder, runtime bind")],
None,["strings rendered by the compiled modules under a simulated module loader"])

p("C18","The template compiler never reports success without a complete output",
"The command that compiles a template to JavaScript ends with a success status only if the complete compiled module has been written to its destination: a missing or invalid template, unreadable input, an undecodable file, a full disk, or an error while opening, writing or closing the output gives a failure status and a message. A failed compilation leaves an output file that existed before as it was, or the failure is an error of writing that very file.",
["fault_sequences","crash_points","inputs"],
"every input and output operation of the tool as the failing one, every kind of error, short writes",
"There is no test of the command.",
["bin/tonnikala-compile-jstemplate","tonnikala/loader.py"],
[("compile, then write","bin/tonnikala-compile-jstemplate")],
None,["exit status","output file"])

p("C19","Message extraction finds every message rendering will look up, or fails",
"For every template, the messages found by extraction include every message that any render of it with translation enabled looks up (texts, translatable attributes, and calls of gettext with a literal first argument anywhere in its expressions or code), whatever the chunks in which the input arrives and whether it comes as bytes or text. If reading the input fails, the input is not valid UTF-8, or the markup of the template is invalid (malformed, unknown control elements or attributes, missing mandatory attributes, unterminated expressions), extraction raises an error instead of ending as if complete.",
["inputs","fault_sequences","histories"],
"all templates, all data-dependent control flows of their renders, all chunkings of the input and read failures",
"Extraction tests use one fixed template, and rendering and extraction are never compared.",
["tonnikala/i18n/__init__.py","tonnikala/expr.py","tonnikala/syntaxes/tonnikala.py"],
[("same parser for extraction and rendering","i18n.TonnikalaExtractor.__call__"),("messages in expressions","TonnikalaExtractor.parse_python")],
None,["extracted messages","calls of gettext during renders"])

p("C20","Compilation is reproducible",
"Compiling the same template text gives the same result - the same JavaScript text, and Python templates with the same output, evaluations and error locations - in every process, whatever the hash randomisation, whatever was compiled before in the same process, however many compilations run concurrently, and after compilations that failed or were interrupted.",
["histories","schedules","configurations","fault_sequences"],
"all hash seeds, all histories and interleavings of compilations including failing and interrupted ones",
"Tests compile once per process and compare behaviour, not the compiled text, under one hash seed.",
["tonnikala/languages/javascript/generator.py","tonnikala/languages/python/generator.py","tonnikala/languages/base.py","tonnikala/syntaxes/docparser.py"],
[("per-compilation generator state","Generator.__init__"),("module-level name counters","generator.name_counter, gen_name")],
[("name counter","process-wide counter for generated names","generator.name_counter")],["JSLoader.load_string result","compiled template behaviour"])

# pure functions of the input: no schedule, clock, I/O or fault in them
p("C21","Static markup is reproduced faithfully",
"Static elements, attributes, text, entities, comments, doctype and raw-text elements of a template appear in the output as an equivalent HTML document, empty elements and boolean attributes included.",
["inputs","programs"],"all static templates","Tests compare a few dozen fixed documents.",
["tonnikala/syntaxes/docparser.py","tonnikala/ir/generate.py"],[("HTML parser to DOM","docparser.TonnikalaHTMLParser"),("flattening","BaseDOMIRGenerator.flatten_element_nodes")],None,["rendered text"])
p("C22","Embedded expressions are delimited exactly",
"In text and attributes, $name, dotted names and ${...} with any Python expression (nested braces, strings, comprehensions) are recognised exactly, $$ stands for a dollar sign, and everything else is text.",
["inputs"],"all texts and expressions","Tests try a few dozen strings.",["tonnikala/expr.py"],[("expression scanner","expr.handle_text_node")],None,["rendered text"])
p("C23","Template variables are lexically scoped",
"Names bound by loops, function arguments and variable blocks are visible exactly within their construct and shadow context names only there; names the context lacks and the template does not use cause no error.",
["programs"],"all nestings of scopes","Tests cover a few nestings.",["tonnikala/languages/python/generator.py","tonnikala/languages/python/astalyzer.py"],[("free variable analysis","FreeVarFinder"),("variable scopes","PythonNode.generate_varscope")],None,["rendered text"])
p("C24","Invalid templates are rejected with the right position",
"A template with malformed markup, an unknown control element or attribute, a missing mandatory attribute, or an invalid expression is rejected when loaded, with a template syntax error that names the file and the line.",
["inputs"],"all invalid templates","Tests cover a few fixed errors.",["tonnikala/syntaxes/docparser.py","tonnikala/syntaxes/tonnikala.py","tonnikala/runtime/exceptions.py"],[("syntax errors","TemplateSyntaxError")],None,["load_string"])
p("C25","The Chameleon syntax means what the native syntax means",
"A template written in the Chameleon dialect renders like the native template with the corresponding constructs.",
["programs"],"all templates of the supported dialect","Tests cover a few fixed pairs.",["tonnikala/syntaxes/chameleon.py"],[("Chameleon front end","syntaxes.chameleon.ChameleonIRGenerator")],None,["rendered text"])
p("C26","Constant folding and output merging do not change the output",
"Merging adjacent constant output, removing statically false branches and unwrapping literal() never change what a template outputs.",
["programs"],"all templates","Tests cover fixed documents.",["tonnikala/languages/python/generator.py"],[("coalescing","coalesce_outputs, coalesce_strings, static_expr_to_bool")],None,["rendered text"])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for d in P: jsonschema.validate(d,s)
print(len(P))
