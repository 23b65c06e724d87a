import json,subprocess
log=subprocess.check_output(['git','-C','/repo','log','--format=%h %s'],text=True).splitlines()
def h(s):
    for l in log:
        if s in l: return l.split()[0]
    raise KeyError(s)
F=[("C01","recognize markup in <title>","with html.parser of Python 3.12.3, blocks, elements and control elements inside <title>, <textarea>, <iframe>... were output as plain text (README's inheritance example rendered its own source)"),
("C01","do not ignore functions and blocks named","a function or block named like a Python builtin (copyright, format, id, input...) was ignored, the builtin was called instead"),
("C01","literal braces of an f-string","an expression with an f-string that has a literal brace ({{, }}) or a parenthesis on its own did not compile, or ended too early, on Python 3.12"),
("C06","survive deleted and restored","with reload on, deleting one loaded template file made every load of every template raise FileNotFoundError"),
("C05","survive deleted and restored","with reload on, replacing a template by a file with an older modification time was never noticed"),
("C05","do not stop reloading","with reload on, setting the wall clock back stopped all reloading until the clock had caught up"),
("C05","notice a template changed while","an edit between reading a template and taking its modification time was never noticed"),
("C07","serialize concurrent loads","a child loaded while another thread purged the cache stayed bound to an outdated base template forever"),
("C07","do not miss a change of a template","a template changed while it was being loaded, for longer than the check interval, stayed outdated for more than half a second because the nested load of its base reset the check time"),
("C12","handle allocation failures","crash on a failing allocation in output_boolean_attr; references leaked on error paths and by every deallocated buffer"),
("C11","make the Python buffer output","the Python buffer escaped the quotes around the value for a Markup attribute name, and kept half an attribute when the value's conversion raised"),
("C15","do not show the functions of a template to the imports","a function of a child template replaced the function of the same name in the templates its base imports (which then were missing from the import)"),
 ("C16","keep the values of a fragment","fragments changed the caller's system values: the values of one fragment and its renderer_name leaked into later fragments of the request"),
("C17","keep the variables of js:with","a js:with variable was assigned to a variable of the whole template: it was seen after the js:with and in every later rendering"),
("C17","compile JavaScript templates that extend","a template with js:extends and nothing else did not compile"),
("C17","do not change the context given","binding changed the context object: another template, or the same with changed values, rendered with the same object gave the output of the first"),
("C17","let JavaScript templates use literal","literal() in a JavaScript template was undefined (the local of the runtime was hidden by a context variable)"),
("C20","name the functions of compiled JavaScript","the names of generated functions were numbered through the process, so the compiled JavaScript depended on what had been compiled before"),
("C18","report write errors","tonnikala-compile-jstemplate exited with 0 although its output could not be written (full disk), and truncated the target on a failed compilation"),
("C18","write all of the compiled template","with PYTHONUNBUFFERED set, a partial write to stdout (nearly full disk) ended with status 0"),
("C20","make the output of the JavaScript","compiled JavaScript differed between processes with different hash seeds"),
("C09","cut off within a character","a template file cut off in the middle of a character (not valid UTF-8) loaded as if complete, without its last text"),
("C19","extract messages with the newlines","the extractor, given a file name, translated the newlines of the template: messages of a template with CRLF were extracted with other newlines than rendering looks up"),
("C19","extract messages from all expressions","calls of gettext in py:attrs, py:if, py:for, py:with, py:strip, default arguments and <?python ?> code were not extracted"),
("C18","JavaScript expressions that are several","${a; b} or ${return a} in a JavaScript template compiled to its first statement only, with success"),
("C18","reject illegal characters","characters that JavaScript does not know were left out of expressions with a message on the standard output, and the compilation succeeded"),
("C17","do not take a comma","${a, b} gave a, and <js:for each=\"x in a, b\"> took b for the function to call"),
("C18","have no known line","the error of a js:with with another statement had no message (its __str__ raised TypeError)"),
("C02","keep the context of an exception","a render done while another exception was being handled replaced the __context__ of the exception raised by its template"),
("C03","report errors in the conversion","an exception raised while a value was converted to text or written as an attribute was reported on line 1 of the template, or on a line past its end"),
("C03","convert literal() values","an exception raised while a literal() value was converted was reported on the line of the first of the merged outputs"),
("C03","report errors in <?python","an exception raised in <?python ?> code was reported on line 1 of the template"),
("C03","load templates with a py:for","a template with the value of a py:for, py:def or py:block at the start of a line could not be loaded (ValueError: the columns carried into the generated code were negative)"),
("C03","do not count newlines written","after a newline written as a character reference (&#10;) in a text or an attribute value, errors in the rest of it were reported on a later line"),
("C03","report an invalid block name","a block name that is no identifier was reported without the file, on a line of the generated code"),
("C03","report a processing instruction without","<?python?>, and any other processing instruction without content, gave ValueError: not enough values to unpack, without file and line"),
("C01","allow control structures without content","py:if, py:for, or an element with one of them, of which nothing was left after folding (an empty body, a comment, py:strip without content) could not be loaded: ValueError: empty body on If/For, without file and line"),
("C01","allow a document type in Chameleon","a Chameleon template with a document type could not be loaded (ValueError: Unhandled node type 10)"),
("C01","let the default values of a function","a default value of an argument of a top-level py:def could not use context variables (UnboundLocalError when the template is bound)"),
("C04","convert literal() values","a literal() value was converted to text only after later expressions had been evaluated"),
("C02","do not change a TemplateSyntaxError raised within","a TemplateSyntaxError raised within a render (by an expression that loads an invalid template) lost its source and its text"),
("C03","do not change a TemplateSyntaxError raised within","the traceback of a TemplateSyntaxError raised within a render had no entries of the templates being rendered"),
("C09","do not swallow an interrupt of the compiler","a load interrupted while a condition was tested for being constant went on, and the KeyboardInterrupt was lost"),
("C17","use the name hasOwnProperty","a context value, block or function named hasOwnProperty broke every lookup of a browser template"),
("C02","do not lose an interrupt of the error","a KeyboardInterrupt that arrived while the traceback of a failed render was rewritten was lost"),
("C01","a comprehension variable does not hide","a context variable that has the same name as the variable of a comprehension in any expression of the template was not found (NameError)"),
("C09","do not report a lack of memory","a load that ran out of memory within a character reference failed with a TemplateSyntaxError (Invalid HTML charref)"),
]
json.dump({"findings":[{"property":p,"status":"fixed","commit":h(s),"what":w,"line":"fixed: property=%s %s %s"%(p,h(s),w)} for p,s,w in F]},open('/verif/known_findings.json','w'),indent=1)
