"""Writes properties.jsonl (kept as a script so that the file stays consistent)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None)))

GEN = "tonnikala/languages/python/generator.py"
RT = "tonnikala/runtime/python.py"
BUF = "tonnikala/runtime/_buffer.c"
SYN = "tonnikala/syntaxes/tonnikala.py"
DOC = "tonnikala/syntaxes/docparser.py"
IRG = "tonnikala/ir/generate.py"
IRN = "tonnikala/ir/nodes.py"
LD = "tonnikala/loader.py"
EXPR = "tonnikala/expr.py"
PYX = "tonnikala/languages/python/__init__.py"
JSG = "tonnikala/languages/javascript/generator.py"
JSR = "tonnikala/runtime/javascript.js"
R = "Template.render()"

prop("C01", "Interpolated values are HTML-escaped exactly once",
 "In a rendered template, every interpolated value that is not marked safe appears with & < > \" and ' replaced by HTML references exactly once, in whichever place the template outputs it: element text, attribute values, py:content, py:replace, py:attrs values, the bodies of defs and blocks, and imported defs. Values marked safe - literal(...), markupsafe.Markup, objects with __html__, and the fragments returned by calling defs and blocks - appear verbatim, neither escaped nor duplicated.",
 ["inputs", "programs"], "for every way of nesting the output positions (text, attributes, control constructs, def/block calls, imports) and for every kind of value (plain text with special characters, non-strings, safe values)",
 "The tests render a handful of positions with one or two values each; escaping depends on the product of position, surrounding constructs that move code between functions, compile-time removal of literal(), and value type.",
 [GEN, RT, BUF, LD], [("escape call wrapped around every expression", GEN+" PyExpressionNode.get_expression"), ("literal elimination", GEN+" coalesce_outputs.check"), ("attribute output", BUF+" Buffer_output_boolean_attr"), ("escape", RT)], [R])

prop("C02", "Static markup is reproduced faithfully",
 "Whatever is not a control construct or an interpolated expression is rendered as it was written: the same elements in the same order and nesting, the same attributes, text (character and entity references denote the same characters, special characters are escaped), comments and doctype; comments that begin with ! are left out; the contents of script and style are output verbatim without any escaping. Void elements have no end tag, and all other elements have one.",
 ["inputs", "programs"], "for every sequence and nesting of elements, attributes, text pieces, references, comments, doctype and script/style elements",
 "The tests compare a few fixed documents; the source is tokenised into chunks that are merged, escaped and coalesced, and which chunks are adjacent to which decides whether something is lost, doubled or wrongly escaped.",
 [DOC, IRG, IRN, SYN], [("DOM building", DOC), ("flattening elements and merging text", IRG), ("escaping of static text", IRN+" Text.escaped")], [R])

prop("C03", "Interpolation syntax: what is an expression and what is text",
 "In text and attribute values $name followed by any number of .attribute, [...] and (...) parts without intervening whitespace, and ${...} up to its matching brace (taking strings, comments and nested braces into account), are replaced by the value of the expression; $$ stands for one $; every other character, including a lone $, is literal text. Text after the end of an expression is never swallowed and never evaluated.",
 ["inputs"], "for every string over an alphabet of the characters that matter ($ { } [ ] ( ) . quotes, letters, digits, spaces, line breaks) up to a bounded length",
 "The tests try about fifteen strings; the end of an expression depends on the tokeniser state over all of the following text.",
 [EXPR, PYX], [("text splitting", EXPR+" handle_text_node"), ("expression end detection", PYX+" parse_unenclosed_expression, parse_brace_enclosed_expression")], [R])

prop("C04", "Control constructs mean what they are documented to mean",
 "py:if, py:unless, py:for, py:def, py:with, py:strip, py:replace, py:content and py:block behave as documented in every nesting and combination, and writing one as an element or as an attribute of an element is equivalent. When one element carries several of them as attributes they nest in the fixed order block, if, unless, for, def, with - outermost first - with strip, replace and content applying to the element inside all of them.",
 ["programs", "inputs"], "for every nesting of the constructs and every combination of them on an element, with every outcome of their conditions and zero, one or more loop iterations",
 "The tests use the constructs mostly one at a time; compilation moves bodies into functions, flattens elements and drops statically decided branches, which only interferes in combinations.",
 [SYN, IRG, GEN], [("control node stack", SYN+" create_control_nodes, generate_element_node"), ("flattening with guards", IRG+" flatten_element_nodes_on"), ("code generation", GEN)], [R])

prop("C05", "Names resolve lexically, and the closest binding wins",
 "A name in an expression denotes the innermost enclosing binding - a comprehension or lambda variable, a py:with variable, a py:for variable, a py:def parameter (with its default when not passed) or an enclosing py:def - and otherwise a top-level def or block, a value in the render context, or a Python builtin (a value in the context hides a builtin). A binding has no effect outside its construct, defs are closures over the bindings where they were defined, and a name that is bound nowhere raises NameError only when it is evaluated.",
 ["programs", "inputs"], "for every nesting of binding constructs and every placement of uses of the same few names inside, beside and after them",
 "The tests look at single constructs; the free variables of the whole template are computed by a separate analysis and bound ahead, so an error shows only where a name is bound in one place and free in another.",
 [GEN, "tonnikala/languages/python/astalyzer.py", LD], [("free variable analysis", "tonnikala/languages/python/astalyzer.py"), ("variable scopes", GEN+" generate_varscope"), ("binding from the context", GEN+" PyRootNode.generate_ast")], [R])

prop("C06", "Attribute rendering rules",
 "An attribute whose value is exactly one expression is left out when the value is None or False, is output as name=\"name\" when it is True, and with the escaped value otherwise; when the value mixes text and expressions it is always output as text. py:attrs outputs each item of a mapping, or each pair of an iterable, by the same rules in order and outputs nothing for an empty or None value; attributes without value stay without value, and constant attributes are always output.",
 ["inputs", "programs"], "for every sequence of constant, valueless, single-expression, mixed and py:attrs attributes on void and non-void elements and every kind of value",
 "The tests use one attribute at a time; constant and dynamic attributes are split, reordered and coalesced with the surrounding markup.",
 [SYN, IRG, GEN, RT, BUF], [("splitting of attributes", IRN+" Element.set_attribute"), ("boolean attribute output", BUF+", "+RT), ("output_attrs", RT)], [R])

prop("C07", "Template inheritance: the most derived definition wins",
 "A template that extends another renders as the root ancestor's document in which each block and top-level def is the one defined by the most derived template of the chain, wherever in the chain it is used; blocks and defs that no descendant redefines keep the ancestor's body, definitions that no ancestor uses render nothing. Rendering with the name of a block or argumentless def gives the output of just that one, and the result does not depend on the order in which templates were loaded or on what was rendered before.",
 ["programs", "histories"], "for every assignment of block and def overrides to chains of up to three or four templates, every cross-use of them, and every order of loading and rendering",
 "The tests have one two-level chain; which definition wins is decided by the order in which the binders of a chain run over one shared context.",
 [GEN, RT, LD], [("binder chain", GEN+" PyRootNode.generate_ast"), ("bind", RT), ("render funcname", LD+" Template.render_to_buffer")], [R])

prop("C08", "Imports expose exactly the imported template's definitions",
 "py:import binds an alias with which every top-level def and block of the imported template (including those it inherits) can be called, giving the same output as in the imported template itself rendered with the importer's context; it never changes which definitions the importer, its parents, or other imports use, even when names coincide. Using any other name through the alias raises an AttributeError that names the imported template.",
 ["programs", "histories"], "for every assignment of (colliding) def names to importer, importer's parent and child, and one or two imported templates, with or without context values of the same name",
 "The tests import one template with distinct names once.",
 [RT, GEN], [("import_defs", RT), ("import placement", GEN+" PyImportNode")], [R])

prop("C09", "Optimisation and size never change the output",
 "Statically decided conditions, removal of literal(), merging of constant text and joining of consecutive outputs never change what is rendered: the output equals that of the same template in which these optimisations have nothing to apply to. This holds for templates of any size: any number of consecutive texts and expressions, long texts, many attributes, deep nesting of elements.",
 ["programs", "inputs"], "for every sequence of constant text, literal() and plain expressions and constant or dynamic conditions up to a bound, and for every run length of consecutive outputs across the internal limits",
 "The tests have small templates; splitting of output calls happens only beyond 250 consecutive pieces, and literal removal and constant conditions in particular shapes.",
 [GEN, IRG], [("coalesce_outputs", GEN), ("static_expr_to_bool", GEN), ("merge_text_nodes", IRG)], [R])

prop("C10", "The accelerated Buffer behaves like the Python Buffer",
 "For every sequence of operations - calling with any mixture of strings, Markup, numbers, None, other buffers of the same kind, objects with __html__ or failing __str__, and output_boolean_attr with any name and value, join, str, __html__ - the C implementation yields the same results, contents and exception types as the pure-Python implementation, and the same templates render identically with either.",
 ["histories", "inputs"], "for every sequence of buffer operations over a fixed set of values up to a bounded length",
 "The tests never compare the two; whichever is importable is used throughout.",
 [BUF, RT], [("C buffer", BUF), ("Python buffer", RT+" _TKPythonBufferImpl")], ["Buffer", "_TKPythonBufferImpl"])

prop("C11", "The accelerated Buffer keeps reference counts balanced",
 "Whatever sequence of operations is applied to a C Buffer, including ones that raise, after dropping the buffers and results every object involved (arguments, names, escape function and internal constants) has the reference count it had before, and no object is freed while it is still referenced.",
 ["histories", "fault_sequences"], "for every sequence of buffer operations up to a bounded length over values some of which raise when converted or escaped",
 "Leaks and over-releases are invisible to output comparisons.",
 [BUF], [("Py_INCREF/Py_DECREF pairs", BUF)], ["sys.getrefcount around operations"])

prop("C12", "Translation changes only translatable text, each exactly once",
 "With translation enabled, every run of static text in elements other than script and style, and in the attributes title, alt, placeholder, value and caption, is passed to the context's gettext exactly once each time it is output, stripped of its surrounding whitespace (which is kept in the output), and the result is output escaped; nothing else is passed to it. With a gettext that returns its argument the output is the same as with translation disabled, apart from the order of attributes.",
 ["programs", "inputs"], "for every sequence and nesting of text, whitespace, expressions, elements, attributes and control constructs up to a bound, with identity and marking translations",
 "The tests translate three fixed templates.",
 [EXPR, SYN, GEN], [("partition of text", EXPR+" create_text_nodes"), ("translatable state", SYN+" enter_node, is_attr_translatable"), ("gettext calls", GEN+" PyTranslatableOutputNode")], [R])

prop("C13", "Message extraction agrees with what rendering looks up",
 "The messages extracted from a template are exactly the static texts that rendering it with translation enabled passes to gettext for some outcome of its conditions and loops, plus the literal arguments of gettext calls in interpolated expressions: none is missing, none is altered, and none is extracted that rendering never looks up.",
 ["programs"], "for every template over an alphabet of texts, entities, attributes, expressions, elements and control constructs up to a bound",
 "The tests extract one message; extraction walks the intermediate tree while rendering uses the generated code.",
 ["tonnikala/i18n/__init__.py", EXPR, SYN], [("extractor", "tonnikala/i18n/__init__.py"), ("tree iteration", IRN+" IRTree.__iter__")], ["extract_tonnikala", R])

prop("C14", "File loader: reload serves current contents, otherwise one stable version",
 "With reloading enabled, a load made once the check interval has passed since the last check renders with the contents the template files (the template, its ancestors and what it imports) have at that time, whatever changes, deletions and re-creations happened before, including changes while a file was being read; a deleted template can no longer be loaded while the others still can (templates already loaded that depend on it may keep using what they have), and between checks or with reloading disabled the same template object is served.",
 ["histories", "fault_sequences"], "for every sequence of loads, renders, file changes, deletions, re-creations and passing of time up to a bounded length, and every placement of a change inside a load",
 "The tests change a file once between two loads, using sleeps.",
 [LD], [("FileLoader.load", LD), ("FileLoader._maybe_purge_cache", LD)], ["FileLoader.load", R], [("cache", "template per name, with path and mtime", LD)])

prop("C15", "Template lookup: absolute path, then search paths in order",
 "Loading a name uses the file itself for an existing absolute path and otherwise the first search path, in the order they were given or added, under which the name exists; a name found nowhere raises an OSError with errno ENOENT and the name, and a later load succeeds once the file exists. Loading the same name again returns the same template object; names that resolve to different files never share one, and a template that fails to compile is not cached.",
 ["configurations", "histories"], "for every assignment of files to up to three search paths, every order of adding paths, every name form, and every order of loads",
 "The tests use a single search path.",
 [LD], [("FileLoader.resolve", LD), ("FileLoader.add_path", LD)], ["FileLoader.load"])

prop("C16", "Loading and rendering from several threads is safe",
 "When several threads load, render and (with reloading) refresh templates through one loader at the same time, every load and render yields a result that some order of the operations one after another would give: correct output for that thread's context, no mixed or lost output, no unexpected exceptions, no deadlock; and the loader is left in a state from which later loads serve the current files.",
 ["schedules"], "for every interleaving of two or three threads with a bounded number of preemptions at any line of template engine code",
 "No test uses threads.",
 [LD, RT, "tonnikala/runtime/debug.py"], [("FileLoader lock and cache", LD), ("per-render context and buffers", LD+" Template.render_to_buffer")], ["FileLoader.load", R], [("cache", "shared between threads", LD)])

prop("C17", "Rendering has no memory and no side effects",
 "Rendering the same template again with an equal context gives the same output regardless of what was rendered before from this or other templates, whether earlier renders raised, and which part (funcname) was rendered; fragments obtained from one render do not change. Rendering never modifies the caller's context mapping or the values in it, and nothing set while rendering is visible in later renders.",
 ["histories"], "for every sequence of renders, with different contexts, parts and failures, of a set of templates up to a bounded length",
 "The tests render each template once.",
 [LD, RT, GEN], [("context copy", LD+" make_template_context"), ("buffer per call", GEN+" make_buffer_frame")], [R])

prop("C18", "Invalid templates are rejected with a located TemplateSyntaxError",
 "Loading any string (with elements nested less deep than the recursion limit of Python allows) as a Python-target template either yields a template or raises TemplateSyntaxError - never another exception; the error carries the template's filename and the line of the offending construct, also when the construct is far into the file or the expression spans lines. A Tonnikala-syntax template with an unknown control element or attribute, a missing mandatory attribute, an unclosed or invalid expression, or mismatched tags is always rejected, unless the construct is in what a constant condition, a py:content or a py:replace discards when the template is compiled.",
 ["inputs", "programs"], "for every sequence of markup and expression fragments from an alphabet of well- and ill-formed ones up to a bounded length, and every placement of each ill-formed construct in a multi-line template",
 "The tests have a dozen invalid templates with the error mostly on line 1.",
 [DOC, SYN, GEN, LD, PYX], [("syntax_error", DOC+", "+SYN+", "+IRG), ("expression compilation", GEN+" get_fragment_ast"), ("translation", LD+" load_string")], ["Loader.load_string"])

prop("C19", "Runtime errors keep their identity and point to the template line",
 "An exception raised while rendering reaches the caller as the same exception object, and when it comes from evaluating an expression or statement (and not from converting a finished value to text), its traceback contains, for each template involved, a frame with that template's filename and the line on which the failing expression, call or statement was written - in text, attributes, conditions, loops, definitions, processing instructions and multi-line expressions, also across defs, inheritance and imports. This includes the lines of the py:import and py:extends that made the failing code run, or whose template could not be found while rendering.",
 ["programs", "inputs"], "for every position of the failing expression over the expression-carrying constructs, line layouts and call paths through defs, blocks, parents and imports",
 "The tests check the line for two expressions.",
 [GEN, LD, "tonnikala/runtime/debug.py", DOC], [("adjust_locations", GEN), ("find_attr_positions", DOC), ("translate_exception", "tonnikala/runtime/debug.py")], ["traceback of the exception raised by "+R])

prop("C20", "The JavaScript target renders like the template semantics",
 "A template compiled to JavaScript and run with the bundled runtime renders what the same constructs mean for Python templates (js:if, js:unless, js:for, js:def, js:with, js:strip, js:content, js:replace, js:attrs with pairs, boolean attributes, interpolation, escaping exactly once, literal), with JavaScript's conversion of values to text and truth; variables of one construct are not visible outside it, and rendering leaves no state behind.",
 ["programs", "inputs"], "for every nesting of the constructs and output positions and every kind of value up to a bound",
 "The tests execute fixed templates one construct at a time.",
 [JSG, JSR], [("code generation", JSG), ("runtime", JSR)], ["JSLoader.load_string, executed"])

prop("C21", "JavaScript blocks, inheritance and the compile command",
 "In JavaScript templates the most derived block or top-level def of an inheritance chain wins, as for Python templates, and the minified output and the output of the tonnikala-compile-jstemplate command behave exactly like the plain one.",
 ["programs", "histories"], "for every assignment of block and def overrides to chains of up to three templates and their cross-uses, in each of the output modes",
 "The tests have one inheritance pair and never minify nor run the command.",
 [JSG, JSR, "bin/tonnikala-compile-jstemplate", LD], [("addToContext/bindFromContext", JSR), ("parent load", JSG), ("minify", LD)], ["JSLoader.load_string, executed"])

prop("C22", "Chameleon syntax is equivalent to the corresponding Tonnikala syntax",
 "A template in Chameleon syntax using tal:condition, tal:repeat, tal:content, tal:replace, tal:omit-tag, tal:attrs, interpolation, attributes, comments and doctype renders the same as the Tonnikala template with py:if, py:for, py:content, py:replace, py:strip, py:attrs and the same remainder.",
 ["programs", "inputs"], "for every nesting and combination of the constructs up to a bound and every outcome of their expressions",
 "The tests check a few constructs one at a time.",
 ["tonnikala/syntaxes/chameleon.py", IRG], [("control nodes", "tonnikala/syntaxes/chameleon.py create_control_nodes, generate_element_node")], [R])

prop("C23", "Pyramid integration follows configuration",
 "After including tonnikala.pyramid, exactly the configured extensions render with Tonnikala; templates are found by asset spec, then in the configured search paths in order; reloading follows tonnikala.reload and, only when that is not set, pyramid.reload_templates; translation follows tonnikala.l10n; directives and settings are equivalent, and including twice changes nothing. A renderer merges the view's mapping over the system values, raises ValueError for a value that cannot be merged, and returns text.",
 ["configurations"], "for every combination of the settings and directives over small value sets",
 "The tests do not exercise the Pyramid integration at all.",
 ["tonnikala/pyramid/__init__.py"], [("includeme", "tonnikala/pyramid/__init__.py"), ("PyramidTonnikalaLoader.resolve", "tonnikala/pyramid/__init__.py"), ("TonnikalaTemplateRenderer", "tonnikala/pyramid/__init__.py")], ["pyramid Configurator", "pyramid.renderers.render"])

prop("C24", "Compilation and rendering are deterministic",
 "The result of compiling a template (for JavaScript: the code itself, apart from the numbers in generated internal names) and of rendering it, including which names are bound, in which order attributes appear and which errors are raised, does not depend on the iteration order of hash-based collections (PYTHONHASHSEED), on the process, or on what was compiled before.",
 ["configurations", "histories"], "for every iteration order of the sets of names that the compiler handles, realised with different hash seeds, and every order of compiling a set of templates",
 "One test process has one hash seed.",
 [GEN, JSG], [("free variable sets", GEN+" PyRootNode.generate_ast, "+JSG+" JsRootNode.generate_ast")], [R])

prop("C25", "A template means the same however it is loaded",
 "A given template source loads, or fails to load with the same error and line number, and then renders to the same output, or fails with the same exception from the same template lines, whichever way it is loaded and called: with load_string of Loader or FileLoader or from a UTF-8 file, by a relative or an absolute name or through an added search path, for the first time or from the cache, with reloading on or off, with debug on or off, with translation enabled as long as the gettext in use (by default the identity) returns messages as they are, with positional or keyword arguments, with render or render_to_buffer, or through the Pyramid renderer as a whole or as a fragment. Only debug writes to standard output, and rendering leaves the given context alone.",
 ["configurations", "programs", "inputs"], "for every way of loading and calling, over sequences of valid and invalid fragments of templates, nested constructs, pieces of markup, line ends and non-ASCII text, and templates that refer to others",
 "The tests load most templates in one way, and no test uses debug, absolute names or render_to_buffer with the same templates.",
 [LD, "tonnikala/pyramid/__init__.py", IRG, SYN], [("loading", LD+" Loader.load_string, FileLoader.load, JSLoader.load_string"), ("rendering", LD+" Template.render_to_buffer"), ("Pyramid", "tonnikala/pyramid/__init__.py TonnikalaTemplateRenderer")], [R])

if __name__ == "__main__":
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
