"""Writes /verif/properties.jsonl (run by hand after editing)."""
import json, os
R = 'src/hypertag/core/'
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=' '.join(statement.split()),
             quantifier=dict(over=over, text=' '.join(text.split())),
             why_tests_cant=' '.join(why.split()),
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None))
    if state: d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    d['anchors']['observe_at'] = observe or ['HyperHTML().render(script)']
    P.append(d)

p('C01', 'Plain text is escaped exactly once; markup and verbatim are left intact',
  """Whatever a plain-text block contains, as literal text or as embedded values, appears in the document passed through the
  runtime's escape function exactly once, so it can never introduce markup, while the text of markup and verbatim blocks appears
  unescaped and a verbatim block leaves embeddings unparsed. This holds wherever the block stands: inline or outlined, under any tags,
  inside control blocks, hypertags, inserted bodies and imported scripts, and for any escape function the runtime defines.""",
  ['inputs', 'programs', 'configurations'],
  'every string over the special characters, every embedding form, every structural position of a text block, every runtime escape function (custom or none)',
  'The tests use one hand-picked string per block style; none varies the position, nesting, re-insertion or the escape function, where double or missing escaping would hide.',
  [R+'ast.py', 'src/hypertag/std/html.py', R+'run_html.py'],
  [('escape applied to the whole rendered line', R+'ast.py xline_normal.render_inline'), ('html_escape', 'src/hypertag/std/html.py html_escape'), ('Runtime.escape', R+'runtime.py Runtime')])
p('C02', 'HTML elements round-trip: parsing the output gives back the tags and attributes',
  """For every built-in markup tag and any attribute values, an HTML parser reading the output recovers exactly the element tree and
  the attribute names and values that the script specified, whatever characters the values contain. True attributes are present without a value, False
  ones are absent, repeated attributes are joined by a space in order, the .class and #id shortcuts equal class= and id=, void elements are
  self-closed and reject a body, upper-case tags keep their case, and the same holds for custom-named elements and comments.""",
  ['inputs', 'programs'],
  'every built-in tag, every combination of attribute forms up to a bound, every string value over the characters special in HTML, and non-string values',
  'Tests compare a few literal outputs; attribute quoting, value types, repeated attributes and every tag of the table are inputs they do not enumerate.',
  [R+'tag.py', 'src/hypertag/std/html.py', R+'ast.py'],
  [('Markup.expand / attribute rendering', R+'tag.py Markup'), ('tag table, custom, comment', 'src/hypertag/std/html.py'), ('attribute evaluation and concatenation', R+'ast.py xtag_expand._eval_attrs')])
p('C03', 'Output layout mirrors the indentation of the script',
  """Every outlined block starts a line of its own whose indentation is that of the block in the script relative to the enclosing tags; inline
  and multi-line content, blank lines between blocks, mixed inline/outline bodies and the append (...) and dedent (<) modifiers are laid
  out as documented. Control blocks, comments, assignments and definitions add no indentation and no text of their own, and indenting the whole script uniformly, or with tabs instead of
  spaces, changes nothing but the indentation strings themselves.""",
  ['programs'],
  'every script built from text, tag, control and modifier blocks up to a bounded number of blocks, nesting depth, indent widths and blank lines',
  'The tests fix about thirty layouts; layout is compositional and a slip shows only for particular combinations of nesting, widths, modifiers and blank lines.',
  [R+'ast.py', R+'dom.py', R+'tag.py'],
  [('indentation markers', R+'ast.py Grammar.preprocess'), ('relative/absolute indentation', R+'dom.py DOM.Node.set_indent, relative_indent, render'), ('outline marking and modifiers', R+'ast.py xblock.translate'), ('text block sub-indentation', R+'ast.py block_text.render')])
p('C04', 'Control blocks execute exactly the branches and iterations demanded',
  """An if block renders the first branch whose condition is true (else the else branch, else nothing); for and while
  render the body once per iteration in order with the loop variables bound (and unpacked) like in Python, and render the else clause exactly when no iteration took place. Conditions
  are evaluated lazily and in order, any branch body may be empty, in every inline or outline form and nesting, and variables assigned in any branch, loop or else clause are usable
  in that clause and after the block.""",
  ['programs', 'inputs'],
  'all nestings of if/elif/else, for/else and while/else up to depth two or three with every truth assignment and iteration count up to a bound, in every syntactic form of header and body',
  'Tests exercise single blocks with fixed conditions; branch selection, empty bodies, else clauses and nested control are a product space they do not cover.',
  [R+'ast.py', R+'grammar.py'],
  [('branch selection', R+'ast.py xblock_if, xblock_for, xblock_while'), ('slots of branches', R+'ast.py control_block._analyse_branches'), ('target unpacking', R+'ast.py xtargets.assign')])
p('C05', 'Names resolve by hierarchical scope, without leaks, in two namespaces',
  """A use of a variable or tag denotes the most recent definition visible at that place: tagged blocks and hypertag definitions open
  a scope whose definitions are invisible outside and shadow outer ones only inside, control blocks open none, and tags and variables never collide. A name with no visible definition is
  reported as an error before any output, and a variable whose definition was not executed in the current expansion or render is reported as unbound instead of showing
  a stale value.""",
  ['programs', 'histories'],
  'all scripts up to a bounded number of assign, use, define and call blocks placed in every nesting of tags, control blocks and hypertag definitions',
  'Scoping errors depend on the exact arrangement of definitions, shadowing and repeated expansions; the tests have a handful of arrangements.',
  [R+'ast.py', R+'structs.py'],
  [('symbol stack', R+'structs.py MultiDict, Context'), ('slots and state', R+'structs.py Slot, State'), ('scope open/close', R+'ast.py xblock_struct.analyse, xblock_def.analyse, control_block._analyse_branches, variable.analyse')],
  state=[('State.values', 'slot to value map during translation', R+'structs.py')])
p('C06', 'Expressions follow Python semantics, grouping and laziness',
  """Every expression built from the documented operators groups by the documented priorities and evaluates to what Python gives for the
  equally grouped expression, including comparison chains, right-associative power, laziness of and/or/if-else, calls, indexing, slicing and attribute access. The pipeline x:f(a,k=b) equals
  f(x,a,k=b) with chaining, space-separated concatenation equals joining the str() of its parts, <> equals !=, and if without else yields an empty value.""",
  ['inputs', 'programs'],
  'every expression tree up to a bounded number of operators over all operators, printed with only the parentheses that the documented priorities require, in every embedding form',
  'Grouping is a relation over all pairs and triples of operators; the tests evaluate a few dozen fixed expressions.',
  [R+'ast.py', R+'grammar.py'],
  [('priority ladder', R+'grammar.py expr..pow_expr'), ('chain evaluation', R+'ast.py chain_expression, simple_chain_expression, xcomparison, xifelse_test, xpipeline, xconcat_expr'), ('tail operators', R+'ast.py xcall, xindex, xmember')])
p('C07', 'Failures in try blocks and qualified expressions are contained exactly',
  """A try block renders exactly the first clause that raises no exception and nothing of the failed ones, renders nothing when all fail, and the ?-prefix equals a try without else; the layout and content
  of the blocks around it are as if the failed clauses were absent. The optional qualifier turns a failing or false expression
  into an empty string, the obligatory one raises the false-value error exactly for false values, both only for the expression they qualify, and neither they nor try catch exceptions outside Exception.""",
  ['programs', 'fault_sequences'],
  'every assignment of success, false value or exception to the expressions of scripts with nested try/else clauses, ?-prefixed blocks and qualified subexpressions',
  'Tests fail one expression at one place; containment must hold for a failure at any point, including deep inside indented bodies, hypertags and loops, with output before and after.',
  [R+'ast.py'],
  [('try clauses', R+'ast.py xblock_try._select_branch'), ('indentation restored on failure', R+'ast.py body.translate, block_text.render'), ('qualifiers', R+'ast.py expression.evaluate_with_qualifier')])
p('C08', 'Hypertag calls bind attributes like keyword/positional calls with defaults',
  """In a call of a native tag every formal attribute receives the positional value at its place, or the keyword value of its name, or its default evaluated anew for that
  expansion; calls with missing, surplus, unknown or doubly given attributes, or a body passed to a void tag, raise the corresponding error instead of producing output. Calling the tag inside an expression
  gives the same text as the tagged block with the same attributes, and hypertags nested in, passed to or chained with other hypertags keep their own bindings.""",
  ['inputs', 'programs'],
  'every signature of up to three attributes with and without defaults and body, called with every combination of positional and keyword arguments, in block and expression form',
  'The binding table is a product of signatures and call shapes; tests have single examples of each.',
  [R+'ast.py'],
  [('binding', R+'ast.py xblock_def._append_attrs'), ('expansion', R+'ast.py xblock_def.expand, EmbeddedHypertag, xtag_expand')])
p('C09', 'A body passed to a hypertag is inserted faithfully at every place',
  """Wherever a hypertag inserts its body - inline or outlined, at any depth, zero, one or several times, through further hypertags or selected by part - the document contains at each place exactly the content the body would render
  to on its own, re-indented to that place; earlier and later insertions do not influence one another. The expansion as a whole is laid out at the indentation of the call.""",
  ['programs'],
  'all hypertag definitions with up to three insertions at every combination of depths and inline/outline forms, for a set of bodies, nested up to three hypertags deep',
  'Insertions share mutable document nodes, so the defect shows only when two insertions or nested hypertags interact; tests insert bodies once.',
  [R+'ast.py', R+'dom.py'],
  [('insertion', R+'ast.py xblock_embed.translate'), ('indentation of shared nodes', R+'dom.py set_indent/relative_indent/copy'), ('expansion', R+'ast.py xblock_def.expand')],
  state=[('DOM.Node.indent, outline', 'mutable layout of nodes', R+'dom.py')])
p('C10', 'DOM traversal, selection, copying and alteration agree with the tree',
  """For every document tree, walking visits every node exactly once in the promised order and prunes exactly the skipped subtrees; selection returns exactly the nodes matching all
  criteria, in order, without copying or changing anything; removal and copying return independent copies whose modification leaves the original intact. Alteration replaces every node by what the transform returns, at every level in the promised order, and indexing, slicing and lookup shortcuts
  agree with their definitions.""",
  ['inputs', 'histories'],
  'all trees up to a bounded size over tagged, null, text and hypertag nodes, all criteria, all transforms from a family (drop, keep, duplicate, replace) and sequences of operations',
  'Tests look at two small trees with one selector each; the operations recurse over arbitrary trees and mix shared and copied nodes.',
  [R+'dom.py'],
  [('walk/alter/select/skip/copy', R+'dom.py DOM, DOM.Node')],
  observe=['HyperHTML().translate(script).dom and the DOM methods'])
p('C11', 'Imports deliver exactly the requested symbols of the right module, executed once',
  """An import path resolves to the module the documentation names (relative to the importing script; otherwise package, working folder, or importing script's folder; script or Python module), and binds exactly the requested symbols, renamed as asked, or with a wildcard
  all public ones; anything missing is reported as an import error. A module is executed at most once per runtime however many scripts and path spellings import it, and imported tags run in their own module's environment, unaffected by the importing script's names.""",
  ['configurations', 'programs', 'histories'],
  'all arrangements of files and packages up to a bound, all import forms and path spellings, and all sequences of imports through one runtime, including cycles',
  'Tests import a few files of one fixed folder; resolution order, caching across spellings, name isolation and cyclic graphs are not sampled.',
  [R+'runtime.py', R+'ast.py'],
  [('resolution and cache', R+'runtime.py HyLoader.load, PyLoader, Loader.load, join_path'), ('binding', R+'ast.py xwild_import, xname_import, ImportedHypertag')],
  state=[('Loader.cache', 'modules by location', R+'runtime.py')])
p('C12', 'The context declaration is the only way data enters a script',
  """A script sees exactly those variables and tags of the caller's context that its context blocks declare (renamed as asked), with the very objects the caller passed; undeclared ones stay invisible and never shadow built-ins,
  and a declared but missing one is reported as an import error naming it. Context blocks are accepted only before any other block than comments, and never see values of an earlier render.""",
  ['inputs', 'programs', 'histories'],
  'all subsets of passed and declared names over both namespaces with renaming, clashing with built-ins, tags and local names, and all placements of the context block',
  'Tests pass one or two variables; the exact visibility relation over passed, declared and built-in names is a product they do not enumerate.',
  [R+'ast.py', R+'runtime.py'],
  [('context import', R+'ast.py xcntx_import, xblock_context'), ('prolog tracking', R+'ast.py xblock.analyse, structs.py Context.in_prolog'), ('make_context', R+'ast.py HypertagAST.make_context')])
p('C13', 'A render depends only on its script and inputs, not on earlier renders',
  """Any sequence of renders and translations on one runtime, including failing ones, gives for each script exactly the result or error that a fresh runtime gives for it alone; repeated renders of one script are identical. Rendering a translated
  document any number of times gives the same text as rendering the script directly and leaves the document unchanged.""",
  ['histories'],
  'all sequences up to a bounded length over a pool of scripts that define, shadow, import, mutate, fail at different phases and use library tags, on one shared runtime',
  'Each test makes a fresh render or two; leakage through caches, shared modules, grammar or default objects needs particular orders of scripts.',
  [R+'runtime.py', R+'ast.py', R+'dom.py', R+'grammar.py'],
  [('per-render state', R+'ast.py HypertagAST.translate'), ('built-ins copy', R+'runtime.py Runtime.import_builtins'), ('module cache', R+'runtime.py HyLoader.cache'), ('default parser', R+'ast.py Grammar.get_parser')],
  state=[('Runtime._builtins', 'cached built-in symbols', R+'runtime.py'), ('HyModule.state', 'terminal state of imported module', R+'runtime.py')])
p('C14', 'Concurrent renders on one shared runtime are independent',
  """When several threads render through one runtime, as web servers do, every render returns exactly what it returns alone, under every interleaving,
  including first use, first import of a module, imported hypertags with attributes and failing renders.""",
  ['schedules'],
  'all interleavings up to a preemption bound of pairs (or triples) of renders at every line of the implementation',
  'The tests are single threaded; the defects need a switch between two particular statements.',
  [R+'runtime.py', R+'ast.py', 'src/hypertag/django/backend.py'],
  [('lazy built-ins', R+'runtime.py Runtime.import_builtins'), ('module cache and module state', R+'runtime.py HyLoader.load, src/hypertag/core/ast.py ImportedHypertag'), ('shared parser', R+'ast.py Grammar.default')],
  state=[('Runtime._builtins', 'shared lazily filled dict', R+'runtime.py'), ('HyModule.state', 'shared by all renders', R+'runtime.py')])
p('C15', 'Every script either renders or is rejected with a proper error',
  """For any text given as a script, rendering terminates and either returns a string or raises one of the language's documented errors (or an exception raised by the script's own expressions);
  it never crashes with an internal failure, hangs, or exhausts the stack on reasonable nesting. Empty and whitespace-only scripts render to whitespace.""",
  ['inputs'],
  'all token strings up to a bounded length over the alphabet of the language including indentation, and families of deeply nested scripts',
  'Tests feed well-formed scripts and a few malformed ones; internal assertion failures need odd token orders.',
  [R+'ast.py', R+'grammar.py', 'src/hypertag/nifty/parsing.py', R+'errors.py'],
  [('parsing and rewriting', 'src/hypertag/nifty/parsing.py ParsimoniousTree.rewrite'), ('error classes', R+'errors.py'), ('empty document', R+'ast.py HypertagAST.__init__')])
p('C16', 'Every character of text reaches the output unchanged',
  """Any Unicode character in literal text, string literals, attribute values, comments or embedded values (other than line breaks, trailing blanks and the documented special characters) reaches the output as that same character, once and in order;
  the escape pairs {{ }} $$ yield the single character. No character, including those the implementation uses internally, changes how the script is read, and the interior spacing and multi-line shape of embedded values is preserved.""",
  ['inputs'],
  'every Unicode code point in every textual position at line start, middle and end, and all short strings over special characters and blanks, literal and embedded',
  'Tests contain a few accented letters; a clash with internal marker characters or blank stripping needs the particular code point in the particular position.',
  [R+'ast.py', R+'grammar.py', R+'dom.py'],
  [('marker characters', R+'ast.py Grammar.get_parser, CHARS_DEFAULT'), ('blank stripping', R+'ast.py Grammar.preprocess'), ('text classes', R+'grammar.py verbatim, text, text_quot'), ('indent stripping', R+'dom.py get_indent, del_indent')])
p('C17', 'Alternative spellings of a construct are equivalent',
  """Spellings documented as equivalent give identical output in every context: optional trailing colon of headers; chained tags and nested inline tags; shortcuts and class=/id= attributes;
  $x, {x} and {$x}; comments and pass removed or added; the null tag before a text block or none; redundant blanks and parentheses in expressions; = and in-place forms; a tag under its own or an imported name.""",
  ['programs'],
  'all applications of the rewriting rules to every script of a bounded family, in each context of nesting',
  'Tests show one spelling of each; equivalence must hold in all contexts.',
  [R+'grammar.py', R+'ast.py'],
  [('grammar alternatives', R+'grammar.py body_struct, body_control, attr_short, inline_comment'), ('null tag', R+'tag.py Null')])
p('C18', 'Library text tags and functions meet their documented contract',
  """merge, dedent, unique, inline, lower, upper, doctype, crop/truncate, cycle and changes satisfy their documented contract for every input: for example unique keeps the first of equal lines in order, crop never returns more than the allowed length and leaves short strings alone,
  merge yields single blanks only, cycle repeats each sequence for exactly the promised number of steps. A tag applied to a block gives the same as the same-named function applied to the block's rendered text.""",
  ['inputs'],
  'all strings up to a bounded length over letters, blanks, tabs and newlines, all option values in range, all short sequences; as tag, function and filter',
  'Tests call each function once or twice; boundary lengths, empty and whitespace-only inputs and option combinations are not covered.',
  ['src/hypertag/std/builtins.py', 'src/hypertag/nifty/util.py', R+'dom.py'],
  [('definitions', 'src/hypertag/std/builtins.py'), ('registration as tag and variable', 'src/hypertag/std/registry.py')])
p('C19', 'The Django connector renders what the runtime renders',
  """A template found and rendered through the Django backend gives what the runtime gives for the same script, context and file, with request and CSRF values available, for any sequence of templates and contexts; the caller's context object is never changed, so
  no data leaks from one template or request to another. Template lookup honours the configured folders and reports missing templates by Django's error, and Django filters are usable both stand-alone and inside a configured project.""",
  ['histories', 'configurations'],
  'all sequences up to a bounded length of template renders over several templates in several folders, with shared or separate contexts and with or without a request',
  'The test-suite has no test of the Django connector at all.',
  ['src/hypertag/django/backend.py', 'src/hypertag/django/filters.py'],
  [('lookup and rendering', 'src/hypertag/django/backend.py Hypertag.get_template, Template.render'), ('settings', 'src/hypertag/django/filters.py')],
  observe=['django.template.engines / hypertag.django.backend.Hypertag'])
p('C20', 'Errors point at the place that caused them',
  """A script with a syntax error at a given line, otherwise valid, is rejected with a syntax error that names that line and shows its text; errors that the language raises while it translates a script (undefined names and tags, imports, attributes of hypertags, obligatory
  values, embeddings) name the line and column, and the file when known, where the offending construct begins. Truncating a valid script after any complete line never makes it syntactically invalid.""",
  ['programs', 'fault_sequences'],
  'every valid script of a bounded family, broken at every single line by every kind of fault, with leading blanks, comments, nesting and multi-line text around',
  'Tests only check that an error is raised, or its text for one case; the location is computed by a search over truncations and must be right at every line.',
  [R+'ast.py', R+'errors.py', 'src/hypertag/nifty/parsing.py'],
  [('binary search', R+'ast.py HypertagAST._locate_error'), ('message', R+'errors.py HError.make_msg')])
p('C21', 'Each expression is evaluated exactly once per execution, in script order',
  """Embedded expressions, attribute values, conditions, collections, assignments and arguments are evaluated exactly once each time their block is executed and never when it is not, from top to bottom and left to right, so
  scripts with side effects, iterators and counters behave predictably; insertion and re-rendering of a body does not evaluate it again. Default attribute values are evaluated only when used.""",
  ['programs', 'histories'],
  'all scripts up to a bounded number of blocks with a recording function in every expression position, under all control outcomes',
  'Output comparison cannot see a pure expression evaluated twice or in the wrong order; tests have no side-effecting expressions.',
  [R+'ast.py'],
  [('translate recursion', R+'ast.py NODES.*.translate'), ('attribute evaluation', R+'ast.py xtag_expand._eval_attrs')])
p('C22', 'Custom Python tags receive exactly the body and attributes written in the script',
  """A custom tag (class or wrapped function), passed as context or imported, is expanded with the attribute values in their written order and under their written names (also names that are no Python identifiers), with the body as written (a document for classes, rendered text for
  functions), and its returned string is placed and re-indented in the output like that of a built-in tag; errors it raises reach the caller. Called inside an expression, it receives the given text as body and the same attributes.""",
  ['inputs', 'programs'],
  'all combinations up to a bound of positional, keyword, shortcut and irregularly named attributes and of bodies, for every kind of custom tag, in block, chained and expression form',
  'Tests define two custom tags; the forwarding relation over attribute forms and bodies is not enumerated.',
  [R+'tag.py', R+'ast.py', R+'grammar.py'],
  [('Tag, TagFunction, Markup', R+'tag.py'), ('node construction', R+'ast.py xtag_expand.translate_tag')])
p('C23', 'Literals and assignments mean the same as in Python',
  """Numbers, strings with escape sequences and embeddings, raw strings, booleans, None, lists, tuples, sets and dictionaries evaluate to the values that the equal Python literal has. Assignments, plain, unpacking (nested, with trailing comma) and in-place (x op= v meaning x = x op v), bind the values that Python
  would bind and fail when Python would fail, for every operator and every iterable.""",
  ['inputs'],
  'all literals up to a bounded length over the lexical alphabets, all target patterns up to a bounded size against all value shapes, all in-place operators',
  'Tests evaluate a few literals and three unpacking patterns; lexical corner cases and mismatched shapes are not sampled.',
  [R+'ast.py', R+'grammar.py'],
  [('literals', R+'ast.py xnumber, xstring_format, xtext_quot, decode_escapes'), ('targets', R+'ast.py xtargets.assign, xblock_assign')])
p('C24', 'The DOM mirrors the executed script, and editing it edits the document',
  """Translation yields a DOM with one node per tagged block that was executed, in script order and nesting, carrying the tag and the evaluated attributes (those of hypertags by keyword), with control blocks, definitions and comments replaced by what they
  produced. Removing, copying, retagging, moving or otherwise editing a node of that DOM, before or after a render and inside or outside a hypertag, changes the rendered document in exactly that
  respect; rendering itself changes nothing, and editing a copy leaves the original as it was.""",
  ['programs', 'histories'],
  'every script over a block alphabet up to a bounded size, every manipulation of a family at every node, on the DOM, on a copy and on the body handed to a hypertag',
  'Tests compare rendered text and select from two documents; none compares the DOM with the script, and none edits it at every node and renders again.',
  [R+'ast.py', R+'dom.py'],
  [('translation to nodes', R+'ast.py xblock_struct, xtag_expand.translate_tag, xblock_def.expand'), ('nodes, copy, alter, render', R+'dom.py DOM, DOM.Node')],
  observe=['HyperHTML().translate(script).dom', 'DOM.Root.render()'])
p('C25', "A script sees exactly its runtime's built-ins; runtimes are independent",
  """Every script, the top one or an imported one, at every place sees each Python built-in and each documented function and tag of its runtime under its name with its value, and nothing that another render, script or runtime defined. A
  definition in the script shadows a built-in of the same kind from there to the end of its scope only, never in other scripts or later renders. The list of built-in modules (later ones win), the escape function and the tags of a runtime class apply to exactly the scripts that this
  runtime executes.""",
  ['programs', 'histories', 'configurations'],
  'every built-in symbol, every place of use, every sequence of shadowing forms up to a bounded length, every list of built-in modules up to a bounded length, every interleaving of two runtimes',
  'Tests use a dozen built-ins at the top level of one runtime class; shadowing, custom lists and coexisting runtimes are not exercised.',
  [R+'runtime.py', R+'run_html.py', 'src/hypertag/std/registry.py', 'src/hypertag/std/html.py', 'src/hypertag/std/builtins.py', R+'ast.py'],
  [('import_builtins, BUILTINS', R+'runtime.py Runtime'), ('scopes over built-ins', R+'ast.py HypertagAST.analyse')])
json_lines = '\n'.join(json.dumps(d, ensure_ascii=False) for d in P) + '\n'
open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w').write(json_lines)
for d in P:
    if len(d['title'])>80: print(d['id'])
    n = d['statement'].count('. ') + 1
    assert n <= 3, (d['id'], n)
print(len(P))
