prop("C02", "Every child is expanded exactly once, in source order",
     "For every element, component, slot and for the root of the macro, each child the user wrote appears exactly once in the expansion, as a child of that same parent, in the order it was written. No child is lost, duplicated, moved to another parent or reordered.",
     ALL, TEST + "they hold a handful of child lists, so an off-by-one, a skipped kind of child or a reordering that depends on the number or kind of siblings is not seen.",
     ["expand.rs", "expand/subroutines.rs", "ast/children.rs", "lib.rs"],
     [("fragment of children", C + "expand.rs children_fragment_tokens"), ("child methods", C + "expand/subroutines.rs xml_child_methods_tokens"), ("children of components", C + "expand/subroutines.rs component_children_tokens")],
     AI, NOTE)
prop("C03", "Nothing the user wrote is dropped silently",
     "Every attribute, directive, modifier, selector, spread, closure argument, child and slot the user writes either takes effect in the expansion, or an error is reported. There is no input for which a part of it has neither effect nor diagnostic. (`clone:` acts on the children of its component, so it has nothing to act on where there are none.)",
     ALL, TEST + "no test looks at diagnostics and none writes the unusual combinations (modifiers on directives without them, slots in elements, arguments on elements) for which dropping would go unnoticed.",
     ["expand.rs", "expand/subroutines.rs", "expand/utils.rs"],
     [("unknown directives", C + "expand/subroutines.rs xml_directive_tokens"), ("modifiers", C + "expand/utils.rs emit_error_if_modifier"), ("slots", C + "expand.rs slots_to_tokens")],
     AI + "; error obligations of the specification must be met by emitted diagnostics", NOTE)
prop("C04", "Setters are emitted in a fixed order",
     "On an element the expansion sets plain attributes first, then directives, then class selectors, then id selectors, then spreads, then children; on a component attributes, then children, then slots, then the extra attributes with class selectors before the id before directives and spreads. Within each of these groups the source order is kept.",
     ALL, TEST + "almost all of them have one or two attributes, so an order that breaks only for certain mixes (a `class:` directive after `class=`, a spread before a directive) is not exercised.",
     ["expand.rs", "expand/subroutines.rs"],
     [("element chain", C + "expand.rs xml_to_tokens"), ("component chain", C + "expand.rs component_to_tokens")],
     AI, NOTE)
prop("C05", "Each directive of an element becomes its documented method",
     "On elements `class:`/`style:` add a `(name, value)` pair, `prop:` sets a property by name, `on:` registers the value for the named event (with `undelegated` wrapping it), `use:` calls the named directive with the converted value or the default parameter, and `{..x}` adds `x` as attributes. Any other directive, a modifier where none is allowed, or a string where a name is needed is reported.",
     ALL, TEST + "each directive occurs with one or two spellings of name, value and modifier; the mapping has to hold for all combinations of directive, key form, modifier and value kind.",
     ["expand/subroutines.rs", "expand/utils.rs", "ast/attribute/directive.rs"],
     [("directives", C + "expand/subroutines.rs xml_directive_tokens"), ("events", C + "expand/subroutines.rs event_listener_event_path"), ("spreads", C + "expand/subroutines.rs xml_spread_tokens")],
     AI, NOTE)
prop("C06", "Component attributes are props, directives are added attributes",
     "On a component every plain attribute calls the prop setter of that name with its value, and every directive, selector and spread is passed on as an extra attribute with its documented meaning: `class:`/`style:` pairs, `attr:` as checked, custom or class/style attribute, `prop:` as property, `on:` as event, `use:` as directive, valueless ones as `true`. Unknown directives and unsupported modifiers are reported.",
     ALL, TEST + "the component tests cover a few directive/key/value combinations; the choice between checked, custom and class/style attributes depends on the spelling of any possible key.",
     ["expand.rs", "expand/subroutines.rs"],
     [("props", C + "expand/subroutines.rs component_kv_attribute_tokens"), ("extra attributes", C + "expand/subroutines.rs directive_to_any_attr_path"), ("selectors", C + "expand.rs component_to_tokens")],
     AI, NOTE)
prop("C07", "Slots go to the parent's setter of their name, grouped, in order",
     "All slots of one name inside of a component (or slot) are passed by a single call of the parent's setter with the snake-case name of the slot: the slot itself if there is one, a vector of all of them in source order if there are several; the setters follow the order in which the names first appear. A slot is built from its own attributes, children and nested slots, and slots anywhere else, or with selectors, spreads or directives, are reported.",
     ALL, TEST + "three slot tests with one or two slots per name cannot show grouping, order and nesting for arbitrary mixes of slots and other children.",
     ["expand.rs", "lib.rs"],
     [("grouping", C + "expand.rs slots_to_tokens"), ("building", C + "expand.rs component_to_tokens"), ("slots at the root", C + "lib.rs mview_impl")],
     AI + "; grouping loops are summarised as a partition of the list by key", NOTE)
prop("C17", "Bracketed values become the documented closures",
     "A value `[tokens]` expands to a `move` closure without parameters returning the tokens, and `f[tokens]` to a `move` closure returning `std::format!` of the tokens, wherever values are allowed. Any other prefix is reported.",
     "every bracketed value, with any prefix and contents, in every position that takes a value", TEST + "bracketed values are tested with one prefix and few contents and not in all positions.",
     ["ast/value.rs"], [("expansion of values", C + "ast/value.rs Value::to_tokens")], AI, NOTE)
prop("C18", "User expressions are passed on verbatim and once",
     "The tokens of every value, block, spread expression and closure argument list appear unchanged and exactly once in the expansion, in the argument position belonging to the attribute, directive or child they were written for. Literals are passed on as written.",
     ALL, TEST + "duplicated, altered or swapped expressions show only for expressions with effects or of types that no test uses.",
     ["ast/value.rs", "expand/subroutines.rs", "ast/attribute/spread_attrs.rs"],
     [("values", C + "ast/value.rs Value::to_tokens"), ("spreads", C + "ast/attribute/spread_attrs.rs SpreadAttr::expr"), ("arguments", C + "expand/subroutines.rs component_children_tokens")],
     AI, NOTE)
prop("C20", "Names keep their spelling: kebab as text, snake case as identifiers",
     "Where a name becomes text (attribute names, class, style and property names, ids, custom element names) it is spelled exactly as written, dashes included; where it becomes an identifier (setters, events, directive functions, cloned variables) it is the same name with every dash replaced by an underscore, as a raw identifier. A slot's setter is its name in snake case, and names that cannot be identifiers are reported.",
     "every name the grammar accepts: any mix of identifiers, keywords, numbers and dashes", TEST + "a few names with one dash are used; consecutive, leading or trailing dashes, keywords and capitals are not.",
     ["ast/ident.rs", "expand/utils.rs"],
     [("identifiers", C + "ast/ident.rs KebabIdent::to_snake_ident"), ("text", C + "ast/ident.rs KebabIdent::to_lit_str"), ("slot names", C + "expand/utils.rs upper_camel_to_snake_case")],
     AI + "; strings are tracked as symbolic compositions of the input's text", NOTE)
prop("C21", "Checked attributes stay checked, custom attributes go by name",
     "On HTML and MathML elements an attribute is a call of the checked method of its name, unless its name contains a dash and does not start with `aria-`; on SVG and custom elements every attribute except `class` and `style` is set by name with its value converted. `ref` always sets the node reference, and `attr:` on components follows the same dash rule.",
     "every attribute name, on every kind of tag", TEST + "the rule is a condition on all strings and all tags; tests use a handful of names on HTML tags.",
     ["expand/subroutines.rs"], [("choice", C + "expand/subroutines.rs xml_kv_attribute_tokens"), ("kinds", C + "expand/subroutines.rs AttributeKind")], AI, NOTE)
prop("C23", "Component children become one move closure with its clones",
     "If a component or slot has element children (or closure arguments), its `children` setter is called exactly once with a block that first clones every `clone:` variable in source order and then is a `move` closure returning one view of all element children: with the user's closure arguments if given, wrapped by the children conversion otherwise. Without element children and arguments the setter is not called.",
     ALL, TEST + "clone order, argument forwarding and the absent-children case are tested in single instances.",
     ["expand/subroutines.rs", "expand.rs"],
     [("closure", C + "expand/subroutines.rs component_children_tokens"), ("clones", C + "expand/subroutines.rs component_clone_tokens"), ("presence of children", C + "expand.rs component_to_tokens")], AI, NOTE)
prop("C24", "Selector shorthands add every class, and set the id",
     "Every `.name` selector adds that class unconditionally and every `#name` sets that id, on any element and in source order; on components each class is added as an extra attribute and all ids are joined with spaces into a single id. The text is exactly the name as written.",
     "every list of selectors on every kind of tag", TEST + "selector lists in tests have at most two entries; joining, order and completeness for longer lists are open.",
     ["expand.rs", "expand/subroutines.rs", "ast/attribute/selector.rs"],
     [("on elements", C + "expand/subroutines.rs xml_selectors_tokens"), ("on components", C + "expand.rs component_to_tokens")], AI, NOTE)
prop("C25", "Component paths and generics reach the builder unchanged",
     "A component expands to a view of the component called through its props builder, with the path exactly as written (leading `::` and every segment kept) and generics on any segment turned into a turbofish, in both places where the path is used; its extra attributes are added to the component's view. A slot starts its own builder from the path in the same way.",
     "every component path: any number of segments, with or without generics on each", TEST + "one generic component and one nested path are tested.",
     ["expand.rs", "expand/utils.rs", "ast/tag.rs"],
     [("turbofish", C + "expand/utils.rs turbofishify"), ("shape", C + "expand.rs component_to_tokens")], AI, NOTE)
prop("C27", "One root child expands to itself, otherwise to one fragment",
     "With exactly one child at the root the macro is that child's view alone; with none or several it is one fragment holding all of them in order. Component children are always one fragment, and every node in child position is converted for rendering.",
     "every number and kind of root children", TEST + "only a few root shapes are written; the empty root and mixes are not.",
     ["lib.rs", "expand.rs"], [("root", C + "lib.rs mview_impl"), ("fragment", C + "expand.rs children_fragment_tokens")], AI, NOTE)
prop("C28", "Input within the documented syntax is never rejected",
     "A view that uses only documented forms (known directives, permitted modifiers, valid names, slots inside of components) expands without any diagnostic, whatever the number, order or combination of its parts. Errors are reported only for forms the documentation excludes.",
     ALL, TEST + "acceptance is sampled for a few dozen views; a spurious error for some combination is not.",
     ["expand.rs", "expand/subroutines.rs", "lib.rs"], [("diagnostics of the expansion", C + "expand/subroutines.rs"), ("root", C + "lib.rs mview_impl")], AI + "; diagnostics must be justified by the specification", NOTE)

PARSE_ALL = "every token stream, of any length and nesting"
PNOTE = ("Covers every input of any size: the tokens are unknown, what a parser looks at becomes a fact about them, loops are summarised over one generic iteration, nested constructs over their own analysis. "
         "Trusted: the models of std/syn/proc-macro2 calls in engine/ (what peeking, forking and parsing a token does), and the grammar in check/spec_parse.py. "
         "What the engine cannot describe is reported as undecided in the evidence and raises no alarm.")
API = "abstract interpretation of the parsers' MIR over symbolic token streams; outcomes (tree, position, diagnostics) compared with the documented grammar"

prop("C11", "No input makes the macro panic",
     "Expanding any input ends with tokens or with reported errors: no unwrap, expect, index, assertion or identifier construction can fail, in the parsers or in the expansion, whatever the input is.",
     "every token stream given to the macro", TEST + "a panic needs the one token that an unwrap did not expect, or a name that cannot be an identifier.",
     ["parse.rs", "ast/value.rs", "ast/ident.rs", "ast/children.rs", "expand.rs"],
     [("unwraps behind a peek", C + "ast/value.rs Value::parse"), ("identifiers made of names", C + "ast/ident.rs KebabIdent::to_snake_ident"), ("names always have a span", C + "ast/ident.rs KebabIdent::span"), ("slots are components", C + "expand.rs slots_to_tokens")],
     "abstract interpretation of the macro's MIR: no path to a panic is feasible; identifiers are constructed of text that is one", PNOTE)
prop("C12", "Parsing always terminates",
     "Every repetition of the parser consumes at least one token in each round, or leaves the loop, and no construct parses itself again at the position it starts at; so parsing ends for every input, including malformed input that is skipped to report several errors.",
     PARSE_ALL, TEST + "an input on which a loop stands still never occurs among them, and would hang the compiler of whoever writes it.",
     ["ast/children.rs", "ast/ident.rs", "ast/attribute.rs", "ast/attribute/selector.rs", "ast/element.rs"],
     [("children loop", C + "ast/children.rs Children::parse"), ("kebab loop", C + "ast/ident.rs KebabIdent::parse"), ("attribute loop", C + "ast/attribute.rs Attrs::parse"), ("closure arguments", C + "ast/element.rs parse_closure_args")],
     "abstract interpretation of the parsers: progress of the input position on every back edge, no left recursion in the call graph at an unchanged position", PNOTE)
prop("C13", "Constructs consume exactly their own tokens, lookahead none",
     "A construct that parses leaves the input exactly behind its last token, and one that is tried and does not match leaves the input where it was and reports nothing that is not an error of the input anyway, so that what follows is read as if nothing had been tried.",
     PARSE_ALL, TEST + "a token taken too much or too little shows only in what comes next, which the tests rarely vary.",
     ["parse.rs", "ast/attribute.rs", "ast/children.rs", "ast/attribute/selector.rs", "ast/ident.rs"],
     [("trying", C + "parse.rs rollback_err"), ("delimited constructs", C + "parse.rs braced"), ("attributes", C + "ast/attribute.rs Attr::parse")], API, PNOTE)
prop("C14", "Malformed input is reported",
     "Whenever the input is not in the documented syntax, at least one error is emitted: missing values after `=`, unterminated elements, unknown attributes, extra semicolons, literals that are not strings, tokens that are no child, raw identifiers inside of names, names that cannot be identifiers, a failed parse of the root.",
     PARSE_ALL, TEST + "the tests look at the diagnostics of a few malformed views; for others it is open whether anything is reported.",
     ["ast/children.rs", "ast/element.rs", "ast/value.rs", "ast/ident.rs", "ast/attribute.rs", "lib.rs", "expand/subroutines.rs"],
     [("children", C + "ast/children.rs Children::parse"), ("elements", C + "ast/element.rs Element::parse"), ("values", C + "ast/value.rs Value::parse_or_emit_err"), ("root", C + "lib.rs mview_impl")], API + "; every input outside of it must be reported", PNOTE)
prop("C19", "Each tag name selects the right kind of element",
     "A tag starting with an ASCII capital or written as a path is a component; a name among the SVG elements is created with the svg constructor of that name (`use_` and `use` included), one with a dash is a custom element, one among the MathML elements a math element, anything else an html element; and the expansion calls the constructor of that kind with that name.",
     "every tag name and path", TEST + "they use about twenty of the 200 possible names and no near misses, and a name put into or left out of a list that is searched is not noticed.",
     ["ast/tag.rs", "expand.rs"],
     [("kinds", C + "ast/tag.rs TagKind::from"), ("lists", C + "ast/tag.rs is_svg_element"), ("constructors", C + "expand.rs xml_to_tokens")], API + "; the lists of names are compared with the constructors of the framework", PNOTE)
prop("C22", "Boolean attributes and shorthands have their documented values",
     "An attribute without value has the value `true`, and `{name}` as attribute or behind a directive means the name with the value of the variable of the same name in snake case, for every name; one that cannot be a variable is reported.",
     "every attribute and directive, with any name", TEST + "shorthands are tested with two names; dashes, keywords and the combination with each directive and modifier are not.",
     ["ast/attribute/kv.rs", "ast/attribute/directive.rs", "ast/ident.rs", "ast/value.rs"],
     [("attributes", C + "ast/attribute/kv.rs KvAttr::parse"), ("directives", C + "ast/attribute/directive.rs Directive::parse"), ("variable", C + "ast/ident.rs BracedKebabIdent::into_block_value"), ("true", C + "ast/value.rs Value::new_true")], API, PNOTE)
prop("C26", "Every construct is parsed into the tree the syntax documents",
     "For every input of the documented grammar the syntax tree has each part where it was written: the kind of value, prefix and tokens of it; key, value and modifier of each attribute and directive; tag, selectors, attributes, closure arguments and children of each element; node or slot of each child, all in source order, with names spelled as written.",
     PARSE_ALL, TEST + "the parser is tested on a few dozen inputs, while the grammar depends on two tokens of lookahead, on spacing and on what kind of token follows in every position.",
     ["ast/value.rs", "ast/ident.rs", "ast/attribute.rs", "ast/attribute/directive.rs", "ast/attribute/kv.rs", "ast/attribute/selector.rs", "ast/attribute/spread_attrs.rs", "ast/tag.rs", "ast/children.rs", "ast/element.rs", "parse.rs"],
     [("elements", C + "ast/element.rs Element::parse"), ("children", C + "ast/children.rs Child::parse"), ("attributes", C + "ast/attribute.rs Attr::parse"), ("names", C + "ast/ident.rs KebabIdent::parse"), ("values", C + "ast/value.rs Value::parse")], API, PNOTE)

SCAN = ("Covers every input of any size, as far as the templates do (loops over one generic element, branches as facts). Trusted: the models in engine/. "
        "Tokens and spans the engine cannot describe are reported as undecided in the evidence and raise no alarm.")
prop("C01", "The expansion depends on nothing but the input",
     "Expanding the same tokens always gives the same tokens and diagnostics: the macro reads no environment, file, clock, random number, address, thread or position in a file, walks no hashed collection in its own order, and keeps no state from one invocation to the next.",
     "every input, any number of invocations in any order and in any process", TEST + "each of them once and in one process; a dependence on the hash seed, on earlier invocations or on the environment shows up in somebody's second build.",
     ["lib.rs", "expand.rs", "expand/utils.rs", "ast/tag.rs", "/leptos-mview-macro/src/lib.rs"],
     [("entry", "leptos-mview-macro/src/lib.rs mview"), ("implementation", C + "lib.rs mview_impl"), ("grouping of slots", C + "expand.rs slots_to_tokens")],
     "effect analysis: every function mentioned in the MIR of both macro crates against a list of effects, and every static's type", 
     "Covers all local functions, reachable or not. Trusted: functions of std, syn, quote, proc-macro2 and proc-macro-error2 that are not on the list are functions of their arguments. A hashed collection that is walked and sorted in the same function is reported as undecided.",
     over=("programs", "histories"))
prop("C08", "Generated code uses absolute paths only",
     "Every path, macro and function that generated code names itself starts at the root of a known crate (`::leptos`, `::std`, `::core`, `::leptos_mview`), so that no item, import, module or macro of the user can change what it means and nothing needs to be imported for it. Names of the user are the only ones that are resolved where the macro is used; methods are those of leptos' prelude.",
     ALL, TEST + "none in a scope that shadows `std`, `leptos`, `Box`, `Into`, `format` or `vec`, and there are hundreds of combinations of parts that emit paths.",
     ["expand.rs", "expand/subroutines.rs", "expand/utils.rs", "ast/value.rs", "ast/children.rs", "lib.rs", "ast/attribute/directive.rs", "ast/attribute/kv.rs"],
     [("components", C + "expand.rs component_to_tokens"), ("directives", C + "expand/subroutines.rs directive_to_any_attr_path"), ("closures", C + "ast/value.rs Value::to_tokens"), ("slots", C + "expand.rs slots_to_tokens")],
     "abstract interpretation of the macro's MIR; name resolution rule over every identifier of every template", SCAN)
prop("C09", "Generated code is transparent for the user's code",
     "Around the user's expressions generated code binds no names (except the clones that were asked for and reserved `__` names), opens no function, loop, async, const or unsafe context besides the documented closures, never leaves the user's function by itself, and silences no lints except `unused_braces` and, behind an error, `unreachable_code`.",
     ALL, TEST + "their expressions mention few variables and have no control flow, so a captured name, `break`, `?` or a silenced lint is not noticed.",
     ["expand.rs", "expand/subroutines.rs", "span.rs", "ast/value.rs", "lib.rs"],
     [("clones", C + "expand/subroutines.rs component_clone_tokens"), ("coloring", C + "span.rs color_all"), ("closures", C + "ast/value.rs Value::to_tokens"), ("root", C + "lib.rs mview_impl")],
     "abstract interpretation of the macro's MIR; binding and capture rules over every token of every template", SCAN)
prop("C10", "What generated code names exists in Leptos",
     "Every function, macro, module, type and method that generated code names itself exists in Leptos 0.7, in `std` or in leptos_mview, is public, and is called with as many arguments as it takes.",
     "every framework item that any expansion can name, whatever the input", TEST + "an item that only a rare combination of directive, modifier and tag refers to is never compiled.",
     ["expand.rs", "expand/subroutines.rs", "ast/value.rs", "ast/children.rs", "lib.rs", "/src/lib.rs"],
     [("events", C + "expand/subroutines.rs event_listener_event_path"), ("extra attributes", C + "expand/subroutines.rs directive_to_any_attr_path"), ("custom elements", C + "expand.rs xml_to_tokens"), ("missing values", "src/lib.rs MissingValueAfterEq")],
     "abstract interpretation of the macro's MIR collects the names; a witness crate that mentions each is type-checked against leptos", SCAN + " Methods are looked for on html, svg and custom elements and on views; the compiler decides the existence.")
prop("C15", "Errors point to the part of the input they are about",
     "Every diagnostic has the location of tokens of the input, never that of the macro call as a whole; what is reported for one attribute, directive, modifier, child or slot points into that very one.",
     "every diagnostic, for every input", TEST + "a few locations are recorded in the UI tests; which of several attributes or children an error points to is not varied.",
     ["expand.rs", "expand/subroutines.rs", "expand/utils.rs", "ast/ident.rs", "ast/children.rs", "ast/element.rs", "ast/value.rs", "ast/attribute/selector.rs", "error_ext.rs", "lib.rs", "parse.rs"],
     [("errors of syn", C + "error_ext.rs ResultExt::unwrap_or_abort"), ("errors of children", C + "ast/children.rs Children::parse"), ("directives", C + "expand/subroutines.rs xml_directive_tokens"), ("slots", C + "expand.rs slots_to_tokens"), ("names", C + "ast/ident.rs KebabIdent::span")],
     "abstract interpretation of the macro's MIR tracks where spans come from; provenance rule over every emitted diagnostic", SCAN + " Errors made by syn itself at the end of the input point to where syn puts them.")
prop("C16", "An erroneous view expands to its errors and a unit value",
     "Whenever an error is reported, by aborting or by emitting, the macro expands to the reported errors and to `()` in place of the view, so that an invocation stays an expression; the whole input is handed to the implementation and its whole result is returned, inside of the error handling, and nothing intercepts an abort.",
     "every input that leads to an error, at any point of parsing or expansion", TEST + "the few erroneous views of the UI tests do not cover an error at every point at which one can be reported.",
     ["lib.rs", "/leptos-mview-macro/src/lib.rs", "error_ext.rs"],
     [("entry", "leptos-mview-macro/src/lib.rs mview"), ("substitute", C + "lib.rs mview_impl"), ("aborting", C + "error_ext.rs ResultExt::unwrap_or_abort")],
     "abstract interpretation of the macro's entry: typestate of the error handling at every point that can report", 
     "Trusted: proc_macro_error2::entry_point prints the substitute together with all diagnostics when there are any.")
prop("C29", "Names of the input keep their location and hygiene",
     "Every identifier in the expansion that is made of a name of the input, other than the names of the framework's own items, carries the span of that name: it is resolved where the user wrote the name (also when the view is written inside of another macro), and the compiler's errors about it point there.",
     "every name, in every position that makes an identifier of it", TEST + "none uses a view with names that come from different macros.",
     ["ast/ident.rs", "expand/subroutines.rs", "expand/utils.rs", "expand.rs", "ast/attribute/kv.rs", "ast/attribute/directive.rs"],
     [("identifiers", C + "ast/ident.rs KebabIdent::to_snake_ident"), ("clones", C + "expand/subroutines.rs component_clone_tokens"), ("shorthand", C + "ast/ident.rs BracedKebabIdent::into_block_value"), ("slot setters", C + "expand.rs slots_to_tokens"), ("directive functions", C + "expand/subroutines.rs use_directive_fn_value")],
     "abstract interpretation of the macro's MIR tracks where spans come from; provenance rule over every identifier of every template", SCAN)


prop("C33", "Nested views are parsed once and expanded once",
     "No element, child or list of children is parsed a second time at a place where it was already tried, and none is expanded at two places of one expansion (not even to ask for its span or to look whether it is empty); so work does not double with every level of nesting, and nothing inside of a nested view is reported twice because it was read twice.",
     "every view, nested to any depth", TEST + "and nest a few levels, where trying an element twice costs nothing that anybody would notice.",
     ["ast/children.rs", "ast/element.rs", "parse.rs", "expand.rs", "expand/subroutines.rs"],
     [("children", C + "ast/children.rs Child::parse"), ("blocks of children", C + "parse.rs braced"), ("elements", C + "ast/element.rs Element::parse"), ("expansion of nodes", C + "ast/children.rs NodeChild::to_tokens"), ("expansion of slots", C + "expand.rs slots_to_tokens")],
     "abstract interpretation of parsers and expansion; along no path is a recursive construct parsed twice at one position or expanded at two call sites", PNOTE)


def na(id, title, statement, text, why, files, mech, reason, over=("programs",)):
    NA.append(dict(id=id, title=title, statement=statement, over=list(over), text=text, why=why, files=[C + f if not f.startswith("/") else f[1:] for f in files], mech=mech, reason=reason))


na("C30", "The rendered page is the one the view describes",
   "Rendering the view that an expansion builds, on the server or in the browser, gives the elements, attributes, texts and event listeners that the view describes, and keeps them up to date with the signals used in it.",
   "every view, every value of its expressions and every history of their signals", TEST + "and compare the HTML of their first rendering on the server; nothing is updated and no event is fired.",
   ["expand.rs", "expand/subroutines.rs"], [("elements", C + "expand.rs xml_to_tokens"), ("components", C + "expand.rs component_to_tokens")],
   "What an expansion does at run time is decided by leptos and tachys, a generic reactive renderer that is not part of this repository, and by the values of the user's expressions. The part that is decided here, that the expansion consists of the documented calls, is C02-C10 and C17-C27.",
   over=("programs", "histories"))
na("C31", "Deeply nested input does not overflow the compiler's stack",
   "A view nested to any depth that rustc itself can parse is expanded without overflowing the stack of the thread the macro runs in.",
   "every nesting depth", TEST + "and nest at most five levels.",
   ["ast/element.rs", "ast/children.rs", "expand.rs"], [("recursion", C + "ast/element.rs Element::parse"), ("expansion", C + "ast/children.rs NodeChild::to_tokens")],
   "Recursive descent uses stack in proportion to the nesting, so the statement is about the size of frames and of the stack of rustc's threads, which optimisation and platform decide; the source does not bound either. That each recursion is on a smaller input, so that it is finite, is C12.")
na("C32", "Editors colour and complete what the user typed",
   "In an editor every token of a view has the colour, the hover text and the completions of the thing it stands for (names of selectors as variables, tags as functions, attributes as methods), also while the view is incomplete.",
   "every view and every prefix of one while it is typed", TEST + "and none of them asks an editor.",
   ["span.rs", "ast/ident.rs", "expand/subroutines.rs"], [("colours of selectors", C + "span.rs color_all"), ("unspanned names", C + "ast/ident.rs KebabIdentOrStr::to_unspanned_string")],
   "What an editor shows is the result of rust-analyzer's own expansion, span mapping and heuristics, which are not in this repository and have no specification to compare with. Where diagnostics point is C15, which spans names of the input keep is C29, and that incomplete input still expands is C14 and C16.")
na("C34", "Expanding takes time proportional to the input",
   "Expanding a view takes time and memory in proportion to its number of tokens, whatever its shape.",
   "every token stream", TEST + "all of which are tiny.",
   ["parse.rs", "expand.rs", "ast/attribute.rs"], [("speculative parsing", C + "parse.rs rollback_err"), ("grouping of slots", C + "expand.rs slots_to_tokens")],
   "Costs of forks, token streams and formatting are those of syn and proc-macro2 and of the compiler's bridge behind them, and grouping slots by name is quadratic in the number of names by design; a bound derived from the source of this repository alone would say nothing about the time. That no construct is parsed again without progress is C12, that nothing nested is parsed or expanded twice is C33.")
