#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only so that the text is editable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Parsing any text returns a value or an error and never panics",
  "Every way of turning text into a symbol, token stream, production, production head or body, production string or plant description returns a result for every possible input text: either a value or an error. Malformed, empty, non-ASCII or oddly spaced text is reported as an error or parsed, but never aborts the caller with a panic (failed unwrap, slice or index out of range, cut inside a character, arithmetic overflow).",
  ["inputs"], "all UTF-8 texts, of any length and alphabet",
  "The unit tests parse a few dozen well-formed ASCII strings; whitespace runs, multi-byte whitespace, empty contexts, boundary chances and non-ASCII plant files are not among them.",
  ["src/parser.rs", "src/parser/iterator.rs", "src/parser/token.rs", "src/parser/statement.rs", "src/interpretation/abop/parser.rs", "src/productions.rs", "src/symbols.rs"],
  [("tokeniser index arithmetic", "src/parser/iterator.rs TokenIterator::next, next_break"), ("splitting of heads and bodies", "src/parser.rs parse_production*, parse_head_context"), ("plant file line parsing", "src/interpretation/abop/parser.rs parse, parse_initial, parse_equality")],
  ["parser::parse_production", "parser::parse_production_head", "parser::parse_production_body", "parser::parse_prod_string", "TokenIterator", "abop::parser::parse", "FromStr/TryFrom impls"])

p("C02", "Matching and deriving never panic, for any string, index or rule set",
  "Asking whether a rule applies at a position, finding the applicable rule, choosing a body and deriving a string any number of times never panics: not for the empty string, not for positions at or beyond the end, not for contexts longer than the string, not for empty contexts. Positions outside the string simply do not match; anything else that cannot proceed is returned as an error.",
  ["inputs", "histories"], "all production strings, all positions (every usize), all rule lists and all iteration counts",
  "Tests call matching with in-range positions of short non-empty strings only.",
  ["src/productions.rs", "src/system.rs", "src/strings.rs"],
  [("context matching slices and index arithmetic", "src/productions.rs ProductionHead::matches, pre_matches, post_matches"), ("body selection", "src/productions.rs Production::body"), ("derivation loop", "src/system.rs find_matching, derive_once, derive")],
  ["ProductionHead::matches", "Production::matches", "find_matching", "System::derive", "System::derive_once", "system::derive", "system::derive_once"])

p("C03", "Interpreting and rendering never panic, whatever the symbols or numbers",
  "Interpreting any production string with any symbol store, computing bounds of any paths, and rendering any drawing to SVG text returns a value or an error and never panics: unbalanced branch ends, a store that lacks a command symbol, empty drawings, non-finite coordinates or angles included.",
  ["inputs", "configurations"], "all production strings, symbol stores, angles, canvas sizes, paths and decorations",
  "Tests interpret one balanced string with the ABOP system; unbalanced strings, other stores, and empty or non-finite drawings are never tried.",
  ["src/interpretation/abop.rs", "src/interpretation/svg.rs", "src/geometry.rs", "src/interpretation.rs"],
  [("turtle state stack and command lookup", "src/interpretation/abop.rs AbopTurtleInterpretation::interpret"), ("fit-to-canvas from optional bounds", "src/interpretation/svg.rs SvgPathInterpretation::interpret"), ("path rendering", "src/interpretation/svg.rs SvgPath::to_svg")],
  ["Interpretation::interpret", "SvgElement::to_svg", "Bounds::bounds", "Svg::save_file"])

p("C04", "lsystem exits with success only after the SVG was written",
  "The command line tool reports a success exit status only if parsing, deriving, interpreting and saving all succeeded, and any of them failing yields a failure exit status with a message on standard error. It does not panic for any file path, verbosity, size or file content, and it writes the drawing to the requested output path (with the extension forced to svg).",
  ["inputs", "configurations", "fault_sequences"], "all argument values, all file contents, and a failure at any of the four stages",
  "The binary has no tests at all.",
  ["src/bin/lsystem/main.rs", "src/bin/lsystem/derive.rs", "src/interpretation/svg.rs"],
  [("stage-by-stage error exits", "src/bin/lsystem/derive.rs handle_derive"), ("file creation and complete write", "src/interpretation/svg.rs Svg::save_file")],
  ["process exit status", "output file", "standard error"])

p("C05", "One name is one symbol code, and one code one name, across all threads",
  "At any time and from any number of threads, asking for the code of the same name (ignoring surrounding whitespace) always yields the same code, and two different names never share a code. A code, once handed out for a name, is never changed, reused or withdrawn.",
  ["schedules", "histories", "inputs"], "all interleavings of concurrent registrations and lookups, all names, any history of earlier registrations",
  "A race between two first registrations of one name needs a particular interleaving; the tests run single threaded.",
  ["src/symbols.rs"],
  [("lookup, allocation and insertion under one write guard", "src/symbols.rs get_code"), ("atomic counter", "src/symbols.rs SYMBOL_ID")],
  ["symbols::get_code", "Symbol::build", "Symbol equality"],
  [("CODE_REGISTER", "name to code map", "src/symbols.rs"), ("SYMBOL_ID", "next code", "src/symbols.rs")])

p("C06", "A code that has been handed out always has its name",
  "Whenever any thread has obtained the code of a symbol by name, asking for the name of that code returns exactly the (trimmed) name it was registered under: immediately, from every thread, and for ever after. There is no moment at which a code is obtainable but nameless.",
  ["schedules", "histories"], "all interleavings of get-code and get-name calls on any names",
  "The window between publishing the code and recording its name is a few instructions wide; single-threaded tests cannot enter it.",
  ["src/symbols.rs"],
  [("name recorded before the code becomes visible", "src/symbols.rs get_code"), ("name lookup", "src/symbols.rs get_name")],
  ["symbols::get_name", "Symbol::name", "TryFrom<u32> for Symbol", "Display for Symbol"],
  [("NAME_REGISTER", "code to name map", "src/symbols.rs")])

p("C07", "A family name is registered at most once and never replaced",
  "For each name at most one registration ever succeeds, whichever registration operation is used and however many threads race; later attempts are refused (or, for get-or-initialise, return the existing family), and every lookup of a registered name returns the one family registered under it. A registered family is never replaced, removed or altered, and a failed registration registers nothing.",
  ["schedules", "histories"], "all interleavings of the registration, get-or-initialise and lookup operations on any names",
  "Only sequential double registration of one name is tested; check-then-insert races are not reachable from a single thread.",
  ["src/system/family.rs"],
  [("check and insert under one write guard", "src/system/family.rs Builder::register, register, get_or_init_family"), ("shared immutable families", "Arc<SystemFamily>")],
  ["family::register", "Builder::register", "get_or_init_family", "get_family", "family_exists"],
  [("REGISTRY", "family name to family map", "src/system/family.rs reference")])

p("C08", "No combination of operations can deadlock",
  "No set of threads using the crate's operations can block each other for ever: locks are always taken in one global order, no operation takes a lock it already holds, and code supplied by the user never runs while a lock is held. The one documented exception is the initialiser passed to get-or-initialise of a family, which runs under the family registry's lock and nothing else.",
  ["schedules", "programs"], "all interleavings of all public operations, and all user-supplied conversions, stores and interpretations",
  "A deadlock needs two threads at particular points, or a re-entrant user conversion; no test has either.",
  ["src/symbols.rs", "src/system.rs", "src/system/family.rs", "src/productions.rs"],
  [("guard scopes", "every RwLock read/write and RefCell borrow in the crate"), ("conversion before locking", "src/system.rs add_production, add_symbol")],
  ["any public operation returning"])

p("C09", "A rejected production or symbol leaves the grammar untouched",
  "When adding a production or symbol is refused because its text is malformed or its conversion fails, the rule list and symbol set of the system or store are exactly what they were before the call. All checks that can refuse the input happen before the first change is made, and no user code runs or panics in the middle of a change.",
  ["inputs", "histories", "fault_sequences"], "all rejected inputs in any state of the store, through every adding operation",
  "Tests check that errors are returned, not that the store is unchanged, and only for a couple of malformed inputs.",
  ["src/system.rs", "src/productions.rs", "src/symbols.rs", "src/parser.rs"],
  [("convert first, mutate after", "src/system.rs System::add_production, add_symbol; RefCell stores; parse_and_add_production")],
  ["System::add_production", "System::add_symbol", "parse_and_add_production", "System::production_len", "System::symbol_len"])

p("C10", "Matching, deriving, interpreting, rendering and looking up change nothing",
  "Deriving strings, matching, choosing bodies, interpreting, rendering, printing, and every lookup or length query leave every system, store, production, family and registered symbol name as it was: rules and symbols change only through the operations that add them. (Looking a symbol up by name may intern the name globally; it never adds it to the store.)",
  ["histories", "inputs", "schedules"], "all sequences of read operations, interleaved arbitrarily with each other",
  "A test can only see the effects it thinks of checking after the particular calls it makes.",
  ["src/system.rs", "src/productions.rs", "src/symbols.rs", "src/interpretation/abop.rs", "src/interpretation/svg.rs", "src/system/family.rs"],
  [("read guards only", "System::derive, derive_once, get_symbol, production_len, symbol_len"), ("no interior mutability in rules", "Production, ProductionHead, ProductionBody, SystemFamily fields")],
  ["System::production_len", "System::symbol_len", "repeat derivations"])

p("C11", "Randomness only where a rule has several bodies; everything else repeatable",
  "Deriving with rules that each have exactly one body gives the same result every time, whatever chance is written on that body, and interpreting and rendering a given string is always repeatable. Random numbers are drawn only to choose between two or more bodies of one rule; the clock, the environment, addresses and hash-map iteration order influence no derivation, drawing or rendering.",
  ["inputs", "histories", "configurations"], "all single-bodied rule sets, all strings, all processes and threads",
  "Repeatability over all rule sets and processes is not sampled by a handful of runs in one process.",
  ["src/productions.rs", "src/system.rs", "src/interpretation/abop.rs", "src/interpretation/svg.rs", "src/geometry.rs"],
  [("random draw guarded by the number of bodies", "src/productions.rs Production::body")],
  ["System::derive", "Interpretation::interpret", "SvgElement::to_svg"])

p("C12", "Accepted rules are never lost: same head merges bodies, else appended",
  "Every successfully added production stays in the grammar for good: if the system already has a rule with an equal head, all bodies of the new production are appended, in order, after the existing ones; otherwise it is appended after all existing rules. Nothing is ever removed, reordered, replaced or de-duplicated, and the returned production is the stored, merged rule.",
  ["histories", "inputs"], "all sequences of added productions",
  "Tests add at most a few productions; loss under particular head or body combinations is not sampled.",
  ["src/system.rs", "src/productions.rs"],
  [("merge or push", "src/system.rs System::add_production; src/productions.rs Production::merge, add_body; RefCell<Vec<Production>> store")],
  ["System::add_production", "Production::all_bodies", "System::production_len"])

p("C13", "Every symbol of an accepted production becomes known to the store",
  "After a production has been added through a system or through parse-and-add, every symbol occurring in it, in the target, in the left and right context and in every body, can be looked up in that store. Iterating over the symbols of a production, head, body or string yields each of those symbols and no others, in reading order.",
  ["inputs"], "all productions with any contexts and any number of bodies",
  "Tests cover productions without contexts or with one body; omission of one part goes unseen.",
  ["src/symbols/iterator.rs", "src/system.rs", "src/parser.rs"],
  [("symbol traversal", "src/symbols/iterator.rs SymbolIterable impls"), ("registration loop", "src/system.rs System::add_production; src/parser.rs parse_and_add_production")],
  ["SymbolStore::get_symbol", "SymbolIterable::all_symbols_iter"])

p("C14", "Equal values hash equally",
  "For symbols, production strings, heads, productions, tokens and every other hashable type, equal values have equal hashes, and equality is reflexive, symmetric and transitive, so that they behave in hash maps and sets. Two symbols are equal exactly when their codes are, and two productions exactly when their whole heads (left context, target and right context) are.",
  ["inputs"], "all pairs and triples of values",
  "Coherence of equality and hashing is a statement about all pairs of values.",
  ["src/symbols.rs", "src/productions.rs", "src/strings.rs", "src/parser/token.rs"],
  [("hand-written Eq and Hash", "impl PartialEq/Hash for Symbol, Production"), ("derived Eq and Hash", "ProductionHead, ProductionString, Token")],
  ["HashSet/HashMap of crate types"])

p("C15", "Memory and thread safety rest on the compiler alone",
  "The crate and its command line tool contain no unsafe code, and systems, families, symbols, productions, strings, paths, settings and the turtle interpretation can be sent to and shared between threads. No mutable global exists outside locks, once-cells and atomics.",
  ["programs", "schedules"], "all programs using the crate from any number of threads",
  "Tests exercise behaviour, not the absence of unsafe code or the auto-traits of public types.",
  ["src/lib.rs", "src/system.rs", "src/system/family.rs", "src/symbols.rs", "src/productions.rs", "src/strings.rs", "src/geometry.rs"],
  [("no unsafe blocks, fns, impls, externs", "whole crate"), ("auto traits", "public types")],
  ["compilation of multi-threaded user programs"])

p("C16", "A body's chance is a number in [0, 1], and exactly those are accepted",
  "Giving a body a chance succeeds for every number from 0 to 1 inclusive and is refused with an error (never a panic) for every other number, infinities and NaN included. A body reports its chance as set by the user, with exactly the given value, if one was given, and as derived otherwise.",
  ["inputs"], "all 32-bit floating point values, given through the API or in rule text",
  "Tests try two or three values; boundaries and NaN are not among them.",
  ["src/productions.rs", "src/parser.rs"],
  [("range check", "src/productions.rs ProductionBody::try_with_chance, Chance::new"), ("chance parsing", "src/parser.rs parse_production_body")],
  ["ProductionBody::try_with_chance", "ProductionBody::chance", "Chance accessors"])

p("C17", "Point and vector arithmetic is exact component-wise arithmetic",
  "Addition, subtraction, negation, division by a number and conversion of points and vectors act on x and y separately and never mix or drop components; the norm is the Euclidean length; rotation by an angle in degrees is the standard counter-clockwise rotation matrix. Translating a path translates each of its points and keeps their number and order.",
  ["inputs"], "all coordinates, vectors and angles",
  "Tests check one or two numeric samples of some operations; sign or component mistakes in the others are invisible.",
  ["src/geometry.rs"],
  [("operator impls", "src/geometry.rs impl Add/Sub/Neg/Div/From for Point, Vector; Vector::norm, rotate; Add<Vector> for Path")],
  ["Point and Vector operators"])

p("C18", "Bounds are the tightest box around all points, and absent for none",
  "The bounds of a path, or of a collection of paths, are exactly the smallest and largest x and y over all their points; the centre is the middle of the box, width and height its extents, and the centre of mass the average of the points. Where there is no point at all, there are no bounds. (For finite coordinates, up to floating-point rounding.)",
  ["inputs"], "all finite point sets in any order, including single points and monotone sequences",
  "Tests use one or two point lists; orderings such as strictly decreasing coordinates, and the empty path, are not covered.",
  ["src/geometry.rs"],
  [("running minima and maxima", "src/geometry.rs Bounds for Path, Bounds for Vec<Path>"), ("derived measures", "BoundingBox::width, height, center")],
  ["Bounds::bounds", "BoundingBox"])

p("C19", "Turtle commands do exactly what the ABOP vocabulary says",
  "Starting at the origin heading up, Forward moves one step along the heading and draws, Move moves one step without drawing and starts a new line, + and - turn by plus and minus the configured angle, [ remembers position and heading, and ] returns to the most recently remembered ones and starts a new line there. Every other symbol does nothing, and every line with at least one segment appears in the result, in drawing order.",
  ["inputs", "histories"], "all command strings, of any length and nesting, and all angles",
  "One fixed plant is interpreted in the tests; wrong handling of particular command sequences does not show in it.",
  ["src/interpretation/abop.rs"],
  [("command dispatch", "src/interpretation/abop.rs AbopTurtleInterpretation::interpret"), ("step and rotation", "Vector::rotate, Point + Vector")],
  ["AbopTurtleInterpretation::interpret"])

p("C20", "Rendered SVG is well-formed XML for every drawing and decoration",
  "The text produced for a drawing, and each element rendered on its own, is well-formed XML: tags balanced and properly nested, attribute values quoted, no attribute repeated in a tag, attributes separated. Text supplied by the caller (such as fill and stroke) is escaped so that it can never end its attribute or open a tag.",
  ["inputs", "configurations"], "all paths, decorations, nesting of elements and canvas sizes",
  "Tests compare a few rendered strings with benign colours; arbitrary attribute text and element combinations are not tried.",
  ["src/interpretation/svg.rs"],
  [("string building of tags and attributes", "src/interpretation/svg.rs to_svg impls, SvgDecorations::to_attr_string, to_transform impls")],
  ["SvgElement::to_svg", "Svg::save_file"])

p("C21", "The drawing is fitted and centred on the canvas, undistorted and upright",
  "The SVG of a drawing with non-zero extent maps the centre of its bounds to the centre of the canvas and scales both axes by the same factor, the largest that fits both the width and the height, with y flipped so that up is up. All paths of the drawing appear in the SVG, each point in order, and the SVG has the requested width and height.",
  ["inputs", "configurations"], "all drawings with bounds, all canvas sizes",
  "The transform of an arbitrary drawing on an arbitrary canvas is not checked by any test.",
  ["src/interpretation/svg.rs", "src/geometry.rs"],
  [("scale and translation", "src/interpretation/svg.rs SvgPathInterpretation::interpret"), ("path data", "SvgPath::to_svg")],
  ["SvgPathInterpretation::interpret", "Svg::to_svg"])

p("C22", "Failures are reported with their cause, never swallowed",
  "When a fallible step inside an operation fails (reading a file, parsing a number, registering a symbol, adding a production, choosing a body, saving), the operation itself fails: it returns an error and never a success based on partial work. An error that stems from an input/output or number-parsing failure keeps that failure as its source and its message.",
  ["fault_sequences", "inputs"], "every fallible step of every operation failing at any point",
  "Tests trigger two or three error kinds; most inner failures are never provoked.",
  ["src/error.rs", "src/system.rs", "src/parser.rs", "src/interpretation/abop/parser.rs", "src/interpretation/svg.rs", "src/system/family.rs", "src/symbols.rs"],
  [("? propagation at every fallible call", "all functions returning Result"), ("error conversions", "src/error.rs From impls, source")],
  ["returned Result values", "Error::source", "Display for Error"])

p("C23", "A derivation step rewrites every symbol in parallel, in order",
  "One derivation step replaces each symbol of the string by the body of the rule that applies to it, or keeps it if none applies, and the result is the concatenation of these in the original order. Whether and which rule applies is decided on the original string only: replacements made in the same step are never seen by contexts and are not themselves rewritten in that step.",
  ["inputs", "histories"], "all strings and rule lists",
  "A handful of fixed systems is derived in the tests, mostly without contexts.",
  ["src/system.rs"],
  [("one pass over the original string", "src/system.rs derive_once, System::derive_once")],
  ["system::derive_once", "System::derive_once", "System::derive"])

p("C24", "The first applicable rule in insertion order wins",
  "Among the rules that apply at a position, the one added first is used; a rule that does not apply is never used, and if any rule applies one is used.",
  ["inputs", "histories"], "all rule lists, strings and positions",
  "Tests rarely contain two rules applicable at one position.",
  ["src/system.rs"],
  [("linear search from the front", "src/system.rs find_matching")],
  ["system::find_matching", "System::derive"])

p("C25", "Contexts match exactly the adjacent symbols",
  "A rule applies at a position exactly when the symbol there is its target, its left context (if any) equals the symbols immediately to the left in the same order, and its right context (if any) equals the symbols immediately to the right. A context longer than what is available never matches, an empty context always does, and positions outside the string match nothing.",
  ["inputs"], "all heads, strings and positions, contexts of any length",
  "Tests try a few one- and two-symbol contexts; off-by-one or reversed comparison shows only with longer, asymmetric contexts at particular positions.",
  ["src/productions.rs"],
  [("left and right comparison", "src/productions.rs ProductionHead::pre_matches, post_matches, matches")],
  ["ProductionHead::matches", "Production::matches", "find_matching"])

p("C26", "Deriving n times is exactly n successive derivation steps",
  "A derivation with a maximum of n iterations performs exactly n derivation steps, each on the previous step's result, under one unchanging view of the rules; zero iterations return the string unchanged, and the number of iterations is the requested one (or the documented default when none is given). An error in any step ends the derivation with that error.",
  ["inputs", "histories", "schedules"], "all strings, rule sets and iteration counts, with rules being added concurrently",
  "Tests use small fixed counts on a few systems and no concurrency.",
  ["src/system.rs", "src/interpretation/abop.rs", "src/interpretation.rs"],
  [("iteration loop under one read guard", "src/system.rs derive, System::derive"), ("settings", "RunSettings, AbopTurtleInterpretation::run_settings")],
  ["System::derive", "system::derive", "RunSettings"])

p("C27", "Plant files: every line takes effect exactly as written, or is an error",
  "In a plant description, n (or N) sets the number of iterations, delta (d, D, delta or \u2202) the angle, the initial line the axiom, and every other non-blank line adds a production, in file order; text after # and blank lines are ignored, and settings may come in any order, the last one winning. Anything else - an unknown setting, a malformed number or production, no production, no axiom - makes the whole file be rejected.",
  ["inputs"], "all plant descriptions, any order and number of lines, settings and comments",
  "Tests parse two or three fixed descriptions.",
  ["src/interpretation/abop/parser.rs"],
  [("line dispatch", "src/interpretation/abop/parser.rs parse, is_equality_line, is_initial, remove_comment, parse_equality, parse_initial")],
  ["abop::parser::parse", "abop::parser::parse_file"])

p("C28", "The ABOP family defines every command the turtle understands",
  "Every symbol the turtle interpretation looks for is defined by the ABOP family and thus known to every system of that family, so that a system obtained for the interpretation can always be interpreted. A system of a family knows every terminal and every production symbol of that family, and a defined family has exactly the symbols, descriptions and non-blank name it was defined with.",
  ["programs", "inputs"], "all families, and the ABOP vocabulary as a whole",
  "A symbol added to one table and not the other only fails when a string uses it.",
  ["src/interpretation/abop.rs", "src/system.rs", "src/system/family.rs"],
  [("vocabulary table", "src/interpretation/abop.rs abop_family"), ("command lookups", "AbopTurtleInterpretation::interpret"), ("family to system", "src/system.rs System::of_family; src/system/family.rs Builder, SystemFamily::symbols")],
  ["AbopTurtleInterpretation::system", "System::of_family", "SystemFamily::symbols"])

p("C29", "Rule text maps to head, contexts, chance and body as written",
  "In rule text 'L < T > R -> c B', the symbols before < become the left context, those after > the right context, the single one between the target, and the symbols after -> the body, all in order; a number in first place of the body is its chance, and a missing part is absent. A rule without an arrow, or without exactly one target, is an error.",
  ["inputs"], "all rule texts",
  "Tests check a few texts with short contexts; swaps or losses with other part combinations are not seen.",
  ["src/parser.rs"],
  [("splitting at ->, < and >", "src/parser.rs parse_production, parse_production_head, parse_head_context, parse_production_body")],
  ["parser::parse_production", "parser::parse_production_head", "parser::parse_production_body"])

p("C30", "Tokenising loses nothing but whitespace",
  "Splitting text into tokens yields, in order, pieces of the text itself that together contain every non-whitespace character exactly once, whatever the spacing; whitespace never becomes part of a token, and an empty token appears only as the end marker. Parsing a production string therefore yields one symbol for every token before the first terminator.",
  ["inputs"], "all texts, including leading, trailing, repeated and non-ASCII whitespace around operators",
  "Tests use single ASCII spaces between tokens almost throughout.",
  ["src/parser/iterator.rs", "src/parser/statement.rs", "src/parser/token.rs"],
  [("cursor and slice arithmetic", "src/parser/iterator.rs TokenIterator::next, next_break"), ("token to symbol conversion", "src/parser/statement.rs compile_from")],
  ["TokenIterator", "parser::parse_prod_string"])

p("C31", "Printing a string lists its symbols by name, in order",
  "Printing a production string writes the names of its symbols in order, separated by single spaces, with nothing before, after or left out; printing a symbol writes its registered name, or its code if it has none. A production string holds exactly the symbols it was built from, in order.",
  ["inputs"], "all production strings and symbols",
  "One or two short strings are printed in the tests.",
  ["src/strings.rs", "src/symbols.rs"],
  [("Display impls", "src/strings.rs Display for ProductionString; src/symbols.rs Display for Symbol"), ("constructors and accessors", "src/strings.rs")],
  ["Display", "ProductionString accessors"])

p("C32", "Bodies of a rule are chosen with the frequencies their chances state",
  "Over repeated derivations, each body of a stochastic rule is chosen with its stated chance, the rest being shared equally by the bodies without one.",
  ["histories"], "all rules with several bodies, over unboundedly many choices",
  "A distribution is a statement about unboundedly many draws.",
  ["src/productions.rs"],
  [("cumulative comparison with one uniform draw", "src/productions.rs Production::body")],
  ["Production::body", "System::derive"])

p("C33", "Every operation terminates: loops and iterators always make progress",
  "Every operation on finite inputs terminates: each loop either walks a finite sequence once or strictly advances towards a bound on every pass, tokenising consumes text (or ends) with every token, and no operation calls itself without descending into a smaller value.",
  ["inputs"], "all texts, strings, rule lists, drawings and iteration counts",
  "A non-terminating input is one the tests, by definition, do not contain.",
  ["src/parser/iterator.rs", "src/system.rs", "src/parser/parsestack.rs", "src/interpretation/abop.rs", "src/interpretation/abop/parser.rs", "src/interpretation/svg.rs", "src/geometry.rs"],
  [("loops over finite iterators", "every for and while loop of the crate"), ("cursor progress", "src/parser/iterator.rs TokenIterator::next")],
  ["any operation returning"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
