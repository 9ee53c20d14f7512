#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the statements stay reviewable)."""
import json, pathlib

P = []

def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": state or [],
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": observe, "hook_needed": None},
    })

prop("C01", "Parsing a domain yields exactly what the text declares",
     "For every well-formed domain text in the supported PDDL subset, the parsed domain has exactly the declared name, requirements, type hierarchy, constants, predicates, functions, derived predicates and actions. Every formula and effect keeps its connectives, predicate and function names, argument order, quantified variables, comparison and assignment operators and numbers. Nothing is added, lost, merged, reordered or attributed to another declaration (repeated or directly nested and/or operands may be simplified), and absent or empty preconditions and effects are accepted and mean 'no condition' / 'no change'.",
     ["inputs"], "all well-formed domain texts: any combination of sections, typed-list groupings, nesting of conditions/effects, names (including names that begin with keywords) and numbers",
     "The tests parse 33 fixture domains and a few hand-written ones, and mostly compare parse(print(parse(x))) with parse(x), so a construct the parser misreads consistently is invisible; combinations (missing sections, nested effects, keyword-like names, mixed typed lists) are barely sampled.",
     ["pddl/parser/domain.py", "pddl/parser/grammar.lark", "pddl/parser/typed_list_parser.py", "pddl/core.py", "pddl/__init__.py"],
     [("grammar", "pddl/parser/grammar.lark"), ("DomainTransformer", "pddl/parser/domain.py"), ("TypedListParser", "pddl/parser/typed_list_parser.py")],
     ["DomainParser()(text)", "pddl.parse_domain(path)"])

prop("C02", "Parsing a problem yields exactly what the text declares",
     "For every well-formed problem text in the supported PDDL subset, the parsed problem has exactly the declared name, domain name, requirements, objects with their types, initial literals (over the objects as they are declared) and numeric assignments, goal condition and metric. Goals may use every condition form a domain precondition may use (disjunction, implication, quantifiers, equality, comparisons), and repeated initial facts collapse to one. Nothing else is added, lost or altered.",
     ["inputs"], "all well-formed problem texts: any objects grouping, init list, goal formula and metric expression",
     "The fixtures' goals are almost all conjunctions of atoms and their metrics a single function; quantified, disjunctive or equality goals and arithmetic metrics are never parsed by the suite.",
     ["pddl/parser/problem.py", "pddl/parser/domain.py", "pddl/parser/grammar.lark", "pddl/core.py"],
     [("ProblemTransformer", "pddl/parser/problem.py"), ("goal/metric delegation", "pddl/parser/problem.py gd/f_exp/metric_f_exp")],
     ["ProblemParser()(text)", "pddl.parse_problem(path)"])

prop("C03", "Printing a domain and parsing it back loses nothing",
     "For every domain the library accepts, whether parsed or built through the API from constructs the PDDL syntax can express, its printed text is accepted by the parser and yields a domain with the same content: name, requirements, type hierarchy, constants with types, predicates, functions, derived predicates and actions with all types (including alternatives written with either). Printing that domain again gives the same text.",
     ["inputs", "programs"], "all accepted domains, parsed or constructed (types that are only used as a supertype count as declared)",
     "The suite round-trips the fixtures only, with an equality that ignores the types of constants; multi-typed parameters, quantifiers over several types, empty conditions, repeated operands, tiny or huge numbers and API-built domains never go through it.",
     ["pddl/core.py", "pddl/formatter.py", "pddl/action.py", "pddl/logic/base.py", "pddl/logic/effects.py", "pddl/logic/functions.py", "pddl/helpers/base.py"],
     [("Domain.__str__", "pddl/core.py"), ("formatter", "pddl/formatter.py"), ("_typed_parameters", "pddl/helpers/base.py"), ("__str__ of formulas/effects/functions", "pddl/logic/")],
     ["str(domain)", "pddl.formatter.domain_to_string", "DomainParser()(str(domain))"])

prop("C04", "Printing a problem and parsing it back loses nothing",
     "For every problem the library accepts, whether parsed or built through the API from constructs the PDDL syntax can express, its printed text is accepted by the parser and yields a problem with the same name, domain name, requirements, typed objects, initial facts, goal and metric. Printing that problem again gives the same text.",
     ["inputs", "programs"], "all accepted problems, parsed or constructed",
     "Only fixture problems are round-tripped, with an equality that ignores object types; API-built problems with rich goals and metrics are compared with fixed strings at most.",
     ["pddl/core.py", "pddl/formatter.py", "pddl/logic/base.py", "pddl/logic/functions.py", "pddl/parser/problem.py"],
     [("Problem.__str__", "pddl/core.py"), ("print_constants", "pddl/formatter.py"), ("Metric/NumericValue __str__", "pddl/logic/functions.py")],
     ["str(problem)", "pddl.formatter.problem_to_string", "ProblemParser()(str(problem))"])

prop("C05", "Plans are read and written faithfully, step by step",
     "Parsing any well-formed plan text gives exactly its steps, in order and with repetitions, each with its action name and its arguments in order. Printing any plan and parsing the text back gives an equal plan, and two plans are equal exactly when they have the same steps in the same order.",
     ["inputs"], "all sequences of ground steps, including the empty plan, steps without arguments, repeated steps and comment lines",
     "Nine fixture plans are parsed, and only that they parse and instantiate is asserted; nothing compares steps, order or arguments with the text.",
     ["pddl/parser/plan.py", "pddl/core.py", "pddl/parser/grammar.lark"],
     [("PlanTransformer", "pddl/parser/plan.py"), ("Plan.__str__/__eq__", "pddl/core.py")],
     ["PlanParser()(text)", "str(plan)", "pddl.parse_plan(path)"])

prop("C06", "Layout and comments never change what a text means",
     "Changing the white space (spaces, tabs, line breaks of any style, blank lines) between the tokens of a domain, problem or plan text, or inserting or removing ';' comments with any content up to the end of a line, never changes the result: the same object is produced, or the text is still rejected.",
     ["inputs"], "all texts and all re-layouts of their token sequence",
     "Fixtures have one conventional layout each; comment contents that look like PDDL, comments at end of file, tabs and CR/LF mixes are not tried.",
     ["pddl/parser/grammar.lark", "pddl/parser/base.py", "pddl/__init__.py"],
     [("%ignore white space and COMMENT", "pddl/parser/grammar.lark")],
     ["DomainParser()(text)", "ProblemParser()(text)", "PlanParser()(text)"])

prop("C07", "Printed text is canonical: order and hash seed do not matter",
     "The text printed for a domain or problem depends only on its content: supplying requirements, constants, types, predicates, functions, actions, objects, initial facts, quantified variables or alternative types in any other order, in another process or under another hash seed, prints the identical text.",
     ["inputs", "configurations"], "all contents, all orders in which unordered collections are supplied, all hash seeds",
     "The suite runs under one hash seed and builds each object in one order; set iteration order bugs are invisible to it.",
     ["pddl/formatter.py", "pddl/core.py", "pddl/logic/base.py", "pddl/logic/effects.py", "pddl/helpers/base.py"],
     [("sorting in sort_and_print_collection/print_typed_lists/print_predicates_with_types", "pddl/formatter.py"), ("sorted variables/type tags", "pddl/helpers/base.py, pddl/logic/base.py")],
     ["str(domain)", "str(problem)", "two interpreters with different PYTHONHASHSEED"])

prop("C08", "Instantiation is exactly substitution",
     "Instantiating an action, or a formula with a variable-to-term mapping, replaces exactly the free occurrences of the mapped variables, everywhere they occur (preconditions, effects, conditional and universal effects, quantified conditions, comparisons, numeric effects), and changes nothing else: unmapped variables, constants, names, numbers, operators, structure up to and/or simplification, and variables bound by an inner quantifier stay as they were. The schema itself is not modified, instantiating in two stages equals instantiating at once, and a wrong number of arguments is rejected with an error.",
     ["inputs"], "all action schemas and formulas of the supported language and all mappings of their free variables to constants or fresh variables",
     "The tests instantiate a few atoms and one derived predicate, and check that printed ground actions of a few fixture plans contain no '?'; nested quantifiers, shadowing, conditional effects and numeric parts are not compared with substitution.",
     ["pddl/action.py", "pddl/logic/base.py", "pddl/logic/predicates.py", "pddl/logic/functions.py", "pddl/logic/effects.py", "pddl/core.py"],
     [("Action.instantiate", "pddl/action.py"), ("instantiate methods", "pddl/logic/*.py")],
     ["Action.instantiate", "Formula.instantiate", "Plan.instantiate"])

prop("C09", "Building formulas preserves their logical meaning",
     "A formula built from and, or, not, imply and the operators &, |, ~, >> evaluates, under every truth assignment of its atoms, to the value given by the ordinary meaning of the expression that built it, whatever duplicates, nesting, empty or single operands it has. The order in which distinct operands first appear is kept, and the result of printing and parsing has the same truth value under every assignment.",
     ["inputs"], "all expression trees over atoms and connectives and all truth assignments",
     "There are no tests of and/or flattening, deduplication or collapsing at all beyond incidental use in fixtures.",
     ["pddl/logic/base.py", "pddl/parser/domain.py"],
     [("BinaryOpMetaclass and _simplify_monotone_op_operands", "pddl/logic/base.py"), ("Formula operators", "pddl/logic/base.py")],
     ["And/Or/Not/Imply constructors", "Formula operators", "str()+parser"])

prop("C10", "Numeric expressions keep their value",
     "An arithmetic expression, comparison, numeric effect or metric built through the API or parsed from text has, under every assignment of values to its functions, exactly the value of the expression that was written, including repeated operands, unary and binary minus, and nested non-associative operators; numerals keep their exact value and integer/decimal kind. Printing and parsing again preserves the value.",
     ["inputs"], "all arithmetic expression trees with numerals of any magnitude the syntax can write, and all function values",
     "Tests cover single binary comparisons between distinct functions; repeated operands, nested minus/divide and very small or large decimals are never evaluated.",
     ["pddl/logic/functions.py", "pddl/logic/base.py", "pddl/parser/domain.py", "pddl/parser/problem.py", "pddl/parser/grammar.lark"],
     [("BinaryFunction hierarchy and BinaryOpMetaclass", "pddl/logic/functions.py, pddl/logic/base.py"), ("f_exp/metric_f_exp/num_literal", "pddl/parser/domain.py, pddl/parser/problem.py"), ("NumericValue.__str__", "pddl/logic/functions.py")],
     ["Plus/Minus/Times/Divide and comparison/assignment constructors", "parser", "str()"])

prop("C11", "Equality is structural and consistent with hashing",
     "Over all terms, formulas, effects, functions, metrics, actions, domains, problems and plans, == is reflexive, symmetric and transitive, holds between independently built objects of the same content, and does not hold between objects whose content differs (a constant is identified by its name alone). Equal objects that are hashable have equal hashes, so sets and dictionaries treat them as one; comparing with unrelated objects is False and never an error.",
     ["inputs"], "all pairs and triples of objects, equal by construction or differing in one place",
     "Tests compare a handful of equal pairs and almost no unequal ones; an == that ignores a field passes them.",
     ["pddl/logic/terms.py", "pddl/logic/base.py", "pddl/logic/predicates.py", "pddl/logic/functions.py", "pddl/logic/effects.py", "pddl/action.py", "pddl/core.py", "pddl/helpers/cache_hash.py"],
     [("__eq__/__hash__ methods", "pddl/logic/*.py, pddl/action.py, pddl/core.py"), ("cache_hash", "pddl/helpers/cache_hash.py")],
     ["==, !=, hash(), set/dict membership"])

prop("C12", "Copies and pickles are faithful, in any process",
     "copy, deepcopy and pickling of any term, formula, effect, action, domain, problem or plan give an object equal to and printing like the original, which stays intact. A pickle loaded by another interpreter with a different hash seed gives objects that equal, hash like, and are found in sets and dictionaries alongside freshly built ones, whether or not the hash had been computed before pickling.",
     ["inputs", "configurations", "histories"], "all objects, all hash seeds of writer and reader, hash computed before or not",
     "Tests pickle six fixture objects within one process and one hash seed, where a stale cached hash cannot be noticed.",
     ["pddl/helpers/cache_hash.py", "pddl/logic/base.py", "pddl/core.py", "pddl/custom_types.py"],
     [("cache_hash/_getstate/_setstate", "pddl/helpers/cache_hash.py")],
     ["pickle.dumps/loads across interpreters", "copy.copy", "copy.deepcopy"],
     [{"name": "cached hash", "meaning": "memoised hash value stored on the instance", "where": "pddl/helpers/cache_hash.py"}])

prop("C13", "A domain is accepted only if its typing is coherent",
     "A domain (parsed or built) is rejected with a PDDL error when its type hierarchy has a cycle or gives object a supertype, when a type used anywhere in its constants, predicates, functions, derived predicates or actions (parameters, nested conditions and effects, quantified variables) is neither declared, used as a supertype, nor object, or when types are used without a requirement that includes typing. A domain with none of these faults is not rejected for its typing.",
     ["inputs"], "all type graphs and all placements of typed terms in a domain",
     "Each fault is tested at one site with one shape; faults deep inside effects or quantifiers, long cycles among valid chains, and requirement aliases (adl) are not.",
     ["pddl/_validation.py", "pddl/core.py", "pddl/helpers/base.py", "pddl/requirements.py"],
     [("Types._check_types_dictionary", "pddl/_validation.py"), ("TypeChecker", "pddl/_validation.py"), ("find_cycle", "pddl/helpers/base.py")],
     ["Domain(...)", "DomainParser()(text)"])

prop("C14", "A problem is accepted against a domain exactly when it fits",
     "Checking a problem against a domain succeeds exactly when the domain names agree up to letter case, every requirement the problem declares is declared by the domain, and every type used in its objects, initial facts and goal is known to the domain (and typing is enabled if any is used); otherwise a PDDL validation error is raised. Giving the domain to the constructor, assigning it afterwards and checking explicitly reach the same verdict on typing and requirements (the constructor also wants a domain name or requirements given along with the domain to be the domain's), a rejected assignment leaves the problem as it was, and initial facts that are not literals are rejected.",
     ["inputs", "histories"], "all domain/problem pairs, including each single fault and each way of attaching the domain",
     "The suite checks matching fixture pairs and one name mismatch; wrong types nested in goals or init, or requirement mismatches, are untested.",
     ["pddl/core.py", "pddl/_validation.py"],
     [("Problem.check / domain setter / constructor", "pddl/core.py"), ("TypeChecker", "pddl/_validation.py"), ("is_literal", "pddl/logic/base.py")],
     ["Problem.check(domain)", "Problem(domain=...)", "problem.domain = ..."])

prop("C15", "A plan is accepted exactly when every step fits the schemas",
     "Checking a plan against a domain and problem succeeds exactly when every step names an action of the domain, has as many arguments as that action has parameters, and uses only objects of the problem or constants of the domain; one bad step anywhere makes it fail with a PDDL validation error. Instantiating a plan gives one ground action per step, in order, equal to instantiating that step's schema with its arguments, and fails with an error for unknown actions or wrong argument counts.",
     ["inputs"], "all domains, problems and step sequences with zero or more bad steps at any position",
     "Three tests with one fault each at fixed positions, plus valid fixtures.",
     ["pddl/core.py", "pddl/action.py"],
     [("Plan.check / Plan.instantiate", "pddl/core.py")],
     ["Plan.check(domain, problem)", "Plan.instantiate(domain)"])

prop("C16", "Features are accepted only under the requirements that grant them",
     "When a domain text uses or/imply, an exists or forall condition, term equality, a oneof effect, a type hierarchy or typed terms, numeric functions or total-cost, parsing succeeds if and only if its requirements include one that grants the feature: respectively disjunctive-preconditions; existential- or universal-preconditions (or quantified-preconditions); equality; non-deterministic; typing; numeric-fluents or fluents; action-costs. adl grants all but non-deterministic, numeric functions and total-cost, and each feature is judged independently, wherever in the text it is used.",
     ["inputs", "configurations"], "all subsets of the supported requirements crossed with all subsets of these features and their positions",
     "One negative test (total-cost) and fixtures that declare what they use; thousands of requirement/feature combinations are untried.",
     ["pddl/parser/domain.py", "pddl/requirements.py", "pddl/_validation.py"],
     [("gd_or/gd_imply/gd_quantifiers/atomic_formula_term/c_effect/types", "pddl/parser/domain.py"), ("_extend_domain_requirements", "pddl/requirements.py"), ("Functions._check_total_cost", "pddl/_validation.py")],
     ["DomainParser()(text)"])

prop("C17", "A parser's verdict never depends on what it parsed before",
     "For any sequence of texts given to one parser object, successful or failing, the outcome for each text (the object, or the kind of rejection) is the one a new parser gives for that text alone, and results returned earlier do not change. Several parser objects used in any interleaving, also by different threads at the same time, do not influence each other, and parsing, successful or not, leaves interpreter-wide settings (such as the traceback limit) as they were.",
     ["histories"], "all sequences of parse calls over domain, problem and plan parsers with valid and invalid texts",
     "The shared parser fixtures only ever see valid texts, each declaring its own sections, and never check what happens after a failure.",
     ["pddl/parser/base.py", "pddl/parser/domain.py", "pddl/parser/problem.py"],
     [("BaseParser.__call__/_call_parser", "pddl/parser/base.py"), ("per-parse state of the transformers", "pddl/parser/domain.py, pddl/parser/problem.py")],
     ["sequences of parser calls", "sys.tracebacklimit"],
     [{"name": "_constants_by_name, _predicates_by_name, _extended_requirements, _types, _current_parameters_by_name", "meaning": "what has been seen so far in the text being parsed", "where": "pddl/parser/domain.py"},
      {"name": "_objects_by_name", "meaning": "objects of the problem being parsed", "where": "pddl/parser/problem.py"}])

prop("C18", "Bad input is rejected cleanly: no crash, hang or half-result",
     "Given any text whatsoever, a domain, problem or plan parser terminates and either returns a complete object that can be printed and compared, or raises an error of the parsing/validation families (syntax error, PDDL error, or value error), never an internal failure such as a type, attribute, key or index error. A token-level corruption of a valid text that makes it ungrammatical (unbalanced parenthesis, missing or repeated section, missing or extra operand, malformed number, a keyword run into the next word, truncated text, trailing text) is never accepted.",
     ["inputs"], "all texts: random, truncated, spliced and mutated valid texts",
     "Fixtures are all valid; only a few malformed texts with a known error are tried.",
     ["pddl/parser/grammar.lark", "pddl/parser/domain.py", "pddl/parser/problem.py", "pddl/parser/plan.py", "pddl/parser/base.py"],
     [("LALR grammar", "pddl/parser/grammar.lark"), ("error raising in transformers", "pddl/parser/*.py")],
     ["DomainParser()(text)", "ProblemParser()(text)", "PlanParser()(text)"])

prop("C19", "The command line tool agrees with the library",
     "For any files, the command line tool exits with status 0 exactly when the library parses each given file and accepts the problem against the domain and the plan against both. On success it prints the formatted domain, problem and plan, in that order and nothing else, or nothing with -q; on failure the exit status is non-zero and no later file is printed as valid. The files themselves are never modified.",
     ["inputs", "configurations"], "all combinations of valid and invalid files, argument counts and the quiet flag",
     "CLI tests run valid fixtures and only look at the exit code.",
     ["pddl/__main__.py", "pddl/__init__.py", "pddl/formatter.py", "pddl/core.py"],
     [("cli", "pddl/__main__.py")],
     ["python -m pddl / click entry point: exit status and standard output"])

prop("C20", "Only well-formed, non-keyword names get in, wherever they occur",
     "A name (of a domain, problem, action, predicate, function, constant, variable or type) is accepted exactly when it starts with a letter, continues with letters, digits, '-' or '_', and is not a PDDL keyword; the only exceptions are object as a type and total-cost as a function. Every accepted name is stored unchanged, names that merely contain or begin with a keyword are accepted everywhere by constructors and parsers alike, and anything else is rejected with an error.",
     ["inputs"], "all strings in all naming positions",
     "Tests try a dozen keywords in two positions and three malformed strings.",
     ["pddl/custom_types.py", "pddl/helpers/base.py", "pddl/parser/symbols.py", "pddl/parser/grammar.lark"],
     [("name/parse_name/parse_type/parse_function", "pddl/custom_types.py"), ("RegexConstrainedString", "pddl/helpers/base.py"), ("NAME terminal", "pddl/parser/grammar.lark")],
     ["constructors of Domain, Problem, Action, Predicate, NumericFunction, Constant, Variable", "parsers"])

prop("C21", "Derived predicates are typed against their declaration",
     "A derived predicate is accepted exactly when its predicate is declared with the same number of arguments and every type given to an argument equals, or is a direct or indirect subtype of, one of the declared types for that position (an undeclared or object type accepts anything); of a name with several declarations, one that fits is enough. An argument without a type takes the declared one, each argument's type reaches all its free occurrences in the condition, and the decision always terminates.",
     ["inputs"], "all type hierarchies, predicate declarations and derived rules over them",
     "Tests use direct subtypes that match; no test has a grandparent type or a mismatching one.",
     ["pddl/parser/domain.py", "pddl/parser/_update_type_tags.py"],
     [("derived_predicates/_check_subtypes", "pddl/parser/domain.py"), ("update_type_tags", "pddl/parser/_update_type_tags.py")],
     ["DomainParser()(text) and the types on terms of domain.derived_predicates"])

prop("C22", "Every variable occurrence gets the type of its own binder",
     "In a parsed domain or problem, each variable occurrence in a condition or effect carries exactly the types of its innermost binder in the same declaration: an inner quantifier (exists, forall condition or universal effect) if it re-binds the name, else the action parameter or derived-predicate argument. Declarations never leak: the types are the same whatever other actions or derived predicates precede or follow, and in whatever order.",
     ["inputs"], "all nestings of binders, with and without shadowing, and all orders of declarations",
     "Two tests look at top-level parameters of one action, and one at a derived predicate; shadowing in actions and leakage between declarations are not tested.",
     ["pddl/parser/domain.py", "pddl/parser/problem.py", "pddl/parser/_update_type_tags.py"],
     [("_constant_or_variable and _current_parameters_by_name", "pddl/parser/domain.py"), ("update_type_tags", "pddl/parser/_update_type_tags.py")],
     ["type tags of terms in parsed objects"],
     [{"name": "_current_parameters_by_name", "meaning": "parameters of the action being parsed", "where": "pddl/parser/domain.py"}])

prop("C23", "Looking at objects never changes them",
     "No sequence of printing, comparing, hashing, sorting, checking, instantiating, copying or pickling operations, successful or failing, changes any object involved: content, printed text, hash and equality with an independently built twin stay what they were at construction. Collections later modified by the caller after being passed in as sets or lists of declarations do not alter the object.",
     ["histories"], "all sequences of read-only operations over a pool of domains, problems, plans, actions and formulas",
     "Tests call one operation per object; no test looks at an object again after others have been applied.",
     ["pddl/core.py", "pddl/formatter.py", "pddl/action.py", "pddl/logic/base.py", "pddl/helpers/base.py", "pddl/helpers/cache_hash.py"],
     [("ensure_set/ensure_sequence immutable copies", "pddl/helpers/base.py"), ("read-only properties", "pddl/core.py, pddl/logic/")],
     ["object state before/after operation histories"])

prop("C24", "Typed lists assign each name its own group's type, once",
     "In every typed list (types, constants, objects, functions, parameters and predicate arguments) each item gets exactly the type or alternative types that close its group, untyped trailing items get none, and order is kept where it matters. A name declared twice in types, constants or objects, or a function declared twice with the same arguments, is rejected with a parsing error, as is a variable repeated with different types in one list, while a variable repeated with the same types is accepted.",
     ["inputs"], "all groupings, lengths, duplicates and placements of typed lists",
     "Tests try five short lists; longer mixed groupings and duplicates across groups in every section are not covered.",
     ["pddl/parser/typed_list_parser.py", "pddl/parser/domain.py", "pddl/parser/problem.py"],
     [("TypedListParser.parse_typed_list/add_item", "pddl/parser/typed_list_parser.py")],
     ["DomainParser()(text)", "ProblemParser()(text)"])

prop("C25", "Ordering of terms, atoms and requirements is a strict total order",
     "Among terms, among predicates, among numeric functions, among numeric values and among requirements, exactly one of a<b, a==b, b<a holds (each object name denoting one object), < is transitive, <=, >, >= agree with it, and sorting any collection gives the same sequence whatever its initial order.",
     ["inputs"], "all collections of such objects and all their permutations",
     "Three tests compare three terms each; predicates, functions and requirements are never compared.",
     ["pddl/logic/terms.py", "pddl/logic/predicates.py", "pddl/logic/functions.py", "pddl/requirements.py"],
     [("__lt__ with functools.total_ordering", "pddl/logic/terms.py, predicates.py, functions.py, requirements.py")],
     ["<, <=, >, >=, sorted()"])

prop("C26", "Constructors and helpers build exactly what they are given",
     "A domain, problem, plan, action, formula or term built through the constructors reports, through its public attributes, exactly the content it was given, whatever kind of collection (list, tuple, set, frozenset, dictionary views) and whatever string type is used, with omitted, None or empty optional arguments meaning empty; a problem given a domain takes over its name and requirements. Applying a predicate or function to terms equals constructing it from them, leaves the original unchanged and refuses another number of terms; variables() and constants() give one term per word, in order, each with the given types; a variable with two different sets of types in one atom is refused.",
     ["inputs"], "all contents, collection kinds, optional-argument combinations, term lists and word lists",
     "Tests build a handful of objects from lists and sets and compare a few attributes; the helpers are called twice.",
     ["pddl/core.py", "pddl/action.py", "pddl/logic/helpers.py", "pddl/logic/terms.py", "pddl/logic/predicates.py", "pddl/logic/functions.py", "pddl/logic/base.py", "pddl/logic/effects.py", "pddl/helpers/base.py"],
     [("constructors", "pddl/core.py, pddl/action.py, pddl/logic/*.py"), ("ensure_set, ensure_sequence", "pddl/helpers/base.py"), ("variables, constants", "pddl/logic/helpers.py")],
     ["public attributes of the built objects", "Predicate.__call__, NumericFunction.__call__, variables(), constants()"])

prop("C27", "Syntax errors point at the first place that does not fit",
     "When a text is refused with a syntax error that has a position, its line and column (and the offset, where it tells one; counted in the text as it was given, comments and blank lines included) are those of the first place where the text cannot be continued: never before the first wrong token, never outside of the text, the same token whatever the layout and the comments, and everything before that place is a prefix the parser faults only at its end.",
     ["inputs"], "all single-edit corruptions of valid texts in all layouts",
     "No test looks at the position of an error.",
     ["pddl/parser/base.py", "pddl/parser/grammar.lark", "pddl/__init__.py"],
     [("BaseParser._call_parser", "pddl/parser/base.py")],
     ["line and column of the exception raised by a parser"])

prop("C28", "A rejection names what is wrong",
     "When a document with a single fault is rejected, the error message names the culprit: for a missing requirement, a requirement that grants the feature used without one (also held by PDDLMissingRequirementError.requirement), so that adding what is named removes the complaint; for an undeclared type, the type and a term that has it; for a cyclic type hierarchy, exactly the types of one cycle; for a plan step that does not fit, that step as it is printed, and no other; for an unknown action when instantiating, the action; for an undefined constant, a derived predicate that is not declared or does not match its declaration, a name declared twice or a variable with two types in one atom, that item (and the type that does not fit); for an ill-formed name or keyword, that name.",
     ["inputs"], "all valid documents with one injected fault of these kinds, at every place",
     "Tests match the messages of a few fixed documents; which item is blamed is not checked when there are other candidates.",
     ["pddl/exceptions.py", "pddl/_validation.py", "pddl/helpers/base.py", "pddl/parser/domain.py", "pddl/parser/typed_list_parser.py", "pddl/core.py", "pddl/custom_types.py"],
     [("PDDLMissingRequirementError", "pddl/exceptions.py"), ("TypeChecker, Types._check_types_dictionary", "pddl/_validation.py"), ("find_cycle", "pddl/helpers/base.py"), ("Plan.check", "pddl/core.py"), ("DomainTransformer.derived_predicates, constant", "pddl/parser/domain.py")],
     ["the exceptions raised by parsers, constructors, Problem.check, Plan.check and Plan.instantiate"])

prop("C29", "Names carry no meaning: consistent renaming changes nothing but names",
     "Consistently renaming the user-chosen names in a domain, problem and plan (different names to different names, domain names that differ also up to letter case; the language's own words, object, number and total-cost stay) never changes whether a text is accepted, whether the problem fits the domain or the plan fits the two, or whether the plan can be instantiated; and the resulting objects, ground actions and printed texts are those of the original with the names replaced, up to the order of declarations.",
     ["inputs"], "all domains, problems and plans, valid or not, and all injective renamings of their names",
     "Tests use a few ordinary names; a rule that looks into a name (its prefix, case, length, order or likeness to a keyword) is only seen by comparing two spellings of the same document.",
     ["pddl/parser/domain.py", "pddl/parser/problem.py", "pddl/parser/plan.py", "pddl/parser/typed_list_parser.py", "pddl/parser/grammar.lark", "pddl/core.py", "pddl/action.py", "pddl/_validation.py", "pddl/formatter.py", "pddl/logic/terms.py", "pddl/logic/predicates.py", "pddl/logic/functions.py"],
     [("DomainTransformer, ProblemTransformer, PlanTransformer", "pddl/parser/*.py"), ("Problem.check, Plan.check, Plan.instantiate", "pddl/core.py"), ("Types, TypeChecker", "pddl/_validation.py"), ("domain_to_string, problem_to_string", "pddl/formatter.py")],
     ["results of the parsers, of check and instantiate, and printed texts"])

prop("C30", "Unrelated declarations change nothing else",
     "Adding to a domain, problem or plan declarations that nothing else refers to (types below existing ones, constants, predicates, functions, actions, derived predicates, objects, facts, steps; each with a name of its own and allowed by the requirements), or taking away actions and derived predicates that nothing uses, never changes whether the domain is accepted, whether the problem fits it, whether the plan fits both or can be instantiated, nor any other declaration, fact, step or ground action; a further requirement never makes a valid document refused.",
     ["inputs"], "all domains, problems and plans, valid or with one fault, and all sets of valid unrelated additions at all places",
     "Tests parse each document once; what one declaration does to the reading of another shows only when the same document is read with and without it.",
     ["pddl/parser/domain.py", "pddl/parser/problem.py", "pddl/parser/typed_list_parser.py", "pddl/core.py", "pddl/_validation.py", "pddl/requirements.py", "pddl/action.py"],
     [("DomainTransformer", "pddl/parser/domain.py"), ("ProblemTransformer", "pddl/parser/problem.py"), ("Types, TypeChecker", "pddl/_validation.py"), ("Problem.check, Plan.check, Plan.instantiate", "pddl/core.py")],
     ["results of the parsers, constructors, check and instantiate"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
out.write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P), "properties")
