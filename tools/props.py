import json
def P(id,title,st,over,qt,why,files,mech,obs,state=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    return d
L=[]
L.append(P("C01","Annotation text is parsed exactly according to its grammar",
"For every annotation text, the parser returns exactly the comma-separated list of annotations the text spells, in order, each with its recognised name and its argument values (decimal integers that fit 32 bits, quoted strings taken verbatim between their unescaped quotes, the words true/false/default as special values, any other word as a string; trailing commas, omitted parentheses and horizontal blanks allowed). Every other text is rejected with an error that carries the first offending token and whose kind tells an unknown annotation name, an invalid token and a missing closing parenthesis apart. No text is accepted with an annotation or argument dropped, duplicated, reordered or altered, and the parser never reads outside the text and always terminates.",
["inputs"],"All byte strings of any length as annotation text.",
"Unit tests sample about thirty texts; the grammar is a statement over all byte strings (escapes, overlong integers, unterminated strings, nested commas).",
["src/annotations/parser.cpp","include/genpybind/annotations/parser.h","include/genpybind/annotations/annotations.def"],
[("single-token lookahead tokenizer","src/annotations/parser.cpp"),("recursive-descent parser over tokens","src/annotations/parser.cpp")],
["return value of the public parse function","compiler diagnostics for malformed annotations"]))
L.append(P("C02","Annotation argument values behave as independent values",
"Under every sequence of construction, copying, moving, (self-)assignment, re-typing, comparison and destruction, an annotation argument value always holds exactly one of nothing, a string, an unsigned integer, a boolean or `default`, reports that kind and returns the value last stored in it. A copy compares equal to its source and leaves the source unchanged, a move transfers the value, and a moved-from value can still be inspected, compared, copied, re-assigned and destroyed. Owned string storage is never shared between two values, read after release, released twice or leaked.",
["histories","inputs"],"All finite sequences of operations on any number of argument values with any contents.",
"Tests run a few hand-picked sequences; ownership of the tagged union must hold after every operation history, including moves between kinds and self-assignment.",
["src/annotations/literal_value.cpp","include/genpybind/annotations/literal_value.h"],
[("tag and union kept in step by the setters","src/annotations/literal_value.cpp"),("copy/move operations","src/annotations/literal_value.cpp")],
["public accessors of the value type","heap checker"],
[("kind","which alternative is active","include/genpybind/annotations/literal_value.h"),("string/integer/boolean","the stored alternative; the string is owned","include/genpybind/annotations/literal_value.h")]))
L.append(P("C03","Sanitised names are identifiers that only replace runs of foreign characters",
"For every byte string, turning it into an identifier yields the same text with each maximal run of characters that cannot appear at that point of an ASCII identifier (letters, digits, underscore; no digit before the first letter or underscore) replaced by one underscore. Hence the result of a non-empty input is a valid identifier, an input that already is one is unchanged, and applying the operation twice gives the same result as once.",
["inputs"],"All byte strings of any length, including bytes above 0x7f and NUL.",
"Tests check a dozen strings; the in-place rewriting has to be right for every interleaving of valid and invalid runs and every buffer length.",
["src/string_utils.cpp"],
[("in-place compaction with separate read and write cursors","src/string_utils.cpp")],
["sanitising function","names of exposed template instances, module name, generated function names"]))
L.append(P("C04","Annotations are accepted only where documented and have exactly that effect",
"An annotation on a declaration is accepted only if it is documented for that kind of declaration and its arguments have the documented number and types; then it changes exactly the setting it names to exactly the value given, and no other setting of the declaration. In every other case an error naming the annotation is reported for the declaration, for any argument list, and the annotation has no effect. Names given to `expose_as`, `module`, `getter_for` and `setter_for` must be valid identifiers, `getter_for` needs a non-void method callable without and `setter_for` one callable with exactly one argument, `implicit_conversion` needs a single-parameter converting constructor, and `encourage` together with `expose_here` is an error.",
["inputs","programs"],"Every annotation kind, every argument list (length and types), every kind of declaration.",
"Lit tests exercise single examples of some wrong arguments; the claim ranges over the product of annotation kinds, declaration kinds and argument lists.",
["src/annotated_decl.cpp","include/genpybind/annotated_decl.h"],
[("argument dispatcher matching arity and type","src/annotated_decl.cpp"),("per-declaration-kind annotation handlers","src/annotated_decl.cpp")],
["error diagnostics","generated bindings"]))
L.append(P("C05","Non-empty annotations imply visibility and are all applied, in order",
"Any declaration other than a namespace that carries at least one non-empty annotation is visible unless one of its annotations says otherwise; empty annotations and foreign attributes change nothing, and annotations never change the visibility of a namespace unless they state it explicitly. All annotations of a declaration are read exactly once, in source order, so that a later one overrides an earlier one. An annotation that no handler accepts is reported as invalid for that kind of declaration, exactly once.",
["inputs","programs"],"Every declaration with any number and order of annotation attributes.",
"Tests contain a few annotated declarations; the precedence rules have to hold for all combinations and orders.",
["src/annotated_decl.cpp","include/genpybind/lookup_context_collector.h"],
[("default visibility assigned before annotations are applied","src/annotated_decl.cpp"),("handlers tried until one accepts","src/annotated_decl.cpp")],
["--dump-graph output","generated bindings","diagnostics"]))
L.append(P("C06","Effective visibility follows annotation, access, then parent",
"The effective visibility of every namespace, class and enum is its explicitly annotated visibility if there is one, otherwise hidden if it is declared private or protected, otherwise that of the scope it is exposed in (its relocation target if it was moved with `expose_here`); the global scope is hidden. This holds at every nesting depth and for every shape of scope tree, and a value is derived for every scope that is reachable from the global scope and for no other.",
["programs"],"All scope trees with any annotations and access specifiers.",
"Tests use a handful of fixed trees up to depth three or four.",
["src/decl_context_graph_processing.cpp"],
[("pre-order propagation from parent to child","src/decl_context_graph_processing.cpp")],
["--dump-graph=visibility","which declarations are exposed"]))
L.append(P("C07","Every exposed scope appears below the right Python object",
"Every exposed class, enum and submodule is created on the Python object of its closest enclosing scope that has one: a class, a namespace annotated with `module`, or else the top-level module. Namespaces without `module` never create a level of their own, at any nesting depth, and a reopened namespace resolves to the same Python object as its first occurrence.",
["programs"],"All nestings of namespaces (with and without `module`), classes and enums.",
"Tests cover a few nestings; the rule is recursive over arbitrary depth.",
["src/decl_context_graph_processing.cpp","src/expose.cpp"],
[("enclosing scope map skipping transparent namespaces","src/decl_context_graph_processing.cpp"),("scope introducers","src/expose.cpp")],
["generated code","Python module hierarchy"]))
L.append(P("C08","only_expose_in hides exactly the namespaces of other modules",
"If a namespace names the modules it may be exposed in and the generated module is not among them, then that namespace and everything nested below it, at any depth, is hidden. All other scopes keep their visibility, in particular siblings and scopes visited after the hidden subtree, and namespaces that name the generated module (possibly among others) or name none are unaffected.",
["programs","inputs"],"All scope trees, all placements and argument lists of `only_expose_in`, all module names.",
"One pair of test modules exercises one tree.",
["src/decl_context_graph_processing.cpp"],
[("traversal that marks the subtree dominated by a foreign namespace","src/decl_context_graph_processing.cpp")],
["--dump-graph=pruned","generated bindings"]))
L.append(P("C09","Pruning keeps exactly the scopes that have something to expose",
"A class or enum is kept exactly if it is visible and its parent is kept; a namespace is kept exactly if its parent is kept and it contains, directly or through nesting, some visible declaration that is not a namespace (a hidden class conceals everything below it; what `only_expose_in` hides still counts for enclosing namespaces). Each opening of a namespace is judged by itself. Kept scopes keep their parent, and every scope that contains visible declarations but is not kept is reported in a warning, in source order.",
["programs"],"All scope trees with any visibility assignment and any members.",
"Tests use fixed trees; the claim is an iff over all trees.",
["src/decl_context_graph_processing.cpp","src/visible_decls.cpp"],
[("post-order computation of scopes with visible declarations","src/decl_context_graph_processing.cpp"),("pruned copy of the scope graph","src/decl_context_graph_processing.cpp")],
["--dump-graph=pruned","generated bindings","warnings"]))
L.append(P("C10","Scopes are emitted once, after parent and bases, or a cycle is reported",
"The emission order contains every exposed scope exactly once, each after the scope it is exposed in and after all of its exposed public base classes; among scopes whose prerequisites are met (namespaces count as scopes), the one that comes first in the source is next, so the order does not depend on hash order or addresses. If the prerequisites are cyclic no order is produced and an error is reported instead, and an error is reported only in that case.",
["programs"],"All finite scope graphs and inheritance relations, all source orders.",
"Tests contain small hierarchies; ordering and cycle detection quantify over all graphs.",
["src/decl_context_graph_processing.cpp","src/expose.cpp"],
[("topological sort with a priority queue","src/decl_context_graph_processing.cpp")],
["order of the introducers in the generated module"]))
L.append(P("C11","Generated names are unique; each scope lands in exactly one output file",
"For any number of output files, each exposed scope gets one generated function that is declared before use, called exactly once from the module initialisation (in emission order) and defined in exactly one of the files, and the module itself is defined in the first file; all files start with the same includes. Different scopes never share a generated name, whatever their C++ names are.",
["programs","configurations"],"All sets of exposed scopes and all numbers of output files.",
"Tests use one or a few output files and well-separated names; collisions need particular name combinations.",
["src/expose.cpp","src/tool.cpp"],
[("identifier discriminator","src/expose.cpp"),("proportional distribution of scopes over the output streams","src/expose.cpp")],
["generated files"]))
L.append(P("C12","Call policies apply to the parameters they name",
"`keep_alive`, `noconvert` and `required` refer to parameters by name, and the generated binding applies them to exactly those parameters, using pybind11's numbering (return value 0, the instance 1 for constructors and instance methods only, then the parameters in order), for any parameter list including `pybind11::args`/`kwargs` and static methods. Every ordinary parameter is emitted once, in order, with its name and default argument; unknown names, and any parameter following `kwargs`, are errors.",
["inputs","programs"],"All parameter lists, all positions and combinations of policies, all function kinds.",
"Tests use functions with up to three parameters and policies on few positions.",
["src/annotated_decl.cpp","src/expose.cpp"],
[("name to index lookup","src/annotated_decl.cpp"),("emission of the arguments and policies","src/expose.cpp")],
["generated code","Python call behaviour"]))
L.append(P("C13","Operators map to the right special method and operand order",
"For every overloaded operator of an exposed class (member, friend, or free function of its namespace) that Python can express, the binding is defined under the Python special method for that operator, and calling it evaluates the C++ operator with the operands in their original order; if the class is only the right-hand operand, the reflected (or mirrored comparison) method is used instead. Operators that have no such Python method, including unary `*` and `&`, are not exposed at all, and no binding ever has an empty name.",
["programs","inputs"],"Every operator kind, arity, member/free form and side of the class operand.",
"Tests cover common operators on one class; the table has about fifty entries times operand orders.",
["src/expose.cpp"],
[("operator name tables","src/expose.cpp"),("operand order of the generated lambda","src/expose.cpp")],
["generated code","Python operator behaviour"]))
L.append(P("C14","Properties pair exactly the annotated getter and setter",
"Each property name of a class is exposed once, with the single method annotated as its getter and, if there is one, the single method annotated as its setter; it is read-only exactly if there is no setter. A second getter or setter for a name and a setter without a getter are errors, and methods used for properties are not exposed as methods as well.",
["programs"],"All sets of accessor methods and property names of a class, in any order.",
"Tests cover a few accessor combinations.",
["src/expose.cpp"],
[("property table of a class","src/expose.cpp")],
["generated code","diagnostics"]))
L.append(P("C15","Base classes are exposed, hidden or inlined exactly as requested",
"The Python bases of an exposed class are exactly its public base classes that are themselves exposed and neither hidden nor inlined, plus those of the bases it inlines. A base is inlined exactly if it is requested by the class or, transitively, by an inlining-requested base, and is reachable through public inheritance without passing a hidden base; then its accessible members except constructors and destructors are exposed as members of the class, otherwise inherited members are not repeated.",
["programs"],"All inheritance graphs and all placements of `hide_base`/`inline_base`.",
"Tests fix small hierarchies; closure and path conditions range over all inheritance DAGs.",
["src/visible_decls.cpp","src/expose.cpp"],
[("inlining policy of a class","src/visible_decls.cpp"),("filter of looked-up declarations","src/visible_decls.cpp"),("class type arguments","src/expose.cpp")],
["generated code"]))
L.append(P("C16","Headers are analysed as C++17 or later with the user's other flags intact",
"For every compile command, the command used for analysis selects C++ as the language (whatever `-x`/`--language` say) and a standard that is the last one requested (`-std=`/`--std=`) if that is C++20 or later and C++17 (with the requested GNU or ISO flavour) otherwise. All other arguments are kept in their original relative order, arguments after `--` are never changed, and a default resource directory is added only if the command has none.",
["inputs"],"All argument vectors.",
"One lit test checks one command line.",
["src/tool.cpp"],
[("argument adjusters","src/tool.cpp")],
["--verbose output","accepted language features"]))
L.append(P("C17","expose_here moves a type to exactly one place",
"A type named by an `expose_here` alias is exposed in the scope of that alias and nowhere else, under the alias' effective name and visibility; every other scope stays below its closest semantic parent scope. A second `expose_here` for the same type and every cycle of relocations are reported as errors at the alias, and after an error no bindings are generated.",
["programs"],"All sets of aliases and scope trees.",
"Tests contain single moves and one or two cycles.",
["src/decl_context_graph_builder.cpp","src/annotated_decl.cpp","src/decl_context_graph_processing.cpp"],
[("relocation map and edge insertion","src/decl_context_graph_builder.cpp"),("propagation of name and visibility","src/annotated_decl.cpp"),("cycle report","src/decl_context_graph_processing.cpp")],
["--dump-graph","diagnostics"]))
L.append(P("C18","Exactly the visible members are exposed, each in the form it calls for",
"A member or free declaration is exposed exactly if its annotated visibility, or else that of its scope, is visible (type aliases need their own annotation) and it is public and not hidden by another declaration; deleted functions, move constructors and constructors of abstract classes never are. Static methods, instance methods, constructors, enumerators and type aliases are exposed as such; fields and static variables are read-only exactly if they are const or annotated `readonly`; enumerators are exported to the parent scope exactly if requested or, by default, if the enum is unscoped. The Python name is the annotated one, else the C++ name.",
["programs"],"All declarations, access specifiers, annotations and scope visibilities.",
"Integration tests cover one example of most forms; the decision table is the product of declaration kinds, flags and visibilities.",
["src/expose.cpp","src/visible_decls.cpp"],
[("visibility filter","src/expose.cpp"),("per-kind emission","src/expose.cpp"),("filter of looked-up declarations","src/visible_decls.cpp")],
["generated code"]))
L.append(P("C19","Reopened namespaces with annotated content must agree on their annotations",
"Whenever a namespace is opened several times, every opening that is annotated or contains annotated declarations must carry settings equal to those of the first such opening; otherwise an error is reported at the deviating opening. Openings without annotated content are never compared, and equal settings are never reported.",
["programs"],"All sequences of namespace openings with any annotations and content.",
"A lit file enumerates some pairs; the rule is over arbitrary sequences and all settings.",
["include/genpybind/lookup_context_collector.h","src/lookup_context_collector.cpp","src/annotated_decl.cpp"],
[("first-declaration map","src/lookup_context_collector.cpp"),("comparison of all settings","src/annotated_decl.cpp")],
["diagnostics"]))
L.append(P("C20","Errors yield a failing exit status and no output",
"If any error is reported while analysing the header or generating bindings, the tool ends with a non-zero exit status (it does not crash) and the output files are discarded (unless keeping them was requested explicitly); otherwise the exit status is zero and every requested output file is written completely. Output paths other than `-` have to be absolute, relative ones are rejected before anything is written.",
["inputs","configurations","fault_sequences"],"All runs, all error kinds, all option combinations.",
"Tests check the exit status of some failing runs; leftover output after errors is not observed.",
["src/tool.cpp","src/diagnostics.cpp"],
[("erase decision of the frontend action","src/tool.cpp"),("severity of diagnostics","src/diagnostics.cpp"),("output option parser","src/tool.cpp")],
["exit status","file system"]))
with open('/verif/properties.jsonl','w') as f:
    for p in L: f.write(json.dumps(p,ensure_ascii=False)+"\n")
import re
for p in L: assert len(p['title'])<=80,p['id']
print(len(L))
