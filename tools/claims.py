NA = {}
TECH = {}
COMMON = ' Callees outside the listed functions and LLVM/clang/std are taken by model or contract (DESIGN.md, section 3); machine integers are mathematical. The random exploration of the built code is bounded and never counted as proved.'
NOTE = {k: v + COMMON for k, v in {
'C01': 'Proved for all texts: tokenizer, parser and entry points. Assumes the contracts of the StringRef members used and of clang\'s character tables.',
'C02': 'Proved for every kind of every operand of every member function (distinct and identical operands): union discipline, effect, exclusive ownership. Temporaries are destroyed at the end of the function.',
'C03': 'Proved for all byte strings (quantified invariants and induction lemmas); assumes the ASCII tables of clang/Basic/CharInfo.h and the std::find_if contract. The in-place buffer is an array with the bounds checked.',
'C04': 'Proved for all annotations and argument lists of all eleven settings classes.',
'C05': 'Proved for all annotation lists; assumes the storage invariant that settings of any class come with a NamedDeclAttrs entry (kept by the same function).',
'C06': 'Proved for every graph: the visibility of each visited scope is its specified value. Assumes the contract of llvm::df_iterator on trees.',
'C07': 'Proved for every graph: the parent map. How the parent is spelled in the generated code is proved with emitModule (C11) and explored.',
'C08': 'Proved for every graph and settings; assumes the contract of llvm::df_iterator on trees.',
'C09': 'Proved for every graph; assumes the contracts of llvm::post_order and df_iterator on trees and of clang\'s lookup.',
'C10': 'Proved for every dependency relation (counting lemmas, sort, dependencies, order of emission).',
'C11': 'Proved for every list of scopes and any number of files. Termination of the discriminator is not proved.',
'C12': 'Proved for every parameter list and settings.',
'C13': 'Proved for every operator kind, the collection of operators and isOstreamOperator.',
'C14': 'Proved for every sequence of getters and setters.',
'C15': 'Proved for every class and annotation; assumes forallBases visits every base and that inheritance is acyclic.',
'C16': 'Proved for every argument vector.',
'C17': 'Proved for every alias and graph; assumes settings are read before they are changed.',
'C18': 'Proved for every declaration kind and settings; assumes clang\'s lookup reports every declaration.',
'C19': 'Proved for every pair of settings and every visited declaration.',
'C20': 'Proved for all option values and diagnostics; assumes clang\'s createOutputFile/clearOutputFiles.',
}.items()}
