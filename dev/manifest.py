import json
TECH={
 "C12":"path-sensitive dataflow over SSA of the mutually recursive interpretation functions: on every path the two sides of a built connection are equal terms after exchanging the operands of the phrase its connector was read from",
 "C13":"abstract interpretation: the kinds of phrases that every grammar rule can produce and every part can hold, as a fixpoint over the grammar actions, carried through parameters, results, parts and binding stacks of the interpretation functions; on every path over SSA the failing type switches, assertions, absent parts, stack accesses and word functions are shown to be impossible",
 "C17":"constant propagation through the word functions and their tables for every word that the grammar accepts in each place and all its spellings, the readings compared with a fixed table on every path that makes a formula node from a word, and the word classes as the finite languages of the grammar rules",
 "C19":"path-sensitive dataflow over SSA of every function that makes formula nodes: provenance (access path) of the reference of each node against the access paths its contents are read from, and flow of phrases made up while interpreting",
 "C15":"path-sensitive dataflow over SSA of every simplification step with the steps of its parts uninterpreted: what is returned and left behind is the node with its parts simplified in place, or a rewriting whose conditions are established on that path; step analysis of the walks, constant propagation through the joining of variable lists",
 "C23":"path-sensitive dataflow over SSA: what the formula that every path of the interpretation functions makes is composed of, compared with the parts of the phrases that the path takes apart",
 "C24":"path-sensitive dataflow over SSA: the focus marks of every variable and binding that a path makes or changes, compared with what the path knows of the focus word and the particle after the terms",
 "C25":"constant propagation through the word functions for every spelling of a finite word table, over the decisions and names that each path of the interpreter computes from a predicate word",
 "C29":"abstract interpretation of every recognising function of the parser in lock-step with the rule of the grammar file that it stands for: the product over all answers of the text",
 "C28":"constant propagation through the printing functions over the variables' numbers, restrictions and order of occurrence, for an enumeration of forms of formulas",
 "C27":"path-sensitive dataflow over SSA from what is read to what is parsed, and from the parser's and interpreter's results to each named part of the answer, over every path of the front ends",
 "C26":"constant propagation through the word functions for words of every shape of syllable, case and tone, and through the tree conversion over a modelled walk",
 "C22":"path-sensitive dataflow over SSA: what every path of the interpretation functions passes on as arguments and remaining terms, and constant propagation through the placing of all argument lists up to length four",
 "C14":"path-sensitive dataflow and typestate over SSA of the mutually recursive interpretation functions: where every binding and name goes on every path, and that the scope stacks are as before on every way out",
 "C09":"table query over the initialiser of the tone table, finite languages of the vowel and tone rules read off the parser functions, and constant propagation through their actions for every letter and notation",
 "C10":"progress analysis over the abstract state graph of every parser function (every cycle moves a position forward), nullability fixpoint, acyclic left-call graph, bounded helper loops and structural recursion",
 "C11":"abstract interpretation of the generated parser functions in lock-step: the product of the recognising pass of each rule with its tree, error and syntax-tree passes, over all answers of the text",
 "C01":"relational dataflow over SSA: the word sequence of every modifier-attaching method and every grammar action on every path equals that of its pieces, and abstract interpretation of the action pass shows that the pieces cover the matched text",
 "C02":"path-sensitive dataflow over SSA: every path of every Start/End method returns the extent of the first/last present part",
 "C03":"path-sensitive dataflow over SSA: on every path of Equal the established facts prove equality (true) or a difference (false)",
 "C05":"path-sensitive dataflow over SSA: output token sequence of the renderer on every path against the present parts of the node kind",
 "C04":"path-sensitive dataflow over SSA: call sequence of Visit on every path against the part order of the node kind",
 "C06":"points-to and side-effect analysis over SSA: no store of a reading, rendering or extending operation can reach an object of the tree it was given",
 "C07":"typestate dataflow over SSA: the memo tables that hand out trees are replaced between a result and the next call; no result comes from a package variable",
 "C08":"path-sensitive dataflow over SSA with difference bounds: success only after the length test, error offset, path and text on every path of every parser operation",
 "C21":"points-to and side-effect analysis over SSA plus map-iteration taint: no write to package state after initialisation, no result that depends on map order, time or chance",
 "C16":"path-sensitive dataflow over SSA: output token sequence and visit sequence of every formula node kind on every path against its parts",
 "C18":"path-sensitive dataflow over SSA with panicking calls and deferred recovery: every failing path of a front end returns with the failure in its reply",
 "C20":"path-sensitive dataflow over SSA: every path of Load that returns entries has excluded each failure and stores each entry under its normalised head word; entry-by-entry query of the built-in table",
}
NOTE={}
DEFAULT="Decides the property on the current source for every path of the analysed functions, lists bounded as stated under assumptions in the evidence; nothing is executed. Part tables and library models are trusted."
na={}
try:
    exec(open('/verif/dev/claims.py').read())
except FileNotFoundError: pass
props=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
m={"version":1,"setup_cmd":"./check.sh --setup","checks":[],"not_applicable":[],"notes":"All checks are one static analyser (tool/), built from the committed sources with vendored x/tools."}
for p in props:
    if p in TECH:
        m["checks"].append({"property":p,"quick_cmd":"./check.sh "+p,"thorough_cmd":"VERIF_TIER=thorough ./check.sh "+p,"evidence_file":"evidence/%s.json"%p,"technique":"static analysis: "+TECH[p],"level":"other","level_note":NOTE.get(p,DEFAULT)})
    else:
        m["not_applicable"].append({"property":p,"reason":na.get(p,"no sound static rule in place yet")})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1,ensure_ascii=False);open('/verif/MANIFEST.json','a').write('\n')
