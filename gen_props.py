#!/usr/bin/env python3
# Writes properties.jsonl (kept as a script so that the text is easy to maintain).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))

p("C01","The syntax tree keeps every word of the text, once and in order",
 "For every text that the parser accepts, walking the returned syntax tree yields every word, space and punctuation run of the text exactly once and in the order of the text, none dropped, duplicated, moved or invented. This holds wherever spaces, interjections, parentheticals, incidentals and vocatives occur and however often modifiers follow one another, because attaching a modifier always adds it after the last word of the phrase it follows.",
 ["inputs"],"all accepted texts, all nestings and all placements of spaces and free modifiers",
 "The round-trip tests compare a few hundred sample sentences; the property is about each of the several hundred grammar rules, in each of its alternatives, with each optional part present or absent.",
 ["ast/nodes.go","ast/ast.go","ast/visit.go","ast/toaq.peggy","ast/toaq.go"],
 [("grammar actions build each node from the labelled pieces of its rule","ast/toaq.go, ast/nodes.go"),("mod methods attach a modifier to the last word","ast/ast.go"),("child order of the walk","ast/visit.go")],
 ["ast.Parser.Text","ast.Visit"])
p("C02","A node's start and end are those of its first and last word",
 "For every node of a syntax tree, the reported start is the start of the first word of its first present part and the reported end is the end of the last word of its last present part, whichever optional parts are present. Asking any node of an accepted text for its extent never fails.",
 ["inputs"],"all node kinds and all combinations of present and absent optional parts",
 "No test looks at extents of more than a handful of nodes; the combinations of optional parts are not sampled at all.",
 ["ast/ast.go"],[("Start and End methods of each node kind","ast/ast.go")],["Node.Start","Node.End"])
p("C03","Tree equality is exact structural equality up to positions",
 "Comparing two syntax trees reports true exactly if they have the same kind of node, the same words and the same modifiers at every place, with the same optional parts present; only the byte positions of words are ignored. The comparison gives an answer for every pair of nodes that a walk can reach.",
 ["inputs"],"all pairs of trees",
 "The tests compare pairs of sample sentences; a field that is left out of a comparison shows only for two trees that differ in just that field.",
 ["ast/equal.go"],[("one comparison per node kind, covering all parts","ast/equal.go Equal, copEqual, wordEqual")],["ast.Equal"])
p("C04","A tree walk meets every node once, in text order, and closes each level",
 "Walking a syntax tree calls the visitor on the node first, then walks each present part of the node exactly once in text order with the visitor that the call returned, and finally calls that visitor once with nil. If the visitor returns nil, the parts are skipped and there is no closing call; absent parts are never handed to the visitor, and every node kind can be walked.",
 ["inputs","programs"],"all trees, all visitors including ones that prune or change the visitor",
 "The visitor tests record traces of a few sentences with visitors that never prune and never switch visitor.",
 ["ast/visit.go"],[("switch over node kinds","ast/visit.go Visit")],["ast.Visit"])
p("C05","The bracketed form shows every word once, in order, balanced",
 "The bracketed rendering of a tree shows each word other than spaces and punctuation exactly once and in text order, together with all modifiers. Whenever two or more parts are shown, one matching pair of brackets encloses exactly them; brackets rotate with depth and every opened bracket is closed by its counterpart.",
 ["inputs"],"all trees",
 "The tests compare the output for a few dozen sentences, not each node kind with each optional part.",
 ["ast/braces.go"],[("per-kind list of parts","ast/braces.go braces"),("bracketing of the parts that are present","ast/braces.go braceKids")],["ast.BracesString"])
p("C06","Reading or extending a tree never changes the tree it was given",
 "Walking, comparing, rendering and interpreting a syntax tree leave the tree exactly as it was, so the same tree can be used again with the same outcome. Attaching a modifier yields a new tree and leaves the original one, which other parses may share, as it was; interpreting one branch of a connected phrase never changes what another branch sees.",
 ["inputs","histories"],"all trees and all sequences of operations on one tree",
 "Tests use each tree once and for one operation, and do not compare the tree before and after.",
 ["ast/ast.go","ast/visit.go","ast/equal.go","ast/braces.go","logic/interp.go","logic/simplify.go","logic/string.go"],
 [("modifier methods work on value copies and copied slices","ast/ast.go"),("interpreter copies term lists before replacing terms","logic/interp.go withTerm0, Prepend")],
 ["ast.Visit","ast.Equal","ast.BracesString","logic.Interpret"])
p("C07","Results of separate parser calls are independent of one another",
 "Every successful call on a parser returns a freshly built result: changing a tree, syntax tree or word returned by one call never shows in what a later call on the same parser returns, in whatever order the calls are made.",
 ["histories"],"all sequences of calls on one parser",
 "The tests make one call per parser.",
 ["ast/parser.go"],[("memo tables are replaced before a result is handed out","ast/parser.go Tree, Word, Text")],["Parser.Tree","Parser.Word","Parser.Text"])
p("C08","An accepted text is parsed to its end; a rejected one is located",
 "A full-text parse succeeds only if the grammar accounted for the text up to its last byte, so no suffix is silently ignored, whatever bytes it holds. A failed parse returns no result and an error whose failure tree starts at the requested offset, whose reported offset is the furthest failure in the text, and which names the configured file path.",
 ["inputs"],"all byte strings, all offsets",
 "The tests parse valid text and a few simple errors at offset zero.",
 ["ast/parser.go"],[("acceptance test and consumption check","ast/parser.go parse, parseText"),("error construction","ast/parser.go error, byteOffset")],["Parser.Tree","Parser.Word","Parser.Text","Error.ByteOffset"])
p("C09","The tone tables and the parser's tone notations agree and are complete",
 "For each of the seven tones and each vowel letter there is a written form that is that letter, in that case, with that tone's mark, and no form stands for two different tones or letters. The parser's vowel classes list exactly these forms, and every other notation it accepts for a tone (combining mark, symbol or digit, on the vowel or after the syllable) is turned into the form of that same tone, so no accepted notation fails or changes tone.",
 ["inputs","configurations"],"all tones, vowels, cases and notations",
 "The tests try some tone and vowel pairs in one notation, and no digits.",
 ["tone/tone.go","ast/nodes.go","ast/toaq.go"],[("table of forms","tone/tone.go Diacritic"),("tone rules of the grammar","ast/toaq.go"),("moving a trailing tone mark onto the vowel","ast/nodes.go addTone")],["tone.Diacritic","ast.Parser.Text"])
p("C10","Parsing terminates on every input",
 "Parsing any byte string terminates: no grammar rule can call itself again at the same position without having consumed input, and no repetition can go round without consuming input.",
 ["inputs"],"all byte strings",
 "A rule that loops shows only for inputs that reach it in the right state.",
 ["ast/toaq.go","ast/toaq.peggy"],[("shape of the grammar rules","ast/toaq.go")],["Parser.Tree","Parser.Word","Parser.Text"])
p("C11","Recognising, tree, error and syntax-tree passes follow the same grammar",
 "For every grammar rule, the passes that decide acceptance, build the parse tree, build the error tree and build the syntax tree make the same choices in the same order, so a text that is accepted always gets both its trees, covering the same pieces of the text, with each piece in one place; and the error tree of a text that is refused has every failure at the furthest place that was reached. Each rule's remembered results are its own and are never mixed up with another rule's.",
 ["inputs"],"all texts and all grammar rules",
 "The four passes are 115,000 lines of generated code; the tests reach each rule with few inputs and mostly through one pass.",
 ["ast/toaq.go"],[("four functions per rule","ast/toaq.go"),("memo helpers","ast/toaq.go _memo, _memoize, _failMemo")],["Parser.Tree","Parser.Text"])
p("C12","A connective joins the meanings of its own two operands",
 "Wherever two phrases are joined by a connective word, at any level and under any distribution over arguments, predicates, terms, prepositions, adverbs or clauses, the interpretation is the logical connection denoted by that very word between the reading with the left operand and the otherwise identical reading with the right operand, left on the left and right on the right. Neither operand is lost, duplicated or exchanged.",
 ["inputs"],"all accepted texts with connectives, nested in any way",
 "The tests hold a few dozen sentences; distribution code exists once per phrase kind, and combinations are not sampled.",
 ["logic/interp.go"],[("construction of connections","logic/interp.go"),("distribution of predicate connections","logic/interp.go distributePredication, serialPredicateLeft, serialPredicateRight")],["logic.Interpret"])
p("C13","Every accepted text can be interpreted",
 "Interpreting the syntax tree of any accepted text either gives a result or stops with the explicit report that its connective is not supported. It never fails because a phrase has a kind, or a function word a spelling, that the grammar allows but the interpretation of that place does not expect.",
 ["inputs"],"all accepted texts",
 "The phrase kinds that the grammar allows at each place are a product of some 400 rules; the tests try a sample.",
 ["logic/interp.go","ast/toaq.go"],[("type switches and assertions over phrase kinds","logic/interp.go"),("function word tables","logic/interp.go connector, quantifier, goPos, poPred, miPred")],["logic.Interpret"])
p("C14","Bindings are kept, placed over their scope, and end with it",
 "Every variable binding that interpreting a phrase introduces is present in the result exactly once with the rest of its statement as its scope, and definite and question bindings that are moved outward, the one to the top and only if nothing in them is bound further in, the other to the top of their own clause, are bound in the order they arose and once per phrase. A variable refers to the innermost binding of its name in scope, hoa to the phrase of the innermost clause. Names and clause variables introduced within a statement, clause or branch are visible only there: afterwards the names in scope are exactly those from before, on every way out.",
 ["inputs"],"all accepted texts",
 "A binding that is lost or a scope that leaks shows only for particular nestings of quantified variables, clauses and connectives.",
 ["logic/interp.go"],[("scope stacks restored on exit","logic/interp.go varScope, hoaScope, hiScope"),("bindScope","logic/interp.go bindScope")],["logic.Interpret"])
p("C15","Simplification never loses or changes a part of the meaning",
 "Simplifying an interpretation keeps every statement, predicate and argument: a binding disappears only if its own variable is equated with a constant that then replaces the variable, an abstraction is unfolded only if every one of its variables receives a present argument, and a variable that serves as a predicate is never replaced. All parts of every node are simplified and stay in place. Before that a restriction without arguments gets the variable that it restricts, unless it uses it, and no other predication gets one; in the end every binding has a number of its own and every bound variable that of its binding.",
 ["inputs"],"all interpretations",
 "The rewrite conditions matter only for inputs with gaps, predicate variables or equations about other variables, which the tests do not contain.",
 ["logic/simplify.go"],[("substitution conditions","logic/simplify.go sub, lambdaSub, swap"),("per-node simplification","logic/simplify.go simplify methods")],["logic.Interpret"])
p("C16","The printed formula and formula walk show every part of the formula",
 "Printing a formula writes, for every node, its quantifier or connector or name and each of its present parts exactly once and in a fixed order, marks absent arguments, separates arguments, and encloses connected statements unless the operand is a single predication or has the same connector. Walking a formula calls the function on the node and then on each present part exactly once in that order.",
 ["inputs"],"all formulas",
 "The tests print a sample of formulas, without gaps, swapped predicates or mixed connectors in all positions.",
 ["logic/string.go","logic/visit.go"],[("print methods","logic/string.go"),("Visit methods","logic/visit.go")],["logic.String","logic.PrettyString","Node.Visit"])
p("C17","Each function word has its fixed meaning",
 "Quantifiers are read as: none or ke definite, sa some, tu each, sia none, ja abstraction, hi question; connectives as ru and, ra or, ri question; linking words fi, go, cu, ta as places one to four; po and jei, mi and shu, lu and the particle that ends a prenex likewise keep their fixed readings. Every function word that the grammar accepts in such a place has a reading, and no two words of a class share one except as stated.",
 ["inputs","configurations"],"all function words accepted by the grammar in each place",
 "Not every word of every class occurs in the tests.",
 ["logic/interp.go","ast/toaq.go"],[("word tables","logic/interp.go connector, quantifier, goPos, poPred, miPred")],["logic.Interpret"])
p("C18","Front ends survive and report every parse or interpretation failure",
 "In the web server and the chat bot, a failure while interpreting a text, of whatever kind, never ends the program or the conversation: it is caught and its description is given to the user. A text that does not parse is answered with its syntax error and is not interpreted, and no failure is presented as a successful or fragment result.",
 ["inputs","fault_sequences"],"all texts and all failures inside the interpreter",
 "The front ends have no tests.",
 ["server/server.go","bot/bot.go"],[("recover around the interpreter","server/server.go safeInterp, bot/bot.go safeInterp"),("error handling of requests","server/server.go rootHandler, bot/bot.go parse")],["HTTP response","chat reply"])
p("C19","Every formula node refers to the phrase it came from",
 "Every node of an interpretation carries a reference to the syntax node that it was made from, and predications made from rewritten phrases refer to the original phrase of the text. What a node says (its quantifier, connective, name or quoted text) is read from within the phrase that it refers to; a variable and the binding made for it refer to the same phrase; the phrase of a whole includes those of the parts that it is made with; and a node that simplification adds refers to the phrase of the node that it is added to.",
 ["inputs"],"all nodes of all interpretations",
 "The tests compare printed formulas, which do not show the reference.",
 ["logic/interp.go","logic/simplify.go"],[("AST fields of constructed nodes","logic/interp.go, logic/simplify.go")],["Node.ASTNode"])
p("C20","Loading the dictionary normalises entries and reports bad responses",
 "Loading the dictionary from any response gives either an error or all of its entries, each stored under its own head word, which is stripped of tones and in lower case; a response that reports failure, lacks the data or is malformed gives an error and never a crash. The built-in dictionary has each entry under its own head word.",
 ["inputs","fault_sequences"],"all responses of the dictionary service",
 "The only test looks up one word of the built-in table.",
 ["dict/dict.go","dict/words.go"],[("Load","dict/dict.go"),("Words","dict/words.go")],["dict.Load","dict.Words"])
p("C21","Results depend only on the input: no shared state, no iteration order",
 "Parsing, interpreting, printing and tone conversion depend on nothing but their input: no call changes state that other calls or other goroutines share, and nothing that is returned or printed depends on the iteration order of a map, on time or on chance.",
 ["schedules","histories"],"all interleavings and histories of calls",
 "Tests run calls one after another and compare each result once.",
 ["ast/parser.go","ast/toaq.go","logic/interp.go","logic/string.go","tone/tone.go"],[("package variables are only read after initialisation","ast, logic, tone, dict"),("state is kept in per-call objects","logic/interp.go newInterp, ast/parser.go NewParser")],["all exported functions"])
p("C22","Every argument of a predicate is kept, at the place it was given",
 "A predication in the interpretation has every argument of the phrase exactly once: an argument with a linking word is at that word's place if it is the first to claim it, the others fill the free places in text order, and no argument overwrites or displaces another. Terms before the particle that discards them bind but do not become arguments.",
 ["inputs"],"all sequences of linked and plain arguments",
 "The tests have few linked arguments and no gaps, overflows or duplicate claims.",
 ["logic/interp.go"],[("argument ordering","logic/interp.go orderArguments, add, addAt"),("term processing","logic/interp.go prenexStatement")],["logic.Interpret"])
p("C23","What a phrase means is composed of the readings of all of its parts",
 "In the interpretation of a text, before simplification, every meaning-bearing part of every phrase takes part: predicates, arguments, terms, relative clauses, operands, clauses, quoted phrases, sentences. The binding for an argument is restricted by exactly its predicate (or by being among what its variable or hoa stands for) and its relative clause, each said of the bound variable and joined by 'and', under the argument's own quantifier; what prepositions and adverbs say something of is a content clause of the rest of the statement, definite at the top or universally quantified in place; roi stands for the definite plurality of its operands; the halves of serial predicates keep their sides; λ-functions apply a predicate to their own variable first.",
 ["inputs"],"all combinations of quantifiers, variables, hoa, relative clauses, connected and nested phrases in all positions",
 "The tests have one example per construct; they do not combine relative clauses with variables or hoa, quantifiers with hoa, or prepositions and adverbs with bound variables.",
 ["logic/interp.go"],[("arguments and their bindings","logic/interp.go predicateArgument, varArgument, hoaArgument, roi"),("events and λ-functions","logic/interp.go prenexStatement, predicationPreposition, makeContentPred, makeLambda, poPredicate")],["logic.Interpret"])
p("C24","An argument in focus stays in focus in the interpretation",
 "In the interpretation of a text, before simplification, the variable that stands for an argument is marked as in focus exactly if the argument has the focus word ku, also where it is read again in another branch, moved to the top, a variable or hoa. If the particle after the terms of a prenex discards the argument, the binding made for it is marked instead, also if it was moved to the top or of its clause; no other variable or binding is marked.",
 ["inputs"],"focus on arguments of every kind in every position",
 "No test has a focus word in an interpreted text.",
 ["logic/interp.go"],[("variables of arguments","logic/interp.go predicateArgument, varArgument, hoaArgument"),("discarded arguments","logic/interp.go prenexStatement")],["logic.Interpret"])
p("C25","Predicate words are read by what they are, however they are spelled",
 "How the interpreter reads a predicate word depends on the word and not on its spelling (case, which of the accepted forms a tone mark has, ı or I, which tone its grammatical role gives it): hoa, the do-variables and the words of equality (jeqtu) and membership (mea) are recognised in each spelling and no other word is taken for one of them; every other predicate is named by its letters in small case without tone; two do-variables have the same name exactly if they are the same word. The text of a quotation is the texts of the words quoted, in order, unchanged but for the space around them.",
 ["inputs"],"all spellings of predicate words",
 "The tests spell each word in one way.",
 ["logic/interp.go","tone/tone.go"],[("naming predicates","logic/interp.go wordPred"),("recognising hoa and variables","logic/interp.go isHoaPredicate, splitVar, oLetters"),("text of quotes","logic/interp.go toString")],["logic.Interpret"])
p("C26","The plain form of a word or text keeps its letters and its tones",
 "For every word that the parser accepts, in any case, tone and notation of the tone: the ASCII form has the same letters in the same case, each toned syllable followed by the marker of its own tone, and converting it again changes nothing; the stripped form has the letters alone; the tone of a word is that of its first syllable; a word given another tone, or none, differs in nothing else. Converting a tree to ASCII converts each of its words so and leaves everything else as it is.",
 ["inputs"],"all words the grammar accepts",
 "The tests convert a handful of words, none with capital q, in the grave tone with Strip, or with several tones.",
 ["tone/tone.go","ast/ast.go"],[("word forms","tone/tone.go ToASCII, Strip, WithTone, Tone"),("tree in ASCII","ast/ast.go ToASCII")],["tone.ToASCII","tone.Strip","tone.WithTone","tone.Tone","ast.ToASCII"])
p("C27","Front ends answer about exactly the text that was sent, and completely",
 "Each answer of the front ends is about the whole text that was sent and no other. The web server parses the request body unchanged; its reply has the bracketed form under Braces, the syntax tree under AST, the words in order under Text, the parse tree under Parse and the interpretation (or that it is a fragment) under Logic, or only Error with the syntax error; it gives every part that the page reads. The bot answers each message that begins with .miu, once and in its channel, and no other: with the bracketed form and the interpretation, or the syntax error, of what follows the prefix (in messages of the bridge, after the first ': '). The command line program does so for all of the named file, or else of its standard input, and ends with a failure status if it cannot read or parse it. Nothing shown is cut, and the tree is not changed while it is shown.",
 ["inputs","histories"],"all texts, requests, messages and command lines",
 "The front ends have no tests.",
 ["server/server.go","bot/bot.go","main.go"],[("request handling","server/server.go rootHandler, toString"),("message handling","bot/bot.go run, parse, fixBridgeMessage"),("command line","main.go main")],["HTTP response","chat reply","standard output"])
p("C28","Variables are told apart by name in a printed formula",
 "In the printed form of a formula every variable has a name, the same at each of its occurrences, and no two variables have the same name, however many variables there are of one initial or of several, whatever the form of the phrase that restricts them, in whatever order they occur, and also if a binding is never used or the formula is a part of another so that its numbers have gaps. The pretty form is the plain form with the turned iota for ι and mathematical italic capitals for the letters of variables, and nothing else. Printing never fails on such a formula, and of no formula it writes nothing.",
 ["inputs"],"all formulas",
 "Tests print formulas with at most a few variables.",
 ["logic/string.go"],[("naming","logic/string.go print, varRune, leftPred"),("names as written","logic/string.go printer.write, mathItalicCapitalLetters")],["printed formula (Logic of the server's reply, the bot's replies)"])
p("C29","The parser accepts exactly what the grammar file says",
 "For every rule of ast/toaq.peggy and every use of a rule with parameters, the parser matches at each place of a text what that rule of the grammar matches there, and only that: the same alternatives in the same order, the same literals and classes of characters, the same optional and repeated parts, the same conditions on what follows. A text is therefore accepted if and only if the grammar accepts it, with every rule extending exactly as far as the grammar says.",
 ["inputs"],"all texts and all rules of the grammar",
 "The parser is 115,000 lines of generated code beside a grammar of 550 lines; the tests parse a few hundred sentences.",
 ["ast/toaq.peggy","ast/toaq.go"],[("rules","ast/toaq.peggy"),("recognising functions","ast/toaq.go _*Accepts")],["Parser.Text","Parser.Tree","Parser.Word"])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P))
