From 7e225c5f927bd1f4ad76da9beb1cba8e1c2d8d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:56 +0000
Subject: [PATCH 01/42] fix: Predication.End panics when there are no terms and
 no NA

"gi?" parses, but End() indexed an empty Terms.
---
 ast/ast.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ast/ast.go b/ast/ast.go
index 79e9909..2ddad1c 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -158,10 +158,16 @@ type Predication struct {
 }
 
 func (n *Predication) Start() int                   { return n.Predicate.Start() }
-func (n *Predication) End() int                     { return end(n.NA, n.Terms) }
 func (n Predication) modNode(m *Mod) Node           { return n.mod(m) }
 func (n Predication) modStatement(m *Mod) Statement { return n.mod(m) }
 
+func (n *Predication) End() int {
+	if n.NA == nil && n.Terms == nil {
+		return n.Predicate.End()
+	}
+	return end(n.NA, n.Terms)
+}
+
 func (n Predication) mod(m *Mod) *Predication {
 	if n.NA != nil {
 		n.NA = n.NA.mod(m)
-- 
2.43.0


From f5bba7871b1c8d0e772d9b53affd784d1ef1294f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:06 +0000
Subject: [PATCH 02/42] fix: Text.Start and Text.End panic on a text with an
 empty discourse

The parser accepts "" and ".", giving a Text without a Discourse.
---
 ast/ast.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/ast/ast.go b/ast/ast.go
index 2ddad1c..9398902 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -34,10 +34,28 @@ type Text struct {
 	Discourse Discourse
 }
 
-func (n *Text) Start() int         { return n.Discourse.Start() }
-func (n *Text) End() int           { return n.Discourse.End() }
 func (n Text) modNode(m *Mod) Node { n.Discourse = *n.Discourse.mod(m); return &n }
 
+func (n *Text) Start() int {
+	if len(n.Discourse) > 0 {
+		return n.Discourse.Start()
+	}
+	if n.Leading != nil {
+		return n.Leading.Start()
+	}
+	return 0
+}
+
+func (n *Text) End() int {
+	if len(n.Discourse) > 0 {
+		return n.Discourse.End()
+	}
+	if n.Leading != nil {
+		return n.Leading.End()
+	}
+	return 0
+}
+
 // A Discourse is a non-empty sequence of sentences and/or fragments.
 type Discourse []Node
 
-- 
2.43.0


From 48755d4800b5df46e3f07579e490093e2b4341af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:36 +0000
Subject: [PATCH 03/42] fix: tone digits after a syllable panic

The grammar accepts 1-7 as tone markers, but addTone only knew -/V?^\~,
so parsing "mai4" panicked.
---
 ast/nodes.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ast/nodes.go b/ast/nodes.go
index 1c3c4cd..79c2e6a 100644
--- a/ast/nodes.go
+++ b/ast/nodes.go
@@ -131,6 +131,9 @@ func endParen(p Parenthetical, s *Mod, ki Word) *Parenthetical {
 // addTone swaps the first letter of des with its diacritic variant given the tone rune.
 func addTone(des, ton string) string {
 	t, _ := utf8.DecodeRuneInString(ton)
+	if '1' <= t && t <= '7' {
+		t = []rune(`-/V?^\~`)[t-'1']
+	}
 	_, w := utf8.DecodeRuneInString(des)
 	return tone.Diacritic[t][des[:w]][0] + des[w:]
 }
-- 
2.43.0


From 68a4ce83385c211f43e82f743a56c498453f7db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:49 +0000
Subject: [PATCH 04/42] fix: a modifier after a parenthetical is attached
 inside of it

The last word of a parenthetical is ki, but the modifier was attached to
the last word of its discourse, changing the order of the words.
---
 ast/ast.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast/ast.go b/ast/ast.go
index 9398902..03709c3 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -643,7 +643,7 @@ func (n Parenthetical) modNode(m *Mod) Node         { return n.mod(m) }
 func (n Parenthetical) modFragment(m *Mod) Fragment { return n.mod(m) }
 
 func (n Parenthetical) mod(m *Mod) Mod {
-	n.Discourse = *n.Discourse.mod(m)
+	n.KI = *n.KI.mod(m)
 	return &n
 }
 
-- 
2.43.0


From 93764db39bdc528986dc939c016f812a12b3e2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:02 +0000
Subject: [PATCH 05/42] fix: Equal panics on CoP and LUPhrase nodes

Both are Nodes that Visit hands to the visitor.
---
 ast/equal.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ast/equal.go b/ast/equal.go
index 4e36931..01b2be0 100644
--- a/ast/equal.go
+++ b/ast/equal.go
@@ -185,6 +185,14 @@ func Equal(a, b Node) bool {
 		b, ok := b.(*Space)
 		return ok && wordEqual((*Word)(a), (*Word)(b))
 
+	case *CoP:
+		b, ok := b.(*CoP)
+		return ok && copEqual(a, b)
+
+	case *LUPhrase:
+		b, ok := b.(*LUPhrase)
+		return ok && wordEqual(&a.LU, &b.LU) && Equal(a.Statement, b.Statement)
+
 	case *Word:
 		b, ok := b.(*Word)
 		return ok && wordEqual(a, b)
-- 
2.43.0


From b7c8f4e4f3ab1e2fe407f706f2901192076f5929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:15 +0000
Subject: [PATCH 06/42] fix: Parser.Word errors describe a parse of the full
 text

The failure tree was always that of the full_text rule at offset 0, and
the failure offset was not relative to the start of the parse.
---
 ast/parser.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/ast/parser.go b/ast/parser.go
index db2add7..7a3ea24 100644
--- a/ast/parser.go
+++ b/ast/parser.go
@@ -52,7 +52,7 @@ func NewParser(text string) *Parser {
 
 // Tree returns the full parse tree of the text.
 func (p *Parser) Tree() (*peg.Node, Error) {
-	if err := p.parse(_full_textAccepts, 0); err != nil {
+	if err := p.parse(_full_textAccepts, _full_textFail, 0); err != nil {
 		return nil, err
 	}
 	_, t := _full_textNode(p._Parser, 0)
@@ -66,7 +66,7 @@ func (p *Parser) Tree() (*peg.Node, Error) {
 // Word returns the word at the given byte-offset into the text
 // with any trailing whitespace attached and the number of bytes parsed.
 func (p *Parser) Word(offs int) (*Word, int, Error) {
-	if err := p.parse(_wordAccepts, offs); err != nil {
+	if err := p.parse(_wordAccepts, _wordFail, offs); err != nil {
 		return nil, 0, err
 	}
 	pos, t := _wordAction(p._Parser, offs)
@@ -79,7 +79,7 @@ func (p *Parser) Word(offs int) (*Word, int, Error) {
 
 // Text returns the AST of the text.
 func (p *Parser) Text() (*Text, Error) {
-	if err := p.parse(_full_textAccepts, 0); err != nil {
+	if err := p.parse(_full_textAccepts, _full_textFail, 0); err != nil {
 		return nil, err
 	}
 	_, txt := _full_textAction(p._Parser, 0)
@@ -90,12 +90,15 @@ func (p *Parser) Text() (*Text, Error) {
 	return txt, nil
 }
 
-func (p *Parser) parse(rule func(*_Parser, int) (int, int), start int) Error {
+func (p *Parser) parse(
+	rule func(*_Parser, int) (int, int),
+	fail func(*_Parser, int, int) (int, *peg.Fail),
+	start int) Error {
 	pos, perr := rule(p._Parser, start)
 	if pos >= 0 {
 		return nil
 	}
-	_, failTree := _full_textFail(p._Parser, 0, perr)
+	_, failTree := fail(p._Parser, start, start+perr)
 	return &parseError{
 		fail: failTree,
 		err:  peg.SimpleError(p._Parser.text, failTree),
-- 
2.43.0


From f6648b94e2008f0f7d73f190d818e74b527b18e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:25 +0000
Subject: [PATCH 07/42] fix: Parser.Word returns the same Word on subsequent
 calls

It reset the node memo table, but the Word is in the act memo table.
---
 ast/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast/parser.go b/ast/parser.go
index 7a3ea24..cee7de0 100644
--- a/ast/parser.go
+++ b/ast/parser.go
@@ -73,7 +73,7 @@ func (p *Parser) Word(offs int) (*Word, int, Error) {
 	// Reset so a subsequent call returns a different tree.
 	// This allows the caller to modify the returned tree
 	// without affecting the tree made by subsequent calls.
-	p._Parser.node = make(map[_key]*peg.Node)
+	p._Parser.act = make(map[_key]interface{})
 	return *t, pos - offs, nil
 }
 
-- 
2.43.0


From f4b47245158884b5ab065520d347f1a65e8f0519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:34 +0000
Subject: [PATCH 08/42] fix: Parser.FilePath is not used in parse errors

---
 ast/parser.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ast/parser.go b/ast/parser.go
index cee7de0..41d3233 100644
--- a/ast/parser.go
+++ b/ast/parser.go
@@ -99,8 +99,7 @@ func (p *Parser) parse(
 		return nil
 	}
 	_, failTree := fail(p._Parser, start, start+perr)
-	return &parseError{
-		fail: failTree,
-		err:  peg.SimpleError(p._Parser.text, failTree),
-	}
+	err := peg.SimpleError(p._Parser.text, failTree)
+	err.FilePath = p.FilePath
+	return &parseError{fail: failTree, err: err}
 }
-- 
2.43.0


From 05a6bce3a606ddc1f8a1eab9e1b95b826ad625c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:18 +0000
Subject: [PATCH 09/42] fix: text after an invalid rune is silently ignored

The generated parser treats an invalid UTF-8 sequence or U+FFFD as the
end of the text, so Text and Tree accepted a text after parsing only the
part before it.
---
 ast/parser.go | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/ast/parser.go b/ast/parser.go
index 41d3233..e300327 100644
--- a/ast/parser.go
+++ b/ast/parser.go
@@ -52,7 +52,7 @@ func NewParser(text string) *Parser {
 
 // Tree returns the full parse tree of the text.
 func (p *Parser) Tree() (*peg.Node, Error) {
-	if err := p.parse(_full_textAccepts, _full_textFail, 0); err != nil {
+	if err := p.parseText(); err != nil {
 		return nil, err
 	}
 	_, t := _full_textNode(p._Parser, 0)
@@ -66,7 +66,7 @@ func (p *Parser) Tree() (*peg.Node, Error) {
 // Word returns the word at the given byte-offset into the text
 // with any trailing whitespace attached and the number of bytes parsed.
 func (p *Parser) Word(offs int) (*Word, int, Error) {
-	if err := p.parse(_wordAccepts, _wordFail, offs); err != nil {
+	if _, err := p.parse(_wordAccepts, _wordFail, offs); err != nil {
 		return nil, 0, err
 	}
 	pos, t := _wordAction(p._Parser, offs)
@@ -79,7 +79,7 @@ func (p *Parser) Word(offs int) (*Word, int, Error) {
 
 // Text returns the AST of the text.
 func (p *Parser) Text() (*Text, Error) {
-	if err := p.parse(_full_textAccepts, _full_textFail, 0); err != nil {
+	if err := p.parseText(); err != nil {
 		return nil, err
 	}
 	_, txt := _full_textAction(p._Parser, 0)
@@ -90,15 +90,29 @@ func (p *Parser) Text() (*Text, Error) {
 	return txt, nil
 }
 
+// parseText parses the full text.
+func (p *Parser) parseText() Error {
+	n, err := p.parse(_full_textAccepts, _full_textFail, 0)
+	if err == nil && n < len(p._Parser.text) {
+		// The generated parser mistakes an invalid rune for the end of the text.
+		return p.error(&peg.Fail{Name: "full_text", Pos: n, Want: "valid UTF-8"})
+	}
+	return err
+}
+
 func (p *Parser) parse(
 	rule func(*_Parser, int) (int, int),
 	fail func(*_Parser, int, int) (int, *peg.Fail),
-	start int) Error {
+	start int) (int, Error) {
 	pos, perr := rule(p._Parser, start)
 	if pos >= 0 {
-		return nil
+		return pos, nil
 	}
 	_, failTree := fail(p._Parser, start, start+perr)
+	return -1, p.error(failTree)
+}
+
+func (p *Parser) error(failTree *peg.Fail) Error {
 	err := peg.SimpleError(p._Parser.text, failTree)
 	err.FilePath = p.FilePath
 	return &parseError{fail: failTree, err: err}
-- 
2.43.0


From eaa85717bc05153d6f2a93d6f6dee1f6302d2af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:30 +0000
Subject: [PATCH 10/42] =?UTF-8?q?fix:=20the=20breve=20form=20of=20a=20lowe?=
 =?UTF-8?q?r-case=20=C4=B1=20is=20upper-case=20in=20tone.Diacritic?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 tone/tone.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tone/tone.go b/tone/tone.go
index ce1893b..e249141 100644
--- a/tone/tone.go
+++ b/tone/tone.go
@@ -40,7 +40,7 @@ var (
 			"u": {"ǔ", "ŭ"},
 			"U": {"Ǔ", "Ŭ"},
 			"i": {"ǐ", "ĭ"},
-			"ı": {"ǐ", "Ĭ"},
+			"ı": {"ǐ", "ĭ"},
 			"I": {"Ǐ", "Ĭ"},
 			"o": {"ǒ", "ŏ"},
 			"O": {"Ǒ", "Ŏ"},
-- 
2.43.0


From 08fcc148ac1e65a914ba89b13d28cdee2a2e5035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:31 +0000
Subject: [PATCH 11/42] fix: dict.Load panics if the response has no error or
 no data

---
 dict/dict.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dict/dict.go b/dict/dict.go
index 25e3946..9926928 100644
--- a/dict/dict.go
+++ b/dict/dict.go
@@ -3,6 +3,7 @@ package dict
 
 import (
 	"encoding/json"
+	"errors"
 	"fmt"
 	"net/http"
 	"strings"
@@ -41,8 +42,14 @@ func Load(url string, query string) (map[string]Word, error) {
 		return nil, err
 	}
 	if !response.Success {
+		if response.Error == nil {
+			return nil, errors.New("Toadua returned an unspecified error")
+		}
 		return nil, fmt.Errorf("Toadua returned error: %s", *response.Error)
 	}
+	if response.Entries == nil {
+		return nil, errors.New("Toadua returned no data")
+	}
 	entries := *response.Entries
 	ws := make(map[string]Word)
 	for _, e := range entries {
-- 
2.43.0


From 1430ed99bc17615c2aa44a9104c11a67b2ee9215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:32 +0000
Subject: [PATCH 12/42] fix: the server reports a fragment when the interpreter
 has a runtime panic

Only panics with a string were reported as an error.
---
 server/server.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/server/server.go b/server/server.go
index bf6a6b7..3a4746a 100644
--- a/server/server.go
+++ b/server/server.go
@@ -2,7 +2,7 @@ package main
 
 import (
 	"encoding/json"
-	"errors"
+	"fmt"
 	"html/template"
 	"io/ioutil"
 	"net/http"
@@ -86,8 +86,8 @@ func rootHandler(w http.ResponseWriter, req *http.Request) {
 // on some things that are unimplemented.
 func safeInterp(text *ast.Text) (st logic.Statement, err error) {
 	defer func() {
-		if str, ok := recover().(string); ok {
-			err = errors.New("bug: " + str)
+		if r := recover(); r != nil {
+			err = fmt.Errorf("bug: %v", r)
 		}
 	}()
 	return logic.Interpret(text), nil
-- 
2.43.0


From 6b33e92553a82c323ed4d69884f83cbc66b61da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:33 +0000
Subject: [PATCH 13/42] fix: a text that the interpreter does not support kills
 the bot

---
 bot/bot.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/bot/bot.go b/bot/bot.go
index 2bc85ea..ed9e6f3 100644
--- a/bot/bot.go
+++ b/bot/bot.go
@@ -80,15 +80,29 @@ func parse(input string) string {
 		parse += "\n"
 	}
 	var math string
-	stmt := logic.Interpret(text)
-	if stmt == nil {
+	switch stmt, err := safeInterp(text); {
+	case err != nil:
+		math = err.Error()
+	case stmt == nil:
 		math = "fragment"
-	} else {
+	default:
 		math = logic.PrettyString(stmt)
 	}
 	return parse + math
 }
 
+// safeInterp calls the interpreter and recovers any panics.
+// The interpreter should not panic, but currently it does
+// on some things that are unimplemented.
+func safeInterp(text *ast.Text) (st logic.Statement, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("bug: %v", r)
+		}
+	}()
+	return logic.Interpret(text), nil
+}
+
 func fixBridgeMessage(msg *chat.Message) {
 	if msg.From == nil ||
 		msg.From.Nick != "ToaqBridgeBot" ||
-- 
2.43.0


From 3a474c77bb36c3e62596cb97bfa203b936fb704d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:17 +0000
Subject: [PATCH 14/42] fix: connected arguments of more than one term lose
 some combinations

The branches of a connected argument shared their terms slice, so
de? ji/ ru suq/ mai/ ru gi/ did not have de(suq, mai).
---
 logic/interp.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/logic/interp.go b/logic/interp.go
index 85573fb..be86ef8 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -515,7 +515,6 @@ func (interp *interpreter) poArgument(n ast.Node, pred Predicate, arg0 Argument,
 }
 
 // prenexStatement interprets a prenex statement using the given term list.
-// This function modifies the contents of the terms slice.
 func (interp *interpreter) prenexStatement(args arguments, n *ast.PrenexStatement, terms ast.Terms) Statement {
 	defer func(s []varScope) { interp.varScope = s }(interp.varScope)
 
@@ -1088,10 +1087,9 @@ func goPos(w ast.Word) int {
 	panic("impossible: " + w.T)
 }
 
-// withTerm0 sets ts[0] to t and returns ts.
+// withTerm0 returns a copy of ts with ts[0] set to t.
 func withTerm0(t ast.Term, ts ast.Terms) ast.Terms {
-	ts[0] = t
-	return ts
+	return ts[1:].Prepend(t)
 }
 
 // hasFreeVars returns whether a logic-sub-tree has un-bound variables.
-- 
2.43.0


From df9ab5e7ca256381ca1179aa8590a75339e396c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:18 +0000
Subject: [PATCH 15/42] fix: the right argument of a connected preposition
 argument is dropped

---
 logic/interp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/interp.go b/logic/interp.go
index be86ef8..adb72be 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -680,7 +680,7 @@ func (interp *interpreter) predicationPreposition(p ast.Predicate, arg0 interfac
 		return &Connection{
 			Connector: connector(arg1.RU),
 			Left:      interp.predicationPreposition(p, arg0, arg1.Left.(ast.Argument)),
-			Right:     interp.predicationPreposition(p, arg0, arg1.Left.(ast.Argument)),
+			Right:     interp.predicationPreposition(p, arg0, arg1.Right.(ast.Argument)),
 			AST:       arg1,
 		}
 	default:
-- 
2.43.0


From 36c15db63246b8070cdb223b657624259620b2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:20 +0000
Subject: [PATCH 16/42] =?UTF-8?q?fix:=20an=20argument=20is=20lost=20by=20?=
 =?UTF-8?q?=CE=BB-substitution=20if=20there=20is=20a=20gap=20before=20it?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

For example, mi? Hoaq? go ji/ lost ji.
---
 logic/simplify.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/logic/simplify.go b/logic/simplify.go
index 514b385..e1300e2 100644
--- a/logic/simplify.go
+++ b/logic/simplify.go
@@ -224,6 +224,11 @@ func lambdaSub(s *state, n *Predication, pred *Abstraction) Statement {
 	if nlambda == 0 || nargs != nlambda {
 		return nil
 	}
+	for _, a := range n.Arguments[:nlambda] {
+		if a == nil {
+			return nil
+		}
+	}
 
 	var i int
 	st := pred.Statement
-- 
2.43.0


From 733c888b86eef7808366a764fcb1ce392e824a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:21 +0000
Subject: [PATCH 17/42] =?UTF-8?q?fix:=20an=20argument=20is=20lost=20by=20?=
 =?UTF-8?q?=CE=BB-substitution=20of=20a=20variable=20used=20as=20a=20predi?=
 =?UTF-8?q?cate?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

For example, lu? hoa? ji/ na suq/ lost suq.
---
 logic/simplify.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/logic/simplify.go b/logic/simplify.go
index e1300e2..a126b61 100644
--- a/logic/simplify.go
+++ b/logic/simplify.go
@@ -218,6 +218,10 @@ func lambdaSub(s *state, n *Predication, pred *Abstraction) Statement {
 	var nlambda int
 	b, ok := pred.Statement.(*Binding)
 	for ok && b.Quantifier == Lambda && b.Restriction == nil {
+		if s.predVars[b.N] {
+			// This variable is used as a predicate; we cannot substitute it.
+			return nil
+		}
 		nlambda++
 		b, ok = b.Scope.(*Binding)
 	}
-- 
2.43.0


From d0581697a68bfff3694cbd8c4bf60a5fa5150ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:22 +0000
Subject: [PATCH 18/42] fix: simplification replaces a variable other than the
 one bound

---
 logic/simplify.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/logic/simplify.go b/logic/simplify.go
index a126b61..82f801f 100644
--- a/logic/simplify.go
+++ b/logic/simplify.go
@@ -157,6 +157,10 @@ func sub(s *state, n *Binding) bool {
 			return false
 		}
 	}
+	if l.N != n.N {
+		// This is not the variable of the binding.
+		return false
+	}
 	if s.predVars[l.N] {
 		// This variable is used as a predicate; we cannot substitute it.
 		return false
-- 
2.43.0


From 3285506908e430adb4a1b6377e536876fd75f09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:24 +0000
Subject: [PATCH 19/42] fix: capitalized do-variables are not recognized as
 variables

---
 logic/interp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/interp.go b/logic/interp.go
index adb72be..19de062 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -1155,7 +1155,7 @@ var oLetters, oTones = func() ([]rune, []rune) {
 // If the text does not begin with "do" in any tone,
 // then false is returned.
 func splitVar(txt string) (rune, string, bool) {
-	if len(txt) < 1 || txt[0] != 'd' || txt[0] == 'D' {
+	if len(txt) < 1 || txt[0] != 'd' && txt[0] != 'D' {
 		return tone.None, "", false
 	}
 	r, w := utf8.DecodeRuneInString(txt[1:])
-- 
2.43.0


From 0d3c11f9c29d6dd344702c3306bd4fbea9ef7677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:25 +0000
Subject: [PATCH 20/42] fix: variables bound within a roi-phrase leak out of it

---
 logic/interp.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/logic/interp.go b/logic/interp.go
index 19de062..a764678 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -741,6 +741,8 @@ func (interp *interpreter) roi(n *ast.CoPArgument) (*Binding, Argument) {
 }
 
 func (interp *interpreter) roiLeft(x *Variable, left, right ast.Argument) Statement {
+	defer func(s []varScope) { interp.varScope = s }(interp.varScope)
+
 	var a Argument
 	var b *Binding
 	switch n := left.(type) {
@@ -764,6 +766,8 @@ func (interp *interpreter) roiLeft(x *Variable, left, right ast.Argument) Statem
 }
 
 func (interp *interpreter) roiRight(x *Variable, left Argument, right ast.Argument) Statement {
+	defer func(s []varScope) { interp.varScope = s }(interp.varScope)
+
 	var a Argument
 	var b *Binding
 	switch n := right.(type) {
-- 
2.43.0


From 688e0a3bde6cdbbc66c0261b408b3536998a2385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:26 +0000
Subject: [PATCH 21/42] fix: an argument is dropped if two are linked to the
 same position

---
 logic/interp.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/logic/interp.go b/logic/interp.go
index a764678..fc513f9 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -292,20 +292,20 @@ func orderArguments(args arguments) []Argument {
 		}
 	}
 	largs := make([]Argument, nargs)
+	var rest []Argument
 	for _, a := range args {
-		if a.pos > 0 {
+		if a.pos > 0 && largs[a.pos-1] == nil {
 			largs[a.pos-1] = a.Argument
+		} else {
+			rest = append(rest, a.Argument)
 		}
 	}
 	var i int
-	for _, a := range args {
-		if a.pos > 0 {
-			continue
-		}
+	for _, a := range rest {
 		for largs[i] != nil {
 			i++
 		}
-		largs[i] = a.Argument
+		largs[i] = a
 	}
 	return largs
 }
-- 
2.43.0


From 4a88743a51eda3044edb4ce527cf9b6568f3f257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:28 +0000
Subject: [PATCH 22/42] fix: a relative or content clause connected with a
 statement panics

The right operand is a statement, which is not a Relative or Predicate.
---
 logic/interp.go | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/logic/interp.go b/logic/interp.go
index fc513f9..7264541 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -391,8 +391,8 @@ func (interp *interpreter) predicate(n ast.Predicate) interface{} {
 	case *ast.CoPContent:
 		return &predConnection{
 			con:   connector(n.RU),
-			left:  interp.predicate(n.Left.(ast.Predicate)),
-			right: interp.predicate(n.Right.(ast.Predicate)),
+			left:  interp.contentOperand(n.Left),
+			right: interp.contentOperand(n.Right),
 			AST:   n,
 		}
 	case *ast.LUContent:
@@ -406,6 +406,15 @@ func (interp *interpreter) predicate(n ast.Predicate) interface{} {
 	}
 }
 
+// contentOperand interprets an operand of a connected content clause,
+// which is either a content clause or a statement.
+func (interp *interpreter) contentOperand(n ast.Node) interface{} {
+	if p, ok := n.(ast.Predicate); ok {
+		return interp.predicate(p)
+	}
+	return interp.makeContentPred(n, interp.subordinateStatement(n.(ast.Statement)))
+}
+
 func (interp *interpreter) makeContentPred(n ast.Node, st Statement) Predicate {
 	equal := &Pred{Name: Equal, AST: n}
 	content := &Abstraction{Statement: st, AST: n}
@@ -956,8 +965,8 @@ func (interp *interpreter) relativeClause(b *Binding, n ast.Relative) Statement
 	case *ast.CoPRelative:
 		return &Connection{
 			Connector: connector(n.RU),
-			Left:      interp.relativeClause(nil, n.Left.(ast.Relative)),
-			Right:     interp.relativeClause(nil, n.Right.(ast.Relative)),
+			Left:      interp.relativeOperand(n.Left),
+			Right:     interp.relativeOperand(n.Right),
 			AST:       n,
 		}
 	default:
@@ -965,6 +974,15 @@ func (interp *interpreter) relativeClause(b *Binding, n ast.Relative) Statement
 	}
 }
 
+// relativeOperand interprets an operand of a connected relative clause,
+// which is either a relative clause or a statement.
+func (interp *interpreter) relativeOperand(n ast.Node) Statement {
+	if r, ok := n.(ast.Relative); ok {
+		return interp.relativeClause(nil, r)
+	}
+	return interp.subordinateStatement(n.(ast.Statement))
+}
+
 func (interp *interpreter) makePredication(pred ast.Predicate, args ...Argument) Statement {
 	var as arguments
 	for _, a := range args {
-- 
2.43.0


From 4752eac70691dff7b8774a0127eea1da90fc31c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:29 +0000
Subject: [PATCH 23/42] fix: the connectors ro and re are reported as
 impossible

The grammar accepts them, the interpreter does not support them.
---
 logic/interp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/interp.go b/logic/interp.go
index 7264541..07d9090 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -1089,7 +1089,7 @@ func connector(w ast.Word) Connector {
 		return Or
 	case hasText(w, "ri"):
 		return Ri
-	case hasText(w, "roi"):
+	case hasText(w, "roi"), hasText(w, "ro"), hasText(w, "re"):
 		panic("bad connector: " + w.T)
 	}
 	panic("impossible: " + w.T)
-- 
2.43.0


From 799bfdb190131a81650c3ce5328000099983f450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:30 +0000
Subject: [PATCH 24/42] fix: some logic nodes have no AST node

---
 logic/interp.go   | 3 +++
 logic/simplify.go | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/logic/interp.go b/logic/interp.go
index 07d9090..f4d003d 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -898,6 +898,7 @@ func (interp *interpreter) varArgument(n *ast.PredicateArgument) (*Binding, Argu
 			AST:       n,
 		},
 		Right: interp.relativeClause(b, n.Relative),
+		AST:   n,
 	}
 	return b, ay
 }
@@ -931,6 +932,7 @@ func (interp *interpreter) hoaArgument(n *ast.PredicateArgument) (*Binding, Argu
 			Connector: And,
 			Left:      b.Restriction,
 			Right:     interp.relativeClause(b, n.Relative),
+			AST:       n,
 		}
 	}
 	return b, ay
@@ -1000,6 +1002,7 @@ func (interp *interpreter) makeLambda(n ast.Node, pred Predicate, arg1 Argument)
 		Scope: &Predication{
 			Predicate: pred,
 			Arguments: []Argument{arg0, arg1},
+			AST:       n,
 		},
 		AST: n,
 	}
diff --git a/logic/simplify.go b/logic/simplify.go
index 82f801f..c241370 100644
--- a/logic/simplify.go
+++ b/logic/simplify.go
@@ -54,7 +54,7 @@ func (n *Predication) addHoa(b *Binding) []int {
 			return used
 		}
 	}
-	n.Arguments = []Argument{&Variable{N: b.N, Def: b}}
+	n.Arguments = []Argument{&Variable{N: b.N, Def: b, AST: n.AST}}
 	return used
 }
 
-- 
2.43.0


From 21c263f09d17ceca5c52b8d7bd6b1e7732e52681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:54 +0000
Subject: [PATCH 25/42] fix: the focus of variable, hoa, and repeated arguments
 is lost

---
 logic/interp.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/logic/interp.go b/logic/interp.go
index f4d003d..2434fc2 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -813,7 +813,7 @@ func (interp *interpreter) predicateArgument(n *ast.PredicateArgument) (*Binding
 		// This was a ι- or hi-quantified predicate
 		// that already had its scope lifted
 		// by a previous conditional branch.
-		return nil, &Variable{N: b.N, Def: b, AST: n}
+		return nil, &Variable{N: b.N, Def: b, Focus: n.Focus != nil, AST: n}
 	}
 	if _, _, ok := isVariablePredicate(n.Predicate); ok {
 		return interp.varArgument(n)
@@ -874,7 +874,7 @@ func (interp *interpreter) varArgument(n *ast.PredicateArgument) (*Binding, Argu
 		b := &Binding{Quantifier: quantifier(n.Quantifier), AST: n}
 		x := interp.pushVar(s, b)
 		b.N = x
-		a := &Variable{N: x, Def: b, AST: n}
+		a := &Variable{N: x, Def: b, Focus: n.Focus != nil, AST: n}
 		if n.Relative != nil {
 			b.Restriction = interp.relativeClause(b, n.Relative)
 		}
@@ -884,12 +884,13 @@ func (interp *interpreter) varArgument(n *ast.PredicateArgument) (*Binding, Argu
 	x, def := interp.lookupVar(s)
 	ax := &Variable{N: x, Def: def, AST: n}
 	if n.Relative == nil {
+		ax.Focus = n.Focus != nil
 		return nil, ax
 	}
 
 	y := interp.newVar()
 	b := &Binding{N: y, Quantifier: All, AST: n}
-	ay := &Variable{N: y, Def: b, AST: n}
+	ay := &Variable{N: y, Def: b, Focus: n.Focus != nil, AST: n}
 	b.Restriction = &Connection{
 		Connector: And,
 		Left: &Predication{
@@ -909,19 +910,20 @@ func (interp *interpreter) hoaArgument(n *ast.PredicateArgument) (*Binding, Argu
 	}
 	if len(interp.hoaScope) == 0 {
 		// This is an un-bound, would-be λ-bound variable.
-		return nil, &Variable{N: interp.newVar(), AST: n}
+		return nil, &Variable{N: interp.newVar(), Focus: n.Focus != nil, AST: n}
 	}
 
 	def := interp.hoaScope[len(interp.hoaScope)-1]
 	x := def.N
 	ax := &Variable{N: x, Def: def, AST: n}
 	if n.Quantifier == nil && n.Relative == nil {
+		ax.Focus = n.Focus != nil
 		return nil, ax
 	}
 
 	y := interp.newVar()
 	b := &Binding{N: y, Quantifier: All, AST: n}
-	ay := &Variable{N: y, Def: b, AST: n}
+	ay := &Variable{N: y, Def: b, Focus: n.Focus != nil, AST: n}
 	b.Restriction = &Predication{
 		Predicate: &Pred{Name: Among, AST: n},
 		Arguments: []Argument{ay, ax},
-- 
2.43.0


From bed07196d6331ef2815722e3ea6fe19589c857fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:56 +0000
Subject: [PATCH 26/42] fix: a roi-argument is lost from a statement lifted
 over its binding
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The ι-binding of roi is not at the top-most scope, but hasFreeVars
assumed that all ι-bindings are, so in gi? ji/ roi suq/ ne\ mai/,
gi was moved out of the scope of its argument.
---
 logic/interp.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/logic/interp.go b/logic/interp.go
index 2434fc2..2e1d711 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -594,7 +594,7 @@ func (interp *interpreter) prenexStatement(args arguments, n *ast.PrenexStatemen
 		return bindScope(b, st)
 	case ast.Preposition:
 		sub := interp.prenexStatement(args, n, terms[1:])
-		if hasFreeVars(sub) {
+		if interp.hasFreeVars(sub) {
 			return interp.preposition(t, &statementTail{args, n, terms[1:]})
 		}
 		x := interp.newVar()
@@ -617,7 +617,7 @@ func (interp *interpreter) prenexStatement(args arguments, n *ast.PrenexStatemen
 			Arguments: []Argument{a},
 			AST:       t,
 		}
-		if hasFreeVars(sub) {
+		if interp.hasFreeVars(sub) {
 			b.Quantifier = All
 			return bindScope(b, interp.adverb(t, a))
 		}
@@ -836,7 +836,7 @@ func (interp *interpreter) predicateArgument(n *ast.PredicateArgument) (*Binding
 	}
 
 	if b.Quantifier == The {
-		if hasFreeVars(b) {
+		if interp.hasFreeVars(b) {
 			b.Quantifier = All
 			return b, a
 		}
@@ -1120,15 +1120,19 @@ func withTerm0(t ast.Term, ts ast.Terms) ast.Terms {
 }
 
 // hasFreeVars returns whether a logic-sub-tree has un-bound variables.
-func hasFreeVars(n Node) bool {
+// Variables bound at the top-most scope are not considered un-bound.
+func (interp *interpreter) hasFreeVars(n Node) bool {
 	free := false
 	binds := make(map[*Binding]bool)
+	for _, b := range interp.theScope {
+		binds[b] = true
+	}
 	n.Visit(func(n Node) {
 		switch n := n.(type) {
 		case *Binding:
 			binds[n] = true
 		case *Variable:
-			if n.Def != nil && n.Def.Quantifier != The && !binds[n.Def] {
+			if n.Def != nil && !binds[n.Def] {
 				free = true
 			}
 		}
-- 
2.43.0


From b63193ccab54b9e5f26d5d5879493030ced8d66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:26 +0000
Subject: [PATCH 27/42] fix: variables bound within or outside of a lifted
 hi-binding are un-bound

Only variables whose binding the hi-binding is lifted over should be
un-bound, but gi? hi poq/ maiV ji/ also un-bound ji.
---
 logic/interp.go | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/logic/interp.go b/logic/interp.go
index 2e1d711..fb20ec3 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -182,19 +182,26 @@ func (interp *interpreter) subordinate(f func() Statement) Statement {
 // and assigns a new, unique number
 // to all Variables over which the hi-binding was lifted.
 func (interp *interpreter) clearHiFreeVarDefs(scope []varScope, hi *Binding) {
+	bound := make(map[*Binding]bool)
+	for _, s := range scope {
+		bound[s.def] = true
+	}
+	for _, b := range interp.theScope {
+		bound[b] = true
+	}
+	for _, b := range interp.hoaScope {
+		bound[b] = true
+	}
 	hi.Visit(func(n Node) {
-		v, ok := n.(*Variable)
-		if !ok {
-			return
-		}
-		for _, s := range scope {
-			if v.Def == s.def {
-				return
+		switch n := n.(type) {
+		case *Binding:
+			bound[n] = true
+		case *Variable:
+			if n.Def != nil && !bound[n.Def] {
+				n.Def = nil
+				n.N = interp.newVar()
 			}
 		}
-		v.Def = nil
-		v.N = interp.n
-		interp.n++
 	})
 }
 
-- 
2.43.0


From 08870696360a57791c61eec2d828820bf41cb39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:41 +0000
Subject: [PATCH 28/42] fix: Visit calls the visitor with absent terms and
 discourses

---
 ast/visit.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ast/visit.go b/ast/visit.go
index 435f0a3..a52aacc 100644
--- a/ast/visit.go
+++ b/ast/visit.go
@@ -33,7 +33,7 @@ func Visit(n Node, v Visitor) {
 	if n == nil {
 		return
 	}
-	if v := reflect.ValueOf(n); v.Kind() == reflect.Ptr && v.IsNil() {
+	if v := reflect.ValueOf(n); (v.Kind() == reflect.Ptr || v.Kind() == reflect.Slice) && v.IsNil() {
 		return
 	}
 	if v = v.Visit(n); v == nil {
@@ -44,7 +44,9 @@ func Visit(n Node, v Visitor) {
 	switch n := n.(type) {
 	case *Text:
 		Visit(n.Leading, v)
-		Visit(&n.Discourse, v)
+		if len(n.Discourse) > 0 {
+			Visit(&n.Discourse, v)
+		}
 
 	case *Discourse:
 		for _, k := range *n {
-- 
2.43.0


From 06d11a9f518d0f32000a3950e76910a80ba37725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:59 +0000
Subject: [PATCH 29/42] =?UTF-8?q?fix:=20an=20absent=20argument=20of=20=3D?=
 =?UTF-8?q?=20or=20=E2=89=BA=20is=20not=20marked=20in=20the=20printed=20fo?=
 =?UTF-8?q?rmula?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 logic/string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/string.go b/logic/string.go
index 218228e..4842a4a 100644
--- a/logic/string.go
+++ b/logic/string.go
@@ -57,7 +57,7 @@ func parens(n *Connection, arg Statement) (string, string) {
 
 func (n *Predication) print(pr *printer) error {
 	if p, ok := n.Predicate.(*Pred); ok && len(n.Arguments) == 2 && isBinOp(p) {
-		return pr.write(n.Arguments[0], p.Name, n.Arguments[1])
+		return pr.write(n.Arguments[:1], p.Name, n.Arguments[1:])
 	}
 	return pr.write(n.Predicate, "(", n.Arguments, ")")
 }
-- 
2.43.0


From 365bccfb5b0dbe6598c02ab788e9d86231250ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:21 +0000
Subject: [PATCH 30/42] fix: the failure of a space is located after the rune
 that follows

---
 ast/toaq.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ast/toaq.go b/ast/toaq.go
index 1a0a4d6..8e1725e 100644
--- a/ast/toaq.go
+++ b/ast/toaq.go
@@ -51296,6 +51296,7 @@ func _spaceAccepts(parser *_Parser, start int) (deltaPos, deltaErr int) {
 	perr = start
 	return _memoize(parser, _space, start, pos, perr)
 fail:
+	perr = start
 	return _memoize(parser, _space, start, -1, perr)
 }
 
-- 
2.43.0


From 98e6f267bed8394822002a8837126a4d327374ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:27 +0000
Subject: [PATCH 31/42] fix: a failure after a look-ahead is located at the
 start of the text

---
 ast/toaq.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/ast/toaq.go b/ast/toaq.go
index 8e1725e..d138464 100644
--- a/ast/toaq.go
+++ b/ast/toaq.go
@@ -422,7 +422,6 @@ type _Parser struct {
 	node     map[_key]*peg.Node
 	fail     map[_key]*peg.Fail
 	act      map[_key]interface{}
-	lastFail int
 	data     interface{}
 }
 
@@ -450,7 +449,6 @@ func _max(a, b int) int {
 }
 
 func _memoize(parser *_Parser, rule, start, pos, perr int) (int, int) {
-	parser.lastFail = perr
 	derr := perr - start
 	parser.deltaErr[start][rule] = int32(derr + 1)
 	if pos >= 0 {
@@ -475,9 +473,6 @@ func _memo(parser *_Parser, rule, start int) (int, int, bool) {
 }
 
 func _failMemo(parser *_Parser, rule, start, errPos int) (int, *peg.Fail) {
-	if start > parser.lastFail {
-		return -1, &peg.Fail{}
-	}
 	dp := parser.deltaPos[start][rule]
 	de := parser.deltaErr[start][rule]
 	if start+int(de-1) < errPos {
-- 
2.43.0


From 701df034a6d22a88118f536917780d20f616e939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:02 +0000
Subject: [PATCH 32/42] fix: a forethought predicate connection within an
 argument panics

---
 logic/interp.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/logic/interp.go b/logic/interp.go
index fb20ec3..5d8a4c9 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -383,8 +383,8 @@ func (interp *interpreter) predicate(n ast.Predicate) interface{} {
 	case *ast.CoPPredicate:
 		return &predConnection{
 			con:   connector(n.RU),
-			left:  interp.predicate(n.Left.(ast.Predicate)),
-			right: interp.predicate(n.Right.(ast.Predicate)),
+			left:  interp.predicateOperand(n.Left),
+			right: interp.predicateOperand(n.Right),
 			AST:   n,
 		}
 	// Content clauses can be predicates when content argument
@@ -413,6 +413,16 @@ func (interp *interpreter) predicate(n ast.Predicate) interface{} {
 	}
 }
 
+// predicateOperand interprets an operand of a connected predicate,
+// which is a predicate or, on the left of a forethought connection
+// within an argument, an argument that has only a predicate.
+func (interp *interpreter) predicateOperand(n ast.Node) interface{} {
+	if a, ok := n.(*ast.PredicateArgument); ok {
+		return interp.predicate(a.Predicate)
+	}
+	return interp.predicate(n.(ast.Predicate))
+}
+
 // contentOperand interprets an operand of a connected content clause,
 // which is either a content clause or a statement.
 func (interp *interpreter) contentOperand(n ast.Node) interface{} {
-- 
2.43.0


From d801624cf9202ccdfc7a5c9ee40e01ce9df2d2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:01 +0000
Subject: [PATCH 33/42] fix: a question binding in another's restriction is
 un-bound

The restriction of mai? hi po/ hi ji/ refers to the binding that was
lifted before it, which is in scope.
---
 logic/interp.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/logic/interp.go b/logic/interp.go
index 5d8a4c9..0e6cafd 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -169,11 +169,13 @@ func (interp *interpreter) subordinate(f func() Statement) Statement {
 
 	scope := interp.varScope
 	hiScope := interp.hiScope[len(interp.hiScope)-1]
-	for i := len(hiScope) - 1; i >= 0; i-- {
-		hi := hiScope[i]
+	for _, hi := range hiScope {
+		// The binding is in the scope of those that were lifted before it.
 		scope = append(scope, varScope{"", hi})
 		interp.clearHiFreeVarDefs(scope, hi)
-		st = bindScope(hi, st)
+	}
+	for i := len(hiScope) - 1; i >= 0; i-- {
+		st = bindScope(hiScope[i], st)
 	}
 	return st
 }
-- 
2.43.0


From 4645756e39122965081ecf0fd8902ff0caffe779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:01 +0000
Subject: [PATCH 34/42] fix: a question in a clause is lost where the clause is
 interpreted again

The binding stayed marked as lifted after its clause, so that the clause
in another branch, or after a preposition, had the variable only.
---
 logic/interp.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/logic/interp.go b/logic/interp.go
index 0e6cafd..ec4ca80 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -176,6 +176,9 @@ func (interp *interpreter) subordinate(f func() Statement) Statement {
 	}
 	for i := len(hiScope) - 1; i >= 0; i-- {
 		st = bindScope(hiScope[i], st)
+		// If the statement is interpreted again in another branch,
+		// this binding is not in scope there.
+		delete(interp.liftedScope, hiScope[i].AST.(ast.Argument))
 	}
 	return st
 }
-- 
2.43.0


From e81f15bbd37826775afd9dc8b77d7e371c27b193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:01 +0000
Subject: [PATCH 35/42] fix: simplification replaces a variable that is a
 predicate within another predicate

---
 logic/simplify.go | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/logic/simplify.go b/logic/simplify.go
index c241370..5819b1c 100644
--- a/logic/simplify.go
+++ b/logic/simplify.go
@@ -111,19 +111,25 @@ func newState(n Statement) *state {
 		predVars: make(map[int]bool),
 	}
 	n.Visit(func(n Node) {
-		p, ok := n.(*Predication)
-		if !ok {
-			return
-		}
-		v, ok := p.Predicate.(*Variable)
-		if !ok {
-			return
+		switch n := n.(type) {
+		case *Predication:
+			s.addPredVar(n.Predicate)
+		case *Serial:
+			s.addPredVar(n.Left)
+			s.addPredVar(n.Right)
+		case *Swap:
+			s.addPredVar(n.Predicate)
 		}
-		s.predVars[v.N] = true
 	})
 	return s
 }
 
+func (s *state) addPredVar(p Predicate) {
+	if v, ok := p.(*Variable); ok {
+		s.predVars[v.N] = true
+	}
+}
+
 func (n *Binding) simplifyStatement(s *state) Statement {
 	if n.Restriction != nil {
 		n.Restriction = n.Restriction.simplifyStatement(s)
-- 
2.43.0


From 246fe9b0c6699750132f49ba169e6d098beb5d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:02 +0000
Subject: [PATCH 36/42] fix: simplification removes the binding of a variable
 that is in its own definition

---
 logic/simplify.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/logic/simplify.go b/logic/simplify.go
index 5819b1c..2c62225 100644
--- a/logic/simplify.go
+++ b/logic/simplify.go
@@ -171,6 +171,10 @@ func sub(s *state, n *Binding) bool {
 		// This variable is used as a predicate; we cannot substitute it.
 		return false
 	}
+	if hasVar(right, l.N) {
+		// The variable is in its own definition; it must stay bound.
+		return false
+	}
 	switch right.(type) {
 	case *Quote, *Plurality, *Abstraction:
 		s.sub[l.N] = right
@@ -180,6 +184,16 @@ func sub(s *state, n *Binding) bool {
 	return true
 }
 
+func hasVar(n Node, v int) bool {
+	found := false
+	n.Visit(func(n Node) {
+		if x, ok := n.(*Variable); ok && x.N == v {
+			found = true
+		}
+	})
+	return found
+}
+
 func (n *Connection) simplifyStatement(s *state) Statement {
 	n.Left = n.Left.simplifyStatement(s)
 	n.Right = n.Right.simplifyStatement(s)
-- 
2.43.0


From d26a817320b6a14353cfb0ca8412b5c720f70e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:33 +0000
Subject: [PATCH 37/42] fix: formula nodes of a re-written predication refer to
 a syntax node that is not in the text

The clause that a preposition or adverb is about had as its AST node the
prenex statement that the predication was re-written into, which is not in
the syntax tree and whose start is after its end. Refer to the predication.
---
 logic/interp.go | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/logic/interp.go b/logic/interp.go
index ec4ca80..44160ae 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -54,12 +54,18 @@ type interpreter struct {
 	// This is used to ensure that logic tree AST fields
 	// point to the original AST even in the face of re-writes.
 	predications map[ast.Predicate]ast.Node
+
+	// rewritten maps from a prenex statement
+	// that is not in the AST to the predication
+	// that was re-written into it.
+	rewritten map[*ast.PrenexStatement]*ast.Predication
 }
 
 func newInterp() *interpreter {
 	return &interpreter{
 		liftedScope:  make(map[ast.Argument]*Binding),
 		predications: make(map[ast.Predicate]ast.Node),
+		rewritten:    make(map[*ast.PrenexStatement]*ast.Predication),
 	}
 }
 
@@ -227,13 +233,15 @@ func (interp *interpreter) statement(args arguments, n ast.Statement) Statement
 		// should point to the original Predication node.
 		interp.predications[n.Predicate] = n
 
-		return interp.statement(args, &ast.PrenexStatement{
+		prenex := &ast.PrenexStatement{
 			Prenex: ast.Prenex{
 				Terms: n.Terms,
 				BI:    ast.Word{T: "pa"},
 			},
 			Statement: &ast.Predication{Predicate: n.Predicate, NA: n.NA},
-		})
+		}
+		interp.rewritten[prenex] = n
+		return interp.statement(args, prenex)
 	case *ast.CoPStatement:
 		return &Connection{
 			Connector: connector(n.RU),
@@ -623,7 +631,7 @@ func (interp *interpreter) prenexStatement(args arguments, n *ast.PrenexStatemen
 		b := &Binding{N: x, Quantifier: The, AST: t}
 		a := &Variable{N: x, Def: b, AST: t}
 		b.Restriction = &Predication{
-			Predicate: interp.makeContentPred(n, sub),
+			Predicate: interp.makeContentPred(interp.original(n), sub),
 			Arguments: []Argument{a},
 			AST:       t,
 		}
@@ -635,7 +643,7 @@ func (interp *interpreter) prenexStatement(args arguments, n *ast.PrenexStatemen
 		b := &Binding{N: x, AST: t}
 		a := &Variable{N: x, Def: b, AST: t}
 		b.Restriction = &Predication{
-			Predicate: interp.makeContentPred(n, sub),
+			Predicate: interp.makeContentPred(interp.original(n), sub),
 			Arguments: []Argument{a},
 			AST:       t,
 		}
@@ -651,6 +659,15 @@ func (interp *interpreter) prenexStatement(args arguments, n *ast.PrenexStatemen
 	}
 }
 
+// original returns the AST node of a prenex statement,
+// which is the original predication in the case that it was re-written.
+func (interp *interpreter) original(n *ast.PrenexStatement) ast.Node {
+	if p, ok := interp.rewritten[n]; ok {
+		return p
+	}
+	return n
+}
+
 type statementTail struct {
 	args   arguments
 	prenex *ast.PrenexStatement
@@ -726,13 +743,14 @@ func (interp *interpreter) predicationPreposition(p ast.Predicate, arg0 interfac
 	case *statementTail:
 		args, prenex, terms := arg0.args, arg0.prenex, arg0.terms
 		sub := interp.prenexStatement(args, prenex, terms)
+		astNode := interp.original(prenex)
 		x := interp.newVar()
-		b1 := &Binding{N: x, Quantifier: All, AST: prenex}
-		a0 := &Variable{N: x, Def: b1, AST: prenex}
+		b1 := &Binding{N: x, Quantifier: All, AST: astNode}
+		a0 := &Variable{N: x, Def: b1, AST: astNode}
 		b1.Restriction = &Predication{
-			Predicate: interp.makeContentPred(prenex, sub),
+			Predicate: interp.makeContentPred(astNode, sub),
 			Arguments: []Argument{a0},
-			AST:       prenex,
+			AST:       astNode,
 		}
 		st := interp.makePredication(p, a0, a)
 		return bindScope(b, bindScope(b1, st))
-- 
2.43.0


From 2730e59251e7fb2257c2e7847b908b5ee813bda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:59 +0000
Subject: [PATCH 38/42] fix: the quantifier of hoa is ignored

---
 logic/interp.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/logic/interp.go b/logic/interp.go
index 44160ae..f8722f8 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -963,6 +963,9 @@ func (interp *interpreter) hoaArgument(n *ast.PredicateArgument) (*Binding, Argu
 
 	y := interp.newVar()
 	b := &Binding{N: y, Quantifier: All, AST: n}
+	if n.Quantifier != nil && quantifier(n.Quantifier) != The {
+		b.Quantifier = quantifier(n.Quantifier)
+	}
 	ay := &Variable{N: y, Def: b, Focus: n.Focus != nil, AST: n}
 	b.Restriction = &Predication{
 		Predicate: &Pred{Name: Among, AST: n},
@@ -977,6 +980,13 @@ func (interp *interpreter) hoaArgument(n *ast.PredicateArgument) (*Binding, Argu
 			AST:       n,
 		}
 	}
+	if b.Quantifier == Hi {
+		// Lift it to the top scope of the current statement.
+		interp.liftedScope[n] = b
+		i := len(interp.hiScope) - 1
+		interp.hiScope[i] = append(interp.hiScope[i], b)
+		return nil, ay
+	}
 	return b, ay
 }
 
-- 
2.43.0


From 3dd2551ae70bb653a73f99aa4185f83c49b3337d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:51 +0000
Subject: [PATCH 39/42] fix: the quantifier and the relative clause of a hoa
 without an antecedent are ignored

---
 logic/interp.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/logic/interp.go b/logic/interp.go
index f8722f8..0aab02a 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -948,14 +948,14 @@ func (interp *interpreter) hoaArgument(n *ast.PredicateArgument) (*Binding, Argu
 	if !isHoaPredicate(n.Predicate) {
 		panic("impossible")
 	}
+	ax := &Variable{AST: n}
 	if len(interp.hoaScope) == 0 {
 		// This is an un-bound, would-be λ-bound variable.
-		return nil, &Variable{N: interp.newVar(), Focus: n.Focus != nil, AST: n}
+		ax.N = interp.newVar()
+	} else {
+		ax.Def = interp.hoaScope[len(interp.hoaScope)-1]
+		ax.N = ax.Def.N
 	}
-
-	def := interp.hoaScope[len(interp.hoaScope)-1]
-	x := def.N
-	ax := &Variable{N: x, Def: def, AST: n}
 	if n.Quantifier == nil && n.Relative == nil {
 		ax.Focus = n.Focus != nil
 		return nil, ax
-- 
2.43.0


From 9310e4fd704b3c90a2034a75c951fb7184400c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:20 +0000
Subject: [PATCH 40/42] fix: the focus of a definite, asked-about or linked
 prenex argument that is not used is lost

---
 logic/interp.go | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/logic/interp.go b/logic/interp.go
index 0aab02a..8d8202b 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -588,12 +588,7 @@ func (interp *interpreter) prenexStatement(args arguments, n *ast.PrenexStatemen
 		}
 	case *ast.PredicateArgument:
 		b, a := interp.predicateArgument(t)
-		if t.Focus != nil && b != nil && !hasText(n.Prenex.BI, "pa") {
-			// The argument will not be used, but it had focus.
-			// We don't want to lose that there was a focus word,
-			// so put it on the prenex term instead.
-			b.Focus = true
-		}
+		interp.focusPrenex(n, t, b)
 		st := interp.prenexStatement(args.add(a), n, terms[1:])
 		return bindScope(b, st)
 	case *ast.LinkedTerm:
@@ -615,6 +610,7 @@ func (interp *interpreter) prenexStatement(args arguments, n *ast.PrenexStatemen
 			}
 		case *ast.PredicateArgument:
 			b, a = interp.predicateArgument(arg)
+			interp.focusPrenex(n, arg, b)
 			break
 		default:
 			panic(fmt.Sprintf("unknown argument type %T", n))
@@ -659,6 +655,24 @@ func (interp *interpreter) prenexStatement(args arguments, n *ast.PrenexStatemen
 	}
 }
 
+// focusPrenex puts the focus of an argument in a prenex on its binding
+// if the argument will not be used.
+func (interp *interpreter) focusPrenex(n *ast.PrenexStatement, arg *ast.PredicateArgument, b *Binding) {
+	if arg.Focus == nil || hasText(n.Prenex.BI, "pa") {
+		return
+	}
+	if b == nil {
+		// The binding may have been lifted.
+		b = interp.liftedScope[arg]
+	}
+	if b != nil {
+		// The argument will not be used, but it had focus.
+		// We don't want to lose that there was a focus word,
+		// so put it on the prenex term instead.
+		b.Focus = true
+	}
+}
+
 // original returns the AST node of a prenex statement,
 // which is the original predication in the case that it was re-written.
 func (interp *interpreter) original(n *ast.PrenexStatement) ast.Node {
-- 
2.43.0


From 548b63653ecbbb769436c62c4bc9cf3cb794027b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:48 +0000
Subject: [PATCH 41/42] fix: do-variables with a capital I are the same
 variable as with a small one

---
 logic/interp.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/logic/interp.go b/logic/interp.go
index 8d8202b..aff753b 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -1271,7 +1271,9 @@ func splitVar(txt string) (rune, string, bool) {
 			return tone.None, "", false
 		}
 	}
-	return oTones[i], strings.ToLower("do" + txt[w:]), true
+	// The lower case of I is i; the lower-case spelling used by the parser is ı.
+	name := strings.ReplaceAll(strings.ToLower("do"+txt[w:]), "i", "ı")
+	return oTones[i], name, true
 }
 
 func toString(node ast.Node) string {
-- 
2.43.0


From e75381a8aab796103dd5efc6d4cd978f37aaee5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:57 +0000
Subject: [PATCH 42/42] fix: the ASCII form of a syllable that ends with Q has
 its tone marker after the Q

---
 tone/tone.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tone/tone.go b/tone/tone.go
index e249141..f8bb1a6 100644
--- a/tone/tone.go
+++ b/tone/tone.go
@@ -160,7 +160,7 @@ func ToASCII(txt string) string {
 			continue
 		}
 		if t != None {
-			if !strings.ContainsRune(vowels, r) && r != 'q' {
+			if !strings.ContainsRune(vowels, r) && r != 'q' && r != 'Q' {
 				s.WriteRune(t)
 				t = None
 			}
-- 
2.43.0

