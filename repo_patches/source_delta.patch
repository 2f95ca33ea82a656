From 1808f613836771d5bed16822f6bc5089bc5aefe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:09 +0000
Subject: [PATCH 01/42] fix: return syntax errors from the parser instead of
 panicking and printing to stdout

---
 parser.go | 68 +++++++++++++++++++++++++++++++------------------------
 1 file changed, 38 insertions(+), 30 deletions(-)

diff --git a/parser.go b/parser.go
index f0c25ba..3dee3c1 100644
--- a/parser.go
+++ b/parser.go
@@ -3,7 +3,6 @@ package xsqlparser
 import (
 	"fmt"
 	"io"
-	"log"
 	"sort"
 	"strconv"
 	"strings"
@@ -61,6 +60,22 @@ func (p *Parser) SetTokens(tokens []*sqltoken.Token) {
 	p.tokens = tokens
 }
 
+// bailout carries a syntax error found by one of the expect/must helpers up to
+// the exported entry point, which returns it to the caller.
+type bailout struct {
+	err error
+}
+
+func handleBailout(err *error) {
+	if r := recover(); r != nil {
+		b, ok := r.(bailout)
+		if !ok {
+			panic(r)
+		}
+		*err = b.err
+	}
+}
+
 func (p *Parser) ParseFile() (*sqlast.File, error) {
 	stmts, err := p.ParseSQL()
 	if err != nil {
@@ -83,7 +98,9 @@ func (p *Parser) ParseFile() (*sqlast.File, error) {
 	}, nil
 }
 
-func (p *Parser) ParseSQL() ([]sqlast.Stmt, error) {
+func (p *Parser) ParseSQL() (_ []sqlast.Stmt, err error) {
+	defer handleBailout(&err)
+
 	var stmts []sqlast.Stmt
 	var expectingDelimiter bool
 
@@ -126,7 +143,9 @@ func (p *Parser) ParseSQL() ([]sqlast.Stmt, error) {
 	return stmts, nil
 }
 
-func (p *Parser) ParseStatement() (sqlast.Stmt, error) {
+func (p *Parser) ParseStatement() (_ sqlast.Stmt, err error) {
+	defer handleBailout(&err)
+
 	tok, err := p.nextToken()
 	if err != nil {
 		return nil, err
@@ -169,7 +188,9 @@ func (p *Parser) ParseStatement() (sqlast.Stmt, error) {
 	}
 }
 
-func (p *Parser) ParseDataType() (sqlast.Type, error) {
+func (p *Parser) ParseDataType() (_ sqlast.Type, err error) {
+	defer handleBailout(&err)
+
 	tok, err := p.nextToken()
 	if err != nil {
 		return nil, errors.Errorf("nextToken failed: %w", err)
@@ -296,7 +317,9 @@ func (p *Parser) ParseDataType() (sqlast.Type, error) {
 	}
 }
 
-func (p *Parser) ParseExpr() (sqlast.Node, error) {
+func (p *Parser) ParseExpr() (_ sqlast.Node, err error) {
+	defer handleBailout(&err)
+
 	return p.parseSubexpr(0)
 }
 
@@ -361,7 +384,7 @@ func (p *Parser) parseQueryBody(precedence uint8) (sqlast.SQLSetExpr, error) {
 			Query: subquery,
 		}
 	} else {
-		log.Panicln("expect SELECT or subquery in the query body")
+		return nil, errors.Errorf("expect SELECT or subquery in the query body")
 	}
 BODY_LOOP:
 	for {
@@ -538,9 +561,7 @@ func (p *Parser) parseCreate() (sqlast.Stmt, error) {
 		return p.parseCreateIndex(uiok)
 	}
 
-	log.Panicln("TABLE or VIEW or UNIQUE INDEX or INDEX after create")
-
-	return nil, nil
+	return nil, errors.Errorf("TABLE or VIEW or UNIQUE INDEX or INDEX after create")
 }
 
 func (p *Parser) parseCreateTable(create *sqltoken.Token) (sqlast.Stmt, error) {
@@ -679,7 +700,7 @@ func (p *Parser) parseElements() ([]sqlast.TableElement, error) {
 
 		t, _ := p.nextToken()
 		if t == nil || (t.Kind != sqltoken.Comma && t.Kind != sqltoken.RParen) {
-			log.Panicf("Expected ',' or ')' after column definition but %v", t)
+			return nil, errors.Errorf("Expected ',' or ')' after column definition but %v", t)
 		} else if t.Kind == sqltoken.RParen {
 			break
 		}
@@ -1006,7 +1027,6 @@ func (p *Parser) parseTableOptions() ([]sqlast.TableOption, error) {
 		}
 		opt, err := p.parseTableOption()
 		if err != nil {
-			p.Debug()
 			return nil, errors.Errorf("parseTableOption failed: %w", err)
 		}
 		opts = append(opts, opt)
@@ -1541,7 +1561,7 @@ func (p *Parser) parseOptionalAlias(reservedKeywords map[string]struct{}) *sqlas
 		}
 	}
 	if afterAs {
-		log.Panicf("expected an identifier after AS")
+		panic(bailout{errors.Errorf("expected an identifier after AS")})
 	}
 	p.prevToken()
 	return nil
@@ -2054,8 +2074,7 @@ func (p *Parser) parseInfix(expr sqlast.Node, precedence uint) (sqlast.Node, err
 		return p.parsePGCast(expr)
 	}
 
-	log.Panicf("no infix parser for sqltoken %+v", tok)
-	return nil, nil
+	return nil, errors.Errorf("no infix parser for sqltoken %+v", tok)
 }
 
 // TODO position
@@ -2367,8 +2386,7 @@ func (p *Parser) parsePrefix() (sqlast.Node, error) {
 		}
 		return ast, nil
 	}
-	log.Panicf("prefix parser expected a keyword but hit EOF")
-	return nil, nil
+	return nil, errors.Errorf("prefix parser expected an expression but %+v", tok)
 }
 
 func (p *Parser) parseFunction(name *sqlast.ObjectName) (sqlast.Node, error) {
@@ -2560,8 +2578,7 @@ func (p *Parser) parseWindowFrameBound() (sqlast.SQLWindowFrameBound, error) {
 	if ok, _, _ := p.parseKeyword("FOLLOWING"); ok {
 		return &sqlast.Following{Bound: rows}, nil
 	}
-	log.Panicln("expected PRECEDING or FOLLOWING")
-	return nil, nil
+	return nil, errors.Errorf("expected PRECEDING or FOLLOWING")
 }
 
 func (p *Parser) parseObjectName() (*sqlast.ObjectName, error) {
@@ -2869,11 +2886,7 @@ func (p *Parser) parseMyUnsigned() (bool, sqltoken.Pos) {
 func (p *Parser) expectKeyword(expected string) *sqltoken.Token {
 	ok, tok, err := p.parseKeyword(expected)
 	if err != nil || !ok {
-		for i := 0; i < int(p.index); i++ {
-			fmt.Printf("%v", p.tokens[i].Value)
-		}
-		fmt.Println()
-		log.Panicf("should be expected keyword: %s err: %v", expected, err)
+		panic(bailout{errors.Errorf("should be expected keyword: %s but %+v, err: %v", expected, tok, err)})
 	}
 
 	return tok
@@ -2883,12 +2896,7 @@ func (p *Parser) expectToken(expected sqltoken.Kind) {
 	ok, err := p.consumeToken(expected)
 	if err != nil || !ok {
 		tok, _ := p.peekToken()
-
-		for i := 0; i < int(p.index); i++ {
-			fmt.Printf("%v", p.tokens[i].Value)
-		}
-		fmt.Println()
-		log.Panicf("should be %s sqltoken, but %+v,  err: %+v", expected, tok, err)
+		panic(bailout{errors.Errorf("should be %s sqltoken, but %+v, err: %v", expected, tok, err)})
 	}
 }
 
@@ -2911,7 +2919,7 @@ func (p *Parser) consumeToken(expected sqltoken.Kind) (bool, error) {
 func (p *Parser) mustNextToken() *sqltoken.Token {
 	tok, err := p.nextToken()
 	if err != nil {
-		log.Panicf("%+v", err)
+		panic(bailout{err})
 	}
 
 	return tok
-- 
2.43.0


From 817bba30bf2e47ece99a85c8dd8ae014dc4326aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:35 +0000
Subject: [PATCH 02/42] fix: report unexpected end of input or token type as an
 error instead of crashing

---
 parser.go | 80 ++++++++++++++++++++++++++++++++-----------------------
 1 file changed, 46 insertions(+), 34 deletions(-)

diff --git a/parser.go b/parser.go
index 3dee3c1..da5af42 100644
--- a/parser.go
+++ b/parser.go
@@ -226,8 +226,8 @@ func (p *Parser) ParseDataType() (_ sqlast.Type, err error) {
 		unsigned, pos := p.parseMyUnsigned()
 		return &sqlast.Int{From: tok.From, To: tok.To, IsUnsigned: unsigned, Unsigned: pos}, nil
 	case "BIGINT":
-		unsigned, u, _ := p.parseKeyword("UNSIGNED")
-		return &sqlast.BigInt{From: tok.From, To: tok.To, IsUnsigned: unsigned, Unsigned: u.To}, nil
+		unsigned, pos := p.parseMyUnsigned()
+		return &sqlast.BigInt{From: tok.From, To: tok.To, IsUnsigned: unsigned, Unsigned: pos}, nil
 	case "VARCHAR":
 		p, r, err := p.parseOptionalPrecision()
 		if err != nil {
@@ -291,7 +291,7 @@ func (p *Parser) ParseDataType() (_ sqlast.Type, err error) {
 		}
 		p.prevToken()
 		r, _ := p.nextToken()
-		if r.Kind != sqltoken.RParen {
+		if r == nil || r.Kind != sqltoken.RParen {
 			return nil, errors.Errorf("expected RParen but %s", r)
 		}
 
@@ -528,7 +528,7 @@ func (p *Parser) parseSelectList() ([]sqlast.SQLSelectItem, error) {
 			}
 		}
 
-		if t, _ := p.peekToken(); t.Kind == sqltoken.Comma {
+		if t, _ := p.peekToken(); t != nil && t.Kind == sqltoken.Comma {
 			p.mustNextToken()
 		} else {
 			break
@@ -711,7 +711,10 @@ func (p *Parser) parseElements() ([]sqlast.TableElement, error) {
 
 func (p *Parser) parseColumnDef() (*sqlast.ColumnDef, error) {
 	tok := p.mustNextToken()
-	columnName := tok.Value.(*sqltoken.SQLWord)
+	columnName, ok := tok.Value.(*sqltoken.SQLWord)
+	if !ok {
+		return nil, errors.Errorf("expected column name but %+v", tok)
+	}
 
 	dataType, err := p.ParseDataType()
 	if err != nil {
@@ -757,6 +760,9 @@ func (p *Parser) parseTableConstraints() (*sqlast.TableConstraint, error) {
 	}
 
 	tok, _ = p.peekToken()
+	if tok == nil || tok.Kind != sqltoken.SQLKeyword {
+		return nil, errors.Errorf("unknown table constraint: %v", tok)
+	}
 
 	var spec sqlast.TableConstraintSpec
 	word = tok.Value.(*sqltoken.SQLWord)
@@ -772,7 +778,7 @@ func (p *Parser) parseTableConstraints() (*sqlast.TableConstraint, error) {
 			return nil, errors.Errorf("parseColumnNames failed: %w", err)
 		}
 		r, _ := p.nextToken()
-		if r.Kind != sqltoken.RParen {
+		if r == nil || r.Kind != sqltoken.RParen {
 			return nil, errors.Errorf("expected RParen but %+v", r)
 		}
 		spec = &sqlast.UniqueTableConstraint{
@@ -789,7 +795,7 @@ func (p *Parser) parseTableConstraints() (*sqlast.TableConstraint, error) {
 			return nil, errors.Errorf("parseColumnNames failed: %w", err)
 		}
 		r, _ := p.nextToken()
-		if r.Kind != sqltoken.RParen {
+		if r == nil || r.Kind != sqltoken.RParen {
 			return nil, errors.Errorf("expected RParen but %+v", r)
 		}
 		spec = &sqlast.UniqueTableConstraint{
@@ -810,11 +816,14 @@ func (p *Parser) parseTableConstraints() (*sqlast.TableConstraint, error) {
 		p.expectKeyword("REFERENCES")
 
 		t, _ := p.nextToken()
+		if t == nil || t.Kind != sqltoken.SQLKeyword {
+			return nil, errors.Errorf("expected referenced table name but %+v", t)
+		}
 		w := t.Value.(*sqltoken.SQLWord)
 		p.expectToken(sqltoken.LParen)
 		refcolumns, err := p.parseColumnNames()
 		r, _ := p.nextToken()
-		if r.Kind != sqltoken.RParen {
+		if r == nil || r.Kind != sqltoken.RParen {
 			return nil, errors.Errorf("expected RParen but %+v", r)
 		}
 		keys := &sqlast.ReferenceKeyExpr{
@@ -840,7 +849,7 @@ func (p *Parser) parseTableConstraints() (*sqlast.TableConstraint, error) {
 			return nil, errors.Errorf("ParseExpr failed: %w", err)
 		}
 		r, _ := p.nextToken()
-		if r.Kind != sqltoken.RParen {
+		if r == nil || r.Kind != sqltoken.RParen {
 			return nil, errors.Errorf("expected RParen but %+v", r)
 		}
 		spec = &sqlast.CheckTableConstraint{
@@ -928,7 +937,7 @@ CONSTRAINT_LOOP:
 		}
 
 		tok, _ = p.peekToken()
-		if tok.Kind != sqltoken.SQLKeyword {
+		if tok == nil || tok.Kind != sqltoken.SQLKeyword {
 			break
 		}
 
@@ -970,7 +979,7 @@ CONSTRAINT_LOOP:
 				return nil, errors.Errorf("parseColumnNames failed: %w", err)
 			}
 			r, _ := p.nextToken()
-			if r.Kind != sqltoken.RParen {
+			if r == nil || r.Kind != sqltoken.RParen {
 				return nil, errors.Errorf("expected RParen but %+v", r)
 			}
 			spec = &sqlast.ReferencesColumnSpec{
@@ -987,7 +996,7 @@ CONSTRAINT_LOOP:
 				return nil, errors.Errorf("ParseExpr failed: %w", err)
 			}
 			r, _ := p.nextToken()
-			if r.Kind != sqltoken.RParen {
+			if r == nil || r.Kind != sqltoken.RParen {
 				return nil, errors.Errorf("expected RParen but %+v", r)
 			}
 			spec = &sqlast.CheckColumnSpec{
@@ -1037,7 +1046,7 @@ func (p *Parser) parseTableOptions() ([]sqlast.TableOption, error) {
 
 func (p *Parser) parseTableOption() (sqlast.TableOption, error) {
 	tok, _ := p.peekToken()
-	if tok.Kind != sqltoken.SQLKeyword {
+	if tok == nil || tok.Kind != sqltoken.SQLKeyword {
 		return nil, errors.Errorf("must be SQLKeyword but: %v", tok)
 	}
 	word, _ := tok.Value.(*sqltoken.SQLWord)
@@ -1049,13 +1058,13 @@ func (p *Parser) parseTableOption() (sqlast.TableOption, error) {
 			Engine: tok.From,
 		}
 		t, _ := p.peekToken()
-		if t.Kind == sqltoken.Eq {
+		if t != nil && t.Kind == sqltoken.Eq {
 			opt.Equal = true
 			p.mustNextToken()
 			t, _ = p.peekToken()
 		}
 
-		if t.Kind != sqltoken.SQLKeyword {
+		if t == nil || t.Kind != sqltoken.SQLKeyword {
 			return nil, errors.Errorf("expected '=' or 'engine_name' but: %v", t)
 		}
 		name, _ := p.parseIdentifier()
@@ -1073,13 +1082,13 @@ func (p *Parser) parseTableOption() (sqlast.TableOption, error) {
 		opt.Charset = t.From
 
 		t, _ = p.peekToken()
-		if t.Kind == sqltoken.Eq {
+		if t != nil && t.Kind == sqltoken.Eq {
 			opt.Equal = true
 			p.mustNextToken()
 			t, _ = p.peekToken()
 		}
 
-		if t.Kind != sqltoken.SQLKeyword {
+		if t == nil || t.Kind != sqltoken.SQLKeyword {
 			return nil, errors.Errorf("expected '=' or 'charset_name' but: %v", t)
 		}
 
@@ -1093,13 +1102,13 @@ func (p *Parser) parseTableOption() (sqlast.TableOption, error) {
 			Charset: tok.From,
 		}
 		t, _ := p.peekToken()
-		if t.Kind == sqltoken.Eq {
+		if t != nil && t.Kind == sqltoken.Eq {
 			opt.Equal = true
 			p.mustNextToken()
 			t, _ = p.peekToken()
 		}
 
-		if t.Kind != sqltoken.SQLKeyword {
+		if t == nil || t.Kind != sqltoken.SQLKeyword {
 			return nil, errors.Errorf("expected '=' or 'charset_name' but: %v", t)
 		}
 
@@ -1177,7 +1186,7 @@ func (p *Parser) parseAssignments() ([]*sqlast.Assignment, error) {
 
 	for {
 		tok, _ := p.nextToken()
-		if tok.Kind != sqltoken.SQLKeyword {
+		if tok == nil || tok.Kind != sqltoken.SQLKeyword {
 			return nil, errors.Errorf("should be sqlkeyword but %v", tok)
 		}
 
@@ -1238,7 +1247,7 @@ func (p *Parser) parseInsert() (sqlast.Stmt, error) {
 		var constSrc sqlast.ConstructorSource
 		for {
 			l, _ := p.nextToken()
-			if l.Kind != sqltoken.LParen {
+			if l == nil || l.Kind != sqltoken.LParen {
 				return nil, errors.Errorf("expected LParen but %+v", l)
 			}
 			v, err := p.parseExprList()
@@ -1246,7 +1255,7 @@ func (p *Parser) parseInsert() (sqlast.Stmt, error) {
 				return nil, errors.Errorf("invalid insert value assign: %w", err)
 			}
 			r, _ := p.nextToken()
-			if r.Kind != sqltoken.RParen {
+			if r == nil || r.Kind != sqltoken.RParen {
 				return nil, errors.Errorf("expected RParen but %+v", r)
 			}
 			constSrc.Rows = append(constSrc.Rows, &sqlast.RowValueExpr{
@@ -1752,7 +1761,10 @@ func (p *Parser) parseTableReferenceRight() (sqlast.TableReference, error) {
 }
 
 func (p *Parser) parseJoinType() (*sqlast.JoinType, error) {
-	tok, _ := p.nextToken()
+	tok, err := p.nextToken()
+	if err != nil {
+		return nil, errors.Errorf("nextToken failed: %w", err)
+	}
 	word, ok := tok.Value.(*sqltoken.SQLWord)
 	if !ok {
 		return nil, errors.Errorf("unknown join type %v", tok)
@@ -2101,7 +2113,7 @@ func (p *Parser) parseIn(expr sqlast.Node, negated bool) (sqlast.Node, error) {
 			return nil, errors.Errorf("parseQuery failed: %w", err)
 		}
 		r, _ := p.nextToken()
-		if r.Kind != sqltoken.RParen {
+		if r == nil || r.Kind != sqltoken.RParen {
 			return nil, errors.Errorf("expected RParen but %+v", r)
 		}
 		inop = &sqlast.InSubQuery{
@@ -2116,7 +2128,7 @@ func (p *Parser) parseIn(expr sqlast.Node, negated bool) (sqlast.Node, error) {
 			return nil, errors.Errorf("parseExprList failed: %w", err)
 		}
 		r, _ := p.nextToken()
-		if r.Kind != sqltoken.RParen {
+		if r == nil || r.Kind != sqltoken.RParen {
 			return nil, errors.Errorf("expected RParen but %+v", r)
 		}
 		inop = &sqlast.InList{
@@ -2361,7 +2373,7 @@ func (p *Parser) parsePrefix() (sqlast.Node, error) {
 				return nil, errors.Errorf("parseQuery failed: %w", err)
 			}
 			r, _ := p.nextToken()
-			if r.Kind != sqltoken.RParen {
+			if r == nil || r.Kind != sqltoken.RParen {
 				return nil, errors.Errorf("expected RParen but %+v", r)
 			}
 			ast = &sqlast.SubQuery{
@@ -2375,7 +2387,7 @@ func (p *Parser) parsePrefix() (sqlast.Node, error) {
 				return nil, errors.Errorf("parseQuery failed: %w", err)
 			}
 			r, _ := p.nextToken()
-			if r.Kind != sqltoken.RParen {
+			if r == nil || r.Kind != sqltoken.RParen {
 				return nil, errors.Errorf("expected RParen but %+v", r)
 			}
 			ast = &sqlast.Nested{
@@ -2397,7 +2409,7 @@ func (p *Parser) parseFunction(name *sqlast.ObjectName) (sqlast.Node, error) {
 	}
 
 	r, _ := p.nextToken()
-	if r.Kind != sqltoken.RParen {
+	if r == nil || r.Kind != sqltoken.RParen {
 		return nil, errors.Errorf("expected RParen but %+v", r)
 	}
 
@@ -2504,7 +2516,7 @@ func (p *Parser) parseOrderByExprList() ([]*sqlast.OrderByExpr, error) {
 func (p *Parser) parseWindowFrame() (*sqlast.WindowFrame, error) {
 	var windowFrame *sqlast.WindowFrame
 	t, _ := p.peekToken()
-	if t.Kind == sqltoken.SQLKeyword {
+	if t != nil && t.Kind == sqltoken.SQLKeyword {
 		w := t.Value.(*sqltoken.SQLWord)
 		var u sqlast.WindowFrameUnit
 
@@ -2674,7 +2686,7 @@ func (p *Parser) parseOptionalPrecision() (*uint, sqltoken.Pos, error) {
 		}
 		tok, _ := p.nextToken()
 
-		if tok.Kind != sqltoken.RParen {
+		if tok == nil || tok.Kind != sqltoken.RParen {
 			return nil, sqltoken.Pos{}, errors.Errorf("expected RParen but %s", tok)
 		}
 		i := uint(n)
@@ -2708,8 +2720,8 @@ func (p *Parser) parseOptionalPrecisionScale() (*uint, *uint, error) {
 
 func (p *Parser) parseLiteralInt() (int, *sqltoken.Token, error) {
 	tok, _ := p.nextToken()
-	if tok.Kind != sqltoken.Number {
-		return 0, nil, errors.Errorf("expect literal int but %v", tok.Kind)
+	if tok == nil || tok.Kind != sqltoken.Number {
+		return 0, nil, errors.Errorf("expect literal int but %v", tok)
 	}
 	istr := tok.Value.(string)
 	i, err := strconv.Atoi(istr)
@@ -2829,7 +2841,7 @@ func (p *Parser) parseCastExpression() (sqlast.Node, error) {
 		return nil, errors.Errorf("ParseDataType")
 	}
 	r, _ := p.nextToken()
-	if r.Kind != sqltoken.RParen {
+	if r == nil || r.Kind != sqltoken.RParen {
 		return nil, errors.Errorf("expect RParen but %+v", r)
 	}
 
@@ -2854,7 +2866,7 @@ func (p *Parser) parseExistsExpression(negatedTok *sqltoken.Token) (sqlast.Node,
 	}
 
 	r, _ := p.nextToken()
-	if r.Kind != sqltoken.RParen {
+	if r == nil || r.Kind != sqltoken.RParen {
 		return nil, errors.Errorf("expect RParen but %+v", r)
 	}
 
-- 
2.43.0


From 31634b8727523f30ca5e83cf9389d56ff85c0cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:37 +0000
Subject: [PATCH 03/42] fix: accept a final statement without a trailing
 semicolon in ParseSQL

---
 parser.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index da5af42..cc70892 100644
--- a/parser.go
+++ b/parser.go
@@ -107,8 +107,9 @@ func (p *Parser) ParseSQL() (_ []sqlast.Stmt, err error) {
 	for {
 		ok, _ := p.consumeToken(sqltoken.Semicolon)
 		if !ok && expectingDelimiter {
-			tok, _ := p.peekToken()
-			return nil, errors.Errorf("expect semicolon but %+v", tok)
+			if tok, _ := p.peekToken(); tok != nil {
+				return nil, errors.Errorf("expect semicolon but %+v", tok)
+			}
 		}
 
 		if p.parseComment {
-- 
2.43.0


From 4ad06a553ba0d2fdba1b7967425e7fe13c2dbf9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:17 +0000
Subject: [PATCH 04/42] fix: keep the joins to the left of a CROSS JOIN

---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index cc70892..fe8edd5 100644
--- a/parser.go
+++ b/parser.go
@@ -1653,7 +1653,7 @@ func (p *Parser) parseTableReference() (sqlast.TableReference, error) {
 			}
 			e = rtp
 		case *sqlast.CrossJoin:
-			rtp.Reference = leftElem
+			rtp.Reference = e
 			e = rtp
 		case *sqlast.QualifiedJoin:
 			rtp.LeftElement = &sqlast.TableJoinElement{
-- 
2.43.0


From a17be42f7ae9e2fbe734b48739f0a3161cf8287e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:18 +0000
Subject: [PATCH 05/42] fix: keep column constraints written before a DEFAULT
 or AUTO_INCREMENT clause

---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index fe8edd5..72abbb4 100644
--- a/parser.go
+++ b/parser.go
@@ -899,7 +899,7 @@ COLUMN_DEF_LOOP:
 			if err != nil {
 				return nil, nil, nil, errors.Errorf("parseColumnConstraints failed: %w", err)
 			}
-			specs = s
+			specs = append(specs, s...)
 		case "AUTO_INCREMENT":
 			p.mustNextToken()
 			decorates = append(decorates, &sqlast.AutoIncrement{
-- 
2.43.0


From 7db388bd5cf2ec11360dc0d29888fe146e1c47b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:20 +0000
Subject: [PATCH 06/42] fix: reject a named column constraint that has no body
 instead of dropping it

---
 parser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser.go b/parser.go
index 72abbb4..539a452 100644
--- a/parser.go
+++ b/parser.go
@@ -939,6 +939,9 @@ CONSTRAINT_LOOP:
 
 		tok, _ = p.peekToken()
 		if tok == nil || tok.Kind != sqltoken.SQLKeyword {
+			if name != nil {
+				return nil, errors.Errorf("expected column constraint but %+v", tok)
+			}
 			break
 		}
 
@@ -1006,6 +1009,9 @@ CONSTRAINT_LOOP:
 				RParen: r.To,
 			}
 		default:
+			if name != nil {
+				return nil, errors.Errorf("unknown column constraint: %v", word)
+			}
 			break CONSTRAINT_LOOP
 		}
 
-- 
2.43.0


From 0ae709769c558cc5e41e35cc38fdd841124df1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:21 +0000
Subject: [PATCH 07/42] fix: keep MATERIALIZED when parsing CREATE MATERIALIZED
 VIEW

---
 parser.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index 539a452..63bcdea 100644
--- a/parser.go
+++ b/parser.go
@@ -548,9 +548,13 @@ func (p *Parser) parseCreate() (sqlast.Stmt, error) {
 	}
 
 	mok, _, _ := p.parseKeyword("MATERIALIZED")
-	vok, _, _ := p.parseKeyword("VIEW")
+	if mok {
+		p.prevToken()
+		return p.parseCreateView(t)
+	}
 
-	if mok || vok {
+	vok, _, _ := p.parseKeyword("VIEW")
+	if vok {
 		p.prevToken()
 		return p.parseCreateView(t)
 	}
-- 
2.43.0


From 89c64b86738d8568720db90e292613831a9ce302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:22 +0000
Subject: [PATCH 08/42] fix: consume the closing parenthesis of table function
 arguments

---
 parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser.go b/parser.go
index 63bcdea..a8362bc 100644
--- a/parser.go
+++ b/parser.go
@@ -1882,6 +1882,7 @@ func (p *Parser) parseTableFactor() (sqlast.TableFactor, error) {
 			return nil, errors.Errorf("parseOptionalArgs failed: %w", err)
 		}
 		args = a
+		p.expectToken(sqltoken.RParen)
 	}
 	alias := p.parseOptionalAlias(dialect.ReservedForTableAlias)
 
-- 
2.43.0


From 95b62d3cafa197a5914b74c370b9aaaf00de0c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:24 +0000
Subject: [PATCH 09/42] fix: parse comma separated table options

---
 parser.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/parser.go b/parser.go
index a8362bc..354f2f0 100644
--- a/parser.go
+++ b/parser.go
@@ -1040,9 +1040,8 @@ func (p *Parser) parseTableOptions() ([]sqlast.TableOption, error) {
 		}
 
 		if tok.Kind == sqltoken.Comma {
-			tok = p.mustNextToken()
-		}
-		if tok.Kind != sqltoken.SQLKeyword {
+			p.mustNextToken()
+		} else if tok.Kind != sqltoken.SQLKeyword {
 			break
 		}
 		opt, err := p.parseTableOption()
-- 
2.43.0


From d4142dd40087d7e286ac1d129fa91bf1d4f477c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:25 +0000
Subject: [PATCH 10/42] fix: propagate errors the parser dropped, including
 out-of-range integer literals

---
 parser.go | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/parser.go b/parser.go
index 354f2f0..169ac58 100644
--- a/parser.go
+++ b/parser.go
@@ -827,6 +827,9 @@ func (p *Parser) parseTableConstraints() (*sqlast.TableConstraint, error) {
 		w := t.Value.(*sqltoken.SQLWord)
 		p.expectToken(sqltoken.LParen)
 		refcolumns, err := p.parseColumnNames()
+		if err != nil {
+			return nil, errors.Errorf("parseColumnNames failed: %w", err)
+		}
 		r, _ := p.nextToken()
 		if r == nil || r.Kind != sqltoken.RParen {
 			return nil, errors.Errorf("expected RParen but %+v", r)
@@ -1077,7 +1080,10 @@ func (p *Parser) parseTableOption() (sqlast.TableOption, error) {
 		if t == nil || t.Kind != sqltoken.SQLKeyword {
 			return nil, errors.Errorf("expected '=' or 'engine_name' but: %v", t)
 		}
-		name, _ := p.parseIdentifier()
+		name, err := p.parseIdentifier()
+		if err != nil {
+			return nil, errors.Errorf("parseIdentifier failed: %w", err)
+		}
 		opt.Name = name
 		return opt, nil
 	case "DEFAULT":
@@ -1102,7 +1108,10 @@ func (p *Parser) parseTableOption() (sqlast.TableOption, error) {
 			return nil, errors.Errorf("expected '=' or 'charset_name' but: %v", t)
 		}
 
-		name, _ := p.parseIdentifier()
+		name, err := p.parseIdentifier()
+		if err != nil {
+			return nil, errors.Errorf("parseIdentifier failed: %w", err)
+		}
 
 		opt.Name = name
 
@@ -1122,7 +1131,10 @@ func (p *Parser) parseTableOption() (sqlast.TableOption, error) {
 			return nil, errors.Errorf("expected '=' or 'charset_name' but: %v", t)
 		}
 
-		name, _ := p.parseIdentifier()
+		name, err := p.parseIdentifier()
+		if err != nil {
+			return nil, errors.Errorf("parseIdentifier failed: %w", err)
+		}
 		opt.Name = name
 
 		return opt, nil
@@ -1554,7 +1566,7 @@ func (p *Parser) parseDefaultExpr(precedence uint) (sqlast.Node, error) {
 		}
 		expr, err = p.parseInfix(expr, nextPrecedence)
 		if err != nil {
-			return nil, errors.Errorf("parseInfix failed: %w")
+			return nil, errors.Errorf("parseInfix failed: %w", err)
 		}
 	}
 	return expr, nil
@@ -2368,7 +2380,7 @@ func (p *Parser) parsePrefix() (sqlast.Node, error) {
 		p.prevToken()
 		v, err := p.parseSQLValue()
 		if err != nil {
-			return nil, errors.Errorf("parseSQLValue failed", err)
+			return nil, errors.Errorf("parseSQLValue failed: %w", err)
 		}
 		return v, nil
 	case sqltoken.LParen:
@@ -2654,7 +2666,7 @@ func (p *Parser) parseValue() (sqlast.Node, error) {
 		if strings.Contains(num, ".") {
 			f, err := strconv.ParseFloat(num, 64)
 			if err != nil {
-				return nil, errors.Errorf("parseFloat failed %s", num)
+				return nil, errors.Errorf("parseFloat failed %s: %w", num, err)
 			}
 			return &sqlast.DoubleValue{
 				From:   tok.From,
@@ -2662,9 +2674,12 @@ func (p *Parser) parseValue() (sqlast.Node, error) {
 				Double: f,
 			}, nil
 		} else {
-			i, _ := strconv.Atoi(num)
+			i, err := strconv.ParseInt(num, 10, 64)
+			if err != nil {
+				return nil, errors.Errorf("parseInt failed %s: %w", num, err)
+			}
 			return &sqlast.LongValue{
-				Long: int64(i),
+				Long: i,
 				From: tok.From,
 				To:   tok.To,
 			}, nil
@@ -2849,7 +2864,7 @@ func (p *Parser) parseCastExpression() (sqlast.Node, error) {
 	p.expectKeyword("AS")
 	dataType, err := p.ParseDataType()
 	if err != nil {
-		return nil, errors.Errorf("ParseDataType")
+		return nil, errors.Errorf("ParseDataType failed: %w", err)
 	}
 	r, _ := p.nextToken()
 	if r == nil || r.Kind != sqltoken.RParen {
-- 
2.43.0


From 1163ad19ed293f5b6eb8179ca838e5f8d879a0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:28 +0000
Subject: [PATCH 11/42] fix: accept NUMERIC without a precision

---
 parser.go | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/parser.go b/parser.go
index 169ac58..13d0d29 100644
--- a/parser.go
+++ b/parser.go
@@ -286,22 +286,16 @@ func (p *Parser) ParseDataType() (_ sqlast.Type, err error) {
 	case "BYTEA":
 		return &sqlast.Bytea{}, nil
 	case "NUMERIC":
-		precision, scale, err := p.parseOptionalPrecisionScale()
+		precision, scale, r, err := p.parseOptionalPrecisionScale()
 		if err != nil {
 			return nil, errors.Errorf("parseOptionalPrecisionScale failed: %w", err)
 		}
-		p.prevToken()
-		r, _ := p.nextToken()
-		if r == nil || r.Kind != sqltoken.RParen {
-			return nil, errors.Errorf("expected RParen but %s", r)
-		}
-
 		unsigned, pos := p.parseMyUnsigned()
 		return &sqlast.Decimal{
 			Precision:  precision,
 			Scale:      scale,
 			Numeric:    tok.From,
-			RParen:     r.To,
+			RParen:     r,
 			IsUnsigned: unsigned,
 			Unsigned:   pos,
 		}, nil
@@ -2722,26 +2716,29 @@ func (p *Parser) parseOptionalPrecision() (*uint, sqltoken.Pos, error) {
 	}
 }
 
-func (p *Parser) parseOptionalPrecisionScale() (*uint, *uint, error) {
+func (p *Parser) parseOptionalPrecisionScale() (*uint, *uint, sqltoken.Pos, error) {
 	if ok, _ := p.consumeToken(sqltoken.LParen); !ok {
-		return nil, nil, nil
+		return nil, nil, sqltoken.Pos{}, nil
 	}
 	n, _, err := p.parseLiteralInt()
 	if err != nil {
-		return nil, nil, errors.Errorf("parseLiteralInt failed: %w", err)
+		return nil, nil, sqltoken.Pos{}, errors.Errorf("parseLiteralInt failed: %w", err)
 	}
 	var scale *uint
 	if ok, _ := p.consumeToken(sqltoken.Comma); ok {
 		s, _, err := p.parseLiteralInt()
 		if err != nil {
-			return nil, nil, errors.Errorf("parseLiteralInt failed: %w", err)
+			return nil, nil, sqltoken.Pos{}, errors.Errorf("parseLiteralInt failed: %w", err)
 		}
 		us := uint(s)
 		scale = &us
 	}
-	p.expectToken(sqltoken.RParen)
+	r, _ := p.nextToken()
+	if r == nil || r.Kind != sqltoken.RParen {
+		return nil, nil, sqltoken.Pos{}, errors.Errorf("expected RParen but %+v", r)
+	}
 	i := uint(n)
-	return &i, scale, nil
+	return &i, scale, r.To, nil
 }
 
 func (p *Parser) parseLiteralInt() (int, *sqltoken.Token, error) {
-- 
2.43.0


From aef8f87445d7450d8a217efbe50985ec483e8d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:30 +0000
Subject: [PATCH 12/42] fix: keep WITH TIME ZONE of a TIME column

---
 parser.go      |  2 +-
 sqlast/type.go | 13 ++++++++-----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/parser.go b/parser.go
index 13d0d29..93daf45 100644
--- a/parser.go
+++ b/parser.go
@@ -272,7 +272,7 @@ func (p *Parser) ParseDataType() (_ sqlast.Type, err error) {
 			p.expectKeyword("TIME")
 			p.expectKeyword("ZONE")
 		}
-		return &sqlast.Time{}, nil
+		return &sqlast.Time{WithTimeZone: wok}, nil
 	case "REGCLASS":
 		return &sqlast.Regclass{}, nil
 	case "TEXT":
diff --git a/sqlast/type.go b/sqlast/type.go
index d1445ff..27e7fb3 100644
--- a/sqlast/type.go
+++ b/sqlast/type.go
@@ -403,7 +403,8 @@ func (*Date) WriteTo(w io.Writer) (int64, error) {
 }
 
 type Time struct {
-	From, To sqltoken.Pos
+	From, To     sqltoken.Pos
+	WithTimeZone bool
 }
 
 func (t *Time) Pos() sqltoken.Pos {
@@ -414,12 +415,14 @@ func (t *Time) End() sqltoken.Pos {
 	return t.To
 }
 
-func (*Time) ToSQLString() string {
-	return "time"
+func (t *Time) ToSQLString() string {
+	return toSQLString(t)
 }
 
-func (*Time) WriteTo(w io.Writer) (int64, error) {
-	return writeSingleBytes(w, []byte("time"))
+func (t *Time) WriteTo(w io.Writer) (int64, error) {
+	sw := newSQLWriter(w)
+	sw.Bytes([]byte("time")).If(t.WithTimeZone, []byte(" with time zone"))
+	return sw.End()
 }
 
 type Timestamp struct {
-- 
2.43.0


From eefa661cc5ff30d28b05496e84713eccfcae190a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:31 +0000
Subject: [PATCH 13/42] fix: reject WITH followed by WITHOUT in a time zone
 clause

---
 parser.go | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/parser.go b/parser.go
index 93daf45..52b51f0 100644
--- a/parser.go
+++ b/parser.go
@@ -255,23 +255,13 @@ func (p *Parser) ParseDataType() (_ sqlast.Type, err error) {
 	case "DATE":
 		return &sqlast.Date{}, nil
 	case "TIMESTAMP":
-		wok, _, _ := p.parseKeyword("WITH")
-		ook, _, _ := p.parseKeyword("WITHOUT")
-		if wok || ook {
-			p.expectKeyword("TIME")
-			p.expectKeyword("ZONE")
-		}
+		wok := p.parseOptionalTimeZone()
 		return &sqlast.Timestamp{
 			Timestamp:    tok.From,
 			WithTimeZone: wok,
 		}, nil
 	case "TIME":
-		wok, _, _ := p.parseKeyword("WITH")
-		ook, _, _ := p.parseKeyword("WITHOUT")
-		if wok || ook {
-			p.expectKeyword("TIME")
-			p.expectKeyword("ZONE")
-		}
+		wok := p.parseOptionalTimeZone()
 		return &sqlast.Time{WithTimeZone: wok}, nil
 	case "REGCLASS":
 		return &sqlast.Regclass{}, nil
@@ -2910,6 +2900,18 @@ func (p *Parser) parseExistsExpression(negatedTok *sqltoken.Token) (sqlast.Node,
 	}, nil
 }
 
+func (p *Parser) parseOptionalTimeZone() bool {
+	with, _, _ := p.parseKeyword("WITH")
+	if !with {
+		if ok, _, _ := p.parseKeyword("WITHOUT"); !ok {
+			return false
+		}
+	}
+	p.expectKeyword("TIME")
+	p.expectKeyword("ZONE")
+	return with
+}
+
 func (p *Parser) parseMyUnsigned() (bool, sqltoken.Pos) {
 	if ok, u, _ := p.parseKeyword("UNSIGNED"); ok {
 		return ok, u.To
-- 
2.43.0


From 06e520cf1216ccc8dd92005056328fc6cb8383c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:14 +0000
Subject: [PATCH 14/42] fix: parse BETWEEN bounds and negated predicates with
 the precedence of a comparison

---
 parser.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/parser.go b/parser.go
index 52b51f0..e167211 100644
--- a/parser.go
+++ b/parser.go
@@ -2084,7 +2084,7 @@ func (p *Parser) parseInfix(expr sqlast.Node, precedence uint) (sqlast.Node, err
 				return p.parseIn(expr, negated)
 			}
 			if ok, _, _ := p.parseKeyword("BETWEEN"); ok {
-				return p.parseBetween(expr, negated)
+				return p.parseBetween(expr, negated, precedence)
 			}
 		}
 	}
@@ -2148,15 +2148,16 @@ func (p *Parser) parseIn(expr sqlast.Node, negated bool) (sqlast.Node, error) {
 	return inop, nil
 }
 
-func (p *Parser) parseBetween(expr sqlast.Node, negated bool) (sqlast.Node, error) {
-	low, err := p.parsePrefix()
+func (p *Parser) parseBetween(expr sqlast.Node, negated bool, precedence uint) (sqlast.Node, error) {
+	// The bounds bind tighter than the AND between them, and than BETWEEN itself.
+	low, err := p.parseSubexpr(precedence)
 	if err != nil {
-		return nil, errors.Errorf("parsePrefix: %w", err)
+		return nil, errors.Errorf("parseSubexpr failed: %w", err)
 	}
 	p.expectKeyword("AND")
-	high, err := p.parsePrefix()
+	high, err := p.parseSubexpr(precedence)
 	if err != nil {
-		return nil, errors.Errorf("parsePrefix: %w", err)
+		return nil, errors.Errorf("parseSubexpr failed: %w", err)
 	}
 
 	return &sqlast.Between{
@@ -2173,6 +2174,10 @@ func (p *Parser) getNextPrecedence() (uint, error) {
 	if tok == nil {
 		return 0, nil
 	}
+	// An infix NOT starts NOT LIKE, NOT IN or NOT BETWEEN and binds like those.
+	if tok.Kind == sqltoken.SQLKeyword && tok.Value.(*sqltoken.SQLWord).Keyword == "NOT" {
+		return 20, nil
+	}
 	return p.getPrecedence(tok), nil
 }
 
-- 
2.43.0


From afeea3a67409cd9c1c0df271f1c5b04bed84fd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:16 +0000
Subject: [PATCH 15/42] fix: do not take HAVING, LIMIT or ON for an implicit
 alias

---
 dialect/keywords.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dialect/keywords.go b/dialect/keywords.go
index 07f152e..b2fa3cf 100644
--- a/dialect/keywords.go
+++ b/dialect/keywords.go
@@ -359,6 +359,8 @@ func init() {
 	ReservedForTableAlias[SELECT] = struct{}{}
 	ReservedForTableAlias[WHERE] = struct{}{}
 	ReservedForTableAlias[GROUP] = struct{}{}
+	ReservedForTableAlias[HAVING] = struct{}{}
+	ReservedForTableAlias[LIMIT] = struct{}{}
 	ReservedForTableAlias[ORDER] = struct{}{}
 	ReservedForTableAlias[UNION] = struct{}{}
 	ReservedForTableAlias[EXCEPT] = struct{}{}
@@ -378,6 +380,9 @@ func init() {
 	ReservedForColumnAlias[SELECT] = struct{}{}
 	ReservedForColumnAlias[WHERE] = struct{}{}
 	ReservedForColumnAlias[GROUP] = struct{}{}
+	ReservedForColumnAlias[HAVING] = struct{}{}
+	ReservedForColumnAlias[LIMIT] = struct{}{}
+	ReservedForColumnAlias[ON] = struct{}{}
 	ReservedForColumnAlias[ORDER] = struct{}{}
 	ReservedForColumnAlias[UNION] = struct{}{}
 	ReservedForColumnAlias[EXCEPT] = struct{}{}
-- 
2.43.0


From 2547c9c15d8591d48b574f4adb265595e8da3c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:18 +0000
Subject: [PATCH 16/42] fix: never take a quoted identifier for a keyword

---
 parser.go | 57 ++++++++++++++++++++++++++++++++-----------------------
 1 file changed, 33 insertions(+), 24 deletions(-)

diff --git a/parser.go b/parser.go
index e167211..bdb895c 100644
--- a/parser.go
+++ b/parser.go
@@ -156,7 +156,7 @@ func (p *Parser) ParseStatement() (_ sqlast.Stmt, err error) {
 		return nil, errors.Errorf("a keyword at the beginning of statement %s", tok.Value)
 	}
 
-	switch word.Keyword {
+	switch keywordOf(word) {
 	case "SELECT", "WITH":
 		p.prevToken()
 		return p.parseQuery()
@@ -185,7 +185,7 @@ func (p *Parser) ParseStatement() (_ sqlast.Stmt, err error) {
 		}
 		return &sqlast.ExplainStmt{Stmt: stmt}, nil
 	default:
-		return nil, errors.Errorf("unexpected (or unsupported) keyword %s", word.Keyword)
+		return nil, errors.Errorf("unexpected (or unsupported) keyword %s", keywordOf(word))
 	}
 }
 
@@ -201,7 +201,7 @@ func (p *Parser) ParseDataType() (_ sqlast.Type, err error) {
 		return nil, errors.Errorf("must be datatype name but %v", tok)
 	}
 
-	switch word.Keyword {
+	switch keywordOf(word) {
 	case "BOOLEAN":
 		return &sqlast.Boolean{
 			From: tok.From,
@@ -413,7 +413,7 @@ func (p *Parser) parseSetOperator(token *sqltoken.Token) sqlast.SQLSetOperator {
 		return nil
 	}
 	word := token.Value.(*sqltoken.SQLWord)
-	switch word.Keyword {
+	switch keywordOf(word) {
 	case "UNION":
 		return &sqlast.UnionOperator{}
 	case "EXCEPT":
@@ -668,7 +668,7 @@ func (p *Parser) parseElements() ([]sqlast.TableElement, error) {
 		}
 
 		word := tok.Value.(*sqltoken.SQLWord)
-		switch word.Keyword {
+		switch keywordOf(word) {
 		case "CONSTRAINT", "PRIMARY", "CHECK", "FOREIGN", "UNIQUE":
 			p.prevToken()
 			constraints, err := p.parseTableConstraints()
@@ -738,7 +738,7 @@ func (p *Parser) parseTableConstraints() (*sqlast.TableConstraint, error) {
 
 	var constraintPos sqltoken.Pos
 	var name *sqlast.Ident
-	if ok && word.Keyword == "CONSTRAINT" {
+	if ok && keywordOf(word) == "CONSTRAINT" {
 		constraintPos = tok.From
 		p.mustNextToken()
 		i, err := p.parseIdentifier()
@@ -755,7 +755,7 @@ func (p *Parser) parseTableConstraints() (*sqlast.TableConstraint, error) {
 
 	var spec sqlast.TableConstraintSpec
 	word = tok.Value.(*sqltoken.SQLWord)
-	switch word.Keyword {
+	switch keywordOf(word) {
 	case "UNIQUE":
 		p.mustNextToken()
 		if _, _, err := p.parseKeyword("KEY"); err != nil {
@@ -875,7 +875,7 @@ COLUMN_DEF_LOOP:
 
 		word := t.Value.(*sqltoken.SQLWord)
 
-		switch word.Keyword {
+		switch keywordOf(word) {
 		case "DEFAULT":
 			if ok, _, _ := p.parseKeyword("DEFAULT"); ok {
 				d, err := p.parseDefaultExpr(0)
@@ -919,7 +919,7 @@ CONSTRAINT_LOOP:
 		word, ok := tok.Value.(*sqltoken.SQLWord)
 
 		var name *sqlast.Ident
-		if ok && word.Keyword == "CONSTRAINT" {
+		if ok && keywordOf(word) == "CONSTRAINT" {
 			p.mustNextToken()
 			i, err := p.parseIdentifier()
 			if err != nil {
@@ -939,7 +939,7 @@ CONSTRAINT_LOOP:
 		var spec sqlast.ColumnConstraintSpec
 
 		word = tok.Value.(*sqltoken.SQLWord)
-		switch word.Keyword {
+		switch keywordOf(word) {
 		case "NOT":
 			p.mustNextToken()
 			ok, ntok, _ := p.parseKeyword("NULL")
@@ -1049,7 +1049,7 @@ func (p *Parser) parseTableOption() (sqlast.TableOption, error) {
 	word, _ := tok.Value.(*sqltoken.SQLWord)
 
 	p.mustNextToken()
-	switch word.Keyword {
+	switch keywordOf(word) {
 	case "ENGINE":
 		opt := &sqlast.MyEngine{
 			Engine: tok.From,
@@ -1458,7 +1458,7 @@ func (p *Parser) parseAlterColumn(alt *sqltoken.Token) (*sqlast.AlterColumnTable
 
 	word := tok.Value.(*sqltoken.SQLWord)
 
-	switch word.Keyword {
+	switch keywordOf(word) {
 	case "SET":
 		if ok, _, _ := p.parseKeyword("DEFAULT"); ok {
 			def, err := p.parseDefaultExpr(0)
@@ -1536,7 +1536,7 @@ func (p *Parser) parseDefaultExpr(precedence uint) (sqlast.Node, error) {
 		tok, _ := p.peekToken()
 		if tok != nil && tok.Kind == sqltoken.SQLKeyword {
 			w := tok.Value.(*sqltoken.SQLWord)
-			if w.Keyword == "NOT" || w.Keyword == "NULL" {
+			if keywordOf(w) == "NOT" || keywordOf(w) == "NULL" {
 				break
 			}
 		}
@@ -1567,7 +1567,7 @@ func (p *Parser) parseOptionalAlias(reservedKeywords map[string]struct{}) *sqlas
 	if maybeAlias.Kind == sqltoken.SQLKeyword {
 
 		word := maybeAlias.Value.(*sqltoken.SQLWord)
-		if afterAs || !containsStr(reservedKeywords, word.Keyword) {
+		if afterAs || !containsStr(reservedKeywords, keywordOf(word)) {
 			return &sqlast.Ident{
 				Value: word.String(),
 				From:  maybeAlias.From,
@@ -1689,7 +1689,7 @@ func (p *Parser) parseTableReferenceRight() (sqlast.TableReference, error) {
 		return nil, nil
 	}
 
-	switch word.Keyword {
+	switch keywordOf(word) {
 	case "NATURAL":
 		tp, err := p.parseJoinType()
 		if err != nil {
@@ -1776,7 +1776,7 @@ func (p *Parser) parseJoinType() (*sqlast.JoinType, error) {
 		return nil, errors.Errorf("unknown join type %v", tok)
 	}
 
-	switch word.Keyword {
+	switch keywordOf(word) {
 	case "INNER":
 		return &sqlast.JoinType{
 			Condition: sqlast.INNER,
@@ -2033,7 +2033,7 @@ func (p *Parser) parseInfix(expr sqlast.Node, precedence uint) (sqlast.Node, err
 		operator = sqlast.Divide
 	case sqltoken.SQLKeyword:
 		word := tok.Value.(*sqltoken.SQLWord)
-		switch word.Keyword {
+		switch keywordOf(word) {
 		case "AND":
 			operator = sqlast.And
 		case "OR":
@@ -2064,7 +2064,7 @@ func (p *Parser) parseInfix(expr sqlast.Node, precedence uint) (sqlast.Node, err
 	if tok.Kind == sqltoken.SQLKeyword {
 		word := tok.Value.(*sqltoken.SQLWord)
 
-		switch word.Keyword {
+		switch keywordOf(word) {
 		case "IS":
 			if ok, _, _ := p.parseKeyword("NULL"); ok {
 				return &sqlast.IsNull{
@@ -2175,7 +2175,7 @@ func (p *Parser) getNextPrecedence() (uint, error) {
 		return 0, nil
 	}
 	// An infix NOT starts NOT LIKE, NOT IN or NOT BETWEEN and binds like those.
-	if tok.Kind == sqltoken.SQLKeyword && tok.Value.(*sqltoken.SQLWord).Keyword == "NOT" {
+	if tok.Kind == sqltoken.SQLKeyword && keywordOf(tok.Value.(*sqltoken.SQLWord)) == "NOT" {
 		return 20, nil
 	}
 	return p.getPrecedence(tok), nil
@@ -2185,7 +2185,7 @@ func (p *Parser) getPrecedence(ts *sqltoken.Token) uint {
 	switch ts.Kind {
 	case sqltoken.SQLKeyword:
 		word := ts.Value.(*sqltoken.SQLWord)
-		switch word.Keyword {
+		switch keywordOf(word) {
 		case "OR":
 			return 5
 		case "AND":
@@ -2225,7 +2225,7 @@ func (p *Parser) parsePrefix() (sqlast.Node, error) {
 	switch tok.Kind {
 	case sqltoken.SQLKeyword:
 		word := tok.Value.(*sqltoken.SQLWord)
-		switch word.Keyword {
+		switch keywordOf(word) {
 		case "TRUE", "FALSE", "NULL":
 			p.prevToken()
 			t, err := p.parseSQLValue()
@@ -2533,7 +2533,7 @@ func (p *Parser) parseWindowFrame() (*sqlast.WindowFrame, error) {
 		var u sqlast.WindowFrameUnit
 
 		// FIXME
-		units, err := u.FromStr(w.Keyword)
+		units, err := u.FromStr(keywordOf(w))
 		if err != nil {
 			return nil, errors.Errorf("invalid window frame unit: %w", err)
 		}
@@ -2629,7 +2629,7 @@ func (p *Parser) parseValue() (sqlast.Node, error) {
 	case sqltoken.SQLKeyword:
 		word := tok.Value.(*sqltoken.SQLWord)
 
-		switch word.Keyword {
+		switch keywordOf(word) {
 		case "TRUE":
 			return &sqlast.BooleanValue{
 				From:    tok.From,
@@ -3142,6 +3142,15 @@ func (p *Parser) parseKeywords(keywords ...string) (bool, []*sqltoken.Token, err
 	return true, toks, nil
 }
 
+// keywordOf returns the keyword a word stands for. A quoted identifier never
+// stands for a keyword, whatever its text.
+func keywordOf(word *sqltoken.SQLWord) string {
+	if word.QuoteStyle != 0 {
+		return ""
+	}
+	return word.Keyword
+}
+
 func (p *Parser) parseKeyword(expected string) (bool, *sqltoken.Token, error) {
 	tok, err := p.peekToken()
 	if err != nil {
@@ -3153,7 +3162,7 @@ func (p *Parser) parseKeyword(expected string) (bool, *sqltoken.Token, error) {
 		return false, tok, nil
 	}
 
-	if strings.EqualFold(word.Value, expected) {
+	if word.QuoteStyle == 0 && strings.EqualFold(word.Value, expected) {
 		p.mustNextToken()
 		return true, tok, nil
 	}
-- 
2.43.0


From 1dd82fe53b31f1c3c37538d1fd2c260212492091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:22 +0000
Subject: [PATCH 17/42] fix: report an unclosed delimited identifier instead of
 reading forever

---
 sqltoken/tokenizer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sqltoken/tokenizer.go b/sqltoken/tokenizer.go
index edbada6..177bf3a 100644
--- a/sqltoken/tokenizer.go
+++ b/sqltoken/tokenizer.go
@@ -283,6 +283,9 @@ func (t *Tokenizer) next() (Kind, interface{}, error) {
 			if n == end {
 				break
 			}
+			if n == scanner.EOF {
+				return ILLEGAL, "", errors.Errorf("unclosed delimited identifier: %s at %+v", string(s), t.Pos())
+			}
 			s = append(s, n)
 		}
 		t.Col += 2 + len(s)
-- 
2.43.0


From 2ae125720fbbdfc3c8859d0185eb3b4b420bd628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:24 +0000
Subject: [PATCH 18/42] fix: report reader failures and malformed text instead
 of taking them for the end of input

---
 sqltoken/tokenizer.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/sqltoken/tokenizer.go b/sqltoken/tokenizer.go
index 177bf3a..49aaf7f 100644
--- a/sqltoken/tokenizer.go
+++ b/sqltoken/tokenizer.go
@@ -124,17 +124,26 @@ type Tokenizer struct {
 	Line         int
 	Col          int
 	parseComment bool
+	scanErr      error
 }
 
 func NewTokenizer(src io.Reader, dialect dialect.Dialect) *Tokenizer {
 	var scan scanner.Scanner
-	return &Tokenizer{
+	t := &Tokenizer{
 		Dialect:      dialect,
 		Scanner:      scan.Init(src),
 		Line:         1,
 		Col:          1,
 		parseComment: true,
 	}
+	// The scanner reports a failing reader or malformed text only here, and
+	// treats a failing reader as the end of the input.
+	t.Scanner.Error = func(_ *scanner.Scanner, msg string) {
+		if t.scanErr == nil {
+			t.scanErr = errors.New(msg)
+		}
+	}
+	return t
 }
 
 type TokenizerOption func(*Tokenizer)
@@ -188,6 +197,9 @@ func (t *Tokenizer) NextToken() (*Token, error) {
 func (t *Tokenizer) Scan(token *Token) (*Token, error) {
 	pos := t.Pos()
 	tok, str, err := t.next()
+	if t.scanErr != nil {
+		err = t.scanErr
+	}
 	if err == io.EOF {
 		return nil, io.EOF
 	}
-- 
2.43.0


From e7e8badb418ed03efbd2099305adae9108489c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:26 +0000
Subject: [PATCH 19/42] fix: keep an asterisk inside a multiline comment

---
 sqltoken/tokenizer.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sqltoken/tokenizer.go b/sqltoken/tokenizer.go
index 49aaf7f..bed3c27 100644
--- a/sqltoken/tokenizer.go
+++ b/sqltoken/tokenizer.go
@@ -545,9 +545,8 @@ func (t *Tokenizer) tokenizeMultilineComment() (string, error) {
 		if mayBeClosingComment {
 			if n == '/' {
 				break
-			} else {
-				str = append(str, n)
 			}
+			str = append(str, '*')
 		}
 		mayBeClosingComment = n == '*'
 		if !mayBeClosingComment {
-- 
2.43.0


From 660cc4aa63387ce93d0f6e3a7924d6fe97717831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:28 +0000
Subject: [PATCH 20/42] fix: count the characters of quoted tokens when
 tracking line and column

---
 sqltoken/tokenizer.go | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/sqltoken/tokenizer.go b/sqltoken/tokenizer.go
index bed3c27..0149d45 100644
--- a/sqltoken/tokenizer.go
+++ b/sqltoken/tokenizer.go
@@ -5,6 +5,7 @@ import (
 	"io"
 	"strings"
 	"text/scanner"
+	"unicode/utf8"
 
 	errors "golang.org/x/xerrors"
 
@@ -287,6 +288,7 @@ func (t *Tokenizer) next() (Kind, interface{}, error) {
 
 	case t.Dialect.IsDelimitedIdentifierStart(r):
 		t.Scanner.Next()
+		t.Col += 1
 		end := matchingEndQuote(r)
 
 		var s []rune
@@ -299,8 +301,14 @@ func (t *Tokenizer) next() (Kind, interface{}, error) {
 				return ILLEGAL, "", errors.Errorf("unclosed delimited identifier: %s at %+v", string(s), t.Pos())
 			}
 			s = append(s, n)
+			if n == '\n' {
+				t.Line += 1
+				t.Col = 1
+			} else {
+				t.Col += 1
+			}
 		}
-		t.Col += 2 + len(s)
+		t.Col += 1
 
 		return SQLKeyword, MakeKeyword(string(s), r), nil
 
@@ -486,21 +494,24 @@ func (t *Tokenizer) tokenizeWord(f rune) string {
 	}
 
 	str := builder.String()
-	t.Col += len(str)
+	t.Col += utf8.RuneCountInString(str)
 	return str
 }
 
 func (t *Tokenizer) tokenizeSingleQuotedString() (string, error) {
 	var builder strings.Builder
 	t.Scanner.Next()
+	t.Col += 1
 	for {
 		n := t.Scanner.Peek()
 		if n == '\'' {
 			t.Scanner.Next()
+			t.Col += 1
 			if t.Scanner.Peek() == '\'' {
 				// str = append(str, '\'')
 				builder.WriteRune('\'')
 				t.Scanner.Next()
+				t.Col += 1
 			} else {
 				break
 			}
@@ -513,11 +524,15 @@ func (t *Tokenizer) tokenizeSingleQuotedString() (string, error) {
 		t.Scanner.Next()
 		builder.WriteRune(n)
 		// str = append(str, n)
+		if n == '\n' {
+			t.Line += 1
+			t.Col = 1
+		} else {
+			t.Col += 1
+		}
 	}
-	str := builder.String()
-	t.Col += 2 + len(str)
 
-	return str, nil
+	return builder.String(), nil
 }
 
 func (t *Tokenizer) tokenizeMultilineComment() (string, error) {
-- 
2.43.0


From 8e5048a94ee839d4e594d4aead172a568aca9aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:30 +0000
Subject: [PATCH 21/42] fix: read and write doubled quotes inside a delimited
 identifier

---
 sqltoken/tokenizer.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sqltoken/tokenizer.go b/sqltoken/tokenizer.go
index 0149d45..29a8f4a 100644
--- a/sqltoken/tokenizer.go
+++ b/sqltoken/tokenizer.go
@@ -20,7 +20,8 @@ type SQLWord struct {
 
 func (s *SQLWord) String() string {
 	if s.QuoteStyle == '"' || s.QuoteStyle == '[' || s.QuoteStyle == '`' {
-		return string(s.QuoteStyle) + s.Value + string(matchingEndQuote(s.QuoteStyle))
+		end := string(matchingEndQuote(s.QuoteStyle))
+		return string(s.QuoteStyle) + strings.ReplaceAll(s.Value, end, end+end) + end
 	} else if s.QuoteStyle == 0 {
 		return s.Value
 	}
@@ -295,7 +296,12 @@ func (t *Tokenizer) next() (Kind, interface{}, error) {
 		for {
 			n := t.Scanner.Next()
 			if n == end {
-				break
+				if t.Scanner.Peek() != end {
+					break
+				}
+				// a doubled end quote stands for the quote itself
+				t.Scanner.Next()
+				t.Col += 1
 			}
 			if n == scanner.EOF {
 				return ILLEGAL, "", errors.Errorf("unclosed delimited identifier: %s at %+v", string(s), t.Pos())
-- 
2.43.0


From ae2ca210fe2d652b8acbdeb337669978c6852ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:54 +0000
Subject: [PATCH 22/42] fix: report tokenizer errors in astprinter instead of
 crashing

---
 cmd/astprinter/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/astprinter/main.go b/cmd/astprinter/main.go
index fd46503..eef250e 100644
--- a/cmd/astprinter/main.go
+++ b/cmd/astprinter/main.go
@@ -29,7 +29,10 @@ func main() {
 		src = file
 	}
 
-	parser, _ := xsqlparser.NewParser(src, &dialect.GenericSQLDialect{})
+	parser, err := xsqlparser.NewParser(src, &dialect.GenericSQLDialect{})
+	if err != nil {
+		log.Fatal(err)
+	}
 	stmt, err := parser.ParseStatement()
 	if err != nil {
 		log.Fatal(err)
-- 
2.43.0


From a0e7b0cca949d7abe67e3cb73e1d41dfb9135f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:59 +0000
Subject: [PATCH 23/42] fix: visit children with the visitor returned for their
 parent

---
 sqlast/walk.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlast/walk.go b/sqlast/walk.go
index 398eb9b..71303f0 100644
--- a/sqlast/walk.go
+++ b/sqlast/walk.go
@@ -21,7 +21,7 @@ func walkASTNodeLists(v Visitor, list []Node) {
 }
 
 func Walk(v Visitor, node Node) {
-	if v := v.Visit(node); v == nil {
+	if v = v.Visit(node); v == nil {
 		return
 	}
 
-- 
2.43.0


From 5af412e669bbe8eb8dd8c749dbbc1197046f649c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:01 +0000
Subject: [PATCH 24/42] fix: walk every child of CASE, USING, data types, table
 options and column decorations

---
 sqlast/walk.go | 42 +++++++++++++++++++++++++++++++++++++-----
 1 file changed, 37 insertions(+), 5 deletions(-)

diff --git a/sqlast/walk.go b/sqlast/walk.go
index 71303f0..877057e 100644
--- a/sqlast/walk.go
+++ b/sqlast/walk.go
@@ -30,6 +30,12 @@ func Walk(v Visitor, node Node) {
 		for _, stmt := range n.Stmts {
 			Walk(v, stmt)
 		}
+	case *CommentGroup:
+		for _, c := range n.List {
+			Walk(v, c)
+		}
+	case *Comment:
+		// nothing to do
 	case *Ident:
 		// nothing to do
 	case *Wildcard:
@@ -71,7 +77,16 @@ func Walk(v Visitor, node Node) {
 			Walk(v, n.Over)
 		}
 	case *CaseExpr:
-		Walk(v, n.Operand)
+		if n.Operand != nil {
+			Walk(v, n.Operand)
+		}
+		for i, c := range n.Conditions {
+			Walk(v, c)
+			Walk(v, n.Results[i])
+		}
+		if n.ElseResult != nil {
+			Walk(v, n.ElseResult)
+		}
 	case *Exists:
 		Walk(v, n.Query)
 	case *SubQuery:
@@ -158,7 +173,7 @@ func Walk(v Visitor, node Node) {
 	case *JoinType:
 	// nothing to do
 	case *NamedColumnsJoin:
-	// nothing to do
+		walkIdentLists(v, n.ColumnList)
 	case *JoinCondition:
 		Walk(v, n.SearchCondition)
 	case *NaturalJoin:
@@ -175,6 +190,9 @@ func Walk(v Visitor, node Node) {
 		}
 		walkASTNodeLists(v, n.Args)
 		walkASTNodeLists(v, n.WithHints)
+	case *PartitionedJoinTable:
+		Walk(v, n.Factor)
+		walkIdentLists(v, n.ColumnList)
 	case *Derived:
 		Walk(v, n.SubQuery)
 		if n.Alias != nil {
@@ -241,9 +259,9 @@ func Walk(v Visitor, node Node) {
 	case *Bytea:
 		// nothing to do
 	case *Array:
-		// nothing to do
+		Walk(v, n.Ty)
 	case *Custom:
-		// nothing to do
+		Walk(v, n.Ty)
 	case *InsertStmt:
 		Walk(v, n.TableName)
 		walkIdentLists(v, n.Columns)
@@ -271,7 +289,9 @@ func Walk(v Visitor, node Node) {
 		for _, a := range n.Assignments {
 			Walk(v, a)
 		}
-		Walk(v, n.Selection)
+		if n.Selection != nil {
+			Walk(v, n.Selection)
+		}
 	case *DeleteStmt:
 		Walk(v, n.TableName)
 		if n.Selection != nil {
@@ -285,6 +305,13 @@ func Walk(v Visitor, node Node) {
 		for _, e := range n.Elements {
 			Walk(v, e)
 		}
+		for _, o := range n.Options {
+			Walk(v, o)
+		}
+	case *MyEngine:
+		Walk(v, n.Name)
+	case *MyCharset:
+		Walk(v, n.Name)
 	case *Assignment:
 		Walk(v, n.ID)
 		Walk(v, n.Value)
@@ -309,9 +336,14 @@ func Walk(v Visitor, node Node) {
 		if n.Default != nil {
 			Walk(v, n.Default)
 		}
+		for _, d := range n.MyDataTypeDecoration {
+			Walk(v, d)
+		}
 		for _, c := range n.Constraints {
 			Walk(v, c)
 		}
+	case *AutoIncrement:
+		// nothing to do
 	case *ColumnConstraint:
 		if n.Name != nil {
 			Walk(v, n.Name)
-- 
2.43.0


From 95b289b39587a97f7e590e07a76d0864ae1e9d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:01 +0000
Subject: [PATCH 25/42] fix: name the Query field when applying to the child of
 a query wrapper

---
 sqlastutil/rewrite.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sqlastutil/rewrite.go b/sqlastutil/rewrite.go
index c51d7e2..14e5c5f 100644
--- a/sqlastutil/rewrite.go
+++ b/sqlastutil/rewrite.go
@@ -171,9 +171,9 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 	case *sqlast.CaseExpr:
 		a.apply(n, "Operand", nil, n.Operand)
 	case *sqlast.Exists:
-		a.apply(n, "QueryStmt", nil, n.Query)
+		a.apply(n, "Query", nil, n.Query)
 	case *sqlast.SubQuery:
-		a.apply(n, "QueryStmt", nil, n.Query)
+		a.apply(n, "Query", nil, n.Query)
 	case *sqlast.ObjectName:
 		a.applyList(n, "Idents")
 	case *sqlast.WindowSpec:
@@ -203,12 +203,12 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 			a.apply(n, "Limit", nil, n.Limit)
 		}
 	case *sqlast.CTE:
-		a.apply(n, "QueryStmt", nil, n.Query)
+		a.apply(n, "Query", nil, n.Query)
 		a.apply(n, "Alias", nil, n.Alias)
 	case *sqlast.SelectExpr:
 		a.apply(n, "Select", nil, n.Select)
 	case *sqlast.QueryExpr:
-		a.apply(n, "QueryStmt", nil, n.Query)
+		a.apply(n, "Query", nil, n.Query)
 	case *sqlast.SetOperationExpr:
 		a.apply(n, "Op", nil, n.Op)
 		a.apply(n, "Left", nil, n.Left)
@@ -348,7 +348,7 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 		}
 	case *sqlast.CreateViewStmt:
 		a.apply(n, "Name", nil, n.Name)
-		a.apply(n, "QueryStmt", nil, n.Query)
+		a.apply(n, "Query", nil, n.Query)
 	case *sqlast.CreateTableStmt:
 		a.apply(n, "Name", nil, n.Name)
 		a.applyList(n, "Elements")
-- 
2.43.0


From aeb0e640b872476cf067326768c9c61de5ad79a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:02 +0000
Subject: [PATCH 26/42] fix: apply to every child of CASE, USING, data types,
 table options and column decorations

---
 sqlastutil/rewrite.go | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/sqlastutil/rewrite.go b/sqlastutil/rewrite.go
index 14e5c5f..c2aeb60 100644
--- a/sqlastutil/rewrite.go
+++ b/sqlastutil/rewrite.go
@@ -128,6 +128,10 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 	switch n := n.(type) {
 	case *sqlast.File:
 		a.applyList(n, "Stmts")
+	case *sqlast.CommentGroup:
+		a.applyList(n, "List")
+	case *sqlast.Comment:
+		// nothing to do
 	case *sqlast.Ident:
 		// nothing to do
 	case *sqlast.Wildcard:
@@ -169,7 +173,14 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 			a.apply(n, "Over", nil, n.Over)
 		}
 	case *sqlast.CaseExpr:
-		a.apply(n, "Operand", nil, n.Operand)
+		if n.Operand != nil {
+			a.apply(n, "Operand", nil, n.Operand)
+		}
+		a.applyList(n, "Conditions")
+		a.applyList(n, "Results")
+		if n.ElseResult != nil {
+			a.apply(n, "ElseResult", nil, n.ElseResult)
+		}
 	case *sqlast.Exists:
 		a.apply(n, "Query", nil, n.Query)
 	case *sqlast.SubQuery:
@@ -238,6 +249,8 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 		a.apply(n, "Ref", nil, n.Ref)
 	case *sqlast.JoinType:
 		// nothing to do
+	case *sqlast.NamedColumnsJoin:
+		a.applyList(n, "ColumnList")
 	case *sqlast.JoinCondition:
 		a.apply(n, "SearchCondition", nil, n.SearchCondition)
 	case *sqlast.NaturalJoin:
@@ -254,6 +267,9 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 		}
 		a.applyList(n, "Args")
 		a.applyList(n, "WithHints")
+	case *sqlast.PartitionedJoinTable:
+		a.apply(n, "Factor", nil, n.Factor)
+		a.applyList(n, "ColumnList")
 	case *sqlast.Derived:
 		a.apply(n, "SubQuery", nil, n.SubQuery)
 		if n.Alias != nil {
@@ -320,9 +336,9 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 	case *sqlast.Bytea:
 		// nothing to do
 	case *sqlast.Array:
-		// nothing to do
+		a.apply(n, "Ty", nil, n.Ty)
 	case *sqlast.Custom:
-		// nothing to do
+		a.apply(n, "Ty", nil, n.Ty)
 	case *sqlast.InsertStmt:
 		a.apply(n, "TableName", nil, n.TableName)
 		a.applyList(n, "Columns")
@@ -340,7 +356,9 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 	case *sqlast.UpdateStmt:
 		a.apply(n, "TableName", nil, n.TableName)
 		a.applyList(n, "Assignments")
-		a.apply(n, "Selection", nil, n.Selection)
+		if n.Selection != nil {
+			a.apply(n, "Selection", nil, n.Selection)
+		}
 	case *sqlast.DeleteStmt:
 		a.apply(n, "TableName", nil, n.TableName)
 		if n.Selection != nil {
@@ -352,6 +370,11 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 	case *sqlast.CreateTableStmt:
 		a.apply(n, "Name", nil, n.Name)
 		a.applyList(n, "Elements")
+		a.applyList(n, "Options")
+	case *sqlast.MyEngine:
+		a.apply(n, "Name", nil, n.Name)
+	case *sqlast.MyCharset:
+		a.apply(n, "Name", nil, n.Name)
 	case *sqlast.Assignment:
 		a.apply(n, "ID", nil, n.ID)
 		a.apply(n, "Value", nil, n.Value)
@@ -376,7 +399,10 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 		if n.Default != nil {
 			a.apply(n, "Default", nil, n.Default)
 		}
+		a.applyList(n, "MyDataTypeDecoration")
 		a.applyList(n, "Constraints")
+	case *sqlast.AutoIncrement:
+		// nothing to do
 	case *sqlast.ColumnConstraint:
 		if n.Name != nil {
 			a.apply(n, "Name", nil, n.Name)
-- 
2.43.0


From cf103f9c5ab23c1c5fe7f491f94fc7ea1e7db6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:17 +0000
Subject: [PATCH 27/42] fix: escape quotes when writing string literals

---
 sqlast/value.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/sqlast/value.go b/sqlast/value.go
index e954b18..e1fcc3b 100644
--- a/sqlast/value.go
+++ b/sqlast/value.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"io"
 	"strconv"
+	"strings"
 	"time"
 
 	"github.com/akito0107/xsqlparser/sqltoken"
@@ -112,7 +113,7 @@ func (s *SingleQuotedString) WriteTo(w io.Writer) (int64, error) {
 	if err != nil {
 		return int64(n), err
 	}
-	n1, err := io.WriteString(w, s.String)
+	n1, err := io.WriteString(w, escapeSingleQuotes(s.String))
 	if err != nil {
 		return int64(n + n1), err
 	}
@@ -120,6 +121,11 @@ func (s *SingleQuotedString) WriteTo(w io.Writer) (int64, error) {
 	return int64(n + n1 + n2), err
 }
 
+// escapeSingleQuotes doubles the quotes that would otherwise end the literal.
+func escapeSingleQuotes(s string) string {
+	return strings.ReplaceAll(s, "'", "''")
+}
+
 type NationalStringLiteral struct {
 	From, To sqltoken.Pos
 	String   string
@@ -144,7 +150,7 @@ func (n *NationalStringLiteral) Value() interface{} {
 }
 
 func (n *NationalStringLiteral) ToSQLString() string {
-	return fmt.Sprintf("N'%s'", n.String)
+	return fmt.Sprintf("N'%s'", escapeSingleQuotes(n.String))
 }
 
 func (n *NationalStringLiteral) WriteTo(w io.Writer) (int64, error) {
@@ -152,7 +158,7 @@ func (n *NationalStringLiteral) WriteTo(w io.Writer) (int64, error) {
 	if err != nil {
 		return int64(n0), err
 	}
-	n1, err := io.WriteString(w, n.String)
+	n1, err := io.WriteString(w, escapeSingleQuotes(n.String))
 	if err != nil {
 		return int64(n0 + n1), err
 	}
-- 
2.43.0


From 271676cbd88d34a76e86ac10f08a43e57aca24c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:18 +0000
Subject: [PATCH 28/42] fix: write whole doubles with a fractional part so that
 they stay doubles

---
 sqlast/value.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sqlast/value.go b/sqlast/value.go
index e1fcc3b..141efa6 100644
--- a/sqlast/value.go
+++ b/sqlast/value.go
@@ -1,6 +1,7 @@
 package sqlast
 
 import (
+	"bytes"
 	"fmt"
 	"io"
 	"strconv"
@@ -77,6 +78,10 @@ func (d *DoubleValue) ToSQLString() string {
 func (d *DoubleValue) WriteTo(w io.Writer) (int64, error) {
 	var b [32] byte
 	buf := strconv.AppendFloat(b[:0], d.Double, 'f', -1, 64)
+	if bytes.IndexByte(buf, '.') < 0 {
+		// keep a whole number a double rather than an integer literal
+		buf = append(buf, ".0"...)
+	}
 	n, err := w.Write(buf)
 	return int64(n), err
 }
-- 
2.43.0


From f272ea69f834d7152432b5893052eab73ae532cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:20 +0000
Subject: [PATCH 29/42] fix: write CREATE TABLE without elements, or with
 options, as valid SQL

---
 sqlast/stmt.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/sqlast/stmt.go b/sqlast/stmt.go
index bc52ea8..876fcfb 100644
--- a/sqlast/stmt.go
+++ b/sqlast/stmt.go
@@ -299,12 +299,16 @@ func (c *CreateTableStmt) WriteTo(w io.Writer) (int64, error) {
 	sw := newSQLWriter(w)
 	sw.Bytes([]byte("CREATE TABLE "))
 	sw.If(c.NotExists, []byte("IF NOT EXISTS "))
-	sw.Node(c.Name).Space().LParen()
-	for i, element := range c.Elements {
-		sw.JoinComma(i, element)
+	sw.Node(c.Name)
+	if len(c.Elements) != 0 {
+		sw.Space().LParen()
+		for i, element := range c.Elements {
+			sw.JoinComma(i, element)
+		}
+		sw.RParen()
 	}
-	sw.RParen()
 	if len(c.Options) != 0 {
+		sw.Space()
 		for i, option := range c.Options {
 			sw.JoinComma(i, option)
 		}
-- 
2.43.0


From 5aba109a1057b6d0acafb630a7da497448def9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:22 +0000
Subject: [PATCH 30/42] fix: write CREATE INDEX without a column list as valid
 SQL

---
 sqlast/stmt.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sqlast/stmt.go b/sqlast/stmt.go
index 876fcfb..a0da7b4 100644
--- a/sqlast/stmt.go
+++ b/sqlast/stmt.go
@@ -1085,7 +1085,9 @@ func (c *CreateIndexStmt) WriteTo(w io.Writer) (int64, error) {
 	if c.MethodName != nil {
 		sw.Bytes([]byte(" USING ")).Node(c.MethodName)
 	}
-	sw.Space().LParen().Idents(c.ColumnNames, []byte(", ")).RParen()
+	if len(c.ColumnNames) != 0 {
+		sw.Space().LParen().Idents(c.ColumnNames, []byte(", ")).RParen()
+	}
 	if c.Selection != nil {
 		sw.Bytes([]byte(" WHERE ")).Node(c.Selection)
 	}
-- 
2.43.0


From bb8630496c3356dfcafbf0955f1723adf868b79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:24 +0000
Subject: [PATCH 31/42] fix: separate the statements of a file with semicolons

---
 sqlast/ast.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlast/ast.go b/sqlast/ast.go
index 20144c4..f50762f 100644
--- a/sqlast/ast.go
+++ b/sqlast/ast.go
@@ -55,7 +55,7 @@ func (f *File) ToSQLString() string {
 func (f *File) WriteTo(w io.Writer) (int64, error) {
 	sw := newSQLWriter(w)
 	for i, stmt := range f.Stmts {
-		sw.JoinNewLine(i, stmt)
+		sw.Join(i, stmt, []byte(";\n"))
 	}
 	return sw.End()
 }
-- 
2.43.0


From 45a0e07d514eab321f1984256e17f15e530b75bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:25 +0000
Subject: [PATCH 32/42] fix: keep the empty argument list of a table function

---
 parser.go       | 3 +++
 sqlast/query.go | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index bdb895c..9543bfc 100644
--- a/parser.go
+++ b/parser.go
@@ -1877,6 +1877,9 @@ func (p *Parser) parseTableFactor() (sqlast.TableFactor, error) {
 			return nil, errors.Errorf("parseOptionalArgs failed: %w", err)
 		}
 		args = a
+		if args == nil {
+			args = []sqlast.Node{}
+		}
 		p.expectToken(sqltoken.RParen)
 	}
 	alias := p.parseOptionalAlias(dialect.ReservedForTableAlias)
diff --git a/sqlast/query.go b/sqlast/query.go
index 8638133..9d681bc 100644
--- a/sqlast/query.go
+++ b/sqlast/query.go
@@ -340,7 +340,7 @@ func (t *Table) ToSQLString() string {
 func (t *Table) WriteTo(w io.Writer) (int64, error) {
 	sw := newSQLWriter(w)
 	sw.Node(t.Name)
-	if len(t.Args) != 0 {
+	if t.Args != nil {
 		sw.LParen().Nodes(t.Args).RParen()
 	}
 	if t.Alias != nil {
-- 
2.43.0


From e2b1de99cbe5294db8b1f5394d076a1e82b056e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:10 +0000
Subject: [PATCH 33/42] fix: do not skip SELECT in front of WITH in a
 parenthesised query

---
 parser.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/parser.go b/parser.go
index 9543bfc..ca380ab 100644
--- a/parser.go
+++ b/parser.go
@@ -2113,10 +2113,12 @@ func (p *Parser) parsePGCast(expr sqlast.Node) (sqlast.Node, error) {
 
 func (p *Parser) parseIn(expr sqlast.Node, negated bool) (sqlast.Node, error) {
 	p.expectToken(sqltoken.LParen)
-	sok, _, _ := p.parseKeyword("SELECT")
-	wok, _, _ := p.parseKeyword("WITH")
+	ok, _, _ := p.parseKeyword("SELECT")
+	if !ok {
+		ok, _, _ = p.parseKeyword("WITH")
+	}
 	var inop sqlast.Node
-	if sok || wok {
+	if ok {
 		p.prevToken()
 		q, err := p.parseQuery()
 		if err != nil {
@@ -2376,12 +2378,14 @@ func (p *Parser) parsePrefix() (sqlast.Node, error) {
 		}
 		return v, nil
 	case sqltoken.LParen:
-		sok, _, _ := p.parseKeyword("SELECT")
-		wok, _, _ := p.parseKeyword("WITH")
+		ok, _, _ := p.parseKeyword("SELECT")
+		if !ok {
+			ok, _, _ = p.parseKeyword("WITH")
+		}
 
 		var ast sqlast.Node
 
-		if sok || wok {
+		if ok {
 			p.prevToken()
 			expr, err := p.parseQuery()
 			if err != nil {
-- 
2.43.0


From d4dcce449b1bd8744299557898e318894a386764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:10 +0000
Subject: [PATCH 34/42] fix: reject CREATE INDEX UNIQUE INDEX

---
 parser.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/parser.go b/parser.go
index ca380ab..ec3285c 100644
--- a/parser.go
+++ b/parser.go
@@ -543,11 +543,11 @@ func (p *Parser) parseCreate() (sqlast.Stmt, error) {
 		return p.parseCreateView(t)
 	}
 
-	iok, _, _ := p.parseKeyword("INDEX")
-	uiok, _, _ := p.parseKeywords("UNIQUE", "INDEX")
-
-	if iok || uiok {
-		return p.parseCreateIndex(uiok)
+	if ok, _, _ := p.parseKeyword("INDEX"); ok {
+		return p.parseCreateIndex(false)
+	}
+	if ok, _, _ := p.parseKeywords("UNIQUE", "INDEX"); ok {
+		return p.parseCreateIndex(true)
 	}
 
 	return nil, errors.Errorf("TABLE or VIEW or UNIQUE INDEX or INDEX after create")
-- 
2.43.0


From 7f35f4d3ffed90f87e40e0148f4d3b38be8110c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:11 +0000
Subject: [PATCH 35/42] fix: reject a second DEFAULT in a column definition
 instead of dropping the first

---
 parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser.go b/parser.go
index ec3285c..dd3097b 100644
--- a/parser.go
+++ b/parser.go
@@ -878,6 +878,9 @@ COLUMN_DEF_LOOP:
 		switch keywordOf(word) {
 		case "DEFAULT":
 			if ok, _, _ := p.parseKeyword("DEFAULT"); ok {
+				if def != nil {
+					return nil, nil, nil, errors.Errorf("more than one DEFAULT in a column definition")
+				}
 				d, err := p.parseDefaultExpr(0)
 				if err != nil {
 					return nil, nil, nil, errors.Errorf("parseDefaultExpr failed: %w", err)
-- 
2.43.0


From 4902486c962fd620d8ca19eaaa00abc1760570fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:11 +0000
Subject: [PATCH 36/42] fix: reject a comma in front of the first table option

---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index dd3097b..02f82ba 100644
--- a/parser.go
+++ b/parser.go
@@ -1029,7 +1029,7 @@ func (p *Parser) parseTableOptions() ([]sqlast.TableOption, error) {
 			return nil, err
 		}
 
-		if tok.Kind == sqltoken.Comma {
+		if tok.Kind == sqltoken.Comma && len(opts) > 0 {
 			p.mustNextToken()
 		} else if tok.Kind != sqltoken.SQLKeyword {
 			break
-- 
2.43.0


From 8f7a3d28e5dcd0dea63ec09960f903259db2b679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:56 +0000
Subject: [PATCH 37/42] fix: reject AS at the end of the input instead of
 dropping it

---
 parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser.go b/parser.go
index 02f82ba..b4df9c3 100644
--- a/parser.go
+++ b/parser.go
@@ -1564,6 +1564,9 @@ func (p *Parser) parseOptionalAlias(reservedKeywords map[string]struct{}) *sqlas
 	maybeAlias, _ := p.nextToken()
 
 	if maybeAlias == nil {
+		if afterAs {
+			panic(bailout{errors.Errorf("expected an identifier after AS")})
+		}
 		return nil
 	}
 
-- 
2.43.0


From e0a29c3b39b3ef32b5d39b3f66e8b44116c79e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:49 +0000
Subject: [PATCH 38/42] fix: set the positions of data types

---
 parser.go      | 50 ++++++++++++++++++++++++++++++++------------------
 sqlast/type.go | 10 ++++++++--
 2 files changed, 40 insertions(+), 20 deletions(-)

diff --git a/parser.go b/parser.go
index b4df9c3..383feeb 100644
--- a/parser.go
+++ b/parser.go
@@ -236,7 +236,11 @@ func (p *Parser) ParseDataType() (_ sqlast.Type, err error) {
 
 		}
 		// FIXME Character
-		return &sqlast.VarcharType{Size: p, RParen: r, Character: tok.From}, nil
+		varchar := &sqlast.VarcharType{Size: p, RParen: r, Character: tok.From}
+		if p == nil {
+			varchar.Varying = tok.To
+		}
+		return varchar, nil
 	case "CHAR", "CHARACTER":
 		if ok, v, _ := p.parseKeyword("VARYING"); ok {
 			p, r, err := p.parseOptionalPrecision()
@@ -253,28 +257,37 @@ func (p *Parser) ParseDataType() (_ sqlast.Type, err error) {
 	case "UUID":
 		return &sqlast.UUID{From: tok.From, To: tok.To}, nil
 	case "DATE":
-		return &sqlast.Date{}, nil
+		return &sqlast.Date{From: tok.From, To: tok.To}, nil
 	case "TIMESTAMP":
-		wok := p.parseOptionalTimeZone()
-		return &sqlast.Timestamp{
+		wok, zone := p.parseOptionalTimeZone()
+		timestamp := &sqlast.Timestamp{
 			Timestamp:    tok.From,
 			WithTimeZone: wok,
-		}, nil
+		}
+		if zone != nil {
+			timestamp.Zone = zone.To
+		}
+		return timestamp, nil
 	case "TIME":
-		wok := p.parseOptionalTimeZone()
-		return &sqlast.Time{WithTimeZone: wok}, nil
+		wok, zone := p.parseOptionalTimeZone()
+		to := tok.To
+		if zone != nil {
+			to = zone.To
+		}
+		return &sqlast.Time{From: tok.From, To: to, WithTimeZone: wok}, nil
 	case "REGCLASS":
-		return &sqlast.Regclass{}, nil
+		return &sqlast.Regclass{From: tok.From, To: tok.To}, nil
 	case "TEXT":
 		if ok, _ := p.consumeToken(sqltoken.LBracket); ok {
-			p.expectToken(sqltoken.RBracket)
+			r := p.expectToken(sqltoken.RBracket)
 			return &sqlast.Array{
-				Ty: &sqlast.Text{},
+				Ty:     &sqlast.Text{From: tok.From, To: tok.To},
+				RParen: r.To,
 			}, nil
 		}
-		return &sqlast.Text{}, nil
+		return &sqlast.Text{From: tok.From, To: tok.To}, nil
 	case "BYTEA":
-		return &sqlast.Bytea{}, nil
+		return &sqlast.Bytea{From: tok.From, To: tok.To}, nil
 	case "NUMERIC":
 		precision, scale, r, err := p.parseOptionalPrecisionScale()
 		if err != nil {
@@ -2918,16 +2931,15 @@ func (p *Parser) parseExistsExpression(negatedTok *sqltoken.Token) (sqlast.Node,
 	}, nil
 }
 
-func (p *Parser) parseOptionalTimeZone() bool {
+func (p *Parser) parseOptionalTimeZone() (bool, *sqltoken.Token) {
 	with, _, _ := p.parseKeyword("WITH")
 	if !with {
 		if ok, _, _ := p.parseKeyword("WITHOUT"); !ok {
-			return false
+			return false, nil
 		}
 	}
 	p.expectKeyword("TIME")
-	p.expectKeyword("ZONE")
-	return with
+	return with, p.expectKeyword("ZONE")
 }
 
 func (p *Parser) parseMyUnsigned() (bool, sqltoken.Pos) {
@@ -2947,12 +2959,14 @@ func (p *Parser) expectKeyword(expected string) *sqltoken.Token {
 	return tok
 }
 
-func (p *Parser) expectToken(expected sqltoken.Kind) {
+func (p *Parser) expectToken(expected sqltoken.Kind) *sqltoken.Token {
+	tok, _ := p.peekToken()
 	ok, err := p.consumeToken(expected)
 	if err != nil || !ok {
-		tok, _ := p.peekToken()
 		panic(bailout{errors.Errorf("should be %s sqltoken, but %+v, err: %v", expected, tok, err)})
 	}
+
+	return tok
 }
 
 func (p *Parser) consumeToken(expected sqltoken.Kind) (bool, error) {
diff --git a/sqlast/type.go b/sqlast/type.go
index 27e7fb3..a833c72 100644
--- a/sqlast/type.go
+++ b/sqlast/type.go
@@ -180,7 +180,13 @@ func (d *Decimal) End() sqltoken.Pos {
 	if d.IsUnsigned {
 		return d.Unsigned
 	}
-	return d.RParen
+	if d.Precision != nil {
+		return d.RParen
+	}
+	return sqltoken.Pos{
+		Line: d.Numeric.Line,
+		Col:  d.Numeric.Col + 7,
+	}
 }
 
 func (d *Decimal) ToSQLString() string {
@@ -436,7 +442,7 @@ func (t *Timestamp) Pos() sqltoken.Pos {
 }
 
 func (t *Timestamp) End() sqltoken.Pos {
-	if t.WithTimeZone {
+	if t.Zone != (sqltoken.Pos{}) {
 		return t.Zone
 	}
 
-- 
2.43.0


From 2de4a5b5bb0afd6dd0b1d540f86985f4944d72a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:19 +0000
Subject: [PATCH 39/42] fix: set the positions of queries, joins and window
 frames

---
 parser.go       | 134 ++++++++++++++++++++++++++++++------------------
 sqlast/ast.go   |   4 +-
 sqlast/query.go |   4 +-
 3 files changed, 89 insertions(+), 53 deletions(-)

diff --git a/parser.go b/parser.go
index 383feeb..94f164d 100644
--- a/parser.go
+++ b/parser.go
@@ -372,14 +372,17 @@ func (p *Parser) parseQueryBody(precedence uint8) (sqlast.SQLSetExpr, error) {
 		}
 		s.Select = tok.From
 		expr = s
-	} else if ok, _ := p.consumeToken(sqltoken.LParen); ok {
+	} else if tok != nil && tok.Kind == sqltoken.LParen {
+		p.mustNextToken()
 		subquery, err := p.parseQuery()
 		if err != nil {
 			return nil, errors.Errorf("parseQuery failed: %w", err)
 		}
-		p.expectToken(sqltoken.RParen)
+		r := p.expectToken(sqltoken.RParen)
 		expr = &sqlast.QueryExpr{
-			Query: subquery,
+			LParen: tok.From,
+			RParen: r.To,
+			Query:  subquery,
 		}
 	} else {
 		return nil, errors.Errorf("expect SELECT or subquery in the query body")
@@ -428,11 +431,11 @@ func (p *Parser) parseSetOperator(token *sqltoken.Token) sqlast.SQLSetOperator {
 	word := token.Value.(*sqltoken.SQLWord)
 	switch keywordOf(word) {
 	case "UNION":
-		return &sqlast.UnionOperator{}
+		return &sqlast.UnionOperator{From: token.From, To: token.To}
 	case "EXCEPT":
-		return &sqlast.ExceptOperator{}
+		return &sqlast.ExceptOperator{From: token.From, To: token.To}
 	case "INTERSECT":
-		return &sqlast.IntersectOperator{}
+		return &sqlast.IntersectOperator{From: token.From, To: token.To}
 	}
 
 	return nil
@@ -1803,12 +1806,11 @@ func (p *Parser) parseJoinType() (*sqlast.JoinType, error) {
 			To:        tok.To,
 		}, nil
 	case "LEFT":
-		outer, _, _ := p.parseKeyword("OUTER")
-		if outer {
+		if ok, outer, _ := p.parseKeyword("OUTER"); ok {
 			return &sqlast.JoinType{
 				Condition: sqlast.LEFTOUTER,
 				From:      tok.From,
-				To:        tok.To,
+				To:        outer.To,
 			}, nil
 		}
 		return &sqlast.JoinType{
@@ -1817,17 +1819,31 @@ func (p *Parser) parseJoinType() (*sqlast.JoinType, error) {
 			To:        tok.To,
 		}, nil
 	case "RIGHT":
-		outer, _, _ := p.parseKeyword("OUTER")
-		if outer {
-			return &sqlast.JoinType{Condition: sqlast.RIGHTOUTER}, nil
+		if ok, outer, _ := p.parseKeyword("OUTER"); ok {
+			return &sqlast.JoinType{
+				Condition: sqlast.RIGHTOUTER,
+				From:      tok.From,
+				To:        outer.To,
+			}, nil
 		}
-		return &sqlast.JoinType{Condition: sqlast.RIGHT}, nil
+		return &sqlast.JoinType{
+			Condition: sqlast.RIGHT,
+			From:      tok.From,
+			To:        tok.To,
+		}, nil
 	case "FULL":
-		outer, _, _ := p.parseKeyword("OUTER")
-		if outer {
-			return &sqlast.JoinType{Condition: sqlast.FULLOUTER}, nil
+		if ok, outer, _ := p.parseKeyword("OUTER"); ok {
+			return &sqlast.JoinType{
+				Condition: sqlast.FULLOUTER,
+				From:      tok.From,
+				To:        outer.To,
+			}, nil
 		}
-		return &sqlast.JoinType{Condition: sqlast.FULL}, nil
+		return &sqlast.JoinType{
+			Condition: sqlast.FULL,
+			From:      tok.From,
+			To:        tok.To,
+		}, nil
 	case "JOIN":
 		p.prevToken()
 		return &sqlast.JoinType{Condition: sqlast.IMPLICIT}, nil
@@ -1848,7 +1864,7 @@ func (p *Parser) parseJoinSpec() (sqlast.JoinSpec, error) {
 		}, nil
 	}
 
-	ok, _, _ := p.parseKeyword("USING")
+	ok, using, _ := p.parseKeyword("USING")
 	if !ok {
 		tok, _ := p.nextToken()
 		return nil, errors.Errorf("unknown join spec need USING or ON but: %v", tok)
@@ -1859,27 +1875,36 @@ func (p *Parser) parseJoinSpec() (sqlast.JoinSpec, error) {
 	if err != nil {
 		return nil, errors.Errorf("parse named columns join list failed: %w", err)
 	}
-	p.expectToken(sqltoken.RParen)
+	r := p.expectToken(sqltoken.RParen)
 
 	return &sqlast.NamedColumnsJoin{
 		ColumnList: idents,
+		Using:      using.From,
+		RParen:     r.To,
 	}, nil
 }
 
 func (p *Parser) parseTableFactor() (sqlast.TableFactor, error) {
-	isLateral, _, _ := p.parseKeyword("LATERAL")
+	isLateral, lateral, _ := p.parseKeyword("LATERAL")
+	l, _ := p.peekToken()
 	if ok, _ := p.consumeToken(sqltoken.LParen); ok {
 		subquery, err := p.parseQuery()
 		if err != nil {
 			return nil, errors.Errorf("parseQuery failed: %w", err)
 		}
-		p.expectToken(sqltoken.RParen)
+		r := p.expectToken(sqltoken.RParen)
 		alias := p.parseOptionalAlias(dialect.ReservedForTableAlias)
-		return &sqlast.Derived{
+		derived := &sqlast.Derived{
 			Lateral:  isLateral,
+			LParen:   l.From,
+			RParen:   r.To,
 			SubQuery: subquery,
 			Alias:    alias,
-		}, nil
+		}
+		if isLateral {
+			derived.LateralPos = lateral.From
+		}
+		return derived, nil
 	} else if isLateral && !ok {
 		t, _ := p.nextToken()
 		return nil, errors.Errorf("after lateral expected %s but %+v", sqltoken.LParen, t)
@@ -1890,6 +1915,7 @@ func (p *Parser) parseTableFactor() (sqlast.TableFactor, error) {
 		return nil, errors.Errorf("parseObjectName failed: %w", err)
 	}
 	var args []sqlast.Node
+	var argsRParen sqltoken.Pos
 	if ok, _ := p.consumeToken(sqltoken.LParen); ok {
 		a, err := p.parseOptionalArgs()
 		if err != nil {
@@ -1899,11 +1925,12 @@ func (p *Parser) parseTableFactor() (sqlast.TableFactor, error) {
 		if args == nil {
 			args = []sqlast.Node{}
 		}
-		p.expectToken(sqltoken.RParen)
+		argsRParen = p.expectToken(sqltoken.RParen).To
 	}
 	alias := p.parseOptionalAlias(dialect.ReservedForTableAlias)
 
 	var withHints []sqlast.Node
+	var withHintsRParen sqltoken.Pos
 	if ok, _, _ := p.parseKeyword("WITH"); ok {
 		if ok, _ := p.consumeToken(sqltoken.LParen); ok {
 			h, err := p.parseExprList()
@@ -1911,24 +1938,26 @@ func (p *Parser) parseTableFactor() (sqlast.TableFactor, error) {
 				return nil, errors.Errorf("parseExprList failed: %w", err)
 			}
 			withHints = h
-			p.expectToken(sqltoken.RParen)
+			withHintsRParen = p.expectToken(sqltoken.RParen).To
 		} else {
 			p.prevToken()
 		}
 	}
 
 	return &sqlast.Table{
-		Name:      name,
-		Args:      args,
-		Alias:     alias,
-		WithHints: withHints,
+		Name:            name,
+		Args:            args,
+		ArgsRParen:      argsRParen,
+		Alias:           alias,
+		WithHints:       withHints,
+		WithHintsRParen: withHintsRParen,
 	}, nil
 
 }
 
 func (p *Parser) parseLimit() (*sqlast.LimitExpr, error) {
-	if ok, _, _ := p.parseKeyword("ALL"); ok {
-		return &sqlast.LimitExpr{All: true}, nil
+	if ok, tok, _ := p.parseKeyword("ALL"); ok {
+		return &sqlast.LimitExpr{All: true, AllPos: tok.To}, nil
 	}
 
 	i, tok, err := p.parseLiteralInt()
@@ -1937,8 +1966,8 @@ func (p *Parser) parseLimit() (*sqlast.LimitExpr, error) {
 	}
 
 	var offset *sqlast.LongValue
-	if ok, tok, _ := p.parseKeyword("OFFSET"); ok {
-		o, _, err := p.parseLiteralInt()
+	if ok, _, _ := p.parseKeyword("OFFSET"); ok {
+		o, tok, err := p.parseLiteralInt()
 		if err != nil {
 			return nil, errors.Errorf("invalid offset value: %w", err)
 		}
@@ -2527,18 +2556,22 @@ func (p *Parser) parseOrderByExprList() ([]*sqlast.OrderByExpr, error) {
 			return nil, errors.Errorf("ParseExpr failed: %w", err)
 		}
 		var asc *bool
+		var ordering sqltoken.Pos
 
-		if ok, _, _ := p.parseKeyword("ASC"); ok {
+		if ok, tok, _ := p.parseKeyword("ASC"); ok {
 			b := true
 			asc = &b
-		} else if ok, _, _ := p.parseKeyword("DESC"); ok {
+			ordering = tok.To
+		} else if ok, tok, _ := p.parseKeyword("DESC"); ok {
 			b := false
 			asc = &b
+			ordering = tok.To
 		}
 
 		exprList = append(exprList, &sqlast.OrderByExpr{
-			Expr: expr,
-			ASC:  asc,
+			Expr:        expr,
+			OrderingPos: ordering,
+			ASC:         asc,
 		})
 
 		if t, _ := p.peekToken(); t != nil && t.Kind == sqltoken.Comma {
@@ -2598,20 +2631,22 @@ func (p *Parser) parseWindowFrame() (*sqlast.WindowFrame, error) {
 }
 
 func (p *Parser) parseWindowFrameBound() (sqlast.SQLWindowFrameBound, error) {
-	if ok, _, _ := p.parseKeywords("CURRENT", "ROW"); ok {
-		return &sqlast.CurrentRow{}, nil
+	if ok, toks, _ := p.parseKeywords("CURRENT", "ROW"); ok {
+		return &sqlast.CurrentRow{Current: toks[0].From, Row: toks[1].To}, nil
 	}
 
 	var rows *uint64
-	if ok, _, _ := p.parseKeyword("UNBOUNDED"); ok {
-		if ok, _, _ := p.parseKeyword("PRECEDING"); ok {
-			return &sqlast.UnboundedPreceding{}, nil
+	var first *sqltoken.Token
+	if ok, tok, _ := p.parseKeyword("UNBOUNDED"); ok {
+		if ok, preceding, _ := p.parseKeyword("PRECEDING"); ok {
+			return &sqlast.UnboundedPreceding{Unbounded: tok.From, Preceding: preceding.To}, nil
 		}
-		if ok, _, _ := p.parseKeyword("FOLLOWING"); ok {
-			return &sqlast.UnboundedFollowing{}, nil
+		if ok, following, _ := p.parseKeyword("FOLLOWING"); ok {
+			return &sqlast.UnboundedFollowing{Unbounded: tok.From, Following: following.To}, nil
 		}
+		return nil, errors.Errorf("expected PRECEDING or FOLLOWING")
 	} else {
-		i, _, err := p.parseLiteralInt()
+		i, tok, err := p.parseLiteralInt()
 		if err != nil {
 			return nil, errors.Errorf("parseLiteralInt failed: %w", err)
 		}
@@ -2620,13 +2655,14 @@ func (p *Parser) parseWindowFrameBound() (sqlast.SQLWindowFrameBound, error) {
 		}
 		ui := uint64(i)
 		rows = &ui
+		first = tok
 	}
 
-	if ok, _, _ := p.parseKeyword("PRECEDING"); ok {
-		return &sqlast.Preceding{Bound: rows}, nil
+	if ok, preceding, _ := p.parseKeyword("PRECEDING"); ok {
+		return &sqlast.Preceding{From: first.From, Bound: rows, Preceding: preceding.To}, nil
 	}
-	if ok, _, _ := p.parseKeyword("FOLLOWING"); ok {
-		return &sqlast.Following{Bound: rows}, nil
+	if ok, following, _ := p.parseKeyword("FOLLOWING"); ok {
+		return &sqlast.Following{From: first.From, Bound: rows, Following: following.To}, nil
 	}
 	return nil, errors.Errorf("expected PRECEDING or FOLLOWING")
 }
diff --git a/sqlast/ast.go b/sqlast/ast.go
index f50762f..9a4e1d4 100644
--- a/sqlast/ast.go
+++ b/sqlast/ast.go
@@ -510,11 +510,11 @@ type SubQuery struct {
 }
 
 func (s *SubQuery) Pos() sqltoken.Pos {
-	return s.RParen
+	return s.LParen
 }
 
 func (s *SubQuery) End() sqltoken.Pos {
-	return s.LParen
+	return s.RParen
 }
 
 func (s *SubQuery) ToSQLString() string {
diff --git a/sqlast/query.go b/sqlast/query.go
index 9d681bc..d61c3d3 100644
--- a/sqlast/query.go
+++ b/sqlast/query.go
@@ -326,7 +326,7 @@ func (t *Table) End() sqltoken.Pos {
 		return t.Alias.End()
 	}
 
-	if len(t.Args) != 0 {
+	if t.Args != nil {
 		return t.ArgsRParen
 	}
 
@@ -375,7 +375,7 @@ func (d *Derived) End() sqltoken.Pos {
 		return d.Alias.End()
 	}
 
-	return d.LParen
+	return d.RParen
 }
 
 func (d *Derived) ToSQLString() string {
-- 
2.43.0


From d940922f8ee100abfd6c771aae423f0367e4daa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:49 +0000
Subject: [PATCH 40/42] fix: set the positions of expressions, statements and
 decorations

---
 parser.go      | 57 +++++++++++++++++++++++++++++++-------------------
 sqlast/ast.go  | 56 +++++++++++++++++++++++++++++++------------------
 sqlast/stmt.go | 43 ++++++++++++++++++++++++++++++++-----
 3 files changed, 110 insertions(+), 46 deletions(-)

diff --git a/parser.go b/parser.go
index 94f164d..7e4c519 100644
--- a/parser.go
+++ b/parser.go
@@ -183,7 +183,7 @@ func (p *Parser) ParseStatement() (_ sqlast.Stmt, err error) {
 		if err != nil {
 			return nil, err
 		}
-		return &sqlast.ExplainStmt{Stmt: stmt}, nil
+		return &sqlast.ExplainStmt{Stmt: stmt, Explain: tok.From}, nil
 	default:
 		return nil, errors.Errorf("unexpected (or unsupported) keyword %s", keywordOf(word))
 	}
@@ -560,10 +560,10 @@ func (p *Parser) parseCreate() (sqlast.Stmt, error) {
 	}
 
 	if ok, _, _ := p.parseKeyword("INDEX"); ok {
-		return p.parseCreateIndex(false)
+		return p.parseCreateIndex(t, false)
 	}
 	if ok, _, _ := p.parseKeywords("UNIQUE", "INDEX"); ok {
-		return p.parseCreateIndex(true)
+		return p.parseCreateIndex(t, true)
 	}
 
 	return nil, errors.Errorf("TABLE or VIEW or UNIQUE INDEX or INDEX after create")
@@ -617,7 +617,7 @@ func (p *Parser) parseCreateView(create *sqltoken.Token) (sqlast.Stmt, error) {
 
 }
 
-func (p *Parser) parseCreateIndex(unique bool) (sqlast.Stmt, error) {
+func (p *Parser) parseCreateIndex(create *sqltoken.Token, unique bool) (sqlast.Stmt, error) {
 	var indexName *sqlast.Ident
 	ok, _, _ := p.parseKeyword("ON")
 	if !ok {
@@ -644,12 +644,13 @@ func (p *Parser) parseCreateIndex(unique bool) (sqlast.Stmt, error) {
 	}
 
 	var columns []*sqlast.Ident
+	var rparen sqltoken.Pos
 	if ok, _ := p.consumeToken(sqltoken.LParen); ok {
 		columns, err = p.parseColumnNames()
 		if err != nil {
 			return nil, errors.Errorf("parseColumnNames failed: %w", err)
 		}
-		p.expectToken(sqltoken.RParen)
+		rparen = p.expectToken(sqltoken.RParen).To
 	}
 
 	var selection sqlast.Node
@@ -662,11 +663,13 @@ func (p *Parser) parseCreateIndex(unique bool) (sqlast.Stmt, error) {
 	}
 
 	return &sqlast.CreateIndexStmt{
+		Create:      create.From,
 		IsUnique:    unique,
 		IndexName:   indexName,
 		TableName:   tableName,
 		MethodName:  methodName,
 		ColumnNames: columns,
+		RParen:      rparen,
 		Selection:   selection,
 	}, nil
 }
@@ -938,6 +941,7 @@ CONSTRAINT_LOOP:
 		word, ok := tok.Value.(*sqltoken.SQLWord)
 
 		var name *sqlast.Ident
+		var constraint sqltoken.Pos
 		if ok && keywordOf(word) == "CONSTRAINT" {
 			p.mustNextToken()
 			i, err := p.parseIdentifier()
@@ -945,6 +949,7 @@ CONSTRAINT_LOOP:
 				return nil, errors.Errorf("parseIdentifier failed: %w", err)
 			}
 			name = i
+			constraint = tok.From
 		}
 
 		tok, _ = p.peekToken()
@@ -1026,8 +1031,9 @@ CONSTRAINT_LOOP:
 		}
 
 		constraints = append(constraints, &sqlast.ColumnConstraint{
-			Name: name,
-			Spec: spec,
+			Name:       name,
+			Constraint: constraint,
+			Spec:       spec,
 		})
 
 	}
@@ -2117,14 +2123,16 @@ func (p *Parser) parseInfix(expr sqlast.Node, precedence uint) (sqlast.Node, err
 
 		switch keywordOf(word) {
 		case "IS":
-			if ok, _, _ := p.parseKeyword("NULL"); ok {
+			if ok, null, _ := p.parseKeyword("NULL"); ok {
 				return &sqlast.IsNull{
-					X: expr,
+					X:    expr,
+					Null: null.To,
 				}, nil
 			}
-			if ok, _, _ := p.parseKeywords("NOT", "NULL"); ok {
+			if ok, toks, _ := p.parseKeywords("NOT", "NULL"); ok {
 				return &sqlast.IsNotNull{
-					X: expr,
+					X:    expr,
+					Null: toks[1].To,
 				}, nil
 			}
 			return nil, errors.Errorf("NULL or NOT NULL after IS")
@@ -2147,7 +2155,6 @@ func (p *Parser) parseInfix(expr sqlast.Node, precedence uint) (sqlast.Node, err
 	return nil, errors.Errorf("no infix parser for sqltoken %+v", tok)
 }
 
-// TODO position
 func (p *Parser) parsePGCast(expr sqlast.Node) (sqlast.Node, error) {
 	tp, err := p.ParseDataType()
 	if err != nil {
@@ -2156,6 +2163,8 @@ func (p *Parser) parsePGCast(expr sqlast.Node) (sqlast.Node, error) {
 	return &sqlast.Cast{
 		Expr:     expr,
 		DataType: tp,
+		Cast:     expr.Pos(),
+		RParen:   tp.End(),
 	}, nil
 }
 
@@ -2344,6 +2353,7 @@ func (p *Parser) parsePrefix() (sqlast.Node, error) {
 				{Value: word.String(), From: tok.From, To: tok.To},
 			}
 			endWithWildcard := false
+			var wildcard sqltoken.Pos
 
 			for {
 				if ok, _ := p.consumeToken(sqltoken.Period); !ok {
@@ -2364,6 +2374,7 @@ func (p *Parser) parsePrefix() (sqlast.Node, error) {
 				}
 				if n.Kind == sqltoken.Mult {
 					endWithWildcard = true
+					wildcard = n.From
 					break
 				}
 
@@ -2372,7 +2383,8 @@ func (p *Parser) parsePrefix() (sqlast.Node, error) {
 
 			if endWithWildcard {
 				return &sqlast.QualifiedWildcard{
-					Idents: idParts,
+					Idents:   idParts,
+					Wildcard: wildcard,
 				}, nil
 			}
 
@@ -2481,6 +2493,7 @@ func (p *Parser) parseFunction(name *sqlast.ObjectName) (sqlast.Node, error) {
 	}
 
 	var over *sqlast.WindowSpec
+	var rparen sqltoken.Pos
 	if ok, _, _ := p.parseKeyword("OVER"); ok {
 		p.expectToken(sqltoken.LParen)
 
@@ -2512,7 +2525,7 @@ func (p *Parser) parseFunction(name *sqlast.ObjectName) (sqlast.Node, error) {
 			order = otok.From
 		}
 
-		windowFrame, err := p.parseWindowFrame()
+		windowFrame, overRParen, err := p.parseWindowFrame()
 		if err != nil {
 			return nil, errors.Errorf("parseWindowFrame failed: %w", err)
 		}
@@ -2524,6 +2537,7 @@ func (p *Parser) parseFunction(name *sqlast.ObjectName) (sqlast.Node, error) {
 			Partition:    partition,
 			Order:        order,
 		}
+		rparen = overRParen.To
 	}
 
 	return &sqlast.Function{
@@ -2531,6 +2545,7 @@ func (p *Parser) parseFunction(name *sqlast.ObjectName) (sqlast.Node, error) {
 		Args:       args,
 		Over:       over,
 		ArgsRParen: r.To,
+		OverRparen: rparen,
 	}, nil
 }
 
@@ -2584,7 +2599,7 @@ func (p *Parser) parseOrderByExprList() ([]*sqlast.OrderByExpr, error) {
 	return exprList, nil
 }
 
-func (p *Parser) parseWindowFrame() (*sqlast.WindowFrame, error) {
+func (p *Parser) parseWindowFrame() (*sqlast.WindowFrame, *sqltoken.Token, error) {
 	var windowFrame *sqlast.WindowFrame
 	t, _ := p.peekToken()
 	if t != nil && t.Kind == sqltoken.SQLKeyword {
@@ -2594,19 +2609,20 @@ func (p *Parser) parseWindowFrame() (*sqlast.WindowFrame, error) {
 		// FIXME
 		units, err := u.FromStr(keywordOf(w))
 		if err != nil {
-			return nil, errors.Errorf("invalid window frame unit: %w", err)
+			return nil, nil, errors.Errorf("invalid window frame unit: %w", err)
 		}
+		units.From, units.To = t.From, t.To
 		p.mustNextToken()
 
 		if ok, _, _ := p.parseKeyword("BETWEEN"); ok {
 			startBound, err := p.parseWindowFrameBound()
 			if err != nil {
-				return nil, errors.Errorf("parseWindowFrameBound: %w", err)
+				return nil, nil, errors.Errorf("parseWindowFrameBound: %w", err)
 			}
 			p.expectKeyword("AND")
 			endBound, err := p.parseWindowFrameBound()
 			if err != nil {
-				return nil, errors.Errorf("parseWindowFrameBound: %w", err)
+				return nil, nil, errors.Errorf("parseWindowFrameBound: %w", err)
 			}
 
 			windowFrame = &sqlast.WindowFrame{
@@ -2617,7 +2633,7 @@ func (p *Parser) parseWindowFrame() (*sqlast.WindowFrame, error) {
 		} else {
 			startBound, err := p.parseWindowFrameBound()
 			if err != nil {
-				return nil, errors.Errorf("parseWindowFrameBound: %w", err)
+				return nil, nil, errors.Errorf("parseWindowFrameBound: %w", err)
 			}
 			windowFrame = &sqlast.WindowFrame{
 				StartBound: startBound,
@@ -2626,8 +2642,7 @@ func (p *Parser) parseWindowFrame() (*sqlast.WindowFrame, error) {
 		}
 	}
 
-	p.expectToken(sqltoken.RParen)
-	return windowFrame, nil
+	return windowFrame, p.expectToken(sqltoken.RParen), nil
 }
 
 func (p *Parser) parseWindowFrameBound() (sqlast.SQLWindowFrameBound, error) {
diff --git a/sqlast/ast.go b/sqlast/ast.go
index 9a4e1d4..e3e8d90 100644
--- a/sqlast/ast.go
+++ b/sqlast/ast.go
@@ -28,24 +28,33 @@ type File struct {
 }
 
 func (f *File) End() sqltoken.Pos {
+	var end sqltoken.Pos
 
+	if len(f.Stmts) != 0 {
+		end = f.Stmts[len(f.Stmts)-1].End()
+	}
 	if len(f.Comments) != 0 {
-		if sqltoken.ComparePos(f.Comments[len(f.Comments)-1].End(), f.Stmts[len(f.Stmts)-1].End()) == 1 {
-			return f.Comments[len(f.Comments)-1].End()
+		if c := f.Comments[len(f.Comments)-1].End(); len(f.Stmts) == 0 || sqltoken.ComparePos(c, end) == 1 {
+			end = c
 		}
 	}
 
-	return f.Stmts[len(f.Stmts)-1].End()
+	return end
 }
 
 func (f *File) Pos() sqltoken.Pos {
+	var pos sqltoken.Pos
+
+	if len(f.Stmts) != 0 {
+		pos = f.Stmts[0].Pos()
+	}
 	if len(f.Comments) != 0 {
-		if sqltoken.ComparePos(f.Stmts[0].Pos(), f.Comments[0].Pos()) == 1 {
-			return f.Comments[0].Pos()
+		if c := f.Comments[0].Pos(); len(f.Stmts) == 0 || sqltoken.ComparePos(pos, c) == 1 {
+			pos = c
 		}
 	}
 
-	return f.Stmts[0].Pos()
+	return pos
 }
 
 func (f *File) ToSQLString() string {
@@ -125,7 +134,8 @@ func (s *Wildcard) WriteTo(w io.Writer) (int64, error) {
 
 // `table.*`, schema.table.*
 type QualifiedWildcard struct {
-	Idents []*Ident
+	Idents   []*Ident
+	Wildcard sqltoken.Pos // position of '*'
 }
 
 func (s *QualifiedWildcard) Pos() sqltoken.Pos {
@@ -133,7 +143,10 @@ func (s *QualifiedWildcard) Pos() sqltoken.Pos {
 }
 
 func (s *QualifiedWildcard) End() sqltoken.Pos {
-	return s.Idents[len(s.Idents)-1].End()
+	return sqltoken.Pos{
+		Line: s.Wildcard.Line,
+		Col:  s.Wildcard.Col + 1,
+	}
 }
 
 func (s *QualifiedWildcard) ToSQLString() string {
@@ -167,7 +180,8 @@ func (s *CompoundIdent) WriteTo(w io.Writer) (int64, error) {
 
 // ` X IS NULL`
 type IsNull struct {
-	X Node
+	X    Node
+	Null sqltoken.Pos // last position of the NULL keyword
 }
 
 func (s *IsNull) Pos() sqltoken.Pos {
@@ -175,10 +189,7 @@ func (s *IsNull) Pos() sqltoken.Pos {
 }
 
 func (s *IsNull) End() sqltoken.Pos {
-	return sqltoken.Pos{
-		Line: s.X.End().Line,
-		Col:  s.X.End().Col + 8,
-	}
+	return s.Null
 }
 
 func (s *IsNull) ToSQLString() string {
@@ -191,7 +202,8 @@ func (s *IsNull) WriteTo(w io.Writer) (int64, error) {
 
 // `X IS NOT NULL`
 type IsNotNull struct {
-	X Node
+	X    Node
+	Null sqltoken.Pos // last position of the NULL keyword
 }
 
 func (s *IsNotNull) Pos() sqltoken.Pos {
@@ -199,10 +211,7 @@ func (s *IsNotNull) Pos() sqltoken.Pos {
 }
 
 func (s *IsNotNull) End() sqltoken.Pos {
-	return sqltoken.Pos{
-		Line: s.X.End().Line,
-		Col:  s.X.End().Col + 12,
-	}
+	return s.Null
 }
 
 func (s *IsNotNull) ToSQLString() string {
@@ -572,8 +581,11 @@ func (s *WindowSpec) Pos() sqltoken.Pos {
 	if len(s.OrderBy) != 0 {
 		return s.Order
 	}
+	if s.WindowsFrame != nil {
+		return s.WindowsFrame.Pos()
+	}
 
-	return s.WindowsFrame.Pos()
+	return sqltoken.Pos{}
 }
 
 func (s *WindowSpec) End() sqltoken.Pos {
@@ -585,7 +597,11 @@ func (s *WindowSpec) End() sqltoken.Pos {
 		return s.OrderBy[len(s.OrderBy)-1].End()
 	}
 
-	return s.PartitionBy[len(s.PartitionBy)-1].End()
+	if len(s.PartitionBy) != 0 {
+		return s.PartitionBy[len(s.PartitionBy)-1].End()
+	}
+
+	return sqltoken.Pos{}
 }
 
 func (s *WindowSpec) ToSQLString() string {
diff --git a/sqlast/stmt.go b/sqlast/stmt.go
index a0da7b4..82f45e7 100644
--- a/sqlast/stmt.go
+++ b/sqlast/stmt.go
@@ -288,7 +288,15 @@ func (c *CreateTableStmt) Pos() sqltoken.Pos {
 }
 
 func (c *CreateTableStmt) End() sqltoken.Pos {
-	return c.Elements[len(c.Elements)-1].End()
+	if len(c.Options) != 0 {
+		return c.Options[len(c.Options)-1].End()
+	}
+
+	if len(c.Elements) != 0 {
+		return c.Elements[len(c.Elements)-1].End()
+	}
+
+	return c.Name.End()
 }
 
 func (c *CreateTableStmt) ToSQLString() string {
@@ -496,7 +504,24 @@ func (c *ColumnDef) Pos() sqltoken.Pos {
 }
 
 func (c *ColumnDef) End() sqltoken.Pos {
-	return c.Constraints[len(c.Constraints)-1].End()
+	end := c.DataType.End()
+
+	// the clauses may have been written in any order
+	if c.Default != nil && sqltoken.ComparePos(c.Default.End(), end) == 1 {
+		end = c.Default.End()
+	}
+	for _, m := range c.MyDataTypeDecoration {
+		if sqltoken.ComparePos(m.End(), end) == 1 {
+			end = m.End()
+		}
+	}
+	for _, cons := range c.Constraints {
+		if sqltoken.ComparePos(cons.End(), end) == 1 {
+			end = cons.End()
+		}
+	}
+
+	return end
 }
 
 func (c *ColumnDef) ToSQLString() string {
@@ -550,9 +575,9 @@ type ColumnConstraint struct {
 
 func (c *ColumnConstraint) Pos() sqltoken.Pos {
 	if c.Name == nil {
-		return c.Constraint
+		return c.Spec.Pos()
 	}
-	return c.Name.Pos()
+	return c.Constraint
 }
 
 func (c *ColumnConstraint) End() sqltoken.Pos {
@@ -1068,7 +1093,15 @@ func (c *CreateIndexStmt) End() sqltoken.Pos {
 		return c.Selection.End()
 	}
 
-	return c.RParen
+	if len(c.ColumnNames) != 0 {
+		return c.RParen
+	}
+
+	if c.MethodName != nil {
+		return c.MethodName.End()
+	}
+
+	return c.TableName.End()
 }
 
 func (c *CreateIndexStmt) ToSQLString() string {
-- 
2.43.0


From c554404c4af95f37fc10c56d013b8af52e14484b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:07 +0000
Subject: [PATCH 41/42] fix: set the positions of operators and INNER

---
 parser.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/parser.go b/parser.go
index 7e4c519..9e36ab7 100644
--- a/parser.go
+++ b/parser.go
@@ -1761,7 +1761,7 @@ func (p *Parser) parseTableReferenceRight() (sqlast.TableReference, error) {
 				Ref: ref,
 			},
 			Spec: spec,
-			Type: &sqlast.JoinType{Condition: sqlast.INNER},
+			Type: &sqlast.JoinType{Condition: sqlast.INNER, From: tok.From, To: tok.To},
 		}, nil
 	case "LEFT", "RIGHT", "FULL", "JOIN":
 		p.prevToken()
@@ -2065,6 +2065,7 @@ func (p *Parser) parseInfix(expr sqlast.Node, precedence uint) (sqlast.Node, err
 		return nil, errors.Errorf("nextToken failed: %w", err)
 	}
 
+	end := tok.To
 	switch tok.Kind {
 	case sqltoken.Eq:
 		operator = sqlast.Eq
@@ -2098,9 +2099,10 @@ func (p *Parser) parseInfix(expr sqlast.Node, precedence uint) (sqlast.Node, err
 		case "LIKE":
 			operator = sqlast.Like
 		case "NOT":
-			ok, _, _ := p.parseKeyword("LIKE")
+			ok, like, _ := p.parseKeyword("LIKE")
 			if ok {
 				operator = sqlast.NotLike
+				end = like.To
 			}
 		}
 	}
@@ -2113,7 +2115,7 @@ func (p *Parser) parseInfix(expr sqlast.Node, precedence uint) (sqlast.Node, err
 
 		return &sqlast.BinaryExpr{
 			Left:  expr,
-			Op:    &sqlast.Operator{Type: operator, From: tok.From, To: tok.To},
+			Op:    &sqlast.Operator{Type: operator, From: tok.From, To: end},
 			Right: right,
 		}, nil
 	}
@@ -2338,7 +2340,7 @@ func (p *Parser) parsePrefix() (sqlast.Node, error) {
 			}
 			return &sqlast.UnaryExpr{
 				From: tok.From,
-				Op:   &sqlast.Operator{Type: sqlast.Not},
+				Op:   &sqlast.Operator{Type: sqlast.Not, From: tok.From, To: tok.To},
 				Expr: expr,
 			}, nil
 		default:
-- 
2.43.0


From a1367a9efd1ccca2c4ddeada2bd53a49f427ec58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:11 +0000
Subject: [PATCH 42/42] fix: keep the line end of CRLF inside multi-line
 comments

---
 sqltoken/tokenizer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqltoken/tokenizer.go b/sqltoken/tokenizer.go
index 29a8f4a..a5e1ca6 100644
--- a/sqltoken/tokenizer.go
+++ b/sqltoken/tokenizer.go
@@ -550,7 +550,7 @@ func (t *Tokenizer) tokenizeMultilineComment() (string, error) {
 
 		if n == '\r' {
 			if t.Scanner.Peek() == '\n' {
-				t.Scanner.Next()
+				n = t.Scanner.Next()
 			}
 			t.Col = 1
 			t.Line += 1
-- 
2.43.0

