From c750a35605801d935c51fe133b9a79bcc1e5430c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:57 +0000
Subject: [PATCH 01/74] fix: do not drop binary operator after parenthesized
 expression

Dense code such as z=(a)==b was taken for a cast and the operator was silently
dropped. Operators that never are unary cannot follow a cast.
---
 parser-expr.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/parser-expr.c b/parser-expr.c
index eb61f18..196542a 100644
--- a/parser-expr.c
+++ b/parser-expr.c
@@ -147,9 +147,21 @@ peek_binary_operator(struct lexer *lx, const struct token *rparen)
 {
 	struct token *op;
 
-	return lexer_peek_if_flags(lx, TOKEN_FLAG_BINARY, &op) &&
-	    token_has_spaces(rparen) &&
-	    (token_has_spaces(op) || token_has_line(op, 1));
+	if (!lexer_peek_if_flags(lx, TOKEN_FLAG_BINARY, &op))
+		return 0;
+
+	switch (op->tk_type) {
+	case TOKEN_AMP:
+	case TOKEN_MINUS:
+	case TOKEN_PLUS:
+	case TOKEN_STAR:
+		/* Could be an unary operator, let the spaces decide. */
+		return token_has_spaces(rparen) &&
+		    (token_has_spaces(op) || token_has_line(op, 1));
+	default:
+		/* Never an unary operator, cannot be the operand of a cast. */
+		return 1;
+	}
 }
 
 static struct doc *
-- 
2.43.0


From c9db6bd0bb87b2ded37a61195513a2525c8551b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:57 +0000
Subject: [PATCH 02/74] fix: keep signed exponent as part of floating point
 literals

1e-3 was emitted as 1e - 3 which no longer is a valid literal. The same goes for
hexadecimal floating point literals.
---
 clang.c | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/clang.c b/clang.c
index 0964df1..fb82111 100644
--- a/clang.c
+++ b/clang.c
@@ -113,6 +113,7 @@ static void		 token_branch_parent_update_flags(struct token *);
 static void		 token_branch_revert(struct token *);
 static void		 token_prolong(struct token *, struct token *);
 
+static int	isexponent(unsigned char, unsigned char, int);
 static int	isnum(unsigned char);
 
 static MAP(const char, *, const struct token *) clang_tokens;
@@ -591,10 +592,16 @@ clang_read(struct lexer *lx, void *arg)
 		tk = lexer_emit(lx, &st,
 		    delim == '"' ? TOKEN_STRING : TOKEN_LITERAL);
 	} else if (isdigit(ch) || ch == '.') {
+		unsigned char pch;
+		int ishex = 0;
+
 		do {
+			pch = ch;
 			if (lexer_getc(lx, &ch))
 				goto eof;
-		} while (isnum(ch));
+			if (pch == '0' && (ch == 'x' || ch == 'X'))
+				ishex = 1;
+		} while (isnum(ch) || isexponent(pch, ch, ishex));
 		lexer_ungetc(lx);
 		tk = lexer_emit(lx, &st, TOKEN_LITERAL);
 	} else if (isalpha(ch) || ch == '_') {
@@ -1465,6 +1472,20 @@ token_prolong(struct token *dst, struct token *src)
 	token_rele(src);
 }
 
+/*
+ * Returns non-zero if the given character is part of the exponent of a floating
+ * point literal. Decimal literals use e and hexadecimal literals use p.
+ */
+static int
+isexponent(unsigned char pch, unsigned char ch, int ishex)
+{
+	if (ishex && (ch == 'p' || ch == 'P'))
+		return 1;
+	if (ch != '+' && ch != '-')
+		return 0;
+	return ishex ? pch == 'p' || pch == 'P' : pch == 'e' || pch == 'E';
+}
+
 static int
 isnum(unsigned char ch)
 {
-- 
2.43.0


From 5380f9a33fa02d851bb273518206ff3316050bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:17 +0000
Subject: [PATCH 03/74] fix: do not remove semicolon at which muting ends

Removing the token that terminates a muted cpp branch causes everything
after it to be silently dropped from the output.
---
 parser-decl.c | 5 ++++-
 parser-stmt.c | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/parser-decl.c b/parser-decl.c
index 0e4ddf0..9e4470a 100644
--- a/parser-decl.c
+++ b/parser-decl.c
@@ -254,7 +254,10 @@ out:
 		if (flags & PARSER_DECL_TRIM_SEMI) {
 			struct token *nx;
 
-			while (lexer_if(lx, TOKEN_SEMI, &nx))
+			/* Must preserve the token at which muting ends. */
+			while (lexer_peek_if(lx, TOKEN_SEMI, &nx) &&
+			    nx != pr->pr_token.unmute &&
+			    lexer_if(lx, TOKEN_SEMI, &nx))
 				lexer_remove(lx, nx);
 		}
 
diff --git a/parser-stmt.c b/parser-stmt.c
index 493057d..c1f9137 100644
--- a/parser-stmt.c
+++ b/parser-stmt.c
@@ -167,7 +167,8 @@ parser_stmt_block(struct parser *pr, struct parser_stmt_block_arg *arg)
 	 * optional lines.
 	 */
 	nx = token_next(rbrace);
-	if (nx != NULL && nx->tk_type == TOKEN_SEMI)
+	if (nx != NULL && nx->tk_type == TOKEN_SEMI &&
+	    nx != pr->pr_token.unmute)
 		lexer_remove(lx, nx);
 
 	if (doindent)
-- 
2.43.0


From fceb46d0691a76d0678ac0cf07d8723d09478397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:38 +0000
Subject: [PATCH 04/74] fix: do not remove semicolon in other branch after
 right brace

It is only redundant if it follows the right brace in the same cpp branch.
Otherwise, it might be the empty body of a statement.
---
 parser-stmt.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser-stmt.c b/parser-stmt.c
index c1f9137..0a6c84e 100644
--- a/parser-stmt.c
+++ b/parser-stmt.c
@@ -164,10 +164,12 @@ parser_stmt_block(struct parser *pr, struct parser_stmt_block_arg *arg)
 
 	/*
 	 * Remove semi before emitting the right brace in order to honor
-	 * optional lines.
+	 * optional lines. However, a semicolon being the first token of another
+	 * branch does not necessarily succeed the right brace.
 	 */
 	nx = token_next(rbrace);
 	if (nx != NULL && nx->tk_type == TOKEN_SEMI &&
+	    (nx->tk_flags & TOKEN_FLAG_BRANCH) == 0 &&
 	    nx != pr->pr_token.unmute)
 		lexer_remove(lx, nx);
 
-- 
2.43.0


From 147d5abb706d332d6f42994130c89d1297fa20d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:28 +0000
Subject: [PATCH 05/74] fix: do not fuse adjacent operators

Unary operators followed by an operand starting with the same character and
division followed by dereference lost the space in between, turning - -1 into
--1 and / *p into a comment.
---
 expr.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/expr.c b/expr.c
index f7d4319..cbaa921 100644
--- a/expr.c
+++ b/expr.c
@@ -802,8 +802,17 @@ static struct doc *
 expr_doc_unary(struct expr *ex, struct expr_state *es, struct doc *dc)
 {
 	expr_doc_token(es, ex->ex_tk, dc);
-	if (ex->ex_lhs != NULL)
+	if (ex->ex_lhs != NULL) {
+		const struct token *nx = token_next(ex->ex_tk);
+
+		/* Avoid fusing with operand, as in - -1 becoming --1. */
+		if (nx != NULL && ex->ex_tk->tk_str[0] == nx->tk_str[0] &&
+		    (ex->ex_tk->tk_type == TOKEN_PLUS ||
+		     ex->ex_tk->tk_type == TOKEN_MINUS ||
+		     ex->ex_tk->tk_type == TOKEN_AMP))
+			doc_literal(" ", dc);
 		dc = expr_doc(ex->ex_lhs, es, dc);
+	}
 	return dc;
 }
 
@@ -1218,7 +1227,7 @@ expr_doc_indent_parens(const struct expr_state *es, struct doc *dc)
 static int
 expr_doc_has_spaces(const struct expr *ex)
 {
-	struct token *pv;
+	struct token *nx, *pv;
 
 	/*
 	 * Only applicable to binary operators where spaces around it are
@@ -1227,6 +1236,12 @@ expr_doc_has_spaces(const struct expr *ex)
 	if ((ex->ex_tk->tk_flags & TOKEN_FLAG_SPACE) == 0)
 		return 1;
 
+	/* Division by dereferenced pointer must not turn into a comment. */
+	nx = token_next(ex->ex_tk);
+	if (ex->ex_tk->tk_type == TOKEN_SLASH && nx != NULL &&
+	    nx->tk_type == TOKEN_STAR)
+		return 1;
+
 	if (token_has_spaces(ex->ex_tk))
 		return 1;
 	pv = token_prev(ex->ex_tk);
-- 
2.43.0


From 574adfb27e5ce11c84e9eaebf37c71c073b6356a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:04 +0000
Subject: [PATCH 06/74] fix: do not drop binary operator after parenthesized
 postfix expression

---
 parser-expr.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/parser-expr.c b/parser-expr.c
index 196542a..dbaf866 100644
--- a/parser-expr.c
+++ b/parser-expr.c
@@ -143,10 +143,14 @@ expr_recover(const struct expr_exec_arg *ea, void *arg)
 }
 
 static int
-peek_binary_operator(struct lexer *lx, const struct token *rparen)
+peek_binary_operator(struct lexer *lx, struct token *pv)
 {
 	struct token *op;
 
+	/* Could be a postfix operator, must then be followed by an operator. */
+	if (!lexer_if(lx, TOKEN_PLUSPLUS, &pv))
+		(void)lexer_if(lx, TOKEN_MINUSMINUS, &pv);
+
 	if (!lexer_peek_if_flags(lx, TOKEN_FLAG_BINARY, &op))
 		return 0;
 
@@ -156,7 +160,7 @@ peek_binary_operator(struct lexer *lx, const struct token *rparen)
 	case TOKEN_PLUS:
 	case TOKEN_STAR:
 		/* Could be an unary operator, let the spaces decide. */
-		return token_has_spaces(rparen) &&
+		return token_has_spaces(pv) &&
 		    (token_has_spaces(op) || token_has_line(op, 1));
 	default:
 		/* Never an unary operator, cannot be the operand of a cast. */
-- 
2.43.0


From 893ffa4bd7e4063de78e4dcc02615e3014cb26a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:04 +0000
Subject: [PATCH 07/74] fix: do not drop comment after redundant semicolon

---
 parser.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parser.c b/parser.c
index f65bd2b..6fd9386 100644
--- a/parser.c
+++ b/parser.c
@@ -375,10 +375,12 @@ parser_semi(struct parser *pr, struct doc *dc)
 
 	/*
 	 * Discard subsequent semicolon(s) on the same line. The last one is
-	 * emitted in order to honor optional lines.
+	 * emitted in order to honor optional lines. However, never discard
+	 * semicolon(s) accompanied by comments.
 	 */
 	lexer_peek_enter(lx, &s);
-	while (lexer_peek_if(lx, TOKEN_SEMI, &nx) &&
+	while (token_is_moveable(last != NULL ? last : semi) &&
+	    lexer_peek_if(lx, TOKEN_SEMI, &nx) &&
 	    token_cmp(semi, nx) == 0 &&
 	    lexer_pop(lx, &nx))
 		last = nx;
-- 
2.43.0


From edcf235dd2a54ef3edcca0b64f5b28a17fe9713f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:45 +0000
Subject: [PATCH 08/74] fix: do not align cpp continuations with absent column
 limit

Caused gigabytes of white space to be emitted while using ColumnLimit 0 or
less than IndentWidth.
---
 cpp-align.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cpp-align.c b/cpp-align.c
index d48a4b6..586cdee 100644
--- a/cpp-align.c
+++ b/cpp-align.c
@@ -3,6 +3,7 @@
 #include "config.h"
 
 #include <ctype.h>
+#include <limits.h>
 #include <string.h>
 
 #include "libks/arena-buffer.h"
@@ -172,9 +173,10 @@ cpp_align(struct token *tk, const struct style *st, struct arena_scope *s,
 {
 	struct alignment alignment = {
 		.mode	= style(st, AlignEscapedNewlines),
-		.width	= style(st, ColumnLimit) - style(st, IndentWidth),
 		.tabs	= style_use_tabs(st) ? 1 : 0,
 	};
+	unsigned int column_limit = style(st, ColumnLimit);
+	unsigned int indent_width = style(st, IndentWidth);
 	struct ruler rl;
 	struct buffer *out = NULL;
 	struct buffer *bf;
@@ -188,6 +190,12 @@ cpp_align(struct token *tk, const struct style *st, struct arena_scope *s,
 	if (nextline(str, len, &nx) == NULL)
 		return NULL;
 
+	/* Without column limit, there is no right column to align with. */
+	if (alignment.mode == Right && column_limit > INT_MAX)
+		alignment.mode = Left;
+	if (column_limit > indent_width)
+		alignment.width = column_limit - indent_width;
+
 	if (sense_alignment(str, len, st, &alignment)) {
 		cpp_trace(op, "mode %s, width %u, tabs %d, skip %d",
 		    style_keyword_str(alignment.mode), alignment.width,
-- 
2.43.0


From 37b36234c81e92e9512dbc45f7bc13e327ab6ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:41 +0000
Subject: [PATCH 09/74] fix: discard include category lacking a valid regex

Executing a regex never compiled is not valid.
---
 style.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/style.c b/style.c
index ad694c1..14f21f1 100644
--- a/style.c
+++ b/style.c
@@ -1218,9 +1218,16 @@ parse_IncludeCategories(struct style *st, struct lexer *lx,
 	scope = st->scope;
 	st->scope = so->so_type;
 	while (lexer_if(lx, Sequence, NULL)) {
+		struct include_category *ic;
+
 		if (VECTOR_CALLOC(st->include_categories) == NULL)
 			err(1, NULL);
 		style_parse_yaml_documents(st, lx, 1);
+
+		/* Discard category lacking a valid regex. */
+		ic = VECTOR_LAST(st->include_categories);
+		if (ic->pattern == NULL)
+			VECTOR_POP(st->include_categories);
 	}
 	st->scope = scope;
 	/* Only used by style_dump(). */
@@ -1307,6 +1314,8 @@ parse_Regex(struct style *st, struct lexer *lx, const struct style_option *so)
 			    sizeof(errbuf));
 		}
 		lexer_error(lx, tk, __func__, __LINE__, "%s", errbuf);
+		ic->pattern = NULL;
+		memset(&ic->regex, 0, sizeof(ic->regex));
 		return FAIL;
 	}
 	return GOOD;
-- 
2.43.0


From 4b89acb001c54719caf9897dedf880345e51d969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:22 +0000
Subject: [PATCH 10/74] fix: do not underflow while emitting verbatim lines in
 diff mode

The group about to be entered could begin on a line already emitted.
---
 lexer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lexer.c b/lexer.c
index 5512ebe..18fbbd6 100644
--- a/lexer.c
+++ b/lexer.c
@@ -376,6 +376,8 @@ lexer_get_lines(const struct lexer *lx, unsigned int beg, unsigned int end,
 
 	if (beg > nlines || end > nlines)
 		return 0;
+	if (end > 0 && beg > end)
+		return 0;
 
 	bo = lx->lx_lines[beg - 1];
 	if (end == 0)
-- 
2.43.0


From 2479c781a79e5b6351b4ff0d1401f4ddaf847c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:22 +0000
Subject: [PATCH 11/74] fix: do not wait for already emitted verbatim token in
 diff mode

---
 doc.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/doc.c b/doc.c
index 6177cc2..42b3c8e 100644
--- a/doc.c
+++ b/doc.c
@@ -1603,7 +1603,9 @@ doc_diff_covers(const struct doc *dc, struct doc_state *UNUSED(st), void *arg)
 
 	switch (dc->dc_type) {
 	case DOC_VERBATIM:
-		if ((dc->dc_tk->tk_flags & TOKEN_FLAG_DIFF) == 0)
+		/* Ignore already emitted verbatim tokens. */
+		if ((dc->dc_tk->tk_flags & TOKEN_FLAG_DIFF) == 0 &&
+		    dc->dc_tk->tk_lno >= dd->dd_threshold)
 			dd->dd_verbatim = dc->dc_tk;
 		FALLTHROUGH;
 	case DOC_LITERAL:
-- 
2.43.0


From 122afd182e27cb3a8507f549fc4165cf636b42e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:29 +0000
Subject: [PATCH 12/74] fix: use after free of doc walk stack in diff mode

---
 doc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/doc.c b/doc.c
index 42b3c8e..120adc7 100644
--- a/doc.c
+++ b/doc.c
@@ -1812,9 +1812,12 @@ static void
 doc_state_snapshot_restore(const struct doc_state_snapshot *sn,
     struct doc_state *st)
 {
+	VECTOR(const struct doc *) walk = st->st_walk;
 	struct buffer *bf = st->st_bf;
 
 	*st = sn->sn_st;
+	/* Might be reallocated since the snapshot was taken. */
+	st->st_walk = walk;
 	buffer_reset(bf);
 	buffer_puts(bf, sn->sn_bf.ptr, sn->sn_bf.len);
 }
-- 
2.43.0


From 682efe9ea39595713e1ea65aa621ca3c8a875771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:22 +0000
Subject: [PATCH 13/74] fix: do not drop address of label operator

---
 expr.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/expr.c b/expr.c
index cbaa921..d9e9046 100644
--- a/expr.c
+++ b/expr.c
@@ -259,6 +259,7 @@ static const struct expr_rule rules[] = {
 	{ PC14 | PCUNARY,	1,	TOKEN_MINUS,			expr_exec_unary },
 	{ PC14 | PCUNARY,	1,	TOKEN_STAR,			expr_exec_unary },
 	{ PC14 | PCUNARY,	1,	TOKEN_AMP,			expr_exec_unary },
+	{ PC14 | PCUNARY,	1,	TOKEN_AMPAMP,			expr_exec_unary },
 	{ PC14 | PCUNARY,	1,	TOKEN_SIZEOF,			expr_exec_sizeof },
 	{ PC15,			0,	TOKEN_LPAREN,			expr_exec_parens },
 	{ PC15 | PCUNARY,	0,	TOKEN_LPAREN,			expr_exec_parens },
-- 
2.43.0


From 3ec0117340269e3903b6226224c4eb612d0c38e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:53 +0000
Subject: [PATCH 14/74] fix: separate keywords in function argument declarators

---
 parser-func.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/parser-func.c b/parser-func.c
index a868310..3dd2a74 100644
--- a/parser-func.c
+++ b/parser-func.c
@@ -2,6 +2,8 @@
 
 #include "config.h"
 
+#include <ctype.h>
+
 #include "libks/arena.h"
 
 #include "doc.h"
@@ -39,6 +41,7 @@ static int	parser_func_proto(struct parser *, struct doc **,
 
 static int	parser_func_arg_peek(struct parser *, struct parser_type *);
 
+static int	is_word(const struct token *);
 static int	want_line_after_func_impl(struct parser *);
 
 enum parser_func_peek
@@ -250,9 +253,8 @@ parser_func_arg(struct parser *pr, struct doc *dc, struct doc **out,
 
 		if (!lexer_pop(lx, &tk))
 			return parser_fail(pr);
-		/* Identifiers must be separated. */
-		if (pv != NULL && pv->tk_type == TOKEN_IDENT &&
-		    tk->tk_type == TOKEN_IDENT)
+		/* Identifiers, keywords and numbers must be separated. */
+		if (pv != NULL && is_word(pv) && is_word(tk))
 			doc_alloc(DOC_LINE, concat);
 		parser_doc_token(pr, tk, concat);
 		pv = tk;
@@ -266,6 +268,14 @@ parser_func_arg(struct parser *pr, struct doc *dc, struct doc **out,
 	return parser_good(pr);
 }
 
+static int
+is_word(const struct token *tk)
+{
+	unsigned char ch = (unsigned char)tk->tk_str[0];
+
+	return tk->tk_len > 0 && (isalnum(ch) || ch == '_');
+}
+
 static int
 parser_func_impl1(struct parser *pr, struct doc *dc, struct ruler *rl,
     struct parser_type *type)
-- 
2.43.0


From b19358df04355236dab70d76a365043a035f90c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:20 +0000
Subject: [PATCH 15/74] fix: keep encoding prefix as part of string and
 character literals

---
 clang.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/clang.c b/clang.c
index fb82111..2766a2e 100644
--- a/clang.c
+++ b/clang.c
@@ -567,13 +567,17 @@ clang_read(struct lexer *lx, void *arg)
 	if (lexer_getc(lx, &ch))
 		goto eof;
 
-	if (ch == 'L') {
-		unsigned char peek;
-
-		if (lexer_getc(lx, &peek) == 0 && (peek == '"' || peek == '\''))
+	if (ch == 'L' || ch == 'U' || ch == 'u') {
+		struct lexer_state prefix = lexer_get_state(lx);
+		unsigned char peek = '\0';
+
+		(void)lexer_getc(lx, &peek);
+		if (ch == 'u' && peek == '8')
+			(void)lexer_getc(lx, &peek);
+		if (peek == '"' || peek == '\'')
 			ch = peek;
 		else
-			lexer_ungetc(lx);
+			lexer_set_state(lx, &prefix);
 	}
 
 	if (ch == '"' || ch == '\'') {
-- 
2.43.0


From 68e394ded81060f43b4229e876b178214d5d7fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:07 +0000
Subject: [PATCH 16/74] fix: always emit new line after C99 comment

---
 doc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/doc.c b/doc.c
index 120adc7..b24e181 100644
--- a/doc.c
+++ b/doc.c
@@ -826,6 +826,10 @@ doc_exec_verbatim(const struct doc *dc, struct doc_state *st)
 
 	doc_print(dc, st, dc->dc_str, dc->dc_len, 0);
 
+	/* Nothing but a new line can follow such comment. */
+	if (!isblock && (tk->tk_flags & TOKEN_FLAG_COMMENT_C99))
+		st->st_newline = 1;
+
 	/* Unmute in diff mode. */
 	if (DOC_DIFF(st) && st->st_diff.verbatim == tk)
 		st->st_diff.verbatim = NULL;
-- 
2.43.0


From f947bf57fde0a578d321b449326be6c0148a6cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:08 +0000
Subject: [PATCH 17/74] fix: do not drop or duplicate code while recovering
 after branch

Recovering after a preprocessor branch has been taken must account for
the already emitted partial documents. The token at which muting ends
was overwritten causing everything in between to be lost. Stamps for
removed documents and partial documents were not taken into account
while deciding on documents to remove, causing code to be lost or
duplicated.
---
 clang.c | 117 ++++++++++++++++++++++++++++++++++++++------------------
 1 file changed, 79 insertions(+), 38 deletions(-)

diff --git a/clang.c b/clang.c
index 2766a2e..7bcbc7d 100644
--- a/clang.c
+++ b/clang.c
@@ -29,13 +29,23 @@
 #define clang_trace(cl, fmt, ...) \
 	trace(TRACE_CLANG, (cl)->op, (fmt), __VA_ARGS__)
 
+/*
+ * Represents a document, either complete in which tk is the last consumed token
+ * or partial due to branching in which tk is the first token not covered by the
+ * document.
+ */
+struct clang_stamp {
+	struct token	*tk;
+	unsigned int	 branch_lno;
+};
+
 struct clang {
-	const struct style	*st;
-	const struct options	*op;
-	struct cpp_include	*ci;
-	struct token_list	 prefixes;
-	VECTOR(struct token *)	 branches;
-	VECTOR(struct token *)	 stamps;
+	const struct style		*st;
+	const struct options		*op;
+	struct cpp_include		*ci;
+	struct token_list		 prefixes;
+	VECTOR(struct token *)		 branches;
+	VECTOR(struct clang_stamp)	 stamps;
 
 	struct {
 		struct arena_scope	*eternal_scope;
@@ -95,6 +105,9 @@ static const char		*clang_token_serialize_prefix(
 static struct token	*clang_end_of_branch(struct lexer *, struct token *,
     void *);
 
+static void		 clang_stamp_alloc(struct clang *, struct token *,
+    unsigned int);
+static void		 clang_stamp_pop(struct clang *);
 static struct token	*clang_last_stamped(struct clang *);
 static struct token	*clang_recover_find_branch(struct token *,
     struct token *, int);
@@ -255,17 +268,12 @@ clang_lexer_callbacks(struct clang *cl)
 void
 clang_stamp(struct clang *cl, struct lexer *lx)
 {
-	struct token **dst;
 	struct token *back;
 
 	if (!lexer_back(lx, &back))
 		return;
 	clang_trace(cl, "stamp %s", lexer_serialize(lx, back));
-	token_ref(back);
-	dst = VECTOR_ALLOC(cl->stamps);
-	if (dst == NULL)
-		err(1, NULL);
-	*dst = back;
+	clang_stamp_alloc(cl, back, 0);
 }
 
 /*
@@ -317,6 +325,8 @@ clang_branch(struct clang *cl, struct lexer *lx, struct token **unmute)
 	 */
 	*unmute = dst;
 
+	clang_stamp_alloc(cl, dst, cpp_dst->tk_lno);
+
 	/* Rewind to last stamped token. */
 	seek = clang_last_stamped(cl);
 	if (seek != NULL) {
@@ -345,9 +355,7 @@ clang_branch(struct clang *cl, struct lexer *lx, struct token **unmute)
 int
 clang_recover(struct clang *cl, struct lexer *lx, struct token **unmute)
 {
-	struct token *seek = NULL;
-	struct token *back, *cpp_dst, *cpp_src, *dst, *src, *stamp;
-	size_t i;
+	struct token *back, *cpp_dst, *cpp_src, *dst, *seek, *src, *stamp;
 	int error = 0;
 	int ndocs = 1;
 
@@ -370,14 +378,22 @@ clang_recover(struct clang *cl, struct lexer *lx, struct token **unmute)
 	    lexer_serialize(lx, src), lexer_serialize(lx, dst));
 
 	/*
-	 * Find the offset of the first stamped token before the branch.
-	 * Must be done before getting rid of the branch as stamped tokens might
-	 * be removed.
+	 * Forget about all documents covering tokens after the beginning of the
+	 * branch. However, tokens already removed while taking another branch
+	 * after this one cannot be parsed again.
 	 */
-	for (i = VECTOR_LENGTH(cl->stamps); i > 0; i--) {
-		stamp = cl->stamps[i - 1];
-		if (!token_is_dangling(stamp) && token_cmp(stamp, cpp_src) < 0)
+	while (!VECTOR_EMPTY(cl->stamps)) {
+		const struct clang_stamp *last = VECTOR_LAST(cl->stamps);
+
+		if (last->branch_lno > 0) {
+			if (last->branch_lno <= cpp_src->tk_lno)
+				break;
+			if (last->branch_lno > cpp_dst->tk_lno)
+				return 0;
+		} else if (token_cmp(last->tk, cpp_src) < 0) {
 			break;
+		}
+		clang_stamp_pop(cl);
 		ndocs++;
 	}
 	clang_trace(cl, "removing %d document(s)", ndocs);
@@ -388,18 +404,25 @@ clang_recover(struct clang *cl, struct lexer *lx, struct token **unmute)
 	 */
 	token_ref(cpp_src);
 	clang_branch_fold(cl, lx, cpp_src, unmute);
+	token_rele(cpp_src);
 
-	/* Find first stamped token before the branch. */
-	for (i = VECTOR_LENGTH(cl->stamps); i > 0; i--) {
-		stamp = cl->stamps[i - 1];
-		if (!token_is_dangling(stamp) &&
-		    token_cmp(stamp, cpp_src) < 0) {
-			seek = stamp;
-			break;
+	/*
+	 * Everything up to the last branch taken is already covered by
+	 * documents, do not emit it again.
+	 */
+	if (!VECTOR_EMPTY(cl->stamps)) {
+		struct clang_stamp *last = VECTOR_LAST(cl->stamps);
+
+		if (last->branch_lno > 0 && token_is_dangling(last->tk)) {
+			token_ref(*unmute);
+			token_rele(last->tk);
+			last->tk = *unmute;
+		} else if (last->branch_lno > 0) {
+			*unmute = last->tk;
 		}
 	}
-	token_rele(cpp_src);
 
+	seek = clang_last_stamped(cl);
 	if (seek != NULL) {
 		if (!lexer_seek_after(lx, seek))
 			error = 1;
@@ -521,12 +544,8 @@ clang_before_free(struct lexer *lx, void *arg)
 		}
 	}
 
-	while (!VECTOR_EMPTY(cl->stamps)) {
-		struct token **tail;
-
-		tail = VECTOR_POP(cl->stamps);
-		token_rele(*tail);
-	}
+	while (!VECTOR_EMPTY(cl->stamps))
+		clang_stamp_pop(cl);
 }
 
 static enum clang_token_type
@@ -762,16 +781,38 @@ clang_end_of_branch(struct lexer *UNUSED(lx), struct token *tk,
 	return NULL;
 }
 
+static void
+clang_stamp_alloc(struct clang *cl, struct token *tk, unsigned int branch_lno)
+{
+	struct clang_stamp *stamp;
+
+	stamp = VECTOR_ALLOC(cl->stamps);
+	if (stamp == NULL)
+		err(1, NULL);
+	token_ref(tk);
+	stamp->tk = tk;
+	stamp->branch_lno = branch_lno;
+}
+
+static void
+clang_stamp_pop(struct clang *cl)
+{
+	struct clang_stamp *stamp;
+
+	stamp = VECTOR_POP(cl->stamps);
+	token_rele(stamp->tk);
+}
+
 static struct token *
 clang_last_stamped(struct clang *cl)
 {
 	size_t i;
 
 	for (i = VECTOR_LENGTH(cl->stamps); i > 0; i--) {
-		struct token *stamp = cl->stamps[i - 1];
+		const struct clang_stamp *stamp = &cl->stamps[i - 1];
 
-		if (!token_is_dangling(stamp))
-			return stamp;
+		if (stamp->branch_lno == 0 && !token_is_dangling(stamp->tk))
+			return stamp->tk;
 	}
 	return NULL;
 }
-- 
2.43.0


From 535936a0abde5ac83ed5081b33c3528e7fd443b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:15 +0000
Subject: [PATCH 18/74] fix: do not assume absence of branch after function
 attributes

---
 parser-func.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser-func.c b/parser-func.c
index 3dd2a74..d3e386a 100644
--- a/parser-func.c
+++ b/parser-func.c
@@ -331,7 +331,7 @@ parser_func_proto(struct parser *pr, struct doc **out,
 	int error;
 
 	error = parser_attributes(pr, dc, &attr, PARSER_ATTRIBUTES_FUNC);
-	if (error & FAIL)
+	if (error & (FAIL | BRCH))
 		return parser_fail(pr);
 	if (error & GOOD)
 		doc_alloc(DOC_LINE, attr);
@@ -340,7 +340,7 @@ parser_func_proto(struct parser *pr, struct doc **out,
 		return parser_fail(pr);
 
 	error = parser_attributes(pr, dc, NULL, PARSER_ATTRIBUTES_FUNC);
-	if (error & FAIL)
+	if (error & (FAIL | BRCH))
 		return parser_fail(pr);
 	if ((error & GOOD) && (arg->flags & PARSER_FUNC_PROTO_IMPL) == 0)
 		doc_alloc(DOC_LINE, dc);
-- 
2.43.0


From 2d6a171700bb78b43681a88d4175f473a956ea3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:24 +0000
Subject: [PATCH 19/74] fix: emit semicolon after last declarator

A declarator not starting with an identifier, such as an unnamed bit
field, caused the semicolon to be emitted before the same declarator.
---
 parser-decl.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser-decl.c b/parser-decl.c
index 9e4470a..f8afb9d 100644
--- a/parser-decl.c
+++ b/parser-decl.c
@@ -312,6 +312,7 @@ parser_decl_init(struct parser *pr, struct doc **out,
 			doc_alloc(DOC_SOFTLINE, concat);
 			concat = doc_alloc(DOC_CONCAT,
 			    doc_alloc(DOC_GROUP, concat));
+			*out = concat;
 		}
 
 		error = parser_decl_init1(pr, concat, out);
-- 
2.43.0


From 23ed3a08c7e3ec2fa7a8ca6d72546d983c6df238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:24 +0000
Subject: [PATCH 20/74] fix: do not fuse enumerator and trailing macro

---
 parser-braces.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser-braces.c b/parser-braces.c
index e64bf78..97d68e2 100644
--- a/parser-braces.c
+++ b/parser-braces.c
@@ -375,6 +375,9 @@ parser_braces_field1(struct parser *pr, struct braces_field_arg *arg)
 				parser_doc_token(pr, tk, expr);
 		}
 
+		if (lexer_peek_if(lx, TOKEN_IDENT, NULL))
+			doc_literal(" ", dc);
+
 		return parser_good(pr);
 	}
 
-- 
2.43.0


From 3b8d41752128c8241a9d99cfb7f8829ee68ae329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:56 +0000
Subject: [PATCH 21/74] fix: do not align line continuations inside string
 literals

---
 cpp-align.c | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/cpp-align.c b/cpp-align.c
index 586cdee..777b0f9 100644
--- a/cpp-align.c
+++ b/cpp-align.c
@@ -164,6 +164,38 @@ sense_alignment(const char *str, size_t len, const struct style *st,
 	return 0;
 }
 
+/*
+ * Returns non-zero if any line continuation is part of a string literal, in
+ * which white space is significant.
+ */
+static int
+has_string_continuation(const char *str, size_t len)
+{
+	size_t i;
+	char quote = '\0';
+
+	for (i = 0; i + 1 < len; i++) {
+		if (str[i] == '\\') {
+			i++;
+			if (quote != '\0' && str[i] == '\n')
+				return 1;
+		} else if (quote != '\0') {
+			if (str[i] == quote)
+				quote = '\0';
+		} else if (str[i] == '"' || str[i] == '\'') {
+			quote = str[i];
+		} else if (str[i] == '/' && str[i + 1] == '*') {
+			for (i += 2; i + 1 < len; i++) {
+				if (str[i] == '*' && str[i + 1] == '/')
+					break;
+			}
+			i++;
+		}
+	}
+
+	return 0;
+}
+
 /*
  * Align line continuations.
  */
@@ -187,7 +219,8 @@ cpp_align(struct token *tk, const struct style *st, struct arena_scope *s,
 
 	str = tk->tk_str;
 	len = tk->tk_len;
-	if (nextline(str, len, &nx) == NULL)
+	if (nextline(str, len, &nx) == NULL ||
+	    has_string_continuation(str, len))
 		return NULL;
 
 	/* Without column limit, there is no right column to align with. */
-- 
2.43.0


From c0085e12bd1c05934f92172d9d477053967e113f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:35 +0000
Subject: [PATCH 22/74] fix: do not emit clang-format off region twice while
 recovering

---
 parser.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/parser.c b/parser.c
index 6fd9386..eda86ea 100644
--- a/parser.c
+++ b/parser.c
@@ -311,10 +311,14 @@ parser_reset(struct parser *pr)
 
 	lexer_error_reset(pr->pr_lx);
 
-	/* Remove last clang-format off if about to be traversed again. */
+	/*
+	 * Remove last clang-format off if about to be traversed again or no
+	 * longer present.
+	 */
 	if (pr->pr_token.clang_format_off != NULL &&
-	    lexer_peek(pr->pr_lx, &nx) &&
-	    token_cmp(nx, pr->pr_token.clang_format_off) < 0) {
+	    (token_is_dangling(pr->pr_token.clang_format_off) ||
+	     (lexer_peek(pr->pr_lx, &nx) &&
+	      token_cmp(nx, pr->pr_token.clang_format_off) < 0))) {
 		token_rele(pr->pr_token.clang_format_off);
 		pr->pr_token.clang_format_off = NULL;
 	}
-- 
2.43.0


From da24b6500de3b5e1fd2b1eeeaa2d345f0ae351fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:35 +0000
Subject: [PATCH 23/74] fix: do not mute twice while branches share the same
 token

---
 clang.c  | 23 +++++++++++------------
 parser.c |  5 +++--
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/clang.c b/clang.c
index 7bcbc7d..2b3e6ea 100644
--- a/clang.c
+++ b/clang.c
@@ -356,6 +356,7 @@ int
 clang_recover(struct clang *cl, struct lexer *lx, struct token **unmute)
 {
 	struct token *back, *cpp_dst, *cpp_src, *dst, *seek, *src, *stamp;
+	struct clang_stamp *last;
 	int error = 0;
 	int ndocs = 1;
 
@@ -383,8 +384,7 @@ clang_recover(struct clang *cl, struct lexer *lx, struct token **unmute)
 	 * after this one cannot be parsed again.
 	 */
 	while (!VECTOR_EMPTY(cl->stamps)) {
-		const struct clang_stamp *last = VECTOR_LAST(cl->stamps);
-
+		last = VECTOR_LAST(cl->stamps);
 		if (last->branch_lno > 0) {
 			if (last->branch_lno <= cpp_src->tk_lno)
 				break;
@@ -410,16 +410,15 @@ clang_recover(struct clang *cl, struct lexer *lx, struct token **unmute)
 	 * Everything up to the last branch taken is already covered by
 	 * documents, do not emit it again.
 	 */
-	if (!VECTOR_EMPTY(cl->stamps)) {
-		struct clang_stamp *last = VECTOR_LAST(cl->stamps);
-
-		if (last->branch_lno > 0 && token_is_dangling(last->tk)) {
-			token_ref(*unmute);
-			token_rele(last->tk);
-			last->tk = *unmute;
-		} else if (last->branch_lno > 0) {
-			*unmute = last->tk;
-		}
+	last = !VECTOR_EMPTY(cl->stamps) ? VECTOR_LAST(cl->stamps) : NULL;
+	if (last == NULL || last->branch_lno == 0) {
+		*unmute = NULL;
+	} else if (token_is_dangling(last->tk)) {
+		token_ref(*unmute);
+		token_rele(last->tk);
+		last->tk = *unmute;
+	} else {
+		*unmute = last->tk;
 	}
 
 	seek = clang_last_stamped(cl);
diff --git a/parser.c b/parser.c
index eda86ea..d9624b6 100644
--- a/parser.c
+++ b/parser.c
@@ -358,9 +358,10 @@ parser_doc_token_impl(struct parser *pr, struct token *tk, struct doc *dc,
 			doc_token(suffix, dc, DOC_VERBATIM, __func__, __LINE__);
 	}
 
-	/* Mute if we're about to branch. */
+	/* Mute if we're about to branch, unless already mute. */
 	nx = token_next(tk);
-	if (nx != NULL && (nx->tk_flags & TOKEN_FLAG_BRANCH))
+	if (nx != NULL && (nx->tk_flags & TOKEN_FLAG_BRANCH) &&
+	    pr->pr_token.unmute == NULL)
 		doc_alloc_impl(DOC_MUTE, dc, 1, __func__, __LINE__);
 
 	return out;
-- 
2.43.0


From cc8e1f1813f2a8b6a4113e6350dbbc808e635662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:20 +0000
Subject: [PATCH 24/74] fix: do not assume well formed attributes in function
 arguments

---
 parser-attributes.c | 3 +++
 parser-func.c       | 6 +++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/parser-attributes.c b/parser-attributes.c
index 421d3ea..df2741c 100644
--- a/parser-attributes.c
+++ b/parser-attributes.c
@@ -95,6 +95,9 @@ parser_attributes(struct parser *pr, struct doc *dc, struct doc **out,
 		if (rparen == end)
 			break;
 	}
+	/* Must consume the same tokens as peeked by the caller. */
+	if (!lexer_back(lx, &pv) || pv != end)
+		return parser_fail(pr);
 
 	return parser_good(pr);
 }
diff --git a/parser-func.c b/parser-func.c
index d3e386a..6f92886 100644
--- a/parser-func.c
+++ b/parser-func.c
@@ -202,6 +202,7 @@ parser_func_arg(struct parser *pr, struct doc *dc, struct doc **out,
 	struct lexer *lx = pr->pr_lx;
 	struct token *pv = NULL;
 	struct token *tk;
+	int error;
 
 	if (!parser_func_arg_peek(pr, &type))
 		return parser_none(pr);
@@ -218,7 +219,10 @@ parser_func_arg(struct parser *pr, struct doc *dc, struct doc **out,
 	doc_alloc(DOC_SOFTLINE, concat);
 	concat = doc_alloc(DOC_CONCAT, doc_alloc(DOC_OPTIONAL, concat));
 
-	if (parser_attributes(pr, concat, &attr, 0) & GOOD)
+	error = parser_attributes(pr, concat, &attr, 0);
+	if (error & (FAIL | BRCH))
+		return parser_fail(pr);
+	if (error & GOOD)
 		doc_alloc(DOC_LINE, attr);
 	if (parser_type(pr, concat, &type, NULL) & HALT)
 		return parser_fail(pr);
-- 
2.43.0


From 59e56c10a22a9bee8fb75a83ae953c05cfb68bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:19 +0000
Subject: [PATCH 25/74] fix: do not drop binary operator lacking left operand

---
 parser-expr.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser-expr.c b/parser-expr.c
index dbaf866..5acece9 100644
--- a/parser-expr.c
+++ b/parser-expr.c
@@ -105,17 +105,21 @@ expr_recover(const struct expr_exec_arg *ea, void *arg)
 			if (parser_type(pr, dc, &type, NULL) & GOOD)
 				return dc;
 		}
-	} else if (lexer_if_flags(lx, TOKEN_FLAG_BINARY, &tk)) {
+	} else if (lexer_peek_if_flags(lx, TOKEN_FLAG_BINARY, &tk)) {
 		struct token *pv;
 
 		pv = token_prev(tk);
 		if (pv != NULL &&
 		    (pv->tk_type == TOKEN_LPAREN ||
 		     pv->tk_type == TOKEN_COMMA)) {
+			(void)lexer_pop(lx, &tk);
 			dc = doc_root(pr->pr_arena.doc_scope);
 			parser_doc_token(pr, tk, dc);
 			return dc;
 		}
+		/* Be forgiving about invalid field access. */
+		if (pv != NULL && pv->tk_type == TOKEN_PERIOD)
+			(void)lexer_pop(lx, &tk);
 	} else if (lexer_peek_if(lx, TOKEN_LBRACE, &lbrace)) {
 		int error;
 
-- 
2.43.0


From dab12897c93d32824db7ebc0b955a0371fd2f9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:03 +0000
Subject: [PATCH 26/74] fix: do not treat unterminated literal as end of file

---
 clang.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/clang.c b/clang.c
index 2b3e6ea..70469a2 100644
--- a/clang.c
+++ b/clang.c
@@ -582,7 +582,7 @@ clang_read(struct lexer *lx, void *arg)
 		goto out;
 
 	st = lexer_get_state(lx);
-	if (lexer_getc(lx, &ch))
+	if (lexer_eof(lx) || lexer_getc(lx, &ch))
 		goto eof;
 
 	if (ch == 'L' || ch == 'U' || ch == 'u') {
@@ -603,8 +603,11 @@ clang_read(struct lexer *lx, void *arg)
 		unsigned char pch = ch;
 
 		for (;;) {
-			if (lexer_getc(lx, &ch))
-				goto eof;
+			if (lexer_getc(lx, &ch)) {
+				/* Not terminated. */
+				tk = lexer_emit(lx, &st, TOKEN_NONE);
+				goto out;
+			}
 			if (pch == '\\' && ch == '\\')
 				ch = '\0';
 			else if (pch != '\\' && ch == delim)
@@ -639,12 +642,13 @@ clang_read(struct lexer *lx, void *arg)
 			token_priv(tk, struct clang_token)->type =
 			    clang_find_identifier(tk->tk_str, tk->tk_len);
 		}
-	} else if (lexer_eof(lx)) {
-eof:
-		tk = lexer_emit(lx, &st, LEXER_EOF);
 	} else {
 		tk = lexer_emit(lx, &st, TOKEN_NONE);
 	}
+	goto out;
+
+eof:
+	tk = lexer_emit(lx, &st, LEXER_EOF);
 
 out:
 	LIST_CONCAT(&tk->tk_prefixes, &cl->prefixes);
-- 
2.43.0


From 3dd7629be01de156a442103f635c72f6736b931f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:52 +0000
Subject: [PATCH 27/74] fix: do not run simple passes while muted

---
 parser.c | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/parser.c b/parser.c
index d9624b6..9ea8604 100644
--- a/parser.c
+++ b/parser.c
@@ -18,6 +18,7 @@
 #include "parser-func.h"
 #include "parser-priv.h"
 #include "parser-stmt-asm.h"
+#include "simple.h"
 #include "token.h"
 #include "trace-types.h"
 
@@ -101,6 +102,19 @@ clang_format_off(struct parser *pr, struct token *comment, struct doc *dc)
 	pr->pr_token.clang_format_off = comment;
 }
 
+/*
+ * While muted, tokens must not be reordered nor removed as output would then
+ * not be resumed at the expected token.
+ */
+static void
+parser_simple_mute(struct parser *pr)
+{
+	if (pr->pr_token.unmute != NULL)
+		(void)simple_disable(pr->pr_si);
+	else
+		simple_enable(pr->pr_si, pr->pr_op->simple);
+}
+
 struct parser *
 parser_alloc(const struct parser_arg *arg)
 {
@@ -156,6 +170,7 @@ parser_exec(struct parser *pr, const struct diffchunk *diff_chunks,
 			if (!clang_branch(clang, lx, &pr->pr_token.unmute))
 				break;
 			parser_reset(pr);
+			parser_simple_mute(pr);
 		} else if (error & (FAIL | NONE)) {
 			int r;
 
@@ -165,8 +180,10 @@ parser_exec(struct parser *pr, const struct diffchunk *diff_chunks,
 			while (r-- > 0)
 				doc_remove_tail(dc);
 			parser_reset(pr);
+			parser_simple_mute(pr);
 		}
 	}
+	simple_enable(pr->pr_si, pr->pr_op->simple);
 	if (error) {
 		lexer_error_flush(lx);
 		return 1;
@@ -332,8 +349,10 @@ parser_doc_token_impl(struct parser *pr, struct token *tk, struct doc *dc,
 	struct token *nx, *prefix, *suffix;
 
 	if (tk == pr->pr_token.unmute) {
-		if (!lexer_get_peek(pr->pr_lx))
+		if (!lexer_get_peek(pr->pr_lx)) {
 			pr->pr_token.unmute = NULL;
+			simple_enable(pr->pr_si, pr->pr_op->simple);
+		}
 		doc_alloc_impl(DOC_MUTE, dc, -1, __func__, __LINE__);
 	}
 
-- 
2.43.0


From c7b306d1d36c359108974de2dbbd1d4df497cad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:41 +0000
Subject: [PATCH 28/74] fix: do not drop comment next to redundant parenthesis

---
 expr.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/expr.c b/expr.c
index d9e9046..d603305 100644
--- a/expr.c
+++ b/expr.c
@@ -908,6 +908,8 @@ expr_doc_parens(struct expr *ex, struct expr_state *es, struct doc *dc)
 {
 	simple_cookie(simple);
 	if (es->es_depth == 1 &&
+	    (ex->ex_tokens[0] == NULL || token_is_moveable(ex->ex_tokens[0])) &&
+	    (ex->ex_tokens[1] == NULL || token_is_moveable(ex->ex_tokens[1])) &&
 	    simple_enter(es->es_ea.si, SIMPLE_EXPR_PARENS, 0, &simple)) {
 		if (ex->ex_lhs != NULL)
 			dc = expr_doc(ex->ex_lhs, es, dc);
-- 
2.43.0


From d8aa110984b0e322929091f59319f7fc6d41704c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:38 +0000
Subject: [PATCH 29/74] fix: do not count missing newline marker as line in
 diff

---
 diff.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/diff.c b/diff.c
index f160e2e..1b06022 100644
--- a/diff.c
+++ b/diff.c
@@ -243,7 +243,8 @@ matchline(const char *str, unsigned int lno, struct file *fe)
 {
 	struct diffchunk *du;
 
-	if (str[0] == '-')
+	/* Neither removed lines nor missing newline markers are present. */
+	if (str[0] == '-' || str[0] == '\\')
 		return 0;
 
 	du = VECTOR_LAST(fe->fe_diff);
-- 
2.43.0


From 4a0c1bc3a33c0eb7b4e86f23e81ed985c78c8636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:41 +0000
Subject: [PATCH 30/74] fix: do not drop clang-format off region removed while
 branching

---
 parser.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/parser.c b/parser.c
index 9ea8604..a64d386 100644
--- a/parser.c
+++ b/parser.c
@@ -172,11 +172,18 @@ parser_exec(struct parser *pr, const struct diffchunk *diff_chunks,
 			parser_reset(pr);
 			parser_simple_mute(pr);
 		} else if (error & (FAIL | NONE)) {
+			struct token *off = pr->pr_token.clang_format_off;
+			int present = off != NULL && !token_is_dangling(off);
 			int r;
 
 			r = clang_recover(clang, lx, &pr->pr_token.unmute);
 			if (r == 0)
 				break;
+			/* Folded clang-format off is emitted by other means. */
+			if (present && token_is_dangling(off)) {
+				token_rele(off);
+				pr->pr_token.clang_format_off = NULL;
+			}
 			while (r-- > 0)
 				doc_remove_tail(dc);
 			parser_reset(pr);
@@ -328,14 +335,10 @@ parser_reset(struct parser *pr)
 
 	lexer_error_reset(pr->pr_lx);
 
-	/*
-	 * Remove last clang-format off if about to be traversed again or no
-	 * longer present.
-	 */
+	/* Remove last clang-format off if about to be traversed again. */
 	if (pr->pr_token.clang_format_off != NULL &&
-	    (token_is_dangling(pr->pr_token.clang_format_off) ||
-	     (lexer_peek(pr->pr_lx, &nx) &&
-	      token_cmp(nx, pr->pr_token.clang_format_off) < 0))) {
+	    lexer_peek(pr->pr_lx, &nx) &&
+	    token_cmp(nx, pr->pr_token.clang_format_off) < 0) {
 		token_rele(pr->pr_token.clang_format_off);
 		pr->pr_token.clang_format_off = NULL;
 	}
-- 
2.43.0


From f5f8c3e846b2b5acb4b5b8cfb123df7fe7020bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:56 +0000
Subject: [PATCH 31/74] fix: recognize clang-format comments next to other
 comments

---
 clang.c | 62 ++++++++++++++++++++++++++++++++++++---------------------
 1 file changed, 39 insertions(+), 23 deletions(-)

diff --git a/clang.c b/clang.c
index 70469a2..d523511 100644
--- a/clang.c
+++ b/clang.c
@@ -1094,30 +1094,12 @@ clang_read_prefix(struct clang *cl, struct lexer *lx)
 	return NULL;
 }
 
-static int
-peek_c99_comment(struct lexer *lx)
-{
-	struct lexer_state st;
-	int peek = 0;
-	unsigned char ch;
-
-	st = lexer_get_state(lx);
-	lexer_eat_spaces(lx, NULL);
-	if (lexer_getc(lx, &ch) == 0 && ch == '/' &&
-	    lexer_getc(lx, &ch) == 0 && ch == '/')
-		peek = 1;
-	lexer_set_state(lx, &st);
-	return peek;
-}
-
 static unsigned int
-sense_clang_format_comment(const struct token *tk)
+sense_clang_format_comment(const char *str, size_t len)
 {
 	size_t comment_needle_len = sizeof("//") - 1;
 	const char clang_format_needle[] = " clang-format ";
 	size_t clang_format_needle_len = sizeof(clang_format_needle) - 1;
-	const char *str = tk->tk_str;
-	size_t len = tk->tk_len;
 
 	for (; len > 0 && isspace((unsigned char)str[0]); len--, str++)
 		continue;
@@ -1140,10 +1122,41 @@ sense_clang_format_comment(const struct token *tk)
 	return 0;
 }
 
+/*
+ * Returns non-zero if the line after the given C99 comment is another one that
+ * can be merged with it. Comments used to control clang-format are never merged.
+ */
+static int
+peek_c99_comment(struct lexer *lx, const struct lexer_state *comment)
+{
+	struct lexer_state beg, st;
+	const char *str;
+	size_t len;
+	int peek = 0;
+	unsigned char ch;
+
+	str = lexer_buffer_slice(lx, comment, &len);
+	if (sense_clang_format_comment(str, len))
+		return 0;
+
+	st = lexer_get_state(lx);
+	lexer_eat_spaces(lx, NULL);
+	beg = lexer_get_state(lx);
+	if (lexer_getc(lx, &ch) == 0 && ch == '/' &&
+	    lexer_getc(lx, &ch) == 0 && ch == '/') {
+		while (lexer_getc(lx, &ch) == 0 && ch != '\n')
+			continue;
+		str = lexer_buffer_slice(lx, &beg, &len);
+		peek = sense_clang_format_comment(str, len) == 0;
+	}
+	lexer_set_state(lx, &st);
+	return peek;
+}
+
 static struct token *
 clang_read_comment(struct clang *cl, struct lexer *lx, int block)
 {
-	struct lexer_state oldst, st;
+	struct lexer_state beg, oldst, st;
 	struct buffer *bf;
 	struct token *tk;
 	int oneline = 1;
@@ -1156,6 +1169,7 @@ again:
 		lexer_eat_lines_and_spaces(lx, &st);
 	else
 		lexer_eat_spaces(lx, NULL);
+	beg = lexer_get_state(lx);
 	if (lexer_getc(lx, &ch) || ch != '/') {
 		lexer_set_state(lx, &oldst);
 		return NULL;
@@ -1172,7 +1186,7 @@ again:
 			if (lexer_getc(lx, &ch))
 				break;
 			if (ch == '\n') {
-				if (peek_c99_comment(lx)) {
+				if (peek_c99_comment(lx, &beg)) {
 					oneline = 0;
 					goto again;
 				}
@@ -1208,8 +1222,10 @@ again:
 	    .tk_type	= TOKEN_COMMENT,
 	    .tk_flags	= c99 ? TOKEN_FLAG_COMMENT_C99 : 0,
 	});
-	if (oneline)
-		tk->tk_flags |= sense_clang_format_comment(tk);
+	if (oneline) {
+		tk->tk_flags |= sense_clang_format_comment(tk->tk_str,
+		    tk->tk_len);
+	}
 
 	bf = comment_trim(tk, cl->st, cl->arena.eternal_scope);
 	if (bf != NULL)
-- 
2.43.0


From 54a211c2096eb7f60c06574be042424221dc9c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:55 +0000
Subject: [PATCH 32/74] fix: do not drop clang-format off region while
 branching

---
 parser.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/parser.c b/parser.c
index a64d386..cb8a53c 100644
--- a/parser.c
+++ b/parser.c
@@ -331,15 +331,20 @@ parser_none(const struct parser *pr)
 void
 parser_reset(struct parser *pr)
 {
+	struct token *off = pr->pr_token.clang_format_off;
 	struct token *nx;
+	const struct token *unmute = pr->pr_token.unmute;
 
 	lexer_error_reset(pr->pr_lx);
 
-	/* Remove last clang-format off if about to be traversed again. */
-	if (pr->pr_token.clang_format_off != NULL &&
-	    lexer_peek(pr->pr_lx, &nx) &&
-	    token_cmp(nx, pr->pr_token.clang_format_off) < 0) {
-		token_rele(pr->pr_token.clang_format_off);
+	/*
+	 * Remove last clang-format off if about to be traversed again, unless
+	 * it would be traversed while being muted.
+	 */
+	if (off != NULL && lexer_peek(pr->pr_lx, &nx) &&
+	    token_cmp(nx, off) < 0 &&
+	    (unmute == NULL || token_cmp(unmute, off) <= 0)) {
+		token_rele(off);
 		pr->pr_token.clang_format_off = NULL;
 	}
 }
-- 
2.43.0


From f59f79c8f9e1f6abafe9ddeba754e742a976bf6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:43 +0000
Subject: [PATCH 33/74] fix: restore clang-format off region while recovering

---
 parser.c | 60 ++++++++++++++++++++++++++++++++++----------------------
 1 file changed, 37 insertions(+), 23 deletions(-)

diff --git a/parser.c b/parser.c
index cb8a53c..11315f1 100644
--- a/parser.c
+++ b/parser.c
@@ -5,9 +5,11 @@
 #include <string.h>
 
 #include "libks/arena-buffer.h"
+#include "libks/arena-vector.h"
 #include "libks/arena.h"
 #include "libks/compiler.h"
 #include "libks/list.h"
+#include "libks/vector.h"
 
 #include "clang.h"
 #include "doc.h"
@@ -102,6 +104,29 @@ clang_format_off(struct parser *pr, struct token *comment, struct doc *dc)
 	pr->pr_token.clang_format_off = comment;
 }
 
+/*
+ * Save the last clang-format off, present before emitting a document.
+ */
+static void
+clang_format_save(struct parser *pr, struct token **off)
+{
+	*off = pr->pr_token.clang_format_off;
+	if (*off != NULL)
+		token_ref(*off);
+}
+
+/*
+ * Restore the last clang-format off, present before emitting a now removed
+ * document.
+ */
+static void
+clang_format_restore(struct parser *pr, struct token *off)
+{
+	if (pr->pr_token.clang_format_off != NULL)
+		token_rele(pr->pr_token.clang_format_off);
+	pr->pr_token.clang_format_off = off;
+}
+
 /*
  * While muted, tokens must not be reordered nor removed as output would then
  * not be resumed at the expected token.
@@ -138,6 +163,7 @@ int
 parser_exec(struct parser *pr, const struct diffchunk *diff_chunks,
     struct buffer *bf)
 {
+	VECTOR(struct token *) offs;
 	struct doc *dc;
 	struct clang *clang = pr->pr_clang;
 	struct lexer *lx = pr->pr_lx;
@@ -147,6 +173,7 @@ parser_exec(struct parser *pr, const struct diffchunk *diff_chunks,
 	arena_scope(pr->pr_arena.doc, doc_scope);
 	parser_arena_scope(&pr->pr_arena.doc_scope, &doc_scope, cookie);
 
+	ARENA_VECTOR_INIT(&doc_scope, offs, 1 << 5);
 	dc = doc_root(&doc_scope);
 
 	for (;;) {
@@ -162,6 +189,7 @@ parser_exec(struct parser *pr, const struct diffchunk *diff_chunks,
 		}
 
 		concat = doc_alloc(DOC_CONCAT, dc);
+		clang_format_save(pr, VECTOR_ALLOC(offs));
 
 		error = parser_root(pr, concat);
 		if (error & GOOD) {
@@ -172,25 +200,26 @@ parser_exec(struct parser *pr, const struct diffchunk *diff_chunks,
 			parser_reset(pr);
 			parser_simple_mute(pr);
 		} else if (error & (FAIL | NONE)) {
-			struct token *off = pr->pr_token.clang_format_off;
-			int present = off != NULL && !token_is_dangling(off);
 			int r;
 
 			r = clang_recover(clang, lx, &pr->pr_token.unmute);
 			if (r == 0)
 				break;
-			/* Folded clang-format off is emitted by other means. */
-			if (present && token_is_dangling(off)) {
-				token_rele(off);
-				pr->pr_token.clang_format_off = NULL;
-			}
-			while (r-- > 0)
+			while (r-- > 0) {
 				doc_remove_tail(dc);
+				clang_format_restore(pr, *VECTOR_POP(offs));
+			}
 			parser_reset(pr);
 			parser_simple_mute(pr);
 		}
 	}
 	simple_enable(pr->pr_si, pr->pr_op->simple);
+	while (!VECTOR_EMPTY(offs)) {
+		struct token *off = *VECTOR_POP(offs);
+
+		if (off != NULL)
+			token_rele(off);
+	}
 	if (error) {
 		lexer_error_flush(lx);
 		return 1;
@@ -331,22 +360,7 @@ parser_none(const struct parser *pr)
 void
 parser_reset(struct parser *pr)
 {
-	struct token *off = pr->pr_token.clang_format_off;
-	struct token *nx;
-	const struct token *unmute = pr->pr_token.unmute;
-
 	lexer_error_reset(pr->pr_lx);
-
-	/*
-	 * Remove last clang-format off if about to be traversed again, unless
-	 * it would be traversed while being muted.
-	 */
-	if (off != NULL && lexer_peek(pr->pr_lx, &nx) &&
-	    token_cmp(nx, off) < 0 &&
-	    (unmute == NULL || token_cmp(unmute, off) <= 0)) {
-		token_rele(off);
-		pr->pr_token.clang_format_off = NULL;
-	}
 }
 
 struct doc *
-- 
2.43.0


From 38598a77e3079cfc2359fb5b62312ef57736b800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:36 +0000
Subject: [PATCH 34/74] fix: do not lose tokens on partially emitted lines in
 diff mode

---
 doc.c | 52 +++++++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 49 insertions(+), 3 deletions(-)

diff --git a/doc.c b/doc.c
index b24e181..aa6c285 100644
--- a/doc.c
+++ b/doc.c
@@ -3,6 +3,7 @@
 #include "config.h"
 
 #include <assert.h>
+#include <ctype.h>
 #include <err.h>
 #include <float.h>
 #include <stdarg.h>
@@ -154,7 +155,10 @@ struct doc_diff {
 	/* Last seen token. */
 	unsigned int		 dd_threshold;
 	/* First token in group. */
+	const struct token	*dd_token;
 	unsigned int		 dd_first;
+	/* Space(s) emitted by the group before the first token. */
+	int			 dd_spaces;
 	/* First token covered by chun. */
 	unsigned int		 dd_chunk;
 	/* Return value for doc_diff_covers(). */
@@ -324,6 +328,8 @@ static unsigned int	doc_diff_verbatim(const struct doc *,
 static void		doc_diff_exit(const struct doc *, struct doc_state *);
 static void		doc_diff_emit(const struct doc *, struct doc_state *,
     unsigned int, unsigned int);
+static void		doc_diff_emit_before(const struct doc *,
+    struct doc_state *, const struct doc_diff *);
 static int		doc_diff_covers(const struct doc *, struct doc_state *,
     void *);
 static int		doc_diff_is_mute(const struct doc_state *);
@@ -1355,9 +1361,11 @@ doc_diff_group_enter(const struct doc *dc, struct doc_state *st, int nested)
 		 * The group is not covered by any diff chunk and all nested
 		 * groups can therefore be ignored. However, if the previous
 		 * group above us touched lines after the diff chunk due to
-		 * reformatting make sure to reset the state.
+		 * reformatting make sure to reset the state. Unless this group
+		 * begins on a line which is already partially emitted.
 		 */
-		if (st->st_diff.end > 0)
+		if (st->st_diff.end > 0 &&
+		    (dd.dd_first == 0 || dd.dd_first > st->st_diff.end))
 			doc_diff_leave(dc, st, 1);
 		st->st_diff.group = dc;
 		return 1;
@@ -1442,6 +1450,8 @@ doc_diff_group_enter(const struct doc *dc, struct doc_state *st, int nested)
 	 * chunk might only touch a subset of the group.
 	 */
 	doc_diff_emit(dc, st, st->st_diff.beg, end);
+	if (dd.dd_verbatim == NULL)
+		doc_diff_emit_before(dc, st, &dd);
 	return 1;
 }
 
@@ -1596,6 +1606,38 @@ doc_diff_emit(const struct doc *dc, struct doc_state *st, unsigned int beg,
 	doc_print_indent(dc, st, st->st_indent.cur);
 }
 
+/*
+ * Emit everything before the first token covered by the group residing on the
+ * same line as is. Such tokens are not part of the group and otherwise lost.
+ */
+static void
+doc_diff_emit_before(const struct doc *dc, struct doc_state *st,
+    const struct doc_diff *dd)
+{
+	const struct token *tk = dd->dd_token;
+	const char *str;
+	size_t beg = 0;
+	size_t end, len;
+
+	if (tk == NULL ||
+	    !lexer_get_lines(st->st_lx, tk->tk_lno, 0, &str, &len))
+		return;
+	for (end = 0; end < len; end++) {
+		if (colwidth(str, end, 1) >= tk->tk_cno)
+			break;
+	}
+	for (; beg < end && isspace((unsigned char)str[beg]); beg++)
+		continue;
+	if (beg == end)
+		return;
+	if (dd->dd_spaces) {
+		for (; isspace((unsigned char)str[end - 1]); end--)
+			continue;
+	}
+	doc_trim_spaces(dc, st);
+	doc_print(dc, st, str, end, DOC_PRINT_FORCE);
+}
+
 /*
  * Returns non-zero if any document covers a token which is part of a diff
  * chunk.
@@ -1619,13 +1661,17 @@ doc_diff_covers(const struct doc *dc, struct doc_state *UNUSED(st), void *arg)
 			if (lno < dd->dd_threshold)
 				return dd->dd_below_threshold;
 
-			if (dd->dd_first == 0)
+			if (dd->dd_first == 0) {
 				dd->dd_first = lno;
+				dd->dd_token = dc->dc_tk;
+			}
 			if (dc->dc_tk->tk_flags & TOKEN_FLAG_DIFF) {
 				dd->dd_chunk = lno;
 				dd->dd_covers = DOC_DIFF_GROUP_COVERED;
 				return DOC_WALK_BREAK;
 			}
+		} else if (dd->dd_first == 0) {
+			dd->dd_spaces = 1;
 		}
 		break;
 
-- 
2.43.0


From 6543d6b0dcc495c82083e632d5dbd5d1d3bcf0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:41 +0000
Subject: [PATCH 35/74] fix: do not join lines while leaving a diff chunk in
 diff mode

---
 doc.c | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/doc.c b/doc.c
index aa6c285..333f922 100644
--- a/doc.c
+++ b/doc.c
@@ -293,6 +293,7 @@ static unsigned int	doc_print_indent1(const struct doc *,
     struct doc_state *, unsigned int, int);
 static void		doc_trim_spaces(const struct doc *, struct doc_state *);
 static void		doc_trim_lines(const struct doc *, struct doc_state *);
+static int		doc_is_line_empty(const struct doc_state *);
 static int		doc_is_mute(const struct doc_state *);
 static int		doc_parens_align(const struct doc_state *);
 static int		doc_has_list(const struct doc *);
@@ -1714,9 +1715,10 @@ doc_diff_leave_impl(const struct doc *dc, struct doc_state *st,
 	    fun, st->st_diff.beg);
 	/*
 	 * Emit pending new line immediately as we would otherwise lose track of
-	 * it while being mute.
+	 * it while being mute. The same applies to a partially emitted line as
+	 * it must not be joined with the next line emitted as is.
 	 */
-	if (st->st_newline)
+	if (st->st_newline || !doc_is_line_empty(st))
 		doc_print(dc, st, "\n", 1, DOC_PRINT_FORCE);
 
 	if (st->st_diff.group_has_many_chunks) {
@@ -1728,6 +1730,22 @@ doc_diff_leave_impl(const struct doc *dc, struct doc_state *st,
 	}
 }
 
+/*
+ * Returns non-zero if nothing but spaces has been emitted on the current line.
+ */
+static int
+doc_is_line_empty(const struct doc_state *st)
+{
+	const char *buf = buffer_get_ptr(st->st_bf);
+	size_t buflen = buffer_get_len(st->st_bf);
+
+	for (; buflen > 0 && buf[buflen - 1] != '\n'; buflen--) {
+		if (buf[buflen - 1] != ' ' && buf[buflen - 1] != '\t')
+			return 0;
+	}
+	return 1;
+}
+
 static int
 doc_is_mute(const struct doc_state *st)
 {
-- 
2.43.0


From 6872ba248c961111e7177dc62b072b18c91b8dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:45 +0000
Subject: [PATCH 36/74] fix: do not leave diff chunk while being mute

---
 doc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doc.c b/doc.c
index 333f922..4ea57a7 100644
--- a/doc.c
+++ b/doc.c
@@ -1365,7 +1365,7 @@ doc_diff_group_enter(const struct doc *dc, struct doc_state *st, int nested)
 		 * reformatting make sure to reset the state. Unless this group
 		 * begins on a line which is already partially emitted.
 		 */
-		if (st->st_diff.end > 0 &&
+		if (st->st_diff.end > 0 && st->st_mute == 0 &&
 		    (dd.dd_first == 0 || dd.dd_first > st->st_diff.end))
 			doc_diff_leave(dc, st, 1);
 		st->st_diff.group = dc;
-- 
2.43.0


From dbe965a7b79550256e06826815c471b05dc46c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:50 +0000
Subject: [PATCH 37/74] fix: do not lose tokens preceding a comment on the same
 line in diff mode

---
 doc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/doc.c b/doc.c
index 4ea57a7..51cb4c2 100644
--- a/doc.c
+++ b/doc.c
@@ -1652,7 +1652,8 @@ doc_diff_covers(const struct doc *dc, struct doc_state *UNUSED(st), void *arg)
 	case DOC_VERBATIM:
 		/* Ignore already emitted verbatim tokens. */
 		if ((dc->dc_tk->tk_flags & TOKEN_FLAG_DIFF) == 0 &&
-		    dc->dc_tk->tk_lno >= dd->dd_threshold)
+		    dc->dc_tk->tk_lno >= dd->dd_threshold &&
+		    countlines(dc->dc_tk->tk_str, dc->dc_tk->tk_len) > 0)
 			dd->dd_verbatim = dc->dc_tk;
 		FALLTHROUGH;
 	case DOC_LITERAL:
-- 
2.43.0


From 7815c804d2a8a6ac88e20e30ea3803655f1a6949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:26 +0000
Subject: [PATCH 38/74] fix: do not repeat trailing comments spanning multiple
 lines in diff mode

---
 doc.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/doc.c b/doc.c
index 51cb4c2..f714915 100644
--- a/doc.c
+++ b/doc.c
@@ -1548,6 +1548,23 @@ doc_diff_verbatim(const struct doc *dc, struct doc_state *st)
 		return 0;
 	}
 
+	if (dc->dc_len > 0 && dc->dc_str[dc->dc_len - 1] != '\n') {
+		const char *str = dc->dc_str;
+		size_t len = dc->dc_len;
+
+		/*
+		 * A trailing comment could span multiple lines, adjust the end
+		 * line as they are all about to be emitted.
+		 */
+		for (; len > 0; str++, len--) {
+			if (*str == '\n')
+				lno++;
+		}
+		if (lno > st->st_diff.end)
+			st->st_diff.end = lno;
+		return 0;
+	}
+
 	/*
 	 * A verbatim document could contain one or many hard line(s) which can
 	 * takes us beyond the diff chunk. Signal that after emitting this
-- 
2.43.0


From 9e13ea934fca6829a6e91c3c41f9007cf9927e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:59 +0000
Subject: [PATCH 39/74] fix: do not insert break in default case followed by
 other statements

---
 simple-stmt-switch.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simple-stmt-switch.c b/simple-stmt-switch.c
index 552461e..066aa98 100644
--- a/simple-stmt-switch.c
+++ b/simple-stmt-switch.c
@@ -26,7 +26,8 @@ simple_stmt_switch(struct lexer *lx, struct token *tkcase)
 	lexer_seek(lx, tkcase);
 	peek = lexer_if(lx, TOKEN_DEFAULT, NULL) &&
 	    lexer_if(lx, TOKEN_COLON, &colon) &&
-	    lexer_if(lx, TOKEN_SEMI, NULL);
+	    lexer_if(lx, TOKEN_SEMI, NULL) &&
+	    lexer_if(lx, TOKEN_RBRACE, NULL);
 	lexer_peek_leave(lx, &ls);
 	if (!peek)
 		return;
-- 
2.43.0


From 2d4320b493e1409d486d2de8048425d87973b664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:30 +0000
Subject: [PATCH 40/74] fix: do not wrap parenthesis around a part of the
 sizeof operand

---
 expr.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/expr.c b/expr.c
index d603305..fb72a2a 100644
--- a/expr.c
+++ b/expr.c
@@ -606,7 +606,8 @@ expr_exec_sizeof(struct expr_state *es, struct expr *NDEBUG_UNUSED(lhs))
 		if (lexer_expect(es->es_lx, TOKEN_RPAREN, &tk))
 			ex->ex_sizeof.rparen = tk;
 	} else {
-		ex->ex_lhs = expr_exec1(es, PC(es->es_er->er_pc));
+		/* Cope with post increment and decrement of the operand. */
+		ex->ex_lhs = expr_exec1(es, PC13);
 	}
 
 	return ex;
-- 
2.43.0


From 2027d50ab36efe72292d5d29ef84539a5767b1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:36 +0000
Subject: [PATCH 41/74] fix: keep parenthesis around statement expressions

---
 expr.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/expr.c b/expr.c
index fb72a2a..ede8f15 100644
--- a/expr.c
+++ b/expr.c
@@ -904,11 +904,24 @@ expr_doc_binary(struct expr *ex, struct expr_state *es, struct doc *dc)
 	return dc;
 }
 
+/*
+ * Returns non-zero if the given parenthesis expression is a GNU statement
+ * expression, in which the parenthesis are mandatory.
+ */
+static int
+is_stmt_expr(const struct expr *ex)
+{
+	const struct token *nx;
+
+	nx = ex->ex_tokens[0] != NULL ? token_next(ex->ex_tokens[0]) : NULL;
+	return nx != NULL && nx->tk_type == TOKEN_LBRACE;
+}
+
 static struct doc *
 expr_doc_parens(struct expr *ex, struct expr_state *es, struct doc *dc)
 {
 	simple_cookie(simple);
-	if (es->es_depth == 1 &&
+	if (es->es_depth == 1 && !is_stmt_expr(ex) &&
 	    (ex->ex_tokens[0] == NULL || token_is_moveable(ex->ex_tokens[0])) &&
 	    (ex->ex_tokens[1] == NULL || token_is_moveable(ex->ex_tokens[1])) &&
 	    simple_enter(es->es_ea.si, SIMPLE_EXPR_PARENS, 0, &simple)) {
-- 
2.43.0


From e9a88397c086e95f5c402a1b1de8285c948137f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:10 +0000
Subject: [PATCH 42/74] fix: do not remove braces around declarations

---
 parser-stmt.c | 20 +++++++++++++++++++-
 simple-stmt.c |  6 +++++-
 simple-stmt.h |  2 +-
 3 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/parser-stmt.c b/parser-stmt.c
index 0a6c84e..96ab022 100644
--- a/parser-stmt.c
+++ b/parser-stmt.c
@@ -143,6 +143,23 @@ is_case_on_same_line(struct parser *pr, const struct token *pv)
 	return token_cmp(pv, nx) == 0;
 }
 
+/*
+ * Returns non-zero if the next token after the given left brace denotes a
+ * declaration.
+ */
+static int
+is_decl_after(struct parser *pr, struct token *lbrace)
+{
+	struct lexer_state s;
+	struct lexer *lx = pr->pr_lx;
+	int peek;
+
+	lexer_peek_enter(lx, &s);
+	peek = lexer_seek_after(lx, lbrace) && parser_decl_peek(pr);
+	lexer_peek_leave(lx, &s);
+	return peek;
+}
+
 /*
  * Parse a block statement wrapped in braces.
  */
@@ -179,7 +196,8 @@ parser_stmt_block(struct parser *pr, struct parser_stmt_block_arg *arg)
 	if ((arg->flags & PARSER_STMT_BLOCK_EXPR_GNU) == 0 &&
 	    is_simple_enabled(pr->pr_si, SIMPLE_STMT)) {
 		dc = simple_stmt_braces_enter(pr->pr_simple.stmt, dc, lbrace,
-		    rbrace, pr->pr_nindent * style(pr->pr_st, IndentWidth));
+		    rbrace, pr->pr_nindent * style(pr->pr_st, IndentWidth),
+		    is_decl_after(pr, lbrace));
 	}
 
 	parser_token_trim_before(pr, rbrace);
diff --git a/simple-stmt.c b/simple-stmt.c
index c306b53..55d6f55 100644
--- a/simple-stmt.c
+++ b/simple-stmt.c
@@ -106,11 +106,15 @@ simple_stmt_free(struct simple_stmt *ss)
 
 struct doc *
 simple_stmt_braces_enter(struct simple_stmt *ss, struct doc *dc,
-    struct token *lbrace, struct token *rbrace, unsigned int indent)
+    struct token *lbrace, struct token *rbrace, unsigned int indent,
+    int isdecl)
 {
 	struct stmt *st;
 	unsigned int flags = STMT_BRACES;
 
+	/* Declarations require braces. */
+	if (isdecl)
+		flags |= STMT_IGNORE;
 	/* Make sure both braces are covered by a diff chunk. */
 	if (!is_brace_moveable(ss, lbrace) || !is_brace_moveable(ss, rbrace))
 		flags |= STMT_IGNORE;
diff --git a/simple-stmt.h b/simple-stmt.h
index 96fa0e6..478c222 100644
--- a/simple-stmt.h
+++ b/simple-stmt.h
@@ -12,7 +12,7 @@ struct simple_stmt	*simple_stmt_enter(struct lexer *,
 void			 simple_stmt_leave(struct simple_stmt *);
 void			 simple_stmt_free(struct simple_stmt *);
 struct doc		*simple_stmt_braces_enter(struct simple_stmt *,
-    struct doc *, struct token *, struct token *, unsigned int);
+    struct doc *, struct token *, struct token *, unsigned int, int);
 struct doc		*simple_stmt_no_braces_enter(struct simple_stmt *,
     struct doc *, struct token *, unsigned int, void **);
 void			 simple_stmt_no_braces_leave(struct simple_stmt *,
-- 
2.43.0


From 8cd1fe3fe5485e9deea99000684e902ca88729f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:15 +0000
Subject: [PATCH 43/74] fix: do not move variables past expressions referring
 to them

---
 simple-decl.c | 109 +++++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 104 insertions(+), 5 deletions(-)

diff --git a/simple-decl.c b/simple-decl.c
index dd01902..9257062 100644
--- a/simple-decl.c
+++ b/simple-decl.c
@@ -40,11 +40,13 @@ static const char	*token_range_str(const struct token_range *,
  */
 struct decl {
 	/* Type slots to be placed after this declaration. */
-	VECTOR(unsigned int)	slots;
+	VECTOR(unsigned int)	 slots;
 	/* Tokens covering the whole declaration, including the semicolon. */
-	struct token_range	tr;
+	struct token_range	 tr;
+	/* Type of the declaration. */
+	const char		*type;
 	/* Number of variables of the declaration that cannot be moved. */
-	int			nkeep;
+	int			 nkeep;
 };
 
 static void	decl_free(struct decl *);
@@ -62,6 +64,8 @@ struct decl_type {
 	struct token_range		 dt_tr;
 	VECTOR(struct decl_type_vars)	 dt_slots;
 	const char			*dt_str;
+	/* Moving variable(s) would change the meaning of the source code. */
+	int				 dt_ignore;
 };
 
 static struct decl_type_vars	*decl_type_slot(struct decl_type *,
@@ -81,6 +85,8 @@ struct decl_type_vars {
 	} semi;
 };
 
+static struct token	*decl_type_vars_semi(const struct decl_type_vars *);
+
 struct simple_decl {
 	/*
 	 * Duplicate type declarations ending up empty due to variables of the
@@ -106,6 +112,7 @@ static struct decl_type	*simple_decl_type_create(struct simple_decl *,
     const char *, const struct token_range *);
 static struct decl_type	*simple_decl_type_find(struct simple_decl *,
     const char *);
+static int		 simple_decl_type_is_moveable(struct decl_type *);
 static struct token	*simple_decl_move_vars(struct simple_decl *,
     struct decl_type *, struct decl_type_vars *, struct token *);
 
@@ -141,11 +148,20 @@ simple_decl_leave(struct simple_decl *sd)
 	struct token *tk, *tmp;
 	size_t i;
 
+	for (i = 0; i < VECTOR_LENGTH(sd->types); i++) {
+		struct decl_type *dt = &sd->types[i];
+
+		dt->dt_ignore = !simple_decl_type_is_moveable(dt);
+	}
+
 	for (i = 0; i < VECTOR_LENGTH(sd->types); i++) {
 		struct decl_type *dt = &sd->types[i];
 		struct token *after;
 		unsigned int slot;
 
+		if (dt->dt_ignore)
+			continue;
+
 		for (slot = 0; slot < VECTOR_LENGTH(dt->dt_slots); slot++) {
 			struct decl_type_vars *ds = &dt->dt_slots[slot];
 			struct token *semi;
@@ -156,8 +172,7 @@ simple_decl_leave(struct simple_decl *sd)
 			/* Sort the variables in alphabetical order. */
 			VECTOR_SORT(ds->vars, decl_var_cmp);
 
-			semi = ds->semi.kept != NULL ? ds->semi.kept :
-			    ds->semi.fallback;
+			semi = decl_type_vars_semi(ds);
 			assert(semi != NULL && semi->tk_type == TOKEN_SEMI);
 			after = semi;
 
@@ -170,7 +185,11 @@ simple_decl_leave(struct simple_decl *sd)
 	/* Remove by now empty declarations. */
 	for (i = 0; i < VECTOR_LENGTH(sd->empty_decls); i++) {
 		struct decl *dc = &sd->empty_decls[i];
+		const struct decl_type *dt;
 
+		dt = simple_decl_type_find(sd, dc->type);
+		if (dt != NULL && dt->dt_ignore)
+			continue;
 		TOKEN_RANGE_FOREACH(tk, &dc->tr, tmp)
 			lexer_remove(lx, tk);
 	}
@@ -263,6 +282,7 @@ simple_decl_type(struct simple_decl *sd, struct token *beg, struct token *end)
 	if (VECTOR_INIT(dc->slots))
 		err(1, NULL);
 	dc->tr = tr;
+	dc->type = type;
 }
 
 void
@@ -369,6 +389,15 @@ decl_type_slot(struct decl_type *dt, unsigned int n)
 	return &dt->dt_slots[n];
 }
 
+/*
+ * Returns the semicolon after which all variables must be placed.
+ */
+static struct token *
+decl_type_vars_semi(const struct decl_type_vars *ds)
+{
+	return ds->semi.kept != NULL ? ds->semi.kept : ds->semi.fallback;
+}
+
 /*
  * Create or find the given type.
  */
@@ -417,6 +446,76 @@ simple_decl_type_find(struct simple_decl *sd, const char *type)
 	return NULL;
 }
 
+/*
+ * Returns true if the variable is referenced by any expression after the
+ * beginning and before the end. Returns -1 if the end is not reached.
+ */
+static int
+decl_var_is_referenced_between(const struct decl_var *dv,
+    const struct token *beg, const struct token *end)
+{
+	const struct token *tk;
+	int isexpr = 0;
+	int nrefs = 0;
+
+	for (tk = token_next(beg); tk != NULL; tk = token_next(tk)) {
+		if (tk == end)
+			return nrefs > 0;
+		if (token_cmp(tk, end) > 0)
+			break;
+
+		switch (tk->tk_type) {
+		case TOKEN_EQUAL:
+		case TOKEN_LPAREN:
+		case TOKEN_LSQUARE:
+			isexpr = 1;
+			break;
+		case TOKEN_SEMI:
+			isexpr = 0;
+			break;
+		case TOKEN_IDENT:
+			if (isexpr && token_strcmp(tk, dv->dv_sort) == 0)
+				nrefs++;
+			break;
+		}
+	}
+	return -1;
+}
+
+/*
+ * Returns true if any token between the given variable and semicolon refers to
+ * the variable.
+ */
+static int
+decl_var_is_referenced(const struct decl_var *dv, const struct token *semi)
+{
+	int rv;
+
+	rv = decl_var_is_referenced_between(dv, dv->dv_ident.tr_end, semi);
+	if (rv != -1)
+		return rv;
+	return decl_var_is_referenced_between(dv, semi,
+	    dv->dv_ident.tr_beg) == 1;
+}
+
+static int
+simple_decl_type_is_moveable(struct decl_type *dt)
+{
+	unsigned int slot;
+
+	for (slot = 0; slot < VECTOR_LENGTH(dt->dt_slots); slot++) {
+		struct decl_type_vars *ds = &dt->dt_slots[slot];
+		size_t i;
+
+		for (i = 0; i < VECTOR_LENGTH(ds->vars); i++) {
+			if (decl_var_is_referenced(&ds->vars[i],
+			    decl_type_vars_semi(ds)))
+				return 0;
+		}
+	}
+	return 1;
+}
+
 static struct token *
 simple_decl_move_vars(struct simple_decl *sd, struct decl_type *dt,
     struct decl_type_vars *ds, struct token *after)
-- 
2.43.0


From bcca816c1a41ae16986da33fb22a235ac8f395b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:49 +0000
Subject: [PATCH 44/74] fix: do not move variables preceded by a comma that
 cannot be moved

---
 simple-decl.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/simple-decl.c b/simple-decl.c
index 9257062..71ddba9 100644
--- a/simple-decl.c
+++ b/simple-decl.c
@@ -55,6 +55,8 @@ struct decl_var {
 	struct token_range	 dv_ident;
 	struct token		*dv_sort;
 	struct token		*dv_delim;
+	/* Variable cannot be moved. */
+	int			 dv_keep;
 };
 
 static int	decl_var_cmp(const struct decl_var *, const struct decl_var *);
@@ -315,6 +317,7 @@ simple_decl_comma(struct simple_decl *sd, struct token *comma)
 {
 	struct decl_var *dv;
 	struct token *delim = NULL;
+	int keep = 0;
 
 	if (decl_var_is_empty(&sd->dv))
 		return;
@@ -328,11 +331,15 @@ simple_decl_comma(struct simple_decl *sd, struct token *comma)
 		 * comma must be removed.
 		 */
 		delim = comma;
+	} else {
+		/* The comma is kept, as must the variable after it. */
+		keep = 1;
 	}
 	/* Another variable after the comma is expected. */
 	dv = simple_decl_var_init(sd);
 	dv->dv_ident.tr_beg = token_next(comma);
 	dv->dv_delim = delim;
+	dv->dv_keep = keep;
 }
 
 static const char *
@@ -568,7 +575,8 @@ simple_decl_var_end(struct simple_decl *sd, struct token *end)
 	assert(dv->dv_ident.tr_end == NULL);
 	/* The delimiter is not part of the identifier. */
 	dv->dv_ident.tr_end = token_prev(end);
-	if (!classify(&dv->dv_ident, &slot) || !token_is_moveable(end)) {
+	if (!classify(&dv->dv_ident, &slot) || !token_is_moveable(end) ||
+	    dv->dv_keep) {
 		dc->nkeep++;
 		keep = 1;
 	}
-- 
2.43.0


From b400be9f8b20790554cf24312deda5c6babd740c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:11 +0000
Subject: [PATCH 45/74] fix: only replace include guards that are include
 guards

With IncludeGuards, a leading #ifndef followed by a #define was taken for
the include guard and replaced, even if the two name different macros or if
other directives precede the #ifndef or follow its #endif. The define was
then lost.
---
 cpp-include-guard.c | 56 +++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 54 insertions(+), 2 deletions(-)

diff --git a/cpp-include-guard.c b/cpp-include-guard.c
index b883fa8..1668bbb 100644
--- a/cpp-include-guard.c
+++ b/cpp-include-guard.c
@@ -48,6 +48,56 @@ is_guard_define(const struct token *tk)
 	return nwords == threshold;
 }
 
+static size_t
+guard_name(const struct token *tk, const char **name)
+{
+	const char *str = tk->tk_str;
+	size_t len = tk->tk_len;
+	size_t i = 0;
+	size_t beg;
+
+	while (i < len && !isspace((unsigned char)str[i]))
+		i++;
+	while (i < len && isspace((unsigned char)str[i]))
+		i++;
+	beg = i;
+	while (i < len && !isspace((unsigned char)str[i]))
+		i++;
+	*name = &str[beg];
+	return i - beg;
+}
+
+static int
+is_guard_name_equal(const struct token *ifndef, const struct token *define)
+{
+	const char *define_name, *ifndef_name;
+	size_t len;
+
+	len = guard_name(ifndef, &ifndef_name);
+	return len == guard_name(define, &define_name) &&
+	    strncmp(ifndef_name, define_name, len) == 0;
+}
+
+/*
+ * Returns non-zero if nothing but comments are present before #ifndef and after
+ * #endif.
+ */
+static int
+is_guard_enclosing(const struct token *ifndef, const struct token *endif)
+{
+	const struct token *tk;
+
+	for (tk = token_prev(ifndef); tk != NULL; tk = token_prev(tk)) {
+		if (tk->tk_type != TOKEN_COMMENT && tk->tk_type != TOKEN_SPACE)
+			return 0;
+	}
+	for (tk = token_next(endif); tk != NULL; tk = token_next(tk)) {
+		if (tk->tk_type != TOKEN_COMMENT && tk->tk_type != TOKEN_SPACE)
+			return 0;
+	}
+	return 1;
+}
+
 static const char *
 path_to_guard(const char *path, unsigned int ncomponents, struct arena_scope *s)
 {
@@ -93,12 +143,14 @@ sense_include_guards(struct lexer *lx, const char *cpp_ifndef,
 	define = token_list_find(&first->tk_prefixes, TOKEN_CPP_DEFINE, 0);
 	if (define == NULL ||
 	    token_next(ifndef) != define ||
-	    !is_guard_define(define))
+	    !is_guard_define(define) ||
+	    !is_guard_name_equal(ifndef, define))
 		return 0;
 
 	endif = clang_token_branch_next(ifndef);
 	if (endif->tk_type != TOKEN_CPP_ENDIF ||
-	    clang_token_branch_parent(endif) != eof)
+	    clang_token_branch_parent(endif) != eof ||
+	    !is_guard_enclosing(ifndef, endif))
 		return 0;
 
 	c->ifndef.tk = ifndef;
-- 
2.43.0


From 8c2628d643bd754f689b1bef4cd8002a4cff7321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:14 +0000
Subject: [PATCH 46/74] fix: division by zero in the unsigned multiplication
 overflow fallback

---
 libks/arithmetic.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libks/arithmetic.c b/libks/arithmetic.c
index 277b016..1c4c083 100644
--- a/libks/arithmetic.c
+++ b/libks/arithmetic.c
@@ -62,7 +62,7 @@
 } while (0)
 
 #define UNSIGNED_MUL_OVERFLOW(max, a, b, c) do {			\
-	if ((a) > (max) / (b))						\
+	if ((b) > 0 && (a) > (max) / (b))				\
 		return 1;						\
 	*(c) = (a) * (b);						\
 	return 0;							\
-- 
2.43.0


From a6ec209d242a4c82c81761519d131cc30ede64dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:22 +0000
Subject: [PATCH 47/74] fix: simplify statements inside loops and switch cases

The cookie of the empty loop and default case passes was held while parsing the
body, excluding all other passes.
---
 parser-stmt.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser-stmt.c b/parser-stmt.c
index 96ab022..bb261e9 100644
--- a/parser-stmt.c
+++ b/parser-stmt.c
@@ -441,6 +441,7 @@ parser_stmt_for(struct parser *pr, struct doc *dc)
 		else
 			simple_stmt_empty_loop_no_braces(lx);
 	}
+	simple_leave(&cookie);
 
 	if (lexer_peek_if(lx, TOKEN_LBRACE, NULL)) {
 		doc_literal(" ", expr);
@@ -601,6 +602,7 @@ parser_stmt_kw_expr(struct parser *pr, struct doc *dc, int token_type,
 		else
 			simple_stmt_empty_loop_no_braces(lx);
 	}
+	simple_leave(&cookie);
 
 	if (lexer_peek_if(lx, TOKEN_LBRACE, NULL)) {
 		unsigned int parser_stmt_flags = 0;
@@ -724,6 +726,7 @@ parser_stmt_case(struct parser *pr, struct doc *dc)
 	simple_cookie(cookie);
 	if (simple_enter(pr->pr_si, SIMPLE_STMT_SWITCH, 0, &cookie))
 		simple_stmt_switch(pr->pr_lx, kw);
+	simple_leave(&cookie);
 
 	indent = doc_indent(style(pr->pr_st, IndentWidth), dc);
 	for (;;) {
-- 
2.43.0


From 8fc0a94fe3e3da0c4d51c0f4a9568a3cfbd20823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:22 +0000
Subject: [PATCH 48/74] fix: remove redundant parenthesis around a single
 identifier

---
 expr.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/expr.c b/expr.c
index ede8f15..c791118 100644
--- a/expr.c
+++ b/expr.c
@@ -556,6 +556,9 @@ expr_exec_parens(struct expr_state *es, struct expr *lhs)
 			if (lexer_expect(es->es_lx, TOKEN_RPAREN, &tk))
 				ex->ex_tokens[1] = tk;	/* ) */
 			ex->ex_rhs = expr_exec1(es, PC(es->es_er->er_pc));
+			/* Parenthesis around what turned out not to be a type. */
+			if (ex->ex_rhs == NULL)
+				ex->ex_type = EXPR_PARENS;
 			return ex;
 		}
 
-- 
2.43.0


From cba3188f92baec2c9f21887ee089eb7363fa39ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:56 +0000
Subject: [PATCH 49/74] fix: adjust columns while moving static first

---
 lexer.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lexer.c b/lexer.c
index 18fbbd6..1172909 100644
--- a/lexer.c
+++ b/lexer.c
@@ -513,6 +513,15 @@ lexer_move_before(struct lexer *lx, struct token *before, struct token *mv)
 	if (token_is_first(mv))
 		mv_suffix_flags |= TOKEN_FLAG_OPTSPACE;
 
+	/* Adjust columns of all tokens about to be preceded by the moved token. */
+	if (token_cmp(before, mv) == 0) {
+		struct token *tk;
+
+		mv->tk_cno = before->tk_cno;
+		for (tk = before; tk != mv; tk = token_next(tk))
+			tk->tk_cno += (unsigned int)mv->tk_len + 1;
+	}
+
 	LIST_REMOVE(&lx->lx_tokens, mv);
 	LIST_INSERT_BEFORE(before, mv);
 	mv->tk_lno = before->tk_lno;
-- 
2.43.0


From ca96bbb008536db6f670d0e9a3ae7fc3a356d777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:50 +0000
Subject: [PATCH 50/74] fix: only remove the line break ending the format
 string

The backslash could be escaped, the last string literal is not the end of the
format if followed by a macro and literals could have an encoding prefix.
---
 simple-expr-printf.c | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/simple-expr-printf.c b/simple-expr-printf.c
index 3aa8c92..840d5cc 100644
--- a/simple-expr-printf.c
+++ b/simple-expr-printf.c
@@ -67,6 +67,10 @@ find_format_argument_inner(struct lexer *lx, enum format_argno argno)
 	}
 	while (lexer_if(lx, TOKEN_STRING, &format))
 		continue;
+	/* The last string must end the format. */
+	if (!lexer_if(lx, TOKEN_COMMA, NULL) &&
+	    !lexer_if(lx, TOKEN_RPAREN, NULL))
+		return NULL;
 	return format;
 }
 
@@ -89,9 +93,17 @@ string_has_line(const char *str, size_t len)
 {
 	const char suffix[] = "\\n\"";
 	size_t suffixlen = sizeof(suffix) - 1;
+	size_t i;
+	int nbackslashes = 0;
+
+	if (len < suffixlen ||
+	    strncmp(&str[len - suffixlen], suffix, suffixlen) != 0)
+		return 0;
 
-	return len >= suffixlen &&
-	    strncmp(&str[len - suffixlen], suffix, suffixlen) == 0;
+	/* The backslash could itself be escaped. */
+	for (i = len - suffixlen + 1; i > 0 && str[i - 1] == '\\'; i--)
+		nbackslashes++;
+	return nbackslashes % 2 == 1;
 }
 
 void
@@ -109,8 +121,7 @@ simple_expr_printf(struct lexer *lx, struct token *tk, struct arena_scope *s)
 	if (!string_has_line(format->tk_str, format->tk_len))
 		return;
 
-	sanitized_format = arena_sprintf(s, "\"%.*s\"",
-	    (int)(format->tk_len - 1 /* " */ - 3 /* \n" */),
-	    &format->tk_str[1]);
+	sanitized_format = arena_sprintf(s, "%.*s\"",
+	    (int)(format->tk_len - 3 /* \n" */), format->tk_str);
 	token_set_str(format, sanitized_format, strlen(sanitized_format));
 }
-- 
2.43.0


From b1dbc5d98a7d0a1415d247d47097a0d8289ea9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:04 +0000
Subject: [PATCH 51/74] fix: skip everything not understood in a style file

A flow collection, string in double quotes, invalid regex or nested option
outside of its parent caused the whole or rest of the file to be ignored. An
option lacking a value swallowed the next one.
---
 style.c | 90 ++++++++++++++++++++++++++++++++++++++-------------------
 1 file changed, 60 insertions(+), 30 deletions(-)

diff --git a/style.c b/style.c
index 14f21f1..8af0751 100644
--- a/style.c
+++ b/style.c
@@ -612,6 +612,22 @@ yaml_document_language(struct lexer *lx)
 	return language;
 }
 
+/*
+ * Skip the value of the given key, including everything nested below it.
+ */
+static void
+yaml_skip_value(struct lexer *lx, const struct token *key)
+{
+	struct token *tk;
+
+	while (lexer_peek(lx, &tk) && tk->tk_type != LEXER_EOF) {
+		if (tk->tk_lno != key->tk_lno && tk->tk_cno <= key->tk_cno &&
+		    (tk->tk_type != Sequence || tk->tk_cno != key->tk_cno))
+			break;
+		(void)lexer_pop(lx, &tk);
+	}
+}
+
 static void
 skip_document(struct lexer *lx)
 {
@@ -653,7 +669,7 @@ style_parse_yaml_documents(struct style *st, struct lexer *lx, int nested)
 			}
 		}
 
-		if (lexer_peek_if(lx, Sequence, NULL))
+		if (nested && lexer_peek_if(lx, Sequence, NULL))
 			break;
 
 		if (lexer_if(lx, DocumentBegin, NULL))
@@ -666,8 +682,11 @@ style_parse_yaml_documents(struct style *st, struct lexer *lx, int nested)
 			break;
 		}
 		so = token_priv(key, struct yaml_token)->so;
-		if (so != NULL && so->so_scope != st->scope)
-			break;
+		if (so != NULL && so->so_scope != st->scope) {
+			if (nested)
+				break;
+			so = NULL;
+		}
 		if (so != NULL)
 			error = so->so_parse(st, lx, so);
 		if (error & (GOOD | SKIP)) {
@@ -675,19 +694,9 @@ style_parse_yaml_documents(struct style *st, struct lexer *lx, int nested)
 		} else if (error & FAIL) {
 			break;
 		} else {
-			struct token *val;
-
 			/* Best effort, try to continue parsing. */
 			(void)lexer_pop(lx, &key);
-			(void)lexer_if(lx, Colon, NULL);
-			if (lexer_peek_if(lx, Sequence, NULL)) {
-				/* Ignore sequences. */
-				while (lexer_if(lx, Sequence, NULL) &&
-				    lexer_pop(lx, &val))
-					continue;
-			} else {
-				(void)lexer_pop(lx, &val);
-			}
+			yaml_skip_value(lx, key);
 			lexer_error(lx, key, __func__, __LINE__,
 			    "unknown option %s", lexer_serialize(lx, key));
 		}
@@ -805,13 +814,17 @@ again:
 		return yaml_keyword(lx, &s);
 	}
 
-	if (ch == '\'') {
-		s = lexer_get_state(lx); /* discard '\'' */
+	if (ch == '\'' || ch == '"') {
+		unsigned char delim = ch;
+		unsigned char pch = ch;
+
+		s = lexer_get_state(lx); /* discard delimiter */
 		for (;;) {
 			if (lexer_getc(lx, &ch))
 				goto eof;
-			if (ch == '\'')
+			if (ch == delim && (delim != '"' || pch != '\\'))
 				break;
+			pch = pch == '\\' && ch == '\\' ? '\0' : ch;
 		}
 		lexer_ungetc(lx);
 		tk = yaml_keyword(lx, &s);
@@ -821,15 +834,28 @@ again:
 		}
 		if (tk == NULL)
 			tk = lexer_emit(lx, &s, String);
-		lexer_getc(lx, &ch); /* discard '\'' */
+		lexer_getc(lx, &ch); /* discard delimiter */
 		return tk;
 	}
 
-	tk = lexer_emit(lx, &s, Unknown);
-	lexer_error(lx, tk, __func__, __LINE__,
-	    "unknown token %s", lexer_serialize(lx, tk));
-	token_rele(tk);
-	return NULL;
+	/* Not supported, consume flow collections or everything up to space. */
+	if (ch == '[' || ch == '{') {
+		int nest = 1;
+
+		while (nest > 0 && lexer_getc(lx, &ch) == 0) {
+			if (ch == '[' || ch == '{')
+				nest++;
+			else if (ch == ']' || ch == '}')
+				nest--;
+		}
+	} else {
+		do {
+			if (lexer_getc(lx, &ch))
+				break;
+		} while (!isspace(ch));
+		lexer_ungetc(lx);
+	}
+	return lexer_emit(lx, &s, Unknown);
 
 eof:
 	return lexer_emit(lx, &s, LEXER_EOF);
@@ -851,7 +877,7 @@ yaml_read_integer(struct lexer *lx)
 
 	if (lexer_getc(lx, &ch))
 		return NULL;
-	if (ch == '\'') {
+	if (ch == '\'' || ch == '"') {
 		if (lexer_getc(lx, &ch))
 			return NULL;
 		string = 1;
@@ -982,10 +1008,11 @@ parse_bool(struct style *st, struct lexer *lx, const struct style_option *so)
 	if (!lexer_expect(lx, Colon, NULL))
 		return FAIL;
 	if (!lexer_if(lx, True, &val) && !lexer_if(lx, False, &val)) {
-		(void)lexer_pop(lx, &val);
+		(void)lexer_peek(lx, &val);
 		lexer_error(lx, val, __func__, __LINE__,
 		    "unknown value %s for option %s",
 		    lexer_serialize(lx, val), lexer_serialize(lx, key));
+		yaml_skip_value(lx, key);
 		return SKIP;
 	}
 	style_set(st, key->tk_type, None, (unsigned int)val->tk_type);
@@ -1011,10 +1038,11 @@ parse_enum(struct style *st, struct lexer *lx, const struct style_option *so)
 		}
 	}
 
-	(void)lexer_pop(lx, &val);
+	(void)lexer_peek(lx, &val);
 	lexer_error(lx, val, __func__, __LINE__,
 	    "unknown value %s for option %s",
 	    lexer_serialize(lx, val), lexer_serialize(lx, key));
+	yaml_skip_value(lx, key);
 	return SKIP;
 }
 
@@ -1041,10 +1069,11 @@ parse_integer_impl(struct style *UNUSED(st), struct lexer *lx,
 	if (!lexer_expect(lx, Colon, NULL))
 		return FAIL;
 	if (!lexer_expect(lx, Integer, val)) {
-		(void)lexer_pop(lx, val);
+		(void)lexer_peek(lx, val);
 		lexer_error(lx, *val, __func__, __LINE__,
 		    "unknown value %s for option %s",
 		    lexer_serialize(lx, *val), lexer_serialize(lx, *key));
+		yaml_skip_value(lx, *key);
 		return SKIP;
 	}
 	return GOOD;
@@ -1061,10 +1090,11 @@ parse_string(struct style *UNUSED(st), struct lexer *lx,
 	if (!lexer_expect(lx, Colon, NULL))
 		return FAIL;
 	if (!lexer_expect(lx, String, &val)) {
-		(void)lexer_pop(lx, &val);
+		(void)lexer_peek(lx, &val);
 		lexer_error(lx, val, __func__, __LINE__,
 		    "unknown value %s for option %s",
 		    lexer_serialize(lx, val), lexer_serialize(lx, key));
+		yaml_skip_value(lx, key);
 		return SKIP;
 	}
 	return GOOD;
@@ -1250,7 +1280,7 @@ parse_IncludeGuards(struct style *st, struct lexer *lx,
 		style_set(st, IncludeGuards, Integer, 0);
 		lexer_error(lx, val, __func__, __LINE__,
 		    "integer %s too small", lexer_serialize(lx, val));
-		return FAIL;
+		return SKIP;
 	}
 	return GOOD;
 }
@@ -1316,7 +1346,7 @@ parse_Regex(struct style *st, struct lexer *lx, const struct style_option *so)
 		lexer_error(lx, tk, __func__, __LINE__, "%s", errbuf);
 		ic->pattern = NULL;
 		memset(&ic->regex, 0, sizeof(ic->regex));
-		return FAIL;
+		return SKIP;
 	}
 	return GOOD;
 }
-- 
2.43.0


From 373f974abb0d7b4775b98f24681e71b371782442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:04 +0000
Subject: [PATCH 52/74] fix: honor line continuations in C99 comments

---
 clang.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/clang.c b/clang.c
index d523511..5abb0c5 100644
--- a/clang.c
+++ b/clang.c
@@ -1182,10 +1182,15 @@ again:
 	c99 = ch == '/';
 
 	if (c99) {
+		unsigned char pch = '\0';
+
 		for (;;) {
 			if (lexer_getc(lx, &ch))
 				break;
-			if (ch == '\n') {
+			if (ch == '\n' && pch == '\\') {
+				/* Line continuation, part of the comment. */
+				oneline = 0;
+			} else if (ch == '\n') {
 				if (peek_c99_comment(lx, &beg)) {
 					oneline = 0;
 					goto again;
@@ -1193,6 +1198,7 @@ again:
 				lexer_ungetc(lx);
 				break;
 			}
+			pch = ch;
 		}
 	} else {
 		unsigned char peek;
-- 
2.43.0


From dbfeb2e40dbc3b587419b41ae97e0534a92bce46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:04 +0000
Subject: [PATCH 53/74] fix: do not treat /* inside literals in directives as a
 comment

---
 clang.c | 38 +++++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/clang.c b/clang.c
index 5abb0c5..98fb3cf 100644
--- a/clang.c
+++ b/clang.c
@@ -1249,7 +1249,10 @@ clang_read_cpp(struct clang *cl, struct lexer *lx)
 {
 	struct lexer_state kwst, oldst, st;
 	struct token *tk;
-	int comment, type;
+	int escape = 0;
+	int type;
+	/* Comment or literal being read. */
+	unsigned char delim = '\0';
 	unsigned char ch;
 
 	oldst = st = lexer_get_state(lx);
@@ -1267,25 +1270,38 @@ clang_read_cpp(struct clang *cl, struct lexer *lx)
 	type = clang_find_cpp(lx, &kwst, TOKEN_CPP);
 
 	ch = '\0';
-	comment = 0;
 	for (;;) {
 		unsigned char peek;
 
 		if (lexer_getc(lx, &peek))
 			break;
 
-		/*
-		 * Make block comments part of the preprocessor
-		 * directive.
-		 */
-		if (ch == '/' && peek == '*') {
-			comment = 1;
-		} else if (comment && ch == '*' && peek == '/') {
-			comment = 0;
-		} else if (!comment && ch != '\\' && peek == '\n') {
+		if (delim != '*' && ch != '\\' && peek == '\n') {
 			lexer_ungetc(lx);
 			break;
 		}
+
+		if (delim == '*') {
+			/*
+			 * Make block comments part of the preprocessor
+			 * directive.
+			 */
+			if (ch == '*' && peek == '/')
+				delim = '\0';
+		} else if (delim == '"' || delim == '\'') {
+			if (escape || peek == '\\')
+				escape = !escape && peek == '\\';
+			else if (peek == delim)
+				delim = '\0';
+		} else if (delim == '\0') {
+			if (ch == '/' && (peek == '*' || peek == '/')) {
+				delim = peek;
+				peek = '\0';
+			} else if (peek == '"' ||
+			    (peek == '\'' && !isalnum(ch))) {
+				delim = peek;
+			}
+		}
 		ch = peek;
 	}
 
-- 
2.43.0


From 03a74aa7354f097c00d95a001be94c67f5235010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:00 +0000
Subject: [PATCH 54/74] fix: preserve all mode bits while replacing a file of
 another owner

Changing the owner clears the setuid and setgid bits, adjust the mode last.
---
 knfmt.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/knfmt.c b/knfmt.c
index d04ca32..acbd9d1 100644
--- a/knfmt.c
+++ b/knfmt.c
@@ -392,16 +392,17 @@ fileattr(const char *srcpath, int srcfd, const char *dstpath, int dstfd)
 		return 1;
 	}
 
-	if (srcsb.st_mode != dstsb.st_mode &&
-	    fchmod(srcfd, dstsb.st_mode) == -1) {
-		warn("chmod: %s", srcpath);
-		return 1;
-	}
 	if ((srcsb.st_uid != dstsb.st_uid || srcsb.st_gid != dstsb.st_gid) &&
 	    fchown(srcfd, dstsb.st_uid, dstsb.st_gid) == -1) {
 		warn("chown: %s", srcpath);
 		return 1;
 	}
+	/* Must come last as chown(2) could clear bits in the mode. */
+	if (srcsb.st_mode != dstsb.st_mode &&
+	    fchmod(srcfd, dstsb.st_mode) == -1) {
+		warn("chmod: %s", srcpath);
+		return 1;
+	}
 
 	return 0;
 }
-- 
2.43.0


From afa24375fb521870bd8d6f943f5c70d1967a18e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:13 +0000
Subject: [PATCH 55/74] fix: discard white space on the empty line after a
 preprocessor directive

It was emitted as is and the empty line not recognized, causing includes in
separate blocks to be sorted together.
---
 clang.c | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/clang.c b/clang.c
index 98fb3cf..73e6864 100644
--- a/clang.c
+++ b/clang.c
@@ -1244,6 +1244,29 @@ again:
 	return tk;
 }
 
+/*
+ * Remove whitespace from the empty line at the end of the given token.
+ */
+static void
+trim_empty_line(struct clang *cl, struct token *tk)
+{
+	const char *str = tk->tk_str;
+	char *trimmed;
+	size_t len = tk->tk_len;
+
+	if (len == 0 || str[len - 1] != '\n')
+		return;
+	for (len--; len > 0; len--) {
+		if (str[len - 1] != ' ' && str[len - 1] != '\t')
+			break;
+	}
+	if (len == 0 || len == tk->tk_len - 1 || str[len - 1] != '\n')
+		return;
+	trimmed = arena_strndup(cl->arena.eternal_scope, str, len + 1);
+	trimmed[len] = '\n';
+	token_set_str(tk, trimmed, len + 1);
+}
+
 static struct token *
 clang_read_cpp(struct clang *cl, struct lexer *lx)
 {
@@ -1315,6 +1338,10 @@ clang_read_cpp(struct clang *cl, struct lexer *lx)
 	    .tk_type	= type,
 	    .tk_flags	= TOKEN_FLAG_CPP,
 	});
+	/* Directives being part of a branch must refer to the source code. */
+	if (type == TOKEN_CPP || type == TOKEN_CPP_DEFINE ||
+	    type == TOKEN_CPP_INCLUDE)
+		trim_empty_line(cl, tk);
 
 	if (tk->tk_type == TOKEN_CPP_DEFINE) {
 		struct buffer *bf;
-- 
2.43.0


From 247fb4117122dda7c271524d906ed696041248f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:45 +0000
Subject: [PATCH 56/74] fix: do not split number literals with other suffixes

Anything alphanumeric is part of the literal, as in 1.0i or 3wb.
---
 clang.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/clang.c b/clang.c
index 73e6864..bbead70 100644
--- a/clang.c
+++ b/clang.c
@@ -1602,7 +1602,5 @@ isexponent(unsigned char pch, unsigned char ch, int ishex)
 static int
 isnum(unsigned char ch)
 {
-	ch = isupper(ch) ? (unsigned char)tolower(ch) : ch;
-	return isdigit(ch) || isxdigit(ch) || ch == 'l' || ch == 'x' ||
-	    ch == 'u' || ch == '.';
+	return isalnum(ch) || ch == '_' || ch == '.';
 }
-- 
2.43.0


From 041dd91804022eb4a0c5a2e19ff073c3435e29dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:41 +0000
Subject: [PATCH 57/74] fix: only sort includes covered by one diff chunk

Otherwise, includes are lost or duplicated while combining -D and -s.
---
 cpp-include.c | 34 +++++++++++++++++++---------------
 lexer.c       | 22 ++++++++++++++++++++++
 lexer.h       |  2 ++
 3 files changed, 43 insertions(+), 15 deletions(-)

diff --git a/cpp-include.c b/cpp-include.c
index 17d75a6..4077f89 100644
--- a/cpp-include.c
+++ b/cpp-include.c
@@ -25,6 +25,7 @@ struct cpp_include {
 	struct simple			*si;
 	struct simple_cookie		 cookie;
 	struct arena			*scratch;
+	struct arena_scope		*eternal_scope;
 	const struct options		*op;
 	int				 ignore;
 	int				 regroup;
@@ -43,8 +44,7 @@ static void	cpp_include_free(void *);
 static void	cpp_include_exec(struct cpp_include *, struct lexer *);
 static void	cpp_include_reset(struct cpp_include *);
 
-static struct token	*add_line(struct cpp_include *, struct lexer *,
-    struct token *);
+static void	add_line(struct cpp_include *, struct token *);
 
 static const char	*findpath(const char *, size_t, struct arena_scope *);
 
@@ -67,6 +67,7 @@ cpp_include_alloc(const struct style *st, struct simple *si,
 	if (MAP_INIT(ci->groups))
 		err(1, NULL);
 	ci->prefixes = prefixes;
+	ci->eternal_scope = eternal_scope;
 	ci->st = st;
 	ci->si = si;
 	ci->scratch = scratch;
@@ -222,7 +223,8 @@ cpp_include_exec(struct cpp_include *ci, struct lexer *lx)
 	MAP_ITERATOR(ci->groups) it = {0};
 	struct token *after = ci->after;
 	const char *path = lexer_get_path(lx);
-	size_t i, nincludes;
+	unsigned int *lnos;
+	size_t i, n, nincludes;
 	unsigned int nbrackets = 0;
 	unsigned int nquotes = 0;
 	unsigned int nslashes = 0;
@@ -233,9 +235,13 @@ cpp_include_exec(struct cpp_include *ci, struct lexer *lx)
 	nincludes = VECTOR_LENGTH(ci->includes);
 	if (nincludes < 2)
 		return;
+	if (!lexer_is_diffchunk(lx, ci->includes[0].tk->tk_lno,
+	    ci->includes[nincludes - 1].tk->tk_lno))
+		return;
 
 	arena_scope(ci->scratch, s);
 
+	lnos = arena_calloc(&s, nincludes, sizeof(*lnos));
 	for (i = 0; i < nincludes; i++) {
 		struct include_priority priority = {0};
 		struct include *include = &ci->includes[i];
@@ -245,6 +251,7 @@ cpp_include_exec(struct cpp_include *ci, struct lexer *lx)
 		include_path = findpath(tk->tk_str, tk->tk_len, &s);
 		if (include_path == NULL)
 			return;
+		lnos[i] = tk->tk_lno;
 
 		if (ci->regroup) {
 			if (!is_main_include(include_path, path, ci->scratch)) {
@@ -271,6 +278,7 @@ cpp_include_exec(struct cpp_include *ci, struct lexer *lx)
 		add_to_include_group(ci, include);
 	}
 
+	n = 0;
 	while (MAP_ITERATE(ci->groups, &it)) {
 		struct include_group *group = it.val;
 		struct include **p;
@@ -299,9 +307,11 @@ cpp_include_exec(struct cpp_include *ci, struct lexer *lx)
 				token_list_prepend(ci->prefixes, include->tk);
 			}
 			after = include->tk;
+			/* Lines must be visited in order while diffing. */
+			after->tk_lno = lnos[n++];
 		}
 		if (doline)
-			after = add_line(ci, lx, after);
+			add_line(ci, after);
 	}
 }
 
@@ -325,18 +335,12 @@ cpp_include_reset(struct cpp_include *ci)
 	ci->ignore = 0;
 }
 
-static struct token *
-add_line(struct cpp_include *ci, struct lexer *lx, struct token *after)
+static void
+add_line(struct cpp_include *ci, struct token *tk)
 {
-	struct token *tk;
-
-	tk = lexer_emit_synthetic(lx, &(struct token){
-	    .tk_type	= TOKEN_SPACE,
-	    .tk_str	= "\n",
-	    .tk_len	= 1,
-	});
-	token_list_append_after(ci->prefixes, after, tk);
-	return tk;
+	tk->tk_str = arena_sprintf(ci->eternal_scope, "%.*s\n",
+	    (int)tk->tk_len, tk->tk_str);
+	tk->tk_len++;
 }
 
 static const char *
diff --git a/lexer.c b/lexer.c
index 1172909..0b1870b 100644
--- a/lexer.c
+++ b/lexer.c
@@ -505,6 +505,12 @@ lexer_move_after(struct lexer *lx, struct token *after, struct token *tk)
 	return tk;
 }
 
+static int
+is_diffing(const struct lexer *lx)
+{
+	return lx->lx_diff != NULL && !VECTOR_EMPTY(lx->lx_diff);
+}
+
 struct token *
 lexer_move_before(struct lexer *lx, struct token *before, struct token *mv)
 {
@@ -857,6 +863,22 @@ lexer_peek_last(struct lexer *lx, struct token **tk)
 	return *tk != NULL;
 }
 
+/*
+ * Returns non-zero if all lines between the given ones are covered by one diff
+ * chunk. Always the case while not operating on a diff.
+ */
+int
+lexer_is_diffchunk(const struct lexer *lx, unsigned int beg,
+    unsigned int end)
+{
+	const struct diffchunk *du;
+
+	if (!is_diffing(lx))
+		return 1;
+	du = lexer_get_diffchunk(lx, beg);
+	return du != NULL && du == lexer_get_diffchunk(lx, end);
+}
+
 static const struct diffchunk *
 lexer_get_diffchunk(const struct lexer *lx, unsigned int lno)
 {
diff --git a/lexer.h b/lexer.h
index 5043e72..df41437 100644
--- a/lexer.h
+++ b/lexer.h
@@ -120,4 +120,6 @@ int	lexer_until(struct lexer *, int, struct token **);
 int	lexer_peek_first(struct lexer *, struct token **);
 int	lexer_peek_last(struct lexer *, struct token **);
 
+int	lexer_is_diffchunk(const struct lexer *, unsigned int, unsigned int);
+
 void	lexer_dump(struct lexer *);
-- 
2.43.0


From 0dafaf5a4e3a406bb2fda5e8b8f409f23b1180ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:41 +0000
Subject: [PATCH 58/74] fix: only sort forward declarations covered by one diff
 chunk

Otherwise, declarations are lost or duplicated while combining -D and -s.
---
 simple-decl-forward.c | 39 +++++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/simple-decl-forward.c b/simple-decl-forward.c
index af5b73c..dbbfe38 100644
--- a/simple-decl-forward.c
+++ b/simple-decl-forward.c
@@ -77,8 +77,8 @@ simple_decl_forward_leave(struct simple_decl_forward *sd)
 {
 	struct token *after = sd->after;
 	struct token *first_sorted, *first_unsorted, *last_sorted,
-		     *last_unsorted;
-	unsigned int i;
+		     *last_unsorted, *suffix;
+	unsigned int first_cno, first_lno, i, last_lno;
 
 	if (VECTOR_LENGTH(sd->decls) < 2)
 		goto out;
@@ -86,6 +86,9 @@ simple_decl_forward_leave(struct simple_decl_forward *sd)
 	/* Preserve prefixes/suffixes. */
 	first_unsorted = first_token(sd);
 	last_unsorted = last_token(sd);
+	first_cno = first_unsorted->tk_cno;
+	first_lno = first_unsorted->tk_lno;
+	last_lno = last_unsorted->tk_lno;
 	VECTOR_SORT(sd->decls, decl_forward_cmp);
 	first_sorted = first_token(sd);
 	last_sorted = last_token(sd);
@@ -109,6 +112,14 @@ simple_decl_forward_leave(struct simple_decl_forward *sd)
 		}
 	}
 
+	/* The position of the first and last declaration remains. */
+	first_sorted->tk_cno = first_cno;
+	first_sorted->tk_lno = first_lno;
+	LIST_FOREACH(suffix, &last_sorted->tk_suffixes) {
+		if (suffix->tk_type == TOKEN_SPACE)
+			suffix->tk_lno = last_lno;
+	}
+
 out:
 	simple_decl_forward_reset(sd);
 }
@@ -158,21 +169,6 @@ find_ident(struct token *tk)
 	return NULL; /* UNREACHABLE */
 }
 
-static int
-is_covered_by_diff(struct token *beg, struct token *end)
-{
-	struct token *tk = beg;
-
-	for (;;) {
-		if ((tk->tk_flags & TOKEN_FLAG_DIFF) == 0)
-			return 0;
-		if (tk == end)
-			break;
-		tk = token_next(tk);
-	}
-	return 1;
-}
-
 void
 simple_decl_forward(struct simple_decl_forward *sd, struct token *beg,
     struct token *semi)
@@ -183,8 +179,15 @@ simple_decl_forward(struct simple_decl_forward *sd, struct token *beg,
 		simple_decl_forward_leave(sd);
 		return;
 	}
-	if (sd->op->diffparse && !is_covered_by_diff(beg, semi))
+	if (sd->op->diffparse &&
+	    !lexer_is_diffchunk(sd->lx, beg->tk_lno, semi->tk_lno)) {
+		simple_decl_forward_leave(sd);
 		return;
+	}
+	if (!VECTOR_EMPTY(sd->decls) &&
+	    !lexer_is_diffchunk(sd->lx, first_token(sd)->tk_lno,
+	    semi->tk_lno))
+		simple_decl_forward_leave(sd);
 
 	df = VECTOR_ALLOC(sd->decls);
 	if (df == NULL)
-- 
2.43.0


From b611293a82a3085317cea795ba9867c92545e212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:41 +0000
Subject: [PATCH 59/74] fix: only simplify declarations covered by one diff
 chunk

Otherwise, declarations are lost or duplicated while combining -D and -s.
---
 lexer.c       |  3 +++
 simple-decl.c | 35 +++++++++++++++++++++++++++++++++++
 2 files changed, 38 insertions(+)

diff --git a/lexer.c b/lexer.c
index 0b1870b..16411b9 100644
--- a/lexer.c
+++ b/lexer.c
@@ -553,6 +553,9 @@ lexer_remove(struct lexer *lx, struct token *tk)
 	nx = token_next(tk);
 	assert(nx != NULL);
 	lx->lx_callbacks.move_prefixes(tk, nx);
+	/* While diffing, the next token begins where the removed one did. */
+	if (is_diffing(lx) && token_cmp(tk, nx) == 0)
+		nx->tk_cno = tk->tk_cno;
 
 	pv = token_prev(tk);
 	if (pv == NULL)
diff --git a/simple-decl.c b/simple-decl.c
index 71ddba9..ea3e608 100644
--- a/simple-decl.c
+++ b/simple-decl.c
@@ -108,6 +108,12 @@ struct simple_decl {
 
 	struct lexer		*lx;
 	const struct options	*op;
+
+	/* First token of the first declaration. */
+	const struct token	*beg;
+
+	/* Declarations not covered by one diff chunk must be left as is. */
+	int			 ignore;
 };
 
 static struct decl_type	*simple_decl_type_create(struct simple_decl *,
@@ -143,6 +149,23 @@ simple_decl_enter(struct lexer *lx, struct arena_scope *eternal_scope,
 	return sd;
 }
 
+/*
+ * Let the token after the range begin where the range does, causing everything
+ * part of the range to not be considered as preceding it.
+ */
+static void
+move_position(struct simple_decl *sd, const struct token_range *tr)
+{
+	struct token *nx;
+
+	nx = token_next(tr->tr_end);
+	if (nx == NULL ||
+	    !lexer_is_diffchunk(sd->lx, tr->tr_beg->tk_lno, nx->tk_lno))
+		return;
+	nx->tk_lno = tr->tr_beg->tk_lno;
+	nx->tk_cno = tr->tr_beg->tk_cno;
+}
+
 void
 simple_decl_leave(struct simple_decl *sd)
 {
@@ -150,6 +173,9 @@ simple_decl_leave(struct simple_decl *sd)
 	struct token *tk, *tmp;
 	size_t i;
 
+	if (sd->ignore)
+		return;
+
 	for (i = 0; i < VECTOR_LENGTH(sd->types); i++) {
 		struct decl_type *dt = &sd->types[i];
 
@@ -192,6 +218,8 @@ simple_decl_leave(struct simple_decl *sd)
 		dt = simple_decl_type_find(sd, dc->type);
 		if (dt != NULL && dt->dt_ignore)
 			continue;
+		if (sd->op->diffparse)
+			move_position(sd, &dc->tr);
 		TOKEN_RANGE_FOREACH(tk, &dc->tr, tmp)
 			lexer_remove(lx, tk);
 	}
@@ -266,6 +294,9 @@ simple_decl_type(struct simple_decl *sd, struct token *beg, struct token *end)
 	struct decl_var *dv;
 	const char *type;
 
+	if (sd->beg == NULL)
+		sd->beg = beg;
+
 	if (!is_type_valid(beg, end))
 		return;
 
@@ -292,6 +323,10 @@ simple_decl_semi(struct simple_decl *sd, struct token *semi)
 {
 	struct decl *dc = VECTOR_LAST(sd->empty_decls);
 
+	if (sd->beg != NULL && !lexer_is_diffchunk(sd->lx,
+	    sd->beg->tk_lno, semi->tk_lno))
+		sd->ignore = 1;
+
 	if (decl_var_is_empty(&sd->dv))
 		return;
 
-- 
2.43.0


From bfcb197ea5793ce1e91c2d0eb7ee10c362b7b598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:41 +0000
Subject: [PATCH 60/74] fix: only add or remove braces of statements covered by
 one diff chunk

Otherwise, unbalanced braces are emitted while combining -D and -s.
---
 simple-stmt.c | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/simple-stmt.c b/simple-stmt.c
index 55d6f55..2ca6ad9 100644
--- a/simple-stmt.c
+++ b/simple-stmt.c
@@ -31,6 +31,7 @@ struct stmt {
 
 struct simple_stmt {
 	VECTOR(struct stmt)	 stmts;
+	struct token		*beg;
 	struct lexer		*lx;
 	const struct options	*op;
 	const struct style	*st;
@@ -53,6 +54,8 @@ static void	remove_braces(struct simple_stmt *);
 static int		 isoneline(const char *, size_t);
 static int		 is_brace_moveable(struct simple_stmt *,
     const struct token *);
+static int		 is_covered(const struct simple_stmt *,
+    const struct token *);
 static const char	*strtrim(const char *, size_t *);
 
 struct simple_stmt *
@@ -71,6 +74,8 @@ simple_stmt_enter(struct lexer *lx, const struct style *st,
 	ss->lx = lx;
 	ss->op = op;
 	ss->st = st;
+	if (!lexer_peek(lx, &ss->beg))
+		ss->beg = NULL;
 	return ss;
 }
 
@@ -116,7 +121,8 @@ simple_stmt_braces_enter(struct simple_stmt *ss, struct doc *dc,
 	if (isdecl)
 		flags |= STMT_IGNORE;
 	/* Make sure both braces are covered by a diff chunk. */
-	if (!is_brace_moveable(ss, lbrace) || !is_brace_moveable(ss, rbrace))
+	if (!is_brace_moveable(ss, lbrace) || !is_brace_moveable(ss, rbrace) ||
+	    !is_covered(ss, rbrace))
 		flags |= STMT_IGNORE;
 	st = simple_stmt_alloc(ss, dc, indent, flags);
 	if (st == NULL)
@@ -152,7 +158,8 @@ simple_stmt_no_braces_leave(struct simple_stmt *ss, struct token *rbrace,
 {
 	struct stmt *st = cookie;
 
-	if (!is_brace_moveable(ss, rbrace))
+	if (!is_brace_moveable(ss, rbrace) ||
+	    !is_covered(ss, token_prev(rbrace)))
 		st->flags |= STMT_IGNORE;
 	token_ref(rbrace);
 	st->rbrace = rbrace;
@@ -308,6 +315,17 @@ is_brace_moveable(struct simple_stmt *ss, const struct token *tk)
 	return !token_has_cpp(tk);
 }
 
+/*
+ * Returns non-zero if everything from the beginning of the statement up to the
+ * given token is covered by one diff chunk.
+ */
+static int
+is_covered(const struct simple_stmt *ss, const struct token *tk)
+{
+	return ss->beg == NULL ||
+	    lexer_is_diffchunk(ss->lx, ss->beg->tk_lno, tk->tk_lno);
+}
+
 static const char *
 strtrim(const char *buf, size_t *buflen)
 {
-- 
2.43.0


From 4f56f0fc43dd47d0d0c4ad28c005d4605d519ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:41 +0000
Subject: [PATCH 61/74] fix: only insert break if the next line is covered by
 the diff chunk

---
 simple-stmt-switch.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simple-stmt-switch.c b/simple-stmt-switch.c
index 066aa98..b949136 100644
--- a/simple-stmt-switch.c
+++ b/simple-stmt-switch.c
@@ -31,6 +31,9 @@ simple_stmt_switch(struct lexer *lx, struct token *tkcase)
 	lexer_peek_leave(lx, &ls);
 	if (!peek)
 		return;
+	/* The next line must also be covered by the diff chunk. */
+	if (!lexer_is_diffchunk(lx, colon->tk_lno, colon->tk_lno + 1))
+		return;
 
 	tkbreak = lexer_insert_after(lx, colon,
 	    clang_keyword_token(TOKEN_BREAK));
-- 
2.43.0


From cf16262663a8464a264319270ae4f25191dc98ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:41 +0000
Subject: [PATCH 62/74] fix: only simplify parenthesis covered by one diff
 chunk

Otherwise, unbalanced parenthesis are emitted while combining -D and -s.
---
 expr.c | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/expr.c b/expr.c
index c791118..1562ba9 100644
--- a/expr.c
+++ b/expr.c
@@ -15,6 +15,7 @@
 #include "clang.h"
 #include "doc.h"
 #include "lexer.h"
+#include "options.h"
 #include "ruler.h"
 #include "simple-expr-printf.h"
 #include "simple.h"
@@ -89,6 +90,7 @@ struct expr {
 		struct {
 			struct token	*lparen;
 			struct token	*rparen;
+			int		 ignore;
 		} ex_sizeof;
 	};
 };
@@ -611,6 +613,10 @@ expr_exec_sizeof(struct expr_state *es, struct expr *NDEBUG_UNUSED(lhs))
 	} else {
 		/* Cope with post increment and decrement of the operand. */
 		ex->ex_lhs = expr_exec1(es, PC13);
+		/* Both parenthesis must be covered by the same diff chunk. */
+		ex->ex_sizeof.ignore = lexer_peek(es->es_lx, &tk) &&
+		    !lexer_is_diffchunk(es->es_lx, ex->ex_tk->tk_lno,
+		    tk->tk_lno);
 	}
 
 	return ex;
@@ -927,7 +933,19 @@ expr_doc_parens(struct expr *ex, struct expr_state *es, struct doc *dc)
 	if (es->es_depth == 1 && !is_stmt_expr(ex) &&
 	    (ex->ex_tokens[0] == NULL || token_is_moveable(ex->ex_tokens[0])) &&
 	    (ex->ex_tokens[1] == NULL || token_is_moveable(ex->ex_tokens[1])) &&
+	    (ex->ex_tokens[0] == NULL || ex->ex_tokens[1] == NULL ||
+	     lexer_is_diffchunk(es->es_lx, ex->ex_tokens[0]->tk_lno,
+	     ex->ex_tokens[1]->tk_lno)) &&
 	    simple_enter(es->es_ea.si, SIMPLE_EXPR_PARENS, 0, &simple)) {
+		struct token *nx;
+
+		/* The expression begins where the left parenthesis did. */
+		if (ex->ex_tokens[0] != NULL &&
+		    es->es_op->diffparse &&
+		    (nx = token_next(ex->ex_tokens[0])) != NULL) {
+			nx->tk_cno = ex->ex_tokens[0]->tk_cno;
+			nx->tk_lno = ex->ex_tokens[0]->tk_lno;
+		}
 		if (ex->ex_lhs != NULL)
 			dc = expr_doc(ex->ex_lhs, es, dc);
 	} else {
@@ -1059,7 +1077,8 @@ expr_doc_sizeof(struct expr *ex, struct expr_state *es, struct doc *dc)
 		expr_doc_token(es, ex->ex_sizeof.lparen, dc);
 	} else {
 		simple_cookie(simple);
-		if (simple_enter(es->es_ea.si, SIMPLE_EXPR_SIZEOF, 0, &simple))
+		if (!ex->ex_sizeof.ignore &&
+		    simple_enter(es->es_ea.si, SIMPLE_EXPR_SIZEOF, 0, &simple))
 			doc_literal("(", dc);
 		else
 			doc_literal(" ", dc);
@@ -1070,7 +1089,8 @@ expr_doc_sizeof(struct expr *ex, struct expr_state *es, struct doc *dc)
 		expr_doc_token(es, ex->ex_sizeof.rparen, dc);
 	} else {
 		simple_cookie(simple);
-		if (simple_enter(es->es_ea.si, SIMPLE_EXPR_SIZEOF, 0, &simple))
+		if (!ex->ex_sizeof.ignore &&
+		    simple_enter(es->es_ea.si, SIMPLE_EXPR_SIZEOF, 0, &simple))
 			doc_literal(")", dc);
 	}
 	return dc;
-- 
2.43.0


From 02ca9eaaf542c2d5f7e2a06f79bd5d1f31a787db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:41 +0000
Subject: [PATCH 63/74] fix: only move static in declarations covered by one
 diff chunk

---
 lexer.c         | 2 ++
 simple-static.c | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/lexer.c b/lexer.c
index 16411b9..7852198 100644
--- a/lexer.c
+++ b/lexer.c
@@ -526,6 +526,8 @@ lexer_move_before(struct lexer *lx, struct token *before, struct token *mv)
 		mv->tk_cno = before->tk_cno;
 		for (tk = before; tk != mv; tk = token_next(tk))
 			tk->tk_cno += (unsigned int)mv->tk_len + 1;
+	} else if (is_diffing(lx)) {
+		mv->tk_cno = before->tk_cno;
 	}
 
 	LIST_REMOVE(&lx->lx_tokens, mv);
diff --git a/simple-static.c b/simple-static.c
index 57d115e..fb39b74 100644
--- a/simple-static.c
+++ b/simple-static.c
@@ -28,6 +28,8 @@ simple_static(struct lexer *lx, struct token *beg, struct token *end)
 	tk = find_static_token(beg, end);
 	if (tk == NULL || tk == beg || !token_is_moveable(tk))
 		return end;
+	if (!lexer_is_diffchunk(lx, beg->tk_lno, end->tk_lno))
+		return end;
 	if (tk == end)
 		end = token_prev(end);
 	lexer_move_before(lx, beg, tk);
-- 
2.43.0


From cfcda71c281f2f5ce512de56106113021da48c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:37 +0000
Subject: [PATCH 64/74] fix: discard line breaks after moved variables

Otherwise, the semicolon ends up on another line which might not be
covered by the diff chunk, causing code to be lost while combining -D and
-s.
---
 simple-decl.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/simple-decl.c b/simple-decl.c
index ea3e608..d6e8472 100644
--- a/simple-decl.c
+++ b/simple-decl.c
@@ -128,6 +128,8 @@ static struct decl_var	*simple_decl_var_init(struct simple_decl *);
 static struct decl_var	*simple_decl_var_end(struct simple_decl *,
     struct token *);
 
+static void	remove_spaces(struct token *);
+
 static void	associate_semi(struct decl *, struct decl_type *,
     struct token *);
 static int	classify(const struct token_range *, unsigned int *);
@@ -582,13 +584,27 @@ simple_decl_move_vars(struct simple_decl *sd, struct decl_type *dt,
 			    clang_keyword_token(TOKEN_COMMA));
 		}
 
-		TOKEN_RANGE_FOREACH(ident, &dv->dv_ident, tmp)
+		TOKEN_RANGE_FOREACH(ident, &dv->dv_ident, tmp) {
+			/* Line break(s) are not part of the declaration. */
+			remove_spaces(ident);
 			after = lexer_move_after(lx, after, ident);
+		}
 	}
 
 	return lexer_insert_after(lx, after, clang_keyword_token(TOKEN_SEMI));
 }
 
+static void
+remove_spaces(struct token *tk)
+{
+	struct token *suffix, *tmp;
+
+	LIST_FOREACH_SAFE(suffix, &tk->tk_suffixes, tmp) {
+		if (suffix->tk_type == TOKEN_SPACE)
+			token_list_remove(&tk->tk_suffixes, suffix);
+	}
+}
+
 static struct decl_var *
 simple_decl_var_init(struct simple_decl *sd)
 {
-- 
2.43.0


From b4932b0940346a6cdf826f4a3c10dc6c10291024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:16 +0000
Subject: [PATCH 65/74] fix: extend the diff chunk if a group reaches into the
 next one

Otherwise, the remaining lines of the next diff chunk are not formatted and
simplifications of them are only emitted in part.
---
 doc.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/doc.c b/doc.c
index f714915..0d99ccb 100644
--- a/doc.c
+++ b/doc.c
@@ -1507,6 +1507,7 @@ doc_diff_mute_leave(const struct doc *dc, struct doc_state *st)
 static void
 doc_diff_literal(const struct doc *dc, struct doc_state *st)
 {
+	const struct diffchunk *du;
 	unsigned int lno;
 
 	if (!DOC_DIFF(st))
@@ -1520,10 +1521,13 @@ doc_diff_literal(const struct doc *dc, struct doc_state *st)
 			/*
 			 * The current group spans beyond the diff chunk, adjust
 			 * the end line. This can happen when reformatting
-			 * causes lines to be merged.
+			 * causes lines to be merged. The group could reach into
+			 * another diff chunk.
 			 */
-			doc_trace(dc, st, "%s: end %u", __func__, lno);
-			st->st_diff.end = lno;
+			du = diff_get_chunk(st->st_diff_chunks, lno);
+			st->st_diff.end = du != NULL ? du->du_end : lno;
+			doc_trace(dc, st, "%s: end %u", __func__,
+			    st->st_diff.end);
 		}
 	} else if (lno > st->st_diff.end) {
 		doc_diff_leave(dc, st, 1);
-- 
2.43.0


From d87b4946c953ac9e887af85b5b27f89fe4f70212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:18 +0000
Subject: [PATCH 66/74] fix: do not join a division with the comment before it

---
 expr.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/expr.c b/expr.c
index 1562ba9..682fd30 100644
--- a/expr.c
+++ b/expr.c
@@ -1385,13 +1385,19 @@ token_move_next_line(struct token *tk)
 static void
 token_move_prev_line(struct token *tk)
 {
-	struct token *pv;
+	struct token *pv, *suffix;
 	unsigned int lno;
 
 	pv = token_prev(tk);
 	lno = tk->tk_lno - pv->tk_lno;
-	if (token_has_line(pv, 1) && lno == 1)
-		token_move_suffixes(pv, tk);
+	if (!token_has_line(pv, 1) || lno != 1)
+		return;
+	/* Must not end up with a slash being part of the comment. */
+	LIST_FOREACH(suffix, &pv->tk_suffixes) {
+		if (tk->tk_type == TOKEN_SLASH && suffix->tk_str[0] == '/')
+			return;
+	}
+	token_move_suffixes(pv, tk);
 }
 
 static const char *
-- 
2.43.0


From 31edfa59575ef701604a06bae6ffe039dfc1f826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:36 +0000
Subject: [PATCH 67/74] fix: preserve alignment after redundant semicolons
 while diffing

---
 lexer.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lexer.c b/lexer.c
index 7852198..95052e2 100644
--- a/lexer.c
+++ b/lexer.c
@@ -555,8 +555,12 @@ lexer_remove(struct lexer *lx, struct token *tk)
 	nx = token_next(tk);
 	assert(nx != NULL);
 	lx->lx_callbacks.move_prefixes(tk, nx);
-	/* While diffing, the next token begins where the removed one did. */
-	if (is_diffing(lx) && token_cmp(tk, nx) == 0)
+	/*
+	 * While diffing, the next token begins where the removed one did.
+	 * Redundant semicolons are harmless.
+	 */
+	if (is_diffing(lx) && tk->tk_type != TOKEN_SEMI &&
+	    token_cmp(tk, nx) == 0)
 		nx->tk_cno = tk->tk_cno;
 
 	pv = token_prev(tk);
-- 
2.43.0


From a365dd07c658fd255472d55263edad62fd3f1276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:11 +0000
Subject: [PATCH 68/74] fix: do not lose includes while regrouping the end of a
 diff chunk

---
 cpp-include.c | 33 +++++++++++++++++++++++++++++----
 doc.c         |  3 +++
 2 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/cpp-include.c b/cpp-include.c
index 4077f89..b3cf2f2 100644
--- a/cpp-include.c
+++ b/cpp-include.c
@@ -44,7 +44,9 @@ static void	cpp_include_free(void *);
 static void	cpp_include_exec(struct cpp_include *, struct lexer *);
 static void	cpp_include_reset(struct cpp_include *);
 
-static void	add_line(struct cpp_include *, struct token *);
+static struct token	*add_line(struct cpp_include *, struct lexer *,
+    struct token *);
+static void		 append_line(struct cpp_include *, struct token *);
 
 static const char	*findpath(const char *, size_t, struct arena_scope *);
 
@@ -228,6 +230,7 @@ cpp_include_exec(struct cpp_include *ci, struct lexer *lx)
 	unsigned int nbrackets = 0;
 	unsigned int nquotes = 0;
 	unsigned int nslashes = 0;
+	int trailing_line;
 
 	if (ci->ignore)
 		return;
@@ -279,6 +282,8 @@ cpp_include_exec(struct cpp_include *ci, struct lexer *lx)
 	}
 
 	n = 0;
+	trailing_line = token_has_verbatim_line(
+	    ci->includes[nincludes - 1].tk, 2);
 	while (MAP_ITERATE(ci->groups, &it)) {
 		struct include_group *group = it.val;
 		struct include **p;
@@ -310,8 +315,14 @@ cpp_include_exec(struct cpp_include *ci, struct lexer *lx)
 			/* Lines must be visited in order while diffing. */
 			after->tk_lno = lnos[n++];
 		}
-		if (doline)
-			add_line(ci, after);
+		if (!doline)
+			continue;
+		if (n < VECTOR_LENGTH(ci->includes)) {
+			after = add_line(ci, lx, after);
+		} else if (trailing_line || !ci->op->diffparse) {
+			/* The existing line is part of the last include. */
+			append_line(ci, after);
+		}
 	}
 }
 
@@ -335,8 +346,22 @@ cpp_include_reset(struct cpp_include *ci)
 	ci->ignore = 0;
 }
 
+static struct token *
+add_line(struct cpp_include *ci, struct lexer *lx, struct token *after)
+{
+	struct token *tk;
+
+	tk = lexer_emit_synthetic(lx, &(struct token){
+	    .tk_type	= TOKEN_SPACE,
+	    .tk_str	= "\n",
+	    .tk_len	= 1,
+	});
+	token_list_append_after(ci->prefixes, after, tk);
+	return tk;
+}
+
 static void
-add_line(struct cpp_include *ci, struct token *tk)
+append_line(struct cpp_include *ci, struct token *tk)
 {
 	tk->tk_str = arena_sprintf(ci->eternal_scope, "%.*s\n",
 	    (int)tk->tk_len, tk->tk_str);
diff --git a/doc.c b/doc.c
index 0d99ccb..c058a42 100644
--- a/doc.c
+++ b/doc.c
@@ -1671,6 +1671,9 @@ doc_diff_covers(const struct doc *dc, struct doc_state *UNUSED(st), void *arg)
 
 	switch (dc->dc_type) {
 	case DOC_VERBATIM:
+		/* Ignore synthetic tokens. */
+		if (dc->dc_tk->tk_lno == 0)
+			break;
 		/* Ignore already emitted verbatim tokens. */
 		if ((dc->dc_tk->tk_flags & TOKEN_FLAG_DIFF) == 0 &&
 		    dc->dc_tk->tk_lno >= dd->dd_threshold &&
-- 
2.43.0


From 1432babe89ca51bb8a242f4ec247f506906730e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:23 +0000
Subject: [PATCH 69/74] fix: do not mistake types of unnamed arguments for
 names while simplifying

---
 simple-decl-proto.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/simple-decl-proto.c b/simple-decl-proto.c
index f9112b2..6b4c0b3 100644
--- a/simple-decl-proto.c
+++ b/simple-decl-proto.c
@@ -77,6 +77,18 @@ simple_decl_proto_arg(struct simple_decl_proto *sp)
 		err(1, NULL);
 }
 
+static int
+is_type_after_qualifiers(const struct token *tk)
+{
+	const struct token *pv = token_prev(tk);
+
+	if ((pv->tk_flags & TOKEN_FLAG_QUALIFIER) == 0)
+		return 0;
+	while (pv->tk_flags & TOKEN_FLAG_QUALIFIER)
+		pv = token_prev(pv);
+	return pv->tk_type == TOKEN_LPAREN || pv->tk_type == TOKEN_COMMA;
+}
+
 void
 simple_decl_proto_arg_ident(struct simple_decl_proto *sp, struct token *tk)
 {
@@ -86,6 +98,9 @@ simple_decl_proto_arg_ident(struct simple_decl_proto *sp, struct token *tk)
 	arg = VECTOR_LAST(sp->arguments);
 	assert(arg != NULL);
 	pv = token_prev(tk);
+	/* Only preceded by qualifiers, must be the type and not the name. */
+	if (is_type_after_qualifiers(tk))
+		return;
 	if (pv->tk_type == TOKEN_STAR ||
 	    (pv->tk_flags & (TOKEN_FLAG_TYPE | TOKEN_FLAG_QUALIFIER)))
 		arg->tk = tk;
-- 
2.43.0


From ccf03a5658b5e771791976749171a21cce2693f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:46 +0000
Subject: [PATCH 70/74] fix: accept unnamed arguments with qualifiers after the
 type

---
 parser-type.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser-type.c b/parser-type.c
index f16a7cb..8f46fd7 100644
--- a/parser-type.c
+++ b/parser-type.c
@@ -68,6 +68,9 @@ parser_type_peek(struct parser *pr, struct parser_type *type,
 
 		if (lexer_if_flags(lx,
 		    TOKEN_FLAG_QUALIFIER | TOKEN_FLAG_STORAGE, &end)) {
+			/* An identifier before the qualifier must be a type. */
+			if ((flags & PARSER_TYPE_ARG) && ntokens > nkeywords)
+				peek = 1;
 			nkeywords++;
 		} else if (lexer_if_flags(lx, TOKEN_FLAG_TYPE, &end)) {
 			if (end->tk_type == TOKEN_ENUM ||
-- 
2.43.0


From 60d39c55511c3ad335dbbf68fdb3c9679e28fb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:05 +0000
Subject: [PATCH 71/74] fix: keep braces around labels while simplifying

---
 parser-stmt.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/parser-stmt.c b/parser-stmt.c
index bb261e9..db312f5 100644
--- a/parser-stmt.c
+++ b/parser-stmt.c
@@ -145,17 +145,20 @@ is_case_on_same_line(struct parser *pr, const struct token *pv)
 
 /*
  * Returns non-zero if the next token after the given left brace denotes a
- * declaration.
+ * declaration or label.
  */
 static int
-is_decl_after(struct parser *pr, struct token *lbrace)
+is_decl_or_label_after(struct parser *pr, struct token *lbrace)
 {
 	struct lexer_state s;
 	struct lexer *lx = pr->pr_lx;
 	int peek;
 
 	lexer_peek_enter(lx, &s);
-	peek = lexer_seek_after(lx, lbrace) && parser_decl_peek(pr);
+	peek = lexer_seek_after(lx, lbrace) &&
+	    (parser_decl_peek(pr) ||
+	     (lexer_if(lx, TOKEN_IDENT, NULL) &&
+	      lexer_if(lx, TOKEN_COLON, NULL)));
 	lexer_peek_leave(lx, &s);
 	return peek;
 }
@@ -197,7 +200,7 @@ parser_stmt_block(struct parser *pr, struct parser_stmt_block_arg *arg)
 	    is_simple_enabled(pr->pr_si, SIMPLE_STMT)) {
 		dc = simple_stmt_braces_enter(pr->pr_simple.stmt, dc, lbrace,
 		    rbrace, pr->pr_nindent * style(pr->pr_st, IndentWidth),
-		    is_decl_after(pr, lbrace));
+		    is_decl_or_label_after(pr, lbrace));
 	}
 
 	parser_token_trim_before(pr, rbrace);
-- 
2.43.0


From 9d3617e94ac89224a9c086fd98ba99fd034117bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:06 +0000
Subject: [PATCH 72/74] fix: do not mistake operands of binary operators for X
 macros

A call in a braces initializer followed by a line starting with a binary
operator was not accepted.
---
 parser-cpp.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/parser-cpp.c b/parser-cpp.c
index 0978d6c..f437ff4 100644
--- a/parser-cpp.c
+++ b/parser-cpp.c
@@ -19,6 +19,25 @@
 
 static int	iscdefs(const char *, size_t);
 
+/*
+ * Returns non-zero if the given token can only continue the expression it's
+ * part of.
+ */
+static int
+is_binary_operator(const struct token *tk)
+{
+	switch (tk->tk_type) {
+	case TOKEN_AMP:
+	case TOKEN_MINUS:
+	case TOKEN_PLUS:
+	case TOKEN_STAR:
+		/* Could be an unary operator. */
+		return 0;
+	default:
+		return (tk->tk_flags & TOKEN_FLAG_BINARY) > 0;
+	}
+}
+
 static int
 is_list_entry(const struct token *tk)
 {
@@ -146,6 +165,7 @@ parser_cpp_peek_x(struct parser *pr, struct token **tk)
 		nx = token_next(rparen);
 		if ((pv == NULL || token_cmp(pv, ident) < 0) &&
 		    (nx == NULL || (token_cmp(nx, rparen) > 0 &&
+		     !is_binary_operator(nx) &&
 		     (ident->tk_cno == 1 || nx->tk_cno <= ident->tk_cno))))
 			peek = 1;
 	}
-- 
2.43.0


From d959144d68a96ef53e72d5025f28a8f8b593e495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:35 +0000
Subject: [PATCH 73/74] fix: do not join a division with the comment after it

---
 doc.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/doc.c b/doc.c
index c058a42..cdb7679 100644
--- a/doc.c
+++ b/doc.c
@@ -294,6 +294,7 @@ static unsigned int	doc_print_indent1(const struct doc *,
 static void		doc_trim_spaces(const struct doc *, struct doc_state *);
 static void		doc_trim_lines(const struct doc *, struct doc_state *);
 static int		doc_is_line_empty(const struct doc_state *);
+static int		doc_is_line_slash(const struct doc_state *);
 static int		doc_is_mute(const struct doc_state *);
 static int		doc_parens_align(const struct doc_state *);
 static int		doc_has_list(const struct doc *);
@@ -830,6 +831,9 @@ doc_exec_verbatim(const struct doc *dc, struct doc_state *st)
 	/* Verbatim blocks must always start on a new line. */
 	if (isblock && st->st_col > 0)
 		st->st_newline = 1;
+	/* Must not end up with a slash being part of the comment. */
+	if (dc->dc_str[0] == '/' && doc_is_line_slash(st))
+		st->st_newline = 1;
 
 	doc_print(dc, st, dc->dc_str, dc->dc_len, 0);
 
@@ -1771,6 +1775,18 @@ doc_is_line_empty(const struct doc_state *st)
 	return 1;
 }
 
+/*
+ * Returns non-zero if the current line ends with a division operator.
+ */
+static int
+doc_is_line_slash(const struct doc_state *st)
+{
+	const char *buf = buffer_get_ptr(st->st_bf);
+	size_t buflen = buffer_get_len(st->st_bf);
+
+	return buflen > 1 && buf[buflen - 1] == '/' && buf[buflen - 2] != '*';
+}
+
 static int
 doc_is_mute(const struct doc_state *st)
 {
-- 
2.43.0


From fd30c2f717998bff059244837dfbf642281ab8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:40 +0000
Subject: [PATCH 74/74] fix: do not remove semicolons preceded by directives
 after declarations

The directives could otherwise be repeated while handling branches.
---
 parser-decl.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser-decl.c b/parser-decl.c
index f8afb9d..46be6a7 100644
--- a/parser-decl.c
+++ b/parser-decl.c
@@ -254,8 +254,12 @@ out:
 		if (flags & PARSER_DECL_TRIM_SEMI) {
 			struct token *nx;
 
-			/* Must preserve the token at which muting ends. */
+			/*
+			 * Must preserve directives and the token at which
+			 * muting ends.
+			 */
 			while (lexer_peek_if(lx, TOKEN_SEMI, &nx) &&
+			    !token_has_cpp(nx) &&
 			    nx != pr->pr_token.unmute &&
 			    lexer_if(lx, TOKEN_SEMI, &nx))
 				lexer_remove(lx, nx);
-- 
2.43.0

