From da0717718dd0dea818dec4d8aa810bbfc19af35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:07 +0000
Subject: [PATCH 01/36] fix: initialise the parser state that parse() reads
 before writing it

error_delay, lexem and ast were used uninitialised: the first call of
get_lexem() freed an indeterminate pointer and a failed first parse could
return a garbage AST.
---
 Narsese/Parser/narsese.h | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/Narsese/Parser/narsese.h b/Narsese/Parser/narsese.h
index eb06ecf..d35b43e 100644
--- a/Narsese/Parser/narsese.h
+++ b/Narsese/Parser/narsese.h
@@ -1308,11 +1308,11 @@ class _parser
 		// --- Runtime ---
 
 		// Stack
-		_tok*	stack;
-		_tok*	tos;
+		_tok*	stack = NULL;
+		_tok*	tos = NULL;
 
 		// Stack size
-		size_t			stacksize;
+		size_t			stacksize = 0;
 
 		// Values
 		_vtype	ret;
@@ -1324,23 +1324,23 @@ class _parser
 		int				lhs;
 
 		// Lookahead
-		int				sym;
-		int				old_sym;
-		size_t			len;
+		int				sym = -1;
+		int				old_sym = -1;
+		size_t			len = 0;
 
 		// Input buffering
-		UNICC_SCHAR*	lexem;
-		UNICC_CHAR*		buf;
-		UNICC_CHAR*		bufend;
-		UNICC_CHAR*		bufsize;
+		UNICC_SCHAR*	lexem = NULL;
+		UNICC_CHAR*		buf = NULL;
+		UNICC_CHAR*		bufend = NULL;
+		UNICC_CHAR*		bufsize = NULL;
 
 		// Lexical analysis
 		UNICC_CHAR		next;
 		bool			is_eof;
 
 		// Error handling
-		int				error_delay;
-		int				error_count;
+		int				error_delay = 0;
+		int				error_count = 0;
 
 		size_t			line;
 		size_t			column;
@@ -1389,7 +1389,7 @@ class _parser
 		UNICC_CHAR			eof;
 
 		// Abstract syntax tree
-		_ast*		ast;
+		_ast*		ast = NULL;
 
 		//fn.parse.cpp
 		int parse( void );
-- 
2.43.0


From 7560f1cf67e773ec0996cff74bb379d7815eea95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:59 +0000
Subject: [PATCH 02/36] fix: grow the parser stack before it overflows

The stack was grown only when tos already pointed past its end, and not at
all when a reduction pushed its left-hand side, so nesting of about 128
symbols wrote behind the allocation.
---
 Narsese/Parser/narsese.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Narsese/Parser/narsese.cpp b/Narsese/Parser/narsese.cpp
index 24d113f..a5a3e2f 100644
--- a/Narsese/Parser/narsese.cpp
+++ b/Narsese/Parser/narsese.cpp
@@ -178,7 +178,7 @@ bool _parser::alloc_stack( void )
 
 		this->stacksize = UNICC_MALLOCSTEP;
 	}
-	else if( ( this->tos - this->stack ) == this->stacksize )
+	else if( ( this->tos - this->stack ) + 1 >= this->stacksize )
 	{
 		size_t			size = ( this->tos - this->stack );
 		_tok*	ptr;
@@ -798,6 +798,9 @@ int _parser::parse( void )
 
 			this->get_go();
 
+			if( !this->alloc_stack() )
+				return (int)NULL;
+
 			this->tos++;
 			this->tos->node = NULL;
 
-- 
2.43.0


From 3e6f81dd6b16d53f749618f5f8535369a8751300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:59 +0000
Subject: [PATCH 03/36] fix: keep the lookahead buffer terminated and do not
 read behind it

clear_input() copied one element more than the buffer holds, and the
end-of-input character overwrote the terminator that get_lexem() relies on.
---
 Narsese/Parser/narsese.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Narsese/Parser/narsese.cpp b/Narsese/Parser/narsese.cpp
index a5a3e2f..977d0fe 100644
--- a/Narsese/Parser/narsese.cpp
+++ b/Narsese/Parser/narsese.cpp
@@ -262,6 +262,7 @@ UNICC_CHAR _parser::get_input( size_t offset )
 			fprintf( stderr, "%s: get input: can't get more input, "
 						"end-of-file reached\n", UNICC_PARSER );
 #endif
+			*( this->bufend ) = 0;
 			this->is_eof = true;
 			return this->eof;
 		}
@@ -323,7 +324,7 @@ void _parser::clear_input( void )
 #endif
 
 			memmove( this->buf, this->buf + this->len,
-						( ( this->bufend - ( this->buf + this->len ) ) + 1 + 1 )
+						( ( this->bufend - ( this->buf + this->len ) ) + 1 )
 							* sizeof( UNICC_CHAR ) );
 			this->bufend = this->buf + ( this->bufend - ( this->buf + this->len ) );
 
-- 
2.43.0


From 28827bc7a8e7439a76ae6d188ae5deca8d1b1d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:59 +0000
Subject: [PATCH 04/36] fix: report lexemes that cannot be converted as empty

wcstombs() fails for non-ASCII input in the C locale; its (size_t)-1 was used
as a length, giving a zero-sized, unterminated string to the error message.
---
 Narsese/Parser/narsese.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Narsese/Parser/narsese.cpp b/Narsese/Parser/narsese.cpp
index 977d0fe..c3b45e7 100644
--- a/Narsese/Parser/narsese.cpp
+++ b/Narsese/Parser/narsese.cpp
@@ -23,6 +23,8 @@ UNICC_SCHAR* _parser::get_lexem( void )
 	size_t		size;
 
 	size = wcstombs( (char*)NULL, this->buf, 0 );
+	if( size == (size_t)-1 )
+		size = 0;
 
 	free( this->lexem );
 
@@ -33,7 +35,8 @@ UNICC_SCHAR* _parser::get_lexem( void )
 		return NULL;
 	}
 
-	wcstombs( this->lexem, this->buf, size + 1 );
+	if( wcstombs( this->lexem, this->buf, size + 1 ) > size )
+		*this->lexem = 0;
 #endif
 
 #if UNICC_DEBUG	> 2
-- 
2.43.0


From 33cc0a2bb0d570428c52bae35f27ff1c032b2c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:59 +0000
Subject: [PATCH 05/36] fix: start every parse from a clean input buffer and
 syntax tree

After a syntax error the unread look-ahead was prepended to the next input,
and after an exception in a semantic action the old tree was evaluated again.
---
 Narsese/Parser/Parser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Narsese/Parser/Parser.cpp b/Narsese/Parser/Parser.cpp
index fcb41a8..30bf782 100644
--- a/Narsese/Parser/Parser.cpp
+++ b/Narsese/Parser/Parser.cpp
@@ -27,6 +27,11 @@ Parser::Parser()
 
 void *Parser::parse_string(std::string &input)
 {
+    /* forget what a previous, failed call may have left behind */
+    this->ast = this->ast_free(this->ast);
+    this->len = 0;
+    this->clear_input();
+    char_fetcher.clear();
     char_fetcher.switch_string_mode();
     char_fetcher.fill(input);
 
-- 
2.43.0


From 69d7aafa05dddb4209d1c3b44125b3380c04bad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:59 +0000
Subject: [PATCH 06/36] fix: look operations up under their own name

operation() tested for the atom of the same name: with an atom "go" known,
"^go" dereferenced a null pointer, and otherwise every occurrence of the
same operation became a different term.
---
 Narsese/Parser/NarseseParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Narsese/Parser/NarseseParser.cpp b/Narsese/Parser/NarseseParser.cpp
index a90e80c..22e8b84 100644
--- a/Narsese/Parser/NarseseParser.cpp
+++ b/Narsese/Parser/NarseseParser.cpp
@@ -458,7 +458,7 @@ void *NARSESEPARSER::operation(Parser *self, const Args &args)
 	auto &str = *((std::string *)args[0]);
 	auto str_op = "^" + str;
 	pTerm *term;
-	if (INTERPRETER::interpreter.check_by_name(str) > 0)
+	if (INTERPRETER::interpreter.check_by_name(str_op) > 0)
 	{
 		auto key = INTERPRETER::interpreter.get_by_name(str_op);
 		term = (pTerm *)INTERPRETER::interpreter.get_object(key);
-- 
2.43.0


From 2b30543e42d46e7cb1f49b1159d11f2f5e188854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:33 +0000
Subject: [PATCH 07/36] fix: reject integers that do not fit instead of
 overflowing the conversion

"+99999999999" and ":!99999999999:" converted an out-of-range double to int,
which is undefined behaviour.
---
 Narsese/Parser/NarseseParser.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/Narsese/Parser/NarseseParser.cpp b/Narsese/Parser/NarseseParser.cpp
index 22e8b84..5f94129 100644
--- a/Narsese/Parser/NarseseParser.cpp
+++ b/Narsese/Parser/NarseseParser.cpp
@@ -15,7 +15,9 @@
 #include "Narsese/include/Narsese.h"
 #include <functional> // std::reference_wrapper
 #include <iostream>
+#include <limits>
 #include <memory>
+#include <stdexcept>
 // #include <list>
 #include <tuple>
 #include <vector>
@@ -64,6 +66,16 @@ inline _T get(void *obj)
 	return ret;
 }
 
+/* consume an integer argument; the text may exceed the range of an int */
+inline signed int get_int(void *obj)
+{
+	double value = *(double *)obj;
+	delete (double *)obj;
+	if (!(value >= std::numeric_limits<signed int>::min() && value <= std::numeric_limits<signed int>::max()))
+		throw std::out_of_range("Integer is out of range.");
+	return (signed int)value;
+}
+
 /*definitions*/
 void *NARSESEPARSER::task(Parser *self, const Args &args)
 {
@@ -476,10 +488,8 @@ void *NARSESEPARSER::operation(Parser *self, const Args &args)
 void *NARSESEPARSER::interval(Parser *self, const Args &args)
 {
 	void *ret;
-	double dt = *(double *)args[0];
-	auto interval = (new pTerm(new Interval((signed int)dt)));
+	auto interval = (new pTerm(new Interval(get_int(args[0]))));
 	ret = interval;
-	delete (double *)args[0];
 	return ret;
 }
 void *NARSESEPARSER::set(Parser *self, const Args &args)
@@ -765,9 +775,7 @@ void *NARSESEPARSER::query_var(Parser *self, const Args &args)
 void *NARSESEPARSER::tense_time(Parser *self, const Args &args)
 {
 	void *ret;
-	double t = *(double *)args[0];
-	ret = new std::tuple(0, (new (signed int)(t)));
-	delete (double *)args[0];
+	ret = new std::tuple(0, (new (signed int)(get_int(args[0]))));
 	return ret;
 }
 void *NARSESEPARSER::tense_future(Parser *self, const Args &args)
-- 
2.43.0


From d3086b7332e3ad8187a3da9eed6add2d32689704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:33 +0000
Subject: [PATCH 08/36] fix: print negative intervals in the notation of the
 grammar

"+-5" was printed as "-5", which is not an interval and does not parse.
---
 Interpreter/src/Interpreter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Interpreter/src/Interpreter.cpp b/Interpreter/src/Interpreter.cpp
index 3c44eba..4b7ff3b 100644
--- a/Interpreter/src/Interpreter.cpp
+++ b/Interpreter/src/Interpreter.cpp
@@ -56,9 +56,9 @@ string Interpreter::interpret(Term &term, bool colored)
         {
             auto &interval = (INTERVAL::Interval &)term;
             if (colored)
-                return fmt::format(color_number, fmt::format("{:+d}", interval.interval));
+                return fmt::format(color_number, fmt::format("+{:d}", interval.interval));
             else
-                return fmt::format("{:+d}", interval.interval);
+                return fmt::format("+{:d}", interval.interval);
         }
     }
 
-- 
2.43.0


From 573e37085454239e501f54a3587ed0d65c6cb643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:33 +0000
Subject: [PATCH 09/36] fix: keep confidence and durability inside (0, 1) in
 single precision

The grammar excludes 0 and 1, but e.g. 0.99999999 was rounded to 1.0f, for
which the amount of evidence k*c/(1-c) is infinite.
---
 Narsese/Parser/NarseseParser.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Narsese/Parser/NarseseParser.cpp b/Narsese/Parser/NarseseParser.cpp
index 5f94129..a3b7cf5 100644
--- a/Narsese/Parser/NarseseParser.cpp
+++ b/Narsese/Parser/NarseseParser.cpp
@@ -13,6 +13,8 @@
 // #include "Narsese/include/Truth.h"
 // #include "Narsese/include/Variable.h"
 #include "Narsese/include/Narsese.h"
+#include <algorithm>
+#include <cmath>
 #include <functional> // std::reference_wrapper
 #include <iostream>
 #include <limits>
@@ -824,6 +826,9 @@ void *NARSESEPARSER::truth(Parser *self, const Args &args)
 		k = CONFIG::k;
 
 	// ret = (void *)value;
+	/* 0 < c < 1 has to survive the conversion to single precision */
+	if (c > 0)
+		c = std::clamp<double>(c, std::numeric_limits<float>::min(), std::nextafter(1.0f, 0.0f));
 	auto &truth = *(new Truth(f, c, k));
 	ret = new std::tuple(1, &truth);
 	return ret;
@@ -856,6 +861,9 @@ void *NARSESEPARSER::budget(Parser *self, const Args &args)
 		q = -1.0;
 
 	// ret = (void *)value;
+	/* 0 < d < 1 has to survive the conversion to single precision */
+	if (d > 0)
+		d = std::clamp<double>(d, std::numeric_limits<float>::min(), std::nextafter(1.0f, 0.0f));
 	auto &budget = *(new Budget(p, d, q));
 	ret = &budget;
 	return ret;
-- 
2.43.0


From edccb9ce055a155d87f5003a75702b87647ca6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:33 +0000
Subject: [PATCH 10/36] fix: do not lose components when a commutative compound
 is normalised

A single nested compound was replaced by its own components ({(&&,A,B)}
became {A,B}), (&,{A,B},{B,C}) became (&,B) instead of the documented {B},
and (&,{A},{B}) became an empty compound that crashed when it was printed.
---
 Narsese/src/Compound.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/Narsese/src/Compound.cpp b/Narsese/src/Compound.cpp
index a99f6ff..594e871 100755
--- a/Narsese/src/Compound.cpp
+++ b/Narsese/src/Compound.cpp
@@ -185,10 +185,11 @@ std::tuple<Connector, pTerms> prepocess_terms(Compound &self, Connector connecto
 
             /* Now, `connector` is not `None`. */
             auto terms_merged = _merge_compounds(connector_parent, connector, compounds);
-            if (terms_merged == nullptr)
+            if (terms_merged == nullptr || terms_merged->size() == 0)
             {
+                /* nothing to merge (or nothing would be left): each compound stays a component as a whole. */
                 for (auto &compound : compounds)
-                    terms_norm.push_back({connector, compound->terms});
+                    terms_norm.push_back({Connector::None, Terms::create(std::vector{compound}, true)});
                 continue;
             }
 
@@ -251,8 +252,8 @@ std::tuple<Connector, pTerms> prepocess_terms(Compound &self, Connector connecto
                 if `connector_parent` is `|` and `connector` is `{`, the return `connector`;
                 if `connector_parent` is `&` and `connector` is `&`, it makes no difference returning either `connector` or `connector_parent`;
             */
-            if ((_connector == Connector::ExtensionalSet && connector_parent == Connector::IntensionalIntersection) ||
-                (_connector == Connector::IntensionalSet && connector_parent == Connector::ExtensionalIntersection))
+            if ((_connector == Connector::ExtensionalSet || _connector == Connector::IntensionalSet) &&
+                (connector_parent == Connector::IntensionalIntersection || connector_parent == Connector::ExtensionalIntersection))
             {
                 return {_connector, Terms::create(*_terms, true)};
             }
-- 
2.43.0


From 4340dd81f9efd66e48252520b1a837fe5696dc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:16 +0000
Subject: [PATCH 11/36] fix: treat only (*, ...) --> ^op as an operation when
 printing

Every statement with an operation as predicate was printed as an operation:
"<A --> ^go>" and "<a ==> (^go, x)>" read the subject as a compound it was
not, and "(^go)" was printed as "(^go, )", which does not parse.
---
 Interpreter/src/Interpreter.cpp | 9 ++++++---
 Narsese/include/Statement.inl   | 4 ++--
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/Interpreter/src/Interpreter.cpp b/Interpreter/src/Interpreter.cpp
index 4b7ff3b..4d5803e 100644
--- a/Interpreter/src/Interpreter.cpp
+++ b/Interpreter/src/Interpreter.cpp
@@ -142,13 +142,17 @@ string Interpreter::interpret(Term &term, bool colored)
             auto &cmpd = (Compound &)*stat.subject;
             if (colored)
             {
-                ss << fmt::format(color_parenthesis, "(") << str_op << fmt::format(color_seperator, ", ");
+                ss << fmt::format(color_parenthesis, "(") << str_op;
+                if (cmpd.terms->size() > 0)
+                    ss << fmt::format(color_seperator, ", ");
                 append_strs(ss, cmpd.components());
                 ss << fmt::format(color_parenthesis, ")");
             }
             else
             {
-                ss << "(" << str_op << ", ";
+                ss << "(" << str_op;
+                if (cmpd.terms->size() > 0)
+                    ss << ", ";
                 append_strs(ss, cmpd.components());
                 ss << ")";
             }
@@ -161,7 +165,6 @@ string Interpreter::interpret(Term &term, bool colored)
         auto &cmpd = (Compound &)term;
         auto &components = cmpd.components();
         auto str_conn = CONNECTOR::Repr[(int)cmpd.connector];
-        auto last_it = components.end() - 1;
 
         if (colored)
         {
diff --git a/Narsese/include/Statement.inl b/Narsese/include/Statement.inl
index f559a38..66d99ee 100644
--- a/Narsese/include/Statement.inl
+++ b/Narsese/include/Statement.inl
@@ -23,9 +23,9 @@ namespace STATEMENT
         // components = unordered_set<Term*>{&subject, &predicate};
 
         this->is_higher_order = COPULA::is_higher_order(copula);
-        this->is_operation = _predicate->is_operation;
+        this->is_operation = false;
 
-        if (this->predicate->is_atom() && this->predicate->is_operation && this->subject->is_compound() && this->subject->connector == CONNECTOR::PRODUCT)
+        if (this->copula == Copula::Inheritance && this->predicate->is_atom() && this->predicate->is_operation && this->subject->is_compound() && this->subject->connector == CONNECTOR::PRODUCT)
             this->is_operation = true;
 
         // is_operation = predicate.is_operation;
-- 
2.43.0


From 2635209f383bfa703243d451d014e7de0ddbcbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:16 +0000
Subject: [PATCH 12/36] fix: repair coloured printing

Names, copulas and connectors were used as format strings (a quoted name with
a brace threw), a sentence used six placeholders for four arguments and always
threw, and a task ignored the flag for its sentence.
---
 Interpreter/src/Interpreter.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/Interpreter/src/Interpreter.cpp b/Interpreter/src/Interpreter.cpp
index 4d5803e..04d77d7 100644
--- a/Interpreter/src/Interpreter.cpp
+++ b/Interpreter/src/Interpreter.cpp
@@ -45,7 +45,7 @@ string Interpreter::interpret(Term &term, bool colored)
             auto str = prefix + std::to_string(idx_var);
             if (colored)
             {
-                return fmt::format(color_term, str);
+                return fmt::format(color_term, "{}", str);
             }
             else
             {
@@ -56,7 +56,7 @@ string Interpreter::interpret(Term &term, bool colored)
         {
             auto &interval = (INTERVAL::Interval &)term;
             if (colored)
-                return fmt::format(color_number, fmt::format("+{:d}", interval.interval));
+                return fmt::format(color_number, "+{:d}", interval.interval);
             else
                 return fmt::format("+{:d}", interval.interval);
         }
@@ -68,9 +68,9 @@ string Interpreter::interpret(Term &term, bool colored)
         if (term.type == TermType::ATOM && colored)
         {
             if (!term.is_operation)
-                return fmt::format(color_term, this->get(key));
+                return fmt::format(color_term, "{}", this->get(key));
             else
-                return fmt::format(color_operation, this->get(key));
+                return fmt::format(color_operation, "{}", this->get(key));
         }
         return this->get(key);
     }
@@ -126,10 +126,10 @@ string Interpreter::interpret(Term &term, bool colored)
                 // str_subject =
                 auto str1 = fmt::format(color_angle, "<");
                 // auto str2 = fmt::format(color_term, str_subject);
-                auto str2 = fmt::format(fmt::format(color_term, "{{}}"), str_subject);
-                auto str3 = fmt::format(color_copula, str_copula);
+                auto str2 = fmt::format(color_term, "{}", str_subject);
+                auto str3 = fmt::format(color_copula, "{}", str_copula);
                 // auto str4 = fmt::format(color_term, str_predicate);
-                auto str4 = fmt::format(fmt::format(color_term, "{{}}"), str_predicate);
+                auto str4 = fmt::format(color_term, "{}", str_predicate);
                 auto str5 = fmt::format(color_angle, ">");
                 str_ret = fmt::format("{}{} {} {}{}", str1, str2, str3, str4, str5);
             }
@@ -183,7 +183,7 @@ string Interpreter::interpret(Term &term, bool colored)
             }
             else
             {
-                ss << fmt::format(color_parenthesis, "(") << fmt::format(color_connector, str_conn) << fmt::format(color_seperator, ", ");
+                ss << fmt::format(color_parenthesis, "(") << fmt::format(color_connector, "{}", str_conn) << fmt::format(color_seperator, ", ");
                 append_strs(ss, components);
                 ss << fmt::format(color_parenthesis, ")");
             }
@@ -233,7 +233,7 @@ string Interpreter::interpret(Task &task, bool colored)
     auto color_durability = fmt::bg(fmt::rgb(10, std::min(255, int(255 * d / 2 + 10)), 10));
     auto color_quality = fmt::bg(fmt::rgb(10, 10, std::min(255, int(255 * q / 1.5 + 10))));
 
-    auto str_sentence = interpret(*task.sentence);
+    auto str_sentence = interpret(*task.sentence, colored);
 
     if (colored)
     {
@@ -268,10 +268,10 @@ string Interpreter::interpret(Sentence &sentence, bool colored)
             auto &truth = *((SENTENCE::Goal &)sentence).desire;
             str_truth = fmt::format("{0}{1}{3}{2}{0}", fmt::format(color_percent, "%"), fmt::format(color_number, "{:.3f}", truth.f), fmt::format(color_number, "{:.3f}", truth.c), fmt::format(color_percent, ";"));
         }
-        str_punct = fmt::format(color_punct, SENTENCE::PUNCTUATION::Repr[(int)(sentence.punct)]);
+        str_punct = fmt::format(color_punct, "{}", SENTENCE::PUNCTUATION::Repr[(int)(sentence.punct)]);
         str_stamp = sentence.stamp->is_eternal ? "" : fmt::format(color_tense, "{} ", TENSE::Repr[sentence.stamp->tense()]);
 
-        return fmt::format("{}{} {}{} {}{}", str_term, str_punct, str_stamp, str_truth);
+        return fmt::format("{}{} {}{}", str_term, str_punct, str_stamp, str_truth);
     }
     else
     {
-- 
2.43.0


From 498da23f64e248a653ce075f3620b3fbd07c3268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:16 +0000
Subject: [PATCH 13/36] fix: use the full hash as key of the name dictionary

Keys were truncated to int, so that terms whose 64-bit hashes agree in the
lower half shared one name.
---
 Interpreter/include/Interpreter.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/Interpreter/include/Interpreter.hpp b/Interpreter/include/Interpreter.hpp
index d179b37..4f23977 100644
--- a/Interpreter/include/Interpreter.hpp
+++ b/Interpreter/include/Interpreter.hpp
@@ -38,7 +38,7 @@ namespace INTERPRETER
         map<string, size_t> dictionary_inv;
         map<size_t, int> count;
 
-        inline void put(int key, string name, void *object)
+        inline void put(size_t key, string name, void *object)
         {
             dictionary[key] = name;
             objects[key] = (pTerm *)object;
@@ -46,12 +46,12 @@ namespace INTERPRETER
             count[key] = (check_count(key) == 0) ? 1 : (count[key] + 1);
         }
 
-        inline string &get(int key) { return dictionary[key]; }
-        inline pTerm *get_object(int key) { return objects[key]; }
-        inline int get_by_name(string &name) { return dictionary_inv[name]; }
-        inline bool check(int key) { return dictionary.count(key) == 1; }
+        inline string &get(size_t key) { return dictionary[key]; }
+        inline pTerm *get_object(size_t key) { return objects[key]; }
+        inline size_t get_by_name(string &name) { return dictionary_inv[name]; }
+        inline bool check(size_t key) { return dictionary.count(key) == 1; }
         inline bool check_by_name(string &name) { return dictionary_inv.count(name) == 1; }
-        inline int check_count(int key)
+        inline int check_count(size_t key)
         {
             if (count.count(key) == 0)
             {
@@ -68,7 +68,7 @@ namespace INTERPRETER
             }
         }
 
-        inline bool remove(int key)
+        inline bool remove(size_t key)
         {
             if (check(key))
             {
@@ -118,7 +118,7 @@ namespace INTERPRETER
             }
         }
 
-        inline bool erase(int key)
+        inline bool erase(size_t key)
         {
             if (check_count(key) > 0)
             {
-- 
2.43.0


From 99441891580dfbaac1f86609d4141c698a4d05db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:16 +0000
Subject: [PATCH 14/36] fix: connect every kind of variable with its own kind

The iterator over the component's variables never advanced, so the dependent
and query variables of a term were built from the independent ones.
---
 Narsese/include/Term.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Narsese/include/Term.inl b/Narsese/include/Term.inl
index 0660714..244fb92 100644
--- a/Narsese/include/Term.inl
+++ b/Narsese/include/Term.inl
@@ -21,7 +21,7 @@ namespace TERM
             auto it = indexvars2.begin();
             for (const auto indexvar1 : variables)
             {
-                auto indexvar2 = *it;
+                auto indexvar2 = *it++;
                 IndexVar::connect(indexvar1, indexvar2, false);
             }
         }
@@ -35,7 +35,7 @@ namespace TERM
             auto it = indexvars2.begin();
             for (const auto indexvar1 : variables)
             {
-                auto indexvar2 = *it;
+                auto indexvar2 = *it++;
                 IndexVar::connect(indexvar1, indexvar2, false);
             }
         }
-- 
2.43.0


From 8e99bf258cd06ef540952cc2f54379eb7c8add87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:16 +0000
Subject: [PATCH 15/36] fix: compare dependent and query variables by their own
 index

operator== read the (empty) list of independent variables.
---
 Narsese/include/Term.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Narsese/include/Term.inl b/Narsese/include/Term.inl
index 244fb92..7dd0af1 100644
--- a/Narsese/include/Term.inl
+++ b/Narsese/include/Term.inl
@@ -69,9 +69,9 @@ namespace TERM
             if (this->is_var || other.is_var)
             {
                 if (this->is_qvar && other.is_qvar)
-                    return *(this->_vars_independent->indices[0]) == *(other._vars_query->indices[0]);
+                    return *(this->_vars_query->indices[0]) == *(other._vars_query->indices[0]);
                 else if (this->is_dvar && other.is_dvar)
-                    return *(this->_vars_independent->indices[0]) == *(other._vars_dependent->indices[0]);
+                    return *(this->_vars_dependent->indices[0]) == *(other._vars_dependent->indices[0]);
                 else if (this->is_ivar && other.is_ivar)
                     return *(this->_vars_independent->indices[0]) == *(other._vars_independent->indices[0]);
             }
-- 
2.43.0


From 475facc2317561055be4dff26d5474c3f725d32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:16 +0000
Subject: [PATCH 16/36] fix: order terms with variables lexicographically

operator< held in both directions for e.g. <$1 --> $2> and <$2 --> $1>, so it
was no strict weak order and sets of such terms kept or lost elements at
random.
---
 Narsese/include/Term.inl | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Narsese/include/Term.inl b/Narsese/include/Term.inl
index 7dd0af1..30d84b5 100644
--- a/Narsese/include/Term.inl
+++ b/Narsese/include/Term.inl
@@ -151,8 +151,12 @@ namespace TERM
 
             if (*(term1.subject) < *(term2.subject))
                 return true;
+            if (*(term2.subject) < *(term1.subject))
+                return false;
             if (*(term1.predicate) < *(term2.predicate))
                 return true;
+            if (*(term2.predicate) < *(term1.predicate))
+                return false;
             if (term1.copula < term2.copula)
                 return true;
             return false;
@@ -171,6 +175,8 @@ namespace TERM
                 auto &term2 = **it2;
                 if ((term1 < term2))
                     return true;
+                if ((term2 < term1))
+                    return false;
             }
             return false;
             // throw std::logic_error("TODO");
-- 
2.43.0


From dcb95a70d5f5cc2fe3c7b48d9f68269fb42cc4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:42 +0000
Subject: [PATCH 17/36] fix: merge evidential bases without losing or inventing
 evidence

extend() cleared its own evidence before reading it (the copy shared the set),
interleave() started from a base with a fresh input id and could exceed the
maximum length by one, the cached hash survived a merge, and overlap was
decided on ids truncated to int.
---
 Narsese/include/Evidence.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/Narsese/include/Evidence.h b/Narsese/include/Evidence.h
index b96dd73..710fda7 100755
--- a/Narsese/include/Evidence.h
+++ b/Narsese/include/Evidence.h
@@ -32,8 +32,8 @@ namespace EVIDENCE
 
         void extend(const Base &other)
         {
-            auto base1 = Base(*this);
-            auto &base2 = other;
+            auto base1 = Base(*this->_set);
+            auto base2 = Base(*other._set);
             this->_set->clear();
             Base::interleave(*this, base1, base2);
         }
@@ -44,6 +44,7 @@ namespace EVIDENCE
             size_t i = 0;
             auto it1 = base1._set->begin();
             auto it2 = base2._set->begin();
+            base._is_hashed = false;
             while (i < base_length)
             {
                 if (it2 != base2._set->end())
@@ -52,7 +53,7 @@ namespace EVIDENCE
                     it2++;
                     i++;
                 }
-                if (it1 != base1._set->end())
+                if (i < base_length && it1 != base1._set->end())
                 {
                     base._set->insert(*it1);
                     it1++;
@@ -63,7 +64,7 @@ namespace EVIDENCE
 
         static auto interleave(const Base &base1, const Base &base2)
         {
-            auto base = pBase(new Base());
+            auto base = pBase(new Base(set<size_t>()));
             Base::interleave(*base, base1, base2);
             return base;
         }
@@ -77,7 +78,7 @@ namespace EVIDENCE
 
         bool is_overlaped(Base &base)
         {
-            std::set<int> intersection;
+            std::set<size_t> intersection;
             auto &set1 = *(this->_set);
             auto &set2 = *(base._set);
             std::set_intersection(set1.begin(), set1.end(),
-- 
2.43.0


From f9f76444914d118b9fe6de1a3adf5ed631556c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:42 +0000
Subject: [PATCH 18/36] fix: give stamps without evidence a new evidential base

The constructor assigned its parameter instead of the member, so every tensed
sentence had a null evidential base.
---
 Narsese/include/Sentence.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Narsese/include/Sentence.h b/Narsese/include/Sentence.h
index c8f6933..7e362cf 100755
--- a/Narsese/include/Sentence.h
+++ b/Narsese/include/Sentence.h
@@ -61,8 +61,8 @@ namespace SENTENCE
 
         Stamp(signed int t_occurrence, signed int t_creation, signed int t_put, pBase evidential_base, bool is_eternal = true) : t_occurrence(t_occurrence), t_creation(t_creation), t_put(t_put), evidential_base(evidential_base), is_eternal(is_eternal)
         {
-            if (evidential_base == nullptr)
-                evidential_base = pBase(new Base());
+            if (this->evidential_base == nullptr)
+                this->evidential_base = pBase(new Base());
         }
 
         static pStamp create(bool is_eternal = false)
-- 
2.43.0


From 1734384ca84e6a06e6d4246d39af049ba0f24aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:42 +0000
Subject: [PATCH 19/36] fix: share the clock and the input counter between
 translation units

Both were static in a header, so each translation unit had its own copy and
different inputs could get the same evidence id.
---
 Global.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Global.h b/Global.h
index ec26c8a..26f84c2 100755
--- a/Global.h
+++ b/Global.h
@@ -3,8 +3,8 @@
 
 namespace GLOBAL
 {
-    static unsigned long time = 0;
-    static unsigned long _input_id = 0;
+    inline unsigned long time = 0;
+    inline unsigned long _input_id = 0;
 
     inline unsigned long get_input_id()
     {
-- 
2.43.0


From d494996403ff3d80bdbde2343d4897e80f47c4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:42 +0000
Subject: [PATCH 20/36] fix: let the tenses of an input refer to the current
 time

:/:, :|: and :\: gave occurrence times relative to 0 instead of the clock, so a
present event read as past as soon as time had moved on.
---
 Narsese/Parser/NarseseParser.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Narsese/Parser/NarseseParser.cpp b/Narsese/Parser/NarseseParser.cpp
index a3b7cf5..347feda 100644
--- a/Narsese/Parser/NarseseParser.cpp
+++ b/Narsese/Parser/NarseseParser.cpp
@@ -783,20 +783,20 @@ void *NARSESEPARSER::tense_time(Parser *self, const Args &args)
 void *NARSESEPARSER::tense_future(Parser *self, const Args &args)
 {
 	void *ret;
-	ret = new std::tuple(0, (new (signed int)(CONFIG::temporal_duration)));
+	ret = new std::tuple(0, (new (signed int)(GLOBAL::time + CONFIG::temporal_duration)));
 	return ret;
 }
 void *NARSESEPARSER::tense_present(Parser *self, const Args &args)
 {
 	void *ret;
-	ret = new std::tuple(0, (new (signed int)(0)));
+	ret = new std::tuple(0, (new (signed int)(GLOBAL::time)));
 
 	return ret;
 }
 void *NARSESEPARSER::tense_past(Parser *self, const Args &args)
 {
 	void *ret;
-	ret = new std::tuple(0, (new (signed int)(-CONFIG::temporal_duration)));
+	ret = new std::tuple(0, (new (signed int)(GLOBAL::time - CONFIG::temporal_duration)));
 	return ret;
 }
 void *NARSESEPARSER::truth(Parser *self, const Args &args)
-- 
2.43.0


From aa1176f1bd8ab584892bd823bc32aa7a13732fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:42 +0000
Subject: [PATCH 21/36] fix: return the copula from COPULA::symmetrize and
 COPULA::reverse

Both returned bool, i.e. 0 or 1 for every copula.
---
 Narsese/include/Copula.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Narsese/include/Copula.h b/Narsese/include/Copula.h
index f6bf5d3..e32dfcc 100755
--- a/Narsese/include/Copula.h
+++ b/Narsese/include/Copula.h
@@ -48,8 +48,8 @@ namespace COPULA
     inline bool is_commutative(Copula copula) { return _commutative[copula]; }
     inline bool is_higher_order(Copula copula) { return _higher_order[copula]; }
     inline bool is_temporal(Copula copula) { return _temporal[copula]; }
-    inline bool symmetrize(Copula copula) { return _symmetrize[copula]; }
-    inline bool reverse(Copula copula) { return _reverse[copula]; }
+    inline Copula symmetrize(Copula copula) { return _symmetrize[copula]; }
+    inline Copula reverse(Copula copula) { return _reverse[copula]; }
 
     void pybind_copula(py::module &m);
 
-- 
2.43.0


From 474da7bc0db6f0692a82920d994351dc8bad2afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:42 +0000
Subject: [PATCH 22/36] fix: bind Connector.ExtensionalDifference to its own
 value

---
 Narsese/src/Connector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Narsese/src/Connector.cpp b/Narsese/src/Connector.cpp
index 6ce8f9f..52a2d97 100755
--- a/Narsese/src/Connector.cpp
+++ b/Narsese/src/Connector.cpp
@@ -15,7 +15,7 @@ namespace CONNECTOR
             .value("SequentialEvents", CONNECTOR::Connector::SequentialEvents, "&/")
             .value("IntensionalIntersection", CONNECTOR::Connector::IntensionalIntersection, "|")
             .value("ExtensionalIntersection", CONNECTOR::Connector::ExtensionalIntersection, "&")
-            .value("ExtensionalDifference", CONNECTOR::Connector::ParallelEvents, "-")
+            .value("ExtensionalDifference", CONNECTOR::Connector::ExtensionalDifference, "-")
             .value("IntensionalDifference", CONNECTOR::Connector::IntensionalDifference, "~")
             .value("Negation", CONNECTOR::Connector::Negation, "--")
             .value("IntensionalSet", CONNECTOR::Connector::IntensionalSet, "[")
-- 
2.43.0


From bb29ffd5eed55e151f11f7f50367a080cc39279f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:42 +0000
Subject: [PATCH 23/36] fix: raise the RuntimeError that parse() sets for a
 syntax error

Returning None with an error set made Python raise SystemError instead.
---
 Narsese/Parser/NarseseParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Narsese/Parser/NarseseParser.cpp b/Narsese/Parser/NarseseParser.cpp
index 347feda..c89468f 100644
--- a/Narsese/Parser/NarseseParser.cpp
+++ b/Narsese/Parser/NarseseParser.cpp
@@ -1021,12 +1021,12 @@ void NARSESEPARSER::pybind_parse(py::module &m)
 			{
 				// std::cout << e.what() << std::endl;
 				PyErr_SetString(PyExc_RuntimeError, e.what());
-				return py::none();
+				throw py::error_already_set();
 			}
 			catch (...)
 			{
 				PyErr_SetString(PyExc_RuntimeError, "Unknown error occurred.");
-				return pybind11::none();
+				throw py::error_already_set();
 			}
 		},
 		py::arg("line"));
-- 
2.43.0


From 116cf2545c6b9ecfc73db2be42fa4eb8c9bdee9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:42 +0000
Subject: [PATCH 24/36] fix: keep the hash of an interval in step with its
 value

operator+= left the old hash, and do_hashing() hashed the address.
---
 Narsese/include/Interval.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Narsese/include/Interval.h b/Narsese/include/Interval.h
index 3dd0cc7..85b9c3e 100755
--- a/Narsese/include/Interval.h
+++ b/Narsese/include/Interval.h
@@ -24,7 +24,14 @@ namespace INTERVAL
         Interval(signed int interval) : interval(interval)
         {
             this->Term::is_interval = true;
+            this->do_hashing();
+        }
+
+        virtual size_t do_hashing()
+        {
             this->hash_value = Hash{}(std::initializer_list<signed int>{TermType::INTERVAL, this->interval});
+            this->is_hashed = true;
+            return this->hash_value;
         }
 
         operator signed int() const
@@ -40,6 +47,7 @@ namespace INTERVAL
         Interval &operator+=(const Interval &other)
         {
             interval += other.interval;
+            this->do_hashing();
             return *this;
         }
     };
-- 
2.43.0


From b406db0ee8d2fcadd18569f898f782ff7383ff13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:42 +0000
Subject: [PATCH 25/36] fix: copy TERM::Iterator by value

The implicit assignment shared the heap cell of the other iterator, so both
freed it; the destructor also deleted it as the wrong type.
---
 Narsese/include/Term.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/Narsese/include/Term.h b/Narsese/include/Term.h
index 336ee18..e84be85 100755
--- a/Narsese/include/Term.h
+++ b/Narsese/include/Term.h
@@ -211,9 +211,8 @@ namespace TERM
         using iterator_category = std::input_iterator_tag;
 
     public:
-        Iterator(const Iterator &iterator)
+        Iterator(const Iterator &iterator) : _is_commutative(iterator._is_commutative)
         {
-            *this = iterator;
             if (this->_is_commutative)
                 it_ = new auto(*(std::set<pTerm>::iterator *)(iterator.it_));
             else
@@ -222,14 +221,22 @@ namespace TERM
         Iterator(std::vector<pTerm>::const_iterator it) : it_((void *)new auto(it)), _is_commutative(false) {}
         Iterator(std::set<pTerm>::iterator it) : it_((void *)new auto(it)), _is_commutative(true) {}
 
+        Iterator &operator=(const Iterator &iterator)
+        {
+            Iterator copy(iterator);
+            std::swap(this->_is_commutative, copy._is_commutative);
+            std::swap(this->it_, copy.it_);
+            return *this;
+        }
+
         ~Iterator()
         {
             if (it_ == nullptr)
                 return;
             if (this->_is_commutative)
-                delete ((std::vector<pTerm>::iterator *)it_);
-            else
                 delete ((std::set<pTerm>::iterator *)it_);
+            else
+                delete ((std::vector<pTerm>::iterator *)it_);
             it_ = nullptr;
         }
 
-- 
2.43.0


From 0b8bc22da0b82596337d72db6ad5ee30d3f55d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:42 +0000
Subject: [PATCH 26/36] fix: compute the projection discount in floating point

The quotient was an integer division, so projecting over any distance below
d left the confidence undiminished.
---
 NAL/Functions/include/TemporalFunctions.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/NAL/Functions/include/TemporalFunctions.h b/NAL/Functions/include/TemporalFunctions.h
index 86b2529..370102e 100644
--- a/NAL/Functions/include/TemporalFunctions.h
+++ b/NAL/Functions/include/TemporalFunctions.h
@@ -2,6 +2,9 @@
 #define _TEMPORAL_FUNCTIONS_H
 
 #include "Narsese/include/Truth.h"
+#include <cmath>
+#include <cstddef>
+#include <cstdint>
 
 namespace TEMPORAL_FUNCTIONS
 {
@@ -10,8 +13,8 @@ namespace TEMPORAL_FUNCTIONS
 
     inline auto project(pTruth truth, int64_t t_source, int64_t t_current, int64_t t_target, size_t decay_duration = 1000)
     {
-        auto d = (abs(t_source - t_current) + abs(t_target - t_current)) + decay_duration;
-        auto k_c = d > 0 ? abs(t_source - t_target) / d : 0;
+        auto d = std::abs((double)t_source - (double)t_current) + std::abs((double)t_target - (double)t_current) + (double)decay_duration;
+        auto k_c = d > 0 ? std::abs((double)t_source - (double)t_target) / d : 0.0;
         auto c_new = (1 - k_c) * truth->c;
         return Truth::create(truth->f, c_new, truth->k);
     }
-- 
2.43.0


From aaccfa47555a14c1a6121b7f5034814859ce36dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:14 +0000
Subject: [PATCH 27/36] fix: keep the variable index consistent when it is
 connected and rebuilt

connect(..., true) inserted the son's indices into themselves, and neither
build() nor add()/remove() at a position dropped the cached normal form, so
indices_normalized() kept describing the previous structure.
---
 utils/IndexVar.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/utils/IndexVar.cpp b/utils/IndexVar.cpp
index c9f7293..67d17b3 100755
--- a/utils/IndexVar.cpp
+++ b/utils/IndexVar.cpp
@@ -81,8 +81,6 @@ void IndexVar::connect(pIndexVar father, pIndexVar son, bool generate_pos)
         position.insert(position.end(), pos.begin(), pos.end());
         positions.push_back(position);
     }
-    indices.insert(indices.end(), son->indices.begin(), son->indices.end());
-    positions.insert(positions.end(), son->positions.begin(), son->positions.end());
     father->indices.insert(father->indices.end(), indices.begin(), indices.end());
     father->positions.insert(father->positions.end(), positions.begin(), positions.end());
 }
@@ -97,6 +95,8 @@ void IndexVar::build(bool rebuild)
         indices.clear();
         positions.clear();
     }
+    this->_indices_normalized = nullptr;
+    this->_is_hashed = false;
 
     for (int bias_pos = 0; bias_pos < successors.size(); bias_pos++)
     {
@@ -135,6 +135,8 @@ pInt IndexVar::add(int idx, const std::vector<int> &position)
     {
         idxvar = idxvar->successors[pos].get();
     }
+    idxvar->_is_hashed = false;
+    idxvar->_indices_normalized = nullptr;
     idxvar->positions.push_back(std::vector<int>());
     idxvar->indices.push_back(iv);
 
@@ -151,6 +153,8 @@ void IndexVar::remove(const std::vector<int> &position)
     {
         index = index->successors[pos].get();
     }
+    index->_is_hashed = false;
+    index->_indices_normalized = nullptr;
     index->indices.clear();
     index->positions.clear();
 }
\ No newline at end of file
-- 
2.43.0


From 54c4288936cd34839ef6b55fa6da38fa2e91ffa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:26 +0000
Subject: [PATCH 28/36] fix: find the semantic actions by name, not by the
 address of a literal

---
 Narsese/Parser/Parser.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Narsese/Parser/Parser.h b/Narsese/Parser/Parser.h
index 5ba51b6..b651ab2 100644
--- a/Narsese/Parser/Parser.h
+++ b/Narsese/Parser/Parser.h
@@ -24,8 +24,8 @@ namespace PARSER
     class Parser : public _parser
     {
     public:
-        /* function mappings from name to pointer */
-        std::unordered_map<const char *, long> _map;
+        /* function mappings from name to pointer (equal names need not be the same string literal) */
+        std::unordered_map<std::string, long> _map;
 
         /* variable mappings from name to index */
         std::unordered_map<std::string, long> names_ivar;
-- 
2.43.0


From d30bb9dad26b6c4518054f4ec3dcd6df63bf8290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:27 +0000
Subject: [PATCH 29/36] fix: destroy terms through a virtual destructor

---
 Narsese/include/Term.h | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/Narsese/include/Term.h b/Narsese/include/Term.h
index e84be85..91ef42c 100755
--- a/Narsese/include/Term.h
+++ b/Narsese/include/Term.h
@@ -124,10 +124,7 @@ namespace TERM
         // string word;
         Term() : hash_value(Hash{}(std::initializer_list<size_t>{(size_t)TermType::ATOM, (size_t)this})), is_hashed(true){};
         Term(const TermType _type) : type(_type) {}
-        // ~Term()
-        // {
-        //     std::cout << (size_t)this << " Term freed" << std::endl;
-        // }
+        virtual ~Term() = default;
         size_t __hash__()
         {
             return this->is_hashed ? this->hash_value : this->do_hashing();
-- 
2.43.0


From 81e3eadc12bc41e108a14ca79ccdf93435f37d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:27 +0000
Subject: [PATCH 30/36] fix: destroy sentences through a virtual destructor

---
 Narsese/include/Sentence.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Narsese/include/Sentence.h b/Narsese/include/Sentence.h
index 7e362cf..bf240df 100755
--- a/Narsese/include/Sentence.h
+++ b/Narsese/include/Sentence.h
@@ -130,6 +130,8 @@ namespace SENTENCE
                 stamp = pStamp(new Stamp(true));
         }
 
+        virtual ~Sentence() = default;
+
         inline bool is_judgement() { return punct == PUNCTUATION::Judgement; }
         inline bool is_question() { return punct == PUNCTUATION::Question; }
         inline bool is_goal() { return punct == PUNCTUATION::Goal; }
-- 
2.43.0


From ca4da775f5910cbc66d3e37cf71271295b543c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:39 +0000
Subject: [PATCH 31/36] fix: print sentences that were not built as Judgement
 or Goal objects

---
 Interpreter/src/Interpreter.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Interpreter/src/Interpreter.cpp b/Interpreter/src/Interpreter.cpp
index 04d77d7..43186c6 100644
--- a/Interpreter/src/Interpreter.cpp
+++ b/Interpreter/src/Interpreter.cpp
@@ -260,12 +260,12 @@ string Interpreter::interpret(Sentence &sentence, bool colored)
     {
         if (sentence.is_judgement())
         {
-            const auto &truth = *((SENTENCE::Judgement &)sentence).truth;
+            const auto &truth = *sentence.truth;
             str_truth = fmt::format("{0}{1}{3}{2}{0}", fmt::format(color_percent, "%"), fmt::format(color_number, "{:.3f}", truth.f), fmt::format(color_number, "{:.3f}", truth.c), fmt::format(color_percent, ";"));
         }
         else if (sentence.is_goal())
         {
-            auto &truth = *((SENTENCE::Goal &)sentence).desire;
+            auto &truth = *sentence.truth;
             str_truth = fmt::format("{0}{1}{3}{2}{0}", fmt::format(color_percent, "%"), fmt::format(color_number, "{:.3f}", truth.f), fmt::format(color_number, "{:.3f}", truth.c), fmt::format(color_percent, ";"));
         }
         str_punct = fmt::format(color_punct, "{}", SENTENCE::PUNCTUATION::Repr[(int)(sentence.punct)]);
@@ -277,12 +277,12 @@ string Interpreter::interpret(Sentence &sentence, bool colored)
     {
         if (sentence.is_judgement())
         {
-            auto &truth = *((SENTENCE::Judgement &)sentence).truth;
+            auto &truth = *sentence.truth;
             str_truth = fmt::format("%{:.3f};{:.3f}%", truth.f, truth.c);
         }
         else if (sentence.is_goal())
         {
-            auto &truth = *((SENTENCE::Goal &)sentence).desire;
+            auto &truth = *sentence.truth;
             str_truth = fmt::format("%{:.3f};{:.3f}%", truth.f, truth.c);
         }
         str_punct = SENTENCE::PUNCTUATION::Repr[(int)(sentence.punct)];
-- 
2.43.0


From 71de8cbd0ec90028d72aadce7aea1e5d9d079a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:43 +0000
Subject: [PATCH 32/36] fix: a variable, an atom and an interval are never
 equal, whatever their hashes

---
 Narsese/include/Term.inl | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Narsese/include/Term.inl b/Narsese/include/Term.inl
index 30d84b5..f7e8abe 100644
--- a/Narsese/include/Term.inl
+++ b/Narsese/include/Term.inl
@@ -66,6 +66,8 @@ namespace TERM
         // }
         if (this->is_atom())
         {
+            if (this->is_var != other.is_var || this->is_interval != other.is_interval)
+                return false;
             if (this->is_var || other.is_var)
             {
                 if (this->is_qvar && other.is_qvar)
-- 
2.43.0


From 62ba9a0852848eae7cef5b1cbd54c0454732396f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:22 +0000
Subject: [PATCH 33/36] fix: refuse an ordered first operand of a set operation
 like any other

---
 Narsese/include/Term.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Narsese/include/Term.h b/Narsese/include/Term.h
index 91ef42c..efffbdf 100755
--- a/Narsese/include/Term.h
+++ b/Narsese/include/Term.h
@@ -380,6 +380,8 @@ namespace TERM
                 throw std::runtime_error("Empty input.");
 
             auto it = terms_all.begin();
+            if (!(*it)->_is_commutative)
+                throw std::runtime_error("Each `Terms` should be commutative.");
             std::set<pTerm, compare> intersection((*it)->terms_unordered);
             for (++it; it != terms_all.end(); ++it)
             {
@@ -402,6 +404,8 @@ namespace TERM
                 throw std::runtime_error("Empty input.");
 
             auto it = terms_all.begin();
+            if (!(*it)->_is_commutative)
+                throw std::runtime_error("Each `Terms` should be commutative.");
             std::set<pTerm, compare> union_((*it)->terms_unordered);
             for (++it; it != terms_all.end(); ++it)
             {
@@ -424,6 +428,8 @@ namespace TERM
                 throw std::runtime_error("Empty input.");
 
             auto it = terms_all.begin();
+            if (!(*it)->_is_commutative)
+                throw std::runtime_error("Each `Terms` should be commutative.");
             std::set<pTerm, compare> difference((*it)->terms_unordered);
             for (++it; it != terms_all.end(); ++it)
             {
-- 
2.43.0


From 5d1b82552ba718a11b645fb9c7c1b0c5b6750d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:00 +0000
Subject: [PATCH 34/36] fix: never print a confidence or durability of 0 or 1,
 which the grammar does not have

---
 Interpreter/src/Interpreter.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/Interpreter/src/Interpreter.cpp b/Interpreter/src/Interpreter.cpp
index 43186c6..d8f9fef 100644
--- a/Interpreter/src/Interpreter.cpp
+++ b/Interpreter/src/Interpreter.cpp
@@ -1,4 +1,5 @@
 #include "../include/Interpreter.hpp"
+#include <algorithm>
 #include <cmath>
 #include <fmt/color.h>
 #include <fmt/core.h>
@@ -22,6 +23,12 @@ auto color_number = fmt::fg(fmt::rgb(181, 206, 168));
 auto color_tense = fmt::fg(fmt::rgb(77, 196, 254));
 auto color_operation = fmt::fg(fmt::rgb(220, 220, 170));
 
+/* The grammar of Narsese has no durability and no confidence of 0 or 1: rounding must not produce one. */
+static float printable(float value, float smallest)
+{
+    return std::min(std::max(value, smallest), 1 - smallest);
+}
+
 string Interpreter::interpret(Term &term, bool colored)
 {
     auto key = term.hash_value;
@@ -237,11 +244,11 @@ string Interpreter::interpret(Task &task, bool colored)
 
     if (colored)
     {
-        return fmt::format("{}{}{} {}", fmt::format(color_priority, " {:.2f} ", p), fmt::format(color_durability, " {:.2f} ", d), fmt::format(color_quality, " {:.2f} ", q), str_sentence);
+        return fmt::format("{}{}{} {}", fmt::format(color_priority, " {:.2f} ", p), fmt::format(color_durability, " {:.2f} ", printable(d, 0.01f)), fmt::format(color_quality, " {:.2f} ", q), str_sentence);
     }
     else
     {
-        return fmt::format("${:.2f};{:.2f};{:.2f}$ {}", p, d, q, str_sentence);
+        return fmt::format("${:.2f};{:.2f};{:.2f}$ {}", p, printable(d, 0.01f), q, str_sentence);
     }
 }
 
@@ -261,12 +268,12 @@ string Interpreter::interpret(Sentence &sentence, bool colored)
         if (sentence.is_judgement())
         {
             const auto &truth = *sentence.truth;
-            str_truth = fmt::format("{0}{1}{3}{2}{0}", fmt::format(color_percent, "%"), fmt::format(color_number, "{:.3f}", truth.f), fmt::format(color_number, "{:.3f}", truth.c), fmt::format(color_percent, ";"));
+            str_truth = fmt::format("{0}{1}{3}{2}{0}", fmt::format(color_percent, "%"), fmt::format(color_number, "{:.3f}", truth.f), fmt::format(color_number, "{:.3f}", printable(truth.c, 0.001f)), fmt::format(color_percent, ";"));
         }
         else if (sentence.is_goal())
         {
             auto &truth = *sentence.truth;
-            str_truth = fmt::format("{0}{1}{3}{2}{0}", fmt::format(color_percent, "%"), fmt::format(color_number, "{:.3f}", truth.f), fmt::format(color_number, "{:.3f}", truth.c), fmt::format(color_percent, ";"));
+            str_truth = fmt::format("{0}{1}{3}{2}{0}", fmt::format(color_percent, "%"), fmt::format(color_number, "{:.3f}", truth.f), fmt::format(color_number, "{:.3f}", printable(truth.c, 0.001f)), fmt::format(color_percent, ";"));
         }
         str_punct = fmt::format(color_punct, "{}", SENTENCE::PUNCTUATION::Repr[(int)(sentence.punct)]);
         str_stamp = sentence.stamp->is_eternal ? "" : fmt::format(color_tense, "{} ", TENSE::Repr[sentence.stamp->tense()]);
@@ -278,12 +285,12 @@ string Interpreter::interpret(Sentence &sentence, bool colored)
         if (sentence.is_judgement())
         {
             auto &truth = *sentence.truth;
-            str_truth = fmt::format("%{:.3f};{:.3f}%", truth.f, truth.c);
+            str_truth = fmt::format("%{:.3f};{:.3f}%", truth.f, printable(truth.c, 0.001f));
         }
         else if (sentence.is_goal())
         {
             auto &truth = *sentence.truth;
-            str_truth = fmt::format("%{:.3f};{:.3f}%", truth.f, truth.c);
+            str_truth = fmt::format("%{:.3f};{:.3f}%", truth.f, printable(truth.c, 0.001f));
         }
         str_punct = SENTENCE::PUNCTUATION::Repr[(int)(sentence.punct)];
         str_stamp = sentence.stamp->is_eternal ? "" : fmt::format("{} ", TENSE::Repr[sentence.stamp->tense()]);
-- 
2.43.0


From e6ef792c2684b2c7c680858f16d71ca66b821fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:54 +0000
Subject: [PATCH 35/36] fix: let Python call repr() on terms, sentences and
 tasks

---
 Narsese/src/Compound.cpp  | 2 +-
 Narsese/src/Sentence.cpp  | 2 +-
 Narsese/src/Statement.cpp | 2 +-
 Narsese/src/Task.cpp      | 2 +-
 Narsese/src/Term.cpp      | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/Narsese/src/Compound.cpp b/Narsese/src/Compound.cpp
index 594e871..b31cb8d 100755
--- a/Narsese/src/Compound.cpp
+++ b/Narsese/src/Compound.cpp
@@ -347,5 +347,5 @@ void COMPOUND::pybind_compound(py::module &m)
                 if (interpreter == nullptr)
                     interpreter = (void *)&INTERPRETER::interpreter;
                 return self.__repr__(interpreter);
-            });
+            }, py::arg("interpreter") = (void *)nullptr);
 }
diff --git a/Narsese/src/Sentence.cpp b/Narsese/src/Sentence.cpp
index 49b06d9..26cf6c3 100755
--- a/Narsese/src/Sentence.cpp
+++ b/Narsese/src/Sentence.cpp
@@ -40,6 +40,6 @@ namespace SENTENCE
                 if (interpreter == nullptr)
                     interpreter = (void *)&INTERPRETER::interpreter;
                 return self.__repr__(interpreter);
-            });
+            }, py::arg("interpreter") = (void *)nullptr);
     }
 }
\ No newline at end of file
diff --git a/Narsese/src/Statement.cpp b/Narsese/src/Statement.cpp
index 3f40542..ec5d3a3 100755
--- a/Narsese/src/Statement.cpp
+++ b/Narsese/src/Statement.cpp
@@ -25,6 +25,6 @@ namespace STATEMENT
                 if (interpreter == nullptr)
                     interpreter = (void *)&INTERPRETER::interpreter;
                 return self.__repr__(interpreter);
-            });
+            }, py::arg("interpreter") = (void *)nullptr);
     }
 }
diff --git a/Narsese/src/Task.cpp b/Narsese/src/Task.cpp
index 767b102..eb37d56 100755
--- a/Narsese/src/Task.cpp
+++ b/Narsese/src/Task.cpp
@@ -25,7 +25,7 @@ namespace TASK
                 if (interpreter == nullptr)
                     interpreter = (void *)&INTERPRETER::interpreter;
                 return self.__repr__(interpreter);
-            });
+            }, py::arg("interpreter") = (void *)nullptr);
     }
 
 }
diff --git a/Narsese/src/Term.cpp b/Narsese/src/Term.cpp
index c19e2fc..e15a318 100755
--- a/Narsese/src/Term.cpp
+++ b/Narsese/src/Term.cpp
@@ -132,7 +132,7 @@ namespace TERM
                 if (interpreter == nullptr)
                     interpreter = (void *)&INTERPRETER::interpreter;
                 return self.__repr__(interpreter);
-            });
+            }, py::arg("interpreter") = (void *)nullptr);
     }
 
     void pybind_terms(py::module &m)
-- 
2.43.0


From df1925d2b6ad3fb8b0de92a3313e99f3d3177902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:38 +0000
Subject: [PATCH 36/36] fix: free the syntax tree of an input that is not
 accepted

---
 Narsese/Parser/narsese.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Narsese/Parser/narsese.cpp b/Narsese/Parser/narsese.cpp
index c3b45e7..d5df609 100644
--- a/Narsese/Parser/narsese.cpp
+++ b/Narsese/Parser/narsese.cpp
@@ -952,6 +952,11 @@ int _parser::parse( void )
 	// Save return value
 	ret = ( ( this->tos - 0 )->value );
 
+	// Drop the AST nodes of an input that was not accepted
+	for( ; this->tos >= this->stack; this->tos-- )
+		if( this->tos->node != this->ast )
+			this->ast_free( this->tos->node );
+
 	// Clean up parser control block
 	UNICC_CLEARIN( this );
 
-- 
2.43.0

