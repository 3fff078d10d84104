From 1265fcd406fd5d73d53de1452a0fbc75fafddb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 001/103] fix: accept the argument of EXP and TAN

---
 source/interpreter/tokens.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index 5b6a3f5..20497dc 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -121,10 +121,10 @@ const char* cmd_format[] = {
 
 const char* func_format[] = {
 	"N","S","N,NN","N","0,N","NN","0","0,N",//BUTTON
-	"NN","N","N","N","","N","NN,NNN","N,NN","0",//ICONCHK
+	"NN","N","N","N","N","N","NN,NNN","N,NN","0",//ICONCHK
 	"0","SS,SSN","SN","S","N","SNN","0","NN","N",//RAD
 	"SN","N","N","N","N","NN","N,NN","",//SPHITRC
-	"NN","N","N","SNNS","","S",//VAL
+	"NN","N","N","SNNS","N","S",//VAL
 	"0",
 	"N","N","N","S,SN","N" // PTR
 };
-- 
2.43.0


From ea2c0f59e359bfec2d13aab9846fc6d3efe6aff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:11 +0000
Subject: [PATCH 002/103] fix: tell subtraction from negation after &H/&B
 numbers, functions and [

---
 source/interpreter/tokens.c | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index 20497dc..b83289c 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -1189,6 +1189,24 @@ void tok_eval(struct tokenizer* state){
 	state->token_i = e.result_i;
 }
 
+// true if an operand can end with this token, so that a following minus sign
+// is subtraction instead of negation
+static bool tok_ends_value(const struct token* t){
+	switch (t->type){
+		case number:
+		case base_number:
+		case string:
+		case name:
+		case sysvar:
+		case function: // without parentheses, such as PI
+			return true;
+		case operation:
+			return t->cmd == OP_CLOSE_PAREN || t->cmd == OP_CLOSE_BRACKET;
+		default:
+			return false;
+	}
+}
+
 // take one line (to /r) and calculate priorities of tokens
 void tok_prio(struct tokenizer* state){
 	int nest = 0;
@@ -1220,12 +1238,7 @@ void tok_prio(struct tokenizer* state){
 					state->tokens[i].prio = nest + 4;
 					break;
 				case OP_SUBTRACT:
-					if ((i>0 && state->tokens[i-1].type == number) ||
-							state->tokens[i-1].type == name ||
-							state->tokens[i-1].type == sysvar || 
-							(state->tokens[i-1].type == operation && (
-								state->tokens[i-1].cmd > OP_OPEN_PAREN
-							))){
+					if (i > 0 && tok_ends_value(&state->tokens[i-1])){
 						state->tokens[i].prio = nest + 4;
 					} else {
 						state->tokens[i].cmd = OP_NEGATE;
-- 
2.43.0


From 410d7765f32ac26fb26755ee1bb17fc97b97e4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:32 +0000
Subject: [PATCH 003/103] fix: % and unary minus do not overflow on the
 smallest number

---
 source/interpreter/operators.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/interpreter/operators.c b/source/interpreter/operators.c
index 38d9e0c..782be51 100644
--- a/source/interpreter/operators.c
+++ b/source/interpreter/operators.c
@@ -126,9 +126,10 @@ void op_negate(struct ptc* p){
 	struct value_stack* s = &p->stack;
 	struct stack_entry* a = stack_pop(s);
 	
+	// unsigned because negating INT_MIN is undefined
 	fixp x = VALUE_NUM(a);
 
-	stack_push(s, (struct stack_entry){VAR_NUMBER, {-x}});
+	stack_push(s, (struct stack_entry){VAR_NUMBER, {(fixp)-(u32)x}});
 }
 
 void op_assign(struct ptc* p){
@@ -286,7 +287,8 @@ void op_modulo(struct ptc* p){
 	
 	if (y == 0) ERROR(ERR_DIVIDE_BY_ZERO);
 	
-	stack_push(s, (struct stack_entry){VAR_NUMBER, {x % y}});
+	// 64-bit because INT_MIN % -1 is undefined
+	stack_push(s, (struct stack_entry){VAR_NUMBER, {(dfixp)x % y}});
 }
 
 void op_and(struct ptc* p){
-- 
2.43.0


From 021d6eed4cb275e10ce5ef9c578b8d778cef3b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:58 +0000
Subject: [PATCH 004/103] fix: report results of EXP, TAN, DEG, SQR and POW
 that cannot be represented

---
 source/interpreter/mathptc.c | 36 ++++++++++++++++++++++++------------
 source/interpreter/mathptc.h |  8 ++++----
 2 files changed, 28 insertions(+), 16 deletions(-)

diff --git a/source/interpreter/mathptc.c b/source/interpreter/mathptc.c
index 97dba64..c6451e8 100644
--- a/source/interpreter/mathptc.c
+++ b/source/interpreter/mathptc.c
@@ -6,6 +6,7 @@
 
 #include <stdlib.h>
 #include <math.h>
+#include <limits.h>
 
 void func_rnd(struct ptc* p){
 	struct value_stack* s = &p->stack;
@@ -44,6 +45,17 @@ void func_floor(struct ptc* p){
 	stack_push(&p->stack, (struct stack_entry){VAR_NUMBER, {INT_TO_FP(FP_TO_INT(VALUE_NUM(a)))}});
 }
 
+/// Return a function's result (in 20.12 scale) if it can be represented
+static void return_checked(struct ptc* p, double res){
+	if (isnan(res)){
+		ERROR(ERR_ILLEGAL_FUNCTION_CALL);
+	}
+	if (res < INT_MIN || res > INT_MAX){
+		ERROR(ERR_OVERFLOW);
+	}
+	STACK_RETURN_NUM((fixp)res);
+}
+
 fixp func_log_internal(fixp value){
 	return round(4096*log(value/4096.0));
 }
@@ -82,7 +94,7 @@ void func_pow(struct ptc* p){
 	float f = powf(pow_b/4096.0f, pow_e/4096.0f);
 	iprintf("%f", f);
 
-	if (isinf(f)){
+	if (isinf(f) || isnan(f)){
 		ERROR(ERR_ILLEGAL_FUNCTION_CALL);
 	} else if (f >= 524288.0f || f <= -524288.0f) {
 		ERROR(ERR_OVERFLOW);
@@ -95,7 +107,7 @@ fixp func_rad_internal(fixp deg){
 	return (int64_t)deg * FIXP_PI / INT_TO_FP(180);
 }
 
-fixp func_deg_internal(fixp rad){
+dfixp func_deg_internal(fixp rad){
 	return (int64_t)rad * INT_TO_FP(180) / FIXP_PI;
 }
 
@@ -108,7 +120,7 @@ void func_rad(struct ptc* p){
 void func_deg(struct ptc* p){
 	struct stack_entry* rad = stack_pop(&p->stack);
 	
-	STACK_RETURN_NUM(func_deg_internal(VALUE_NUM(rad)));
+	return_checked(p, func_deg_internal(VALUE_NUM(rad)));
 }
 
 // separate to make testing easier
@@ -123,8 +135,8 @@ fixp func_cos_internal(fixp value){
 	return res;
 }
 
-fixp func_tan_internal(fixp value){
-	fixp res = floor(4096*(tan(value/4096.0)));
+double func_tan_internal(fixp value){
+	double res = floor(4096*(tan(value/4096.0)));
 	return res;
 }
 
@@ -145,7 +157,7 @@ void func_cos(struct ptc* p){
 void func_tan(struct ptc* p){
 	struct stack_entry* rad = stack_pop(&p->stack);
 	
-	STACK_RETURN_NUM(func_tan_internal(VALUE_NUM(rad)));
+	return_checked(p, func_tan_internal(VALUE_NUM(rad)));
 }
 
 void func_atan(struct ptc* p){
@@ -182,26 +194,26 @@ void func_sgn(struct ptc* p){
 	STACK_RETURN_NUM(r);
 }
 
-fixp func_sqr_internal(fixp value){
-	fixp res = floor(4096*(sqrt(value/4096.0)));
+double func_sqr_internal(fixp value){
+	double res = floor(4096*(sqrt(value/4096.0)));
 	return res;
 }
 
-fixp func_exp_internal(fixp value){
-	fixp res = floor(4096*(exp(value/4096.0)));
+double func_exp_internal(fixp value){
+	double res = floor(4096*(exp(value/4096.0)));
 	return res;
 }
 
 void func_sqr(struct ptc* p){
 	struct stack_entry* val = stack_pop(&p->stack);
 	
-	STACK_RETURN_NUM(func_sqr_internal(VALUE_NUM(val)));
+	return_checked(p, func_sqr_internal(VALUE_NUM(val)));
 }
 
 void func_exp(struct ptc* p){
 	struct stack_entry* val = stack_pop(&p->stack);
 	
-	STACK_RETURN_NUM(func_exp_internal(VALUE_NUM(val)));
+	return_checked(p, func_exp_internal(VALUE_NUM(val)));
 }
 
 
diff --git a/source/interpreter/mathptc.h b/source/interpreter/mathptc.h
index 3f1b290..1f607eb 100644
--- a/source/interpreter/mathptc.h
+++ b/source/interpreter/mathptc.h
@@ -29,15 +29,15 @@ void func_deg(struct ptc* p);
 
 fixp func_sin_internal(fixp);
 fixp func_cos_internal(fixp);
-fixp func_tan_internal(fixp);
+double func_tan_internal(fixp);
 fixp func_atan_internal(fixp);
 fixp func_atan2_internal(fixp, fixp);
 
 fixp func_log_internal(fixp);
-fixp func_exp_internal(fixp);
-fixp func_sqr_internal(fixp);
+double func_exp_internal(fixp);
+double func_sqr_internal(fixp);
 fixp func_pow_internal(fixp, fixp);
 
 fixp func_rad_internal(fixp);
-fixp func_deg_internal(fixp);
+dfixp func_deg_internal(fixp);
 
-- 
2.43.0


From 790f96540db3220292e57131e75f2631af1c2773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 005/103] fix: convert numbers with many digits without
 wrapping around

---
 source/interpreter/strs.c   | 23 ++++++++++++-----------
 source/interpreter/tokens.c |  8 +++-----
 2 files changed, 15 insertions(+), 16 deletions(-)

diff --git a/source/interpreter/strs.c b/source/interpreter/strs.c
index 85eb283..bc11ee7 100644
--- a/source/interpreter/strs.c
+++ b/source/interpreter/strs.c
@@ -174,8 +174,8 @@ int64_t str_to_number(const void* str, const int base, const bool allow_decimal)
 	size_t len = str_len(str);
 	
 	unsigned int number = 0;
-	unsigned int fraction = 0;
-	unsigned int maximum = 1;
+	uint64_t fraction = 0;
+	uint64_t maximum = 1;
 	
 	bool is_negative = false;
 	
@@ -190,9 +190,12 @@ int64_t str_to_number(const void* str, const int base, const bool allow_decimal)
 			for (size_t k = i; k < len; ++k){
 				digit = digit_value(str_at_wide(str, k));
 				if (digit >= 0 && digit < base){
-					fraction *= base;
-					maximum *= base;
-					fraction += digit;
+					// digits after the 12th never affect the result
+					if (maximum < 1000000000000){
+						fraction *= base;
+						maximum *= base;
+						fraction += digit;
+					}
 				} else {
 					// Stop reading on invalid character (useful for VAL)
 					// Note: second period is not allowed
@@ -206,17 +209,15 @@ int64_t str_to_number(const void* str, const int base, const bool allow_decimal)
 			// Stop reading on invalid character (useful for VAL)
 			break;
 		}
-		if (number >= 524288){
+		// too large to represent, even in 20 bits without sign
+		if (number >= 1048576){
 			break;
 		}
 	}
 	
-	int64_t combined;
+	int64_t combined = ((int64_t)number * 4096) + (int64_t)(4096 * fraction / maximum);
 	if (is_negative){
-		combined = INT_TO_FP(-number);
-		combined -= INT_TO_FP(1) * fraction / maximum;
-	} else {
-		combined = ((int64_t)number * 4096) + 4096 * fraction / maximum;
+		combined = -combined;
 	}
 	
 //	printf("Number := %f Combined := %d\n", (double)number, combined);
diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index b83289c..8b3d0ee 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -772,11 +772,9 @@ int tok_code(struct tokenizer* state){
 				
 			number_common:
 //				iprintf("full: %lx\n", n);
-				if (((n >> 31) & 0x1) != ((uint64_t)n >> 63)){
-					if (n >= 0x080000000l && n <= 0x0ffffffff && state->tokens[i].type == number){
-						// this is not an error for &H or &B, but is for number
-						return ERR_OVERFLOW;
-					}
+				// &H and &B numbers can use all 32 bits
+				if (n > (state->tokens[i].type == number ? 0x07fffffffl : 0x0ffffffffl)){
+					return ERR_OVERFLOW;
 				}
 				if (n >= 0 && n < INT_TO_FP(100) && n == (n & (fixp)0xfffff000)){
 					data[(*size)++] = BC_SMALL_NUMBER;
-- 
2.43.0


From c95985527f2577271843de5e49472f4abeacef5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:27 +0000
Subject: [PATCH 006/103] fix: do not read past the end of a source without a
 final line break

---
 source/interpreter/tokens.c | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index 8b3d0ee..6f2a7eb 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -219,6 +219,12 @@ void print_token(struct tokenizer* state, struct token t){
 	iprintf("\n");
 }
 
+/// Reads the character at an index of the source. The end of the source ends the
+/// line, even if the line break is missing.
+static char tok_char(const struct tokenizer* state, u32 index){
+	return index < state->source->size ? state->source->data[index] : '\r';
+}
+
 int tokenize(struct program* src, struct bytecode* out){
 	return tokenize_full(src, out, NULL, 0);
 }
@@ -257,7 +263,7 @@ int tokenize_full(struct program* src, struct bytecode* out, void* system, int o
 			state.output->data[state.output->size++] = BC_ERROR;
 			state.output->data[state.output->size++] = error;
 			iprintf("Error at: %d\n", (int)state.output->size);
-			while (state.source->data[state.cursor++] != '\r');
+			while (tok_char(&state, state.cursor++) != '\r');
 			error = ERR_NONE;
 			state.token_i = 0;
 			continue;
@@ -284,7 +290,7 @@ int tokenize_full(struct program* src, struct bytecode* out, void* system, int o
 			int line_view = state.cursor - old_cursor;
 			line_view = line_view > 31 ? 31 : line_view;
 			memcpy(state.system->exec.error_info, &state.source->data[old_cursor], line_view);
-			state.system->exec.error_info[line_view+1] = '\0';
+			state.system->exec.error_info[line_view] = '\0';
 		}
 		iprintf("tokenize error: %s\n", error_messages[error]);
 	}
@@ -1291,7 +1297,7 @@ void tok_with_condition(struct tokenizer* state, bool(*condition)(char)){
 	do {
 		state->tokens[state->token_i].len++;
 		state->cursor++;
-		c = state->source->data[state->cursor];
+		c = tok_char(state, state->cursor);
 	} while (condition(c));
 }
 
@@ -1299,7 +1305,7 @@ void tok_with_condition(struct tokenizer* state, bool(*condition)(char)){
 int tok_none(struct tokenizer* state){
 	// This state represents: Whitespace and default state
 	// This state can transition to:
-	char c = state->source->data[state->cursor];
+	char c = tok_char(state, state->cursor);
 	
 	if (c == '\r'){
 		tok_single(state, newline);
@@ -1340,7 +1346,7 @@ int tok_none(struct tokenizer* state){
 	} else if (c == '<' || c == '=' || c == '>' || c == '!'){
 		tok_single(state, operation);
 		// check for <= == >= !=
-		if (state->source->data[state->cursor] == '='){
+		if (tok_char(state, state->cursor) == '='){
 			state->tokens[state->token_i - 1].len++;
 			state->cursor++;
 		}
@@ -1365,13 +1371,13 @@ int tok_none(struct tokenizer* state){
 }
 
 int tok_label(struct tokenizer* state){
-	if (state->source->data[state->cursor++] != ' '){
+	if (tok_char(state, state->cursor) != ' '){
 			return ERR_SYNTAX;
 		}
-		while (state->source->data[state->cursor] == ' '){
+		while (tok_char(state, state->cursor) == ' '){
 			state->cursor++;
 		}
-		if (!is_name(state->source->data[state->cursor])){
+		if (!is_name(tok_char(state, state->cursor))){
 			return ERR_SYNTAX;
 		}
 		tok_with_condition(state, is_name);
@@ -1418,19 +1424,19 @@ int tok_name(struct tokenizer* state){
 
 void tok_string(struct tokenizer* state){
 //	iprintf("Entered string %d\n", state->cursor);
-	if (state->source->data[state->cursor] == '"'){
+	if (tok_char(state, state->cursor) == '"'){
 		state->cursor++;
 	}
 	
 	state->tokens[state->token_i].type = string;
 	state->tokens[state->token_i].len = 0;
 	state->tokens[state->token_i].ofs = state->cursor;
-	while (state->source->data[state->cursor] != '"' &&
-			state->source->data[state->cursor] != '\r'){
+	while (tok_char(state, state->cursor) != '"' &&
+			tok_char(state, state->cursor) != '\r'){
 		state->tokens[state->token_i].len++;
 		state->cursor++;
 	}
-	if (state->source->data[state->cursor] == '"'){
+	if (tok_char(state, state->cursor) == '"'){
 		state->cursor++;
 	}
 	state->token_i++;
@@ -1445,8 +1451,8 @@ void tok_base_number(struct tokenizer* state){
 	do {
 		state->tokens[state->token_i].len++;
 		state->cursor++;
-	} while (is_number(state->source->data[state->cursor])
-	         || (state->source->data[state->cursor] >= 'A' && state->source->data[state->cursor] <= 'F'));
+	} while (is_number(tok_char(state, state->cursor))
+	         || (tok_char(state, state->cursor) >= 'A' && tok_char(state, state->cursor) <= 'F'));
 	state->token_i++;
 }
 
@@ -1457,7 +1463,7 @@ void tok_number(struct tokenizer* state){
 	do {
 		state->tokens[state->token_i].len++;
 		state->cursor++;
-	} while (is_number(state->source->data[state->cursor]) || state->source->data[state->cursor] == '.');
+	} while (is_number(tok_char(state, state->cursor)) || tok_char(state, state->cursor) == '.');
 	state->token_i++;
 }
 
-- 
2.43.0


From 0bc4bc236ea73bb2052cd7c2599f16c64f9388db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:30 +0000
Subject: [PATCH 007/103] fix: reject @ without a name and & without digits
 instead of swallowing the next characters

---
 source/interpreter/tokens.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index 6f2a7eb..b7785de 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -1336,6 +1336,11 @@ int tok_none(struct tokenizer* state){
 	} else if (c == '"'){
 		tok_string(state);
 	} else if (c == '&') {
+		char base = tok_char(state, state->cursor + 1);
+		int digit = digit_value(to_wide(tok_char(state, state->cursor + 2)));
+		if ((base != 'H' && base != 'B') || digit < 0 || (base == 'B' && digit > 1)){
+			return ERR_SYNTAX; // not a hexadecimal or binary number
+		}
 		tok_base_number(state);
 	} else if (is_number(c) || c == '.') {
 		tok_number(state);
@@ -1353,6 +1358,9 @@ int tok_none(struct tokenizer* state){
 		state->tokens[state->token_i-1].cmd = tok_in_str_index(bc_conv_operations, state->source->data, &state->tokens[state->token_i-1]);
 	} else if (c == '@'){
 		state->cursor++;
+		if (!is_name(tok_char(state, state->cursor))){
+			return ERR_SYNTAX; // label without a name
+		}
 		tok_with_condition(state, is_name);
 		if (state->tokens[state->token_i].len > 16){
 			return ERR_LABEL_TOO_LONG;
-- 
2.43.0


From e352c746085d42a7cb38311f1b0340cc445907d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:44 +0000
Subject: [PATCH 008/103] fix: make room for all tokens of a 100 character line
 and reject longer ones

---
 source/interpreter/tokens.c | 14 +++++++++-----
 source/interpreter/tokens.h |  5 ++++-
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index b7785de..d958996 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -455,7 +455,7 @@ bool check_cmd(const char* stack, int stack_len, const char* valid){
 
 int tok_test(struct tokenizer* state){
 	// This is argument count and argument type validation.
-	char stack[40];
+	char stack[TOKENS_LINE_SIZE];
 	u8 stack_i = 0;
 	int argc = 0;
 	stack[0] = 0; // Fixes undefined reads detected via -fanalyzer
@@ -960,15 +960,15 @@ tok_code_exit:
 /// exclusively within tok_eval.
 struct eval {
 	//value and op could be combined maybe
-	struct token* value_stack[100];
+	struct token* value_stack[TOKENS_LINE_SIZE];
 	u8 value_i;
-	struct token* op_stack[100];
+	struct token* op_stack[TOKENS_LINE_SIZE];
 	u8 op_i;
 	/// Arguments stack
-	u8 argc_stack[64];
+	u8 argc_stack[TOKENS_LINE_SIZE];
 	u8 argc_i;
 	// reordered tokens for conversion
-	struct token result[100];
+	struct token result[TOKENS_LINE_SIZE];
 	u8 result_i; // first unused entry
 };
 
@@ -1307,6 +1307,10 @@ int tok_none(struct tokenizer* state){
 	// This state can transition to:
 	char c = tok_char(state, state->cursor);
 	
+	if (state->token_i > TOKENS_LINE_MAX){
+		return ERR_SYNTAX; // line is too long
+	}
+	
 	if (c == '\r'){
 		tok_single(state, newline);
 		state->is_comment = false;
diff --git a/source/interpreter/tokens.h b/source/interpreter/tokens.h
index 9fc917a..14432a0 100644
--- a/source/interpreter/tokens.h
+++ b/source/interpreter/tokens.h
@@ -26,6 +26,9 @@
 #include "common.h"
 
 #define TOKENS_LINE_MAX 100
+// Space for the tokens of a line: at most one per character, the line break, and
+// the ones added when reordering (BC_BEGIN_LOOP for each FOR, ENDIF)
+#define TOKENS_LINE_SIZE (TOKENS_LINE_MAX * 2)
 
 extern const char* commands;
 extern const char* functions;
@@ -95,7 +98,7 @@ struct tokenizer {
 	// Current tokenizer state
 	enum tokenizer_state state;
 	// Tokens for a line
-	struct token tokens[TOKENS_LINE_MAX]; //max possible per line
+	struct token tokens[TOKENS_LINE_SIZE]; //max possible per line
 	// Current token index
 	uint_fast8_t token_i;
 	// Flag to indicate a comment is being parsed
-- 
2.43.0


From c43e97aa94a1185b0c189329098fa0bce428b433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:58 +0000
Subject: [PATCH 009/103] fix: reject unbalanced parentheses and calls without
 all of their arguments

---
 source/interpreter/tokens.c | 18 ++++++++++++++++--
 source/interpreter/tokens.h |  2 +-
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index d958996..cbfe0c4 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -327,7 +327,8 @@ int tok_convert(struct tokenizer* state){
 	
 	tok_prio(state);
 	
-	tok_eval(state);
+	int eval_res = tok_eval(state);
+	if (eval_res != ERR_NONE) return eval_res;
 	
 	int test_res = tok_test(state);
 	if (test_res != ERR_NONE) return test_res;
@@ -550,6 +551,9 @@ int tok_test(struct tokenizer* state){
 				break;
 				
 			case function:
+				if (argc > stack_i){
+					return ERR_TEST_FUNCTION; // missing arguments
+				}
 				if (argc){
 					stack_i -= argc;
 				}
@@ -568,6 +572,9 @@ int tok_test(struct tokenizer* state){
 				
 			case array_name:
 			case name:
+				if (argc > stack_i || (state->tokens[i].type == array_name && !argc)){
+					return ERR_TEST_ARRAY; // missing index
+				}
 				if (argc){
 					// process argc counts first
 					const char* arr_valid = "N,NN";
@@ -590,6 +597,9 @@ int tok_test(struct tokenizer* state){
 				break;
 				
 			case dim_arr:
+				if (argc > stack_i || !argc){
+					return ERR_TEST_ARRAY; // missing size
+				}
 				if (argc){
 					// process argc counts first
 					const char* dim_valid = "N,NN";
@@ -988,7 +998,7 @@ void tok_eval_clean_stack(struct eval* e, u16 prio){
 // This one is infinitely less bad than than the PTC-EmkII attempt. :)
 // That one was awful. Go look at it if you want to laugh at bad code.
 // I'm still amazed it worked in the end.
-void tok_eval(struct tokenizer* state){
+int tok_eval(struct tokenizer* state){
 	struct eval e = {0};
 	bool is_for = false;
 	bool is_dim = false;
@@ -1031,6 +1041,9 @@ void tok_eval(struct tokenizer* state){
 					}
 				}
 			} else { // assumed ) or ]
+				if (!e.argc_i){
+					return ERR_SYNTAX; // never opened
+				}
 				// handle 0-args PI(), BUTTON() case
 				if (state->tokens[i-1].type == operation && state->tokens[i-1].cmd == OP_OPEN_PAREN){
 					e.argc_stack[e.argc_i] = 0;
@@ -1191,6 +1204,7 @@ void tok_eval(struct tokenizer* state){
 		state->tokens[i] = e.result[i];
 	}
 	state->token_i = e.result_i;
+	return ERR_NONE;
 }
 
 // true if an operand can end with this token, so that a following minus sign
diff --git a/source/interpreter/tokens.h b/source/interpreter/tokens.h
index 14432a0..5b9bb4d 100644
--- a/source/interpreter/tokens.h
+++ b/source/interpreter/tokens.h
@@ -134,7 +134,7 @@ int tok_convert(struct tokenizer* state);
 
 void tok_prio(struct tokenizer* state);
 
-void tok_eval(struct tokenizer* state);
+int tok_eval(struct tokenizer* state);
 
 int tok_code(struct tokenizer* state);
 
-- 
2.43.0


From a4d5c3d1e83cb11721b0595c0b4d64900c04b1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:25 +0000
Subject: [PATCH 010/103] fix: reject names over 16 characters and do not take
 joined command names for a command

---
 source/interpreter/tokens.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index cbfe0c4..73885a8 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -151,6 +151,7 @@ const char* op_format[] = {
 int tok_in_str_index(const char* str, const char* data, struct token* tok){
 	int index;
 	size_t start = 0;
+	if (tok->len > MAX_SPECIAL_NAME_SIZE) return -1; // must not match several names in a row
 	do {
 		index = start / MAX_SPECIAL_NAME_SIZE;
 		for (size_t i = 0; i < tok->len; ++i){
@@ -1442,6 +1443,10 @@ int tok_name(struct tokenizer* state){
 	} else if (0 <= (index = tok_in_str_index(sysvars, state->source->data, &state->tokens[state->token_i]))){
 		state->tokens[state->token_i].type = sysvar;
 		state->tokens[state->token_i].cmd = index; // overrides len
+	} else {
+		u32 len = state->tokens[state->token_i].len;
+		if (tok_char(state, state->cursor - 1) == '$') len--;
+		if (!len || len > VAR_NAME_MAX_LENGTH) err = ERR_SYNTAX;
 	}
 	
 	state->token_i++;
-- 
2.43.0


From 4db519d2bb69300c48c344f7cab269ed0ff0148e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:28 +0000
Subject: [PATCH 011/103] fix: reject assignments to read-only system variables

---
 source/interpreter/tokens.c | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index 73885a8..5406920 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -455,6 +455,16 @@ bool check_cmd(const char* stack, int stack_len, const char* valid){
 	return is_valid;
 }
 
+/// Sysvars that allow assignment (and thus need validation)
+#define SYSVAR_NEEDS_VALIDATE (\
+		(1 << SYS_ICONPAGE) |\
+		(1 << SYS_ICONPMAX) |\
+		(1 << SYS_ICONPUSE) |\
+		(1 << SYS_TABSTEP) |\
+		(1 << SYS_MEM) |\
+		((uint64_t)1 << SYS_MEMSAFE)\
+	)
+
 int tok_test(struct tokenizer* state){
 	// This is argument count and argument type validation.
 	char stack[TOKENS_LINE_SIZE];
@@ -625,6 +635,9 @@ int tok_test(struct tokenizer* state){
 					} else {
 						stack[stack_i++] = 'n';
 					}
+					if (!(SYSVAR_NEEDS_VALIDATE & ((uint64_t)1 << id))){
+						stack[stack_i-1] &= 0x5f; // read-only: a value instead of a variable
+					}
 				}
 				break;
 				
@@ -942,16 +955,6 @@ int tok_code(struct tokenizer* state){
 	
 tok_code_exit:
 	// Validation must be placed at end to happen after assignment
-/// Sysvars that allow assignment (and thus need validation)
-#define SYSVAR_NEEDS_VALIDATE (\
-		(1 << SYS_ICONPAGE) |\
-		(1 << SYS_ICONPMAX) |\
-		(1 << SYS_ICONPUSE) |\
-		(1 << SYS_TABSTEP) |\
-		(1 << SYS_MEM) |\
-		((uint64_t)1 << SYS_MEMSAFE)\
-	)
-
 	if (sys_validate & SYSVAR_NEEDS_VALIDATE){
 		for (int i = 0; i < 64; ++i){
 			if (sys_validate & ((uint64_t)1 << i) & SYSVAR_NEEDS_VALIDATE){
-- 
2.43.0


From b935fe302e1f443fed047987a4b89e99656b261c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:48 +0000
Subject: [PATCH 012/103] fix: compile statements that follow a label with
 TOKOPT_NO_LABELS

---
 source/interpreter/tokens.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index 5406920..e1f0a98 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -321,8 +321,11 @@ int tok_convert(struct tokenizer* state){
 		if (state->opts & TOKOPT_NO_LABELS){
 			// don't compile label into an actual statement
 			// This also breaks the line_length calculation, but that doesn't actually do anything useful right now?
-			state->token_i = 0; // mark tokens as used
-			return ERR_NONE;
+			if (state->token_i <= 2){ // only the label and the line break
+				state->token_i = 0; // mark tokens as used
+				return ERR_NONE;
+			}
+			// the statements after the label still need to be compiled
 		}
 	}
 	
@@ -931,6 +934,8 @@ int tok_code(struct tokenizer* state){
 				break;
 				
 			case label:
+				if (state->opts & TOKOPT_NO_LABELS) break; // only in label table
+				// fallthrough
 			case label_string:
 				data[(*size)++] = state->tokens[i].type == label ? BC_LABEL : BC_LABEL_STRING;
 				data[(*size)++] = state->tokens[i].len;
-- 
2.43.0


From eb484788232fd2185b90b9be38f247a7b98f393d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:51 +0000
Subject: [PATCH 013/103] fix: allocate the full bytecode size and stop line
 lengths at MAX_LINES

---
 source/interpreter/program.c | 2 +-
 source/interpreter/tokens.c  | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/source/interpreter/program.c b/source/interpreter/program.c
index a176408..d49c9bc 100644
--- a/source/interpreter/program.c
+++ b/source/interpreter/program.c
@@ -23,7 +23,7 @@ struct bytecode init_bytecode(void){
 	// labels struct is expected to be zero-initialized. Others, it may not be necessary.
 	struct bytecode bc = {
 		0,
-		calloc_log("init_bytecode", 1, MAX_SOURCE_SIZE),
+		calloc_log("init_bytecode", 2, MAX_SOURCE_SIZE), // at most twice the source
 		calloc_log("init_bytecode", 1, MAX_LINES),
 		init_labels(MAX_LABELS)
 	};
diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index e1f0a98..5183c7e 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -342,7 +342,10 @@ int tok_convert(struct tokenizer* state){
 	if (code_res != ERR_NONE) return code_res;
 	int line_end = state->output->size;
 	int line_length = line_end - line_begin;
-	state->output->line_length[state->lines_processed++] = line_length;
+	// no entries for lines beyond the maximum
+	if (state->lines_processed < MAX_LINES){
+		state->output->line_length[state->lines_processed++] = line_length;
+	}
 
 	return ERR_NONE;
 }
-- 
2.43.0


From 5fbdcfcf1d75cced24d4cb907717ca56285c1e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:04 +0000
Subject: [PATCH 014/103] fix: RETURN inside FOR without GOSUB reports the
 error

---
 source/interpreter/flow.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/interpreter/flow.c b/source/interpreter/flow.c
index 38cae71..bfa61aa 100644
--- a/source/interpreter/flow.c
+++ b/source/interpreter/flow.c
@@ -269,7 +269,7 @@ void cmd_return(struct ptc* p){
 		if (p->calls.entry[--stack_i].type == CALL_GOSUB){
 			break;
 		}
-		if (stack_i < 0){
+		if (stack_i <= 0){
 			// did not find GOSUB anywhere in stack
 			p->exec.error = ERR_RETURN_WITHOUT_GOSUB;
 			return;
-- 
2.43.0


From 8eb08e75edc50ff3cfe10f7e360ca54d140c4f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:07 +0000
Subject: [PATCH 015/103] fix: look up labels given as strings without crashing
 or ignoring their first character

---
 source/interpreter/flow.c  | 2 +-
 source/interpreter/label.c | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/source/interpreter/flow.c b/source/interpreter/flow.c
index bfa61aa..6a4957b 100644
--- a/source/interpreter/flow.c
+++ b/source/interpreter/flow.c
@@ -227,7 +227,7 @@ void cmd_goto_gosub(struct ptc* p, bool push_return){
 		if (p->stack.entry[label_i+1].type & STACK_OP){
 			ERROR(ERR_SYNTAX); // label is missing from this slot
 		}
-		label = p->stack.entry[label_i+1].value.ptr;
+		label = value_str(ARG(label_i+1));
 	} else {
 		label = value_str(e); //value_str
 	}
diff --git a/source/interpreter/label.c b/source/interpreter/label.c
index 6580785..472df03 100644
--- a/source/interpreter/label.c
+++ b/source/interpreter/label.c
@@ -106,14 +106,17 @@ idx search_label(struct ptc* p, void* label){
 	// Labels must always be located at the beginning of a line.
 	idx index = 0;
 
-	u8 buf[MAX_LABEL_SIZE+1]; // +1 to include the @ symbol in cases of strings
+	u8 buf[MAX_LABEL_SIZE+2] = {0}; // +2 to include the @ symbol in cases of strings, and the terminator
 	char* buf_ptr = (char*)buf;
 	int len = str_len(label);
 	if (*(char*)label == BC_LABEL || *(char*)label == BC_LABEL_STRING){
 		assert(len <= 16);
 		str_char_copy(label, buf);
 	} else { // assume regular string
-		assert(len <= 17);
+		if (len < 2 || len > MAX_LABEL_SIZE+1 || str_at_char(label, 0) != '@'){
+			p->exec.error = ERR_LABEL_NOT_FOUND; // can not be a label
+			return p->exec.code.size;
+		}
 		str_char_copy(label, buf);
 		++buf_ptr; // pointer past '@'
 		--len; // remove '@'
-- 
2.43.0


From 41bebfc57e2d790cf66f1ea9c99667e115a57713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:01 +0000
Subject: [PATCH 016/103] fix: release every string exactly once and report a
 full string table

Temporaries of failed statements and of unimplemented commands, and the old
values of variables filled by READ, CHRREAD, BGREAD and INPUT were never
released; a full string table made string operations write through NULL.
Also fixes the length checks of SUBST$ and string multiplication, VAL of short
texts, numbers that round up to the next integer, ASC/DTREAD of wide strings,
INSTR from negative positions, SWAP with MEM$, INPUT/LINPUT prompts given as
variables and inputs that fill a line, and colors out of range.
---
 source/extension/sbc_memory.c  |  2 ++
 source/interpreter/data.c      | 10 +++++--
 source/interpreter/operators.c | 21 ++++++++-----
 source/interpreter/runner.c    | 32 +++++++++++++++++++-
 source/interpreter/strfuncs.c  | 35 +++++++++++++---------
 source/interpreter/strs.c      | 12 ++++++--
 source/interpreter/strs.h      |  7 +++++
 source/subsystem/background.c  |  3 ++
 source/subsystem/console.c     | 55 ++++++++++++++++++++++------------
 source/subsystem/input.c       | 12 ++++++--
 source/subsystem/resources.c   |  6 +++-
 source/subsystem/sysvars.c     |  2 ++
 source/subsystem/variables.c   |  9 ++++++
 13 files changed, 157 insertions(+), 49 deletions(-)

diff --git a/source/extension/sbc_memory.c b/source/extension/sbc_memory.c
index 1752027..f505111 100644
--- a/source/extension/sbc_memory.c
+++ b/source/extension/sbc_memory.c
@@ -300,6 +300,8 @@ void func_addr(struct ptc* p){
 
 void func_ptr(struct ptc* p){
 	struct string* out_str = get_new_str(&p->strs);
+	if (!out_str) ERROR(ERR_OUT_OF_MEMORY);
+	out_str->type = STRING_CHAR; // force smaller type is always safe
 	
 	fixp ptr = STACK_REL_NUM(-1);
 	--p->stack.stack_i;
diff --git a/source/interpreter/data.c b/source/interpreter/data.c
index a384d64..b2eccd8 100644
--- a/source/interpreter/data.c
+++ b/source/interpreter/data.c
@@ -16,8 +16,10 @@ int read_one_u8(struct ptc* p, const u8* src, size_t len, struct stack_entry* de
 	if (dest->type == (VAR_VARIABLE | VAR_STRING)){
 		// Create new string
 		struct string* s = get_new_str(&p->strs);
-		// Remove a use if variable had a string aleady
-		value_str(dest);
+		if (!s){
+			p->exec.error = ERR_OUT_OF_MEMORY;
+			return READ_ONE_ERR;
+		}
 		
 		// create destination and copy characters
 		for (; i < len && src[i] != BC_DATA_DELIM; ++i){
@@ -25,9 +27,11 @@ int read_one_u8(struct ptc* p, const u8* src, size_t len, struct stack_entry* de
 				return READ_ONE_ERR;
 			}
 		}
-		str_copy_buf(src, (void*)s->ptr.s, STR_COPY_SRC_8 | (str_type(s) << STR_COPY_DEST), i - start);
+		str_copy_buf(src, str_at(s, 0), STR_COPY_SRC_8 | (str_type(s) << STR_COPY_DEST), i - start);
 		s->len = i - start;
 		
+		// Remove a use if variable had a string aleady
+		str_release(VALUE_STR(dest));
 		// Assign new string to variable
 		(*(struct string**)dest->value.ptr) = s;
 		s->uses = 1;
diff --git a/source/interpreter/operators.c b/source/interpreter/operators.c
index 782be51..18019a0 100644
--- a/source/interpreter/operators.c
+++ b/source/interpreter/operators.c
@@ -31,14 +31,15 @@ void op_add(struct ptc* p){
 	} else {
 		// The value_str function checks uses to get the next string
 		struct string* z = get_new_str(&p->strs);
+		if (!z) ERROR(ERR_OUT_OF_MEMORY);
 		struct string* x = value_str(a);
 		struct string* y = value_str(b);
-		z->uses = 1;
 		
 		if (str_len(x) + str_len(y) > MAX_STRLEN){
 			ERROR(ERR_STRING_TOO_LONG);
 		}
 		
+		z->uses = 1;
 		str_concat(x, y, z);
 		
 		stack_push(s, (struct stack_entry){VAR_STRING, {.ptr = z}});
@@ -77,14 +78,17 @@ void op_mult(struct ptc* p){
 		
 		// must be done first to keep uses correct
 		struct string* y = get_new_str(&p->strs);
+		if (!y) ERROR(ERR_OUT_OF_MEMORY);
 		struct string* x = value_str(a);
 		
-		y->uses = 1;
-		y->len = 0; // start empty
-		if (count * str_len(x) > MAX_STRLEN){
+		// 64-bit because the product can be larger than an int
+		if ((uint64_t)count * str_len(x) > MAX_STRLEN){
 			p->exec.error = ERR_STRING_TOO_LONG;
 			return;
 		}
+		y->uses = 1;
+		y->len = 0; // start empty
+		if (!str_len(x)) count = 0; // repeating nothing gives nothing
 		
 		for (int i = 0; i < count; ++i){
 			str_concat(y, x, y);
@@ -132,6 +136,11 @@ void op_negate(struct ptc* p){
 	stack_push(s, (struct stack_entry){VAR_NUMBER, {(fixp)-(u32)x}});
 }
 
+/// Strings that can not be referenced by a variable have to be copied when assigned.
+static bool value_needs_copy(struct ptc* p, struct string* src){
+	return src->type == BC_STRING || src == &p->res.mem_str;
+}
+
 void op_assign(struct ptc* p){
 	struct value_stack* s = &p->stack;
 	struct stack_entry* b = stack_pop(s);
@@ -147,6 +156,7 @@ void op_assign(struct ptc* p){
 		struct string** dest = (struct string**)a->value.ptr;
 		struct string* new_alloc = get_new_str(&p->strs); // creates copies for strings from source
 		// if new_alloc is unused, there is no problem since uses is not set
+		if (!new_alloc && value_needs_copy(p, VALUE_STR(b))) ERROR(ERR_OUT_OF_MEMORY);
 		struct string* src = value_str(b);
 		assert(dest); // var must exist
 		assert(*dest); // must contain a valid string already
@@ -162,9 +172,6 @@ void op_assign(struct ptc* p){
 			*dest = src;
 			(*dest)->uses++;
 		} else if (src->type == BC_STRING){
-			if (!new_alloc) {
-				ERROR(ERR_OUT_OF_MEMORY); // failed to alloc string
-			}
 			str_copy(src, new_alloc);
 			++new_alloc->uses;
 			*dest = new_alloc;
diff --git a/source/interpreter/runner.c b/source/interpreter/runner.c
index 40a9d51..6a8fc7d 100644
--- a/source/interpreter/runner.c
+++ b/source/interpreter/runner.c
@@ -24,6 +24,7 @@
 #include "subsystem/sprites.h"
 #include "subsystem/graphics.h"
 #include "subsystem/variables.h"
+#include "arrays.h"
 #include "vars.h"
 
 #include <stdio.h>
@@ -38,6 +39,9 @@ typedef void(*ptc_call)(struct ptc*);
 
 void ptc_stub(struct ptc* p){
 	// Stub function consumes all arguments and does nothing
+	for (int i = 0; i < p->stack.stack_i; ++i){
+		if (ARG(i)->type & VAR_STRING) value_str(ARG(i));
+	}
 	p->stack.stack_i = 0;
 }
 
@@ -160,6 +164,29 @@ struct var_name read_var_name(struct bytecode* b, idx index){
 	return result;
 }
 
+/// Sets the use counts of all strings to the number of references from variables.
+/// Needed when a statement is abandoned, because its temporary values may or may not
+/// have been released by then.
+static void recount_str_uses(struct ptc* p){
+	reset_str(&p->strs);
+	for (u32 i = 0; i < p->vars.vars_max; ++i){
+		struct named_var* v = &p->vars.vars[i];
+		if (v->type == VAR_STRING){
+			if (is_dyn_str(v->value.ptr)) ((struct string*)v->value.ptr)->uses++;
+		} else if (v->type == (VAR_STRING | VAR_ARRAY) && v->value.ptr){
+			u32 size = arr_size(v->value.ptr, ARR_DIM1);
+			if (arr_size(v->value.ptr, ARR_DIM2) != ARR_DIM2_UNUSED) size *= arr_size(v->value.ptr, ARR_DIM2);
+			for (u32 k = 0; k < size; ++k){
+				struct string* s = arr_data(v->value.ptr)[k].ptr;
+				if (is_dyn_str(s)) s->uses++;
+			}
+		}
+	}
+	if (p->res.mem_ptr != &p->res.mem_str && is_dyn_str(p->res.mem_ptr)){
+		((struct string*)p->res.mem_ptr)->uses++;
+	}
+}
+
 /// The big interpreter function.
 /// 
 /// Takes a chunk of bytecode stored in code and runs it.
@@ -556,8 +583,11 @@ ITCM_CODE void _run(struct bytecode code, struct ptc* p, bool init_exec) {
 	}
 
 	// store copy of exec state at exit
-	if (p->exec.error)
+	if (p->exec.error){
 		p->exec_old = p->exec;
+		// temporary strings of the statement that failed are not in use anymore
+		recount_str_uses(p);
+	}
 }
 
 void run(struct bytecode code, struct ptc* p){
diff --git a/source/interpreter/strfuncs.c b/source/interpreter/strfuncs.c
index ea3bb84..ba7faf6 100644
--- a/source/interpreter/strfuncs.c
+++ b/source/interpreter/strfuncs.c
@@ -24,6 +24,7 @@ void func_mid(struct ptc* p){
 	
 	// Must be done first to ensure uses are kept correctly
 	struct string* dest = get_new_str(&p->strs);
+	if (!dest) ERROR(ERR_OUT_OF_MEMORY);
 	
 	int start;
 	int len;
@@ -54,7 +55,7 @@ void func_val(struct ptc* p){
 	struct value_stack* s = &p->stack;
 	struct stack_entry* a = stack_pop(s);
 	
-	u8 num_str[MAX_STRLEN];
+	u8 num_str[MAX_STRLEN] = {0};
 	void* str = value_str(a);
 	str_char_copy(str, num_str);
 	int len = str_len(str);
@@ -62,7 +63,7 @@ void func_val(struct ptc* p){
 	fixp v;
 
 	u8 first_char = num_str[0];
-	if (first_char == '&'){
+	if (len > 1 && first_char == '&'){
 		u8 second_char = num_str[1];
 		int base = 0;
 		if (second_char == 'H'){
@@ -84,6 +85,7 @@ void func_str(struct ptc* p){
 	fixp n = STACK_REL_NUM(-1);
 	
 	struct string* s = get_new_str(&p->strs);
+	if (!s) ERROR(ERR_OUT_OF_MEMORY);
 	
 	fixp_to_str(n, s);
 	s->uses = 1;
@@ -99,6 +101,7 @@ void func_instr(struct ptc* p){
 	if (p->exec.argcount == 3){
 		struct stack_entry* startv = stack_pop(s);
 		start = VALUE_INT(startv);
+		if (start < 0) ERROR(ERR_OUT_OF_RANGE);
 	}
 	struct stack_entry* substring = stack_pop(s);
 	struct stack_entry* string = stack_pop(s);
@@ -156,6 +159,7 @@ void func_chr(struct ptc* p){
 void func_subst(struct ptc* p){
 	// Note: must be allocated here to ensure use count of str, repl are included
 	struct string* dest = get_new_str(&p->strs);
+	if (!dest) ERROR(ERR_OUT_OF_MEMORY);
 
 	// argument validation
 	int start;
@@ -171,19 +175,20 @@ void func_subst(struct ptc* p){
 	}
 	int repl_len = str_len(repl);
 	// actual copying
+	int remaining = len - start - count;
+	if (remaining < 0) remaining = 0;
+	if (start + repl_len + remaining > MAX_STRLEN) ERROR(ERR_STRING_TOO_LONG);
 	dest->uses = 1;
-	if (start + repl_len > MAX_STRLEN) ERROR(ERR_STRING_TOO_LONG);
 
-	str_copy_buf(str_at(str, 0), dest->ptr.s, str_type(str) | (str_type(dest) << STR_COPY_DEST), start);
+	str_copy_buf(str_at(str, 0), str_at(dest, 0), str_type(str) | (str_type(dest) << STR_COPY_DEST), start);
 //	iprintf("%s\n",dest->ptr.s);
 	str_copy_buf(str_at(repl, 0), str_at(dest, start), str_type(repl) | (str_type(dest) << STR_COPY_DEST), str_len(repl));
 //	iprintf("%s\n",dest->ptr.s);
-	int remaining = str_len(str)-start-count;
 	if (remaining > 0)
 		str_copy_buf(str_at(str, start+count), str_at(dest, start + str_len(repl)), str_type(str) | (str_type(dest) << STR_COPY_DEST), remaining);
 //	iprintf("%s\n",dest->ptr.s);
 	
-	dest->len = start + str_len(repl) + (remaining > 0 ? remaining : 0);
+	dest->len = start + str_len(repl) + remaining;
 	stack_push(&p->stack, (struct stack_entry){VAR_STRING, {.ptr = dest}});
 }
 
@@ -203,6 +208,7 @@ void _func_substring(struct ptc* p, bool right){
 
 	// Must be done first to ensure uses are kept correctly
 	struct string* dest = get_new_str(&p->strs);
+	if (!dest) ERROR(ERR_OUT_OF_MEMORY);
 
 	int count;
 
@@ -243,6 +249,7 @@ void func_hex(struct ptc* p){
 	
 	// Must be done first to ensure uses are kept correctly
 	struct string* dest = get_new_str(&p->strs);
+	if (!dest) ERROR(ERR_OUT_OF_MEMORY);
 	
 	int num;
 	int digits = 0;
@@ -290,18 +297,18 @@ void cmd_dtread(struct ptc* p){
 		if (format[i] == '/' && c != '/') ERROR(ERR_SYNTAX);
 	}
 
-	*year = (*((u8*)str_at(date_str,0)) - '0') * 1000;
-	*year += (*((u8*)str_at(date_str,1)) - '0') * 100;
-	*year += (*((u8*)str_at(date_str,2)) - '0') * 10;
-	*year += (*((u8*)str_at(date_str,3)) - '0');
+	*year = (str_at_char(date_str,0) - '0') * 1000;
+	*year += (str_at_char(date_str,1) - '0') * 100;
+	*year += (str_at_char(date_str,2) - '0') * 10;
+	*year += (str_at_char(date_str,3) - '0');
 	*year <<= FIXPOINT;
 	
-	*month = (*((u8*)str_at(date_str,5)) - '0') * 10;
-	*month += (*((u8*)str_at(date_str,6)) - '0') * 1;
+	*month = (str_at_char(date_str,5) - '0') * 10;
+	*month += (str_at_char(date_str,6) - '0') * 1;
 	*month <<= FIXPOINT;
 	
-	*day = (*((u8*)str_at(date_str,8)) - '0') * 10;
-	*day += (*((u8*)str_at(date_str,9)) - '0') * 1;
+	*day = (str_at_char(date_str,8) - '0') * 10;
+	*day += (str_at_char(date_str,9) - '0') * 1;
 	*day <<= FIXPOINT;
 }
 
diff --git a/source/interpreter/strs.c b/source/interpreter/strs.c
index bc11ee7..5ba7730 100644
--- a/source/interpreter/strs.c
+++ b/source/interpreter/strs.c
@@ -269,11 +269,16 @@ void fixp_to_char(const fixp n, u8* str){
 	if (n < 0){
 		(*str++) = '-';
 	}
-	fixp num = n < 0 ? -n : n;
+	// unsigned because negating INT_MIN is undefined
+	u32 num = n < 0 ? -(u32)n : (u32)n;
 	
 	u32 integer = num >> FIXPOINT;
 	const u32 decimal_mask = (INT_TO_FP(1) - 1); //default: 0x00000fff
 	u32 decimal = ((((num & decimal_mask) + 2) * 1000) >> FIXPOINT);
+	if (decimal >= 1000){ // rounded up to the next integer
+		decimal -= 1000;
+		++integer;
+	}
 	u32 divisor = 100000;
 	bool trailing = false;
 	// Loop until divisor is zero (to get all digits)
@@ -518,12 +523,15 @@ u16 str_at_char(const void* src, const u16 index){
 	assert(src);
 	
 	struct string* s = (struct string*)src;
+	int c;
 	
 	switch (*(char*)src){
 		case STRING_CHAR:
 			return s->ptr.s[index];
 		case STRING_WIDE:
-			return s->ptr.w[index];
+			// characters that have no small form are returned as they are
+			c = to_char(s->ptr.w[index]);
+			return c >= 0 ? c : s->ptr.w[index];
 		case BC_LABEL_STRING:
 		case BC_LABEL:
 		case BC_STRING:
diff --git a/source/interpreter/strs.h b/source/interpreter/strs.h
index 6bbddea..991b11a 100644
--- a/source/interpreter/strs.h
+++ b/source/interpreter/strs.h
@@ -73,6 +73,13 @@ static inline bool is_dyn_str(struct string* s){
 	return s->type == STRING_CHAR || s->type == STRING_WIDE;
 }
 
+/// Removes one reference to a string. Strings that are not dynamic are left alone.
+static inline void str_release(struct string* s){
+	if (s && is_dyn_str(s)){
+		s->uses--;
+	}
+}
+
 /// Checks if character is a lowercase letter ('a'-'z')
 bool is_lower(char c);
 /// Checks if character is an uppercase letter ('A'-'Z')
diff --git a/source/subsystem/background.c b/source/subsystem/background.c
index a023580..3517f7a 100644
--- a/source/subsystem/background.c
+++ b/source/subsystem/background.c
@@ -228,6 +228,8 @@ void cmd_bgread(struct ptc* p){
 			*tile = INT_TO_FP(tiledata);
 		} else {
 			struct string* dest = get_new_str(&p->strs);
+			if (!dest) ERROR(ERR_OUT_OF_MEMORY);
+			dest->type = STRING_CHAR; // force smaller type is always safe
 			void** tile = ARG(3)->value.ptr; // pointer to string (which is itself a pointer)
 //			fixp_to_str(INT_TO_FP(tiledata), dest);
 			dest->ptr.s[0] = hex_digits[(tiledata & 0xF000) >> 12];
@@ -236,6 +238,7 @@ void cmd_bgread(struct ptc* p){
 			dest->ptr.s[3] = hex_digits[(tiledata & 0x000F) >> 0];
 			dest->len = 4;
 			dest->uses = 1;
+			str_release(*tile);
 			*tile = dest;
 		}
 	} else {
diff --git a/source/subsystem/console.c b/source/subsystem/console.c
index 08e9ba6..7905a76 100644
--- a/source/subsystem/console.c
+++ b/source/subsystem/console.c
@@ -152,12 +152,15 @@ void cmd_print(struct ptc* p){
 void cmd_color(struct ptc* p){
 	struct console* c = &p->console;
 	if (p->stack.stack_i == 2){
-		c->col = 0;
-		c->col |= STACK_INT(0); // FG
-		c->col |= STACK_INT(1) << 4; // BG
+		int fg, bg;
+		STACK_INT_RANGE(0,0,15,fg);
+		STACK_INT_RANGE(1,0,15,bg);
+		c->col = fg | (bg << 4);
 	} else if (p->stack.stack_i == 1){
+		int fg;
+		STACK_INT_RANGE(0,0,15,fg);
 		c->col &= ~COL_FG_MASK; // clear FG value
-		c->col |= STACK_INT(0); // FG
+		c->col |= fg;
 	}
 	p->stack.stack_i = 0;
 }
@@ -277,7 +280,8 @@ u16* shared_input(struct ptc* p){
 		} else if (check_pressed(&p->input, BUTTON_ID_RIGHT)){
 			out_index += out_index < out_index_max;
 		}
-		p->console.x = out_index;
+		// stays within the line even if it is full
+		p->console.x = out_index < CONSOLE_WIDTH ? out_index : CONSOLE_WIDTH - 1;
 	} while (!p->exec.error && inkey != '\r'
 			&& !check_pressed_manual(&p->input, BUTTON_ID_A, 15, 4));
 	p->panel.type = old_panel;
@@ -289,8 +293,20 @@ void con_prompt(struct console* con, void* prompt_str){
 	// Displays prompt string
 	if (prompt_str) // only display string if it exists
 		con_puts(con, prompt_str);
+	con_scroll(con); // the prompt may have filled the last line
 	con_put(con, to_wide('?'));
 	if (con->x) con_newline(con, true); // only newline if necessary for user to have full line of input
+	else con_scroll(con);
+}
+
+/// Gets the prompt string from its stack entry. The prompt may be displayed more than
+/// once, so it is kept in use until released by `str_release`.
+static void* get_prompt(struct stack_entry* e){
+	struct string* prompt = VALUE_STR(e);
+	if (e->type & VAR_VARIABLE && is_dyn_str(prompt)){
+		prompt->uses++;
+	}
+	return prompt;
 }
 
 void con_reprompt(struct console* con, void* prompt_str){
@@ -314,7 +330,7 @@ void cmd_input(struct ptc* p){
 		if (ARG(1)->type == STACK_OP && ARG(1)->value.number == OP_SEMICOLON){
 			// check prompt string
 			if (ARG(0)->type & VAR_STRING){
-				prompt_str = ARG(0)->value.ptr;
+				prompt_str = get_prompt(ARG(0));
 				index = 2; // variables start here
 			} else {
 				ERROR(ERR_TYPE_MISMATCH);
@@ -348,18 +364,19 @@ void cmd_input(struct ptc* p){
 			con_reprompt(con, prompt_str);
 			continue;
 		}
-		u8 conversion_copy[CONSOLE_WIDTH];
+		u8 conversion_copy[CONSOLE_WIDTH + 1];
 		int prev_i = 0;
 		int out_i = 0;
 		
 		for (int i = 0; i < len; ){
 			struct stack_entry* e = ARG(index+i);
-			u8 c = to_char(output[out_i]);
+			// the end of the line ends the last value
+			u8 c = out_i < CONSOLE_WIDTH ? to_char(output[out_i]) : '\0';
 			conversion_copy[out_i++] = c;
 			if (e->type == (VAR_NUMBER | VAR_VARIABLE)){
 				// validate first entry is numeric
 				if (is_number(c) || c == '.' || c == '-'){
-				} else if (c == ',' || c == '\0' || c == ' ' || out_i >= CONSOLE_WIDTH){
+				} else if (c == ',' || c == '\0' || c == ' '){
 					// convert from previous to out_i
 					if (out_i - prev_i - 1 == 0){
 						valid = false;
@@ -376,17 +393,16 @@ void cmd_input(struct ptc* p){
 					break;
 				}
 			} else if (e->type == (VAR_STRING | VAR_VARIABLE)){
-				if (c == ',' || c == '\0' || out_i >= CONSOLE_WIDTH){
+				if (c == ',' || c == '\0'){
 					struct string* s = get_new_str(&p->strs);
+					if (!s) ERROR(ERR_OUT_OF_MEMORY);
 					
-					if (*(void**)e->value.ptr != NULL && **(char**)e->value.ptr == STRING_CHAR){
-						(*(struct string**)e->value.ptr)->uses--;
-					}
+					str_release(VALUE_STR(e));
 					(*(struct string**)e->value.ptr) = s;
 					
 					// TODO:TEST:LOW Check that wide strings work here
 					bool require_wide = false;
-					for (int j = prev_i; j < out_i; ++j){
+					for (int j = prev_i; j < out_i - 1; ++j){
 						if (!is_char(output[j])){
 							require_wide = true;
 							break;
@@ -396,7 +412,7 @@ void cmd_input(struct ptc* p){
 					s->type = require_wide ? STRING_WIDE : STRING_CHAR;
 					s->uses = 1;
 					s->len = out_i - prev_i - 1;
-					for (int j = prev_i; j < out_i; ++j){
+					for (int j = prev_i; j < out_i - 1; ++j){
 						if (require_wide){
 							s->ptr.w[j - prev_i] = output[j];
 						} else {
@@ -417,6 +433,7 @@ void cmd_input(struct ptc* p){
 			con_reprompt(con, prompt_str);
 		}
 	}
+	str_release(prompt_str);
 	con_newline(con, true); // from user entering the line successfully.
 }
 
@@ -427,7 +444,7 @@ void cmd_linput(struct ptc* p){
 	struct stack_entry* e;
 	if (p->stack.stack_i == 3){
 		// check prompt string
-		prompt_str = ARG(0)->value.ptr;
+		prompt_str = get_prompt(ARG(0));
 		e = ARG(2);
 	} else {
 		e = ARG(0);
@@ -436,14 +453,14 @@ void cmd_linput(struct ptc* p){
 	con_prompt(con, prompt_str);
 	
 	u16* output = shared_input(p);
+	str_release(prompt_str);
 	if (p->exec.error) return;
 
 	// Now store the result to a new string
 	struct string* s = get_new_str(&p->strs);
+	if (!s) ERROR(ERR_OUT_OF_MEMORY);
 	
-	if (*(void**)e->value.ptr != NULL && **(char**)e->value.ptr == STRING_CHAR){
-		(*(struct string**)e->value.ptr)->uses--;
-	}
+	str_release(VALUE_STR(e));
 	(*(struct string**)e->value.ptr) = s;
 	
 	// If string defaulted to STRING_CHAR, promote it to STRING_WIDE as needed
diff --git a/source/subsystem/input.c b/source/subsystem/input.c
index 05273c9..5171ea9 100644
--- a/source/subsystem/input.c
+++ b/source/subsystem/input.c
@@ -198,8 +198,16 @@ void func_inkey(struct ptc* p){
 		return;
 	}
 	u16 inkey = get_inkey(i);
-	if (inkey){
-		//TODO:CODE:LOW Doesn't handle wide characters
+	if (inkey && !is_char(inkey)){
+		// no 8-bit form, so a wide string is needed
+		struct string* s = get_new_str(&p->strs);
+		if (!s) ERROR(ERR_OUT_OF_MEMORY);
+		s->type = STRING_WIDE; // the slot has enough space
+		s->ptr.w[0] = inkey;
+		s->len = 1;
+		s->uses = 1;
+		stack_push(&p->stack, (struct stack_entry){VAR_STRING, {.ptr = s}});
+	} else if (inkey){
 		stack_push(&p->stack, (struct stack_entry){VAR_STRING, {.ptr = &single_char_strs[3 * to_char(inkey)]}});
 	} else {
 		stack_push(&p->stack, (struct stack_entry){VAR_STRING, {.ptr = empty_str}});
diff --git a/source/subsystem/resources.c b/source/subsystem/resources.c
index 1f93206..64493b1 100644
--- a/source/subsystem/resources.c
+++ b/source/subsystem/resources.c
@@ -896,6 +896,7 @@ void cmd_chrinit(struct ptc* p){
 void cmd_chrread(struct ptc* p){
 	// CHRREAD resource$ id var$
 	struct string* dest = get_new_str(&p->strs);
+	if (!dest) ERROR(ERR_OUT_OF_MEMORY);
 	// Note: If uses is never set to 1, then this string is available for taking again
 	// (no resource cleanup needed here)
 	void* res_str = value_str(ARG(0));
@@ -909,6 +910,7 @@ void cmd_chrread(struct ptc* p){
 	if (TYPE_CHR == info.type_id){
 		// resource is valid
 		u8* chr_data = (u8*)info.data + 32*id;
+		dest->type = STRING_CHAR; // force smaller type is always safe
 		// convert this to string
 		for (int i = 0; i < 32; ++i){
 			u8 unit = chr_data[i];
@@ -917,9 +919,9 @@ void cmd_chrread(struct ptc* p){
 			dest->ptr.s[2 * i + 0] = hex_digits[ul];
 			dest->ptr.s[2 * i + 1] = hex_digits[uh];
 		}
-		dest->type = STRING_CHAR; // force smaller type is always safe
 		dest->len = 64;
 		dest->uses = 1;
+		str_release(*out);
 		*out = dest;
 	} else {
 		ERROR(ERR_INVALID_RESOURCE_TYPE);
@@ -1216,6 +1218,7 @@ void sys_result(struct ptc* p){
 
 void sys_package(struct ptc* p){
 	struct string* str = get_new_str(&p->strs);
+	if (!str) ERROR(ERR_OUT_OF_MEMORY);
 	str->type = STRING_CHAR;
 	str->uses = 1;
 	int i = 0;
@@ -1235,6 +1238,7 @@ void sys_package(struct ptc* p){
 
 void sys_prgname(struct ptc* p){
 	struct string* str = get_new_str(&p->strs);
+	if (!str) ERROR(ERR_OUT_OF_MEMORY);
 	str->type = STRING_CHAR;
 	str->uses = 1;
 	str->len = strlen(p->res.prgname);
diff --git a/source/subsystem/sysvars.c b/source/subsystem/sysvars.c
index 5fd0eb4..d5c0350 100644
--- a/source/subsystem/sysvars.c
+++ b/source/subsystem/sysvars.c
@@ -47,6 +47,7 @@ void sys_date(struct ptc* p){
 	int year = tm->tm_year + 1900;
 	
 	struct string* str = get_new_str(&p->strs);
+	if (!str) ERROR(ERR_OUT_OF_MEMORY);
 	str->type = STRING_CHAR;
 	str->uses = 1;
 	str->len = 10;
@@ -75,6 +76,7 @@ void sys_time(struct ptc* p){
 	int sec = tm->tm_sec;
 	
 	struct string* str = get_new_str(&p->strs);
+	if (!str) ERROR(ERR_OUT_OF_MEMORY);
 	str->type = STRING_CHAR;
 	str->uses = 1;
 	str->len = 8;
diff --git a/source/subsystem/variables.c b/source/subsystem/variables.c
index f40f36e..9a27cb3 100644
--- a/source/subsystem/variables.c
+++ b/source/subsystem/variables.c
@@ -11,6 +11,15 @@ void cmd_swap(struct ptc* p){
 	// Note that swap is swapping values, but those values depend on types
 	struct stack_entry* a = ARG(0);
 	struct stack_entry* b = ARG(1);
+	if ((a->value.ptr == &p->res.mem_ptr || b->value.ptr == &p->res.mem_ptr)
+		&& p->res.mem_ptr == &p->res.mem_str){
+		// MEM$ has its own storage that other variables can not refer to
+		struct string* mem = get_new_str(&p->strs);
+		if (!mem) ERROR(ERR_OUT_OF_MEMORY);
+		str_copy(p->res.mem_ptr, mem);
+		mem->uses = 1;
+		p->res.mem_ptr = mem;
+	}
 	union value c;
 	memcpy(&c, a->value.ptr, sizeof(union value)); // copies from pointed-to number or string
 	memcpy(a->value.ptr, b->value.ptr, sizeof(union value));
-- 
2.43.0


From dd372eba82fc093d6deaeb773ea5ff05d9beba8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:04 +0000
Subject: [PATCH 017/103] fix: MID$ with a start or length over 32767 does not
 read outside the string

---
 source/interpreter/strfuncs.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/interpreter/strfuncs.c b/source/interpreter/strfuncs.c
index ba7faf6..ab4ed8a 100644
--- a/source/interpreter/strfuncs.c
+++ b/source/interpreter/strfuncs.c
@@ -34,11 +34,11 @@ void func_mid(struct ptc* p){
 	STACK_REL_INT_MIN(-1,0,len);
 	s->stack_i -= 3;
 	
-	s16 max_len = (s16)str_len(str) - (s16)start;
+	int max_len = (int)str_len(str) - start;
 	if (max_len <= 0){
 		stack_push(&p->stack, (struct stack_entry){VAR_STRING, {.ptr = empty_str}});
 		return;
-	} else if (max_len <= (s16)len){
+	} else if (max_len <= len){
 		len = max_len;
 	}
 	
-- 
2.43.0


From bcff0f585f29bf232539632471ed5e885bb393c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:49 +0000
Subject: [PATCH 018/103] fix: READ past the last DATA item, numbers of any
 length and overflowing numbers

---
 source/interpreter/data.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/source/interpreter/data.c b/source/interpreter/data.c
index b2eccd8..1f2831a 100644
--- a/source/interpreter/data.c
+++ b/source/interpreter/data.c
@@ -36,7 +36,6 @@ int read_one_u8(struct ptc* p, const u8* src, size_t len, struct stack_entry* de
 		(*(struct string**)dest->value.ptr) = s;
 		s->uses = 1;
 	} else if (dest->type == (VAR_VARIABLE | VAR_NUMBER)){
-		u8 conversion[16] = {0}; // this buffer size is very arbitrary
 		// skip leading spaces, but only for numbers
 		// strings may contain spaces when quoted
 		while (i < len && src[i] == ' '){
@@ -46,19 +45,24 @@ int read_one_u8(struct ptc* p, const u8* src, size_t len, struct stack_entry* de
 			return READ_ONE_ERR;
 		}
 		// Read number!
-		for (; i < len && i - start < 16; ++i){
+		size_t number_start = i;
+		for (; i < len; ++i){
 			u8 c = src[i];
 			if (is_number(c) || c == '-' || c == '.'){
-				conversion[i - start] = c;
+				iprintf(":%c", c);
 			} else if (c == BC_DATA_DELIM){ 
 				break; // stop reading here
 			} else {
 				return READ_ONE_ERR;
 			}
-			iprintf(":%c", conversion[i - start]);
 		}
 		// Convert!
-		*((fixp*)dest->value.ptr) = u8_to_num(conversion, i - start);
+		int64_t number = u8_to_num((u8*)src + number_start, i - number_start);
+		if (number < INT32_MIN || number > INT32_MAX){
+			p->exec.error = ERR_OVERFLOW;
+			return READ_ONE_ERR;
+		}
+		*((fixp*)dest->value.ptr) = number;
 	} else {
 		return READ_ONE_ERR;
 	}
@@ -101,6 +105,9 @@ void cmd_read(struct ptc* p){
 	iprintf("READ from: ");
 	// Iterate over variables on stack
 	for (int i = 0; i < p->stack.stack_i; ++i){
+		if (p->exec.data_index == BC_SCAN_NOT_FOUND){
+			ERROR(ERR_OUT_OF_DATA);
+		}
 		block_size = data_block[1];
 		iprintf("src=%d size=%d", (int)p->exec.data_index, block_size);
 		iprintf(" data=\"%.*s\"", block_size, &data_block[DATA_DATA_OFS + p->exec.data_offset]);
@@ -108,7 +115,8 @@ void cmd_read(struct ptc* p){
 		
 		int read = read_one_u8(p, data_src, block_size - p->exec.data_offset, ARG(i));
 		if (read == READ_ONE_ERR){
-			ERROR(ERR_READ_FAILURE);
+			if (!p->exec.error) p->exec.error = ERR_READ_FAILURE;
+			return;
 		}
 		p->exec.data_offset += read;
 		iprintf(" read:%d", (int)p->exec.data_offset);
-- 
2.43.0


From bf8f6934e7daeacca6c88fac7aebf23ebaf9484f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:12 +0000
Subject: [PATCH 019/103] fix: FOR needs a number variable and numeric limits,
 NEXT reports errors in them

---
 source/interpreter/flow.c   | 19 +++++++++++--------
 source/interpreter/tokens.c | 20 +++++++++++++++++++-
 2 files changed, 30 insertions(+), 9 deletions(-)

diff --git a/source/interpreter/flow.c b/source/interpreter/flow.c
index 6a4957b..ccd9969 100644
--- a/source/interpreter/flow.c
+++ b/source/interpreter/flow.c
@@ -15,11 +15,11 @@
 
 void cmd_for(struct ptc* p){
 	// current stack consists of one var ptr
-	// Old design: [VAR] [FOR] [START] [ASSIGNMENT]
-	// New design: [VAR] [START] [ASSIGNMENT] [FOR]
-	// This works the same way, but it relies on the additional assumption that stack entries
-	// are never erased until a new entry is added.
+	// design: [VAR] [FOR] [START] [ASSIGNMENT]
 	struct stack_entry* e = &p->stack.entry[0];
+	if (p->calls.stack_i == CALL_STACK_SIZE-1){
+		ERROR(ERR_OUT_OF_MEMORY);
+	}
 	
 	p->calls.entry[p->calls.stack_i].type = CALL_FOR;
 	//note: this points to just after FOR
@@ -33,17 +33,17 @@ void cmd_for(struct ptc* p){
 		return;
 	}
 	
-	if (p->calls.stack_i == CALL_STACK_SIZE-1){
-		ERROR(ERR_OUT_OF_MEMORY);
-	}
 	// Note: instruction index is limited to [0,MAX_SOURCE_SIZE) currently
 	// Line size (and distance to BC_BEGIN_LOOP) is in [0,100) and usually small
 	// Store offset as part of index here, and save the searching on every NEXT command
 	idx to_start = index + 2;
 	idx to_size = bc_scan(p->exec.code, to_start, BC_BEGIN_LOOP);
-	if (to_size == BC_SCAN_NOT_FOUND) {
+	if (to_size == BC_SCAN_NOT_FOUND || to_size - to_start > 0xff) {
 		ERROR(ERR_FOR_MISSING_BEGIN_LOOP);
 	}
+	if (bc_scan(p->exec.code, p->exec.index, BC_BEGIN_LOOP) < index) {
+		ERROR(ERR_MISSING_OP_ASSIGN_FOR); // assignment is part of a later statement
+	}
 
 	// stores beginning of TO [STEP] expression and size of expression
 	p->calls.entry[p->calls.stack_i].address = to_start | ((to_size - to_start) << 24);
@@ -110,7 +110,10 @@ void cmd_next(struct ptc* p){
 	for_condition.size = to_size;
 	for_condition.data = code.data + to_start;
 	run(for_condition, p);
+	int error = p->exec.error;
 	p->exec = temp; //restore program state
+	if (error) ERROR(error);
+	if (!p->stack.stack_i) ERROR(ERR_BEGIN_LOOP_NO_END);
 	
 	// now stack should contain (END, [STEP])
 	s32* current = (s32*)c->var;
diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index 5183c7e..33d9f7a 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -480,6 +480,7 @@ int tok_test(struct tokenizer* state){
 	
 	const char* valid; // Local used for some cases
 	bool is_valid; // Used by some cases
+	bool is_on = false; // last command was ON
 	
 	iprintf("Validation:\n");
 	for (u8 i = 0; i < state->token_i; ++i){
@@ -513,6 +514,17 @@ int tok_test(struct tokenizer* state){
 					iprintf("Stack: %d %.*s\n", stack_i, stack_i, stack);
 					return ERR_TEST_COMMAND;
 				}
+				if (cmd == CMD_FOR){
+					// needs a number variable or array element to count with
+					if (!i || !stack_i || stack[stack_i-1] != 'n'
+						|| (state->tokens[i-1].type != name && state->tokens[i-1].type != array_name)){
+						return ERR_TEST_COMMAND;
+					}
+				}
+				if (is_on && cmd != CMD_GOTO && cmd != CMD_GOSUB){
+					return ERR_TEST_COMMAND; // ON without GOTO or GOSUB
+				}
+				is_on = cmd == CMD_ON;
 				// relies on variable carrying through...
 				// FOR: for assignment
 				// TO: for BC_BEGIN_LOOP
@@ -661,7 +673,11 @@ int tok_test(struct tokenizer* state){
 				break;
 				
 			case loop_begin:
-				stack_i = 0; // consumes stack elements
+				// consumes stack elements: end and step
+				while (stack_i){
+					--stack_i;
+					if (stack[stack_i] != 'N' && stack[stack_i] != 'n') return ERR_TEST_COMMAND;
+				}
 				break;
 				
 			default:
@@ -670,6 +686,8 @@ int tok_test(struct tokenizer* state){
 		}
 	}
 	
+	if (is_on)
+		return ERR_TEST_COMMAND; // ON without GOTO or GOSUB
 	if (stack_i)
 		return ERR_TEST_STACK;
 	return ERR_NONE;
-- 
2.43.0


From f6915efcc6e5ea22d46edfa45dc9d84dd60f388d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:15 +0000
Subject: [PATCH 020/103] fix: a skipped FOR loop finds its own NEXT after
 nested loops and numbered variables

---
 source/interpreter/runner.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/interpreter/runner.c b/source/interpreter/runner.c
index 6a8fc7d..672409e 100644
--- a/source/interpreter/runner.c
+++ b/source/interpreter/runner.c
@@ -517,17 +517,18 @@ ITCM_CODE void _run(struct bytecode code, struct ptc* p, bool init_exec) {
 										v = get_var(&p->vars, var.name, var.len, var.type);
 									} else if (var_check == BC_VARIABLE_ID_SMALL){
 										// get var by ID
-										v = &p->vars.vars[r->code.data[result.prev + 1]];
+										v = &p->vars.vars[(u8)r->code.data[result.prev + 1]];
 									} else {
 										// larger var ID
-										v = &p->vars.vars[r->code.data[result.prev + 1] | (r->code.data[result.prev + 2] << 8) | (r->code.data[result.prev + 3] << 16)];
+										v = &p->vars.vars[(u8)r->code.data[result.prev + 1] | ((u8)r->code.data[result.prev + 2] << 8) | ((u8)r->code.data[result.prev + 3] << 16)];
 									}
 									// verify variable matches
 									if (current == &v->value.number){
 										result.index += 2; // past NEXT [var]
 										break; // ignore nesting?
 									}
-									// ignore otherwise? unclear
+									// otherwise ends a nested loop, if there is one
+									if (nest > 1) nest--;
 								} else {
 									// treat as generic next
 									nest--;
-- 
2.43.0


From be9ccd93315c8e69aeb8b08622a2adddec39fa2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:22 +0000
Subject: [PATCH 021/103] fix: DIM, PRINT, SORT and FOR argument handling ends
 with the statement, also at THEN and ELSE

---
 source/interpreter/tokens.c | 55 +++++++++++++++++++++----------------
 1 file changed, 32 insertions(+), 23 deletions(-)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index 33d9f7a..c55bc5b 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -1023,6 +1023,24 @@ void tok_eval_clean_stack(struct eval* e, u16 prio){
 	}
 }
 
+// State of the statement being parsed: special argument forms of some commands.
+// Ends at the end of the statement (newline or colon, THEN and ELSE).
+struct statement {
+	bool is_for;
+	bool is_dim;
+	bool is_sort;
+	bool implicit_commas;
+};
+
+static void tok_eval_end_statement(struct eval* e, struct statement* s){
+	tok_eval_clean_stack(e, 0);
+	if (s->is_for){
+		e->result[e->result_i++] = (struct token){.type=loop_begin, .ofs=0, .len=1, .prio=0};
+	}
+	*s = (struct statement){.implicit_commas = true};
+	e->argc_stack[0] = 0;
+}
+
 // once again based on
 // https://en.wikipedia.org/wiki/Shunting_yard_algorithm
 // This one is infinitely less bad than than the PTC-EmkII attempt. :)
@@ -1030,11 +1048,8 @@ void tok_eval_clean_stack(struct eval* e, u16 prio){
 // I'm still amazed it worked in the end.
 int tok_eval(struct tokenizer* state){
 	struct eval e = {0};
-	bool is_for = false;
-	bool is_dim = false;
+	struct statement s = {.implicit_commas = true};
 	bool is_if = false;
-	bool is_sort = false;
-	bool implicit_commas = true;
 	
 	iprintf("[tok_eval] Entry with %d unit(s)\n", state->token_i);
 /*	if (state->token_i && state->tokens[0].type == command && state->tokens[0].cmd == CMD_DATA){
@@ -1094,7 +1109,7 @@ int tok_eval(struct tokenizer* state){
 			// comma or semicolon at lowest nest level
 			e.argc_stack[e.argc_i]++;
 			tok_eval_clean_stack(&e, prio);
-			if (implicit_commas){
+			if (s.implicit_commas){
 				// don't push commas unless they are prior to another comma or at the beginning/end of the line
 				if (state->tokens[i].cmd == OP_SEMICOLON){
 					e.result[e.result_i++] = state->tokens[i];
@@ -1114,16 +1129,16 @@ int tok_eval(struct tokenizer* state){
 				// (many are flow control commands with unique parsing needs)
 				if (state->tokens[i].cmd == CMD_DIM){
 				// command is DIM: set array-creation-mode for following tokens
-					is_dim = true;
+					s.is_dim = true;
 					continue; // do not compile as instruction
 				} else if (state->tokens[i].cmd == CMD_PRINT){
 					// Command is PRINT: semicolons are implied if omitted;
 					// commas are always added
-					implicit_commas = false;
+					s.implicit_commas = false;
 				} else if (state->tokens[i].cmd == CMD_FOR){
 					// Command is FOR: add instruction at end of FOR setup to
 					// properly execute the loop
-					is_for = true;
+					s.is_for = true;
 				} else if (state->tokens[i].cmd == CMD_IF){
 					// Command is IF: add normally, but needs to indicate that
 					// ENDIF should be added once line end is hit
@@ -1131,20 +1146,20 @@ int tok_eval(struct tokenizer* state){
 				} else if (state->tokens[i].cmd == CMD_THEN){
 					// THEN should be discarded: default IF behavior will be to
 					// continue to next instruction, which can ignore THEN
-					tok_eval_clean_stack(&e, 0);
+					tok_eval_end_statement(&e, &s);
 					continue;
 				} else if (state->tokens[i].cmd == CMD_ELSE){
 					// ELSE should be placed immediately
 					// similar to commas within a command, it is used as a
 					// separator between TRUE/FALSE paths of the IF.
-					tok_eval_clean_stack(&e, 0);
+					tok_eval_end_statement(&e, &s);
 					e.result[e.result_i++] = state->tokens[i];
 					continue;
 				} else if (state->tokens[i].cmd == CMD_SORT || state->tokens[i].cmd == CMD_RSORT){
 					// SORT, RSORT need arrays for arguments >2, so mark these functions
 					// TODO:IMPL:NONE Determine a way to indicate arrays unambiguously (such as "A[]")
 					// and make it an option
-					is_sort = true;
+					s.is_sort = true;
 				} else if (state->tokens[i].cmd == CMD_DATA){
 					// DATA terminates the line - everything after it is parsed differently
 					state->state = TKR_NONE; // Tell tokenizer to start new line
@@ -1153,13 +1168,13 @@ int tok_eval(struct tokenizer* state){
 					break;
 				} else {
 					// Any other "normal" command
-					is_dim = false;
+					s.is_dim = false;
 					// Note: is_for will not be always be reset because FOR
 					// needs to be kept to the newline/end of FOR/TO/STEP command
 					// including through other commands TO and STEP
-					if (is_for && state->tokens[i].cmd != CMD_TO && state->tokens[i].cmd != CMD_STEP) {
+					if (s.is_for && state->tokens[i].cmd != CMD_TO && state->tokens[i].cmd != CMD_STEP) {
 						e.result[e.result_i++] = (struct token){.type=loop_begin, .ofs=0, .len=1, .prio=0};
-						is_for = false;
+						s.is_for = false;
 					}
 				}
 				// This is a special case to mark commands that are located at
@@ -1168,7 +1183,7 @@ int tok_eval(struct tokenizer* state){
 				if (i == 0 || state->tokens[i-1].type == newline){
 					state->tokens[i].type = first_of_line_command;
 				}
-			} else if (state->tokens[i].type == name && prio == 7 && is_dim){
+			} else if (state->tokens[i].type == name && prio == 7 && s.is_dim){
 				// arrays with prio 7: flag the type for array creation
 				// if name and prio 7 then => array; mark as array if DIM else
 				// unnecessary and just read element
@@ -1190,13 +1205,7 @@ int tok_eval(struct tokenizer* state){
 				e.argc_stack[e.argc_i]++;
 		} else if (state->tokens[i].type == newline){ 
 			// dim ends
-			tok_eval_clean_stack(&e, 0);
-			is_dim = false;
-			implicit_commas = true;
-			if (is_for){
-				e.result[e.result_i++] = (struct token){.type=loop_begin, .ofs=0, .len=1, .prio=0};
-				is_for = false;
-			}
+			tok_eval_end_statement(&e, &s);
 		} else if (state->tokens[i].type == label){
 			// label defined
 			if (i != 0){
@@ -1205,7 +1214,7 @@ int tok_eval(struct tokenizer* state){
 				state->tokens[i].type = label_string;
 			}
 			e.result[e.result_i++] = state->tokens[i];
-		} else if (state->tokens[i].type == name && is_sort && e.argc_stack[0] >= 2){
+		} else if (state->tokens[i].type == name && s.is_sort && e.argc_stack[0] >= 2){
 			// convert variables to array when listed at end of SORT or RSORT
 			// still need to treat them like other values though
 			state->tokens[i].type = array_actual;
-- 
2.43.0


From 235294e35f8bf3169a86a4e5208b99df0814986c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:24 +0000
Subject: [PATCH 022/103] fix: DIM failures, array sizes and -1 subscripts are
 reported and leave other arrays intact

---
 source/interpreter/arrays.c |  4 ++--
 source/interpreter/runner.c | 20 ++++++++++++++++----
 source/interpreter/tokens.c |  2 +-
 source/interpreter/vars.c   | 14 +++++++++-----
 4 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/source/interpreter/arrays.c b/source/interpreter/arrays.c
index dad69ca..052b147 100644
--- a/source/interpreter/arrays.c
+++ b/source/interpreter/arrays.c
@@ -27,7 +27,7 @@ void free_mem_arr(struct arrays* a){
 
 void* get_init_new_arr(struct arrays* a, u32 size1, u32 size2, int type){
 	u32* new_arr = (u32*)&((union value*)a->arr_data)[a->arr_data_next];
-	int size = size1;
+	uint64_t size = size1;
 	if (size2 != ARR_DIM2_UNUSED){
 		size *= size2;
 	}
@@ -41,7 +41,7 @@ void* get_init_new_arr(struct arrays* a, u32 size1, u32 size2, int type){
 	// fill with empty elements
 	// Note: Treats every array as 1D - this is safe because memory is contiguous
 	union value* new_arr_dat = &((union value*)new_arr)[2];
-	for (int i = 0; i < size; ++i){
+	for (u32 i = 0; i < size; ++i){
 		if (type & VAR_NUMBER){
 			new_arr_dat[i].number = 0;
 		} else if (type & VAR_STRING){
diff --git a/source/interpreter/runner.c b/source/interpreter/runner.c
index 672409e..7111e48 100644
--- a/source/interpreter/runner.c
+++ b/source/interpreter/runner.c
@@ -348,6 +348,10 @@ ITCM_CODE void _run(struct bytecode code, struct ptc* p, bool init_exec) {
 					// array element
 					idx a = (r->argcount == 2) ? STACK_REL_INT(-2) : STACK_REL_INT(-1);
 					idx b = (r->argcount == 2) ? (idx)STACK_REL_INT(-1) : ARR_DIM2_UNUSED;
+					if (r->argcount == 2 && b == ARR_DIM2_UNUSED){ // index -1
+						r->error = ERR_SUBSCRIPT_OUT_OF_RANGE_Y;
+						break;
+					}
 					p->stack.stack_i -= r->argcount;
 					
 					union value* entry = get_arr_entry_via_ptr(&p->vars, &v->value, a, b, v->type);
@@ -398,6 +402,10 @@ ITCM_CODE void _run(struct bytecode code, struct ptc* p, bool init_exec) {
 				} else {
 					idx a = (r->argcount == 2) ? STACK_REL_INT(-2) : STACK_REL_INT(-1);
 					idx b = (r->argcount == 2) ? (idx)STACK_REL_INT(-1) : ARR_DIM2_UNUSED;
+					if (r->argcount == 2 && b == ARR_DIM2_UNUSED){ // index -1
+						r->error = ERR_SUBSCRIPT_OUT_OF_RANGE_Y;
+						break;
+					}
 					p->stack.stack_i -= r->argcount;
 					
 					union value* val = get_arr_entry(&p->vars, var.name, var.len, var.type | VAR_ARRAY, a, b);
@@ -425,12 +433,16 @@ ITCM_CODE void _run(struct bytecode code, struct ptc* p, bool init_exec) {
 				idx a = (r->argcount == 2) ? STACK_REL_INT(-2) : STACK_REL_INT(-1);
 				idx b = (r->argcount == 2) ? (idx)STACK_REL_INT(-1) : ARR_DIM2_UNUSED;
 				p->stack.stack_i -= r->argcount;
+				if ((s32)a < 0 || (r->argcount == 2 && (s32)b < 0)){
+					r->error = ERR_OUT_OF_RANGE;
+					break;
+				}
 				
+				struct named_var* v;
 				iprintf("name=");
 				if (data >= 'A'){
 					iprintf("%c ", data);
-					get_new_arr_var(&p->vars, &data, 1, VAR_NUMBER | VAR_ARRAY, a, b);
-					r->error = p->vars.error;
+					v = get_new_arr_var(&p->vars, &data, 1, VAR_NUMBER | VAR_ARRAY, a, b);
 				} else {
 					char* x = (char*)&r->code.data[r->index];
 					iprintf("%.*s", data, x);
@@ -439,9 +451,9 @@ ITCM_CODE void _run(struct bytecode code, struct ptc* p, bool init_exec) {
 					enum types t = x[(u8)data-1] == '$' ? VAR_STRING : VAR_NUMBER;
 					u32 len = t & VAR_NUMBER ? data : data-1;
 					
-					get_new_arr_var(&p->vars, x, len, t | VAR_ARRAY, a, b);
-					r->error = p->vars.error;
+					v = get_new_arr_var(&p->vars, x, len, t | VAR_ARRAY, a, b);
 				}
+				if (!v) r->error = p->vars.error;
 				
 				iprintf(" dim=%d,%d", (int)a, (int)b);
 				}
diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index c55bc5b..d677ec3 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -893,7 +893,7 @@ int tok_code(struct tokenizer* state){
 					if (is_array_type) t |= VAR_ARRAY;
 					
 					struct named_var* v = get_var(&state->system->vars, &state->source->data[state->tokens[i].ofs], len, t);
-					if (state->system->vars.error != ERR_NONE){
+					if (!v){
 						return state->system->vars.error;
 					}
 //					iprintf("var %p: type=%d name=%s data=%d\n", (void*)v, v->type, v->name, v->value.number);
diff --git a/source/interpreter/vars.c b/source/interpreter/vars.c
index 4d082ce..9820b16 100644
--- a/source/interpreter/vars.c
+++ b/source/interpreter/vars.c
@@ -90,9 +90,13 @@ struct named_var* get_new_arr_var(struct variables* v, char* name, u32 len, enum
 	// make new array type
 	//if VAR_EMPTY then create it?
 	// Or if value was CLEARed, so it is OK to re-generate array
-	if (var->type == VAR_EMPTY
-		|| (v->clear_values && var->value.ptr == NULL)){
-		++v->var_count;
+	if (var->type == VAR_EMPTY || var->value.ptr == NULL){
+		void* arr = get_init_new_arr(v->arrs, dim1, dim2, type);
+		if (!arr){
+			v->error = ERR_OUT_OF_MEMORY;
+			return NULL;
+		}
+		if (var->type == VAR_EMPTY) ++v->var_count;
 		// set var type
 		var->type = type;
 		
@@ -105,7 +109,7 @@ struct named_var* get_new_arr_var(struct variables* v, char* name, u32 len, enum
 		}
 		
 		// set var ptr
-		var->value.ptr = get_init_new_arr(v->arrs, dim1, dim2, type);
+		var->value.ptr = arr;
 		return var;
 	} else {
 		// array already exists!
@@ -168,7 +172,7 @@ union value* get_arr_entry_via_ptr(struct variables* v, union value* arr, u32 ix
 	if (ix < arr_size(arr->ptr, ARR_DIM1)){
 		if (iy == ARR_DIM2_UNUSED){
 			return arr_entry(arr->ptr, ix, 0);
-		} else if (iy < arr_size(arr->ptr, ARR_DIM2)){
+		} else if (iy < (arr_size(arr->ptr, ARR_DIM2) == ARR_DIM2_UNUSED ? 1 : arr_size(arr->ptr, ARR_DIM2))){
 			return arr_entry(arr->ptr, ix, iy);
 		} else {
 			v->error = ERR_SUBSCRIPT_OUT_OF_RANGE_Y;
-- 
2.43.0


From 9da6631e934412c54bc7e22d1212598d7092df0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:47 +0000
Subject: [PATCH 023/103] fix: written system variables are validated after the
 statement that wrote them

---
 source/interpreter/tokens.c | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index d677ec3..f95d51c 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -791,6 +791,25 @@ int tok_data(struct tokenizer* state, struct token start_t, char* data, idx* siz
 	// End of DATA special rules
 }
 
+/// Commands that set no system variable (and that may continue elsewhere)
+static bool is_flow_command(u8 cmd){
+	return cmd <= CMD_STOP && cmd != CMD_PRINT && cmd != CMD_LOCATE && cmd != CMD_COLOR && cmd != CMD_DIM;
+}
+
+/// Checks that system variables written by a statement have a value in the valid range
+static void tok_sysvar_validate(struct tokenizer* state, uint64_t* sys_validate){
+	char* data = (char*)state->output->data;
+	idx* size = &state->output->size;
+	
+	for (int i = 0; i < 64; ++i){
+		if (*sys_validate & ((uint64_t)1 << i) & SYSVAR_NEEDS_VALIDATE){
+			data[(*size)++] = BC_SYSVAR_VALIDATE;
+			data[(*size)++] = i;
+		}
+	}
+	*sys_validate = 0;
+}
+
 int tok_code(struct tokenizer* state){
 	// assume the order is fixed
 	char* data = (char*)state->output->data;
@@ -811,6 +830,7 @@ int tok_code(struct tokenizer* state){
 //					(void)first_of_line;
 					data[(*size)++] = first_of_line ? BC_COMMAND_FIRST : BC_COMMAND;
 					data[(*size)++] = state->tokens[i].cmd;
+					if (!is_flow_command(state->tokens[i].cmd)) tok_sysvar_validate(state, &sys_validate);
 				}
 				break;
 			
@@ -867,6 +887,7 @@ int tok_code(struct tokenizer* state){
 				data[(*size)++] = op;
 				
 				iprintf("%d", data[*size-1]);
+				if (op == OP_ASSIGN) tok_sysvar_validate(state, &sys_validate);
 				break;
 				
 			case function:
@@ -980,16 +1001,6 @@ int tok_code(struct tokenizer* state){
 	}
 	
 tok_code_exit:
-	// Validation must be placed at end to happen after assignment
-	if (sys_validate & SYSVAR_NEEDS_VALIDATE){
-		for (int i = 0; i < 64; ++i){
-			if (sys_validate & ((uint64_t)1 << i) & SYSVAR_NEEDS_VALIDATE){
-				data[(*size)++] = BC_SYSVAR_VALIDATE;
-				data[(*size)++] = i;
-			}
-		}
-	}
-	
 	state->token_i = 0;
 	return ERR_NONE;
 }
-- 
2.43.0


From dc1aa23ea4aa7caaee54d22faead240fd0f39f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:01 +0000
Subject: [PATCH 024/103] fix: CLEAR, RUN and EXEC drop loops of variables and
 programs that are gone, CLEAR keeps MEM$

---
 source/interpreter/runner.c  |  2 ++
 source/subsystem/variables.c | 12 ++++++++++++
 2 files changed, 14 insertions(+)

diff --git a/source/interpreter/runner.c b/source/interpreter/runner.c
index 7111e48..a8c6206 100644
--- a/source/interpreter/runner.c
+++ b/source/interpreter/runner.c
@@ -631,6 +631,7 @@ void cmd_exec(struct ptc* p){
 	p->exec.data_index = 0;
 	p->exec.data_offset = 0;
 	p->exec.argcount = 0;
+	p->calls.stack_i = 0; // loops and calls of the previous program
 //	p->exec.prg = prog;
 	p->res.result = 1;
 }
@@ -645,6 +646,7 @@ void cmd_run(struct ptc* p){
 	p->exec.data_index = 0;
 	p->exec.data_offset = 0;
 	p->exec.argcount = 0;
+	p->calls.stack_i = 0; // loops and calls of the previous program
 }
 
 // For now this is a direct map of internal error codes.
diff --git a/source/subsystem/variables.c b/source/subsystem/variables.c
index 9a27cb3..21e5922 100644
--- a/source/subsystem/variables.c
+++ b/source/subsystem/variables.c
@@ -4,6 +4,18 @@ void cmd_clear(struct ptc* p){
 	reset_var(&p->vars);
 	reset_str(&p->strs);
 	reset_arr(&p->arrs);
+	// MEM$ keeps its value
+	if (p->res.mem_ptr != &p->res.mem_str && is_dyn_str(p->res.mem_ptr)){
+		((struct string*)p->res.mem_ptr)->uses++;
+	}
+	// loops that are active refer to variables that do not exist anymore
+	uint_fast16_t j = 0;
+	for (uint_fast16_t i = 0; i < p->calls.stack_i; ++i){
+		if (p->calls.entry[i].type != CALL_FOR){
+			p->calls.entry[j++] = p->calls.entry[i];
+		}
+	}
+	p->calls.stack_i = j;
 }
 
 void cmd_swap(struct ptc* p){
-- 
2.43.0


From e1d8924360cfcce7e500fbc8b23ff3c18c5fcc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:16 +0000
Subject: [PATCH 025/103] fix: loops that are skipped or left early do not
 affect other loops

---
 source/interpreter/flow.c   | 5 +++--
 source/interpreter/runner.c | 1 +
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/interpreter/flow.c b/source/interpreter/flow.c
index ccd9969..0d0aa07 100644
--- a/source/interpreter/flow.c
+++ b/source/interpreter/flow.c
@@ -139,8 +139,9 @@ void cmd_next(struct ptc* p){
 			p->calls.entry[i] = p->calls.entry[i+1];
 		}
 	} else {
-		// loop continues, jump back to this point
-		p->exec.index = to_start;
+		// loop continues: jump back to this point, past BC_BEGIN_LOOP
+		// (the condition was checked here, and this might not be the innermost loop)
+		p->exec.index = to_start + to_size + 2;
 	}
 	// NEXT should clear stack when done
 	p->stack.stack_i = 0;
diff --git a/source/interpreter/runner.c b/source/interpreter/runner.c
index a8c6206..17968b8 100644
--- a/source/interpreter/runner.c
+++ b/source/interpreter/runner.c
@@ -554,6 +554,7 @@ ITCM_CODE void _run(struct bytecode code, struct ptc* p, bool init_exec) {
 					}
 					// index now points to one past the NEXT, the correct location
 					r->index = result.index;
+					p->calls.stack_i--; // this loop is done
 				} else {
 					// execution continues as normal into the loop
 				}
-- 
2.43.0


From 077f07b5128f09d3899da2aa72ae6db403a12656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:18 +0000
Subject: [PATCH 026/103] fix: DATA at the end of an IF line keeps the end of
 the IF

---
 source/interpreter/tokens.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index f95d51c..2af5fad 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -1175,6 +1175,10 @@ int tok_eval(struct tokenizer* state){
 					// DATA terminates the line - everything after it is parsed differently
 					state->state = TKR_NONE; // Tell tokenizer to start new line
 					tok_eval_clean_stack(&e, 0); // DATA must go after expression, so prior command(s) execute
+					if (is_if){ // nothing can follow DATA
+						e.result[e.result_i++] = (struct token){.type=command, .cmd=CMD_ENDIF, .ofs=0, .prio=0};
+						is_if = false;
+					}
 					e.result[e.result_i++] = state->tokens[i]; // This marks the start of DATA for tok_code
 					break;
 				} else {
-- 
2.43.0


From 4d4aa7ede49933fec7eeb787ab334d8b0f0931ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:55 +0000
Subject: [PATCH 027/103] fix: REM keeps the end of the statement and of the IF
 on its line

---
 source/interpreter/tokens.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index 2af5fad..718b59d 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -990,7 +990,7 @@ int tok_code(struct tokenizer* state){
 				break;
 				
 			case comment:
-				goto tok_code_exit;
+				break; // only the end of the statement or IF can be after this
 				
 			default:
 				iprintf("Unknown token: ");
@@ -1000,7 +1000,6 @@ int tok_code(struct tokenizer* state){
 		}
 	}
 	
-tok_code_exit:
 	state->token_i = 0;
 	return ERR_NONE;
 }
-- 
2.43.0


From e98894914e1601e0f4bea6b124198a9d72d7689c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:02 +0000
Subject: [PATCH 028/103] fix: SORT orders two-element ranges and arrays that
 were not declared, splits ranges correctly

---
 source/subsystem/variables.c | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/source/subsystem/variables.c b/source/subsystem/variables.c
index 21e5922..309ca31 100644
--- a/source/subsystem/variables.c
+++ b/source/subsystem/variables.c
@@ -60,10 +60,6 @@ typedef bool(*comparison)(union value, union value);
 // based on
 // https://en.wikipedia.org/wiki/Quicksort?useskin=monobook#cite_ref-:2_13-2
 int _partition(union value* data, union value** extra, int start, int end, comparison comp){
-	if (end - start <= 1){
-		return start; // already sorted
-	}
-
 	union value pivot = data[start+(end - start)/2]; // select a random pivot
 	--start;
 	++end;
@@ -75,7 +71,7 @@ int _partition(union value* data, union value** extra, int start, int end, compa
 		do {
 			--end;
 		} while (comp(pivot, data[end]));
-		if (start >= end) return start;
+		if (start >= end) return end;
 
 		_sort_swap(data, extra, start, end);
 	}
@@ -120,13 +116,23 @@ bool str_rsort_comp(union value a, union value b){
 
 void quick_sort(union value* data, union value** extra, int start, int end, comparison comp){
 	// https://en.wikipedia.org/wiki/Quicksort?useskin=monobook#Hoare_partition_scheme
-	if (end - start <= 1) return;
+	// Note: end is inclusive
+	if (start >= end) return;
 
 	int p = _partition(data, extra, start, end, comp);
 	quick_sort(data, extra, start, p, comp);
 	quick_sort(data, extra, p + 1, end, comp);
 }
 
+/// Array of an argument. Like any other use, this creates an array that was not declared.
+static union value* sort_array(struct ptc* p, struct stack_entry* e){
+	union value* arr = e->value.ptr;
+	if (!arr->ptr){
+		get_arr_entry_via_ptr(&p->vars, arr, 0, ARR_DIM2_UNUSED, e->type & (VAR_STRING | VAR_NUMBER));
+	}
+	return arr->ptr;
+}
+
 /// @note Does not correctly handle permuting the same array as is being sorted!
 void _cmd_sort_shared(struct ptc* p, comparison comp){
 	int start;
@@ -136,7 +142,8 @@ void _cmd_sort_shared(struct ptc* p, comparison comp){
 		ERROR(ERR_SYNTAX); // 32 is max number of arrays
 	}
 	// SORT start, size, arr, [arr1, arr2, ...]
-	union value* data = *(void**)stack_get(&p->stack, 2)->value.ptr;
+	union value* data = sort_array(p, stack_get(&p->stack, 2));
+	if (!data) ERROR(ERR_OUT_OF_MEMORY);
 //	iprintf("%p\n", (void*)data);
 	int array_min_size = arr_size(data, ARR_DIM1);
 	// In concept this is fine but PTC doesn't allow it
@@ -144,7 +151,8 @@ void _cmd_sort_shared(struct ptc* p, comparison comp){
 		ERROR(ERR_SORT_2D);
 	}
 	for (int k = 3; k < p->stack.stack_i; ++k){
-		extra[k-3] = *(union value**)stack_get(&p->stack, k)->value.ptr;
+		extra[k-3] = sort_array(p, stack_get(&p->stack, k));
+		if (!extra[k-3]) ERROR(ERR_OUT_OF_MEMORY);
 		if ((int)arr_size(extra[k-3], ARR_DIM1) < array_min_size){
 			array_min_size = arr_size(extra[k-3], ARR_DIM1);
 		}
-- 
2.43.0


From 61efa1058c560d1fb9580856f3b9e1ff96737963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:06 +0000
Subject: [PATCH 029/103] fix: timed BGOFS reaches its target exactly

---
 source/subsystem/background.c | 11 +++++++++--
 source/subsystem/background.h |  3 +++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/source/subsystem/background.c b/source/subsystem/background.c
index 3517f7a..5618b14 100644
--- a/source/subsystem/background.c
+++ b/source/subsystem/background.c
@@ -32,6 +32,11 @@ void step_background(struct background* b){
 				bg->x += bg->step_x;
 				bg->y += bg->step_y;
 				bg->time--;
+				if (bg->time == 0){
+					// steps are rounded down, so the last one has to reach the target
+					bg->x = bg->target_x;
+					bg->y = bg->target_y;
+				}
 			}
 		}
 	}
@@ -186,8 +191,10 @@ void cmd_bgofs(struct ptc* p){
 	} else {
 		STACK_INT_MIN(3,0,time);
 		if (time){
-			b->step_x = (x - b->x) / time;
-			b->step_y = (y - b->y) / time;
+			b->step_x = ((dfixp)x - b->x) / time;
+			b->step_y = ((dfixp)y - b->y) / time;
+			b->target_x = x;
+			b->target_y = y;
 		} else {
 			b->x = x;
 			b->y = y;
diff --git a/source/subsystem/background.h b/source/subsystem/background.h
index 43eac72..cd66a98 100644
--- a/source/subsystem/background.h
+++ b/source/subsystem/background.h
@@ -32,6 +32,9 @@ struct background {
 		fixp step_x;
 		fixp step_y;
 		
+		fixp target_x;
+		fixp target_y;
+		
 		fixp time;
 	} ofs[SCREEN_COUNT][BG_LAYERS]; // index order: ofs[page][layer]
 	
-- 
2.43.0


From 10898364303f60490a358fdd5d29014d250332e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:08 +0000
Subject: [PATCH 030/103] fix: BGCOPY does not write outside of its layer

---
 source/subsystem/background.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/subsystem/background.c b/source/subsystem/background.c
index 5618b14..36d996c 100644
--- a/source/subsystem/background.c
+++ b/source/subsystem/background.c
@@ -300,6 +300,10 @@ void cmd_bgcopy(struct ptc* p){
 		y2 = temp;
 	}
 	
+	// clip the copied area so that its destination stays on the map
+	if (x2 - x1 > BG_WIDTH-1 - x3) { x2 = x1 + BG_WIDTH-1 - x3; }
+	if (y2 - y1 > BG_HEIGHT-1 - y3) { y2 = y1 + BG_HEIGHT-1 - y3; }
+	
 	// valid args: put tile
 	u16* bg = bg_page(p, p->background.page, layer);
 	
-- 
2.43.0


From bfbe26992bb0fab4717a3bb30e31327e20d1df80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:43 +0000
Subject: [PATCH 031/103] fix: SPPAGE, SPCLR and SPSET check their arguments

---
 source/subsystem/sprites.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/source/subsystem/sprites.c b/source/subsystem/sprites.c
index 931b0e3..92bcc67 100644
--- a/source/subsystem/sprites.c
+++ b/source/subsystem/sprites.c
@@ -197,15 +197,14 @@ int get_sprite_chr(struct sprite_info* s){
 }
 
 void cmd_sppage(struct ptc* p){
-	int page = STACK_INT(0);
-	
-	p->sprites.page = page;
+	STACK_INT_RANGE(0,0,1,p->sprites.page);
 }
 
 void cmd_spclr(struct ptc* p){
 	if (p->stack.stack_i == 1){
 		// SPCLR id
-		int index = STACK_INT(0);
+		int index;
+		STACK_INT_RANGE(0,0,99,index);
 		// disable sprite: no values matter if inactive
 		p->sprites.info[p->sprites.page][index].active = false;
 	} else {
@@ -216,12 +215,16 @@ void cmd_spclr(struct ptc* p){
 	}
 }
 
+static bool valid_sprite_size(int size){
+	return size == 8 || size == 16 || size == 32 || size == 64;
+}
+
 void cmd_spset(struct ptc* p){
 	int id;
 	int chr;
 	int pal;
 	STACK_INT_RANGE(0, 0, 99, id);
-	STACK_INT_RANGE(1, 0, (p->sprites.page ? 117 : 512), chr);
+	STACK_INT_RANGE(1, 0, (p->sprites.page ? 117 : 511), chr);
 	STACK_INT_RANGE(2, 0, 15, pal);
 	bool horiz_flip = STACK_INT(3) != 0;
 	bool vert_flip = STACK_INT(4) != 0;
@@ -231,9 +234,11 @@ void cmd_spset(struct ptc* p){
 	int height = 16;
 	if (p->stack.stack_i == 8){
 		// spset id,chr,pal,h,v,prio,w,h
-		// TODO:ERR:MED bounds checking
 		width = STACK_INT(6);
 		height = STACK_INT(7);
+		if (!valid_sprite_size(width) || !valid_sprite_size(height)){
+			ERROR(ERR_OUT_OF_RANGE);
+		}
 	}
 	// TODO:TEST:MED Validate that this initialization is correct
 	p->sprites.info[p->sprites.page][id] = init_sprite_info(id,chr,pal,horiz_flip,vert_flip,prio,width,height);
-- 
2.43.0


From 5a58cd53c86425fb78d9b16048eb403a277204ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:45 +0000
Subject: [PATCH 032/103] fix: the end of an animation does not delay other
 sprites, SPREAD returns the character

---
 source/subsystem/sprites.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/subsystem/sprites.c b/source/subsystem/sprites.c
index 92bcc67..aea0e31 100644
--- a/source/subsystem/sprites.c
+++ b/source/subsystem/sprites.c
@@ -70,9 +70,9 @@ void step_sprites(struct sprites* s){
 						if (!spr->anim.loop_forever && spr->anim.loop == 0){ //all loops complete
 							spr->anim.current_chr -= chr_step;
 							//no more animation; frame remains last frame
-							break;
+						} else {
+							spr->anim.current_chr = spr->chr;
 						}
-						spr->anim.current_chr = spr->chr;
 					}
 				}
 			}
@@ -563,7 +563,7 @@ void cmd_spread(struct ptc* p){
 	}
 	if (p->stack.stack_i == 6){
 		fixp* c = (fixp*)ARG(5)->value.ptr;
-		*c = s->chr;
+		*c = INT_TO_FP(s->chr);
 	}
 }
 
-- 
2.43.0


From c817e4799faccce201d59983b64def6325b6d710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:48 +0000
Subject: [PATCH 033/103] fix: timed sprite moves, rotations and scalings reach
 their target after the given time

---
 source/subsystem/sprites.c | 50 ++++++++++++++++++++++----------------
 source/subsystem/sprites.h | 11 +++++++--
 2 files changed, 38 insertions(+), 23 deletions(-)

diff --git a/source/subsystem/sprites.c b/source/subsystem/sprites.c
index aea0e31..1451b92 100644
--- a/source/subsystem/sprites.c
+++ b/source/subsystem/sprites.c
@@ -17,11 +17,11 @@ struct sprite_info init_sprite_info(int id,int chr,int pal,bool horiz,bool vert,
 		id,chr,pal,w,h,prio,horiz,vert,
 		0,0,
 		{ // position
-			0,0,0,0,-1
+			0,0,0,0,-1,0,0
 		},{ // scale
-			INT_TO_FP(1),0,0
+			INT_TO_FP(1),0,-1,0
 		},{ // angle
-			0,0,0
+			0,0,-1,0
 		},{ // collision
 			0,0,0,0,INT_TO_FP(w),INT_TO_FP(h),false,0xff
 		},{ // animation
@@ -42,16 +42,22 @@ void step_sprites(struct sprites* s){
 			if (spr->scale.time >= 0){
 				spr->scale.s += spr->scale.ds;
 				spr->scale.time--;
+				// steps are rounded, so the last one has to reach the target
+				if (spr->scale.time < 0) spr->scale.s = spr->scale.target;
 			}
 			if (spr->angle.time >= 0){
-				// TODO:IMPL:MED interpolation direction?
-				spr->angle.a += spr->angle.da % INT_TO_FP(360);
+				spr->angle.a += spr->angle.da;
 				spr->angle.time--;
+				if (spr->angle.time < 0) spr->angle.a = spr->angle.target;
 			}
 			if (spr->pos.time >= 0){
 				spr->pos.x += spr->pos.dx;
 				spr->pos.y += spr->pos.dy;
 				spr->pos.time--;
+				if (spr->pos.time < 0){
+					spr->pos.x = spr->pos.target_x;
+					spr->pos.y = spr->pos.target_y;
+				}
 			}
 			// TODO:PERF:NONE Check if this is slow.
 			if (spr->anim.loop_forever || spr->anim.loop > 0){
@@ -264,8 +270,10 @@ void cmd_spofs(struct ptc* p){
 		STACK_INT_MIN(3,0,time);
 //		iprintf("x=%d y=%d t=%d\n", x, y, time);
 		if (time){
-			s->pos.dx = (x - s->pos.x) / time;
-			s->pos.dy = (y - s->pos.y) / time;
+			s->pos.dx = ((dfixp)x - s->pos.x) / time;
+			s->pos.dy = ((dfixp)y - s->pos.y) / time;
+			s->pos.target_x = x;
+			s->pos.target_y = y;
 //			iprintf("dx=%d dy=%d\n", s->pos.dx, s->pos.dy);
 			s->pos.time = time - 1;
 		} else {
@@ -385,22 +393,21 @@ void cmd_spscale(struct ptc* p){
 	int id, scale, time;
 	STACK_INT_RANGE(0,0,31,id);
 	STACK_INT_RANGE(1,0,200,scale);
-	time = p->stack.stack_i == 3 ? STACK_NUM(2) : 0;
-	if (time < 0){
-		ERROR(ERR_OUT_OF_RANGE);
+	time = 0;
+	if (p->stack.stack_i == 3){
+		STACK_INT_MIN(2,0,time);
 	}
 	struct sprite_info* s = &p->sprites.info[p->sprites.page][id];
 	if (!s->active){
 		ERROR(ERR_ILLEGAL_FUNCTION_CALL);
 	}
-	if (p->stack.stack_i == 2){
+	if (time == 0){
 		s->scale.s = INT_TO_FP(scale)/100;
-		s->scale.time = -1;
 	} else {
-		STACK_INT_MIN(2,0,time);
-		s->scale.ds = ((INT_TO_FP(scale)/100) - s->scale.s) / time;
-		s->scale.time = time ? time : -1;
+		s->scale.target = INT_TO_FP(scale)/100;
+		s->scale.ds = (s->scale.target - s->scale.s) / time;
 	}
+	s->scale.time = time - 1;
 }
 
 void func_sphit(struct ptc* p){
@@ -484,20 +491,21 @@ void cmd_spangle(struct ptc* p){
 			}
 		}
 		
-		struct sprite_info* s = &p->sprites.info[p->sprites.page][id];
-//		s->angle.a = ;
 		if (time){
+			fixp diff = (INT_TO_FP(angle) - s->angle.a) % INT_TO_FP(360);
 			if (dir < 0){
 				// 45 -> 90 step 45/time
-				s->angle.da = (INT_TO_FP(angle) - s->angle.a) / time;
+				if (diff < 0) diff += INT_TO_FP(360);
 			} else {
-				// 45 -> 90 step 315/time
-				s->angle.da = (s->angle.a - INT_TO_FP(angle)) / time;
+				// 45 -> 90 step -315/time
+				if (diff > 0) diff -= INT_TO_FP(360);
 			}
+			s->angle.da = diff / time;
+			s->angle.target = INT_TO_FP(angle);
 		} else {
 			s->angle.a = INT_TO_FP(angle);
 		}
-		s->angle.time = time ? time : -1;
+		s->angle.time = time - 1;
 	}
 }
 
diff --git a/source/subsystem/sprites.h b/source/subsystem/sprites.h
index a0975ef..ffbab9b 100644
--- a/source/subsystem/sprites.h
+++ b/source/subsystem/sprites.h
@@ -54,6 +54,9 @@ struct sprites {
 			/// Remaining time to move sprite (frames)
 			/// If -1, sprite is done moving.
 			int time;
+			/// Position at the end of the move (pixels)
+			fixp target_x;
+			fixp target_y;
 		} pos;
 		
 		/// Struct for sprite scaling.
@@ -63,8 +66,10 @@ struct sprites {
 			/// Change in scale over time (step/frame)
 			fixp ds;
 			/// Remaining time to scale sprite (frames)
-			/// If 0, sprite is done resizing.
+			/// If -1, sprite is done resizing.
 			int time;
+			/// Scale at the end of the resizing
+			fixp target;
 		} scale;
 		
 		/// Struct for sprite rotation
@@ -74,8 +79,10 @@ struct sprites {
 			/// Change in angle (degrees/frame)
 			fixp da;
 			/// Remaining time rotate sprite (frames)
-			/// If 0, sprite is done rotating.
+			/// If -1, sprite is done rotating.
 			int time;
+			/// Angle at the end of the rotation (degrees)
+			fixp target;
 		} angle;
 		
 		/// Struct for sprite collision detection.
-- 
2.43.0


From 79e51b20856a4dc3ef1e60c533c2cb218e765758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:15 +0000
Subject: [PATCH 034/103] fix: SPCHR changes the displayed character after
 SPANIM, SPANIM needs at least one character and frame

---
 source/subsystem/sprites.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/source/subsystem/sprites.c b/source/subsystem/sprites.c
index 1451b92..8fe5ae9 100644
--- a/source/subsystem/sprites.c
+++ b/source/subsystem/sprites.c
@@ -509,6 +509,16 @@ void cmd_spangle(struct ptc* p){
 	}
 }
 
+// A running animation continues with the new character as its first
+static void set_sprite_chr(struct sprite_info* s, int chr){
+	if (s->anim.loop_forever || s->anim.loop > 0){
+		s->anim.current_chr += chr - s->chr;
+	} else {
+		s->anim.current_chr = -1;
+	}
+	s->chr = chr;
+}
+
 void cmd_spchr(struct ptc* p){
 	int id, chr;
 	STACK_INT_RANGE(0,0,99,id);
@@ -516,7 +526,7 @@ void cmd_spchr(struct ptc* p){
 	STACK_INT_RANGE(1,0,(p->sprites.page ? 117 : 511),chr);
 	if (p->stack.stack_i == 2){
 		// SPCHR id, chr
-		s->chr = chr;
+		set_sprite_chr(s, chr);
 	} else {
 		// SPCHR id, chr, pal, h, v, prio
 		int pal, prio;
@@ -526,7 +536,7 @@ void cmd_spchr(struct ptc* p){
 		STACK_INT_RANGE(4,0,1,v);
 		STACK_INT_RANGE(5,0,3,prio);
 		
-		s->chr = chr;
+		set_sprite_chr(s, chr);
 		s->pal = pal;
 		s->flip_x = h;
 		s->flip_y = v;
@@ -580,8 +590,8 @@ void cmd_spanim(struct ptc* p){
 	int id, chrs, time;
 	// TODO:ERR:LOW Determine errors
 	STACK_INT_RANGE(0,0,99,id);
-	STACK_INT_MIN(1,0,chrs);
-	STACK_INT_MIN(2,0,time);
+	STACK_INT_MIN(1,1,chrs);
+	STACK_INT_MIN(2,1,time);
 	
 	struct sprite_info* s = &p->sprites.info[p->sprites.page][id];
 	s->anim.chrs = chrs;
-- 
2.43.0


From a96b2f64560e7b249cda78fa99741dd7547452c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:17 +0000
Subject: [PATCH 035/103] fix: collisions follow the sprite's scale only when
 SPCOL asked for it

---
 source/subsystem/sprites.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/source/subsystem/sprites.c b/source/subsystem/sprites.c
index 8fe5ae9..e2db7b0 100644
--- a/source/subsystem/sprites.c
+++ b/source/subsystem/sprites.c
@@ -125,10 +125,11 @@ bool is_hit(struct sprite_info* a, struct sprite_info* b){
 	// with only trivial vectors
 
 	// TODO:TEST:MED Verify adjustment for scale flag is correct
-	fixp ahx = ((dfixp)a->hit.x * a->scale.s) >> FIXPOINT;
-	fixp ahy = ((dfixp)a->hit.y * a->scale.s) >> FIXPOINT;
-	fixp ahxw = (((dfixp)a->hit.x + a->hit.w) * a->scale.s) >> FIXPOINT;
-	fixp ahyh = (((dfixp)a->hit.y + a->hit.h) * a->scale.s) >> FIXPOINT;
+	fixp as = a->hit.scale_adjust ? a->scale.s : FIXP_1;
+	fixp ahx = ((dfixp)a->hit.x * as) >> FIXPOINT;
+	fixp ahy = ((dfixp)a->hit.y * as) >> FIXPOINT;
+	fixp ahxw = (((dfixp)a->hit.x + a->hit.w) * as) >> FIXPOINT;
+	fixp ahyh = (((dfixp)a->hit.y + a->hit.h) * as) >> FIXPOINT;
 
 	fixp a_verts[8][2] = {
 		// vertices of a
@@ -143,10 +144,11 @@ bool is_hit(struct sprite_info* a, struct sprite_info* b){
 		{a->pos.x + ahx + normals[2][1],  a->pos.y + ahyh - normals[2][0]},
 	};
 	
-	fixp bhx = ((dfixp)b->hit.x * b->scale.s) >> FIXPOINT;
-	fixp bhy = ((dfixp)b->hit.y * b->scale.s) >> FIXPOINT;
-	fixp bhxw = (((dfixp)b->hit.x + b->hit.w) * b->scale.s) >> FIXPOINT;
-	fixp bhyh = (((dfixp)b->hit.y + b->hit.h) * b->scale.s) >> FIXPOINT;
+	fixp bs = b->hit.scale_adjust ? b->scale.s : FIXP_1;
+	fixp bhx = ((dfixp)b->hit.x * bs) >> FIXPOINT;
+	fixp bhy = ((dfixp)b->hit.y * bs) >> FIXPOINT;
+	fixp bhxw = (((dfixp)b->hit.x + b->hit.w) * bs) >> FIXPOINT;
+	fixp bhyh = (((dfixp)b->hit.y + b->hit.h) * bs) >> FIXPOINT;
 
 	fixp b_verts[4][2] = {
 		{b->pos.x + bhx,  b->pos.y + bhy},
-- 
2.43.0


From 9efb0fb8d07d71375c2338d0d8ccf074d0aadd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:20 +0000
Subject: [PATCH 036/103] fix: a sprite that does not move any more has no
 velocity for collisions

---
 source/subsystem/sprites.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/subsystem/sprites.c b/source/subsystem/sprites.c
index e2db7b0..8ff894d 100644
--- a/source/subsystem/sprites.c
+++ b/source/subsystem/sprites.c
@@ -57,6 +57,8 @@ void step_sprites(struct sprites* s){
 				if (spr->pos.time < 0){
 					spr->pos.x = spr->pos.target_x;
 					spr->pos.y = spr->pos.target_y;
+					spr->pos.dx = 0;
+					spr->pos.dy = 0;
 				}
 			}
 			// TODO:PERF:NONE Check if this is slow.
@@ -267,6 +269,8 @@ void cmd_spofs(struct ptc* p){
 		// spofs id,x,y
 		s->pos.x = x;
 		s->pos.y = y;
+		s->pos.dx = 0;
+		s->pos.dy = 0;
 		s->pos.time = -1;
 	} else {
 		STACK_INT_MIN(3,0,time);
@@ -281,6 +285,8 @@ void cmd_spofs(struct ptc* p){
 		} else {
 			s->pos.x = x;
 			s->pos.y = y;
+			s->pos.dx = 0;
+			s->pos.dy = 0;
 			s->pos.time = -1;
 		}
 	}
-- 
2.43.0


From 77a15eedd706987f69436fac4f91e78ca9ea73cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:30 +0000
Subject: [PATCH 037/103] fix: COLINIT with a color index

---
 source/subsystem/resources.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/source/subsystem/resources.c b/source/subsystem/resources.c
index 64493b1..948ebbf 100644
--- a/source/subsystem/resources.c
+++ b/source/subsystem/resources.c
@@ -990,6 +990,9 @@ void cmd_colinit(struct ptc* p){
 	} else {
 		// COLINIT resource
 		void* res_str = value_str(ARG(0));
+		u8* col_data = get_col_resource(p, res_str);
+		if (!col_data) return; // not BG, SP or GRP
+
 		char id = str_at_char(res_str, 0);
 		if (id == 'B') id = '0';
 		if (id == 'S') id = '1';
@@ -998,18 +1001,17 @@ void cmd_colinit(struct ptc* p){
 		char name[] = "COLX";
 		name[3] = id;
 
-		u8* col_data = get_col_resource(p, res_str);
-		if (!col_data) return; // TODO:ERR:LOW can this happen?
 
 		if (p->stack.stack_i == 1){
 			load_col(col_data, resource_path, name);
 		} else {
 			static_assert(LITTLE_ENDIAN, "load from file requires this");
 			u16 from_file[256]; // TODO:PERF:LOW loading entire file is slow, store it in-mem?
-			load_col((u8*)from_file, resource_path, name);
-
 			int index;
-			STACK_INT_RANGE(2,0,255,index);
+			STACK_INT_RANGE(1,0,255,index);
+			if (!load_col((u8*)from_file, resource_path, name)){
+				ERROR(ERR_FILE_LOAD_FAILED);
+			}
 			((u16*)col_data)[index] = from_file[index];
 		}
 	}
-- 
2.43.0


From 382bb79a4566e29b6ac454027c51ec7973bb6364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:49 +0000
Subject: [PATCH 038/103] fix: CHRSET rejects characters that are not
 hexadecimal digits

---
 source/subsystem/resources.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/subsystem/resources.c b/source/subsystem/resources.c
index 948ebbf..db202dc 100644
--- a/source/subsystem/resources.c
+++ b/source/subsystem/resources.c
@@ -953,9 +953,9 @@ void cmd_chrset(struct ptc* p){
 
 		// convert string to data
 		for (int i = 0; i < 32; ++i){
-			u8 ul = digit_value(str_at_wide(data, 2*i));
-			u8 uh = digit_value(str_at_wide(data, 2*i+1));
-			if (ul > 16 || uh > 16){ // out of valid range
+			int ul = digit_value(str_at_wide(data, 2*i));
+			int uh = digit_value(str_at_wide(data, 2*i+1));
+			if (ul < 0 || uh < 0){ // not a hexadecimal digit
 				ERROR(ERR_ILLEGAL_FUNCTION_CALL);
 			}
 			u8 unit = (uh << 4) | ul;
-- 
2.43.0


From 9ec29c26be0d96c435bbd18393ff360d3c7cb542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:51 +0000
Subject: [PATCH 039/103] fix: compression stays inside its buffers,
 uncompressed data can be decompressed

---
 source/extension/compress.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/source/extension/compress.c b/source/extension/compress.c
index 2ba6ccf..3741b33 100644
--- a/source/extension/compress.c
+++ b/source/extension/compress.c
@@ -26,7 +26,9 @@ void sbc_write_bits(unsigned char* output_data, int* output_index, int value, in
 	int value_high = value >> 8;
 	int value_low = value & 0xff;
 	output_data[*output_index / 8 + 0] |= value_high;
-	output_data[*output_index / 8 + 1] |= value_low;
+	if (*output_index % 8 + bits > 8){
+		output_data[*output_index / 8 + 1] |= value_low;
+	}
 	*output_index += bits;
 }
 
@@ -57,6 +59,10 @@ int sbc_compress(const unsigned char* const source_data, unsigned char* output_d
 		int unit = source_data[source_index];
 		++source_index;
 		int cache_index = sbc_cache_search(unit, cache, cache_maximum);
+		if (output_index + 1 + (cache_index > -1 ? cache_size : unit_size) > 8 * source_size){
+			// No room left in output: did not compress better than source
+			return -1;
+		}
 		if (cache_index > -1){
 			// Found a previous value
 			sbc_write_bit(output_data, &output_index, 0);
@@ -99,6 +105,7 @@ struct sbc_compression_result sbc_optimal_compress(const unsigned char* const so
 
 int sbc_read_bits(const unsigned char* const source_data, int* bit_index, int bits){
 	assert(bits <= 8);
+	if (bits == 0) return 0; // nothing to read, might be at the end of the data
 	int byte_index = *bit_index / 8;
 	int bit = *bit_index % 8;
 	*bit_index += bits;
@@ -124,6 +131,11 @@ int sbc_read_bits(const unsigned char* const source_data, int* bit_index, int bi
 // if compressed is placed at end of destination range,
 // decompression should only overwrite bytes that have already been read
 unsigned char* sbc_decompress(const unsigned char* const source_data, unsigned char* dest, int decompressed_size, int cache_bits){
+	if (cache_bits == -1){
+		// Data was not compressed
+		memmove(dest, source_data, decompressed_size);
+		return dest;
+	}
 	// Cache info
 	unsigned char cache[128] = {0};
 	const int cache_maximum = 1 << cache_bits;
-- 
2.43.0


From b7f42b431041c2fc0be918167bdf300b79d29b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:16 +0000
Subject: [PATCH 040/103] fix: truncated and malformed resource files are
 reported and change nothing

---
 source/subsystem/resources.c | 63 +++++++++++++++++++++++-------------
 1 file changed, 40 insertions(+), 23 deletions(-)

diff --git a/source/subsystem/resources.c b/source/subsystem/resources.c
index db202dc..0ae3bf9 100644
--- a/source/subsystem/resources.c
+++ b/source/subsystem/resources.c
@@ -328,6 +328,17 @@ int check_load_res(u8* dest, const char* search_path, const char* name, int type
 	FILE_ERROR("Unknown resource type");
 }
 
+// Reads exactly `size` bytes from the current position.
+// If the file ends earlier, then nothing is read.
+static int read_exactly(FILE* f, u8* dest, int size){
+	long start = ftell(f);
+	if (start < 0 || fseek(f, 0, SEEK_END)) return 0;
+	long end = ftell(f);
+	if (end < start || end - start < size) return 0;
+	if (fseek(f, start, SEEK_SET)) return 0;
+	return fread(dest, sizeof(u8), size, f);
+}
+
 // Checks the file type and loads the correct data from the file.
 // Note: path, name must be null-terminated
 int check_load_file(u8* dest, const char* search_path, const char* name, int size){
@@ -351,48 +362,54 @@ int check_load_file(u8* dest, const char* search_path, const char* name, int siz
 			FILE_CLOSE("Failed to seek past header");
 		}
 
-		size_read = fread(dest, sizeof(u8), size, f);
+		size_read = read_exactly(f, dest, size);
 		CHECK_FILE_ERROR("Failed to read file");
+		if (size_read < size){
+			FILE_CLOSE("Could not read complete file");
+		}
 		FILE_OK();
 	} else if (!strncmp(check_type, "PETC", 4)){
 		// Petit Computer internal file format: skip type
 		if (fseek(f, 12, SEEK_SET)){
 			FILE_CLOSE("Failed to seek past type");
 		}
-		size_read = fread(dest, sizeof(u8), size, f);
+		size_read = read_exactly(f, dest, size);
 		CHECK_FILE_ERROR("Failed to read file");
+		if (size_read < size){
+			FILE_CLOSE("Could not read complete file");
+		}
 		FILE_OK();
 	} else if (!strncmp(check_type, "SBCC", 4)){
 		// SBC compressed format (something a bit more inventive)
 		if (fseek(f, 4, SEEK_SET)){
 			FILE_CLOSE("Failed to seek past file type id");
 		}
-		u8 header[4];
-		fread(header, sizeof(u8), 4, f);
+		u8 header[4] = {0};
+		size_read = fread(header, sizeof(u8), 4, f);
 		CHECK_FILE_ERROR("Failed to read header");
-
-		// Determine size of file
-		if (fseek(f, 0, SEEK_END)){
-			FILE_CLOSE("Failed to seek to end of file");
-		}
-		int file_size = ftell(f);
-		if (file_size < 0){
-			FILE_CLOSE("Failed to determine file size");
+		if (size_read < 4){
+			FILE_CLOSE("Could not read full header");
 		}
-		rewind(f); // resets errors apparently
 
-		// Use destination as temporary storage
-		// causes brief artifacting but requires zero extra memory
-		u8* compressed = dest + size - file_size; // places file at end of destination
-		size_read = fread(compressed, sizeof(u8), file_size, f);
-		CHECK_FILE_ERROR("Failed to read file");
-		compressed += 8; // skip header
-
-		int bits = header[0];
+		int bits = (s8)header[0]; // -1 means stored without compression
 		int expected_size = header[1] | (header[2] << 8) | (header[3] << 16);
-		(void)expected_size; // for when assert fails
-		assert(expected_size == size); // request == expected
+		if (bits < -1 || bits > 7 || expected_size != size){
+			FILE_CLOSE("Compressed file does not match the resource");
+		}
+
+		// Each byte needs at most 9 bits, extra bytes are zero
+		int compressed_size = size + size / 8 + 1;
+		u8* compressed = calloc_log("check_load_file", 1, compressed_size);
+		if (!compressed){
+			FILE_CLOSE("Not enough memory to load compressed file");
+		}
+		size_read = fread(compressed, sizeof(u8), compressed_size, f);
+		if (ferror(f) || !size_read){
+			free_log("check_load_file", compressed);
+			FILE_CLOSE("Failed to read file");
+		}
 		sbc_decompress(compressed, dest, size, bits);
+		free_log("check_load_file", compressed);
 
 		FILE_OK();
 	} else {
-- 
2.43.0


From 5591ba897ceb1df4c1be75d521ec58c16f4cf337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:18 +0000
Subject: [PATCH 041/103] fix: LOAD checks the type of the file and the length
 of MEM

---
 source/subsystem/resources.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/source/subsystem/resources.c b/source/subsystem/resources.c
index 0ae3bf9..14a2e49 100644
--- a/source/subsystem/resources.c
+++ b/source/subsystem/resources.c
@@ -202,7 +202,7 @@ bool verify_file_type(const char* path, const int type){
 	if (!f){
 		FILE_ERROR("Failed to load file");
 	}
-	char check_type[4];
+	char check_type[4] = {0};
 	fread(check_type, sizeof(char), 4, f);
 	CHECK_FILE_ERROR("Failed to read file magic ID");
 	fseek(f, 0, SEEK_SET);
@@ -311,7 +311,16 @@ int check_save_res(void* src, const char* search_path, const char* name, int typ
 	}
 }
 
-// TODO:ERR:LOW Add file type validation
+// Checks that a file is in the compressed format (which stores no type)
+static bool is_compressed_file(const char* path){
+	FILE* f = fopen(path, "rb");
+	if (!f) return false;
+	char magic[4] = {0};
+	fread(magic, sizeof(char), 4, f);
+	fclose(f);
+	return !strncmp(magic, "SBCC", 4);
+}
+
 int check_load_res(u8* dest, const char* search_path, const char* name, int type){
 	char path[MAX_FILEPATH_LENGTH+1] = {0};
 	if (!create_path(path, search_path, name, ".PTC")){
@@ -320,9 +329,10 @@ int check_load_res(u8* dest, const char* search_path, const char* name, int type
 
 	if (type == TYPE_PRG){
 		return load_program((struct ptc*)dest, search_path, name);
-	} else if (type == TYPE_MEM){
-		return check_load_file(dest, search_path, name, resource_size[type]);
 	} else if (type >= TYPE_CHR && type <= TYPE_COL){
+		if (!is_compressed_file(path) && !verify_file_type(path, type)){
+			FILE_ERROR("File is not of the expected type");
+		}
 		return check_load_file(dest, search_path, name, resource_size[type]);
 	}
 	FILE_ERROR("Unknown resource type");
@@ -866,6 +876,7 @@ void cmd_load(struct ptc* p){
 
 		case TYPE_MEM:;
 			assert(LITTLE_ENDIAN);
+			if (p->res.mem.size > MAX_STRLEN) p->res.mem.size = MAX_STRLEN;
 			p->res.mem_str.len = p->res.mem.size;
 			break;
 
-- 
2.43.0


From a47f1ee1caa11f86b34bde9392476e42e0c069c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:46 +0000
Subject: [PATCH 042/103] fix: programs that are too large, truncated or of
 another type are not loaded

---
 source/subsystem/resources.c | 148 +++++++++++++++++++++++------------
 1 file changed, 98 insertions(+), 50 deletions(-)

diff --git a/source/subsystem/resources.c b/source/subsystem/resources.c
index 14a2e49..58e0fb4 100644
--- a/source/subsystem/resources.c
+++ b/source/subsystem/resources.c
@@ -76,6 +76,74 @@ const char package_resources[] =
 // bit 44
 ;
 
+// Reads exactly `size` bytes from the current position.
+// If the file ends earlier, then nothing is read.
+static int read_exactly(FILE* f, u8* dest, int size){
+	long start = ftell(f);
+	if (start < 0 || fseek(f, 0, SEEK_END)) return 0;
+	long end = ftell(f);
+	if (end < start || end - start < size) return 0;
+	if (fseek(f, start, SEEK_SET)) return 0;
+	return fread(dest, sizeof(u8), size, f);
+}
+
+/// Loads the resources that follow a program in its file.
+///
+/// @param package Bits of resources to load
+/// @param check Only check that the resources can be loaded
+/// @return true if all resources are valid
+static bool load_package(struct ptc* p, FILE* f, uint64_t package, bool check){
+	for (uint_fast8_t i = 0; i < PACKAGE_STR_BIN_DIGITS; ++i){
+		// Check if resource needs to be loaded
+		if (!(package & ((uint64_t)1<<i))) continue;
+		// Create resource type as SBC string
+		char resource[2+MAX_RESOURCE_TYPE_LENGTH+1] = {BC_STRING, 0};
+		strncpy(resource + 2, package_resources + MAX_RESOURCE_TYPE_LENGTH * i, MAX_RESOURCE_TYPE_LENGTH);
+		resource[1] = strlen(resource + 2);
+		iprintf("res: %d,%d, %.*s", i, resource[1], resource[1], resource+2);
+		// Get destination for this resource index
+		struct res_info info = get_verified_resource_type(p, resource);
+		// Check type string matches
+		char type_str[HEADER_TYPE_STR_SIZE];
+		int read = fread(type_str, sizeof(char), HEADER_TYPE_STR_SIZE, f);
+		if (read != HEADER_TYPE_STR_SIZE){
+			iprintf("Failed to skip type string\n");
+			return false;
+		}
+		iprintf("%d,%12s\n", info.type_id, type_str);
+		if (strncmp(type_str, internal_type_str[info.type_id], HEADER_TYPE_STR_SIZE)){
+			iprintf("Internal type string does not match expected type\n");
+			return false;
+		}
+		if (check){
+			// Check that resource is complete
+			long pos = ftell(f);
+			fseek(f, 0, SEEK_END);
+			if (ftell(f) - pos < resource_size[info.type_id]){
+				return false;
+			}
+			fseek(f, pos + resource_size[info.type_id], SEEK_SET);
+			continue;
+		}
+		// Load resource
+		read = fread(info.data, sizeof(u8), resource_size[info.type_id], f);
+		if (read != resource_size[info.type_id]){
+			iprintf("Could not read complete resource\n");
+			return false;
+		}
+		// Mark as needing refresh
+		if (info.type_id == TYPE_CHR){
+			p->res.regen_chr[get_chr_index(p, info.type)] = true;
+		} else if (info.type_id == TYPE_COL){
+			p->res.regen_col = true;
+		} else if (info.type_id == TYPE_MEM){
+			if (p->res.mem.size > MAX_STRLEN) p->res.mem.size = MAX_STRLEN;
+			p->res.mem_str.len = p->res.mem.size;
+		}
+	}
+	return true;
+}
+
 int load_program(struct ptc* p, const char* search_path, const char* name){
 	int size_read;
 	char path[MAX_FILEPATH_LENGTH+1] = {0};
@@ -87,7 +155,7 @@ int load_program(struct ptc* p, const char* search_path, const char* name){
 	if (!f){
 		FILE_ERROR("Failed to load file");
 	}
-	struct ptc_header h;
+	struct ptc_header h = {0};
 	fread(h.magic, sizeof(char), 4, f);
 	CHECK_FILE_ERROR("Failed to read file magic ID");
 	fseek(f, 0, SEEK_SET);
@@ -110,21 +178,42 @@ int load_program(struct ptc* p, const char* search_path, const char* name){
 		if (size_read < internal_header_size){
 			FILE_CLOSE("Could not read complete program header");
 		}
+		// internal format does not contain the name
+		strncpy(h.name, name, PRGNAME_STR_LENGTH);
 	} else {
 		FILE_CLOSE("Unknown PRG file format");
 	}
+	// version number (PETC0100, PETC0300) is not checked
+	if (strncmp(h.type_str, "PETC", 4) || strncmp(h.type_str + 8, "RPRG", 4)){
+		FILE_CLOSE("Not a program file");
+	}
+	if (h.prg_size > MAX_SOURCE_SIZE){
+		FILE_CLOSE("Program is too large");
+	}
+
+	// Check packages as specified by package bits, before changing anything
+	uint64_t package = (((uint64_t)h.package_high) << 32) | h.package_low;
+	long program_start = ftell(f);
+	// 4 -> +0
+	// 1 -> +3
+	// 2 -> +2
+	// 3 -> +1
+	long package_start = program_start + h.prg_size + "\0\3\2\1"[h.prg_size & 3];
+	fseek(f, package_start, SEEK_SET);
+	CHECK_FILE_ERROR("Could not seek past program");
+	if (!load_package(p, f, package, true)){
+		FILE_CLOSE("Could not load package");
+	}
 
 	// Read program data
-	size_read = fread(get_resource_ptr(p, "PRG"), sizeof(u8), h.prg_size, f);
+	fseek(f, program_start, SEEK_SET);
+	CHECK_FILE_ERROR("Could not seek to program");
+	size_read = read_exactly(f, get_resource_ptr(p, "PRG"), h.prg_size);
 	if (size_read < (int)h.prg_size){
 		FILE_CLOSE("Could not read complete program");
 	}
 	p->exec.prg.size = size_read;
-	// 4 -> +0
-	// 1 -> +3
-	// 2 -> +2
-	// 3 -> +1
-	fseek(f, "\0\3\2\1"[h.prg_size & 3], SEEK_CUR);
+	fseek(f, package_start, SEEK_SET);
 	CHECK_FILE_ERROR("Could not seek past program");
 
 	// Copy loaded program name
@@ -132,7 +221,6 @@ int load_program(struct ptc* p, const char* search_path, const char* name){
 	strncpy(p->res.prgname, h.name, PRGNAME_STR_LENGTH);
 
 	// Read packages as specified by package bits
-	uint64_t package = (((uint64_t)h.package_high) << 32) | h.package_low;
 	// Build package string
 	for (uint_fast8_t i = 0; i < PACKAGE_STR_LENGTH; ++i){
 		p->res.package[PACKAGE_STR_LENGTH - i - 1] = hex_digits[(package & (((uint64_t)0xf) << (i * 4))) >> (i * 4)];
@@ -140,37 +228,8 @@ int load_program(struct ptc* p, const char* search_path, const char* name){
 //	iprintf("Package bitmask: %lx ", package);
 	iprintf("string: %s\n", p->res.package);
 
-	for (uint_fast8_t i = 0; i < PACKAGE_STR_BIN_DIGITS; ++i){
-		// Check if resource needs to be loaded
-		if (!(package & ((uint64_t)1<<i))) continue;
-		// Create resource type as SBC string
-		char resource[2+MAX_RESOURCE_TYPE_LENGTH+1] = {BC_STRING, 0};
-		strncpy(resource + 2, package_resources + MAX_RESOURCE_TYPE_LENGTH * i, MAX_RESOURCE_TYPE_LENGTH);
-		resource[1] = strlen(resource + 2);
-		iprintf("res: %d,%d, %.*s", i, resource[1], resource[1], resource+2);
-		// Get destination for this resource index
-		struct res_info info = get_verified_resource_type(p, resource);
-		// Check type string matches
-		char type_str[HEADER_TYPE_STR_SIZE];
-		int read = fread(type_str, sizeof(char), HEADER_TYPE_STR_SIZE, f);
-		if (read != HEADER_TYPE_STR_SIZE){
-			FILE_CLOSE("Failed to skip type string");
-		}
-		iprintf("%d,%12s\n", info.type_id, type_str);
-		if (strncmp(type_str, internal_type_str[info.type_id], HEADER_TYPE_STR_SIZE)){
-			FILE_CLOSE("Internal type string does not match expected type");
-		}
-		// Load resource
-		read = fread(info.data, sizeof(u8), resource_size[info.type_id], f);
-		if (read != resource_size[info.type_id]){
-			FILE_CLOSE("Could not read complete resource");
-		}
-		// Mark as needing refresh
-		if (info.type_id == TYPE_CHR){
-			p->res.regen_chr[get_chr_index(p, info.type)] = true;
-		} else if (info.type_id == TYPE_COL){
-			p->res.regen_col = true;
-		}
+	if (!load_package(p, f, package, false)){
+		FILE_CLOSE("Could not load package");
 	}
 
 	// This returns the size of the read program data.
@@ -338,17 +397,6 @@ int check_load_res(u8* dest, const char* search_path, const char* name, int type
 	FILE_ERROR("Unknown resource type");
 }
 
-// Reads exactly `size` bytes from the current position.
-// If the file ends earlier, then nothing is read.
-static int read_exactly(FILE* f, u8* dest, int size){
-	long start = ftell(f);
-	if (start < 0 || fseek(f, 0, SEEK_END)) return 0;
-	long end = ftell(f);
-	if (end < start || end - start < size) return 0;
-	if (fseek(f, start, SEEK_SET)) return 0;
-	return fread(dest, sizeof(u8), size, f);
-}
-
 // Checks the file type and loads the correct data from the file.
 // Note: path, name must be null-terminated
 int check_load_file(u8* dest, const char* search_path, const char* name, int size){
-- 
2.43.0


From 8e8fbb279cb7758c3e87e93461901abda14128ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:05 +0000
Subject: [PATCH 043/103] fix: resource types of CHRSET, CHRREAD and CHRINIT
 are verified

---
 source/subsystem/resources.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/subsystem/resources.c b/source/subsystem/resources.c
index 58e0fb4..8f561ab 100644
--- a/source/subsystem/resources.c
+++ b/source/subsystem/resources.c
@@ -110,7 +110,7 @@ static bool load_package(struct ptc* p, FILE* f, uint64_t package, bool check){
 			iprintf("Failed to skip type string\n");
 			return false;
 		}
-		iprintf("%d,%12s\n", info.type_id, type_str);
+		iprintf("%d,%.12s\n", info.type_id, type_str);
 		if (strncmp(type_str, internal_type_str[info.type_id], HEADER_TYPE_STR_SIZE)){
 			iprintf("Internal type string does not match expected type\n");
 			return false;
@@ -849,7 +849,7 @@ int get_chr_index(struct ptc* p, const char* res){
 struct res_info get_verified_resource_type(struct ptc* p, const void* res){
 	// TODO:ERR:LOW verify correct error codes
 	struct res_info info = {0};
-	if (str_len(res) > MAX_RESOURCE_TYPE_LENGTH){
+	if (!verify_resource_type_str(res)){
 		p->exec.error = ERR_INVALID_RESOURCE_TYPE;
 		return info;
 	}
-- 
2.43.0


From 2ff1af6964dfc30a53db3d4ab22e4124b2d90778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:21 +0000
Subject: [PATCH 044/103] fix: SAVE reports data that could not be written when
 closing the file

---
 source/subsystem/resources.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/source/subsystem/resources.c b/source/subsystem/resources.c
index 8f561ab..75b3a8c 100644
--- a/source/subsystem/resources.c
+++ b/source/subsystem/resources.c
@@ -353,7 +353,10 @@ int check_save_res(void* src, const char* search_path, const char* name, int typ
 		CHECK_FILE_ERROR("Failed to write program header");
 		size_read = fwrite(prg.data, 1, prg.size, f);
 		CHECK_FILE_ERROR("Failed to write program data");
-		FILE_OK(); // close and return size_read
+		if (fclose(f)){
+			FILE_ERROR("Failed to complete file"); // buffered data was not written
+		}
+		return size_read;
 	} else if (type > TYPE_PRG && type < TYPE_INVALID) {
 		FILE* f = fopen(path, "wb");
 		if (!f){
@@ -364,7 +367,10 @@ int check_save_res(void* src, const char* search_path, const char* name, int typ
 		CHECK_FILE_ERROR("Failed to write file type");
 		size_read = fwrite((u8*)src, 1, resource_size[type], f);
 		CHECK_FILE_ERROR("Failed to write resource data");
-		FILE_OK(); // close and return size_read
+		if (fclose(f)){
+			FILE_ERROR("Failed to complete file"); // buffered data was not written
+		}
+		return size_read;
 	} else {
 		FILE_ERROR("Unimplemented or invalid resource save type");
 	}
-- 
2.43.0


From c00f8a9c6555dca0be1070f342f66cd23efc645b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:49 +0000
Subject: [PATCH 045/103] fix: buffer sizes of the launcher, looking up labels
 in programs without labels

---
 source/interpreter/label.c | 2 ++
 source/system.c            | 6 +++---
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/source/interpreter/label.c b/source/interpreter/label.c
index 472df03..799f634 100644
--- a/source/interpreter/label.c
+++ b/source/interpreter/label.c
@@ -53,6 +53,7 @@ void reset_label(struct labels* l){
 
 // Finds the location of a previously defined label
 int find_label(struct labels* l, char* name, uint_fast8_t len){
+	if (!l->label_count) return -1; // no labels at all
 	struct label_line* label;
 	u32 hash = name_hash(name, len, l->label_count);
 	u32 step = 0;
@@ -75,6 +76,7 @@ int find_label(struct labels* l, char* name, uint_fast8_t len){
 
 // Finds a location for a *new* label
 int find_label_slot(struct labels* l, char* name, uint_fast8_t len){
+	if (!l->label_count) return -1; // no labels at all
 	struct label_line* label;
 	u32 hash = name_hash(name, len, l->label_count);
 	u32 step = 0;
diff --git a/source/system.c b/source/system.c
index 5bd867a..da1127a 100644
--- a/source/system.c
+++ b/source/system.c
@@ -322,12 +322,12 @@ int token_and_run(struct ptc* p, struct program* prg, struct bytecode* bc, int t
 
 // this is practically the main function, barring some platform-specific intialization
 int launch_system(void* launch_info){
-	u8 err_msg[CONSOLE_WIDTH*2+2] = {STRING_INLINE_CHAR}; // 2 lines + string metadata (type + length)
+	u8 err_msg[CONSOLE_WIDTH*3+2] = {STRING_INLINE_CHAR}; // 3 lines + string metadata (type + length)
 	struct launch_info* info = (struct launch_info*)launch_info;
 	struct ptc* p = info->p;
 	
 	// for user programs / "RUN" setup
-	struct bytecode bc = init_bytecode_size(MAX_SOURCE_SIZE, MAX_LINES, MAX_LABELS);
+	struct bytecode bc = init_bytecode_size(2 * MAX_SOURCE_SIZE, MAX_LINES, MAX_LABELS);
 	if (!bc.labels.entry || !bc.data){
 		iprintf("Failed to allocate bytecode...\n");
 		return -1;
@@ -339,7 +339,7 @@ int launch_system(void* launch_info){
 	}
 
 	// Tokenize launcher into big bytecode block
-	struct bytecode_params params = calc_min_bytecode(&p->exec.prg);
+	struct bytecode_params params = calc_min_bytecode(&launcher);
 	struct bytecode prompt_bc = init_bytecode_size(2 * launcher.size, params.lines, params.labels);
 
 	// DIRECT setup
-- 
2.43.0


From c15e2fc8849064450d6b07027cc8e8d63b3c1dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:16 +0000
Subject: [PATCH 046/103] fix: RESTORE after THEN or ELSE does not jump to its
 label

---
 source/interpreter/flow.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/interpreter/flow.c b/source/interpreter/flow.c
index 0d0aa07..78abbcc 100644
--- a/source/interpreter/flow.c
+++ b/source/interpreter/flow.c
@@ -174,13 +174,13 @@ void cmd_if(struct ptc* p){
 		jump_ok = p->exec.code.data[index+1] == CMD_ELSE;
 		index += 2; // move to instruction past ELSE or ENDIF
 	}
-	// If there's a label AND it's not followed by a GOSUB
+	// If there's a label AND it's not the argument of GOTO, GOSUB or RESTORE
 	char* label = (char*)&p->exec.code.data[index];
 	if (jump_ok && label[0] == BC_LABEL_STRING){
 		int len = label[1];
 		int instr = label[2+len+(len & 1)];
 		int cmd = label[2+len+(len & 1)+1];
-		if (instr == BC_COMMAND && (cmd == CMD_GOSUB || cmd == CMD_GOTO)){
+		if (instr == BC_COMMAND && (cmd == CMD_GOSUB || cmd == CMD_GOTO || cmd == CMD_RESTORE)){
 			// Don't jump because it is handled by next instruction
 		} else {
 			// GOTO label
-- 
2.43.0


From cf8e2540aa49671eaceb4a4fabd11655bc9fa1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:15 +0000
Subject: [PATCH 047/103] fix: values left over by a statement are not
 arguments of the next one

---
 source/interpreter/tokens.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index 718b59d..0a6093e 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -669,7 +669,13 @@ int tok_test(struct tokenizer* state){
 				
 			case label: // doesn't get added to stack if it's an actual label
 			case comment: // ignored
-			case newline: // ignored
+				break;
+
+			case newline: // nothing is left for the next statement
+				if (is_on)
+					return ERR_TEST_COMMAND;
+				if (stack_i)
+					return ERR_TEST_STACK;
 				break;
 				
 			case loop_begin:
@@ -989,6 +995,7 @@ int tok_code(struct tokenizer* state){
 				}
 				break;
 				
+			case newline:
 			case comment:
 				break; // only the end of the statement or IF can be after this
 				
@@ -1220,6 +1227,14 @@ int tok_eval(struct tokenizer* state){
 		} else if (state->tokens[i].type == newline){ 
 			// dim ends
 			tok_eval_end_statement(&e, &s);
+			if (i + 1 < state->token_i){ // colon
+				if (i >= 2 && state->tokens[i-1].type == label_string && state->tokens[i-2].type == command
+					&& (state->tokens[i-2].cmd == CMD_THEN || state->tokens[i-2].cmd == CMD_ELSE)){
+					// label after THEN or ELSE with more statements behind it: jump before those
+					e.result[e.result_i++] = (struct token){.type=command, .cmd=CMD_GOTO, .ofs=0, .prio=0};
+				}
+				e.result[e.result_i++] = state->tokens[i]; // for tok_test
+			}
 		} else if (state->tokens[i].type == label){
 			// label defined
 			if (i != 0){
-- 
2.43.0


From a98eab8fa89736d240baa73506aa3d58a6661d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:00 +0000
Subject: [PATCH 048/103] fix: SPREAD stores its results in variables only

---
 source/interpreter/tokens.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index 0a6093e..c29f01d 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -113,7 +113,7 @@ const char* cmd_format[] = {
 	"NNS,NNSN","S","v","","","SS",//RENAME
 	"L","NNa","0","S","","NNa","NN,NNN,NNNN",//SPANGLE
 	"NNN,NNNN","NN,NNNNNN","0,N","NNNNNN,NNNNNNN","NNN","NNN","NNN,NNNN","N",//SPPAGE
-	"NN,NNN,NNNN,NNNNN,NNNNNN","NN,NNN","NNNNNN,NNNNNNNN","NNN","nn,ss",//SWAP
+	"Nn,Nnn,Nnnn,Nnnnn,Nnnnnn","NN,NNN","NNNNNN,NNNNNNNN","NNN","nn,ss",//SWAP
 	"Snnn",//TMREAD
 	"S", "0", // TALK, TALKSTOP
 	"NN","NN","NN","NNN","NNN", //MEMFILL
-- 
2.43.0


From 48ee189e6b17a4362c9a7151a14c225d968735f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:06 +0000
Subject: [PATCH 049/103] fix: a value in front of THEN is not an argument of
 the next statement

---
 source/interpreter/tokens.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index c29f01d..91c75a5 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -1164,6 +1164,7 @@ int tok_eval(struct tokenizer* state){
 					// THEN should be discarded: default IF behavior will be to
 					// continue to next instruction, which can ignore THEN
 					tok_eval_end_statement(&e, &s);
+					e.result[e.result_i++] = (struct token){.type=newline}; // for tok_test
 					continue;
 				} else if (state->tokens[i].cmd == CMD_ELSE){
 					// ELSE should be placed immediately
-- 
2.43.0


From e0e1ab697ff1a6d72c8b185915bb8dc2a4d40b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:11 +0000
Subject: [PATCH 050/103] fix: the last line of a program is compiled when it
 does not end with a line break

---
 source/interpreter/tokens.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index 91c75a5..44f3530 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -256,7 +256,8 @@ int tokenize_full(struct program* src, struct bytecode* out, void* system, int o
 	out->size = 0;
 	reset_label(&out->labels);
 	int old_cursor;
-	while (state.cursor < state.source->size){
+	// the last line might not end with a line break
+	while (state.cursor < state.source->size || state.token_i){
 		old_cursor = state.cursor;
 		error = tok_none(&state);
 		if (error != ERR_NONE){
@@ -731,7 +732,7 @@ int tok_data(struct tokenizer* state, struct token start_t, char* data, idx* siz
 		BC_DATA_WAIT_NEXT,
 	} data_state = BC_DATA_NONE;
 	for (int j = start; j < end; ++j){
-		char c = state->source->data[j];
+		char c = tok_char(state, j);
 
 		switch (data_state){
 			case BC_DATA_NONE:
-- 
2.43.0


From ee7938635d2073692f64c8615c2e3c3ea0252d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:47 +0000
Subject: [PATCH 051/103] fix: size of the line table of programs without a
 final line break

---
 source/interpreter/program.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/interpreter/program.c b/source/interpreter/program.c
index d49c9bc..069d8f2 100644
--- a/source/interpreter/program.c
+++ b/source/interpreter/program.c
@@ -55,7 +55,7 @@ void free_bytecode(struct bytecode bc){
 }
 
 struct bytecode_params calc_min_bytecode(struct program* p){
-	struct bytecode_params params = {0};
+	struct bytecode_params params = {.lines = 1}; // the last one might not end with a line break
 	bool first_of_line = true;
 	for (uint32_t i = 0; i < p->size; ++i){
 		// Count line endings == number of lines
-- 
2.43.0


From 39b9689008d043b698406c8c103c9241a0bbe71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:26 +0000
Subject: [PATCH 052/103] fix: reject parentheses and brackets that are not
 closed

---
 source/interpreter/tokens.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index 44f3530..b779501 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -1050,13 +1050,16 @@ struct statement {
 	bool implicit_commas;
 };
 
-static void tok_eval_end_statement(struct eval* e, struct statement* s){
+// Returns false if a parenthesis or bracket was not closed
+static bool tok_eval_end_statement(struct eval* e, struct statement* s){
+	if (e->argc_i) return false;
 	tok_eval_clean_stack(e, 0);
 	if (s->is_for){
 		e->result[e->result_i++] = (struct token){.type=loop_begin, .ofs=0, .len=1, .prio=0};
 	}
 	*s = (struct statement){.implicit_commas = true};
 	e->argc_stack[0] = 0;
+	return true;
 }
 
 // once again based on
@@ -1164,14 +1167,14 @@ int tok_eval(struct tokenizer* state){
 				} else if (state->tokens[i].cmd == CMD_THEN){
 					// THEN should be discarded: default IF behavior will be to
 					// continue to next instruction, which can ignore THEN
-					tok_eval_end_statement(&e, &s);
+					if (!tok_eval_end_statement(&e, &s)) return ERR_SYNTAX;
 					e.result[e.result_i++] = (struct token){.type=newline}; // for tok_test
 					continue;
 				} else if (state->tokens[i].cmd == CMD_ELSE){
 					// ELSE should be placed immediately
 					// similar to commas within a command, it is used as a
 					// separator between TRUE/FALSE paths of the IF.
-					tok_eval_end_statement(&e, &s);
+					if (!tok_eval_end_statement(&e, &s)) return ERR_SYNTAX;
 					e.result[e.result_i++] = state->tokens[i];
 					continue;
 				} else if (state->tokens[i].cmd == CMD_SORT || state->tokens[i].cmd == CMD_RSORT){
@@ -1228,7 +1231,7 @@ int tok_eval(struct tokenizer* state){
 				e.argc_stack[e.argc_i]++;
 		} else if (state->tokens[i].type == newline){ 
 			// dim ends
-			tok_eval_end_statement(&e, &s);
+			if (!tok_eval_end_statement(&e, &s)) return ERR_SYNTAX;
 			if (i + 1 < state->token_i){ // colon
 				if (i >= 2 && state->tokens[i-1].type == label_string && state->tokens[i-2].type == command
 					&& (state->tokens[i-2].cmd == CMD_THEN || state->tokens[i-2].cmd == CMD_ELSE)){
-- 
2.43.0


From 691a66ff5e6361fe07fb5a731c640d2f1129f928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:33 +0000
Subject: [PATCH 053/103] fix: reject a value without a statement after THEN
 and ELSE

---
 source/interpreter/tokens.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index b779501..e825d25 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -92,7 +92,7 @@ const char* comments = "REM     ";
 const char* cmd_format[] = {
 	"*","NN","N,NN","*", //DIM
 	"*","*","*","0,n", //NEXT
-	"N","*","*","*", //ENDIF
+	"N","*","0,L","0,L", //ENDIF
 	"L,l","L,l","N","0", //RETURN
 	"0","0", //STOP
 	"0","*","0","N","N", //WAIT
-- 
2.43.0


From d5602bd8be098d1c14f33f9dc7ba4367236874cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:21 +0000
Subject: [PATCH 054/103] fix: limits of memory accesses: whole accesses lie in
 the window, adjacent ranges do not overlap

---
 source/extension/sbc_memory.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/source/extension/sbc_memory.c b/source/extension/sbc_memory.c
index f505111..e62e12a 100644
--- a/source/extension/sbc_memory.c
+++ b/source/extension/sbc_memory.c
@@ -34,7 +34,7 @@
 		ERROR(ERR_NULL_ADDRESS);\
 	}\
 	if (p->memapi.sys_memsafe){\
-		if (addr_num < ADDR_MIN || addr_num > ADDR_MAX){\
+		if (addr_num < ADDR_MIN || addr_num > ADDR_MAX - (int)(sizeof(type) - 1)){\
 			ERROR(ERR_ILLEGAL_ADDRESS);\
 		} else if (ADDR_ALIGN && ((uintptr_t)addr & invalid_align)){\
 			ERROR(ERR_MISALIGNED_ADDRESS);\
@@ -73,17 +73,17 @@ void cmd_memcopy(struct ptc* p){
 			ERROR(ERR_ILLEGAL_ADDRESS);
 		} else if (src_num < ADDR_MIN || src_num > ADDR_MAX){
 			ERROR(ERR_ILLEGAL_ADDRESS);
-		} else if (src_num + size >= ADDR_MAX){
+		} else if (src_num + size > ADDR_MAX + 1){
 			ERROR(ERR_ILLEGAL_FUNCTION_CALL);
-		} else if (dest_num + size >= ADDR_MAX){
+		} else if (dest_num + size > ADDR_MAX + 1){
 			ERROR(ERR_ILLEGAL_FUNCTION_CALL);
 		}
 	}
 	// prevent dest, src overlap
-	if (src <= dest && (u8*)dest <= (u8*)src + size){
+	if (src <= dest && (u8*)dest < (u8*)src + size){
 		// destination range lies partially within src range: illegal
 		ERROR(ERR_ILLEGAL_FUNCTION_CALL);
-	} else if (dest <= src && (u8*)src <= (u8*)dest + size){
+	} else if (dest <= src && (u8*)src < (u8*)dest + size){
 		// src range lies partially within dest range: illegal
 		ERROR(ERR_ILLEGAL_FUNCTION_CALL);
 	}
@@ -105,7 +105,7 @@ void cmd_memfill(struct ptc* p){
 	if (p->memapi.sys_memsafe){
 		if (dest_num < ADDR_MIN || dest_num > ADDR_MAX){
 			ERROR(ERR_ILLEGAL_ADDRESS);
-		} else if (dest_num + size >= ADDR_MAX){
+		} else if (dest_num + size > ADDR_MAX + 1){
 			// this check is separate to have a different error when offset is
 			// out of range vs the initial address
 			ERROR(ERR_ILLEGAL_FUNCTION_CALL);
@@ -124,7 +124,7 @@ void cmd_memfill(struct ptc* p){
 		ERROR(ERR_NULL_ADDRESS);\
 	}\
 	if (p->memapi.sys_memsafe){\
-		if (addr_num < ADDR_MIN || addr_num > ADDR_MAX){\
+		if (addr_num < ADDR_MIN || addr_num > ADDR_MAX - (int)(sizeof(type) - 1)){\
 			ERROR(ERR_ILLEGAL_ADDRESS);\
 		} else if (ADDR_ALIGN && ((uintptr_t)addr & invalid_align)){\
 			ERROR(ERR_MISALIGNED_ADDRESS);\
-- 
2.43.0


From 811d789b187c019faf3372c72696baf4e8ba452e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:25 +0000
Subject: [PATCH 055/103] fix: ADDR of invalid resources and of variables with
 long names

---
 source/extension/sbc_memory.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/source/extension/sbc_memory.c b/source/extension/sbc_memory.c
index e62e12a..7023e83 100644
--- a/source/extension/sbc_memory.c
+++ b/source/extension/sbc_memory.c
@@ -179,7 +179,7 @@ void func_addr(struct ptc* p){
 	// pointer: (ptr=offset): * (this reads a new pointer from address `offset`)
 	if (addr_type == FUNC_ADDR_DEREF){
 		if (p->memapi.sys_memsafe){
-			if (ofs_num < ADDR_MIN || ofs_num > ADDR_MAX){
+			if (ofs_num < ADDR_MIN || ofs_num > ADDR_MAX - (int)(sizeof(void*) - 1)){
 				ERROR(ERR_ILLEGAL_ADDRESS);
 			} else if (ADDR_ALIGN && (ofs_num & 0x3)){
 				ERROR(ERR_MISALIGNED_ADDRESS);
@@ -205,13 +205,14 @@ void func_addr(struct ptc* p){
 		} else {
 			type |= VAR_NUMBER;
 		}
-		if (len > 17){
-			ERROR(ERR_ILLEGAL_FUNCTION_CALL); // name too long
+		if (len < 2 || len > 17){
+			ERROR(ERR_ILLEGAL_FUNCTION_CALL); // name missing or too long
 		}
 		// get_var
-		char var_name[17]; // skip = at beginning
+		char var_name[17+3]; // skip = at beginning, may end in $[]
 		str_char_copy(resource, (u8*)var_name);
 		struct named_var* v = get_var(&p->vars, var_name+1, len-1, type);
+		if (!v) ERROR(ERR_OUT_OF_MEMORY);
 		
 		if (addr_type == FUNC_ADDR_VAR_STRUCT){
 			res_ptr = v;
@@ -283,13 +284,12 @@ void func_addr(struct ptc* p){
 				ERROR(ERR_ILLEGAL_OFFSET);
 			}
 		}
-	} else if (len <= 5){
-		res_ptr = str_to_resource(p, resource);
-		if (p->exec.error == ERR_INVALID_RESOURCE_TYPE){
-			p->exec.error = ERR_NONE; // allowed here, retry with variable name
-		}
+	} else {
+		struct res_info info = get_verified_resource_type(p, resource);
+		if (p->exec.error) return; // not a resource
+		res_ptr = info.data;
 		if (p->memapi.sys_memsafe){
-			if (ofs < 0 || ofs >= resource_size[get_resource_type(resource)]){
+			if (ofs < 0 || ofs >= resource_size[info.type_id]){
 				ERROR(ERR_ILLEGAL_OFFSET);
 			}
 		}
-- 
2.43.0


From 99d3e8d95fdc6478f5f4cdba1b3313cbf3534449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:29 +0000
Subject: [PATCH 056/103] fix: GPUTCHR draws into the first row, not above it,
 and only from character resources

---
 source/subsystem/graphics.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/source/subsystem/graphics.c b/source/subsystem/graphics.c
index 2d6bc3b..6abbb75 100644
--- a/source/subsystem/graphics.c
+++ b/source/subsystem/graphics.c
@@ -234,6 +234,12 @@ void cmd_gputchr(struct ptc* p){
 	STACK_INT_RANGE(4,0,15,pal);
 	size = STACK_INT(5);
 	if (size == 1 || size == 2 || size == 4 || size == 8){
+		// pointer to base resource
+		struct res_info i = get_verified_resource_type(p, resource);
+		u8* src = i.data;
+		if (!src || i.type_id != TYPE_CHR){
+			ERROR(ERR_INVALID_RESOURCE_TYPE); // TODO:ERR:MED Check this is correct
+		}
 		// Copy colors from character resource specified
 		// BG* -> COL0
 		// SP* -> COL1
@@ -251,12 +257,6 @@ void cmd_gputchr(struct ptc* p){
 		iprintf("GPUTCHR palette copy %s(%p) %s%c(%p)\n", col_resource, (void*)col_src, "COL2", (p->graphics.screen ? 'L' : 'U'), (void*)col_dest);
 		p->res.regen_col = true;
 
-		// pointer to base resource
-		struct res_info i = get_verified_resource_type(p, resource);
-		u8* src = i.data;
-		if (!src){
-			ERROR(ERR_INVALID_RESOURCE_TYPE); // TODO:ERR:MED Check this is correct
-		}
 		// pointer to relevant character
 		src = &src[CHR_UNIT_SIZE * chr];
 
@@ -271,7 +271,7 @@ void cmd_gputchr(struct ptc* p){
 					for (int j = 0; j < size; ++j){
 						int xp = x_start + x*size + j;
 						int yp = y_start + y*size + i;
-						if (col1 && xp >= 0 && xp < GRP_WIDTH && yp && yp < GRP_HEIGHT){
+						if (col1 && xp >= 0 && xp < GRP_WIDTH && yp >= 0 && yp < GRP_HEIGHT){
 							grp_pixel(dest, xp, yp, 16*pal+col1, p->graphics.drawmode);
 						}
 					}
@@ -280,7 +280,7 @@ void cmd_gputchr(struct ptc* p){
 					for (int j = 0; j < size; ++j){
 						int xp = x_start + x*size + j + size;
 						int yp = y_start + y*size + i;
-						if (col2 && xp >= 0 && xp < GRP_WIDTH && yp && yp < GRP_HEIGHT){
+						if (col2 && xp >= 0 && xp < GRP_WIDTH && yp >= 0 && yp < GRP_HEIGHT){
 							grp_pixel(dest, xp, yp, 16*pal+col2, p->graphics.drawmode);
 						}
 					}
-- 
2.43.0


From 9f34317603140e5956e9de8ab94c9aa3d340cfa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:33 +0000
Subject: [PATCH 057/103] fix: a resource type does not include the separator

---
 source/subsystem/resources.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/subsystem/resources.c b/source/subsystem/resources.c
index 75b3a8c..7d89536 100644
--- a/source/subsystem/resources.c
+++ b/source/subsystem/resources.c
@@ -725,6 +725,9 @@ bool verify_resource_type_str(const void* res){
 	char res_str[MAX_RESOURCE_TYPE_LENGTH+1] = {0};
 
 	str_char_copy(res, (u8*)res_str);
+	if (strchr(res_str, RESOURCE_SEPARATOR)){
+		return false; // only the type, without a name
+	}
 	return verify_resource_type(res_str);
 }
 
-- 
2.43.0


From ea15ea04b46950a37d0831a980abbbe845691be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:01 +0000
Subject: [PATCH 058/103] fix: SAVE of a program crashed

---
 source/subsystem/resources.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/subsystem/resources.c b/source/subsystem/resources.c
index 7d89536..242b036 100644
--- a/source/subsystem/resources.c
+++ b/source/subsystem/resources.c
@@ -949,6 +949,7 @@ void cmd_save(struct ptc* p){
 	struct res_info info = get_verified_resource(p, res);
 	if (p->exec.error) return; // error condition already met, fail here
 
+	if (info.type_id == TYPE_PRG) info.data = &p->exec.prg;
 	assert(LITTLE_ENDIAN); // relied on for TYPE_MEM
 	int size = check_save_res(info.data, p->res.search_path, info.name, info.type_id);
 	p->res.result = size != 0;
-- 
2.43.0


From ada75a085f17c2fa7e4fdfda2a0d8e8ad72eb667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:53 +0000
Subject: [PATCH 059/103] fix: a value in front of FOR is not its variable

---
 source/interpreter/tokens.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index e825d25..a6fd401 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -517,7 +517,7 @@ int tok_test(struct tokenizer* state){
 				}
 				if (cmd == CMD_FOR){
 					// needs a number variable or array element to count with
-					if (!i || !stack_i || stack[stack_i-1] != 'n'
+					if (!i || stack_i != 1 || stack[0] != 'n'
 						|| (state->tokens[i-1].type != name && state->tokens[i-1].type != array_name)){
 						return ERR_TEST_COMMAND;
 					}
-- 
2.43.0


From cb8c90b7692a24a97a87f4e6f8a92d3b6d5ac7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:13 +0000
Subject: [PATCH 060/103] fix: TO and STEP are only part of a FOR

---
 source/interpreter/tokens.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index a6fd401..d3cd579 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -482,6 +482,7 @@ int tok_test(struct tokenizer* state){
 	const char* valid; // Local used for some cases
 	bool is_valid; // Used by some cases
 	bool is_on = false; // last command was ON
+	bool is_for = false; // within FOR...TO...STEP
 	
 	iprintf("Validation:\n");
 	for (u8 i = 0; i < state->token_i; ++i){
@@ -525,11 +526,15 @@ int tok_test(struct tokenizer* state){
 				if (is_on && cmd != CMD_GOTO && cmd != CMD_GOSUB){
 					return ERR_TEST_COMMAND; // ON without GOTO or GOSUB
 				}
+				if (!is_for && (cmd == CMD_TO || cmd == CMD_STEP)){
+					return ERR_TEST_COMMAND; // TO or STEP without FOR
+				}
 				is_on = cmd == CMD_ON;
+				is_for = is_for || cmd == CMD_FOR;
 				// relies on variable carrying through...
 				// FOR: for assignment
-				// TO: for BC_BEGIN_LOOP
-				if (cmd != CMD_FOR && cmd != CMD_TO){
+				// TO, STEP: for BC_BEGIN_LOOP
+				if (cmd != CMD_FOR && cmd != CMD_TO && cmd != CMD_STEP){
 					stack_i = 0;
 				}
 				}
@@ -681,6 +686,7 @@ int tok_test(struct tokenizer* state){
 				
 			case loop_begin:
 				// consumes stack elements: end and step
+				is_for = false;
 				while (stack_i){
 					--stack_i;
 					if (stack[stack_i] != 'N' && stack[stack_i] != 'n') return ERR_TEST_COMMAND;
-- 
2.43.0


From e1aa19d3b4357cb24b68441b6360734757becff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:50 +0000
Subject: [PATCH 061/103] fix: SORT and RSORT need an array

---
 source/interpreter/tokens.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index d3cd579..c11d9cb 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -111,7 +111,7 @@ const char* cmd_format[] = {
 	"N,NNN","NN,NNN,NNNN","NN,NNN","N","NNSNNN","0,N","NN",//ICONSET
 	"NS","","S,SN","0",//NEW
 	"NNS,NNSN","S","v","","","SS",//RENAME
-	"L","NNa","0","S","","NNa","NN,NNN,NNNN",//SPANGLE
+	"L","NNAa","0","S","","NNAa","NN,NNN,NNNN",//SPANGLE
 	"NNN,NNNN","NN,NNNNNN","0,N","NNNNNN,NNNNNNN","NNN","NNN","NNN,NNNN","N",//SPPAGE
 	"Nn,Nnn,Nnnn,Nnnnn,Nnnnnn","NN,NNN","NNNNNN,NNNNNNNN","NNN","nn,ss",//SWAP
 	"Snnn",//TMREAD
-- 
2.43.0


From 4308595bbef4d52aa8a4beb9a586c2ff7ff13037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:34 +0000
Subject: [PATCH 062/103] fix: the variables were lost when ACLS was stopped

---
 source/system.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/system.c b/source/system.c
index da1127a..1adf491 100644
--- a/source/system.c
+++ b/source/system.c
@@ -102,10 +102,10 @@ void cmd_acls(struct ptc* p){
 	
 	p->exec.error = tokenize(&acls_program, &acls_bc);
 	run(acls_bc, p);
-	if (p->exec.error) return;
+	cur_exec.error = p->exec.error;
 	p->exec = cur_exec;
 	
-	// Restore proper program variable state
+	// Restore proper program variable state, even when stopped by an error
 	p->vars = vars;
 	free_mem_var(&temp_vars);
 }
-- 
2.43.0


From 10d3246e98f6319c306b4d750d418cf1355c43cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:06 +0000
Subject: [PATCH 063/103] fix: GCOPY of a huge area visited every pixel outside
 the page

---
 source/subsystem/graphics.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/source/subsystem/graphics.c b/source/subsystem/graphics.c
index 6abbb75..1c33919 100644
--- a/source/subsystem/graphics.c
+++ b/source/subsystem/graphics.c
@@ -375,6 +375,15 @@ void cmd_gcopy(struct ptc* p){
 		y2 = temp;
 	}
 	
+	// Only the part that arrives on the page is visited
+	int dx1 = x3, dy1 = y3;
+	if (x3 < 0){ x1 -= x3; dx1 = 0; }
+	if (y3 < 0){ y1 -= y3; dy1 = 0; }
+	if (x2 - x1 > GRP_WIDTH - 1 - dx1) x2 = x1 + GRP_WIDTH - 1 - dx1;
+	if (y2 - y1 > GRP_HEIGHT - 1 - dy1) y2 = y1 + GRP_HEIGHT - 1 - dy1;
+	x3 = dx1;
+	y3 = dy1;
+	
 	// TODO:TEST:MED Check that this works with offscreen coords
 	iprintf("gcopy %d,%d,%d,%d,%d,%d\n", x1, y1, x2, y2, x3, y3);
 	if (y3 < y1 || (y3 == y1 && x3 < x1)){
-- 
2.43.0


From 5e1f0d33da52f60020faa0c9fae05057e2d5fc4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:49 +0000
Subject: [PATCH 064/103] fix: GPAINT with a border, the same color or from
 outside of the page

---
 source/subsystem/graphics.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/source/subsystem/graphics.c b/source/subsystem/graphics.c
index 1c33919..385e6d4 100644
--- a/source/subsystem/graphics.c
+++ b/source/subsystem/graphics.c
@@ -459,12 +459,24 @@ void cmd_gcircle(struct ptc* p){
 // Based on "combined-scan-and-fill" algorithm listed at
 // https://en.wikipedia.org/wiki/Flood_fill?useskin=monobook
 // match: positive = only fill this color negative = fill any other color
+// painted: pixels filled so far (these can still have a color that is filled)
+static u8 painted[GRP_WIDTH * GRP_HEIGHT / 8];
+
 static inline bool inside(u8* data, int x, int y, int match){
 	if (x < 0 || x >= GRP_WIDTH || y < 0 || y >= GRP_HEIGHT) return 0;
 	
+	int i = grp_index(x,y);
+	if (painted[i / 8] & (1 << (i % 8))) return 0;
+	
 	return match >= 0 ? (data[grp_index(x,y)] == match) : (data[grp_index(x,y)] != -match - 1); // matching first color
 }
 
+static inline void paint(u8* data, int x, int y, int c){
+	int i = grp_index(x,y);
+	painted[i / 8] |= 1 << (i % 8);
+	data[i] = c;
+}
+
 #define PAINT_STACK_MAX 256
 
 #define PAINT_STACK_ADD(x1,x2,y1,dy) do {\
@@ -498,6 +510,7 @@ void cmd_gpaint(struct ptc* p){
 		c = p->graphics.color;
 	}
 	u8* data = p->res.grp[p->graphics.info[p->graphics.screen].drawpage];
+	if (x < 0 || x >= GRP_WIDTH || y < 0 || y >= GRP_HEIGHT) return; // nothing to paint
 
 	int match;
 	if (p->stack.stack_i > 3){
@@ -509,6 +522,7 @@ void cmd_gpaint(struct ptc* p){
 	}
 	int stack_i = 0;
 	u32 stack[PAINT_STACK_MAX];
+	memset(painted, 0, sizeof(painted));
 	
 	PAINT_STACK_ADD(x, x, y, 1);
 	PAINT_STACK_ADD(x, x, y - 1, -1);
@@ -520,7 +534,7 @@ void cmd_gpaint(struct ptc* p){
 		x = x1;
 		if (inside(data, x, y, match)){
 			while(inside(data, x-1, y, match)){
-				data[grp_index(x-1, y)] = c;
+				paint(data, x-1, y, c);
 				--x;
 			}
 			if (x < x1){
@@ -529,7 +543,7 @@ void cmd_gpaint(struct ptc* p){
 		}
 		while(x1 <= x2){
 			while(inside(data, x1, y, match)){
-				data[grp_index(x1, y)] = c;
+				paint(data, x1, y, c);
 				++x1;
 			}
 			if (x1 > x){
-- 
2.43.0


From cfc19e42c4ea8fcef70ebd22d4ef4e9d4f04b3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:40 +0000
Subject: [PATCH 065/103] fix: to_char gave characters for codes that have
 none, also outside of the range

---
 source/interpreter/strs.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/interpreter/strs.c b/source/interpreter/strs.c
index 5ba7730..b4edcc0 100644
--- a/source/interpreter/strs.c
+++ b/source/interpreter/strs.c
@@ -376,9 +376,11 @@ int to_char(u16 w){
 	} else if (wh == 0xff){
 		if (wl == 0x70) return 0xb0;
 		if (wl == 0xe5) return 0x5c;
-		return wl + 0x20; // TODO:IMPL:LOW returns some false values?
+		int c = wl + 0x20;
+		if (c < 0x80 && to_wide(c) == w) return c;
 	} else if (wh == 0x30){
-		return katakana[wl] + 0xa1;
+		int c = katakana[wl] + 0xa1;
+		if (c < 0xe0 && to_wide(c) == w) return c;
 	}
 	iprintf("Error converting u16 to u8 char: 0x%x\n", w);
 	return -1;
-- 
2.43.0


From 994e30129b1b258e87814633bbd1b5b51739d7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:50 +0000
Subject: [PATCH 066/103] fix: GBOX and GFILL with corners given in reverse
 order drew nothing or only two sides

---
 source/subsystem/graphics.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/subsystem/graphics.c b/source/subsystem/graphics.c
index 385e6d4..7d58ba7 100644
--- a/source/subsystem/graphics.c
+++ b/source/subsystem/graphics.c
@@ -66,6 +66,9 @@ void cmd_gfill(struct ptc* p){
 	x2 = x2 < 0 ? 0 : x2 > GRP_WIDTH ? GRP_WIDTH : x2;
 	y2 = y2 < 0 ? 0 : y2 > GRP_HEIGHT ? GRP_HEIGHT : y2;
 	
+	if (x1 > x2){ int t = x1; x1 = x2; x2 = t; }
+	if (y1 > y2){ int t = y1; y1 = y2; y2 = t; }
+	
 	if (p->stack.stack_i == 5){
 		STACK_INT_RANGE(4,0,255,color);
 	} else {
@@ -94,6 +97,9 @@ void cmd_gbox(struct ptc* p){
 	x2 = x2 < 0 ? 0 : x2 > GRP_WIDTH ? GRP_WIDTH : x2;
 	y2 = y2 < 0 ? 0 : y2 > GRP_HEIGHT ? GRP_HEIGHT : y2;
 	
+	if (x1 > x2){ int t = x1; x1 = x2; x2 = t; }
+	if (y1 > y2){ int t = y1; y1 = y2; y2 = t; }
+	
 	if (p->stack.stack_i == 5){
 		int c = STACK_INT(4);
 		if (c > 255 || c < 0){
-- 
2.43.0


From f44bf12149afe06c6e48474726ca193c6fd76ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:55 +0000
Subject: [PATCH 067/103] fix: GPAINT starting on the border color painted the
 area above

---
 source/subsystem/graphics.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/subsystem/graphics.c b/source/subsystem/graphics.c
index 7d58ba7..52f363f 100644
--- a/source/subsystem/graphics.c
+++ b/source/subsystem/graphics.c
@@ -529,6 +529,7 @@ void cmd_gpaint(struct ptc* p){
 	int stack_i = 0;
 	u32 stack[PAINT_STACK_MAX];
 	memset(painted, 0, sizeof(painted));
+	if (!inside(data, x, y, match)) return; // starts on the border
 	
 	PAINT_STACK_ADD(x, x, y, 1);
 	PAINT_STACK_ADD(x, x, y - 1, -1);
-- 
2.43.0


From 838a58ffc69eace154172a38aed28eb722ba0d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:56 +0000
Subject: [PATCH 068/103] fix: SPANIM with an invalid loop count restarted the
 animation

---
 source/subsystem/sprites.c | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/source/subsystem/sprites.c b/source/subsystem/sprites.c
index 8ff894d..03a7652 100644
--- a/source/subsystem/sprites.c
+++ b/source/subsystem/sprites.c
@@ -600,6 +600,10 @@ void cmd_spanim(struct ptc* p){
 	STACK_INT_RANGE(0,0,99,id);
 	STACK_INT_MIN(1,1,chrs);
 	STACK_INT_MIN(2,1,time);
+	int loop = 0;
+	if (p->stack.stack_i == 4){
+		STACK_INT_MIN(3,0,loop);
+	}
 	
 	struct sprite_info* s = &p->sprites.info[p->sprites.page][id];
 	s->anim.chrs = chrs;
@@ -607,15 +611,8 @@ void cmd_spanim(struct ptc* p){
 	s->anim.current_frame = 0;
 	s->anim.current_chr = s->chr;
 	
-	if (p->stack.stack_i == 3){
-		s->anim.loop = 0;
-		s->anim.loop_forever = true;
-	} else {
-		int loop;
-		STACK_INT_MIN(3,0,loop);
-		s->anim.loop = loop;
-		s->anim.loop_forever = loop == 0;
-	}
+	s->anim.loop = loop;
+	s->anim.loop_forever = loop == 0;
 }
 
 void sys_sphitno(struct ptc* p){
-- 
2.43.0


From 5fed0d1e44935b54acff9eeb4075d2919adf42af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:27 +0000
Subject: [PATCH 069/103] fix: resource type without bank number always meant
 the upper screen (data of one screen, refresh of the other)

---
 source/subsystem/resources.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/subsystem/resources.c b/source/subsystem/resources.c
index 242b036..bceaf96 100644
--- a/source/subsystem/resources.c
+++ b/source/subsystem/resources.c
@@ -774,6 +774,7 @@ void* get_resource_ptr(struct ptc* p, const char* resource_type){
 	int screen = 0;
 	if (res_type_index == '\0' || res_type_index == RESOURCE_SEPARATOR){
 		bank = 0;
+		screen = -1;
 	} else {
 		bank = res_type_index - '0';
 		char res_type_screen = resource_type[RESOURCE_TYPE_SCREEN_OFS];
-- 
2.43.0


From b23d4c1d55fec641445c19dcd150a3f1fe4fa197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:30 +0000
Subject: [PATCH 070/103] fix: resource names containing a null character were
 cut at it instead of being rejected

---
 source/subsystem/resources.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/subsystem/resources.c b/source/subsystem/resources.c
index bceaf96..bf2fc57 100644
--- a/source/subsystem/resources.c
+++ b/source/subsystem/resources.c
@@ -725,6 +725,9 @@ bool verify_resource_type_str(const void* res){
 	char res_str[MAX_RESOURCE_TYPE_LENGTH+1] = {0};
 
 	str_char_copy(res, (u8*)res_str);
+	if (strlen(res_str) != str_len(res)){
+		return false; // contains a null character
+	}
 	if (strchr(res_str, RESOURCE_SEPARATOR)){
 		return false; // only the type, without a name
 	}
@@ -883,7 +886,7 @@ struct res_info get_verified_resource(struct ptc* p, const void* res){
 
 	char res_str[MAX_RESOURCE_STR_LENGTH+1] = {0};
 	str_char_copy(res, (u8*)res_str);
-	if (!verify_resource_name(res_str)){
+	if (strlen(res_str) != str_len(res) || !verify_resource_name(res_str)){
 		p->exec.error = ERR_ILLEGAL_FUNCTION_CALL;
 		return info;
 	}
-- 
2.43.0


From b574cdcb4d4e23e786fd757b2a6051c0f8286008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:33 +0000
Subject: [PATCH 071/103] fix: FILES crashed on names without an extension and
 listed inaccessible names

---
 source/system.c | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/source/system.c b/source/system.c
index 1adf491..836b352 100644
--- a/source/system.c
+++ b/source/system.c
@@ -177,20 +177,29 @@ void cmd_files(struct ptc* p){
 	} else {
 		// FILES (all)
 		DIR* dir = opendir(p->res.search_path);
+		if (!dir) return; // no files
 		for (struct dirent* d = readdir(dir); d != NULL; d = readdir(dir)){
-			filename[1] = strchr(d->d_name, '.') - d->d_name;
-			if (filename[1] > 8 || !filename[1]){
+			const char* extension = strchr(d->d_name, '.');
+			if (!extension){
+				continue; // file is inaccessible, name has no extension
+			}
+			int len = extension - d->d_name;
+			if (len > MAX_RESOURCE_NAME_LENGTH || !len){
 				continue; // file is inaccessible, name is too big
 			}
-			for (int i = 0; i < filename[1]; ++i){
-				if (!is_name(filename[2 + i])){
-					continue; // skip due to invalid characters
-				}
+			bool valid = true;
+			for (int i = 0; i < len; ++i){
+				if (!is_name(d->d_name[i])) valid = false;
+			}
+			if (!valid){
+				continue; // skip due to invalid characters
 			}
-			strncpy(filename + 2, d->d_name, strchr(d->d_name, '.') - d->d_name); // strip any extension
+			filename[1] = len;
+			strncpy(filename + 2, d->d_name, len); // strip any extension
 			con_puts(&p->console, filename);
 			con_newline(&p->console, true);
 		}
+		closedir(dir);
 	}
 }
 
-- 
2.43.0


From a7142325f75dc20e4a5a24d96d1940cdf3412652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:26 +0000
Subject: [PATCH 072/103] fix: ADDR of the pointer at address 0 stopped the
 interpreter instead of being reported

---
 source/extension/sbc_memory.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/extension/sbc_memory.c b/source/extension/sbc_memory.c
index 7023e83..284157d 100644
--- a/source/extension/sbc_memory.c
+++ b/source/extension/sbc_memory.c
@@ -178,13 +178,14 @@ void func_addr(struct ptc* p){
 	// internal: !SPRITE
 	// pointer: (ptr=offset): * (this reads a new pointer from address `offset`)
 	if (addr_type == FUNC_ADDR_DEREF){
+		if (FIXP_TO_PTR(ofs_num) == NULL){
+			ERROR(ERR_NULL_ADDRESS);
+		}
 		if (p->memapi.sys_memsafe){
 			if (ofs_num < ADDR_MIN || ofs_num > ADDR_MAX - (int)(sizeof(void*) - 1)){
 				ERROR(ERR_ILLEGAL_ADDRESS);
 			} else if (ADDR_ALIGN && (ofs_num & 0x3)){
 				ERROR(ERR_MISALIGNED_ADDRESS);
-			} else if (FIXP_TO_PTR(ofs_num) == NULL){
-				ERROR(ERR_NULL_ADDRESS);
 			}
 		}
 		// dereference this address once
-- 
2.43.0


From 928a26e9eb7e1a2f4e26b129ce1a12c130718143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:23 +0000
Subject: [PATCH 073/103] fix: keep keys typed in a frame where INPUT handles a
 button

---
 source/subsystem/console.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/source/subsystem/console.c b/source/subsystem/console.c
index 7905a76..212acc9 100644
--- a/source/subsystem/console.c
+++ b/source/subsystem/console.c
@@ -218,6 +218,7 @@ u16* shared_input(struct ptc* p){
 	// enable typing during INPUT/LINPUT if not already active
 	p->panel.type = PNL_KYA; // TODO:IMPL:MED Update panel fully on load
 	set_panel_bg(p, PNL_KYA);
+	int64_t buttons_done = -1; // frame for which the buttons were already handled
 	do {
 		// wait for a frame to pass
 		int t = get_time(&p->time);
@@ -234,7 +235,10 @@ u16* shared_input(struct ptc* p){
 		// redraw on first frame of hold and first frame of release
 		// TODO:IMPL:LOW Pressing L+R inverts the selection again for the duration held.
 		// it should keep the shift state.
-		if (((p->input.button ^ p->input.old_button) & BUTTON_L) ||
+		// Several keys can be typed within a frame, buttons only count once per frame
+		if (buttons_done == get_time(&p->time)){
+			// already handled
+		} else if (((p->input.button ^ p->input.old_button) & BUTTON_L) ||
 		    ((p->input.button ^ p->input.old_button) & BUTTON_R)){
 			p->panel.shift ^= PNL_SHIFT;
 			refresh_panel(p);
@@ -257,7 +261,13 @@ u16* shared_input(struct ptc* p){
 				}
 				output[--out_index_max] = 0;
 			}
-		} else if (inkey == '\r'){
+		} else if (check_pressed(&p->input, BUTTON_ID_LEFT)){
+			out_index -= out_index > 0;
+		} else if (check_pressed(&p->input, BUTTON_ID_RIGHT)){
+			out_index += out_index < out_index_max;
+		}
+		buttons_done = get_time(&p->time);
+		if (inkey == '\r'){
 			// don't add this one
 		} else if (inkey && out_index_max < CONSOLE_WIDTH){
 			if ((p->panel.cursor & ~PNL_INSERT)){ // REPLACE mode
@@ -275,10 +285,6 @@ u16* shared_input(struct ptc* p){
 				output[out_index++] = inkey;
 				++out_index_max;
 			}
-		} else if (check_pressed(&p->input, BUTTON_ID_LEFT)){
-			out_index -= out_index > 0;
-		} else if (check_pressed(&p->input, BUTTON_ID_RIGHT)){
-			out_index += out_index < out_index_max;
 		}
 		// stays within the line even if it is full
 		p->console.x = out_index < CONSOLE_WIDTH ? out_index : CONSOLE_WIDTH - 1;
-- 
2.43.0


From 78048aa8c9376c2d76d09c4ecd0aa1f6b415fcb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:25 +0000
Subject: [PATCH 074/103] fix: do not read past the console line when deleting
 in a full INPUT line

---
 source/subsystem/console.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/subsystem/console.c b/source/subsystem/console.c
index 212acc9..b8a31b5 100644
--- a/source/subsystem/console.c
+++ b/source/subsystem/console.c
@@ -245,7 +245,7 @@ u16* shared_input(struct ptc* p){
 		} else if ((keyboard == 15 || check_pressed(&p->input, BUTTON_ID_Y))){
 			// Copy characters back
 			if (out_index > 0){
-				for (int i = out_index-1; i < (int)out_index_max; ++i){
+				for (int i = out_index-1; i < (int)out_index_max && i + 1 < CONSOLE_WIDTH; ++i){
 					outcol[i] = outcol[i+1];
 					output[i] = output[i+1];
 				}
@@ -255,7 +255,7 @@ u16* shared_input(struct ptc* p){
 		} else if (keyboard == 67){
 			// Copy characters back
 			if (out_index < out_index_max){
-				for (int i = out_index; i < (int)out_index_max; ++i){
+				for (int i = out_index; i < (int)out_index_max && i + 1 < CONSOLE_WIDTH; ++i){
 					outcol[i] = outcol[i+1];
 					output[i] = output[i+1];
 				}
-- 
2.43.0


From 13b23cc28a19bc1973d500dfdcd1703dd26b9a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:28 +0000
Subject: [PATCH 075/103] fix: SWAP of system variables must not overwrite
 their neighbours

---
 source/subsystem/variables.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/source/subsystem/variables.c b/source/subsystem/variables.c
index 309ca31..02b8512 100644
--- a/source/subsystem/variables.c
+++ b/source/subsystem/variables.c
@@ -33,9 +33,11 @@ void cmd_swap(struct ptc* p){
 		p->res.mem_ptr = mem;
 	}
 	union value c;
-	memcpy(&c, a->value.ptr, sizeof(union value)); // copies from pointed-to number or string
-	memcpy(a->value.ptr, b->value.ptr, sizeof(union value));
-	memcpy(b->value.ptr, &c, sizeof(union value));
+	// Numbers can be system variables, which have no room for a whole union value
+	size_t size = a->type & VAR_STRING ? sizeof(void*) : sizeof(fixp);
+	memcpy(&c, a->value.ptr, size); // copies from pointed-to number or string
+	memcpy(a->value.ptr, b->value.ptr, size);
+	memcpy(b->value.ptr, &c, size);
 }
 
 #define MAX_SORT_ARRAYS 32
-- 
2.43.0


From 5e9807333cd023aef372092bc3fe05117fed9a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:57 +0000
Subject: [PATCH 076/103] fix: ICONPAGE stays in range when assigned together
 with ICONPMAX

---
 source/subsystem/panel.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/subsystem/panel.c b/source/subsystem/panel.c
index 9f125c9..7ce2982 100644
--- a/source/subsystem/panel.c
+++ b/source/subsystem/panel.c
@@ -489,6 +489,7 @@ void syschk_iconpmax(struct ptc* p){
 // if it is outside the valid range. (possibly only if the move places it out of range?)
 // This implementation will reset the value on reads as well though, which it should not.
 void syschk_iconpage(struct ptc* p){
+	syschk_iconpmax(p); // both may have been assigned by the same statement
 	if (p->panel.iconpage > p->panel.iconpmax){
 		p->panel.iconpage = p->panel.iconpmax;
 	} else if (p->panel.iconpage < 0){
-- 
2.43.0


From ad08f0aa4596a66d4c3bed4ed5d957f42ef7103a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:54 +0000
Subject: [PATCH 077/103] fix: moving a touch off the keys read outside of the
 key table, icon page buttons reacted while hidden

---
 source/subsystem/panel.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/source/subsystem/panel.c b/source/subsystem/panel.c
index 7ce2982..8d43e0e 100644
--- a/source/subsystem/panel.c
+++ b/source/subsystem/panel.c
@@ -325,6 +325,17 @@ const char* key_map =
 "\124\124\124\124\xff\125\125\125\125\126\126\127\127\130\130\130\130\xff\131\131\133\133\133\134\134\134\135\135\135\136\136\136"
 ;
 
+/// Returns the sprite ID at the touched location, or \xff if there is none.
+static char touched_key(struct panel* p, int x, int y){
+	char c = key_map[x/8 + 32*(y/8)];
+	if (c == '\131'){
+		if (!p->iconpuse) return '\xff'; // icon page buttons are not visible
+		if (y >= SCREEN_HEIGHT - 12)
+			return '\132'; // icon page down button (the weird height means this had to be a special case)
+	}
+	return c;
+}
+
 void press_key(struct ptc* ptc, bool t, int x, int y){
 	struct panel* p = &ptc->panel;
 	if (!t){
@@ -333,8 +344,8 @@ void press_key(struct ptc* ptc, bool t, int x, int y){
 		p->pressed_time = 0;
 		return; // no touch = no press
 	} else if (t && p->key_pressed){ // touch and hold
-		char c = key_map[x/8 + 32*(y/8)];
-		if (p->keys[(int)c].vars[0] != p->key_pressed){
+		char c = touched_key(p, x, y);
+		if (c == '\xff' || p->keys[(int)c].vars[0] != p->key_pressed){
 			p->key_pressed = 0;
 			p->id_pressed = -1;
 		} else {
@@ -344,10 +355,7 @@ void press_key(struct ptc* ptc, bool t, int x, int y){
 //		return;
 	} else {
 		//press keyboard keys (touching, no previous hold, no previous timer)
-		char c = key_map[x/8 + 32*(y/8)];
-		if (c == '\131' && p->iconpuse && y >= (SCREEN_HEIGHT - 12)){
-			c = '\132'; // icon page down button (the weird height means this had to be a special case)
-		}
+		char c = touched_key(p, x, y);
 		if (c != '\xff'){
 			p->id_pressed = c;
 			p->key_pressed = p->keys[(int)c].vars[0];
-- 
2.43.0


From 453794f29fe912ed3601ff8967587e61407ba58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:57 +0000
Subject: [PATCH 078/103] fix: the INSERT key did not switch text entry to
 replacing characters

---
 source/subsystem/console.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/subsystem/console.c b/source/subsystem/console.c
index b8a31b5..c4cb9a8 100644
--- a/source/subsystem/console.c
+++ b/source/subsystem/console.c
@@ -270,7 +270,7 @@ u16* shared_input(struct ptc* p){
 		if (inkey == '\r'){
 			// don't add this one
 		} else if (inkey && out_index_max < CONSOLE_WIDTH){
-			if ((p->panel.cursor & ~PNL_INSERT)){ // REPLACE mode
+			if (!(p->panel.cursor & PNL_INSERT)){ // REPLACE mode
 				outcol[out_index] = con->col;
 				output[out_index++] = inkey;
 				if (out_index > out_index_max)
-- 
2.43.0


From 2e95c600cd997fdd47b986f3f7902cbe18203294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:59 +0000
Subject: [PATCH 079/103] fix: PNLTYPE kept the layout and key images of the
 previous panel

---
 source/subsystem/panel.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/subsystem/panel.c b/source/subsystem/panel.c
index 8d43e0e..b7132b6 100644
--- a/source/subsystem/panel.c
+++ b/source/subsystem/panel.c
@@ -180,8 +180,10 @@ void cmd_pnltype(struct ptc* p){
 		ERROR(ERR_INVALID_ARGUMENT_VALUE);
 	}
 	if (old_type != p->panel.type){
-		if ((old_type >= PNL_KYA) != (p->panel.type >= PNL_KYA))
+		if (old_type < PNL_KYA || p->panel.type < PNL_KYA)
 			set_panel_bg(p, p->panel.type);
+		if (p->panel.type >= PNL_KYA)
+			refresh_panel(p); // show the keys of this keyboard
 	}
 }
 
-- 
2.43.0


From c22b500e5236562ce8f3729df20c7f826e30da4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:02 +0000
Subject: [PATCH 080/103] fix: INPUT and LINPUT left the keyboard layout on
 other panels

---
 source/subsystem/console.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/subsystem/console.c b/source/subsystem/console.c
index c4cb9a8..b771b41 100644
--- a/source/subsystem/console.c
+++ b/source/subsystem/console.c
@@ -218,6 +218,7 @@ u16* shared_input(struct ptc* p){
 	// enable typing during INPUT/LINPUT if not already active
 	p->panel.type = PNL_KYA; // TODO:IMPL:MED Update panel fully on load
 	set_panel_bg(p, PNL_KYA);
+	refresh_panel(p);
 	int64_t buttons_done = -1; // frame for which the buttons were already handled
 	do {
 		// wait for a frame to pass
@@ -291,6 +292,8 @@ u16* shared_input(struct ptc* p){
 	} while (!p->exec.error && inkey != '\r'
 			&& !check_pressed_manual(&p->input, BUTTON_ID_A, 15, 4));
 	p->panel.type = old_panel;
+	set_panel_bg(p, p->panel.type);
+	if (p->panel.type >= PNL_KYA) refresh_panel(p);
 	p->console.cursor_visible = false;
 	return output;
 }
-- 
2.43.0


From 387bf0ad62984bbfa68364b7e0f9e5b381728dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:06 +0000
Subject: [PATCH 081/103] fix: backgrounds at negative offsets that are not
 multiples of 8 showed other tiles

---
 source/graphics/pc/display_pc.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/graphics/pc/display_pc.c b/source/graphics/pc/display_pc.c
index 2394bc9..2c7bac3 100644
--- a/source/graphics/pc/display_pc.c
+++ b/source/graphics/pc/display_pc.c
@@ -328,8 +328,9 @@ void display_background(struct ptc* p, int screen, int layer){
 //	sfRenderWindow_setView(d->rw, d->view);
 	// 0 - 7 -> 0
 	// tile unit to start at
-	int start_x = (uint32_t)(FP_TO_INT(p->background.ofs[screen][layer].x) / 8) % BG_WIDTH;
-	int start_y = (uint32_t)(FP_TO_INT(p->background.ofs[screen][layer].y) / 8) % BG_HEIGHT;
+	// (unsigned before the division, as offsets can be negative)
+	int start_x = (uint32_t)FP_TO_INT(p->background.ofs[screen][layer].x) / 8 % BG_WIDTH;
+	int start_y = (uint32_t)FP_TO_INT(p->background.ofs[screen][layer].y) / 8 % BG_HEIGHT;
 	// offset within tile
 	float ofs_x = (uint32_t)(FP_TO_INT(p->background.ofs[screen][layer].x)) % 8;
 	float ofs_y = (uint32_t)(FP_TO_INT(p->background.ofs[screen][layer].y)) % 8;
-- 
2.43.0


From f58319061bd1f98e068998fdf1c5715df59d8409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:08 +0000
Subject: [PATCH 082/103] fix: releasing or pressing the last key of the panel
 read past the key table

---
 source/subsystem/panel.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/subsystem/panel.c b/source/subsystem/panel.c
index b7132b6..41f48ba 100644
--- a/source/subsystem/panel.c
+++ b/source/subsystem/panel.c
@@ -451,7 +451,7 @@ int get_pressed_key(struct ptc* ptc){
 
 void offset_key(struct ptc* p, int id, int d){
 	if (id<PANEL_KEYS){
-		for (int i = id; p->panel.keys[i].vars[0] == p->panel.key_pressed && i<PANEL_KEYS; ++i){
+		for (int i = id; i<PANEL_KEYS && p->panel.keys[i].vars[0] == p->panel.key_pressed; ++i){
 			p->panel.keys[i].pos.x += d;
 			p->panel.keys[i].pos.y += d;
 		}
-- 
2.43.0


From 5703f827a2fa037f47b7645b8a169c68e60f1206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:36 +0000
Subject: [PATCH 083/103] fix: stopping the entry of a line in DIRECT mode ran
 the previous line again

---
 source/system.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/system.c b/source/system.c
index 836b352..ef81157 100644
--- a/source/system.c
+++ b/source/system.c
@@ -384,6 +384,9 @@ int launch_system(void* launch_info){
 			case LAUNCH_PROMPT: // DIRECT mode
 				{
 				run(prompt_bc, p); // get prompt
+				if (p->exec.error != ERR_NONE && p->exec.error != ERR_BUTTON_SIGNAL){
+					break; // no line was entered
+				}
 				
 				void* cmd = get_var(&p->vars, "CODE", 4, VAR_STRING)->value.ptr;
 				if (str_comp(cmd, "S\011REM BENCH")){
@@ -405,9 +408,6 @@ int launch_system(void* launch_info){
 					p->exec.error_info[0] = 0; // clear signal info
 					break;
 				}
-				if (p->exec.error == ERR_SHUTDOWN){
-					break;
-				}
 				
 				// execute single line
 				// create small program
-- 
2.43.0


From 1dcbc0e9447893d2a7ecb0a159ec11c1bf28589a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:38 +0000
Subject: [PATCH 084/103] fix: DIRECT mode crashed when a program had used all
 of the variables

---
 source/system.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/system.c b/source/system.c
index ef81157..bb30cdf 100644
--- a/source/system.c
+++ b/source/system.c
@@ -361,6 +361,9 @@ int launch_system(void* launch_info){
 	struct bytecode editor_bc = init_bytecode_size(2 * p->exec.prg.size, params.lines, params.labels);
 	tokenize_full(&p->exec.prg, &editor_bc, p, TOKOPT_VARIABLE_IDS);
 
+	// The prompt needs its variable, even after a program that used all of the others
+	get_var(&p->vars, "CODE", 4, VAR_STRING);
+
 	// Setup complete
 	con_puts(&p->console, "S\45Small BASIC Computer            READY");
 	con_newline(&p->console, true);
-- 
2.43.0


From 876c532f3c950b37c6dbbdb21f4cf8b909e4eedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:40 +0000
Subject: [PATCH 085/103] fix: closing the window while a program was loaded or
 an error shown was lost

---
 source/interpreter/runner.c |  4 ++++
 source/main.c               |  2 +-
 source/system.c             | 10 +++++++++-
 source/system.h             |  8 ++++++++
 4 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/source/interpreter/runner.c b/source/interpreter/runner.c
index 17968b8..f7cb9b1 100644
--- a/source/interpreter/runner.c
+++ b/source/interpreter/runner.c
@@ -209,6 +209,10 @@ ITCM_CODE void _run(struct bytecode code, struct ptc* p, bool init_exec) {
 	p->stack.stack_i = 0;
 
 	while (r->index < r->code.size && !p->exec.error){
+		if (p->shutdown){
+			p->exec.error = ERR_SHUTDOWN;
+			break;
+		}
 		// get one instruction and execute it
 		start_time(&p->time);
 		char instr = r->code.data[r->index++];
diff --git a/source/main.c b/source/main.c
index 7655672..cdc58d0 100644
--- a/source/main.c
+++ b/source/main.c
@@ -314,7 +314,7 @@ int main(int argc, char** argv){
 	sfRenderWindow_destroy(window);
 
 	// this causes program to stop execution after instruction finishes
-	ptc->exec.error = ERR_SHUTDOWN;
+	shutdown_system(ptc);
 	iprintf("Waiting for program thread to terminate\n");
 	thrd_join(prog_thread, NULL);
 
diff --git a/source/system.c b/source/system.c
index bb30cdf..680fb26 100644
--- a/source/system.c
+++ b/source/system.c
@@ -329,6 +329,11 @@ int token_and_run(struct ptc* p, struct program* prg, struct bytecode* bc, int t
 	return p->exec.error;
 }
 
+void shutdown_system(struct ptc* p){
+	p->shutdown = true; // first, as the error may be cleared at any time
+	p->exec.error = ERR_SHUTDOWN;
+}
+
 // this is practically the main function, barring some platform-specific intialization
 int launch_system(void* launch_info){
 	u8 err_msg[CONSOLE_WIDTH*3+2] = {STRING_INLINE_CHAR}; // 3 lines + string metadata (type + length)
@@ -378,7 +383,7 @@ int launch_system(void* launch_info){
 	// TODO:IMPL:LOW Add configuration method for optimizations
 	int opts = TOKOPT_NONE;
 	while (running){
-		running = p->exec.error != ERR_SHUTDOWN;
+		running = !p->shutdown;
 		p->exec.error = ERR_NONE; // prepare for next execution
 		p->calls.stack_i = 0; // TODO:IMPL:MED Determine a better way to handle this
 		int old_state = state;
@@ -469,6 +474,9 @@ int launch_system(void* launch_info){
 		}
 		
 		(void)old_state;
+		if (p->shutdown){
+			p->exec.error = ERR_SHUTDOWN;
+		}
 		// Display error status (for any given execution)
 		iprintf("Error: %s\n", error_messages[p->exec.error]);
 		
diff --git a/source/system.h b/source/system.h
index c1f06da..c31d78c 100644
--- a/source/system.h
+++ b/source/system.h
@@ -66,6 +66,9 @@ struct ptc {
 	struct runner exec;
 	/// Previous state of execution (to be used for CONT and ERR/ERL)
 	struct runner exec_old;
+	/// Set once the system is being stopped; the error alone may be
+	/// replaced while a program is loaded or another error is shown.
+	volatile bool shutdown;
 	
 	struct value_stack stack;
 	
@@ -97,6 +100,11 @@ struct ptc* init_system(int var, int str, int arr, bool headless);
 /// Frees an allocated system.
 void free_system(struct ptc*);
 
+/// Stops the running program and ends launch_system. May be called by another thread.
+///
+/// @param p PTC struct containing system state
+void shutdown_system(struct ptc* p);
+
 /// Information struct containing program source and the system to run it on.
 ///
 /// Used for launching the main thread on PC.
-- 
2.43.0


From aed06ad739376bac334f494e3d940f0e37918651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:17 +0000
Subject: [PATCH 086/103] fix: a program could not be started by its file name
 with extension

---
 source/system.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/source/system.c b/source/system.c
index 680fb26..8ae91b4 100644
--- a/source/system.c
+++ b/source/system.c
@@ -453,7 +453,16 @@ int launch_system(void* launch_info){
 				break;
 				
 			case LAUNCH_AUTOLOAD: // auto load program
-				load_program(p, p->res.search_path, info->prg_filename);
+				{
+				// the name can be given with or without the extension
+				char name[MAX_FILEPATH_LENGTH+1] = {0};
+				strncpy(name, info->prg_filename, MAX_FILEPATH_LENGTH);
+				size_t len = strlen(name);
+				if (len > 4 && !strcmp(name + len - 4, ".PTC")){
+					name[len - 4] = '\0';
+				}
+				load_program(p, p->res.search_path, name);
+				}
 //				p->exec.prg.size = check_load_res((u8*)p->exec.prg.data, p->res.search_path, info->prg_filename, TYPE_PRG);
 				if (!p->exec.prg.size){
 					p->exec.error = ERR_FILE_LOAD_FAILED;
-- 
2.43.0


From 99dba933493f7a246ab4cbbcd488bda8eb5e40a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:19 +0000
Subject: [PATCH 087/103] fix: typed katakana arrived as other characters

---
 source/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/main.c b/source/main.c
index cdc58d0..afd8c02 100644
--- a/source/main.c
+++ b/source/main.c
@@ -255,7 +255,7 @@ int main(int argc, char** argv){
 					}
 				} else if (event.text.unicode >= 12289 && event.text.unicode <= 12540){
 					if (to_char(event.text.unicode) >= 0xa1){
-						set_inkey(&ptc->input, event.text.unicode - 12289);
+						set_inkey(&ptc->input, event.text.unicode);
 					}
 				}
 			}
-- 
2.43.0


From efb7878e9d4773f7cff85d117a9224902e738ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:22 +0000
Subject: [PATCH 088/103] fix: characters of the input file were not converted
 like typed ones

---
 source/main.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/main.c b/source/main.c
index afd8c02..dca0d7e 100644
--- a/source/main.c
+++ b/source/main.c
@@ -261,13 +261,13 @@ int main(int argc, char** argv){
 			}
 		}
 		
-		char input;
+		int input;
 		if (inputs){
 			//read 128 units per frame
 			bool success = true;
 			while(success){
 				if ((input = getc(inputs)) != EOF){
-					success = set_inkey(&ptc->input, input);
+					success = set_inkey(&ptc->input, to_wide(input));
 					if (!success){
 						ungetc(input, inputs);
 					}
-- 
2.43.0


From 4d1742db9c4dc2a7fea343724a12cc9c7f962714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:25 +0000
Subject: [PATCH 089/103] fix: holding the mode key switched the key mode again
 every frame

---
 source/main.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/source/main.c b/source/main.c
index dca0d7e..73fe5b3 100644
--- a/source/main.c
+++ b/source/main.c
@@ -220,6 +220,7 @@ int main(int argc, char** argv){
 	}
 	
 	int key_mode = 0;
+	bool old_mode_key = false;
 	int keys[MODE_COUNT][KEY_COUNT];
 	FILE* file = fopen("resources/config.txt", "r");
 	if (!file){
@@ -286,10 +287,12 @@ int main(int argc, char** argv){
 		}
 		set_input(ptc, b);
 		
-		if (sfKeyboard_isKeyPressed(keys[key_mode][12])){
-			// change input mode
+		bool mode_key = sfKeyboard_isKeyPressed(keys[key_mode][12]);
+		if (mode_key && !old_mode_key){
+			// change input mode (once for each press)
 			key_mode = (key_mode + 1) % MODE_COUNT;
 		}
+		old_mode_key = mode_key;
 		
 		sfVector2i pos = sfMouse_getPosition((sfWindow*)window);
 		sfVector2u window_size = sfRenderWindow_getSize(window);
-- 
2.43.0


From 26a682b3e7e88068a11f0b09b2cfe51284d58132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:27 +0000
Subject: [PATCH 090/103] fix: a touch never ended when the mouse had left the
 lower screen

---
 source/main.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/source/main.c b/source/main.c
index 73fe5b3..dcce72d 100644
--- a/source/main.c
+++ b/source/main.c
@@ -296,15 +296,22 @@ int main(int argc, char** argv){
 		
 		sfVector2i pos = sfMouse_getPosition((sfWindow*)window);
 		sfVector2u window_size = sfRenderWindow_getSize(window);
+		bool touch = false;
+		int touch_x = 0;
+		int touch_y = 0;
 		if (pos.y >= (int)window_size.y / 2){
 			int tchx = SCREEN_WIDTH * pos.x / window_size.x;
 			int tchy = SCREEN_HEIGHT * pos.y / (window_size.y / 2) - SCREEN_HEIGHT;
 			if (tchx < SCREEN_WIDTH && tchx >= 0 && tchy < SCREEN_HEIGHT && tchy >= 0){
 	//			iprintf("%d,%d\n", tchx, tchy);
-				set_touch(&ptc->input, sfMouse_isButtonPressed(0), tchx, tchy);
-				press_key(ptc, sfMouse_isButtonPressed(0), tchx, tchy);
+				touch = sfMouse_isButtonPressed(0);
+				touch_x = tchx;
+				touch_y = tchy;
 			}
 		}
+		// outside of the lower screen nothing is touched
+		set_touch(&ptc->input, touch, touch_x, touch_y);
+		press_key(ptc, touch, touch_x, touch_y);
 
 		step_sprites(&ptc->sprites);
 		step_background(&ptc->background);
-- 
2.43.0


From 4d41382da40cc20d1bd2e63cbdfe7dfeb54ae1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:09 +0000
Subject: [PATCH 091/103] fix: the converter read a palette's last colors from
 behind its buffer

---
 util/ntr_to_ptc.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/util/ntr_to_ptc.c b/util/ntr_to_ptc.c
index 4677bbc..a4be13c 100644
--- a/util/ntr_to_ptc.c
+++ b/util/ntr_to_ptc.c
@@ -101,8 +101,20 @@ int extract_nclr(FILE* f, const char* name){
 	char pltt_header[PLTT_HEADER_SIZE];
 	SAFE_FREAD(pltt_header, sizeof(char), PLTT_HEADER_SIZE, f);
 
-	uint32_t pltt_size = read_u32(pltt_header + CHAR_SIZE_OFS) - CHAR_HEADER_SIZE;
+	uint32_t pltt_size = read_u32(pltt_header + PLTT_SIZE_OFS);
+	// Needs at least one complete palette
+	if (pltt_size < PLTT_HEADER_SIZE + PTC_COL_BANK_SIZE){
+		printf("Palette is too small\n");
+		fclose(f);
+		return FAILURE;
+	}
+	pltt_size -= PLTT_HEADER_SIZE;
 	char* pltt_data = malloc(pltt_size);
+	if (!pltt_data){
+		printf("Failed to allocate %u bytes\n", (unsigned)pltt_size);
+		fclose(f);
+		return FAILURE;
+	}
 	SAFE_FREAD(pltt_data, sizeof(char), pltt_size, f);
 	fclose(f); // done reading; data is stored in memory
 
-- 
2.43.0


From 52cc28792e745c4f73b796a1596b5ab9b0465ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:27 +0000
Subject: [PATCH 092/103] fix: the converter accepted files with an impossible
 character block size

---
 util/ntr_to_ptc.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/util/ntr_to_ptc.c b/util/ntr_to_ptc.c
index a4be13c..0248726 100644
--- a/util/ntr_to_ptc.c
+++ b/util/ntr_to_ptc.c
@@ -148,8 +148,19 @@ int extract_ncgr(FILE* f, const char* prefix){
 	char char_header[CHAR_HEADER_SIZE];
 	SAFE_FREAD(char_header, sizeof(char), CHAR_HEADER_SIZE, f);
 
-	uint32_t char_size = read_u32(char_header + CHAR_SIZE_OFS) - CHAR_HEADER_SIZE;
+	uint32_t char_size = read_u32(char_header + CHAR_SIZE_OFS);
+	if (char_size < CHAR_HEADER_SIZE){
+		printf("Invalid CHAR size\n");
+		fclose(f);
+		return FAILURE;
+	}
+	char_size -= CHAR_HEADER_SIZE;
 	char* char_data = malloc(char_size);
+	if (!char_data){
+		printf("Failed to allocate %u bytes\n", (unsigned)char_size);
+		fclose(f);
+		return FAILURE;
+	}
 	SAFE_FREAD(char_data, sizeof(char), char_size, f);
 	fclose(f); // done reading; data is stored in memory
 
-- 
2.43.0


From 442665c8fbf55c4eaa0267fae6f61a57407c1eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:36 +0000
Subject: [PATCH 093/103] fix: INPUT and LINPUT: text that was on the line
 before is not part of the entered line

---
 source/subsystem/console.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/subsystem/console.c b/source/subsystem/console.c
index b771b41..5221530 100644
--- a/source/subsystem/console.c
+++ b/source/subsystem/console.c
@@ -210,6 +210,8 @@ u16* shared_input(struct ptc* p){
 	uint_fast8_t keyboard;
 	u16* output = con->text[con->y]; // start of current line
 	u8* outcol = con->color[con->y];
+	// what was on the line before is not part of what is entered
+	memset(output, 0, sizeof(con->text[0]));
 
 	uint_fast8_t out_index = 0;
 	uint_fast8_t out_index_max = 0;
-- 
2.43.0


From caf24badcdf7608256cb85772c2dd50521744938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:37 +0000
Subject: [PATCH 094/103] fix: a line with a compile error left a part of its
 code behind, an IF without end skipped later lines

---
 source/interpreter/tokens.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index c11d9cb..fd5822a 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -276,9 +276,12 @@ int tokenize_full(struct program* src, struct bytecode* out, void* system, int o
 //				iprintf("[line_token] ");
 //				print_token(&state, state.tokens[i]);
 //			}
+			u32 line_start = state.output->size;
 			error = tok_convert(&state);
 			if (error != ERR_NONE){
 				if (opts & TOKOPT_STRICT_ERROR) break;
+				// Nothing of the line is kept: an incomplete IF would skip later lines
+				state.output->size = line_start;
 				state.output->data[state.output->size++] = BC_ERROR;
 				state.output->data[state.output->size++] = error;
 				error = ERR_NONE;
-- 
2.43.0


From 0501203560c083b8e59e5bba07d2c496fa70a941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:37 +0000
Subject: [PATCH 095/103] fix: READ accepted texts that are not numbers, like
 1-2 or 1.2.3

---
 source/interpreter/data.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/interpreter/data.c b/source/interpreter/data.c
index 1f2831a..1441c26 100644
--- a/source/interpreter/data.c
+++ b/source/interpreter/data.c
@@ -46,9 +46,11 @@ int read_one_u8(struct ptc* p, const u8* src, size_t len, struct stack_entry* de
 		}
 		// Read number!
 		size_t number_start = i;
+		bool has_point = false;
 		for (; i < len; ++i){
 			u8 c = src[i];
-			if (is_number(c) || c == '-' || c == '.'){
+			if (is_number(c) || (c == '-' && i == number_start) || (c == '.' && !has_point)){
+				has_point |= c == '.';
 				iprintf(":%c", c);
 			} else if (c == BC_DATA_DELIM){ 
 				break; // stop reading here
-- 
2.43.0


From 956f88abcfdfd1d1886ad350df148a956b00e37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:37 +0000
Subject: [PATCH 096/103] fix: SORT permuted an array that is listed twice back
 again

---
 source/subsystem/variables.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/source/subsystem/variables.c b/source/subsystem/variables.c
index 02b8512..74f38b4 100644
--- a/source/subsystem/variables.c
+++ b/source/subsystem/variables.c
@@ -152,21 +152,26 @@ void _cmd_sort_shared(struct ptc* p, comparison comp){
 	if (arr_size(data, ARR_DIM2) != ARR_DIM2_UNUSED){
 		ERROR(ERR_SORT_2D);
 	}
+	int extra_count = 0;
 	for (int k = 3; k < p->stack.stack_i; ++k){
-		extra[k-3] = sort_array(p, stack_get(&p->stack, k));
-		if (!extra[k-3]) ERROR(ERR_OUT_OF_MEMORY);
-		if ((int)arr_size(extra[k-3], ARR_DIM1) < array_min_size){
-			array_min_size = arr_size(extra[k-3], ARR_DIM1);
+		union value* arr = sort_array(p, stack_get(&p->stack, k));
+		if (!arr) ERROR(ERR_OUT_OF_MEMORY);
+		if ((int)arr_size(arr, ARR_DIM1) < array_min_size){
+			array_min_size = arr_size(arr, ARR_DIM1);
 		}
-		if (arr_size(extra[k-3], ARR_DIM2) != ARR_DIM2_UNUSED){
+		if (arr_size(arr, ARR_DIM2) != ARR_DIM2_UNUSED){
 			ERROR(ERR_SORT_2D);
 		}
-		if (extra[k-3] == data){
+		if (arr == data){
 			// This does not work in this implemtation but would be valid in PTC
 			// TODO:IMPL:NONE Implement this...? (Is it possible with remaining memory?)
 			ERROR(ERR_SORT_SAME_ARRAY);
 		}
-		extra[k-3] += 2; // move past dimension info
+		arr += 2; // move past dimension info
+		// an array that is listed twice must still be permuted only once
+		int i = 0;
+		while (i < extra_count && extra[i] != arr) ++i;
+		if (i == extra_count) extra[extra_count++] = arr;
 	}
 //	iprintf("%d\n", array_min_size);
 	STACK_INT_RANGE(0,0,array_min_size-1,start);
-- 
2.43.0


From 06952fbc3a6a26b22a0968ea741a62e118b9cac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:37 +0000
Subject: [PATCH 097/103] fix: one subscript reached behind a two-dimensional
 array without rows

---
 source/interpreter/vars.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/interpreter/vars.c b/source/interpreter/vars.c
index 9820b16..5ee32b0 100644
--- a/source/interpreter/vars.c
+++ b/source/interpreter/vars.c
@@ -171,8 +171,9 @@ union value* get_arr_entry_via_ptr(struct variables* v, union value* arr, u32 ix
 	// array exists and is stored in ptr
 	if (ix < arr_size(arr->ptr, ARR_DIM1)){
 		if (iy == ARR_DIM2_UNUSED){
-			return arr_entry(arr->ptr, ix, 0);
-		} else if (iy < (arr_size(arr->ptr, ARR_DIM2) == ARR_DIM2_UNUSED ? 1 : arr_size(arr->ptr, ARR_DIM2))){
+			iy = 0; // the first row, which a 2D array of size 0 does not have
+		}
+		if (iy < (arr_size(arr->ptr, ARR_DIM2) == ARR_DIM2_UNUSED ? 1 : arr_size(arr->ptr, ARR_DIM2))){
 			return arr_entry(arr->ptr, ix, iy);
 		} else {
 			v->error = ERR_SUBSCRIPT_OUT_OF_RANGE_Y;
-- 
2.43.0


From 89a744fca597e132b611d908f1d53340486fdcd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:39 +0000
Subject: [PATCH 098/103] fix: INPUT took texts like 1-2 or 9999999 as numbers
 and lost its place after a space

---
 source/subsystem/console.c | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/source/subsystem/console.c b/source/subsystem/console.c
index 5221530..e510e5c 100644
--- a/source/subsystem/console.c
+++ b/source/subsystem/console.c
@@ -327,6 +327,29 @@ void con_reprompt(struct console* con, void* prompt_str){
 	con_prompt(con, prompt_str);
 }
 
+/// Converts a value entered for a number: a decimal number, spaces can follow.
+///
+/// @return false if the text is not a number or the number is too big
+static bool input_number(u8* text, int len, fixp* result){
+	while (len && text[len-1] == ' ') --len;
+	bool has_digit = false;
+	bool has_point = false;
+	for (int i = 0; i < len; ++i){
+		if (is_number(text[i])){
+			has_digit = true;
+		} else if (text[i] == '.' && !has_point){
+			has_point = true;
+		} else if (text[i] != '-' || i != 0){
+			return false;
+		}
+	}
+	if (!has_digit) return false;
+	int64_t n = u8_to_num(text, len);
+	if (n < INT32_MIN || n > INT32_MAX) return false;
+	*result = n;
+	return true;
+}
+
 void cmd_input(struct ptc* p){
 	struct console* con = &p->console;
 	// INPUT [prompt;]var[,var...]
@@ -385,23 +408,16 @@ void cmd_input(struct ptc* p){
 			u8 c = out_i < CONSOLE_WIDTH ? to_char(output[out_i]) : '\0';
 			conversion_copy[out_i++] = c;
 			if (e->type == (VAR_NUMBER | VAR_VARIABLE)){
-				// validate first entry is numeric
-				if (is_number(c) || c == '.' || c == '-'){
-				} else if (c == ',' || c == '\0' || c == ' '){
+				if (c == ',' || c == '\0'){
 					// convert from previous to out_i
-					if (out_i - prev_i - 1 == 0){
+					fixp n;
+					if (!input_number(&conversion_copy[prev_i], out_i - prev_i - 1, &n)){
 						valid = false;
 						break;
 					}
-					fixp n = u8_to_num(&conversion_copy[prev_i], out_i - prev_i - 1);
 					prev_i = out_i;
 					*(fixp*)e->value.ptr = n; //store result to variable
 					++i;
-					
-				} else {
-					// invalid character
-					valid = false;
-					break;
 				}
 			} else if (e->type == (VAR_STRING | VAR_VARIABLE)){
 				if (c == ',' || c == '\0'){
-- 
2.43.0


From b6c88c31811a07f1af8b19b697e6f7ca21bf631f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:30 +0000
Subject: [PATCH 099/103] fix: strings and names of more than 127 characters in
 a line were read wrong

---
 source/interpreter/runner.c | 4 ++--
 source/interpreter/tokens.c | 7 ++++---
 source/interpreter/tokens.h | 2 +-
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/source/interpreter/runner.c b/source/interpreter/runner.c
index f7cb9b1..b7fa6b1 100644
--- a/source/interpreter/runner.c
+++ b/source/interpreter/runner.c
@@ -216,7 +216,7 @@ ITCM_CODE void _run(struct bytecode code, struct ptc* p, bool init_exec) {
 		// get one instruction and execute it
 		start_time(&p->time);
 		char instr = r->code.data[r->index++];
-		char data = r->code.data[r->index++];
+		u8 data = r->code.data[r->index++]; // also lengths up to 255
 		
 		iprintf("%c ", instr);
 		
@@ -446,7 +446,7 @@ ITCM_CODE void _run(struct bytecode code, struct ptc* p, bool init_exec) {
 				iprintf("name=");
 				if (data >= 'A'){
 					iprintf("%c ", data);
-					v = get_new_arr_var(&p->vars, &data, 1, VAR_NUMBER | VAR_ARRAY, a, b);
+					v = get_new_arr_var(&p->vars, (char*)&data, 1, VAR_NUMBER | VAR_ARRAY, a, b);
 				} else {
 					char* x = (char*)&r->code.data[r->index];
 					iprintf("%.*s", data, x);
diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index fd5822a..b1e5a24 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -882,9 +882,10 @@ int tok_code(struct tokenizer* state){
 				break;
 			
 			case string:
+				if (state->tokens[i].len > 255) return ERR_STRING_TOO_LONG; // length is stored in a byte
 				data[(*size)++] = BC_STRING;
 				data[(*size)++] = state->tokens[i].len;
-				for (int j = 0; j < state->tokens[i].len; ++j){
+				for (u32 j = 0; j < state->tokens[i].len; ++j){
 					data[(*size)++] = state->source->data[state->tokens[i].ofs + j];
 				}
 				if (*size % 2){
@@ -963,7 +964,7 @@ int tok_code(struct tokenizer* state){
 						data[(*size)++] = state->source->data[state->tokens[i].ofs];
 					} else {
 						data[(*size)++] = state->tokens[i].len;
-						for (int j = 0; j < state->tokens[i].len; ++j){
+						for (u32 j = 0; j < state->tokens[i].len; ++j){
 							data[(*size)++] = state->source->data[state->tokens[i].ofs + j];
 						}
 						if (*size % 2){
@@ -997,7 +998,7 @@ int tok_code(struct tokenizer* state){
 			case label_string:
 				data[(*size)++] = state->tokens[i].type == label ? BC_LABEL : BC_LABEL_STRING;
 				data[(*size)++] = state->tokens[i].len;
-				for (int j = 0; j < state->tokens[i].len; ++j){
+				for (u32 j = 0; j < state->tokens[i].len; ++j){
 					data[(*size)++] = state->source->data[state->tokens[i].ofs + j];
 				}
 				if (*size % 2){
diff --git a/source/interpreter/tokens.h b/source/interpreter/tokens.h
index 5b9bb4d..ee03bd3 100644
--- a/source/interpreter/tokens.h
+++ b/source/interpreter/tokens.h
@@ -83,7 +83,7 @@ struct token {
 	} type;
 	idx ofs;
 	union {
-		u8 len;
+		u32 len; // can be any part of a line
 		u8 cmd;
 	};
 	u16 prio;
-- 
2.43.0


From f4c6d909380d487a8c0b510d2d1a345c57f5d4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:30 +0000
Subject: [PATCH 100/103] fix: DATA lines of more than 127 characters ran as
 other instructions

---
 source/interpreter/tokens.c | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index b1e5a24..88fbdd2 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -728,6 +728,7 @@ int tok_data(struct tokenizer* state, struct token start_t, char* data, idx* siz
 	data[(*size)++] = BC_DATA;
 	char* data_size = &data[(*size)++]; // write as copying characters
 	*data_size = 0;
+	idx item = *size; // start of the current item
 
 	iprintf("Data [%d,%d)\n", start, end);
 	enum bc_data_state {
@@ -793,9 +794,24 @@ int tok_data(struct tokenizer* state, struct token start_t, char* data, idx* siz
 				break;
 		}
 
+		if ((u8)*data_size == 255){
+			// this block is full: the current item moves to the next one
+			idx item_size = *size - item;
+			if (item_size == 255) return ERR_STRING_TOO_LONG;
+			*data_size = 255 - item_size;
+			idx next = item + (*data_size & 1);
+			memmove(&data[next + 2], &data[item], item_size);
+			if (*data_size & 1) data[item] = 0; // pad to keep instructions aligned
+			data[next] = BC_DATA;
+			data_size = &data[next + 1];
+			*data_size = item_size;
+			item = next + 2;
+			*size = item + item_size;
+		}
 		// Add character to output
 		data[(*size)++] = c;
 		(*data_size)++;
+		if (c == BC_DATA_DELIM) item = *size;
 	}
 
 	if (*size % 2){
@@ -839,7 +855,8 @@ int tok_code(struct tokenizer* state){
 				bool first_of_line = state->tokens[i].type == first_of_line_command;
 				state->tokens[i].type = command;
 				if (state->tokens[i].cmd == CMD_DATA){
-					tok_data(state, state->tokens[i], data, size);
+					int data_res = tok_data(state, state->tokens[i], data, size);
+					if (data_res != ERR_NONE) return data_res;
 				} else {
 					// convert token to command
 	//				iprintf("command: %d, %d\n", j, state->tokens[i].cmd);
-- 
2.43.0


From 2f6b3b982f6bea4298b0fc8f249ef841acb1146a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:35 +0000
Subject: [PATCH 101/103] fix: each ACLS and each load of a compressed file
 used up memory until it ran out

---
 source/subsystem/resources.c | 7 ++++---
 source/system.c              | 7 +++++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/source/subsystem/resources.c b/source/subsystem/resources.c
index bf2fc57..f459b5e 100644
--- a/source/subsystem/resources.c
+++ b/source/subsystem/resources.c
@@ -463,17 +463,18 @@ int check_load_file(u8* dest, const char* search_path, const char* name, int siz
 
 		// Each byte needs at most 9 bits, extra bytes are zero
 		int compressed_size = size + size / 8 + 1;
-		u8* compressed = calloc_log("check_load_file", 1, compressed_size);
+		// (not from the block allocator, which can't reuse memory)
+		u8* compressed = calloc(1, compressed_size);
 		if (!compressed){
 			FILE_CLOSE("Not enough memory to load compressed file");
 		}
 		size_read = fread(compressed, sizeof(u8), compressed_size, f);
 		if (ferror(f) || !size_read){
-			free_log("check_load_file", compressed);
+			free(compressed);
 			FILE_CLOSE("Failed to read file");
 		}
 		sbc_decompress(compressed, dest, size, bits);
-		free_log("check_load_file", compressed);
+		free(compressed);
 
 		FILE_OK();
 	} else {
diff --git a/source/system.c b/source/system.c
index 8ae91b4..18e2a02 100644
--- a/source/system.c
+++ b/source/system.c
@@ -90,8 +90,12 @@ struct labels acls_labels = {0};
 void cmd_acls(struct ptc* p){
 	// copy vars and use a temp variables for this snippet
 	struct runner cur_exec = p->exec; // copy code state
+	// (fixed storage: memory allocated for each use would never be reused)
+	static struct named_var acls_vars[4]; //P,I
+	memset(acls_vars, 0, sizeof(acls_vars));
 	struct variables temp_vars = {0};
-	init_mem_var(&temp_vars, 4); //P,I
+	temp_vars.vars = acls_vars;
+	temp_vars.vars_max = 4;
 	struct variables vars = p->vars;
 	p->vars = temp_vars;
 	
@@ -107,7 +111,6 @@ void cmd_acls(struct ptc* p){
 	
 	// Restore proper program variable state, even when stopped by an error
 	p->vars = vars;
-	free_mem_var(&temp_vars);
 }
 
 void cmd_visible(struct ptc* p){
-- 
2.43.0


From 9dfa51a3524fb13a58cf0555b3663765566e79f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:22 +0000
Subject: [PATCH 102/103] fix: a comma at the end of a command was ignored when
 a comment or ELSE followed

---
 source/interpreter/tokens.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index 88fbdd2..0c0bceb 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -1162,7 +1162,9 @@ int tok_eval(struct tokenizer* state){
 				if (state->tokens[i].cmd == OP_SEMICOLON){
 					e.result[e.result_i++] = state->tokens[i];
 				} else { // must be a comma here
-					if (!e.result_i || state->tokens[i+1].type == newline || (i>0 && state->tokens[i-1].prio % 8 == 1)){
+					struct token* next = &state->tokens[i+1];
+					bool is_last = next->type == newline || next->type == comment || (next->type == command && next->cmd == CMD_ELSE);
+					if (!e.result_i || is_last || (i>0 && state->tokens[i-1].prio % 8 == 1)){
 						e.result[e.result_i++] = state->tokens[i];
 					}
 				}
-- 
2.43.0


From 2343dab17f29321e764e39f04f3a05fe784fab6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:22 +0000
Subject: [PATCH 103/103] fix: GPUTCHR with "BGU" took the colors of the upper
 screen while drawing characters of the lower one

---
 source/subsystem/graphics.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/subsystem/graphics.c b/source/subsystem/graphics.c
index 52f363f..437f9b8 100644
--- a/source/subsystem/graphics.c
+++ b/source/subsystem/graphics.c
@@ -253,7 +253,8 @@ void cmd_gputchr(struct ptc* p){
 		col_resource[3] = str_at_char(resource, 0) == 'B' ? '0' : '1';
 		// take page hint from resource given
 		char maybe_page = str_at_char(resource, str_len(resource) - 1);
-		if (maybe_page == 'L' || maybe_page == 'U'){
+		// (the U of "BGU" is part of the type)
+		if (str_len(resource) > 3 && (maybe_page == 'L' || maybe_page == 'U')){
 			col_resource[4] = maybe_page;
 		}
 
-- 
2.43.0

