From ccabb8db018abbdbb034e0927687200936058d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:00 +0000
Subject: [PATCH 01/37] fix: report out of memory when no free string is left

---
 source/extension/sbc_memory.c  | 1 +
 source/interpreter/data.c      | 5 +++++
 source/interpreter/operators.c | 8 +++++---
 source/interpreter/strfuncs.c  | 5 +++++
 source/subsystem/background.c  | 1 +
 source/subsystem/console.c     | 2 ++
 source/subsystem/resources.c   | 3 +++
 source/subsystem/sysvars.c     | 2 ++
 8 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/source/extension/sbc_memory.c b/source/extension/sbc_memory.c
index 1752027..cc411d4 100644
--- a/source/extension/sbc_memory.c
+++ b/source/extension/sbc_memory.c
@@ -300,6 +300,7 @@ void func_addr(struct ptc* p){
 
 void func_ptr(struct ptc* p){
 	struct string* out_str = get_new_str(&p->strs);
+	if (!out_str) ERROR(ERR_OUT_OF_MEMORY);
 	
 	fixp ptr = STACK_REL_NUM(-1);
 	--p->stack.stack_i;
diff --git a/source/interpreter/data.c b/source/interpreter/data.c
index a384d64..d49029f 100644
--- a/source/interpreter/data.c
+++ b/source/interpreter/data.c
@@ -16,6 +16,10 @@ int read_one_u8(struct ptc* p, const u8* src, size_t len, struct stack_entry* de
 	if (dest->type == (VAR_VARIABLE | VAR_STRING)){
 		// Create new string
 		struct string* s = get_new_str(&p->strs);
+		if (!s) {
+			p->exec.error = ERR_OUT_OF_MEMORY;
+			return READ_ONE_ERR;
+		}
 		// Remove a use if variable had a string aleady
 		value_str(dest);
 		
@@ -104,6 +108,7 @@ void cmd_read(struct ptc* p){
 		
 		int read = read_one_u8(p, data_src, block_size - p->exec.data_offset, ARG(i));
 		if (read == READ_ONE_ERR){
+			if (p->exec.error) return; // reason is already known
 			ERROR(ERR_READ_FAILURE);
 		}
 		p->exec.data_offset += read;
diff --git a/source/interpreter/operators.c b/source/interpreter/operators.c
index 38d9e0c..03f13e5 100644
--- a/source/interpreter/operators.c
+++ b/source/interpreter/operators.c
@@ -31,6 +31,7 @@ void op_add(struct ptc* p){
 	} else {
 		// The value_str function checks uses to get the next string
 		struct string* z = get_new_str(&p->strs);
+		if (!z) ERROR(ERR_OUT_OF_MEMORY);
 		struct string* x = value_str(a);
 		struct string* y = value_str(b);
 		z->uses = 1;
@@ -77,6 +78,7 @@ void op_mult(struct ptc* p){
 		
 		// must be done first to keep uses correct
 		struct string* y = get_new_str(&p->strs);
+		if (!y) ERROR(ERR_OUT_OF_MEMORY);
 		struct string* x = value_str(a);
 		
 		y->uses = 1;
@@ -151,6 +153,9 @@ void op_assign(struct ptc* p){
 		assert(*dest); // must contain a valid string already
 		// char dest_old_type = (*dest)->type;
 		
+		if (!new_alloc && (src->type == BC_STRING || src == &p->res.mem_str)){
+			ERROR(ERR_OUT_OF_MEMORY); // failed to alloc string
+		}
 		if (is_dyn_str(*dest)){
 			// dest is dynamic: we replace it here, so reduce uses count
 			(*dest)->uses--;
@@ -161,9 +166,6 @@ void op_assign(struct ptc* p){
 			*dest = src;
 			(*dest)->uses++;
 		} else if (src->type == BC_STRING){
-			if (!new_alloc) {
-				ERROR(ERR_OUT_OF_MEMORY); // failed to alloc string
-			}
 			str_copy(src, new_alloc);
 			++new_alloc->uses;
 			*dest = new_alloc;
diff --git a/source/interpreter/strfuncs.c b/source/interpreter/strfuncs.c
index ea3bb84..8061c60 100644
--- a/source/interpreter/strfuncs.c
+++ b/source/interpreter/strfuncs.c
@@ -41,6 +41,7 @@ void func_mid(struct ptc* p){
 		len = max_len;
 	}
 	
+	if (!dest) ERROR(ERR_OUT_OF_MEMORY);
 	dest->uses = 1;
 	dest->len = len;
 	
@@ -84,6 +85,7 @@ void func_str(struct ptc* p){
 	fixp n = STACK_REL_NUM(-1);
 	
 	struct string* s = get_new_str(&p->strs);
+	if (!s) ERROR(ERR_OUT_OF_MEMORY);
 	
 	fixp_to_str(n, s);
 	s->uses = 1;
@@ -156,6 +158,7 @@ void func_chr(struct ptc* p){
 void func_subst(struct ptc* p){
 	// Note: must be allocated here to ensure use count of str, repl are included
 	struct string* dest = get_new_str(&p->strs);
+	if (!dest) ERROR(ERR_OUT_OF_MEMORY);
 
 	// argument validation
 	int start;
@@ -217,6 +220,7 @@ void _func_substring(struct ptc* p, bool right){
 	}
 	if (count > max_len) count = max_len;
 
+	if (!dest) ERROR(ERR_OUT_OF_MEMORY);
 	dest->uses = 1;
 	dest->len = count;
 
@@ -262,6 +266,7 @@ void func_hex(struct ptc* p){
 		num &= 0x0fffff >> 4*(5-digits);
 	}
 	int len = 0;
+	if (!dest) ERROR(ERR_OUT_OF_MEMORY);
 	// once again we can just force the type to work here. there will always be enough space.
 	dest->type = STRING_CHAR;
 	sprintf((char*)dest->ptr.s, "%0*X%n", digits, num, &len);
diff --git a/source/subsystem/background.c b/source/subsystem/background.c
index a023580..d83c003 100644
--- a/source/subsystem/background.c
+++ b/source/subsystem/background.c
@@ -228,6 +228,7 @@ void cmd_bgread(struct ptc* p){
 			*tile = INT_TO_FP(tiledata);
 		} else {
 			struct string* dest = get_new_str(&p->strs);
+			if (!dest) ERROR(ERR_OUT_OF_MEMORY);
 			void** tile = ARG(3)->value.ptr; // pointer to string (which is itself a pointer)
 //			fixp_to_str(INT_TO_FP(tiledata), dest);
 			dest->ptr.s[0] = hex_digits[(tiledata & 0xF000) >> 12];
diff --git a/source/subsystem/console.c b/source/subsystem/console.c
index 08e9ba6..2b85027 100644
--- a/source/subsystem/console.c
+++ b/source/subsystem/console.c
@@ -378,6 +378,7 @@ void cmd_input(struct ptc* p){
 			} else if (e->type == (VAR_STRING | VAR_VARIABLE)){
 				if (c == ',' || c == '\0' || out_i >= CONSOLE_WIDTH){
 					struct string* s = get_new_str(&p->strs);
+					if (!s) ERROR(ERR_OUT_OF_MEMORY);
 					
 					if (*(void**)e->value.ptr != NULL && **(char**)e->value.ptr == STRING_CHAR){
 						(*(struct string**)e->value.ptr)->uses--;
@@ -440,6 +441,7 @@ void cmd_linput(struct ptc* p){
 
 	// Now store the result to a new string
 	struct string* s = get_new_str(&p->strs);
+	if (!s) ERROR(ERR_OUT_OF_MEMORY);
 	
 	if (*(void**)e->value.ptr != NULL && **(char**)e->value.ptr == STRING_CHAR){
 		(*(struct string**)e->value.ptr)->uses--;
diff --git a/source/subsystem/resources.c b/source/subsystem/resources.c
index 1f93206..9ba4640 100644
--- a/source/subsystem/resources.c
+++ b/source/subsystem/resources.c
@@ -908,6 +908,7 @@ void cmd_chrread(struct ptc* p){
 
 	if (TYPE_CHR == info.type_id){
 		// resource is valid
+		if (!dest) ERROR(ERR_OUT_OF_MEMORY);
 		u8* chr_data = (u8*)info.data + 32*id;
 		// convert this to string
 		for (int i = 0; i < 32; ++i){
@@ -1216,6 +1217,7 @@ void sys_result(struct ptc* p){
 
 void sys_package(struct ptc* p){
 	struct string* str = get_new_str(&p->strs);
+	if (!str) ERROR(ERR_OUT_OF_MEMORY);
 	str->type = STRING_CHAR;
 	str->uses = 1;
 	int i = 0;
@@ -1235,6 +1237,7 @@ void sys_package(struct ptc* p){
 
 void sys_prgname(struct ptc* p){
 	struct string* str = get_new_str(&p->strs);
+	if (!str) ERROR(ERR_OUT_OF_MEMORY);
 	str->type = STRING_CHAR;
 	str->uses = 1;
 	str->len = strlen(p->res.prgname);
diff --git a/source/subsystem/sysvars.c b/source/subsystem/sysvars.c
index 5fd0eb4..d5c0350 100644
--- a/source/subsystem/sysvars.c
+++ b/source/subsystem/sysvars.c
@@ -47,6 +47,7 @@ void sys_date(struct ptc* p){
 	int year = tm->tm_year + 1900;
 	
 	struct string* str = get_new_str(&p->strs);
+	if (!str) ERROR(ERR_OUT_OF_MEMORY);
 	str->type = STRING_CHAR;
 	str->uses = 1;
 	str->len = 10;
@@ -75,6 +76,7 @@ void sys_time(struct ptc* p){
 	int sec = tm->tm_sec;
 	
 	struct string* str = get_new_str(&p->strs);
+	if (!str) ERROR(ERR_OUT_OF_MEMORY);
 	str->type = STRING_CHAR;
 	str->uses = 1;
 	str->len = 8;
-- 
2.43.0


From 2d552f2a0a70243466dbbcc94c8c61bc0c498fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:17 +0000
Subject: [PATCH 02/37] fix: release the string a variable held when a
 statement replaces it, and do not leak new strings on errors; SUBST$ checks
 the whole result length

---
 source/interpreter/data.c      | 6 +++---
 source/interpreter/operators.c | 8 ++++----
 source/interpreter/strfuncs.c  | 4 ++--
 source/subsystem/background.c  | 2 ++
 source/subsystem/console.c     | 4 ++--
 source/subsystem/resources.c   | 1 +
 6 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/source/interpreter/data.c b/source/interpreter/data.c
index d49029f..ee4053d 100644
--- a/source/interpreter/data.c
+++ b/source/interpreter/data.c
@@ -20,9 +20,6 @@ int read_one_u8(struct ptc* p, const u8* src, size_t len, struct stack_entry* de
 			p->exec.error = ERR_OUT_OF_MEMORY;
 			return READ_ONE_ERR;
 		}
-		// Remove a use if variable had a string aleady
-		value_str(dest);
-		
 		// create destination and copy characters
 		for (; i < len && src[i] != BC_DATA_DELIM; ++i){
 			if (src[i] == BC_DATA_ERROR){
@@ -32,6 +29,9 @@ int read_one_u8(struct ptc* p, const u8* src, size_t len, struct stack_entry* de
 		str_copy_buf(src, (void*)s->ptr.s, STR_COPY_SRC_8 | (str_type(s) << STR_COPY_DEST), i - start);
 		s->len = i - start;
 		
+		// Remove a use if variable had a string already
+		struct string* old = value_str(dest);
+		if (is_dyn_str(old)) old->uses--;
 		// Assign new string to variable
 		(*(struct string**)dest->value.ptr) = s;
 		s->uses = 1;
diff --git a/source/interpreter/operators.c b/source/interpreter/operators.c
index 03f13e5..f5d0b67 100644
--- a/source/interpreter/operators.c
+++ b/source/interpreter/operators.c
@@ -34,11 +34,11 @@ void op_add(struct ptc* p){
 		if (!z) ERROR(ERR_OUT_OF_MEMORY);
 		struct string* x = value_str(a);
 		struct string* y = value_str(b);
-		z->uses = 1;
 		
 		if (str_len(x) + str_len(y) > MAX_STRLEN){
 			ERROR(ERR_STRING_TOO_LONG);
 		}
+		z->uses = 1;
 		
 		str_concat(x, y, z);
 		
@@ -81,12 +81,12 @@ void op_mult(struct ptc* p){
 		if (!y) ERROR(ERR_OUT_OF_MEMORY);
 		struct string* x = value_str(a);
 		
-		y->uses = 1;
-		y->len = 0; // start empty
-		if (count * str_len(x) > MAX_STRLEN){
+		if ((int64_t)count * str_len(x) > MAX_STRLEN){
 			p->exec.error = ERR_STRING_TOO_LONG;
 			return;
 		}
+		y->uses = 1;
+		y->len = 0; // start empty
 		
 		for (int i = 0; i < count; ++i){
 			str_concat(y, x, y);
diff --git a/source/interpreter/strfuncs.c b/source/interpreter/strfuncs.c
index 8061c60..3012894 100644
--- a/source/interpreter/strfuncs.c
+++ b/source/interpreter/strfuncs.c
@@ -173,15 +173,15 @@ void func_subst(struct ptc* p){
 		count = len; // replaces all if less than max
 	}
 	int repl_len = str_len(repl);
+	int remaining = len-start-count;
+	if (start + repl_len + (remaining > 0 ? remaining : 0) > MAX_STRLEN) ERROR(ERR_STRING_TOO_LONG);
 	// actual copying
 	dest->uses = 1;
-	if (start + repl_len > MAX_STRLEN) ERROR(ERR_STRING_TOO_LONG);
 
 	str_copy_buf(str_at(str, 0), dest->ptr.s, str_type(str) | (str_type(dest) << STR_COPY_DEST), start);
 //	iprintf("%s\n",dest->ptr.s);
 	str_copy_buf(str_at(repl, 0), str_at(dest, start), str_type(repl) | (str_type(dest) << STR_COPY_DEST), str_len(repl));
 //	iprintf("%s\n",dest->ptr.s);
-	int remaining = str_len(str)-start-count;
 	if (remaining > 0)
 		str_copy_buf(str_at(str, start+count), str_at(dest, start + str_len(repl)), str_type(str) | (str_type(dest) << STR_COPY_DEST), remaining);
 //	iprintf("%s\n",dest->ptr.s);
diff --git a/source/subsystem/background.c b/source/subsystem/background.c
index d83c003..a039ab7 100644
--- a/source/subsystem/background.c
+++ b/source/subsystem/background.c
@@ -236,7 +236,9 @@ void cmd_bgread(struct ptc* p){
 			dest->ptr.s[2] = hex_digits[(tiledata & 0x00F0) >> 4];
 			dest->ptr.s[3] = hex_digits[(tiledata & 0x000F) >> 0];
 			dest->len = 4;
+			dest->type = STRING_CHAR; // force smaller type is always safe
 			dest->uses = 1;
+			if (is_dyn_str(*tile)) ((struct string*)*tile)->uses--;
 			*tile = dest;
 		}
 	} else {
diff --git a/source/subsystem/console.c b/source/subsystem/console.c
index 2b85027..75f70ec 100644
--- a/source/subsystem/console.c
+++ b/source/subsystem/console.c
@@ -380,7 +380,7 @@ void cmd_input(struct ptc* p){
 					struct string* s = get_new_str(&p->strs);
 					if (!s) ERROR(ERR_OUT_OF_MEMORY);
 					
-					if (*(void**)e->value.ptr != NULL && **(char**)e->value.ptr == STRING_CHAR){
+					if (*(void**)e->value.ptr != NULL && is_dyn_str(*(struct string**)e->value.ptr)){
 						(*(struct string**)e->value.ptr)->uses--;
 					}
 					(*(struct string**)e->value.ptr) = s;
@@ -443,7 +443,7 @@ void cmd_linput(struct ptc* p){
 	struct string* s = get_new_str(&p->strs);
 	if (!s) ERROR(ERR_OUT_OF_MEMORY);
 	
-	if (*(void**)e->value.ptr != NULL && **(char**)e->value.ptr == STRING_CHAR){
+	if (*(void**)e->value.ptr != NULL && is_dyn_str(*(struct string**)e->value.ptr)){
 		(*(struct string**)e->value.ptr)->uses--;
 	}
 	(*(struct string**)e->value.ptr) = s;
diff --git a/source/subsystem/resources.c b/source/subsystem/resources.c
index 9ba4640..1d98854 100644
--- a/source/subsystem/resources.c
+++ b/source/subsystem/resources.c
@@ -921,6 +921,7 @@ void cmd_chrread(struct ptc* p){
 		dest->type = STRING_CHAR; // force smaller type is always safe
 		dest->len = 64;
 		dest->uses = 1;
+		if (is_dyn_str(*out)) ((struct string*)*out)->uses--;
 		*out = dest;
 	} else {
 		ERROR(ERR_INVALID_RESOURCE_TYPE);
-- 
2.43.0


From a8722fc54fb334c3ff04f6c8cb04e246a48283d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:34 +0000
Subject: [PATCH 03/37] fix: report overflow or illegal call instead of wrapped
 or undefined results (negation, %, DEG, EXP, POW, SQR)

---
 source/interpreter/mathptc.c   | 19 ++++++++++++++-----
 source/interpreter/mathptc.h   |  2 +-
 source/interpreter/operators.c |  4 +++-
 3 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/source/interpreter/mathptc.c b/source/interpreter/mathptc.c
index 97dba64..b05129f 100644
--- a/source/interpreter/mathptc.c
+++ b/source/interpreter/mathptc.c
@@ -6,6 +6,7 @@
 
 #include <stdlib.h>
 #include <math.h>
+#include <limits.h>
 
 void func_rnd(struct ptc* p){
 	struct value_stack* s = &p->stack;
@@ -82,7 +83,7 @@ void func_pow(struct ptc* p){
 	float f = powf(pow_b/4096.0f, pow_e/4096.0f);
 	iprintf("%f", f);
 
-	if (isinf(f)){
+	if (isinf(f) || isnan(f)){
 		ERROR(ERR_ILLEGAL_FUNCTION_CALL);
 	} else if (f >= 524288.0f || f <= -524288.0f) {
 		ERROR(ERR_OVERFLOW);
@@ -95,7 +96,7 @@ fixp func_rad_internal(fixp deg){
 	return (int64_t)deg * FIXP_PI / INT_TO_FP(180);
 }
 
-fixp func_deg_internal(fixp rad){
+dfixp func_deg_internal(fixp rad){
 	return (int64_t)rad * INT_TO_FP(180) / FIXP_PI;
 }
 
@@ -108,7 +109,11 @@ void func_rad(struct ptc* p){
 void func_deg(struct ptc* p){
 	struct stack_entry* rad = stack_pop(&p->stack);
 	
-	STACK_RETURN_NUM(func_deg_internal(VALUE_NUM(rad)));
+	dfixp deg = func_deg_internal(VALUE_NUM(rad));
+	if (deg < INT_MIN || deg > INT_MAX){
+		ERROR(ERR_OVERFLOW);
+	}
+	STACK_RETURN_NUM(deg);
 }
 
 // separate to make testing easier
@@ -195,13 +200,17 @@ fixp func_exp_internal(fixp value){
 void func_sqr(struct ptc* p){
 	struct stack_entry* val = stack_pop(&p->stack);
 	
-	STACK_RETURN_NUM(func_sqr_internal(VALUE_NUM(val)));
+	fixp sqr_v = VALUE_NUM(val);
+	if (sqr_v < 0) ERROR(ERR_ILLEGAL_FUNCTION_CALL);
+	STACK_RETURN_NUM(func_sqr_internal(sqr_v));
 }
 
 void func_exp(struct ptc* p){
 	struct stack_entry* val = stack_pop(&p->stack);
 	
-	STACK_RETURN_NUM(func_exp_internal(VALUE_NUM(val)));
+	fixp exp_v = VALUE_NUM(val);
+	if (exp(exp_v/4096.0) >= 524288.0) ERROR(ERR_OVERFLOW);
+	STACK_RETURN_NUM(func_exp_internal(exp_v));
 }
 
 
diff --git a/source/interpreter/mathptc.h b/source/interpreter/mathptc.h
index 3f1b290..a57ec86 100644
--- a/source/interpreter/mathptc.h
+++ b/source/interpreter/mathptc.h
@@ -39,5 +39,5 @@ fixp func_sqr_internal(fixp);
 fixp func_pow_internal(fixp, fixp);
 
 fixp func_rad_internal(fixp);
-fixp func_deg_internal(fixp);
+dfixp func_deg_internal(fixp);
 
diff --git a/source/interpreter/operators.c b/source/interpreter/operators.c
index f5d0b67..f6a93d0 100644
--- a/source/interpreter/operators.c
+++ b/source/interpreter/operators.c
@@ -129,6 +129,7 @@ void op_negate(struct ptc* p){
 	struct stack_entry* a = stack_pop(s);
 	
 	fixp x = VALUE_NUM(a);
+	if (x == INT_MIN) ERROR(ERR_OVERFLOW);
 
 	stack_push(s, (struct stack_entry){VAR_NUMBER, {-x}});
 }
@@ -288,7 +289,8 @@ void op_modulo(struct ptc* p){
 	
 	if (y == 0) ERROR(ERR_DIVIDE_BY_ZERO);
 	
-	stack_push(s, (struct stack_entry){VAR_NUMBER, {x % y}});
+	// Minimum value % -1 is not representable as a division
+	stack_push(s, (struct stack_entry){VAR_NUMBER, {y == -1 ? 0 : x % y}});
 }
 
 void op_and(struct ptc* p){
-- 
2.43.0


From 4805f4fbd20357d13e30d1f9000e33abeacbce07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:50 +0000
Subject: [PATCH 04/37] fix: report overflow for TAN and VAL, illegal start for
 INSTR, and ignore fraction digits that would overflow to a zero divisor

---
 source/interpreter/mathptc.c  | 5 ++++-
 source/interpreter/strfuncs.c | 8 +++++---
 source/interpreter/strs.c     | 2 ++
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/source/interpreter/mathptc.c b/source/interpreter/mathptc.c
index b05129f..2456601 100644
--- a/source/interpreter/mathptc.c
+++ b/source/interpreter/mathptc.c
@@ -149,8 +149,11 @@ void func_cos(struct ptc* p){
 
 void func_tan(struct ptc* p){
 	struct stack_entry* rad = stack_pop(&p->stack);
+	fixp angle = VALUE_NUM(rad);
+	// values close to odd multiples of PI/2 have very large results
+	if (fabs(tan(angle/4096.0)) >= 524288.0) ERROR(ERR_OVERFLOW);
 	
-	STACK_RETURN_NUM(func_tan_internal(VALUE_NUM(rad)));
+	STACK_RETURN_NUM(func_tan_internal(angle));
 }
 
 void func_atan(struct ptc* p){
diff --git a/source/interpreter/strfuncs.c b/source/interpreter/strfuncs.c
index 3012894..4b9cc6a 100644
--- a/source/interpreter/strfuncs.c
+++ b/source/interpreter/strfuncs.c
@@ -6,6 +6,7 @@
 #include "stack.h"
 
 #include <string.h>
+#include <limits.h>
 
 void func_len(struct ptc* p){
 	struct value_stack* s = &p->stack;
@@ -60,10 +61,9 @@ void func_val(struct ptc* p){
 	str_char_copy(str, num_str);
 	int len = str_len(str);
 //	bool negate = false;
-	fixp v;
+	int64_t v;
 
-	u8 first_char = num_str[0];
-	if (first_char == '&'){
+	if (len >= 2 && num_str[0] == '&'){
 		u8 second_char = num_str[1];
 		int base = 0;
 		if (second_char == 'H'){
@@ -78,6 +78,7 @@ void func_val(struct ptc* p){
 		v = u8_to_num(num_str, len);
 	}
 	
+	if (v < INT_MIN || v > INT_MAX) ERROR(ERR_OVERFLOW);
 	stack_push(s, (struct stack_entry){VAR_NUMBER, {v}});
 }
 
@@ -107,6 +108,7 @@ void func_instr(struct ptc* p){
 	void* str = value_str(string);
 	void* sub = value_str(substring);
 	
+	if (start < 0) ERROR(ERR_OUT_OF_RANGE);
 	int len_string = str_len(str);
 	int len_substring = str_len(sub);
 	// empty string always matches
diff --git a/source/interpreter/strs.c b/source/interpreter/strs.c
index 85eb283..a02c9f1 100644
--- a/source/interpreter/strs.c
+++ b/source/interpreter/strs.c
@@ -190,6 +190,8 @@ int64_t str_to_number(const void* str, const int base, const bool allow_decimal)
 			for (size_t k = i; k < len; ++k){
 				digit = digit_value(str_at_wide(str, k));
 				if (digit >= 0 && digit < base){
+					// More digits can not change the result (and would overflow)
+					if (maximum >= 1000000) continue;
 					fraction *= base;
 					maximum *= base;
 					fraction += digit;
-- 
2.43.0


From f41b7c94b9c4e65e948ccf84ca77bfa08d958116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:36 +0000
Subject: [PATCH 05/37] fix: loops, returns and label jumps report errors
 instead of aborting (NEXT keeps errors of TO/STEP, RETURN inside FOR only,
 overlong label strings, ON with string variables)

---
 source/interpreter/flow.c  | 7 +++++--
 source/interpreter/label.c | 8 ++++++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/source/interpreter/flow.c b/source/interpreter/flow.c
index 38cae71..6211242 100644
--- a/source/interpreter/flow.c
+++ b/source/interpreter/flow.c
@@ -110,7 +110,10 @@ void cmd_next(struct ptc* p){
 	for_condition.size = to_size;
 	for_condition.data = code.data + to_start;
 	run(for_condition, p);
+	temp.error = p->exec.error; // keep error of the evaluated expressions (or a break)
 	p->exec = temp; //restore program state
+	if (p->exec.error) return;
+	if (!p->stack.stack_i) ERROR(ERR_BEGIN_LOOP_NO_END);
 	
 	// now stack should contain (END, [STEP])
 	s32* current = (s32*)c->var;
@@ -227,7 +230,7 @@ void cmd_goto_gosub(struct ptc* p, bool push_return){
 		if (p->stack.entry[label_i+1].type & STACK_OP){
 			ERROR(ERR_SYNTAX); // label is missing from this slot
 		}
-		label = p->stack.entry[label_i+1].value.ptr;
+		label = value_str(ARG(label_i+1));
 	} else {
 		label = value_str(e); //value_str
 	}
@@ -269,7 +272,7 @@ void cmd_return(struct ptc* p){
 		if (p->calls.entry[--stack_i].type == CALL_GOSUB){
 			break;
 		}
-		if (stack_i < 0){
+		if (stack_i <= 0){
 			// did not find GOSUB anywhere in stack
 			p->exec.error = ERR_RETURN_WITHOUT_GOSUB;
 			return;
diff --git a/source/interpreter/label.c b/source/interpreter/label.c
index 6580785..f5772e1 100644
--- a/source/interpreter/label.c
+++ b/source/interpreter/label.c
@@ -106,14 +106,18 @@ idx search_label(struct ptc* p, void* label){
 	// Labels must always be located at the beginning of a line.
 	idx index = 0;
 
-	u8 buf[MAX_LABEL_SIZE+1]; // +1 to include the @ symbol in cases of strings
+	u8 buf[MAX_LABEL_SIZE+1] = {0}; // +1 to include the @ symbol in cases of strings
 	char* buf_ptr = (char*)buf;
 	int len = str_len(label);
 	if (*(char*)label == BC_LABEL || *(char*)label == BC_LABEL_STRING){
 		assert(len <= 16);
 		str_char_copy(label, buf);
 	} else { // assume regular string
-		assert(len <= 17);
+		if (len < 1 || len > MAX_LABEL_SIZE+1){
+			// can not be '@' and a label name
+			p->exec.error = ERR_LABEL_NOT_FOUND;
+			return p->exec.code.size;
+		}
 		str_char_copy(label, buf);
 		++buf_ptr; // pointer past '@'
 		--len; // remove '@'
-- 
2.43.0


From c08c54a839aa7a972e01735b5f84210f4eeb33d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:35 +0000
Subject: [PATCH 06/37] fix: reject resource types that name no bank or page
 (abort and out of bounds access), and use the current page for a type without
 a bank number

---
 source/subsystem/resources.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/source/subsystem/resources.c b/source/subsystem/resources.c
index 1d98854..418f7a5 100644
--- a/source/subsystem/resources.c
+++ b/source/subsystem/resources.c
@@ -690,6 +690,7 @@ void* get_resource_ptr(struct ptc* p, const char* resource_type){
 	int screen = 0;
 	if (res_type_index == '\0' || res_type_index == RESOURCE_SEPARATOR){
 		bank = 0;
+		screen = -1; // current page
 	} else {
 		bank = res_type_index - '0';
 		char res_type_screen = resource_type[RESOURCE_TYPE_SCREEN_OFS];
@@ -774,15 +775,17 @@ int get_chr_index(struct ptc* p, const char* res){
 struct res_info get_verified_resource_type(struct ptc* p, const void* res){
 	// TODO:ERR:LOW verify correct error codes
 	struct res_info info = {0};
-	if (str_len(res) > MAX_RESOURCE_TYPE_LENGTH){
+	if (!verify_resource_type_str(res)){
 		p->exec.error = ERR_INVALID_RESOURCE_TYPE;
 		return info;
 	}
-	if ((info.type_id = get_resource_type(res)) == TYPE_INVALID){
+	str_char_copy(res, (u8*)info.type);
+	// a standalone type has no separator
+	if (strchr(info.type, RESOURCE_SEPARATOR)){
 		p->exec.error = ERR_INVALID_RESOURCE_TYPE;
 		return info;
 	}
-	str_char_copy(res, (u8*)info.type);
+	info.type_id = get_resource_type(res);
 	info.data = get_resource_ptr(p, info.type);
 	return info;
 }
-- 
2.43.0


From 321f005c6a51cc5c51ce9d687f6970a3b9493608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:05 +0000
Subject: [PATCH 07/37] fix: files that are too short, too long or carry wrong
 sizes are load failures instead of overruns, aborts or partial successes

---
 source/extension/compress.c  | 12 ++++++++-
 source/extension/compress.h  |  2 +-
 source/subsystem/resources.c | 49 ++++++++++++++++++++++++++++--------
 3 files changed, 50 insertions(+), 13 deletions(-)

diff --git a/source/extension/compress.c b/source/extension/compress.c
index 2ba6ccf..97d3416 100644
--- a/source/extension/compress.c
+++ b/source/extension/compress.c
@@ -123,7 +123,8 @@ int sbc_read_bits(const unsigned char* const source_data, int* bit_index, int bi
 // note: decompression happens from low to high address
 // if compressed is placed at end of destination range,
 // decompression should only overwrite bytes that have already been read
-unsigned char* sbc_decompress(const unsigned char* const source_data, unsigned char* dest, int decompressed_size, int cache_bits){
+// returns NULL if the source data ends before everything is decompressed
+unsigned char* sbc_decompress(const unsigned char* const source_data, int source_size, unsigned char* dest, int decompressed_size, int cache_bits){
 	// Cache info
 	unsigned char cache[128] = {0};
 	const int cache_maximum = 1 << cache_bits;
@@ -137,14 +138,23 @@ unsigned char* sbc_decompress(const unsigned char* const source_data, unsigned c
 	
 	int source_bit = 0;
 	for (int i = 0; i < decompressed_size; ++i){
+		if (source_bit / 8 >= source_size){
+			return NULL;
+		}
 		if (sbc_read_bits(source_data, &source_bit, 1)){
 			// literal
+			if ((source_bit + 7) / 8 >= source_size){
+				return NULL;
+			}
 			output[i] = sbc_read_bits(source_data, &source_bit, 8);
 //			printf("%s%s \n", bin[((unsigned char)output[i]) >> 4], bin[output[i] & 0xf]);
 			cache[cache_next_slot] = output[i];
 			cache_next_slot = (cache_next_slot + 1) % cache_maximum;
 		} else {
 			// cache
+			if (cache_bits && (source_bit + cache_bits - 1) / 8 >= source_size){
+				return NULL;
+			}
 			output[i] = cache[sbc_read_bits(source_data, &source_bit, cache_bits)];
 		}
 //		printf("%d,",output[i]);
diff --git a/source/extension/compress.h b/source/extension/compress.h
index dc609aa..cfe5768 100644
--- a/source/extension/compress.h
+++ b/source/extension/compress.h
@@ -25,4 +25,4 @@ struct sbc_compression_result sbc_optimal_compress(const unsigned char* const so
 
 int sbc_read_bits(const unsigned char* const source_data, int* bit_index, int bits);
 
-unsigned char* sbc_decompress(const unsigned char* const source_data, unsigned char* dest, int decompressed_size, int cache_bits);
+unsigned char* sbc_decompress(const unsigned char* const source_data, int source_size, unsigned char* dest, int decompressed_size, int cache_bits);
diff --git a/source/subsystem/resources.c b/source/subsystem/resources.c
index 418f7a5..f5651d4 100644
--- a/source/subsystem/resources.c
+++ b/source/subsystem/resources.c
@@ -88,8 +88,9 @@ int load_program(struct ptc* p, const char* search_path, const char* name){
 		FILE_ERROR("Failed to load file");
 	}
 	struct ptc_header h;
-	fread(h.magic, sizeof(char), 4, f);
-	CHECK_FILE_ERROR("Failed to read file magic ID");
+	if (fread(h.magic, sizeof(char), 4, f) != 4){
+		FILE_CLOSE("Failed to read file magic ID");
+	}
 	fseek(f, 0, SEEK_SET);
 	CHECK_FILE_ERROR("Failed to seek to file start");
 
@@ -114,6 +115,10 @@ int load_program(struct ptc* p, const char* search_path, const char* name){
 		FILE_CLOSE("Unknown PRG file format");
 	}
 
+	if (h.prg_size > MAX_SOURCE_SIZE){
+		FILE_CLOSE("Program is too large");
+	}
+
 	// Read program data
 	size_read = fread(get_resource_ptr(p, "PRG"), sizeof(u8), h.prg_size, f);
 	if (size_read < (int)h.prg_size){
@@ -203,8 +208,9 @@ bool verify_file_type(const char* path, const int type){
 		FILE_ERROR("Failed to load file");
 	}
 	char check_type[4];
-	fread(check_type, sizeof(char), 4, f);
-	CHECK_FILE_ERROR("Failed to read file magic ID");
+	if (fread(check_type, sizeof(char), 4, f) != 4){
+		FILE_CLOSE("Failed to read file magic ID");
+	}
 	fseek(f, 0, SEEK_SET);
 	CHECK_FILE_ERROR("Failed to seek to file start");
 
@@ -353,6 +359,9 @@ int check_load_file(u8* dest, const char* search_path, const char* name, int siz
 
 		size_read = fread(dest, sizeof(u8), size, f);
 		CHECK_FILE_ERROR("Failed to read file");
+		if (size_read < size){
+			FILE_CLOSE("Could not read complete file");
+		}
 		FILE_OK();
 	} else if (!strncmp(check_type, "PETC", 4)){
 		// Petit Computer internal file format: skip type
@@ -361,6 +370,9 @@ int check_load_file(u8* dest, const char* search_path, const char* name, int siz
 		}
 		size_read = fread(dest, sizeof(u8), size, f);
 		CHECK_FILE_ERROR("Failed to read file");
+		if (size_read < size){
+			FILE_CLOSE("Could not read complete file");
+		}
 		FILE_OK();
 	} else if (!strncmp(check_type, "SBCC", 4)){
 		// SBC compressed format (something a bit more inventive)
@@ -368,8 +380,14 @@ int check_load_file(u8* dest, const char* search_path, const char* name, int siz
 			FILE_CLOSE("Failed to seek past file type id");
 		}
 		u8 header[4];
-		fread(header, sizeof(u8), 4, f);
-		CHECK_FILE_ERROR("Failed to read header");
+		if (fread(header, sizeof(u8), 4, f) != 4){
+			FILE_CLOSE("Failed to read header");
+		}
+		int bits = header[0];
+		int expected_size = header[1] | (header[2] << 8) | (header[3] << 16);
+		if (bits > 7 || expected_size != size){
+			FILE_CLOSE("File content does not match the resource");
+		}
 
 		// Determine size of file
 		if (fseek(f, 0, SEEK_END)){
@@ -379,6 +397,9 @@ int check_load_file(u8* dest, const char* search_path, const char* name, int siz
 		if (file_size < 0){
 			FILE_CLOSE("Failed to determine file size");
 		}
+		if (file_size > size){
+			FILE_CLOSE("File is too large");
+		}
 		rewind(f); // resets errors apparently
 
 		// Use destination as temporary storage
@@ -386,13 +407,14 @@ int check_load_file(u8* dest, const char* search_path, const char* name, int siz
 		u8* compressed = dest + size - file_size; // places file at end of destination
 		size_read = fread(compressed, sizeof(u8), file_size, f);
 		CHECK_FILE_ERROR("Failed to read file");
+		if (size_read < file_size){
+			FILE_CLOSE("Could not read complete file");
+		}
 		compressed += 8; // skip header
 
-		int bits = header[0];
-		int expected_size = header[1] | (header[2] << 8) | (header[3] << 16);
-		(void)expected_size; // for when assert fails
-		assert(expected_size == size); // request == expected
-		sbc_decompress(compressed, dest, size, bits);
+		if (!sbc_decompress(compressed, file_size - 8, dest, size, bits)){
+			FILE_CLOSE("Compressed data is incomplete");
+		}
 
 		FILE_OK();
 	} else {
@@ -852,6 +874,11 @@ void cmd_load(struct ptc* p){
 
 		case TYPE_MEM:;
 			assert(LITTLE_ENDIAN);
+			if (p->res.mem.size > MAX_STRLEN){
+				// not a valid string length
+				p->res.mem.size = 0;
+				p->res.result = 0;
+			}
 			p->res.mem_str.len = p->res.mem.size;
 			break;
 
-- 
2.43.0


From 6a14aca573d436f481099b60aab755189fa957e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:30 +0000
Subject: [PATCH 08/37] fix: do not read past compressed data when no bits
 select the cache entry

---
 source/extension/compress.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/extension/compress.c b/source/extension/compress.c
index 97d3416..bfd5651 100644
--- a/source/extension/compress.c
+++ b/source/extension/compress.c
@@ -155,7 +155,7 @@ unsigned char* sbc_decompress(const unsigned char* const source_data, int source
 			if (cache_bits && (source_bit + cache_bits - 1) / 8 >= source_size){
 				return NULL;
 			}
-			output[i] = cache[sbc_read_bits(source_data, &source_bit, cache_bits)];
+			output[i] = cache[cache_bits ? sbc_read_bits(source_data, &source_bit, cache_bits) : 0];
 		}
 //		printf("%d,",output[i]);
 	}
-- 
2.43.0


From a0ec58d51147fbbf74672c9b05adf8d5b6dd774a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:32 +0000
Subject: [PATCH 09/37] fix: SAVE of a program saves the program (not the
 memory in front of it), and a failing close is a failed save

---
 source/subsystem/resources.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/source/subsystem/resources.c b/source/subsystem/resources.c
index f5651d4..bf6f25d 100644
--- a/source/subsystem/resources.c
+++ b/source/subsystem/resources.c
@@ -27,6 +27,14 @@
 	return size_read;\
 } while (0)
 
+/// Written data may only reach the file when it is closed
+#define FILE_SAVED() do {\
+	if (fclose(f)){\
+		FILE_ERROR("Failed to write file");\
+	}\
+	return size_read;\
+} while (0)
+
 /// Error indication and file cleanup
 #define FILE_CLOSE(msg) do {\
 	fclose(f);\
@@ -300,7 +308,7 @@ int check_save_res(void* src, const char* search_path, const char* name, int typ
 		CHECK_FILE_ERROR("Failed to write program header");
 		size_read = fwrite(prg.data, 1, prg.size, f);
 		CHECK_FILE_ERROR("Failed to write program data");
-		FILE_OK(); // close and return size_read
+		FILE_SAVED(); // close and return size_read
 	} else if (type > TYPE_PRG && type < TYPE_INVALID) {
 		FILE* f = fopen(path, "wb");
 		if (!f){
@@ -311,7 +319,7 @@ int check_save_res(void* src, const char* search_path, const char* name, int typ
 		CHECK_FILE_ERROR("Failed to write file type");
 		size_read = fwrite((u8*)src, 1, resource_size[type], f);
 		CHECK_FILE_ERROR("Failed to write resource data");
-		FILE_OK(); // close and return size_read
+		FILE_SAVED(); // close and return size_read
 	} else {
 		FILE_ERROR("Unimplemented or invalid resource save type");
 	}
@@ -895,6 +903,7 @@ void cmd_save(struct ptc* p){
 	if (p->exec.error) return; // error condition already met, fail here
 
 	assert(LITTLE_ENDIAN); // relied on for TYPE_MEM
+	if (info.type_id == TYPE_PRG) info.data = &p->exec.prg;
 	int size = check_save_res(info.data, p->res.search_path, info.name, info.type_id);
 	p->res.result = size != 0;
 }
-- 
2.43.0


From ee2ed679c5ad911b68f5337ccb0439ad6a42a1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:35 +0000
Subject: [PATCH 10/37] fix: EXEC accepts only valid program names, not paths
 outside the program folder

---
 source/interpreter/runner.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/source/interpreter/runner.c b/source/interpreter/runner.c
index 40a9d51..5c0a60a 100644
--- a/source/interpreter/runner.c
+++ b/source/interpreter/runner.c
@@ -566,13 +566,15 @@ void run(struct bytecode code, struct ptc* p){
 
 void cmd_exec(struct ptc* p){
 	// EXEC filename
-	char filename_buf[MAX_STRLEN+1];
+	p->res.result = 0; // covers every failure path by setting early
 	void* filename = value_str(ARG(0));
-	str_char_copy(filename, (u8*)filename_buf);
-	filename_buf[str_len(filename)] = '\0';
+	// only names of programs inside the program folder are accepted
+	struct res_info info = get_verified_resource(p, filename);
+	if (p->exec.error) return;
+	if (info.type_id != TYPE_PRG) ERROR(ERR_INVALID_RESOURCE_TYPE);
 	
 	// Load program into memory and tokenize
-	int size = load_program(p, p->res.search_path, filename_buf);
+	int size = load_program(p, p->res.search_path, info.name);
 	if (!size){
 		// Failed to load file
 		p->res.result = 0;
-- 
2.43.0


From 6c9e50937193ec1be3e26d0bc6c9c7ade6170207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:51 +0000
Subject: [PATCH 11/37] fix: COLINIT with a color number reads its own argument
 instead of aborting

---
 source/subsystem/resources.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/subsystem/resources.c b/source/subsystem/resources.c
index bf6f25d..d44a781 100644
--- a/source/subsystem/resources.c
+++ b/source/subsystem/resources.c
@@ -1045,10 +1045,11 @@ void cmd_colinit(struct ptc* p){
 		} else {
 			static_assert(LITTLE_ENDIAN, "load from file requires this");
 			u16 from_file[256]; // TODO:PERF:LOW loading entire file is slow, store it in-mem?
-			load_col((u8*)from_file, resource_path, name);
-
 			int index;
-			STACK_INT_RANGE(2,0,255,index);
+			STACK_INT_RANGE(1,0,255,index);
+			if (!load_col((u8*)from_file, resource_path, name)){
+				ERROR(ERR_FILE_LOAD_FAILED);
+			}
 			((u16*)col_data)[index] = from_file[index];
 		}
 	}
-- 
2.43.0


From ec9d47a042d35b428a1fb66e1b38c1e8ab759b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:31 +0000
Subject: [PATCH 12/37] fix: SPPAGE, SPCLR and SPSET check page, sprite number,
 character and size; a finished animation does not hold up the other sprites

---
 source/subsystem/sprites.c | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/source/subsystem/sprites.c b/source/subsystem/sprites.c
index 931b0e3..bf847c1 100644
--- a/source/subsystem/sprites.c
+++ b/source/subsystem/sprites.c
@@ -70,9 +70,9 @@ void step_sprites(struct sprites* s){
 						if (!spr->anim.loop_forever && spr->anim.loop == 0){ //all loops complete
 							spr->anim.current_chr -= chr_step;
 							//no more animation; frame remains last frame
-							break;
+						} else {
+							spr->anim.current_chr = spr->chr;
 						}
-						spr->anim.current_chr = spr->chr;
 					}
 				}
 			}
@@ -197,15 +197,14 @@ int get_sprite_chr(struct sprite_info* s){
 }
 
 void cmd_sppage(struct ptc* p){
-	int page = STACK_INT(0);
-	
-	p->sprites.page = page;
+	STACK_INT_RANGE(0,0,1,p->sprites.page);
 }
 
 void cmd_spclr(struct ptc* p){
 	if (p->stack.stack_i == 1){
 		// SPCLR id
-		int index = STACK_INT(0);
+		int index;
+		STACK_INT_RANGE(0,0,99,index);
 		// disable sprite: no values matter if inactive
 		p->sprites.info[p->sprites.page][index].active = false;
 	} else {
@@ -221,7 +220,7 @@ void cmd_spset(struct ptc* p){
 	int chr;
 	int pal;
 	STACK_INT_RANGE(0, 0, 99, id);
-	STACK_INT_RANGE(1, 0, (p->sprites.page ? 117 : 512), chr);
+	STACK_INT_RANGE(1, 0, (p->sprites.page ? 117 : 511), chr);
 	STACK_INT_RANGE(2, 0, 15, pal);
 	bool horiz_flip = STACK_INT(3) != 0;
 	bool vert_flip = STACK_INT(4) != 0;
@@ -231,9 +230,8 @@ void cmd_spset(struct ptc* p){
 	int height = 16;
 	if (p->stack.stack_i == 8){
 		// spset id,chr,pal,h,v,prio,w,h
-		// TODO:ERR:MED bounds checking
-		width = STACK_INT(6);
-		height = STACK_INT(7);
+		STACK_INT_RANGE(6, 8, 64, width);
+		STACK_INT_RANGE(7, 8, 64, height);
 	}
 	// TODO:TEST:MED Validate that this initialization is correct
 	p->sprites.info[p->sprites.page][id] = init_sprite_info(id,chr,pal,horiz_flip,vert_flip,prio,width,height);
-- 
2.43.0


From 2aa177d6331a63ee4feaa34c124aca86d0ec9ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:33 +0000
Subject: [PATCH 13/37] fix: SPSCALE with a time of 0 scales at once instead of
 dividing by zero

---
 source/subsystem/sprites.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/source/subsystem/sprites.c b/source/subsystem/sprites.c
index bf847c1..d0ab879 100644
--- a/source/subsystem/sprites.c
+++ b/source/subsystem/sprites.c
@@ -378,21 +378,20 @@ void cmd_spscale(struct ptc* p){
 	int id, scale, time;
 	STACK_INT_RANGE(0,0,31,id);
 	STACK_INT_RANGE(1,0,200,scale);
-	time = p->stack.stack_i == 3 ? STACK_NUM(2) : 0;
-	if (time < 0){
-		ERROR(ERR_OUT_OF_RANGE);
+	time = 0;
+	if (p->stack.stack_i == 3){
+		STACK_INT_MIN(2,0,time);
 	}
 	struct sprite_info* s = &p->sprites.info[p->sprites.page][id];
 	if (!s->active){
 		ERROR(ERR_ILLEGAL_FUNCTION_CALL);
 	}
-	if (p->stack.stack_i == 2){
+	if (!time){
 		s->scale.s = INT_TO_FP(scale)/100;
 		s->scale.time = -1;
 	} else {
-		STACK_INT_MIN(2,0,time);
 		s->scale.ds = ((INT_TO_FP(scale)/100) - s->scale.s) / time;
-		s->scale.time = time ? time : -1;
+		s->scale.time = time;
 	}
 }
 
-- 
2.43.0


From 3aeddf7e207376e1d49d8771193c67f2019d26d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:36 +0000
Subject: [PATCH 14/37] fix: GPUTCHR checks its resource before using it and
 draws row 0

---
 source/subsystem/graphics.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/source/subsystem/graphics.c b/source/subsystem/graphics.c
index 2d6bc3b..79e5a36 100644
--- a/source/subsystem/graphics.c
+++ b/source/subsystem/graphics.c
@@ -234,6 +234,10 @@ void cmd_gputchr(struct ptc* p){
 	STACK_INT_RANGE(4,0,15,pal);
 	size = STACK_INT(5);
 	if (size == 1 || size == 2 || size == 4 || size == 8){
+		struct res_info info = get_verified_resource_type(p, resource);
+		if (p->exec.error) return;
+		if (info.type_id != TYPE_CHR) ERROR(ERR_INVALID_RESOURCE_TYPE);
+
 		// Copy colors from character resource specified
 		// BG* -> COL0
 		// SP* -> COL1
@@ -252,11 +256,7 @@ void cmd_gputchr(struct ptc* p){
 		p->res.regen_col = true;
 
 		// pointer to base resource
-		struct res_info i = get_verified_resource_type(p, resource);
-		u8* src = i.data;
-		if (!src){
-			ERROR(ERR_INVALID_RESOURCE_TYPE); // TODO:ERR:MED Check this is correct
-		}
+		u8* src = info.data;
 		// pointer to relevant character
 		src = &src[CHR_UNIT_SIZE * chr];
 
@@ -271,7 +271,7 @@ void cmd_gputchr(struct ptc* p){
 					for (int j = 0; j < size; ++j){
 						int xp = x_start + x*size + j;
 						int yp = y_start + y*size + i;
-						if (col1 && xp >= 0 && xp < GRP_WIDTH && yp && yp < GRP_HEIGHT){
+						if (col1 && xp >= 0 && xp < GRP_WIDTH && yp >= 0 && yp < GRP_HEIGHT){
 							grp_pixel(dest, xp, yp, 16*pal+col1, p->graphics.drawmode);
 						}
 					}
@@ -280,7 +280,7 @@ void cmd_gputchr(struct ptc* p){
 					for (int j = 0; j < size; ++j){
 						int xp = x_start + x*size + j + size;
 						int yp = y_start + y*size + i;
-						if (col2 && xp >= 0 && xp < GRP_WIDTH && yp && yp < GRP_HEIGHT){
+						if (col2 && xp >= 0 && xp < GRP_WIDTH && yp >= 0 && yp < GRP_HEIGHT){
 							grp_pixel(dest, xp, yp, 16*pal+col2, p->graphics.drawmode);
 						}
 					}
-- 
2.43.0


From 6d9240d7a4b249b3341c3ea882177614e74d4455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:59 +0000
Subject: [PATCH 15/37] fix: GPAINT outside of the page does nothing instead of
 reading outside of it

---
 source/subsystem/graphics.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/subsystem/graphics.c b/source/subsystem/graphics.c
index 79e5a36..4836c5d 100644
--- a/source/subsystem/graphics.c
+++ b/source/subsystem/graphics.c
@@ -481,8 +481,8 @@ void cmd_gpaint(struct ptc* p){
 	// Maybe try a simpler recursive implementation, but periodically filter out already checked pixels to keep border smaller?
 	int x, y;
 	int c;
-	x = STACK_INT(0);
-	y = STACK_INT(1);
+	STACK_INT_RANGE_SILENT(0,0,GRP_WIDTH-1,x);
+	STACK_INT_RANGE_SILENT(1,0,GRP_HEIGHT-1,y);
 	if (p->stack.stack_i > 2){
 		STACK_INT_RANGE(2,0,255,c);
 	} else {
-- 
2.43.0


From 48e666c6380a407541257be7e7e519899dd6ba3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:08 +0000
Subject: [PATCH 16/37] fix: BGCOPY copies only what fits into the layer

---
 source/subsystem/background.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/subsystem/background.c b/source/subsystem/background.c
index a039ab7..288fac1 100644
--- a/source/subsystem/background.c
+++ b/source/subsystem/background.c
@@ -293,6 +293,10 @@ void cmd_bgcopy(struct ptc* p){
 		y2 = temp;
 	}
 	
+	// only copy what fits into the layer
+	if (x2 - x1 + x3 > BG_WIDTH-1) { x2 = BG_WIDTH-1 - x3 + x1; }
+	if (y2 - y1 + y3 > BG_HEIGHT-1) { y2 = BG_HEIGHT-1 - y3 + y1; }
+
 	// valid args: put tile
 	u16* bg = bg_page(p, p->background.page, layer);
 	
-- 
2.43.0


From 68fdaf65f79f48cb1c8949647ec79348fbe6b49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:19 +0000
Subject: [PATCH 17/37] fix: COLINIT checks its resource before reading
 characters of it

---
 source/subsystem/resources.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/subsystem/resources.c b/source/subsystem/resources.c
index d44a781..2709dfe 100644
--- a/source/subsystem/resources.c
+++ b/source/subsystem/resources.c
@@ -1029,6 +1029,9 @@ void cmd_colinit(struct ptc* p){
 	} else {
 		// COLINIT resource
 		void* res_str = value_str(ARG(0));
+		u8* col_data = get_col_resource(p, res_str);
+		if (!col_data) return; // not a color resource
+
 		char id = str_at_char(res_str, 0);
 		if (id == 'B') id = '0';
 		if (id == 'S') id = '1';
@@ -1037,9 +1040,6 @@ void cmd_colinit(struct ptc* p){
 		char name[] = "COLX";
 		name[3] = id;
 
-		u8* col_data = get_col_resource(p, res_str);
-		if (!col_data) return; // TODO:ERR:LOW can this happen?
-
 		if (p->stack.stack_i == 1){
 			load_col(col_data, resource_path, name);
 		} else {
-- 
2.43.0


From 85102049ceb4473bfb956e870993ff99a3dc451c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:05 +0000
Subject: [PATCH 18/37] fix: prompts on a full last line scroll, and typing a
 full line neither leaves the line nor loses its last character

---
 source/subsystem/console.c | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/source/subsystem/console.c b/source/subsystem/console.c
index 75f70ec..8d2ac05 100644
--- a/source/subsystem/console.c
+++ b/source/subsystem/console.c
@@ -238,7 +238,7 @@ u16* shared_input(struct ptc* p){
 		} else if ((keyboard == 15 || check_pressed(&p->input, BUTTON_ID_Y))){
 			// Copy characters back
 			if (out_index > 0){
-				for (int i = out_index-1; i < (int)out_index_max; ++i){
+				for (int i = out_index-1; i < (int)out_index_max && i < CONSOLE_WIDTH-1; ++i){
 					outcol[i] = outcol[i+1];
 					output[i] = output[i+1];
 				}
@@ -248,7 +248,7 @@ u16* shared_input(struct ptc* p){
 		} else if (keyboard == 67){
 			// Copy characters back
 			if (out_index < out_index_max){
-				for (int i = out_index; i < (int)out_index_max; ++i){
+				for (int i = out_index; i < (int)out_index_max && i < CONSOLE_WIDTH-1; ++i){
 					outcol[i] = outcol[i+1];
 					output[i] = output[i+1];
 				}
@@ -277,7 +277,8 @@ u16* shared_input(struct ptc* p){
 		} else if (check_pressed(&p->input, BUTTON_ID_RIGHT)){
 			out_index += out_index < out_index_max;
 		}
-		p->console.x = out_index;
+		// cursor stays on the line when it is full
+		p->console.x = out_index < CONSOLE_WIDTH ? out_index : CONSOLE_WIDTH - 1;
 	} while (!p->exec.error && inkey != '\r'
 			&& !check_pressed_manual(&p->input, BUTTON_ID_A, 15, 4));
 	p->panel.type = old_panel;
@@ -289,8 +290,10 @@ void con_prompt(struct console* con, void* prompt_str){
 	// Displays prompt string
 	if (prompt_str) // only display string if it exists
 		con_puts(con, prompt_str);
+	con_scroll(con); // the last line may be full
 	con_put(con, to_wide('?'));
 	if (con->x) con_newline(con, true); // only newline if necessary for user to have full line of input
+	else con_scroll(con);
 }
 
 void con_reprompt(struct console* con, void* prompt_str){
@@ -348,18 +351,18 @@ void cmd_input(struct ptc* p){
 			con_reprompt(con, prompt_str);
 			continue;
 		}
-		u8 conversion_copy[CONSOLE_WIDTH];
+		u8 conversion_copy[CONSOLE_WIDTH+1];
 		int prev_i = 0;
 		int out_i = 0;
 		
 		for (int i = 0; i < len; ){
 			struct stack_entry* e = ARG(index+i);
-			u8 c = to_char(output[out_i]);
+			u8 c = out_i < CONSOLE_WIDTH ? to_char(output[out_i]) : '\0'; // end of line
 			conversion_copy[out_i++] = c;
 			if (e->type == (VAR_NUMBER | VAR_VARIABLE)){
 				// validate first entry is numeric
 				if (is_number(c) || c == '.' || c == '-'){
-				} else if (c == ',' || c == '\0' || c == ' ' || out_i >= CONSOLE_WIDTH){
+				} else if (c == ',' || c == '\0' || c == ' '){
 					// convert from previous to out_i
 					if (out_i - prev_i - 1 == 0){
 						valid = false;
@@ -376,7 +379,7 @@ void cmd_input(struct ptc* p){
 					break;
 				}
 			} else if (e->type == (VAR_STRING | VAR_VARIABLE)){
-				if (c == ',' || c == '\0' || out_i >= CONSOLE_WIDTH){
+				if (c == ',' || c == '\0'){
 					struct string* s = get_new_str(&p->strs);
 					if (!s) ERROR(ERR_OUT_OF_MEMORY);
 					
@@ -387,7 +390,7 @@ void cmd_input(struct ptc* p){
 					
 					// TODO:TEST:LOW Check that wide strings work here
 					bool require_wide = false;
-					for (int j = prev_i; j < out_i; ++j){
+					for (int j = prev_i; j < out_i - 1; ++j){
 						if (!is_char(output[j])){
 							require_wide = true;
 							break;
@@ -397,7 +400,7 @@ void cmd_input(struct ptc* p){
 					s->type = require_wide ? STRING_WIDE : STRING_CHAR;
 					s->uses = 1;
 					s->len = out_i - prev_i - 1;
-					for (int j = prev_i; j < out_i; ++j){
+					for (int j = prev_i; j < out_i - 1; ++j){
 						if (require_wide){
 							s->ptr.w[j - prev_i] = output[j];
 						} else {
-- 
2.43.0


From 2972fbbd2b7577cf8923ad2d1c88b73ccaa363e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:27 +0000
Subject: [PATCH 19/37] fix: dragging the touch off the keyboard does not read
 outside the key table (M08)

---
 source/subsystem/panel.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/subsystem/panel.c b/source/subsystem/panel.c
index 9f125c9..02aecd4 100644
--- a/source/subsystem/panel.c
+++ b/source/subsystem/panel.c
@@ -334,7 +334,7 @@ void press_key(struct ptc* ptc, bool t, int x, int y){
 		return; // no touch = no press
 	} else if (t && p->key_pressed){ // touch and hold
 		char c = key_map[x/8 + 32*(y/8)];
-		if (p->keys[(int)c].vars[0] != p->key_pressed){
+		if (c == '\xff' || p->keys[(int)c].vars[0] != p->key_pressed){
 			p->key_pressed = 0;
 			p->id_pressed = -1;
 		} else {
-- 
2.43.0


From d57338041ec08a0067cc4c871f814b98d20fe31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:36 +0000
Subject: [PATCH 20/37] fix: ACLS restores the program's variables when
 interrupted; FILES checks and closes the directory (M05, L03, R01)

---
 source/system.c | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/source/system.c b/source/system.c
index 5bd867a..13dd6ee 100644
--- a/source/system.c
+++ b/source/system.c
@@ -100,9 +100,14 @@ void cmd_acls(struct ptc* p){
 		0, acls_bytecode, acls_bc_lines, init_labels(0)
 	};
 	
-	p->exec.error = tokenize(&acls_program, &acls_bc);
-	run(acls_bc, p);
-	if (p->exec.error) return;
+	int error = tokenize(&acls_program, &acls_bc);
+	if (error){
+		p->exec.error = error;
+	} else {
+		run(acls_bc, p);
+	}
+	// the calling program continues (or reports the error) in its own state
+	cur_exec.error = p->exec.error;
 	p->exec = cur_exec;
 	
 	// Restore proper program variable state
@@ -177,20 +182,23 @@ void cmd_files(struct ptc* p){
 	} else {
 		// FILES (all)
 		DIR* dir = opendir(p->res.search_path);
+		if (!dir) ERROR(ERR_FILE_LOAD_FAILED);
 		for (struct dirent* d = readdir(dir); d != NULL; d = readdir(dir)){
-			filename[1] = strchr(d->d_name, '.') - d->d_name;
-			if (filename[1] > 8 || !filename[1]){
+			size_t len = strcspn(d->d_name, "."); // strip any extension
+			if (len > 8 || !len){
 				continue; // file is inaccessible, name is too big
 			}
-			for (int i = 0; i < filename[1]; ++i){
-				if (!is_name(filename[2 + i])){
-					continue; // skip due to invalid characters
-				}
+			size_t valid = 0;
+			while (valid < len && is_name(d->d_name[valid])) ++valid;
+			if (valid < len){
+				continue; // skip due to invalid characters
 			}
-			strncpy(filename + 2, d->d_name, strchr(d->d_name, '.') - d->d_name); // strip any extension
+			filename[1] = len;
+			memcpy(filename + 2, d->d_name, len);
 			con_puts(&p->console, filename);
 			con_newline(&p->console, true);
 		}
+		closedir(dir);
 	}
 }
 
-- 
2.43.0


From a92b4873fecfdd43bdc698e7af7ed9136d69e572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:17 +0000
Subject: [PATCH 21/37] fix: assigning to a read-only system variable is an
 error instead of a write through a value (C05)

---
 source/interpreter/tokens.c | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index 5b6a3f5..47968be 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -447,6 +447,16 @@ bool check_cmd(const char* stack, int stack_len, const char* valid){
 	return is_valid;
 }
 
+/// Sysvars that allow assignment (and thus need validation)
+#define SYSVAR_NEEDS_VALIDATE (\
+		(1 << SYS_ICONPAGE) |\
+		(1 << SYS_ICONPMAX) |\
+		(1 << SYS_ICONPUSE) |\
+		(1 << SYS_TABSTEP) |\
+		(1 << SYS_MEM) |\
+		((uint64_t)1 << SYS_MEMSAFE)\
+	)
+
 int tok_test(struct tokenizer* state){
 	// This is argument count and argument type validation.
 	char stack[40];
@@ -604,10 +614,15 @@ int tok_test(struct tokenizer* state){
 				u8 id = state->tokens[i].cmd;
 				if (id == SYS_TIME || id == SYS_DATE || id == SYS_PRGNAME
 					|| id == SYS_PACKAGE || id == SYS_MEM){
-						stack[stack_i++] = 's';
+						stack[stack_i] = 's';
 					} else {
-						stack[stack_i++] = 'n';
+						stack[stack_i] = 'n';
+					}
+					if (!(SYSVAR_NEEDS_VALIDATE & ((uint64_t)1 << id))){
+						// read-only: a value, not a variable
+						stack[stack_i] &= 0x5f;
 					}
+					++stack_i;
 				}
 				break;
 				
@@ -927,16 +942,6 @@ int tok_code(struct tokenizer* state){
 	
 tok_code_exit:
 	// Validation must be placed at end to happen after assignment
-/// Sysvars that allow assignment (and thus need validation)
-#define SYSVAR_NEEDS_VALIDATE (\
-		(1 << SYS_ICONPAGE) |\
-		(1 << SYS_ICONPMAX) |\
-		(1 << SYS_ICONPUSE) |\
-		(1 << SYS_TABSTEP) |\
-		(1 << SYS_MEM) |\
-		((uint64_t)1 << SYS_MEMSAFE)\
-	)
-
 	if (sys_validate & SYSVAR_NEEDS_VALIDATE){
 		for (int i = 0; i < 64; ++i){
 			if (sys_validate & ((uint64_t)1 << i) & SYSVAR_NEEDS_VALIDATE){
-- 
2.43.0


From 1f14cc8663967e3912c3eb9ffed0bc888a2bbc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:48 +0000
Subject: [PATCH 22/37] fix: array sizes and second subscripts are checked
 against overflow, -1 and one-dimensional arrays; a past array error is not
 reported again (M04, L03)

---
 source/interpreter/arrays.c |  6 +++---
 source/interpreter/runner.c | 25 +++++++++++++++++++++----
 source/interpreter/tokens.c |  2 +-
 source/interpreter/vars.c   |  6 +++++-
 4 files changed, 30 insertions(+), 9 deletions(-)

diff --git a/source/interpreter/arrays.c b/source/interpreter/arrays.c
index dad69ca..824e344 100644
--- a/source/interpreter/arrays.c
+++ b/source/interpreter/arrays.c
@@ -27,11 +27,11 @@ void free_mem_arr(struct arrays* a){
 
 void* get_init_new_arr(struct arrays* a, u32 size1, u32 size2, int type){
 	u32* new_arr = (u32*)&((union value*)a->arr_data)[a->arr_data_next];
-	int size = size1;
+	uint64_t size = size1;
 	if (size2 != ARR_DIM2_UNUSED){
 		size *= size2;
 	}
-	if (a->arr_data_next + size + 2 >= a->arr_data_size){
+	if (size >= a->arr_data_size || a->arr_data_next + size + 2 >= a->arr_data_size){
 		return NULL; // not enough memory for this
 	}
 	a->arr_data_next += size + 2;
@@ -41,7 +41,7 @@ void* get_init_new_arr(struct arrays* a, u32 size1, u32 size2, int type){
 	// fill with empty elements
 	// Note: Treats every array as 1D - this is safe because memory is contiguous
 	union value* new_arr_dat = &((union value*)new_arr)[2];
-	for (int i = 0; i < size; ++i){
+	for (uint64_t i = 0; i < size; ++i){
 		if (type & VAR_NUMBER){
 			new_arr_dat[i].number = 0;
 		} else if (type & VAR_STRING){
diff --git a/source/interpreter/runner.c b/source/interpreter/runner.c
index 5c0a60a..ab7923d 100644
--- a/source/interpreter/runner.c
+++ b/source/interpreter/runner.c
@@ -321,6 +321,11 @@ ITCM_CODE void _run(struct bytecode code, struct ptc* p, bool init_exec) {
 					// array element
 					idx a = (r->argcount == 2) ? STACK_REL_INT(-2) : STACK_REL_INT(-1);
 					idx b = (r->argcount == 2) ? (idx)STACK_REL_INT(-1) : ARR_DIM2_UNUSED;
+					if (r->argcount == 2 && b == ARR_DIM2_UNUSED){
+						// -1 does not mean that there is no second dimension
+						r->error = ERR_SUBSCRIPT_OUT_OF_RANGE_Y;
+						break;
+					}
 					p->stack.stack_i -= r->argcount;
 					
 					union value* entry = get_arr_entry_via_ptr(&p->vars, &v->value, a, b, v->type);
@@ -371,6 +376,11 @@ ITCM_CODE void _run(struct bytecode code, struct ptc* p, bool init_exec) {
 				} else {
 					idx a = (r->argcount == 2) ? STACK_REL_INT(-2) : STACK_REL_INT(-1);
 					idx b = (r->argcount == 2) ? (idx)STACK_REL_INT(-1) : ARR_DIM2_UNUSED;
+					if (r->argcount == 2 && b == ARR_DIM2_UNUSED){
+						// -1 does not mean that there is no second dimension
+						r->error = ERR_SUBSCRIPT_OUT_OF_RANGE_Y;
+						break;
+					}
 					p->stack.stack_i -= r->argcount;
 					
 					union value* val = get_arr_entry(&p->vars, var.name, var.len, var.type | VAR_ARRAY, a, b);
@@ -397,13 +407,19 @@ ITCM_CODE void _run(struct bytecode code, struct ptc* p, bool init_exec) {
 				{
 				idx a = (r->argcount == 2) ? STACK_REL_INT(-2) : STACK_REL_INT(-1);
 				idx b = (r->argcount == 2) ? (idx)STACK_REL_INT(-1) : ARR_DIM2_UNUSED;
+				if (r->argcount == 2 && b == ARR_DIM2_UNUSED){
+					// -1 does not mean that there is no second dimension
+					r->error = ERR_SUBSCRIPT_OUT_OF_RANGE_Y;
+					break;
+				}
 				p->stack.stack_i -= r->argcount;
 				
 				iprintf("name=");
 				if (data >= 'A'){
 					iprintf("%c ", data);
-					get_new_arr_var(&p->vars, &data, 1, VAR_NUMBER | VAR_ARRAY, a, b);
-					r->error = p->vars.error;
+					if (!get_new_arr_var(&p->vars, &data, 1, VAR_NUMBER | VAR_ARRAY, a, b)){
+						r->error = p->vars.error;
+					}
 				} else {
 					char* x = (char*)&r->code.data[r->index];
 					iprintf("%.*s", data, x);
@@ -412,8 +428,9 @@ ITCM_CODE void _run(struct bytecode code, struct ptc* p, bool init_exec) {
 					enum types t = x[(u8)data-1] == '$' ? VAR_STRING : VAR_NUMBER;
 					u32 len = t & VAR_NUMBER ? data : data-1;
 					
-					get_new_arr_var(&p->vars, x, len, t | VAR_ARRAY, a, b);
-					r->error = p->vars.error;
+					if (!get_new_arr_var(&p->vars, x, len, t | VAR_ARRAY, a, b)){
+						r->error = p->vars.error;
+					}
 				}
 				
 				iprintf(" dim=%d,%d", (int)a, (int)b);
diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index 47968be..71d5857 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -856,7 +856,7 @@ int tok_code(struct tokenizer* state){
 					if (is_array_type) t |= VAR_ARRAY;
 					
 					struct named_var* v = get_var(&state->system->vars, &state->source->data[state->tokens[i].ofs], len, t);
-					if (state->system->vars.error != ERR_NONE){
+					if (!v){
 						return state->system->vars.error;
 					}
 //					iprintf("var %p: type=%d name=%s data=%d\n", (void*)v, v->type, v->name, v->value.number);
diff --git a/source/interpreter/vars.c b/source/interpreter/vars.c
index 4d082ce..d1c2300 100644
--- a/source/interpreter/vars.c
+++ b/source/interpreter/vars.c
@@ -106,6 +106,10 @@ struct named_var* get_new_arr_var(struct variables* v, char* name, u32 len, enum
 		
 		// set var ptr
 		var->value.ptr = get_init_new_arr(v->arrs, dim1, dim2, type);
+		if (!var->value.ptr){
+			v->error = ERR_OUT_OF_MEMORY;
+			return NULL;
+		}
 		return var;
 	} else {
 		// array already exists!
@@ -168,7 +172,7 @@ union value* get_arr_entry_via_ptr(struct variables* v, union value* arr, u32 ix
 	if (ix < arr_size(arr->ptr, ARR_DIM1)){
 		if (iy == ARR_DIM2_UNUSED){
 			return arr_entry(arr->ptr, ix, 0);
-		} else if (iy < arr_size(arr->ptr, ARR_DIM2)){
+		} else if (arr_size(arr->ptr, ARR_DIM2) != ARR_DIM2_UNUSED && iy < arr_size(arr->ptr, ARR_DIM2)){
 			return arr_entry(arr->ptr, ix, iy);
 		} else {
 			v->error = ERR_SUBSCRIPT_OUT_OF_RANGE_Y;
-- 
2.43.0


From f1476694d8ad32eaee1ecfd3748891a3bb043c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:29 +0000
Subject: [PATCH 23/37] fix: literals, names and DATA longer than 127 bytes do
 not move the program backwards; READ stops after the last item (C04)

---
 source/interpreter/data.c   |  3 +++
 source/interpreter/runner.c |  4 ++--
 source/interpreter/tokens.c | 10 ++++++++--
 3 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/source/interpreter/data.c b/source/interpreter/data.c
index ee4053d..1a4bd5a 100644
--- a/source/interpreter/data.c
+++ b/source/interpreter/data.c
@@ -101,6 +101,9 @@ void cmd_read(struct ptc* p){
 	iprintf("READ from: ");
 	// Iterate over variables on stack
 	for (int i = 0; i < p->stack.stack_i; ++i){
+		if (p->exec.data_index == BC_SCAN_NOT_FOUND){
+			ERROR(ERR_OUT_OF_DATA); // last item was read already
+		}
 		block_size = data_block[1];
 		iprintf("src=%d size=%d", (int)p->exec.data_index, block_size);
 		iprintf(" data=\"%.*s\"", block_size, &data_block[DATA_DATA_OFS + p->exec.data_offset]);
diff --git a/source/interpreter/runner.c b/source/interpreter/runner.c
index ab7923d..87e7eb3 100644
--- a/source/interpreter/runner.c
+++ b/source/interpreter/runner.c
@@ -185,7 +185,7 @@ ITCM_CODE void _run(struct bytecode code, struct ptc* p, bool init_exec) {
 		// get one instruction and execute it
 		start_time(&p->time);
 		char instr = r->code.data[r->index++];
-		char data = r->code.data[r->index++];
+		u8 data = r->code.data[r->index++];
 		
 		iprintf("%c ", instr);
 		
@@ -417,7 +417,7 @@ ITCM_CODE void _run(struct bytecode code, struct ptc* p, bool init_exec) {
 				iprintf("name=");
 				if (data >= 'A'){
 					iprintf("%c ", data);
-					if (!get_new_arr_var(&p->vars, &data, 1, VAR_NUMBER | VAR_ARRAY, a, b)){
+					if (!get_new_arr_var(&p->vars, (char*)&data, 1, VAR_NUMBER | VAR_ARRAY, a, b)){
 						r->error = p->vars.error;
 					}
 				} else {
diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index 71d5857..1322305 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -669,6 +669,7 @@ int tok_data(struct tokenizer* state, struct token start_t, char* data, idx* siz
 //		++start;
 //	} // skip to first non-whitespace
 	int end = state->cursor;
+	int error = ERR_NONE;
 
 	data[(*size)++] = BC_DATA;
 	char* data_size = &data[(*size)++]; // write as copying characters
@@ -739,6 +740,10 @@ int tok_data(struct tokenizer* state, struct token start_t, char* data, idx* siz
 		}
 
 		// Add character to output
+		if ((u8)*data_size == 255){
+			error = ERR_STRING_TOO_LONG; // length is stored in one byte
+			break;
+		}
 		data[(*size)++] = c;
 		(*data_size)++;
 	}
@@ -748,7 +753,7 @@ int tok_data(struct tokenizer* state, struct token start_t, char* data, idx* siz
 	}
 
 	state->token_i = 0;
-	return ERR_NONE;
+	return error;
 	// End of DATA special rules
 }
 
@@ -765,7 +770,8 @@ int tok_code(struct tokenizer* state){
 				bool first_of_line = state->tokens[i].type == first_of_line_command;
 				state->tokens[i].type = command;
 				if (state->tokens[i].cmd == CMD_DATA){
-					tok_data(state, state->tokens[i], data, size);
+					int data_res = tok_data(state, state->tokens[i], data, size);
+					if (data_res != ERR_NONE) return data_res;
 				} else {
 					// convert token to command
 	//				iprintf("command: %d, %d\n", j, state->tokens[i].cmd);
-- 
2.43.0


From df39caabb0bcb65c5b5d19eed8b0b5b4c49c9b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:08 +0000
Subject: [PATCH 24/37] fix: long, deeply nested or malformed lines are errors
 instead of overruns of the tokenizer's tables (M07)

---
 source/interpreter/tokens.c | 88 ++++++++++++++++++++++++-------------
 source/interpreter/tokens.h |  4 +-
 2 files changed, 60 insertions(+), 32 deletions(-)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index 1322305..8e802ce 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -257,7 +257,8 @@ int tokenize_full(struct program* src, struct bytecode* out, void* system, int o
 			state.output->data[state.output->size++] = BC_ERROR;
 			state.output->data[state.output->size++] = error;
 			iprintf("Error at: %d\n", (int)state.output->size);
-			while (state.source->data[state.cursor++] != '\r');
+			while (state.cursor < state.source->size && state.source->data[state.cursor++] != '\r');
+			state.is_comment = false; // this line has ended
 			error = ERR_NONE;
 			state.token_i = 0;
 			continue;
@@ -284,7 +285,7 @@ int tokenize_full(struct program* src, struct bytecode* out, void* system, int o
 			int line_view = state.cursor - old_cursor;
 			line_view = line_view > 31 ? 31 : line_view;
 			memcpy(state.system->exec.error_info, &state.source->data[old_cursor], line_view);
-			state.system->exec.error_info[line_view+1] = '\0';
+			state.system->exec.error_info[line_view] = '\0';
 		}
 		iprintf("tokenize error: %s\n", error_messages[error]);
 	}
@@ -321,7 +322,8 @@ int tok_convert(struct tokenizer* state){
 	
 	tok_prio(state);
 	
-	tok_eval(state);
+	int eval_res = tok_eval(state);
+	if (eval_res != ERR_NONE) return eval_res;
 	
 	int test_res = tok_test(state);
 	if (test_res != ERR_NONE) return test_res;
@@ -459,7 +461,7 @@ bool check_cmd(const char* stack, int stack_len, const char* valid){
 
 int tok_test(struct tokenizer* state){
 	// This is argument count and argument type validation.
-	char stack[40];
+	char stack[TOKENS_LINE_MAX];
 	u8 stack_i = 0;
 	int argc = 0;
 	stack[0] = 0; // Fixes undefined reads detected via -fanalyzer
@@ -554,9 +556,10 @@ int tok_test(struct tokenizer* state){
 				break;
 				
 			case function:
-				if (argc){
-					stack_i -= argc;
+				if (argc > stack_i){
+					return ERR_TEST_FUNCTION; // an argument is missing
 				}
+				stack_i -= argc;
 				u8 func = state->tokens[i].cmd;
 				valid = func_format[func];
 				is_valid = check_cmd(&stack[stack_i], argc, valid);
@@ -575,7 +578,7 @@ int tok_test(struct tokenizer* state){
 				if (argc){
 					// process argc counts first
 					const char* arr_valid = "N,NN";
-					is_valid = check_cmd(&stack[stack_i-argc], argc, arr_valid);
+					is_valid = argc <= stack_i && check_cmd(&stack[stack_i-argc], argc, arr_valid);
 					if (!is_valid){
 						// arguments to array access are bad
 						iprintf("Bad array arguments!\n");
@@ -597,7 +600,7 @@ int tok_test(struct tokenizer* state){
 				if (argc){
 					// process argc counts first
 					const char* dim_valid = "N,NN";
-					is_valid = check_cmd(&stack[stack_i-argc], argc, dim_valid);
+					is_valid = argc <= stack_i && check_cmd(&stack[stack_i-argc], argc, dim_valid);
 					if (!is_valid){
 						// arguments to array access are bad
 						iprintf("Bad array arguments!\n");
@@ -967,15 +970,16 @@ tok_code_exit:
 /// exclusively within tok_eval.
 struct eval {
 	//value and op could be combined maybe
-	struct token* value_stack[100];
+	struct token* value_stack[TOKENS_LINE_MAX];
 	u8 value_i;
-	struct token* op_stack[100];
+	struct token* op_stack[TOKENS_LINE_MAX];
 	u8 op_i;
 	/// Arguments stack
 	u8 argc_stack[64];
 	u8 argc_i;
 	// reordered tokens for conversion
-	struct token result[100];
+	// (each token may be followed by a loop_begin, and a line by an ENDIF)
+	struct token result[2*TOKENS_LINE_MAX+1];
 	u8 result_i; // first unused entry
 };
 
@@ -995,7 +999,7 @@ void tok_eval_clean_stack(struct eval* e, u16 prio){
 // This one is infinitely less bad than than the PTC-EmkII attempt. :)
 // That one was awful. Go look at it if you want to laugh at bad code.
 // I'm still amazed it worked in the end.
-void tok_eval(struct tokenizer* state){
+int tok_eval(struct tokenizer* state){
 	struct eval e = {0};
 	bool is_for = false;
 	bool is_dim = false;
@@ -1026,6 +1030,9 @@ void tok_eval(struct tokenizer* state){
 				tok_eval_clean_stack(&e, prio);
 				e.op_stack[e.op_i++] = &state->tokens[i];
 			} else if (op == OP_OPEN_BRACKET || op == OP_OPEN_PAREN){
+				if (e.argc_i + 1u >= sizeof(e.argc_stack)){
+					return ERR_SYNTAX; // nested too deep
+				}
 				e.argc_i++;
 				// down a level; default # args is 1 (no commas, not "()")
 				e.argc_stack[e.argc_i] = 1;
@@ -1038,6 +1045,9 @@ void tok_eval(struct tokenizer* state){
 					}
 				}
 			} else { // assumed ) or ]
+				if (!e.argc_i){
+					return ERR_SYNTAX; // nothing was opened
+				}
 				// handle 0-args PI(), BUTTON() case
 				if (state->tokens[i-1].type == operation && state->tokens[i-1].cmd == OP_OPEN_PAREN){
 					e.argc_stack[e.argc_i] = 0;
@@ -1194,10 +1204,14 @@ void tok_eval(struct tokenizer* state){
 		print_token(state, e.result[i]);
 	}
 	
+	if (e.result_i > TOKENS_LINE_MAX){
+		return ERR_SYNTAX; // line has too many parts
+	}
 	for (size_t i = 0; i < e.result_i; ++i){
 		state->tokens[i] = e.result[i];
 	}
 	state->token_i = e.result_i;
+	return ERR_NONE;
 }
 
 // take one line (to /r) and calculate priorities of tokens
@@ -1231,12 +1245,12 @@ void tok_prio(struct tokenizer* state){
 					state->tokens[i].prio = nest + 4;
 					break;
 				case OP_SUBTRACT:
-					if ((i>0 && state->tokens[i-1].type == number) ||
+					if (i>0 && (state->tokens[i-1].type == number ||
 							state->tokens[i-1].type == name ||
 							state->tokens[i-1].type == sysvar || 
 							(state->tokens[i-1].type == operation && (
 								state->tokens[i-1].cmd > OP_OPEN_PAREN
-							))){
+							)))){
 						state->tokens[i].prio = nest + 4;
 					} else {
 						state->tokens[i].cmd = OP_NEGATE;
@@ -1274,6 +1288,11 @@ void tok_prio(struct tokenizer* state){
 	}
 }
 
+/// Character at the cursor. The end of the text ends the line.
+static char tok_char(struct tokenizer* state){
+	return state->cursor < state->source->size ? state->source->data[state->cursor] : '\r';
+}
+
 //only needed for operations and a few others
 void tok_single(struct tokenizer* state, enum type type){
 	state->tokens[state->token_i].type = type;
@@ -1291,15 +1310,18 @@ void tok_with_condition(struct tokenizer* state, bool(*condition)(char)){
 	do {
 		state->tokens[state->token_i].len++;
 		state->cursor++;
-		c = state->source->data[state->cursor];
-	} while (condition(c));
+		c = tok_char(state);
+	} while (condition(c) && state->tokens[state->token_i].len < 255);
 }
 
 //TODO:CODE:LOW Rename this/merge with tokenizer loop
 int tok_none(struct tokenizer* state){
 	// This state represents: Whitespace and default state
 	// This state can transition to:
-	char c = state->source->data[state->cursor];
+	if (state->token_i >= TOKENS_LINE_MAX){
+		return ERR_SYNTAX; // line has too many parts
+	}
+	char c = tok_char(state);
 	
 	if (c == '\r'){
 		tok_single(state, newline);
@@ -1328,7 +1350,7 @@ int tok_none(struct tokenizer* state){
 		//whitespace is ignored
 		state->cursor++;
 	} else if (c == '"'){
-		tok_string(state);
+		return tok_string(state);
 	} else if (c == '&') {
 		tok_base_number(state);
 	} else if (is_number(c) || c == '.') {
@@ -1340,7 +1362,7 @@ int tok_none(struct tokenizer* state){
 	} else if (c == '<' || c == '=' || c == '>' || c == '!'){
 		tok_single(state, operation);
 		// check for <= == >= !=
-		if (state->source->data[state->cursor] == '='){
+		if (tok_char(state) == '='){
 			state->tokens[state->token_i - 1].len++;
 			state->cursor++;
 		}
@@ -1365,13 +1387,13 @@ int tok_none(struct tokenizer* state){
 }
 
 int tok_label(struct tokenizer* state){
-	if (state->source->data[state->cursor++] != ' '){
+	if (tok_char(state) != ' '){
 			return ERR_SYNTAX;
 		}
-		while (state->source->data[state->cursor] == ' '){
+		while (tok_char(state) == ' '){
 			state->cursor++;
 		}
-		if (!is_name(state->source->data[state->cursor])){
+		if (!is_name(tok_char(state))){
 			return ERR_SYNTAX;
 		}
 		tok_with_condition(state, is_name);
@@ -1410,30 +1432,36 @@ int tok_name(struct tokenizer* state){
 	} else if (0 <= (index = tok_in_str_index(sysvars, state->source->data, &state->tokens[state->token_i]))){
 		state->tokens[state->token_i].type = sysvar;
 		state->tokens[state->token_i].cmd = index; // overrides len
+	} else if (state->tokens[state->token_i].len > VAR_NAME_MAX_LENGTH + 1 ||
+			(state->tokens[state->token_i].len == VAR_NAME_MAX_LENGTH + 1 && state->source->data[state->cursor-1] != '$')){
+		err = ERR_SYNTAX; // variable name is too long
 	}
 	
 	state->token_i++;
 	return err;
 }
 
-void tok_string(struct tokenizer* state){
+int tok_string(struct tokenizer* state){
 //	iprintf("Entered string %d\n", state->cursor);
-	if (state->source->data[state->cursor] == '"'){
+	if (tok_char(state) == '"'){
 		state->cursor++;
 	}
 	
 	state->tokens[state->token_i].type = string;
 	state->tokens[state->token_i].len = 0;
 	state->tokens[state->token_i].ofs = state->cursor;
-	while (state->source->data[state->cursor] != '"' &&
-			state->source->data[state->cursor] != '\r'){
+	while (tok_char(state) != '"' && tok_char(state) != '\r'){
+		if (state->tokens[state->token_i].len == 255){
+			return ERR_STRING_TOO_LONG;
+		}
 		state->tokens[state->token_i].len++;
 		state->cursor++;
 	}
-	if (state->source->data[state->cursor] == '"'){
+	if (tok_char(state) == '"'){
 		state->cursor++;
 	}
 	state->token_i++;
+	return ERR_NONE;
 //	iprintf("Exited string %d\n", state->token_i);
 }
 
@@ -1445,8 +1473,8 @@ void tok_base_number(struct tokenizer* state){
 	do {
 		state->tokens[state->token_i].len++;
 		state->cursor++;
-	} while (is_number(state->source->data[state->cursor])
-	         || (state->source->data[state->cursor] >= 'A' && state->source->data[state->cursor] <= 'F'));
+	} while (state->tokens[state->token_i].len < 255 && (is_number(tok_char(state))
+	         || (tok_char(state) >= 'A' && tok_char(state) <= 'F')));
 	state->token_i++;
 }
 
@@ -1457,7 +1485,7 @@ void tok_number(struct tokenizer* state){
 	do {
 		state->tokens[state->token_i].len++;
 		state->cursor++;
-	} while (is_number(state->source->data[state->cursor]) || state->source->data[state->cursor] == '.');
+	} while (state->tokens[state->token_i].len < 255 && (is_number(tok_char(state)) || tok_char(state) == '.'));
 	state->token_i++;
 }
 
diff --git a/source/interpreter/tokens.h b/source/interpreter/tokens.h
index 9fc917a..d1e4542 100644
--- a/source/interpreter/tokens.h
+++ b/source/interpreter/tokens.h
@@ -123,7 +123,7 @@ int tok_none(struct tokenizer* state);
 
 int tok_name(struct tokenizer* state);
 
-void tok_string(struct tokenizer* state);
+int tok_string(struct tokenizer* state);
 
 void tok_number(struct tokenizer* state);
 
@@ -131,7 +131,7 @@ int tok_convert(struct tokenizer* state);
 
 void tok_prio(struct tokenizer* state);
 
-void tok_eval(struct tokenizer* state);
+int tok_eval(struct tokenizer* state);
 
 int tok_code(struct tokenizer* state);
 
-- 
2.43.0


From a656d6e0de9b8cca17d0c8c32f3be9da46f8dac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:54 +0000
Subject: [PATCH 25/37] fix: SORT terminates and orders every range, rejects
 undeclared arrays; SWAP copies only the number itself (M04)

---
 source/subsystem/variables.c | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/source/subsystem/variables.c b/source/subsystem/variables.c
index f40f36e..212d002 100644
--- a/source/subsystem/variables.c
+++ b/source/subsystem/variables.c
@@ -11,10 +11,12 @@ void cmd_swap(struct ptc* p){
 	// Note that swap is swapping values, but those values depend on types
 	struct stack_entry* a = ARG(0);
 	struct stack_entry* b = ARG(1);
+	// copy only as much as is pointed to: some numbers (system variables) are only a fixp
+	size_t size = a->type & VAR_NUMBER ? sizeof(fixp) : sizeof(union value);
 	union value c;
-	memcpy(&c, a->value.ptr, sizeof(union value)); // copies from pointed-to number or string
-	memcpy(a->value.ptr, b->value.ptr, sizeof(union value));
-	memcpy(b->value.ptr, &c, sizeof(union value));
+	memcpy(&c, a->value.ptr, size); // copies from pointed-to number or string
+	memcpy(a->value.ptr, b->value.ptr, size);
+	memcpy(b->value.ptr, &c, size);
 }
 
 #define MAX_SORT_ARRAYS 32
@@ -39,10 +41,6 @@ typedef bool(*comparison)(union value, union value);
 // based on
 // https://en.wikipedia.org/wiki/Quicksort?useskin=monobook#cite_ref-:2_13-2
 int _partition(union value* data, union value** extra, int start, int end, comparison comp){
-	if (end - start <= 1){
-		return start; // already sorted
-	}
-
 	union value pivot = data[start+(end - start)/2]; // select a random pivot
 	--start;
 	++end;
@@ -54,7 +52,7 @@ int _partition(union value* data, union value** extra, int start, int end, compa
 		do {
 			--end;
 		} while (comp(pivot, data[end]));
-		if (start >= end) return start;
+		if (start >= end) return end; // always less than the initial end
 
 		_sort_swap(data, extra, start, end);
 	}
@@ -99,11 +97,17 @@ bool str_rsort_comp(union value a, union value b){
 
 void quick_sort(union value* data, union value** extra, int start, int end, comparison comp){
 	// https://en.wikipedia.org/wiki/Quicksort?useskin=monobook#Hoare_partition_scheme
-	if (end - start <= 1) return;
-
-	int p = _partition(data, extra, start, end, comp);
-	quick_sort(data, extra, start, p, comp);
-	quick_sort(data, extra, p + 1, end, comp);
+	while (start < end){
+		int p = _partition(data, extra, start, end, comp);
+		// recurse into the smaller part only, so that the depth stays small
+		if (p - start < end - p){
+			quick_sort(data, extra, start, p, comp);
+			start = p + 1;
+		} else {
+			quick_sort(data, extra, p + 1, end, comp);
+			end = p;
+		}
+	}
 }
 
 /// @note Does not correctly handle permuting the same array as is being sorted!
@@ -117,6 +121,7 @@ void _cmd_sort_shared(struct ptc* p, comparison comp){
 	// SORT start, size, arr, [arr1, arr2, ...]
 	union value* data = *(void**)stack_get(&p->stack, 2)->value.ptr;
 //	iprintf("%p\n", (void*)data);
+	if (!data) ERROR(ERR_SUBSCRIPT_OUT_OF_RANGE); // array was never declared
 	int array_min_size = arr_size(data, ARR_DIM1);
 	// In concept this is fine but PTC doesn't allow it
 	if (arr_size(data, ARR_DIM2) != ARR_DIM2_UNUSED){
@@ -124,6 +129,7 @@ void _cmd_sort_shared(struct ptc* p, comparison comp){
 	}
 	for (int k = 3; k < p->stack.stack_i; ++k){
 		extra[k-3] = *(union value**)stack_get(&p->stack, k)->value.ptr;
+		if (!extra[k-3]) ERROR(ERR_SUBSCRIPT_OUT_OF_RANGE); // array was never declared
 		if ((int)arr_size(extra[k-3], ARR_DIM1) < array_min_size){
 			array_min_size = arr_size(extra[k-3], ARR_DIM1);
 		}
-- 
2.43.0


From a4cb16b1bbc14a556782e0b18879b2a3bc50fdbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:56 +0000
Subject: [PATCH 26/37] fix: a shutdown or break raised while a program is
 prepared or ends is not overwritten; EXEC reports success only if the program
 is usable (L03, R03)

---
 source/interpreter/runner.c |  6 ++++--
 source/main.c               | 19 +++++++++++++++++--
 source/system.c             | 30 ++++++++++++++++++++----------
 3 files changed, 41 insertions(+), 14 deletions(-)

diff --git a/source/interpreter/runner.c b/source/interpreter/runner.c
index 87e7eb3..5f7e284 100644
--- a/source/interpreter/runner.c
+++ b/source/interpreter/runner.c
@@ -599,7 +599,8 @@ void cmd_exec(struct ptc* p){
 	}
 
 	// tokenize updates all relevant exec.code values
-	p->exec.error = tokenize(&p->exec.prg, &p->exec.code);
+	int error = tokenize(&p->exec.prg, &p->exec.code);
+	if (error) ERROR(error);
 //	iprintf("new=%d\n", p->exec.code.size);
 	// error set if needed; otherwise, execute
 	// EXEC is called from run, so running happens naturally. Just reset the necessary values.
@@ -613,7 +614,8 @@ void cmd_exec(struct ptc* p){
 
 void cmd_run(struct ptc* p){
 	// tokenize updates all relevant exec.code values
-	p->exec.error = tokenize_full(&p->exec.prg, &p->exec.code, p, TOKOPT_NONE);
+	int error = tokenize_full(&p->exec.prg, &p->exec.code, p, TOKOPT_NONE);
+	if (error) ERROR(error);
 //	iprintf("new=%d\n", p->exec.code.size);
 	// error set if needed; otherwise, execute
 	// EXEC is called from run, so running happens naturally. Just reset the necessary values.
diff --git a/source/main.c b/source/main.c
index 7655672..d26b32f 100644
--- a/source/main.c
+++ b/source/main.c
@@ -159,7 +159,10 @@ void v__(void); //prevent empty translation unit
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#include <stdatomic.h>
+#include <stdbool.h>
 #include <threads.h>
+#include <time.h>
 
 #include "interpreter.h"
 
@@ -179,6 +182,14 @@ enum emu_key_mode {
 // UDLR, ABXY, LR SELECT START, and a special 'toggle mode' key
 #define KEY_COUNT 13
 
+static atomic_bool program_done = false;
+
+static int program_thread(void* launch_info){
+	int result = launch_system(launch_info);
+	program_done = true;
+	return result;
+}
+
 int main(int argc, char** argv){
 	init_memory(MAX_MEMORY);
 	
@@ -214,7 +225,7 @@ int main(int argc, char** argv){
 	// Launch the program thread
 	struct launch_info info = {ptc, NULL, argc >= 2 ? argv[1] : NULL};
 	thrd_t prog_thread;
-	if (thrd_success != thrd_create(&prog_thread, launch_system, &info)){
+	if (thrd_success != thrd_create(&prog_thread, program_thread, &info)){
 		printf("Failed to create the program thread!\n");
 		abort();
 	}
@@ -314,8 +325,12 @@ int main(int argc, char** argv){
 	sfRenderWindow_destroy(window);
 
 	// this causes program to stop execution after instruction finishes
-	ptc->exec.error = ERR_SHUTDOWN;
+	// (the request is repeated, in case an error was raised or cleared at the same time)
 	iprintf("Waiting for program thread to terminate\n");
+	while (!program_done){
+		ptc->exec.error = ERR_SHUTDOWN;
+		thrd_sleep(&(struct timespec){.tv_nsec=(1e7)}, NULL);
+	}
 	thrd_join(prog_thread, NULL);
 
 	free_system(ptc);
diff --git a/source/system.c b/source/system.c
index 13dd6ee..d5b58e8 100644
--- a/source/system.c
+++ b/source/system.c
@@ -312,6 +312,12 @@ void system_debug(struct ptc* p, enum launch_debug debug){
 	}
 }
 
+/// Prepares for the next execution. A requested shutdown is never forgotten.
+static void clear_error(struct ptc* p){
+	if (p->exec.error != ERR_SHUTDOWN){
+		p->exec.error = ERR_NONE;
+	}
+}
 
 /// Tokenizes and executes the program using the current system and options.
 ///
@@ -319,9 +325,12 @@ void system_debug(struct ptc* p, enum launch_debug debug){
 ///
 /// @return Error code of execution
 int token_and_run(struct ptc* p, struct program* prg, struct bytecode* bc, int tokopts){
-	p->exec.error = ERR_NONE;
+	clear_error(p);
 	p->calls.stack_i = 0;
-	p->exec.error = tokenize_full(prg, bc, p, tokopts);
+	int error = tokenize_full(prg, bc, p, tokopts);
+	if (error){
+		p->exec.error = error;
+	}
 	if (p->exec.error == ERR_NONE){
 		run(*bc, p);
 	}
@@ -330,7 +339,7 @@ int token_and_run(struct ptc* p, struct program* prg, struct bytecode* bc, int t
 
 // this is practically the main function, barring some platform-specific intialization
 int launch_system(void* launch_info){
-	u8 err_msg[CONSOLE_WIDTH*2+2] = {STRING_INLINE_CHAR}; // 2 lines + string metadata (type + length)
+	u8 err_msg[CONSOLE_WIDTH*3+2] = {STRING_INLINE_CHAR}; // 3 lines + string metadata (type + length)
 	struct launch_info* info = (struct launch_info*)launch_info;
 	struct ptc* p = info->p;
 	
@@ -375,7 +384,7 @@ int launch_system(void* launch_info){
 	int opts = TOKOPT_NONE;
 	while (running){
 		running = p->exec.error != ERR_SHUTDOWN;
-		p->exec.error = ERR_NONE; // prepare for next execution
+		clear_error(p); // prepare for next execution
 		p->calls.stack_i = 0; // TODO:IMPL:MED Determine a better way to handle this
 		int old_state = state;
 		iprintf("MAIN state=%d\n", state);
@@ -384,7 +393,9 @@ int launch_system(void* launch_info){
 				{
 				run(prompt_bc, p); // get prompt
 				
-				void* cmd = get_var(&p->vars, "CODE", 4, VAR_STRING)->value.ptr;
+				struct named_var* cmd_var = get_var(&p->vars, "CODE", 4, VAR_STRING);
+				if (!cmd_var) break; // no free variables: LINPUT has already failed
+				void* cmd = cmd_var->value.ptr;
 				if (str_comp(cmd, "S\011REM BENCH")){
 					state = LAUNCH_DEBUG;
 					debug = LAUNCH_DEBUG_BENCH;
@@ -404,13 +415,13 @@ int launch_system(void* launch_info){
 					p->exec.error_info[0] = 0; // clear signal info
 					break;
 				}
-				if (p->exec.error == ERR_SHUTDOWN){
-					break;
+				if (p->exec.error != ERR_NONE){
+					break; // the prompt was interrupted
 				}
 				
 				// execute single line
 				// create small program
-				u8 direct_cmd[32+1] = {0};
+				u8 direct_cmd[MAX_STRLEN+1] = {0};
 				struct program prog = {0, (char*)direct_cmd};
 				str_char_copy(cmd, direct_cmd);
 				prog.size = str_len(cmd);
@@ -422,7 +433,6 @@ int launch_system(void* launch_info){
 				break;
 				
 			case LAUNCH_EDIT: // EDIT mode
-				p->exec.error = ERR_NONE;
 				run(editor_bc, p);
 				int sig = p->exec.error_info[0];
 				// TODO:IMPL:LOW style buttons correctly for each mode
@@ -480,7 +490,7 @@ int launch_system(void* launch_info){
 			break;
 		}
 		// clear error status for next execution
-		p->exec.error = ERR_NONE;
+		clear_error(p);
 		p->exec.error_info[0] = '\0'; // remove error string
 	}
 	
-- 
2.43.0


From d8f21fa3298978ef07d2dceef3e46b6b13ee5c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:39 +0000
Subject: [PATCH 27/37] fix: raw memory accesses may not straddle the end of
 the block; ADDR checks names, resources and missing variables (M06)

---
 source/extension/sbc_memory.c | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/source/extension/sbc_memory.c b/source/extension/sbc_memory.c
index cc411d4..b18c2ad 100644
--- a/source/extension/sbc_memory.c
+++ b/source/extension/sbc_memory.c
@@ -34,7 +34,7 @@
 		ERROR(ERR_NULL_ADDRESS);\
 	}\
 	if (p->memapi.sys_memsafe){\
-		if (addr_num < ADDR_MIN || addr_num > ADDR_MAX){\
+		if (addr_num < ADDR_MIN || addr_num > ADDR_MAX - (fixp)(sizeof(type) - 1)){\
 			ERROR(ERR_ILLEGAL_ADDRESS);\
 		} else if (ADDR_ALIGN && ((uintptr_t)addr & invalid_align)){\
 			ERROR(ERR_MISALIGNED_ADDRESS);\
@@ -124,7 +124,7 @@ void cmd_memfill(struct ptc* p){
 		ERROR(ERR_NULL_ADDRESS);\
 	}\
 	if (p->memapi.sys_memsafe){\
-		if (addr_num < ADDR_MIN || addr_num > ADDR_MAX){\
+		if (addr_num < ADDR_MIN || addr_num > ADDR_MAX - (fixp)(sizeof(type) - 1)){\
 			ERROR(ERR_ILLEGAL_ADDRESS);\
 		} else if (ADDR_ALIGN && ((uintptr_t)addr & invalid_align)){\
 			ERROR(ERR_MISALIGNED_ADDRESS);\
@@ -178,18 +178,18 @@ void func_addr(struct ptc* p){
 	// internal: !SPRITE
 	// pointer: (ptr=offset): * (this reads a new pointer from address `offset`)
 	if (addr_type == FUNC_ADDR_DEREF){
+		if (FIXP_TO_PTR(ofs_num) == NULL){
+			ERROR(ERR_NULL_ADDRESS);
+		}
 		if (p->memapi.sys_memsafe){
-			if (ofs_num < ADDR_MIN || ofs_num > ADDR_MAX){
+			if (ofs_num < ADDR_MIN || ofs_num > ADDR_MAX - (fixp)(sizeof(void*) - 1)){
 				ERROR(ERR_ILLEGAL_ADDRESS);
 			} else if (ADDR_ALIGN && (ofs_num & 0x3)){
 				ERROR(ERR_MISALIGNED_ADDRESS);
-			} else if (FIXP_TO_PTR(ofs_num) == NULL){
-				ERROR(ERR_NULL_ADDRESS);
 			}
 		}
 		// dereference this address once
 		void** ptr = (void**)FIXP_TO_PTR(ofs_num);
-		assert(ptr);
 		res_ptr = *ptr;
 		// return here
 		STACK_RETURN_NUM(PTR_TO_FIXP(res_ptr));
@@ -205,13 +205,14 @@ void func_addr(struct ptc* p){
 		} else {
 			type |= VAR_NUMBER;
 		}
-		if (len > 17){
-			ERROR(ERR_ILLEGAL_FUNCTION_CALL); // name too long
+		if (len < 2 || len > 17){
+			ERROR(ERR_ILLEGAL_FUNCTION_CALL); // no name, or name too long
 		}
 		// get_var
-		char var_name[17]; // skip = at beginning
+		char var_name[17+3]; // skip = at beginning; may end with $[]
 		str_char_copy(resource, (u8*)var_name);
 		struct named_var* v = get_var(&p->vars, var_name+1, len-1, type);
+		if (!v) ERROR(ERR_OUT_OF_MEMORY);
 		
 		if (addr_type == FUNC_ADDR_VAR_STRUCT){
 			res_ptr = v;
@@ -284,12 +285,12 @@ void func_addr(struct ptc* p){
 			}
 		}
 	} else if (len <= 5){
-		res_ptr = str_to_resource(p, resource);
-		if (p->exec.error == ERR_INVALID_RESOURCE_TYPE){
-			p->exec.error = ERR_NONE; // allowed here, retry with variable name
-		}
+		struct res_info info = get_verified_resource_type(p, resource);
+		if (p->exec.error) return;
+		if (info.type_id == TYPE_INVALID) ERROR(ERR_INVALID_RESOURCE_TYPE);
+		res_ptr = info.data;
 		if (p->memapi.sys_memsafe){
-			if (ofs < 0 || ofs >= resource_size[get_resource_type(resource)]){
+			if (ofs < 0 || ofs >= resource_size[info.type_id]){
 				ERROR(ERR_ILLEGAL_OFFSET);
 			}
 		}
-- 
2.43.0


From 1ef3843f9a8cbebb9270759975a81a3a4282402e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:39 +0000
Subject: [PATCH 28/37] fix: the extension block reports exhaustion; ACLS no
 longer uses it up (M06)

---
 source/extension/sbc_blockalloc.c | 4 ++++
 source/system.c                   | 7 +++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/source/extension/sbc_blockalloc.c b/source/extension/sbc_blockalloc.c
index bff34b1..de4c59c 100644
--- a/source/extension/sbc_blockalloc.c
+++ b/source/extension/sbc_blockalloc.c
@@ -7,6 +7,7 @@
 
 void* sbc_membase = NULL; // must be initalized prior to use
 static u8* sbc_memnext = NULL;
+static u8* sbc_memend = NULL;
 
 void init_memory(int memory_max){
 	iprintf("init_memory block\n");
@@ -15,6 +16,7 @@ void init_memory(int memory_max){
 	if (!sbc_membase){
 		sbc_membase = malloc(memory_max);
 		sbc_memnext = sbc_membase;
+		sbc_memend = (u8*)sbc_membase + memory_max;
 	}
 }
 
@@ -32,6 +34,7 @@ void free_memory(void){
 void* sbc_malloc(int size){
 	assert(sbc_membase);
 	assert(sbc_memnext);
+	if (size < 0 || size > sbc_memend - sbc_memnext) return NULL; // block is used up
 	void* alloc = sbc_memnext; // current alloc goes here
 	sbc_memnext += size; // advance by size bytes
 	iprintf("sbc_malloc'd %d at %p\n", size, alloc);
@@ -42,6 +45,7 @@ void* sbc_calloc(int count, int size){
 	assert(sbc_membase);
 	assert(sbc_memnext);
 	int alloc_size = count * size;
+	if (alloc_size < 0 || alloc_size > sbc_memend - sbc_memnext) return NULL; // block is used up
 	void* alloc = sbc_memnext; // current alloc goes here
 	sbc_memnext += alloc_size; // advance by size bytes
 	memset(alloc, 0, alloc_size); // zero out memory
diff --git a/source/system.c b/source/system.c
index d5b58e8..5faf7ca 100644
--- a/source/system.c
+++ b/source/system.c
@@ -90,8 +90,12 @@ struct labels acls_labels = {0};
 void cmd_acls(struct ptc* p){
 	// copy vars and use a temp variables for this snippet
 	struct runner cur_exec = p->exec; // copy code state
+	// (static, since memory from init_mem_var would not be reusable after free_mem_var)
+	static struct named_var acls_vars[4]; //P,I
+	memset(acls_vars, 0, sizeof(acls_vars)); // all VAR_EMPTY
 	struct variables temp_vars = {0};
-	init_mem_var(&temp_vars, 4); //P,I
+	temp_vars.vars_max = sizeof(acls_vars)/sizeof(acls_vars[0]);
+	temp_vars.vars = acls_vars;
 	struct variables vars = p->vars;
 	p->vars = temp_vars;
 	
@@ -112,7 +116,6 @@ void cmd_acls(struct ptc* p){
 	
 	// Restore proper program variable state
 	p->vars = vars;
-	free_mem_var(&temp_vars);
 }
 
 void cmd_visible(struct ptc* p){
-- 
2.43.0


From 005e7a43fa3799b8228219b3b2089428a235dabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:39 +0000
Subject: [PATCH 29/37] fix: program files larger than the program memory are
 rejected, and a failed load leaves no size (M05)

---
 source/interpreter/program.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/source/interpreter/program.c b/source/interpreter/program.c
index a176408..31db02e 100644
--- a/source/interpreter/program.c
+++ b/source/interpreter/program.c
@@ -167,9 +167,18 @@ bool load_prg_internal(struct program* p, const char* filename, bool alloc){
 		return false;
 	}
 	
-	p->size = h.prg_size;
+	if (h.prg_size > MAX_SOURCE_SIZE){
+		fclose(f);
+		iprintf("Program is too large!\n");
+		return false;
+	}
 	if (alloc){
 		p->data = malloc_log("prg_load", h.prg_size);
+		if (!p->data){
+			fclose(f);
+			iprintf("Not enough memory for program!\n");
+			return false;
+		}
 	}
 	r = fread(p->data, sizeof(char), h.prg_size, f);
 	if (r < h.prg_size || ferror(f)){
@@ -181,6 +190,7 @@ bool load_prg_internal(struct program* p, const char* filename, bool alloc){
 		return false;
 	}
 	// file read success: close file
+	p->size = h.prg_size;
 	fclose(f);
 	return true;
 
-- 
2.43.0


From e07f2e543f4445877f68b999fa06602cbcd4a349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:39 +0000
Subject: [PATCH 30/37] fix: INKEY$ ignores characters without 8-bit code; key
 offsets stop at the last key (M08)

---
 source/subsystem/input.c | 5 +++--
 source/subsystem/panel.c | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/subsystem/input.c b/source/subsystem/input.c
index 05273c9..ffec645 100644
--- a/source/subsystem/input.c
+++ b/source/subsystem/input.c
@@ -198,9 +198,10 @@ void func_inkey(struct ptc* p){
 		return;
 	}
 	u16 inkey = get_inkey(i);
-	if (inkey){
+	int c = inkey ? to_char(inkey) : -1;
+	if (c >= 0 && c < 256){ // characters without 8-bit code can not be represented
 		//TODO:CODE:LOW Doesn't handle wide characters
-		stack_push(&p->stack, (struct stack_entry){VAR_STRING, {.ptr = &single_char_strs[3 * to_char(inkey)]}});
+		stack_push(&p->stack, (struct stack_entry){VAR_STRING, {.ptr = &single_char_strs[3 * c]}});
 	} else {
 		stack_push(&p->stack, (struct stack_entry){VAR_STRING, {.ptr = empty_str}});
 	}
diff --git a/source/subsystem/panel.c b/source/subsystem/panel.c
index 02aecd4..c8cab56 100644
--- a/source/subsystem/panel.c
+++ b/source/subsystem/panel.c
@@ -441,7 +441,7 @@ int get_pressed_key(struct ptc* ptc){
 
 void offset_key(struct ptc* p, int id, int d){
 	if (id<PANEL_KEYS){
-		for (int i = id; p->panel.keys[i].vars[0] == p->panel.key_pressed && i<PANEL_KEYS; ++i){
+		for (int i = id; i<PANEL_KEYS && p->panel.keys[i].vars[0] == p->panel.key_pressed; ++i){
 			p->panel.keys[i].pos.x += d;
 			p->panel.keys[i].pos.y += d;
 		}
-- 
2.43.0


From d44da5866fe468f9c9f8f395d560bd8914572a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:50 +0000
Subject: [PATCH 31/37] fix: programs whose compiled form exceeds the program
 memory or line table are rejected (M07)

---
 source/interpreter/tokens.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index 8e802ce..bd94203 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -219,6 +219,10 @@ void print_token(struct tokenizer* state, struct token t){
 	iprintf("\n");
 }
 
+/// Room for the largest instruction (type, length, 255 characters, padding)
+/// and the instructions that may follow it unconditionally
+#define BC_TOKEN_MAX 300
+
 int tokenize(struct program* src, struct bytecode* out){
 	return tokenize_full(src, out, NULL, 0);
 }
@@ -251,6 +255,10 @@ int tokenize_full(struct program* src, struct bytecode* out, void* system, int o
 	int old_cursor;
 	while (state.cursor < state.source->size){
 		old_cursor = state.cursor;
+		if (out->size > MAX_SOURCE_SIZE - BC_TOKEN_MAX){
+			error = ERR_OUT_OF_MEMORY; // no room to even record an error
+			break;
+		}
 		error = tok_none(&state);
 		if (error != ERR_NONE){
 			if (opts & TOKOPT_STRICT_ERROR) break;
@@ -333,6 +341,7 @@ int tok_convert(struct tokenizer* state){
 	if (code_res != ERR_NONE) return code_res;
 	int line_end = state->output->size;
 	int line_length = line_end - line_begin;
+	if (state->lines_processed >= MAX_LINES) return ERR_OUT_OF_MEMORY;
 	state->output->line_length[state->lines_processed++] = line_length;
 
 	return ERR_NONE;
@@ -767,6 +776,9 @@ int tok_code(struct tokenizer* state){
 	uint64_t sys_validate = 0;
 	
 	for (size_t i = 0; i < state->token_i; ++i){
+		if (*size > MAX_SOURCE_SIZE - 2*BC_TOKEN_MAX){
+			return ERR_OUT_OF_MEMORY; // the compiled program is too large
+		}
 		switch (state->tokens[i].type){
 			case command:
 			case first_of_line_command:;
-- 
2.43.0


From a5f9387effa5a19b1f0fed88bec60905971fff36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:05 +0000
Subject: [PATCH 32/37] fix: MAINCNTL does not wrap to negative numbers (A02)

---
 source/subsystem/sysvars.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/subsystem/sysvars.c b/source/subsystem/sysvars.c
index d5c0350..f0fe743 100644
--- a/source/subsystem/sysvars.c
+++ b/source/subsystem/sysvars.c
@@ -153,13 +153,13 @@ void sys_tchy(struct ptc* p){
 void sys_maincntl(struct ptc* p){
 	struct value_stack* s = &p->stack;
 	
-	stack_push(s, (struct stack_entry){VAR_NUMBER, {INT_TO_FP((get_time(&p->time) & 0xfffff))}});
+	stack_push(s, (struct stack_entry){VAR_NUMBER, {INT_TO_FP((get_time(&p->time) & 0x7ffff))}});
 }
 
 void sys_maincnth(struct ptc* p){
 	struct value_stack* s = &p->stack;
 	
-	stack_push(s, (struct stack_entry){VAR_NUMBER, {INT_TO_FP((get_time(&p->time) & 0xfffff00000) >> 20)}});
+	stack_push(s, (struct stack_entry){VAR_NUMBER, {INT_TO_FP((get_time(&p->time) >> 19) & 0x7ffff)}});
 }
 
 void sys_freemem(struct ptc* p){
-- 
2.43.0


From aea4dd8c3adc47dc8d0cc2d14ac2598b82325e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:47 +0000
Subject: [PATCH 33/37] fix: MID$ with a start position past 32767 returns an
 empty string (M03)

---
 source/interpreter/strfuncs.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/interpreter/strfuncs.c b/source/interpreter/strfuncs.c
index 4b9cc6a..84331ed 100644
--- a/source/interpreter/strfuncs.c
+++ b/source/interpreter/strfuncs.c
@@ -34,11 +34,11 @@ void func_mid(struct ptc* p){
 	STACK_REL_INT_MIN(-1,0,len);
 	s->stack_i -= 3;
 	
-	s16 max_len = (s16)str_len(str) - (s16)start;
+	int max_len = (int)str_len(str) - start;
 	if (max_len <= 0){
 		stack_push(&p->stack, (struct stack_entry){VAR_STRING, {.ptr = empty_str}});
 		return;
-	} else if (max_len <= (s16)len){
+	} else if (max_len <= len){
 		len = max_len;
 	}
 	
-- 
2.43.0


From 134fecf2ff682e576c01834760b1b614c2caa6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:33 +0000
Subject: [PATCH 34/37] fix: mark resources for redraw when a package ends
 early (V01)

---
 source/subsystem/resources.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/subsystem/resources.c b/source/subsystem/resources.c
index 2709dfe..42a04de 100644
--- a/source/subsystem/resources.c
+++ b/source/subsystem/resources.c
@@ -175,15 +175,15 @@ int load_program(struct ptc* p, const char* search_path, const char* name){
 		}
 		// Load resource
 		read = fread(info.data, sizeof(u8), resource_size[info.type_id], f);
-		if (read != resource_size[info.type_id]){
-			FILE_CLOSE("Could not read complete resource");
-		}
-		// Mark as needing refresh
+		// Mark as needing refresh (even an incomplete read changes the resource)
 		if (info.type_id == TYPE_CHR){
 			p->res.regen_chr[get_chr_index(p, info.type)] = true;
 		} else if (info.type_id == TYPE_COL){
 			p->res.regen_col = true;
 		}
+		if (read != resource_size[info.type_id]){
+			FILE_CLOSE("Could not read complete resource");
+		}
 	}
 
 	// This returns the size of the read program data.
-- 
2.43.0


From a93315cee939d2c51ba293fcf8b8d90a6d56d703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:29 +0000
Subject: [PATCH 35/37] fix: a failed seek makes LOAD, EXEC and APPEND fail
 (R03)

---
 source/subsystem/resources.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/source/subsystem/resources.c b/source/subsystem/resources.c
index 42a04de..e451ae1 100644
--- a/source/subsystem/resources.c
+++ b/source/subsystem/resources.c
@@ -99,8 +99,9 @@ int load_program(struct ptc* p, const char* search_path, const char* name){
 	if (fread(h.magic, sizeof(char), 4, f) != 4){
 		FILE_CLOSE("Failed to read file magic ID");
 	}
-	fseek(f, 0, SEEK_SET);
-	CHECK_FILE_ERROR("Failed to seek to file start");
+	if (fseek(f, 0, SEEK_SET)){
+		FILE_CLOSE("Failed to seek to file start");
+	}
 
 	// only works on little-endian devices...
 	// (reading into header struct directly)
@@ -137,8 +138,9 @@ int load_program(struct ptc* p, const char* search_path, const char* name){
 	// 1 -> +3
 	// 2 -> +2
 	// 3 -> +1
-	fseek(f, "\0\3\2\1"[h.prg_size & 3], SEEK_CUR);
-	CHECK_FILE_ERROR("Could not seek past program");
+	if (fseek(f, "\0\3\2\1"[h.prg_size & 3], SEEK_CUR)){
+		FILE_CLOSE("Could not seek past program");
+	}
 
 	// Copy loaded program name
 	memset(p->res.prgname, '\0', sizeof(p->res.prgname)); // lazy null termination
@@ -219,8 +221,9 @@ bool verify_file_type(const char* path, const int type){
 	if (fread(check_type, sizeof(char), 4, f) != 4){
 		FILE_CLOSE("Failed to read file magic ID");
 	}
-	fseek(f, 0, SEEK_SET);
-	CHECK_FILE_ERROR("Failed to seek to file start");
+	if (fseek(f, 0, SEEK_SET)){
+		FILE_CLOSE("Failed to seek to file start");
+	}
 
 	int size_read;
 	if (!strncmp(check_type, "PX01", 4)){
-- 
2.43.0


From 4e02e1f0423c69d70e2cf9e3394256ce97d94930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:54 +0000
Subject: [PATCH 36/37] fix: SPREAD accepted values instead of variables as
 outputs (C01)

---
 source/interpreter/tokens.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index bd94203..5be686a 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -113,7 +113,7 @@ const char* cmd_format[] = {
 	"NNS,NNSN","S","v","","","SS",//RENAME
 	"L","NNa","0","S","","NNa","NN,NNN,NNNN",//SPANGLE
 	"NNN,NNNN","NN,NNNNNN","0,N","NNNNNN,NNNNNNN","NNN","NNN","NNN,NNNN","N",//SPPAGE
-	"NN,NNN,NNNN,NNNNN,NNNNNN","NN,NNN","NNNNNN,NNNNNNNN","NNN","nn,ss",//SWAP
+	"Nn,Nnn,Nnnn,Nnnnn,Nnnnnn","NN,NNN","NNNNNN,NNNNNNNN","NNN","nn,ss",//SWAP
 	"Snnn",//TMREAD
 	"S", "0", // TALK, TALKSTOP
 	"NN","NN","NN","NNN","NNN", //MEMFILL
-- 
2.43.0


From 691eb3ad3a339c0f65795c32b158e5af4e472116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:54 +0000
Subject: [PATCH 37/37] fix: SORT and RSORT were accepted without an array
 (C01)

---
 source/interpreter/tokens.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index 5be686a..305dab4 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -111,7 +111,7 @@ const char* cmd_format[] = {
 	"N,NNN","NN,NNN,NNNN","NN,NNN","N","NNSNNN","0,N","NN",//ICONSET
 	"NS","","S,SN","0",//NEW
 	"NNS,NNSN","S","v","","","SS",//RENAME
-	"L","NNa","0","S","","NNa","NN,NNN,NNNN",//SPANGLE
+	"L","NNAa","0","S","","NNAa","NN,NNN,NNNN",//SPANGLE
 	"NNN,NNNN","NN,NNNNNN","0,N","NNNNNN,NNNNNNN","NNN","NNN","NNN,NNNN","N",//SPPAGE
 	"Nn,Nnn,Nnnn,Nnnnn,Nnnnnn","NN,NNN","NNNNNN,NNNNNNNN","NNN","nn,ss",//SWAP
 	"Snnn",//TMREAD
-- 
2.43.0

