From 9cc96e906f6518ddd9aa3df593c2ae0b75c09e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:30 +0000
Subject: [PATCH 01/80] fix: a relative branch reaches -128..127, not -127..128

A displacement of 128 was encoded as $80 (-128, i.e. 256 bytes away from the
target) and a displacement of -128 was needlessly expanded to a jump.
---
 CMakePasm/source/expand.cc    | 2 +-
 CMakePasm/source/genoutput.cc | 2 +-
 CMakePasm/source/node.cc      | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 7e8b5f0..b99691a 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -919,7 +919,7 @@ int expand_op_code_node(const parse_node_ptr p)
                 // make sure a branch is in range
                 const int op = op_value - (p->opcode.program_counter + 2);
 
-                if (op > 128 || op < -127)
+                if (op > 127 || op < -128)
                 {
                     // reverse the logic and insert a jmp
                     switch (p->opcode.instruction)
diff --git a/CMakePasm/source/genoutput.cc b/CMakePasm/source/genoutput.cc
index 2fabd7d..b921c1f 100644
--- a/CMakePasm/source/genoutput.cc
+++ b/CMakePasm/source/genoutput.cc
@@ -224,7 +224,7 @@ int write_opcode_node(FILE* file, const parse_node_ptr p)
             // make sure a branch is in range
             op -= (p->opcode.program_counter + 2);
 
-            if (op > 128 || op < -127)
+            if (op > 127 || op < -128)
             {
                 error(error_value_out_of_range);
                 return 0;
diff --git a/CMakePasm/source/node.cc b/CMakePasm/source/node.cc
index 64ed315..8e68a3a 100644
--- a/CMakePasm/source/node.cc
+++ b/CMakePasm/source/node.cc
@@ -1751,7 +1751,7 @@ int generate_list_node(const parse_node_ptr p)
         if (p->opcode.mode == r)
         {
             op -= (p->opcode.program_counter + 2);
-            if (op > 128 || op < -127)
+            if (op > 127 || op < -128)
             {
                 // This error is reported in generate_output
                 fprintf(console, "%s\n", current_buffer);
-- 
2.43.0


From dd89f910b20f391daedaa14b6660a33b50b2bd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:50 +0000
Subject: [PATCH 02/80] fix: far branches: invert bvc/bvs, jump for bra, leave
 the node as it was

An out of range bvc/bvs kept its own condition, so the jump was skipped exactly
when it had to be taken; bra skipped its jump always. A far branch inside a
loop or a macro changed the shared node for the following expansions.
---
 CMakePasm/source/expand.cc | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index b99691a..6a02370 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -802,6 +802,7 @@ int expand_op_code_node(const parse_node_ptr p)
     int mode_check = p->opcode.mode;
     const int save_mode = p->opcode.mode;
     const int save_op_code = p->opcode.opcode;
+    const int save_instruction = p->opcode.instruction;
     int op_bytes;
 
     if (program_counter_assigned > 0)
@@ -950,6 +951,14 @@ int expand_op_code_node(const parse_node_ptr p)
                     case _bpl:
                         p->opcode.instruction = _bmi;
                         break;
+
+                    case _bvc:
+                        p->opcode.instruction = _bvs;
+                        break;
+
+                    case _bvs:
+                        p->opcode.instruction = _bvc;
+                        break;
                     }
                     code2 = get_op_code(p->opcode.instruction, r);
                     if (code2 != -1)
@@ -963,14 +972,19 @@ int expand_op_code_node(const parse_node_ptr p)
                             exit(-1);
                         }
 
-                        p->opcode.opcode = code2;
-                        if (final_pass)
+                        // a branch that is always taken needs no inverted branch
+                        if (save_instruction != _bra)
                         {
-                            p->op[index] = constant_node(program_counter + 5, 0);
-                            generate_list_node(p);
-                            generate_output(output_file, p);
+                            p->opcode.opcode = code2;
+                            if (final_pass)
+                            {
+                                p->op[index] = constant_node(program_counter + 5, 0);
+                                generate_list_node(p);
+                                generate_output(output_file, p);
+                                p->op[index] = target;
+                            }
+                            program_counter += get_op_code_byte_count(p) + 1;
                         }
-                        program_counter += get_op_code_byte_count(p) + 1;
                         if (final_pass)
                         {
                             jmp->opcode.program_counter = program_counter;
@@ -982,6 +996,7 @@ int expand_op_code_node(const parse_node_ptr p)
                         program_counter += get_op_code_byte_count(jmp) + 1;
                         p->opcode.opcode = save_op_code;
                         p->opcode.mode = save_mode;
+                        p->opcode.instruction = save_instruction;
 
                         return 0;
                     }
@@ -2040,4 +2055,4 @@ void dump_op_table(void)
 void dump_table_dictionary(void)
 {
     dump_dictionary(expand_table_dictionary, print_op_table, console);
-}
\ No newline at end of file
+}
\ No newline at end of file
-- 
2.43.0


From 3b1df930b21e02f8d2276a7de3b53cdceefe591b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:20 +0000
Subject: [PATCH 03/80] fix: exit with an error status when the final pass
 reports errors

Errors only detected while generating output (value out of range, divide by
zero) printed a message but pasm still exited 0 with a truncated output.
---
 CMakePasm/source/pass.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/CMakePasm/source/pass.cc b/CMakePasm/source/pass.cc
index 4dbbc92..5889516 100644
--- a/CMakePasm/source/pass.cc
+++ b/CMakePasm/source/pass.cc
@@ -299,6 +299,13 @@ int assemble(void)
 
     delete_list_table();
 
+    // errors that only the final pass can see (value out of range, divide by zero, ...)
+    if (error_count > 0)
+    {
+        fprintf(console_error, "%d error(s)\n", error_count);
+        return -1;
+    }
+
     return 0;
 }
 
-- 
2.43.0


From b2857f17aed7040f59ea967c852ceb0bb35b08bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:48 +0000
Subject: [PATCH 04/80] fix: -d accepts decimal values of three or more digits
 and rejects bad ones

Any decimal value longer than two characters silently became 0; an out of
range value printed an error, then assembled with 0 and exit status 0.
---
 CMakePasm/source/parseargs.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/CMakePasm/source/parseargs.cc b/CMakePasm/source/parseargs.cc
index f18b837..e52fe80 100644
--- a/CMakePasm/source/parseargs.cc
+++ b/CMakePasm/source/parseargs.cc
@@ -321,6 +321,10 @@ int parse_arguments(const int argc, char* argv[])
                 {
                     sym_val = (int)strtol(val + 2, NULL, 2);
                 }
+                else
+                {
+                    sym_val = (int)strtol(val, NULL, 10);
+                }
             }
             else
             {
@@ -331,7 +335,11 @@ int parse_arguments(const int argc, char* argv[])
             symbol_table_ptr sym = add_symbol(sym_name);
             if (sym != NULL)
             {
-                set_symbol_value(sym, sym_val);
+                if (set_symbol_value(sym, sym_val) == NULL)
+                {
+                    usage();
+                    exit(-1);
+                }
                 sym->is_initialized = true;
                 sym->times_accessed = 1000;
             }
-- 
2.43.0


From 84cf06b341699740487493d86c4ef0bc77479650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:12 +0000
Subject: [PATCH 05/80] fix: conditional assembly: nested skipped blocks,
 comments, stray .else, end of file

Skipping ended only when the whole conditional stack was empty, so an .ifdef
inside a true .ifdef or .if swallowed the text behind its own .endif; nested
conditionals, comments and strings inside skipped text were obeyed as if they
were not skipped; .else without an open conditional crashed; an unterminated
conditional or comment made the next pass start in the skipping state.
---
 CMakePasm/source/pasm.l | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/CMakePasm/source/pasm.l b/CMakePasm/source/pasm.l
index 2791320..62896df 100644
--- a/CMakePasm/source/pasm.l
+++ b/CMakePasm/source/pasm.l
@@ -17,6 +17,7 @@
 #include "memory.h"
 
 int do_count = 0;
+int skip_depth = 0; // conditionals nested inside the block that is being skipped
 static char* last_token = nullptr;
 static bool Debug_Token = false;
 extern bool Debug_Bison;
@@ -167,6 +168,7 @@ SYMB                        @?[A-Za-z_][A-Za-z0-9_.]*
                                 symbol_table_ptr sym = look_up_symbol(p); 
                                 if (sym == NULL)
                                 {
+                                    skip_depth = 0;
                                     BEGIN(IF_DEF);
                                 }
                             }
@@ -182,20 +184,19 @@ SYMB                        @?[A-Za-z_][A-Za-z0-9_.]*
                                 symbol_table_ptr sym = look_up_symbol(p); 
                                 if (sym != NULL)
                                 {
+                                    skip_depth = 0;
                                     BEGIN(IF_DEF);
                                 }
                             }
 <IF_DEF>".IF"               { 
                                 P_TOK("IF")
                                 SV_TOK
-                                int last_if = 1; 
-                                ifdef_stack->push(ifdef_stack->instance, &last_if); 
+                                skip_depth++;
                             }
 <IF_DEF>".ELSE"             {
                                 P_TOK("ELSE")
                                 SV_TOK
-                                int last_if = * (int*) ifdef_stack->top(ifdef_stack->instance);
-                                if (last_if == 0)
+                                if (skip_depth == 0)
                                 {
                                     if (final_pass)
                                     {
@@ -207,9 +208,13 @@ SYMB                        @?[A-Za-z_][A-Za-z0-9_.]*
 <IF_DEF>".ENDIF"            {
                                 P_TOK("ENDIF")
                                 SV_TOK
-                                ifdef_stack->pop(ifdef_stack->instance); 
-                                if (ifdef_stack->instance->index < 0)
+                                if (skip_depth > 0)
+                                {
+                                    skip_depth--;
+                                }
+                                else
                                 {
+                                    ifdef_stack->pop(ifdef_stack->instance); 
                                     if (final_pass)
                                     {
                                         generate_list_node(NULL);
@@ -217,6 +222,10 @@ SYMB                        @?[A-Za-z_][A-Za-z0-9_.]*
                                     BEGIN(INITIAL); 
                                 }
                             }
+<IF_DEF>;[^\n]*             { /* ignore comments */ }
+<IF_DEF>[/][/][^\n]*        { /* ignore comments */ }
+<IF_DEF>"/*"([^*]|"*"+[^*/])*"*"+"/" { /* ignore comments */ }
+<IF_DEF>{STRVALUE}          { /* ignore strings */ }
 <IF_DEF>.|[\n]              { /* ignore ifdef false */ }
 ".ENDIF"                    {  
                                 P_TOK("ENDIF")
@@ -237,6 +246,8 @@ SYMB                        @?[A-Za-z_][A-Za-z0-9_.]*
 ".ELSE"                     {
                                 P_TOK("ELSE")
                                 SV_TOK
+                                if (ifdef_stack->instance->index < 0) return ELSE;
+
                                 int last_if = * (int*) ifdef_stack->top(ifdef_stack->instance);
                                 if (last_if != 0)
                                 {
@@ -244,6 +255,7 @@ SYMB                        @?[A-Za-z_][A-Za-z0-9_.]*
                                 }
                                 else
                                 {
+                                    skip_depth = 0;
                                     BEGIN(IF_DEF);
                                 }
                             }
@@ -444,6 +456,12 @@ $[0-9A-Fa-f]*               { SV_TOK INT(1, 16)}
                                 }
                                 if ( !YY_CURRENT_BUFFER )
                                 {
+                                    // a comment or conditional must not go on into the next file or pass
+                                    if (YY_START != INITIAL || ifdef_stack->instance->index >= 0)
+                                    {
+                                        yyerror("Unexpected end of file");
+                                        BEGIN(INITIAL);
+                                    }
                                     yyterminate();
                                 }
                             }      
-- 
2.43.0


From e7afd13049b30dfcb337037d0b971fe1dd3d4fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:28 +0000
Subject: [PATCH 06/80] fix: a register loop .to 255 includes 255

The loop compared with 255 after the increment and left before running the
body for 255.
---
 CMakePasm/source/expand.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 6a02370..930a536 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -636,7 +636,8 @@ int expand_operator_for_reg_node(const parse_node_ptr p)
     expand_node(loop_next);
 
     // check to see if we need a compare
-    if (end != 0)
+    // counting up to 255 ends when the register wraps to 0
+    if (end != 0 && !(increment_flag > 0 && end == 255))
     {
         parse_node_ptr cmp_node;
         if (increment_flag > 0 && end < 255)
-- 
2.43.0


From b1ba7b6c67c633eb13e6b611a1155a799888c307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:59 +0000
Subject: [PATCH 07/80] fix: .load of a missing file is an error, not a crash

---
 CMakePasm/source/expand.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 930a536..694db4b 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -420,6 +420,7 @@ int expand_operator_load_node(const parse_node_ptr p)
     if (fd == nullptr)
     {
         error(error_cant_open_include_file);
+        return 0;
     }
 
     fseek(fd, 0, SEEK_END);
-- 
2.43.0


From ea11bb132898875c90865fc602cfced5b3ce1a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:59 +0000
Subject: [PATCH 08/80] fix: .ds 0 and .fill n,0 reserve nothing

.ds 0 reserved one byte; .fill n,0 counted one byte in every pass but the
last, so labels behind it were off by one.
---
 CMakePasm/source/expand.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 694db4b..1095eb5 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -405,7 +405,7 @@ int expand_operator_fill_node(const parse_node_ptr p)
     }
     else
     {
-        program_counter += count > 0 ? count : 1;
+        program_counter += count;
     }
     return byt;
 }
@@ -1653,7 +1653,7 @@ int expand_operator_ds_node(const parse_node_ptr p)
 
 //    if (final_pass)
     {
-        program_counter += count > 0 ? count : 1;
+        program_counter += count;
     }
     
     return op;
-- 
2.43.0


From 0de46a79dd9611fc7f18654a052f5f791d334602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:42 +0000
Subject: [PATCH 09/80] fix: assemble programs without an origin at the default
 $1000

Instructions produced no output at all (exit status 0) and data produced an
error, because the default program counter was never made the origin.
---
 CMakePasm/source/genoutput.cc | 2 +-
 CMakePasm/source/pass.cc      | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/CMakePasm/source/genoutput.cc b/CMakePasm/source/genoutput.cc
index b921c1f..f4d94ae 100644
--- a/CMakePasm/source/genoutput.cc
+++ b/CMakePasm/source/genoutput.cc
@@ -261,7 +261,7 @@ int generate_output(FILE* file, const parse_node_ptr p)
     const int start_bytes = total_bytes_written;
 
     // if there is no output file exit
-    if (file == NULL || !origin_specified)
+    if (file == NULL)
         return 0;
 
     // header
diff --git a/CMakePasm/source/pass.cc b/CMakePasm/source/pass.cc
index 5889516..e5c6f14 100644
--- a/CMakePasm/source/pass.cc
+++ b/CMakePasm/source/pass.cc
@@ -21,6 +21,7 @@
 const int max_passes = 20;
 
 int program_origin_default = 0x1000;
+extern int origin;
 
 /**
  * \brief Reset the Lexer for each pass
@@ -35,6 +36,7 @@ void reset_lex(void)
 
     // reset the Program Counter
     program_counter = program_origin_default;
+    origin = program_origin_default;
 
     // reset End flag
     end_expansion = 0;
-- 
2.43.0


From 58b17141246c3689db71718af0d0912cb94a1162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:09 +0000
Subject: [PATCH 10/80] fix: detect reserved but unwritten gaps in every
 segment and with a c64 header

The gap check compared the program counter with the bytes written to the whole
file, header included, so .ds in a later segment (or up to two bytes behind a
c64 header) silently put all following code at the wrong place.
---
 CMakePasm/source/expand.cc    | 5 +++--
 CMakePasm/source/genoutput.cc | 3 +++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 1095eb5..5ee95cb 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -41,6 +41,7 @@ static int program_counter_assigned = 0;
 static int code_generated = 0;
 int max_macro_param = 0;
 extern int origin;
+extern int total_bytes_written;
 
 // for 6502 and 65C02
 int max_address = 0xFFFF;
@@ -1101,7 +1102,7 @@ int expand_operator_program_counter_assign_node(const parse_node_ptr p)
     origin_specified = true;
 
     program_counter = op;
-    origin = op;
+    origin = op - total_bytes_written;
     return 0;
 }
 
@@ -1121,7 +1122,7 @@ int expand_operator_org_node(const parse_node_ptr p)
     }
     const int op = expand_node(p->op[0]);
     program_counter = op;
-    origin = op;
+    origin = op - total_bytes_written;
     origin_specified = true;
     org_origin_specified = true;
     return 0;
diff --git a/CMakePasm/source/genoutput.cc b/CMakePasm/source/genoutput.cc
index f4d94ae..5361df1 100644
--- a/CMakePasm/source/genoutput.cc
+++ b/CMakePasm/source/genoutput.cc
@@ -103,6 +103,9 @@ int write_header(FILE* file)
             return -1;
         }
         byte_delta = 2;
+
+        // the header takes no address space
+        origin -= bytes_written;
     }
     return bytes_written;
 }
-- 
2.43.0


From 8b4615574e4bfd58983354900506c151a7e5f804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:36 +0000
Subject: [PATCH 11/80] fix: reject instruction operands that do not fit

Operands above $FFFF (or #immediates above it) were truncated silently.
---
 CMakePasm/source/genoutput.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/CMakePasm/source/genoutput.cc b/CMakePasm/source/genoutput.cc
index 5361df1..0654718 100644
--- a/CMakePasm/source/genoutput.cc
+++ b/CMakePasm/source/genoutput.cc
@@ -234,6 +234,16 @@ int write_opcode_node(FILE* file, const parse_node_ptr p)
             }
             op &= 0xFF;
         }
+        else
+        {
+            // same limits as for data bytes and words
+            const int max_value = bytes == 1 ? 0xFF : 0xFFFF;
+            if (op > max_value || -op > max_value - 1)
+            {
+                error(error_value_out_of_range);
+                return 0;
+            }
+        }
 
         data_size = bytes;
         bytes_written = write_data(output_file, op);
-- 
2.43.0


From df5bca15fb9019fde1c3caf241f4cd4ffb498c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:07 +0000
Subject: [PATCH 12/80] fix: a reference to a missing anonymous label is an
 error

The bounds check of the anonymous label tables could never fail and read outside of the
tables; an unresolved + or - assembled as address 0 with exit status 0.
---
 CMakePasm/source/expand.cc | 4 ++++
 CMakePasm/source/sym.cc    | 4 ++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 5ee95cb..718ebe4 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -497,6 +497,10 @@ int expand_plus_minus_node(const parse_node_ptr p)
         sym->is_initialized = true;
         sym->times_accessed++;
     }
+    else if (final_pass)
+    {
+        error(error_plus_sym_overflow);
+    }
     p->id.i = sym;
 
     return sym->value;
diff --git a/CMakePasm/source/sym.cc b/CMakePasm/source/sym.cc
index 2e16c48..e2debdb 100644
--- a/CMakePasm/source/sym.cc
+++ b/CMakePasm/source/sym.cc
@@ -345,7 +345,7 @@ int find_minus_symbol(const int depth, const char* file, const int line)
     if (found_index >= 0)
     {
         found_index = found_index + 1 - depth;
-        if (found_index >= 0 || found_index < minus_symbol_table_index)
+        if (found_index >= 0 && found_index < minus_symbol_table_index)
             return found_index;
     }
     return -1;
@@ -369,7 +369,7 @@ int find_plus_symbol(const int depth, const char* file, const int line)
     if (found_index >= 0)
     {
         found_index = found_index -1 + depth;
-        if (found_index >= 0 || found_index < plus_symbol_table_index)
+        if (found_index >= 0 && found_index < plus_symbol_table_index)
             return found_index;
     }
     return -1;
-- 
2.43.0


From 1d233130d338f3b1bf3b65d5c2f72b18596c3018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:32 +0000
Subject: [PATCH 13/80] fix: reject origins and code outside of the 64K address
 space

---
 CMakePasm/source/expand.cc    |  4 ++++
 CMakePasm/source/genoutput.cc | 10 ++++++++++
 2 files changed, 14 insertions(+)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 718ebe4..acaa553 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1103,6 +1103,8 @@ int expand_operator_program_counter_assign_node(const parse_node_ptr p)
 {
     program_counter_assigned++;
     const int op = expand_node(p->op[0]);
+    if (final_pass && (op < 0 || op > max_address))
+        error(error_value_out_of_range);
     origin_specified = true;
 
     program_counter = op;
@@ -1125,6 +1127,8 @@ int expand_operator_org_node(const parse_node_ptr p)
         return 0;
     }
     const int op = expand_node(p->op[0]);
+    if (final_pass && (op < 0 || op > max_address))
+        error(error_value_out_of_range);
     program_counter = op;
     origin = op - total_bytes_written;
     origin_specified = true;
diff --git a/CMakePasm/source/genoutput.cc b/CMakePasm/source/genoutput.cc
index 0654718..f9ef357 100644
--- a/CMakePasm/source/genoutput.cc
+++ b/CMakePasm/source/genoutput.cc
@@ -20,6 +20,8 @@ int total_bytes_written = 0;
 static int byte_delta = 0;
 int origin = 0;
 
+extern int max_address;
+
 int write_byte(FILE* file, unsigned char ch);
 int write_word(FILE* file, int word);
 int write_string(FILE* file, const char* str);
@@ -297,6 +299,8 @@ int generate_output(FILE* file, const parse_node_ptr p)
     if (p == NULL)
         return total_bytes_written - start_bytes;
 
+    const int node_start_bytes = total_bytes_written;
+
     switch (p->type)  // NOLINT(clang-diagnostic-switch-enum)
     {
     case type_str:
@@ -316,6 +320,12 @@ int generate_output(FILE* file, const parse_node_ptr p)
     {
         return 0;
     }
+
+    // the node must not run over the end of the address space
+    if (program_counter + total_bytes_written - node_start_bytes > max_address + 1)
+    {
+        error(error_value_out_of_range);
+    }
     return total_bytes_written - start_bytes;
 }
 
-- 
2.43.0


From 6fa39f1113936c458bdedccf902f709ad6bb4077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:37 +0000
Subject: [PATCH 14/80] fix: .fill as the first output with a c64 header

The two header bytes were counted as filled bytes, so the fill was short.
---
 CMakePasm/source/genoutput.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CMakePasm/source/genoutput.cc b/CMakePasm/source/genoutput.cc
index f9ef357..eb20d6c 100644
--- a/CMakePasm/source/genoutput.cc
+++ b/CMakePasm/source/genoutput.cc
@@ -326,7 +326,7 @@ int generate_output(FILE* file, const parse_node_ptr p)
     {
         error(error_value_out_of_range);
     }
-    return total_bytes_written - start_bytes;
+    return total_bytes_written - node_start_bytes;
 }
 
 /// <summary>
-- 
2.43.0


From 5ac45606b3d975ea5ec23d2126b21ec513285eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:53 +0000
Subject: [PATCH 15/80] fix: forward references out of a section, and equal
 values in and out of it

A reference inside a section to a global symbol that is defined later left an
undefined section symbol behind that was never resolved. A section symbol with
the value of a global one of the same name was not created at all.
---
 CMakePasm/source/expand.cc |  2 +-
 CMakePasm/source/sym.cc    | 14 +++++++++++++-
 CMakePasm/source/sym.h     |  1 +
 3 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index acaa553..35f401d 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1750,7 +1750,7 @@ int expand_operator_equ_node(const parse_node_ptr p)
         exit(-1);
     }
 
-    if (!sym->is_initialized || sym->value != op)
+    if (!sym->is_initialized || sym->value != op || (!sym->scope && current_scope && !sym->is_var))
     {
         if (!sym->scope && current_scope)
         {
diff --git a/CMakePasm/source/sym.cc b/CMakePasm/source/sym.cc
index e2debdb..fd85bce 100644
--- a/CMakePasm/source/sym.cc
+++ b/CMakePasm/source/sym.cc
@@ -260,6 +260,17 @@ symbol_table_ptr look_up_symbol(const char* name)
         // ReSharper disable once CppLocalVariableMayBeConst
         auto tmp_ptr = static_cast<symbol_table_ptr>(dict_search(symbol_dictionary, temp_name));
         FREE(temp_name);
+
+        // a forward reference to a global symbol left an undefined symbol in the section
+        if (tmp_ptr && !tmp_ptr->is_initialized)
+        {
+            auto global_ptr = static_cast<symbol_table_ptr>(dict_search(symbol_dictionary, name));
+            if (global_ptr && global_ptr->is_initialized)
+            {
+                tmp_ptr->is_global_reference = true;
+                tmp_ptr = global_ptr;
+            }
+        }
         if (tmp_ptr)
         {
             tmp_ptr->times_accessed++;
@@ -799,7 +810,8 @@ int unresolved_symbol_count(void)
             const auto sym = static_cast<symbol_table_ptr>(elem->value);
 
             if (sym->is_initialized == false && sym->is_macro_name == false &&
-                sym->is_var == false && sym->is_plus_minus == false && sym->is_macro_param == false)
+                sym->is_var == false && sym->is_plus_minus == false && sym->is_macro_param == false &&
+                sym->is_global_reference == false)
             {
                 count++;
             }
diff --git a/CMakePasm/source/sym.h b/CMakePasm/source/sym.h
index 8636fb8..aabb5a4 100644
--- a/CMakePasm/source/sym.h
+++ b/CMakePasm/source/sym.h
@@ -23,6 +23,7 @@ typedef struct symbol_table
     bool is_local;
     bool is_plus_minus;
     bool is_var;
+    bool is_global_reference;
     char* scope;
     char* name;
     char* fullname;
-- 
2.43.0


From 5d52564350aa932ec1bcc1012ab79b54cbdacc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:39 +0000
Subject: [PATCH 16/80] fix: undefined symbols in data directives are errors,
 not zeros

.word undefined assembled as 0 with exit status 0, because the operand was
looked at for the first time in the final pass.
---
 CMakePasm/source/expand.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 35f401d..ec7c031 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -530,6 +530,10 @@ int expand_id_node(const parse_node_ptr p)
             return 0;
         }
     }
+    if (final_pass && !sym->is_initialized && !sym->is_macro_name && !sym->is_macro_param && !sym->is_var)
+    {
+        yyerror("Undefined symbol.");
+    }
     return sym->is_initialized ? sym->value : 0;
 }
 
@@ -1231,6 +1235,9 @@ int expand_operator_expression_list_node(const parse_node_ptr p)
             break;
 
         case data_bytes:
+            // make sure a symbol is known (and found missing) before the final pass
+            if (pp->type == type_id)
+                expand_node(pp);
             if (!has_uninitialized_symbol(pp))
             {
                 if (final_pass)
-- 
2.43.0


From 739a4db0ff70db4b3b375b1bb6ed040919c3f700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:28 +0000
Subject: [PATCH 17/80] fix: local labels on the line of their label, and in a
 macro defined after a label

---
 CMakePasm/source/expand.cc |  4 ++++
 CMakePasm/source/node.cc   | 26 +++++++++++++++++++++++---
 2 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index ec7c031..8bd2334 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -869,6 +869,10 @@ int expand_op_code_node(const parse_node_ptr p)
         break;
     }
 
+    // resolve the symbols, local names are looked up in the current scope
+    for (int index = 0; op_bytes > 0 && index < p->number_of_ops; index++)
+        expand_node(p->op[index]);
+
     if (op_bytes > 0 && !has_uninitialized_symbol(p))
     {
         int out_of_range = 0;
diff --git a/CMakePasm/source/node.cc b/CMakePasm/source/node.cc
index 8e68a3a..788cb15 100644
--- a/CMakePasm/source/node.cc
+++ b/CMakePasm/source/node.cc
@@ -195,7 +195,7 @@ parse_node_ptr label_node(char* name)
 {
     if (name[0] != '@' && name[0] != '-' && name[0] != '+')
         last_label = name;
-    else if (last_label != nullptr && name[0] == '@')
+    else if (last_label != nullptr && name[0] == '@' && in_macro_definition == 0)
     {
         return id_node_common(format_local_sym(name, last_label), type_label);
     }
@@ -310,6 +310,24 @@ parse_node_ptr operator_node(const int opr, const int number_of_ops, ...)
     return p;
 }
 
+/// <summary>
+/// Determines if an expression uses a local (@) symbol
+/// </summary>
+/// <param name="p">The expression.</param>
+static bool has_local_symbol(const parse_node_ptr p)
+{
+    if (p == nullptr)
+        return false;
+    if (p->type == type_id && p->id.name[0] == '@')
+        return true;
+    for (int index = 0; index < p->number_of_ops; index++)
+    {
+        if (has_local_symbol(p->op[index]))
+            return true;
+    }
+    return false;
+}
+
 /// <summary>
 /// Opcodes
 /// </summary>
@@ -351,7 +369,9 @@ parse_node_ptr opcode_node(const int op, int mode, const int number_of_ops, ...)
         for (index = 0; index < number_of_ops; index++)
         {
             p->op[index] = va_arg(ap, parse_node_ptr);
-            val = expand_node(p->op[index]);
+            // a local name belongs to the label or macro call that is not known yet
+            if (!has_local_symbol(p->op[index]))
+                val = expand_node(p->op[index]);
         }
         va_end(ap);
     }
@@ -425,7 +445,7 @@ parse_node_ptr opcode_node(const int op, int mode, const int number_of_ops, ...)
 
     for (index = 0; index < number_of_ops; index++)
     {
-        if (p->op[index])
+        if (p->op[index] && !has_local_symbol(p->op[index]))
             expand_node(p->op[index]);
     }
 
-- 
2.43.0


From dddf30002123b9a7d8825d648cccd1f16e939847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:41 +0000
Subject: [PATCH 18/80] fix: 65C02 (zp) instructions are two bytes long, their
 operand must fit

---
 CMakePasm/source/expand.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 8bd2334..9c84fb2 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1019,10 +1019,15 @@ int expand_op_code_node(const parse_node_ptr p)
             }
         }
 
+        // only jmp has an absolute indirect mode, the others are zero page indirect
+        const bool zero_page_indirect = p->opcode.mode == ind && p->opcode.instruction != _jmp;
+        if (large_op && zero_page_indirect && final_pass)
+            error(error_value_out_of_range);
+
         // page zero optimization
         if (!large_op && p->opcode.mode != mode_check)
         {
-            code2 = get_op_code(p->opcode.instruction, mode_check);
+            code2 = zero_page_indirect ? p->opcode.opcode : get_op_code(p->opcode.instruction, mode_check);
             if (code2 != -1)
             {
                 p->opcode.mode = mode_check;
-- 
2.43.0


From 2e0c1d4390b49c6324303291b2d62f874f1057d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:41 +0000
Subject: [PATCH 19/80] fix: arguments of a macro call are evaluated before the
 parameters change

---
 CMakePasm/source/expand.cc | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 9c84fb2..c3769f7 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -17,6 +17,9 @@
 #include <stdlib.h>
 #include <string.h>
 
+#include <utility>
+#include <vector>
+
 #include "expand.h"
 #include "dictionary.h"
 #include "node.h"
@@ -184,6 +187,11 @@ int end_expansion = 0;
 //
 int macro_parameter_index = 0;
 
+//
+// The parameters of the macro call that is expanded and their values
+//
+static std::vector<std::pair<symbol_table_ptr, int>> macro_parameter_values;
+
 //
 // flag to unroll loops
 // always true for now
@@ -1233,8 +1241,8 @@ int expand_operator_expression_list_node(const parse_node_ptr p)
             symbol_ptr = add_symbol(sym_name);
             if (symbol_ptr != nullptr)
             {
-                set_symbol_value(symbol_ptr, expand_node(pp));
-                symbol_ptr->is_initialized = true;
+                // set when all of them are known, an argument can be a parameter of the calling macro
+                macro_parameter_values.emplace_back(symbol_ptr, expand_node(pp));
             }
             else
             {
@@ -1436,10 +1444,17 @@ int expand_macro_expansion_node(const parse_node_ptr p)
 
     expansion_type = macro_parameter;
     macro_parameter_index = 0;
+    macro_parameter_values.clear();
 
     if (p->macro.macro_params != nullptr)
         expand_node(static_cast<parse_node_ptr>(p->macro.macro_params));
 
+    for (const auto& param : macro_parameter_values)
+    {
+        set_symbol_value(param.first, param.second);
+        param.first->is_initialized = true;
+    }
+
     char* temp = last_label;
     sprintf(internal_buffer, "%s::%.4X", p->macro.name, macro_dict_entry->times_executed);
     last_label = (char*) STRDUP(internal_buffer);
-- 
2.43.0


From 09b4f7c9c8a12d671ed1b24d3087793a52dbedc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:06 +0000
Subject: [PATCH 20/80] fix: an anonymous label can stand on the first line of
 a file

---
 CMakePasm/source/pasm.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CMakePasm/source/pasm.l b/CMakePasm/source/pasm.l
index 62896df..fc495f9 100644
--- a/CMakePasm/source/pasm.l
+++ b/CMakePasm/source/pasm.l
@@ -349,7 +349,7 @@ SYMB                        @?[A-Za-z_][A-Za-z0-9_.]*
                                 return SYMBOL;
                             }
 [\+|\-]+                    {
-                                if (last_token != nullptr && *last_token == '\n')
+                                if (last_token == nullptr || *last_token == '\n')
                                 {
                                     SV_TOK
                                     P_TOK("LABEL")
-- 
2.43.0


From 300ef44530797b632aa822e358d897967e26aa49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:31 +0000
Subject: [PATCH 21/80] fix: a branch takes a target only, it is not indexed or
 without an operand

---
 CMakePasm/source/node.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CMakePasm/source/node.cc b/CMakePasm/source/node.cc
index 788cb15..9948a0b 100644
--- a/CMakePasm/source/node.cc
+++ b/CMakePasm/source/node.cc
@@ -353,7 +353,7 @@ parse_node_ptr opcode_node(const int op, int mode, const int number_of_ops, ...)
 
     // a branch will look like absolute addressing so we check to
     // see if it really relative
-    if (get_op_code(op, r) != -1)
+    if (mode == a && get_op_code(op, r) != -1)
     {
         mode = r;
     }
-- 
2.43.0


From dedf35b11812c238dcfd6fefa6961a7b40ed1ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:34 +0000
Subject: [PATCH 22/80] fix: every pass starts with the processor settings of
 the command line

---
 CMakePasm/source/pass.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/CMakePasm/source/pass.cc b/CMakePasm/source/pass.cc
index e5c6f14..a33092b 100644
--- a/CMakePasm/source/pass.cc
+++ b/CMakePasm/source/pass.cc
@@ -14,6 +14,7 @@
 #include "genlist.h"
 #include "genoutput.h"
 #include "memory.h"
+#include "opcodes.h"
 #include "pasm.h"
 #include "pasm.tab.h"
 #include "stacks.h"
@@ -189,9 +190,16 @@ int assemble(void)
         }
     }
 
+    // every pass starts with the processor of the command line
+    const cpu initial_cpu_mode = cpu_mode;
+    const int initial_allow_illegal = allow_illegal_op_codes;
+
     int clean_pass_count = 0;
     do
     {
+        cpu_mode = initial_cpu_mode;
+        allow_illegal_op_codes = initial_allow_illegal;
+
         if (verbose)
         {
             fprintf(console, "Pass %d\n", pass);
@@ -239,6 +247,8 @@ int assemble(void)
 
     // set final pass flag
     final_pass = true;
+    cpu_mode = initial_cpu_mode;
+    allow_illegal_op_codes = initial_allow_illegal;
 
     if (output_file_name != nullptr)
     {
-- 
2.43.0


From 20dedfea177ff54b5e46b1ec2b9cd39b24bb9638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:47 +0000
Subject: [PATCH 23/80] fix: a symbol may be out of range until its forward
 references are resolved

---
 CMakePasm/source/expand.cc    | 5 +++++
 CMakePasm/source/parseargs.cc | 2 +-
 CMakePasm/source/sym.cc       | 5 +++--
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index c3769f7..905ae8b 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1451,6 +1451,8 @@ int expand_macro_expansion_node(const parse_node_ptr p)
 
     for (const auto& param : macro_parameter_values)
     {
+        if (final_pass && (param.second & ~0xFFFF) != 0)
+            error(error_value_out_of_range);
         set_symbol_value(param.first, param.second);
         param.first->is_initialized = true;
     }
@@ -1781,6 +1783,9 @@ int expand_operator_equ_node(const parse_node_ptr p)
         exit(-1);
     }
 
+    if (final_pass && (op & ~0xFFFF) != 0 && !sym->is_var)
+        error(error_value_out_of_range);
+
     if (!sym->is_initialized || sym->value != op || (!sym->scope && current_scope && !sym->is_var))
     {
         if (!sym->scope && current_scope)
diff --git a/CMakePasm/source/parseargs.cc b/CMakePasm/source/parseargs.cc
index e52fe80..1156115 100644
--- a/CMakePasm/source/parseargs.cc
+++ b/CMakePasm/source/parseargs.cc
@@ -335,7 +335,7 @@ int parse_arguments(const int argc, char* argv[])
             symbol_table_ptr sym = add_symbol(sym_name);
             if (sym != NULL)
             {
-                if (set_symbol_value(sym, sym_val) == NULL)
+                if ((sym_val & ~0xFFFF) != 0 || set_symbol_value(sym, sym_val) == NULL)
                 {
                     usage();
                     exit(-1);
diff --git a/CMakePasm/source/sym.cc b/CMakePasm/source/sym.cc
index fd85bce..56c1fd9 100644
--- a/CMakePasm/source/sym.cc
+++ b/CMakePasm/source/sym.cc
@@ -289,7 +289,8 @@ symbol_table_ptr set_symbol_value(const symbol_table_ptr sym, const int value)
 {
     if ((sym != NULL) && (sym->value != value))
     {
-        if (((value & ~0xFFFF) != 0) && !sym->is_var)
+        // before the final pass the value may depend on unresolved forward references
+        if (final_pass && ((value & ~0xFFFF) != 0) && !sym->is_var)
         {
             error(error_value_out_of_range);
             return NULL;
@@ -510,7 +511,7 @@ void pop_macro_params(void)
         const symbol_table_ptr tmp_ptr = look_up_macro_param(index);
         if (tmp_ptr != NULL)
         {
-            set_symbol_value(tmp_ptr, macro_stack_param_entry_ptr->values[index]);
+            tmp_ptr->value = macro_stack_param_entry_ptr->values[index];
         }
         else
         {
-- 
2.43.0


From 09322630b21489832a83004b1e6bc3c8c7ffe9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:22 +0000
Subject: [PATCH 24/80] fix: a forward anonymous label needs another pass to be
 resolved

---
 CMakePasm/source/expand.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 905ae8b..00d8178 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1759,7 +1759,12 @@ int expand_operator_equ_node(const parse_node_ptr p)
     if (stricmp(p->op[0]->id.name, "+") == 0)
     {
         int index = find_plus_symbol_definition(current_file_name, yylineno);
-        if (index < 0) add_plus_symbol(current_file_name, yylineno, op);
+        if (index < 0)
+        {
+            // references before the label are not resolved yet
+            add_plus_symbol(current_file_name, yylineno, op);
+            sym_value_changed++;
+        }
 
         index = find_plus_symbol(strlen(p->op[0]->id.name), current_file_name, yylineno - 1);
 
-- 
2.43.0


From ecf726ddb941d64622033b3b43d68731462bffe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:22 +0000
Subject: [PATCH 25/80] fix: the target of a far branch is relative to the
 branch itself

---
 CMakePasm/source/expand.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 00d8178..a883011 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1010,6 +1010,8 @@ int expand_op_code_node(const parse_node_ptr p)
                         }
                         if (final_pass)
                         {
+                            // the target is relative to the branch, not to the jmp
+                            jmp->op[0] = constant_node(op_value, 0);
                             jmp->opcode.program_counter = program_counter;
                             generate_list_node(jmp);
                             generate_output(output_file, jmp);
-- 
2.43.0


From c13c130dc4491f7feae6093c2c8689e6a29ad1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:56 +0000
Subject: [PATCH 26/80] fix: zero bytes in strings are data, they do not end
 the string

---
 CMakePasm/source/genoutput.cc | 7 +++----
 CMakePasm/source/node.cc      | 3 +--
 CMakePasm/source/str.cc       | 6 +++++-
 CMakePasm/source/str.h        | 2 +-
 4 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/CMakePasm/source/genoutput.cc b/CMakePasm/source/genoutput.cc
index eb20d6c..c7e4551 100644
--- a/CMakePasm/source/genoutput.cc
+++ b/CMakePasm/source/genoutput.cc
@@ -24,7 +24,7 @@ extern int max_address;
 
 int write_byte(FILE* file, unsigned char ch);
 int write_word(FILE* file, int word);
-int write_string(FILE* file, const char* str);
+int write_string(FILE* file, const char* str, size_t len);
 
 /**
  * \brief reset output variables
@@ -73,9 +73,8 @@ int write_word(FILE* file, const int word)
     return bytes_written;
 }
 
-int write_string(FILE* file, const char* str)
+int write_string(FILE* file, const char* str, const size_t len)
 {
-    const size_t len = strlen(str);
     // ReSharper disable once CppRedundantCastExpression
     const int bytes_written = static_cast<int>(fwrite(str, 1, len, file));
     if (bytes_written < static_cast<int>(len))
@@ -128,7 +127,7 @@ int write_program_counter_pad(FILE* file, const int delta)
 
 int write_string_node(FILE* file, const parse_node_ptr p)
 {
-    int bytes_written = write_string(output_file, p->str.value);
+    int bytes_written = write_string(output_file, p->str.value, p->str.len);
     total_bytes_written += (int)bytes_written;
     if (bytes_written < p->str.len)
     {
diff --git a/CMakePasm/source/node.cc b/CMakePasm/source/node.cc
index 9948a0b..f4e8210 100644
--- a/CMakePasm/source/node.cc
+++ b/CMakePasm/source/node.cc
@@ -142,13 +142,12 @@ parse_node_ptr string_node(const char* value)
     if (p->str.value)
         FREE(p->str.value);
 
-    p->str.value = sanitize_string(str);
+    p->str.value = sanitize_string(str, &p->str.len);
     if (p->str.value == nullptr)
     {
         error(error_out_of_memory);
         exit(-1);  // NOLINT(concurrency-mt-unsafe)
     }
-    p->str.len = static_cast<int>(strlen(p->str.value));
 
     return p;
 }
diff --git a/CMakePasm/source/str.cc b/CMakePasm/source/str.cc
index 5688386..1d4c833 100644
--- a/CMakePasm/source/str.cc
+++ b/CMakePasm/source/str.cc
@@ -13,9 +13,10 @@
 /**
  * \brief Normalize a string that may contain escape chars
  * \param str string to normalize
+ * \param length length of the new string, that may contain zero bytes
  * \return a newly allocated string
  */
-char* sanitize_string(char* str)
+char* sanitize_string(char* str, int* length)
 {
     const int len = static_cast<int>(strlen(str)) + 1;
 
@@ -107,5 +108,8 @@ char* sanitize_string(char* str)
         }
     }
 
+    if (length != NULL)
+        *length = static_cast<int>(tmp_str - out_str);
+
     return out_str;
 }
diff --git a/CMakePasm/source/str.h b/CMakePasm/source/str.h
index 0fcec2b..9a0a58b 100644
--- a/CMakePasm/source/str.h
+++ b/CMakePasm/source/str.h
@@ -1,3 +1,3 @@
 #pragma once
 
-extern char* sanitize_string(char* str);
+extern char* sanitize_string(char* str, int* length = 0);
-- 
2.43.0


From b6c477e4afa4195882279221bb7b7f7b9c1061e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:37 +0000
Subject: [PATCH 27/80] fix: a macro can be called with parameters first inside
 of a section

---
 CMakePasm/source/sym.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CMakePasm/source/sym.cc b/CMakePasm/source/sym.cc
index 56c1fd9..0b5423a 100644
--- a/CMakePasm/source/sym.cc
+++ b/CMakePasm/source/sym.cc
@@ -145,7 +145,8 @@ symbol_table_ptr add_symbol(char* name)
         }
     }
 
-    if (strstr(name, "."))
+    // macro parameters do not belong to a section
+    if (strstr(name, ".") || name[0] == '\\')
         current_scope = NULL;
 
     if (name[0] == '.')
-- 
2.43.0


From 3f940bced7b6b2ab002210e0a1606f0cdab92a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:05 +0000
Subject: [PATCH 28/80] fix: operands of instructions that are not assembled
 are not evaluated

---
 CMakePasm/source/node.cc | 35 ++---------------------------------
 1 file changed, 2 insertions(+), 33 deletions(-)

diff --git a/CMakePasm/source/node.cc b/CMakePasm/source/node.cc
index f4e8210..a161b78 100644
--- a/CMakePasm/source/node.cc
+++ b/CMakePasm/source/node.cc
@@ -309,24 +309,6 @@ parse_node_ptr operator_node(const int opr, const int number_of_ops, ...)
     return p;
 }
 
-/// <summary>
-/// Determines if an expression uses a local (@) symbol
-/// </summary>
-/// <param name="p">The expression.</param>
-static bool has_local_symbol(const parse_node_ptr p)
-{
-    if (p == nullptr)
-        return false;
-    if (p->type == type_id && p->id.name[0] == '@')
-        return true;
-    for (int index = 0; index < p->number_of_ops; index++)
-    {
-        if (has_local_symbol(p->op[index]))
-            return true;
-    }
-    return false;
-}
-
 /// <summary>
 /// Opcodes
 /// </summary>
@@ -361,21 +343,14 @@ parse_node_ptr opcode_node(const int op, int mode, const int number_of_ops, ...)
     p->opcode.mode = mode;
     p->opcode.instruction = op;
 
-    int val = 0;
+    // the operands are evaluated when the node is expanded, it may never be
     if (number_of_ops > 0)
     {
         va_start(ap, number_of_ops);
         for (index = 0; index < number_of_ops; index++)
-        {
             p->op[index] = va_arg(ap, parse_node_ptr);
-            // a local name belongs to the label or macro call that is not known yet
-            if (!has_local_symbol(p->op[index]))
-                val = expand_node(p->op[index]);
-        }
         va_end(ap);
     }
-    const bool has_uninitialized = has_uninitialized_symbol(p);
-
 
     /* Take care of ASL A   etc */
     if (p->opcode.mode == a && number_of_ops > 0)
@@ -392,7 +367,7 @@ parse_node_ptr opcode_node(const int op, int mode, const int number_of_ops, ...)
 
     int code = get_op_code(op, mode);
     int new_mode = mode;
-    if (((val & ~0xFF) == 0 && has_uninitialized == false) || code == -1)
+    if (code == -1)
     {
         switch (mode)
         {
@@ -442,12 +417,6 @@ parse_node_ptr opcode_node(const int op, int mode, const int number_of_ops, ...)
         }
     }
 
-    for (index = 0; index < number_of_ops; index++)
-    {
-        if (p->op[index] && !has_local_symbol(p->op[index]))
-            expand_node(p->op[index]);
-    }
-
     p->opcode.opcode = code;
     if (code < 0)
     {
-- 
2.43.0


From 3def269239f598d7d6a33ebd4c7510195431b702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:21 +0000
Subject: [PATCH 29/80] fix: a variable can be initialized with a symbol

---
 CMakePasm/source/expand.cc | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index a883011..53f1498 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1184,6 +1184,13 @@ int expand_operator_expression_list_node(const parse_node_ptr p)
         switch (expansion_type)  // NOLINT(hicpp-multiway-paths-covered)
         {
         case symbol:
+            // the initial value may be a symbol too
+            if (symbol_ptr != nullptr)
+            {
+                set_symbol_value(symbol_ptr, expand_node(pp));
+                symbol_ptr = nullptr;
+                break;
+            }
             switch (pp->type)  // NOLINT(clang-diagnostic-switch-enum)
             {
             case type_id:
@@ -1205,17 +1212,8 @@ int expand_operator_expression_list_node(const parse_node_ptr p)
                 break;
 
             default:
-                if (symbol_ptr != nullptr)
-                {
-                    set_symbol_value(symbol_ptr, expand_node(pp));
-                    symbol_ptr = nullptr;
-                }
-                else
-                {
-                    error(error_initializing_variable);
-                    return 0;
-                }
-                break;
+                error(error_initializing_variable);
+                return 0;
             }
             break;
 
-- 
2.43.0


From b67d5415d49d18ce84bfc6d3bdc0a6f48c686207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:45 +0000
Subject: [PATCH 30/80] fix: a variable defined in a section does not change a
 global symbol of the same name

---
 CMakePasm/source/expand.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 53f1498..419fd34 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1205,6 +1205,19 @@ int expand_operator_expression_list_node(const parse_node_ptr p)
                         error(error_adding_symbol);
                         break;
                     }
+                    // a variable of a section hides a global symbol of that name
+                    if (current_scope && !symbol_ptr->scope && symbol_ptr->name[0] != '@')
+                    {
+                        char* temp = static_cast<char*>(MALLOC(strlen(symbol_ptr->name) + strlen(current_scope) + 2));
+                        if (temp == nullptr)
+                        {
+                            error(error_out_of_memory);
+                            exit(-1);
+                        }
+                        sprintf(temp, "%s.%s", current_scope, symbol_ptr->name);
+                        symbol_ptr = pp->id.i = add_symbol(temp);
+                        FREE(temp);
+                    }
                     symbol_ptr->is_var = true;
                 }
                 symbol_ptr->value = pp->type == type_label ? program_counter : 0;
-- 
2.43.0


From d03f7892fe2af9a994c2e576735115ae73aa2a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:46 +0000
Subject: [PATCH 31/80] fix: the use of an anonymous label does not start a new
 scope of local labels

---
 CMakePasm/source/sym.cc | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/CMakePasm/source/sym.cc b/CMakePasm/source/sym.cc
index 0b5423a..55af1a0 100644
--- a/CMakePasm/source/sym.cc
+++ b/CMakePasm/source/sym.cc
@@ -75,11 +75,6 @@ int compare_plus_minus_sym_value(const plus_minus_sym* a, const char* file, cons
 
 symbol_table_ptr add_plus_minus_sym(char* name)
 {
-    const auto blank = "";
-
-    if (last_label == nullptr)
-        last_label = const_cast<char*>(&blank[0]);
-
     symbol_table sym = { 0 };  // NOLINT(clang-diagnostic-missing-field-initializers)
     char* temp_section = current_scope;
 
@@ -599,7 +594,7 @@ char* format_local_plus_minus_sym(char* name, char* label)
 
     sprintf(number_buffer, "%d", yylineno);
 
-    const int new_len = strlen(last_label) + 1 + strlen(name) + 1 + strlen(number_buffer) + 1 + 2 + 2;  // NOLINT(bugprone-narrowing-conversions, cppcoreguidelines-narrowing-conversions)
+    const int new_len = strlen(label) + 1 + strlen(name) + 1 + strlen(number_buffer) + 1 + 2 + 2;  // NOLINT(bugprone-narrowing-conversions, cppcoreguidelines-narrowing-conversions)
 
     char* new_name = static_cast<char*>(MALLOC(new_len));
     if (new_name)
-- 
2.43.0


From 38845baa40523dadfaddfd818ed4798af5a7075f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:49 +0000
Subject: [PATCH 32/80] fix: anonymous labels do not reach into another file

---
 CMakePasm/source/sym.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/CMakePasm/source/sym.cc b/CMakePasm/source/sym.cc
index 55af1a0..20baa30 100644
--- a/CMakePasm/source/sym.cc
+++ b/CMakePasm/source/sym.cc
@@ -352,8 +352,9 @@ int find_minus_symbol(const int depth, const char* file, const int line)
     }
     if (found_index >= 0)
     {
+        // not beyond the labels of this file
         found_index = found_index + 1 - depth;
-        if (found_index >= 0 && found_index < minus_symbol_table_index)
+        if (found_index >= 0 && stricmp(file, minus_symbol_table[found_index].file) == 0)
             return found_index;
     }
     return -1;
@@ -376,8 +377,9 @@ int find_plus_symbol(const int depth, const char* file, const int line)
     }
     if (found_index >= 0)
     {
+        // not beyond the labels of this file
         found_index = found_index -1 + depth;
-        if (found_index >= 0 && found_index < plus_symbol_table_index)
+        if (found_index < plus_symbol_table_index && stricmp(file, plus_symbol_table[found_index].file) == 0)
             return found_index;
     }
     return -1;
-- 
2.43.0


From 688204c770dd36dc27e46d7dd5254a55bff6ea84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:29 +0000
Subject: [PATCH 33/80] fix: an undefined local label before the first label is
 an error

---
 CMakePasm/source/sym.cc | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/CMakePasm/source/sym.cc b/CMakePasm/source/sym.cc
index 20baa30..94ad542 100644
--- a/CMakePasm/source/sym.cc
+++ b/CMakePasm/source/sym.cc
@@ -203,13 +203,6 @@ symbol_table_ptr add_symbol(char* name)
         }
     }
 
-    if (sym.name[0] == '@')
-    {
-        sym.is_local = true;
-        sym.is_initialized = true;
-        sym.value = 0;
-    }
-
     current_scope = temp_section;
     tmp_ptr = static_cast<symbol_table_ptr>(dict_insert(&symbol_dictionary, sym.fullname, &sym));
     sanitize_symbol(tmp_ptr);
-- 
2.43.0


From 225731675d90c11ffafa814b06db05ef6f49dced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:16 +0000
Subject: [PATCH 34/80] fix: the listing of a string padded to words or ending
 in control characters

---
 CMakePasm/source/node.cc | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/CMakePasm/source/node.cc b/CMakePasm/source/node.cc
index a161b78..476cea0 100644
--- a/CMakePasm/source/node.cc
+++ b/CMakePasm/source/node.cc
@@ -1610,8 +1610,18 @@ int generate_list_node(const parse_node_ptr p)
         // if using a string with WORD then pad to a word boundary
         if (data_size == 2 && p->str.len % 2)
         {
+            // the row of the pad byte may hold nothing else
+            if (col == 0)
+            {
+                string_start = str;
+                current_ptr = current_buffer;
+                op = (program_counter + bytes) & 0xFFFF;
+                sprintf(current_ptr, "$%02X%02X:", ((op) >> 8), op & 0xFF);
+                current_ptr += strlen(current_ptr);
+            }
+
             col++;
-            sprintf(current_ptr, " $%02X", *str & 0xFF);
+            sprintf(current_ptr, " $%02X", 0);
             current_ptr += strlen(current_ptr);
             pad = 1;
         }
@@ -1635,12 +1645,16 @@ int generate_list_node(const parse_node_ptr p)
                 }
                 if (len == col - 1 && pad)
                 {
-                    sprintf(current_ptr, "$%02X", string_start[len]);
+                    sprintf(current_ptr, "$%02X", 0);
                 }
-                else
+                else if (isprint(string_start[len] & 0xFF))
                 {
                     sprintf(current_ptr, "'%c'", string_start[len]);
                 }
+                else
+                {
+                    sprintf(current_ptr, "$%02X", string_start[len] & 0xFF);
+                }
                 current_ptr += strlen(current_ptr);
             }
 
-- 
2.43.0


From db4711172d40f0e160ec7bd168fa4615dde6ea4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:16 +0000
Subject: [PATCH 35/80] fix: words in .str are listed

---
 CMakePasm/source/node.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/CMakePasm/source/node.cc b/CMakePasm/source/node.cc
index 476cea0..31b8c29 100644
--- a/CMakePasm/source/node.cc
+++ b/CMakePasm/source/node.cc
@@ -1683,11 +1683,11 @@ int generate_list_node(const parse_node_ptr p)
             hi = 0;
         }
         // check for overflow
-        if (hi != 0 && data_size < 2)
+        if (hi != 0 && data_size == 1)
         {
-            FREE(current_buffer);
             // This error is reported in generate_output
             fprintf(console, "%s\n", current_buffer);
+            FREE(current_buffer);
             return 0;
         }
 
@@ -1706,7 +1706,8 @@ int generate_list_node(const parse_node_ptr p)
         current_ptr += strlen(current_ptr);
 
         // output hi byte
-        if (data_size > 1)
+        const bool two_bytes = data_size > 1 || (data_size == 0 && (op & ~0xFF) != 0);
+        if (two_bytes)
         {
             sprintf(current_ptr, " $%02X", hi);
             current_ptr += strlen(current_ptr);
@@ -1720,7 +1721,7 @@ int generate_list_node(const parse_node_ptr p)
         current_ptr += strlen(current_ptr);
         sprintf(current_ptr, "$%02X", lo);
         current_ptr += strlen(current_ptr);
-        if (data_size > 1 || (data_size == 0 && hi != 0))
+        if (two_bytes)
         {
             sprintf(current_ptr, ", $%02X", hi);
             // ReSharper disable once CppAssignedValueIsNeverUsed
-- 
2.43.0


From b3176dfa292bc4b189c86259d98ce13bd78cd546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:16 +0000
Subject: [PATCH 36/80] fix: disassembly of negative operands and of jmp (a,x)
 in the listing

---
 CMakePasm/source/node.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/CMakePasm/source/node.cc b/CMakePasm/source/node.cc
index 31b8c29..741a5bc 100644
--- a/CMakePasm/source/node.cc
+++ b/CMakePasm/source/node.cc
@@ -1793,6 +1793,8 @@ int generate_list_node(const parse_node_ptr p)
         {
             expand_node(p->op[1]);
         }
+        // negative operands are shown as they are in the output
+        op &= bytes == 1 && p->opcode.mode != r ? 0xFF : 0xFFFF;
         // ReSharper disable once CppDefaultCaseNotHandledInSwitchStatement
         switch (p->opcode.mode)
         {
@@ -1833,7 +1835,7 @@ int generate_list_node(const parse_node_ptr p)
             break;
 
         case aix:    /* absolute indirect x  */  // NOLINT(bugprone-branch-clone)
-            sprintf(current_ptr, "$%04X,x ", op);
+            sprintf(current_ptr, "($%04X,x) ", op);
             break;
 
         case ax:     /* absolute x           */
-- 
2.43.0


From c84e622dbb92697143e8e466a41be5e04f025938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:29 +0000
Subject: [PATCH 37/80] fix: source lines of any length in the listing

---
 CMakePasm/source/file.cc    | 13 ++++++++++---
 CMakePasm/source/genlist.cc | 14 ++++----------
 2 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/CMakePasm/source/file.cc b/CMakePasm/source/file.cc
index 30d7f33..ddf8768 100644
--- a/CMakePasm/source/file.cc
+++ b/CMakePasm/source/file.cc
@@ -12,6 +12,8 @@
 #include <stdlib.h>
 #include <string.h>
 
+#include <string>
+
 #include "error.h"
 #include "flex.h"
 #include "memory.h"
@@ -131,8 +133,13 @@ file_line_node* read_file_lines(const char* file_name)
     }
     while (!feof(file))
     {
-        internal_buffer[0] = 0;
-        if (fgets(internal_buffer, max_line_len, file))
+        // a line can be longer than the buffer
+        std::string line_content;
+        while ((line_content.empty() || line_content.back() != '\n') && fgets(internal_buffer, max_line_len, file))
+        {
+            line_content += internal_buffer;
+        }
+        if (!line_content.empty())
         {
             if (file_node == NULL)
             {
@@ -153,7 +160,7 @@ file_line_node* read_file_lines(const char* file_name)
             }
             memset(file_node, 0, sizeof(file_line_node));
             // ReSharper disable once CppDeprecatedEntity
-            file_node->line_content = (char*)STRDUP(internal_buffer);
+            file_node->line_content = (char*)STRDUP(line_content.c_str());
             file_node->line_number = line++;
         }
     }
diff --git a/CMakePasm/source/genlist.cc b/CMakePasm/source/genlist.cc
index 0e7f002..06cd753 100644
--- a/CMakePasm/source/genlist.cc
+++ b/CMakePasm/source/genlist.cc
@@ -88,7 +88,6 @@ void generate_list_file(FILE* list_file)
     fprintf(list_file, "; Processing %s\n", current_file_name);
     for (int line = 1; line < list_head->line; ++line)
     {
-        internal_buffer[0] = 0;
         file_line_node* source_list = get_file_line(list_node->filename, line);
 
         if (list_node->list_directive)
@@ -98,8 +97,7 @@ void generate_list_file(FILE* list_file)
         {
             if (state)
             {
-                sprintf(internal_buffer, source_indent_format, "", source_list->line_content);
-                fputs(internal_buffer, list_file);
+                fprintf(list_file, source_indent_format, "", source_list->line_content);
             }
             source_list->displayed++;
         }
@@ -142,12 +140,11 @@ void generate_list_file(FILE* list_file)
         if (source_list == nullptr)
             continue;
 
-        internal_buffer[0] = 0;
         if (source_list->displayed == 0)
         {
             if (state)
             {
-                sprintf(internal_buffer, source_indent_format, list_node->output, source_list->line_content);
+                fprintf(list_file, source_indent_format, list_node->output, source_list->line_content);
             }
             source_list->displayed++;
         }
@@ -155,16 +152,13 @@ void generate_list_file(FILE* list_file)
         {
             if (state)
             {
-                sprintf(internal_buffer, source_indent_format, list_node->output, "\n");
+                fprintf(list_file, source_indent_format, list_node->output, "\n");
             }
         }
-        fputs(internal_buffer, list_file);
 
         for (source_list = source_list->next; source_list && source_list->line_number <= end_line; source_list = source_list->next)
         {
-            internal_buffer[0] = 0;
-            sprintf(internal_buffer, source_indent_format, "","");
-            fputs(internal_buffer, list_file);
+            fprintf(list_file, source_indent_format, "", "");
             if (source_list->displayed == 0)
             {
                 if (state)
-- 
2.43.0


From ad390fabaf26fcc69b2d0854258af91841ad2c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:26 +0000
Subject: [PATCH 38/80] fix: programs are checked in the same way without an
 output file

---
 CMakePasm/source/genoutput.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/CMakePasm/source/genoutput.cc b/CMakePasm/source/genoutput.cc
index c7e4551..1f02276 100644
--- a/CMakePasm/source/genoutput.cc
+++ b/CMakePasm/source/genoutput.cc
@@ -50,6 +50,10 @@ int write_data(FILE* file, const int data)
 
 int write_byte(FILE* file, const unsigned char ch)
 {
+    // without an output file the program is only checked
+    if (file == nullptr)
+        return 1;
+
     // ReSharper disable once CppRedundantCastExpression
     const int bytes_written = static_cast<int>(fwrite(&ch, 1, 1, file));
     if (bytes_written < 1)
@@ -75,6 +79,10 @@ int write_word(FILE* file, const int word)
 
 int write_string(FILE* file, const char* str, const size_t len)
 {
+    // without an output file the program is only checked
+    if (file == nullptr)
+        return static_cast<int>(len);
+
     // ReSharper disable once CppRedundantCastExpression
     const int bytes_written = static_cast<int>(fwrite(str, 1, len, file));
     if (bytes_written < static_cast<int>(len))
@@ -274,10 +282,6 @@ int generate_output(FILE* file, const parse_node_ptr p)
     int bytes_written;
     const int start_bytes = total_bytes_written;
 
-    // if there is no output file exit
-    if (file == NULL)
-        return 0;
-
     // header
     if (total_bytes_written == 0)
     {
-- 
2.43.0


From 8f5f48adcf916ba9f82b4a3903bc80562fe7ca9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:26 +0000
Subject: [PATCH 39/80] fix: address after a word in .str whose low half is a
 byte

---
 CMakePasm/source/expand.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 419fd34..eec3279 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1323,8 +1323,7 @@ int expand_operator_expression_list_node(const parse_node_ptr p)
             else
             {
                 const int op = expand_node(pp);
-                const int hi = (op & 0xFF00) >> 8;
-                if (hi != 0)
+                if ((op & ~0xFF) != 0)
                     program_counter++;
                 program_counter++;
             }
-- 
2.43.0


From 15fd67ec83edae88f14ceef9b7929eb75d3e781f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:32 +0000
Subject: [PATCH 40/80] fix: -nowarn and .warn off turn warnings off

---
 CMakePasm/source/error.cc | 2 ++
 CMakePasm/source/pass.cc  | 5 ++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/CMakePasm/source/error.cc b/CMakePasm/source/error.cc
index 86806d9..5e766c9 100644
--- a/CMakePasm/source/error.cc
+++ b/CMakePasm/source/error.cc
@@ -86,6 +86,8 @@ void error(const int err_num)
 void warn(const int err_num)
 {
     assert(err_num > error_start && err_num < error_max);
+    if (ignore_warnings)
+        return;
     yymessage(errors[err_num]);
     warning_count++;
 }
diff --git a/CMakePasm/source/pass.cc b/CMakePasm/source/pass.cc
index a33092b..7cd15da 100644
--- a/CMakePasm/source/pass.cc
+++ b/CMakePasm/source/pass.cc
@@ -190,15 +190,17 @@ int assemble(void)
         }
     }
 
-    // every pass starts with the processor of the command line
+    // every pass starts with the processor and the warnings of the command line
     const cpu initial_cpu_mode = cpu_mode;
     const int initial_allow_illegal = allow_illegal_op_codes;
+    const bool initial_ignore_warnings = ignore_warnings;
 
     int clean_pass_count = 0;
     do
     {
         cpu_mode = initial_cpu_mode;
         allow_illegal_op_codes = initial_allow_illegal;
+        ignore_warnings = initial_ignore_warnings;
 
         if (verbose)
         {
@@ -249,6 +251,7 @@ int assemble(void)
     final_pass = true;
     cpu_mode = initial_cpu_mode;
     allow_illegal_op_codes = initial_allow_illegal;
+    ignore_warnings = initial_ignore_warnings;
 
     if (output_file_name != nullptr)
     {
-- 
2.43.0


From acbd9dd952b4e386243f853e8a91d81e3b709d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:55 +0000
Subject: [PATCH 41/80] fix: an or followed by a minus sign is not a label name

---
 CMakePasm/source/pasm.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CMakePasm/source/pasm.l b/CMakePasm/source/pasm.l
index fc495f9..a4361a8 100644
--- a/CMakePasm/source/pasm.l
+++ b/CMakePasm/source/pasm.l
@@ -348,7 +348,7 @@ SYMB                        @?[A-Za-z_][A-Za-z0-9_.]*
                                 yylval.strValue = (char*)STRDUP(yytext); 
                                 return SYMBOL;
                             }
-[\+|\-]+                    {
+[\+\-]+                     {
                                 if (last_token == nullptr || *last_token == '\n')
                                 {
                                     SV_TOK
-- 
2.43.0


From 11fe790d88a657e2b845911ec09c84d78078a29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:55 +0000
Subject: [PATCH 42/80] fix: a label may follow a comment

---
 CMakePasm/source/pasm.l | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CMakePasm/source/pasm.l b/CMakePasm/source/pasm.l
index a4361a8..f4787ca 100644
--- a/CMakePasm/source/pasm.l
+++ b/CMakePasm/source/pasm.l
@@ -428,8 +428,8 @@ $[0-9A-Fa-f]*               { SV_TOK INT(1, 16)}
                                 P_TOK("SYMBOL")
                                 return SYMBOL;
                             }
-"/*"                        { SV_TOK BEGIN(C_COMMENT); }
-<C_COMMENT>"*/"             { SV_TOK BEGIN(INITIAL); }
+"/*"                        { BEGIN(C_COMMENT); }
+<C_COMMENT>"*/"             { BEGIN(INITIAL); }
 <C_COMMENT>.|[\n]           { /* ignore comments */ }
 ;[^\n]*                     { /* ignore comments */ }
 [/][/][^\n]*                { /* ignore comments */ }
-- 
2.43.0


From badd1c6ed0ac78e349152f4c728d9ee6f8e7d2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:55 +0000
Subject: [PATCH 43/80] fix: .print on and off may be separated by more than
 one space

---
 CMakePasm/source/pasm.l | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CMakePasm/source/pasm.l b/CMakePasm/source/pasm.l
index f4787ca..42452d5 100644
--- a/CMakePasm/source/pasm.l
+++ b/CMakePasm/source/pasm.l
@@ -328,8 +328,8 @@ SYMB                        @?[A-Za-z_][A-Za-z0-9_.]*
 ".WARN"[ \t]*"ON"           {                       SV_TOK ignore_warnings = false;                 }
 ".WARN"[ \t]*"OFF"          {                       SV_TOK ignore_warnings = true;                  }
 ".C64"                      {                       SV_TOK output_file_format = c64;                }
-".PRINT"[ \t]"ON"           {                       P_TOK("PRINTON") SV_TOK return PRINTON;         }
-".PRINT"[ \t]"OFF"          {                       P_TOK("PRINTOFF") SV_TOK return PRINTOFF;       }
+".PRINT"[ \t]+"ON"          {                       P_TOK("PRINTON") SV_TOK return PRINTON;         }
+".PRINT"[ \t]+"OFF"         {                       P_TOK("PRINTOFF") SV_TOK return PRINTOFF;       }
 
 ".DEBUG_TOKEN"[ \t]"ON"     { P_TOK("DEBUGTOKEN ON")       SV_TOK Debug_Token = true;               }
 ".DEBUG_TOKEN"[ \t]"OFF"    { P_TOK("DEBUGTOKEN OFF")      SV_TOK Debug_Token = false;              }
-- 
2.43.0


From a045e8a686cbc4343a4441b827f54df690df97ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:33 +0000
Subject: [PATCH 44/80] fix: files with CRLF line ends may include files that
 begin with a label

---
 CMakePasm/source/pasm.l | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/CMakePasm/source/pasm.l b/CMakePasm/source/pasm.l
index 42452d5..2f742bb 100644
--- a/CMakePasm/source/pasm.l
+++ b/CMakePasm/source/pasm.l
@@ -155,7 +155,12 @@ SYMB                        @?[A-Za-z_][A-Za-z0-9_.]*
 "RMB"[0-7]                  { OP_65C02_REL(rmb) }
 "SMB"[0-7]                  { OP_65C02_REL(smb) }
 
-[\xD\xA]|[\xA]|[\xD]        { P_TOK("EOL") SV_TOK return EOL; }
+[\xD]?[\xA]|[\xD]            {
+                                P_TOK("EOL")
+                                SV_TOK
+                                *last_token = '\n';
+                                return EOL;
+                            }
 ".IFDEF"[ \t]+{SYMB}        {
                                 P_TOK("IF_DEF")
                                 SV_TOK
-- 
2.43.0


From dd4e9e72abaf1f4e754609cf6425bfb5bec4c3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:11 +0000
Subject: [PATCH 45/80] fix: a failing write to an output, symbol or list file
 is an error

---
 CMakePasm/source/error.cc |  2 ++
 CMakePasm/source/error.h  |  2 ++
 CMakePasm/source/pass.cc  | 19 ++++++++++++++++---
 3 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/CMakePasm/source/error.cc b/CMakePasm/source/error.cc
index 5e766c9..fc583a3 100644
--- a/CMakePasm/source/error.cc
+++ b/CMakePasm/source/error.cc
@@ -67,6 +67,8 @@ const char* errors[] =
     "Error opening output file.",
     "Error creating list node.",
     "Error path name too long.",
+    "Error writing to symbol file.",
+    "Error writing to list file.",
 };
 
 /**
diff --git a/CMakePasm/source/error.h b/CMakePasm/source/error.h
index b0c92f0..e7aba31 100644
--- a/CMakePasm/source/error.h
+++ b/CMakePasm/source/error.h
@@ -59,5 +59,7 @@ enum
     error_opening_output_file,
     error_creating_list_node,
     error_path_name_too_long,
+    error_writing_symbol_file,
+    error_writing_list_file,
     error_max
 };
diff --git a/CMakePasm/source/pass.cc b/CMakePasm/source/pass.cc
index 7cd15da..7867869 100644
--- a/CMakePasm/source/pass.cc
+++ b/CMakePasm/source/pass.cc
@@ -162,6 +162,16 @@ void parse_pass(void)
     }
 }
 
+/**
+ * \brief Close a file that was written
+ * \return true if everything was written
+ */
+static bool close_written_file(FILE* file)
+{
+    const bool failed = ferror(file) != 0;
+    return fclose(file) == 0 && !failed;
+}
+
 int assemble(void)
 {
     error_count = 0;
@@ -268,7 +278,8 @@ int assemble(void)
     // close output line_content
     if (output_file != nullptr)
     {
-        fclose(output_file);
+        if (!close_written_file(output_file))
+            error(error_writing_output_file);
         fprintf(console, "\n%d bytes written to %s\n\n", total_bytes_written, output_file_name);
     }
 
@@ -285,7 +296,8 @@ int assemble(void)
         // display the symbols
         dump_symbols(sym_file);
 
-        fclose(sym_file);
+        if (!close_written_file(sym_file))
+            error(error_writing_symbol_file);
     }
 
 
@@ -300,7 +312,8 @@ int assemble(void)
         else
         {
             generate_list_file(list_file);
-            fclose(list_file);
+            if (!close_written_file(list_file))
+                error(error_writing_list_file);
         }
     }
 
-- 
2.43.0


From 9b5921d2a7594c8c334f2406eb65cde802a5f2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:19 +0000
Subject: [PATCH 46/80] fix: values of definitions beyond 32 bits are refused

---
 CMakePasm/source/parseargs.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/CMakePasm/source/parseargs.cc b/CMakePasm/source/parseargs.cc
index 1156115..acdcf51 100644
--- a/CMakePasm/source/parseargs.cc
+++ b/CMakePasm/source/parseargs.cc
@@ -301,41 +301,41 @@ int parse_arguments(const int argc, char* argv[])
             }
             const char* val = argv[arg_index];
 
-            int sym_val = 0;
+            long long sym_val = 0;
 
             if (val[0] == '$')
             {
-                sym_val = (int)strtol(val + 1, NULL, 16);
+                sym_val = strtoll(val + 1, NULL, 16);
             }
             else if (val[0] == '%')
             {
-                sym_val = (int)strtol(val + 1, NULL, 2);
+                sym_val = strtoll(val + 1, NULL, 2);
             }
             else if (strlen(val) > 2)
             {
                 if (val[0] == '0' && val[1] == 'x')
                 {
-                    sym_val = (int)strtol(val + 2, NULL, 16);
+                    sym_val = strtoll(val + 2, NULL, 16);
                 }
                 else if (val[0] == '0' && val[1] == 'b')
                 {
-                    sym_val = (int)strtol(val + 2, NULL, 2);
+                    sym_val = strtoll(val + 2, NULL, 2);
                 }
                 else
                 {
-                    sym_val = (int)strtol(val, NULL, 10);
+                    sym_val = strtoll(val, NULL, 10);
                 }
             }
             else
             {
-                sym_val = (int)strtol(val, NULL, 10);
+                sym_val = strtoll(val, NULL, 10);
             }
 
             // ReSharper disable once CppLocalVariableMayBeConst
             symbol_table_ptr sym = add_symbol(sym_name);
             if (sym != NULL)
             {
-                if ((sym_val & ~0xFFFF) != 0 || set_symbol_value(sym, sym_val) == NULL)
+                if (sym_val < 0 || sym_val > 0xFFFF || set_symbol_value(sym, (int)sym_val) == NULL)
                 {
                     usage();
                     exit(-1);
-- 
2.43.0


From 7138b238c152b191c7f8c95afdd5259d971f61f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:02 +0000
Subject: [PATCH 47/80] fix: dictionaries copied more bytes than the values
 given to them have

---
 CMakePasm/source/expand.cc | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index eec3279..dd1cd6d 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1378,19 +1378,13 @@ macro_dict_entry* create_macro_entry(const char* name)
 {
     // ReSharper disable once CppTooWideScope
     if (macro_dict == nullptr)
-        macro_dict = dict_create(sizeof(macro_dict_entry*), 0);
+        macro_dict = dict_create(sizeof(struct macro_dict_entry), 0);
 
     auto* macro_dict_entry = static_cast<struct macro_dict_entry*>(dict_search(macro_dict, name));
     if (macro_dict_entry == nullptr)
     {
-        macro_dict_entry = static_cast<struct macro_dict_entry*>(MALLOC(sizeof(struct macro_dict_entry)));
-        if (macro_dict_entry == nullptr)
-        {
-            error(error_out_of_memory);
-            exit(-1);
-        }
-        macro_dict_entry->times_executed = 0;
-        dict_insert(&macro_dict, const_cast<char*>(name), macro_dict_entry);
+        struct macro_dict_entry entry = { 0 };
+        macro_dict_entry = static_cast<struct macro_dict_entry*>(dict_insert(&macro_dict, const_cast<char*>(name), &entry));
     }
     return macro_dict_entry;
 }
@@ -1404,7 +1398,7 @@ void reset_macro_dict(void)
 
     if (macro_dict == nullptr)
     {
-        macro_dict = dict_create(sizeof(macro_dict_entry*), 0);
+        macro_dict = dict_create(sizeof(struct macro_dict_entry), 0);
     }
     for (int index = 0; index < macro_dict->size; index++)
     {
@@ -2096,7 +2090,7 @@ bool has_uninitialized_symbol(const parse_node_ptr p)
 
 static dictionary_ptr create_op_table_dictionary(op_table table[], const size_t size)
 {
-    dictionary_ptr dictionary = dict_create(sizeof(op_table), -1);
+    dictionary_ptr dictionary = dict_create(sizeof(table[0].function), -1);
     for (size_t i = 0; i < size; ++i)
     {
         dict_insert(&dictionary, (void*)static_cast<size_t>(table[i].tag), &table[i].function);
-- 
2.43.0


From e5c49c52354e70ea9f1c0eff9708d5110b86182f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:02 +0000
Subject: [PATCH 48/80] fix: the hash of pointers shifted beyond the width of
 an int

---
 CMakePasm/source/hash.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CMakePasm/source/hash.cc b/CMakePasm/source/hash.cc
index 12efd51..7ba5aeb 100644
--- a/CMakePasm/source/hash.cc
+++ b/CMakePasm/source/hash.cc
@@ -30,7 +30,7 @@ unsigned int hash_pointer_function(const void* key)
 
     for (size_t index = 0; index < sizeof(void*); ++index)
     {
-        const unsigned char b = (((unsigned long long)key) & (0xFF << (8 * index))) >> (8 * index);  // NOLINT(clang-diagnostic-implicit-int-conversion)
+        const unsigned char b = (((unsigned long long)key) >> (8 * index)) & 0xFF;  // NOLINT(clang-diagnostic-implicit-int-conversion)
 
         hash += b;
         hash += hash << 10;
-- 
2.43.0


From 495595387c2cde08deb4302f8877002291b808f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:02 +0000
Subject: [PATCH 49/80] fix: a growing dictionary keeps its elements and their
 order

---
 CMakePasm/source/dictionary.cc | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/CMakePasm/source/dictionary.cc b/CMakePasm/source/dictionary.cc
index a49689e..9cbac67 100644
--- a/CMakePasm/source/dictionary.cc
+++ b/CMakePasm/source/dictionary.cc
@@ -122,12 +122,27 @@ static dictionary_ptr grow(const dictionary_ptr d)
     d2->collisions = 0;
     for (int index = 0; index < d->size; index++)
     {
-        for (element_ptr element = d->table[index]; element != 0; element = element->next)
+        /* turn the chain round so that the most recent element comes first again */
+        element_ptr next;
+        element_ptr chain = NULL;
+        for (element_ptr element = d->table[index]; element != 0; element = next)
+        {
+            next = element->next;
+            element->next = chain;
+            chain = element;
+        }
+        for (element_ptr element = chain; element != 0; element = next)
         {
-            /* note: this recopies everything */
-            /* a more efficient implementation would
-             * to avoid this problem */
-            dict_insert(&d2, element->key, element->value);
+            next = element->next;
+            const unsigned long h = (d2->key_type == 0
+                ? hash_function(static_cast<const char*>(element->key))
+                : hash_pointer_function(element->key)) % d2->size;
+            element->next = d2->table[h];
+            if (element->next)
+                d2->collisions++;
+
+            d2->table[h] = element;
+            d2->number_elements++;
         }
     }
 
-- 
2.43.0


From 12f07d1995320a1b832d17d7e9cf5ef5c0c92c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:02 +0000
Subject: [PATCH 50/80] fix: deleting from a dictionary frees the element and
 its value

---
 CMakePasm/source/dictionary.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CMakePasm/source/dictionary.cc b/CMakePasm/source/dictionary.cc
index 9cbac67..1eddc6f 100644
--- a/CMakePasm/source/dictionary.cc
+++ b/CMakePasm/source/dictionary.cc
@@ -285,6 +285,7 @@ void dict_delete(const dictionary_ptr d, const void* key)
                 // ReSharper disable once CppPointerConversionDropsQualifiers
                 FREE(p);  // NOLINT(clang-diagnostic-incompatible-pointer-types-discards-qualifiers)
                 FREE(e->value);
+                FREE(e);
                 (d->number_elements)--;
                 return;
             }
@@ -300,6 +301,7 @@ void dict_delete(const dictionary_ptr d, const void* key)
             {
                 const element_ptr e = *prev;
                 *prev = e->next;
+                FREE(e->value);
                 FREE(e);
                 d->number_elements--;
                 return;
-- 
2.43.0


From 68bbfed3fa68a135dd3bb6e4f2a9dfefb2acaf5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:53 +0000
Subject: [PATCH 51/80] fix: a loop that generates nothing and does not end is
 an error

---
 CMakePasm/source/expand.cc | 35 +++++++++++++++++++++++++++++++----
 CMakePasm/source/expand.h  |  1 +
 CMakePasm/source/pass.cc   |  1 +
 3 files changed, 33 insertions(+), 4 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index dd1cd6d..95696a9 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1504,6 +1504,33 @@ int expand_operator_macro_definition_node(const parse_node_ptr p)
     return 0;
 }
 
+// iterations of loops since the program counter last moved
+const int max_idle_iterations = 1000000;
+static int idle_iterations = 0;
+static int idle_program_counter = -1;
+
+/// <summary>
+/// Forget the iterations of the previous pass
+/// </summary>
+void reset_loop_check(void)
+{
+    idle_iterations = 0;
+    idle_program_counter = -1;
+}
+
+/// <summary>
+/// A loop is endless when it fills all of the memory, or does not generate anything any more
+/// </summary>
+static bool is_endless_loop(void)
+{
+    if (program_counter != idle_program_counter)
+    {
+        idle_program_counter = program_counter;
+        idle_iterations = 0;
+    }
+    return program_counter > max_address || ++idle_iterations > max_idle_iterations;
+}
+
 /// <summary>
 /// Operator While
 /// </summary>
@@ -1515,7 +1542,7 @@ int expand_operator_while_node(const parse_node_ptr p)
     {
         expand_node(p->op[1]);
 
-        if (program_counter > max_address)
+        if (is_endless_loop())
         {
             error(error_infinite_loop_detected);
             return 0;
@@ -1535,7 +1562,7 @@ int expand_operator_repeat_node(const parse_node_ptr p)
     {
         expand_node(p->op[0]);
 
-        if (program_counter > max_address)
+        if (is_endless_loop())
         {
             error(error_infinite_loop_detected);
             return 0;
@@ -1554,7 +1581,7 @@ int expand_operator_do_node(const parse_node_ptr p)
     do
     {
         expand_node(p->op[0]);
-        if (program_counter > max_address)
+        if (is_endless_loop())
         {
             error(error_infinite_loop_detected);
             return 0;
@@ -1618,7 +1645,7 @@ int expand_operator_for_node(const parse_node_ptr p)
 
             expand_node(p->op[2]);
 
-            if (program_counter > max_address)
+            if (is_endless_loop())
             {
                 error(error_infinite_loop_detected);
                 return 0;
diff --git a/CMakePasm/source/expand.h b/CMakePasm/source/expand.h
index de008c0..4cf1a58 100644
--- a/CMakePasm/source/expand.h
+++ b/CMakePasm/source/expand.h
@@ -6,6 +6,7 @@ extern void init_expander(void);
 extern void destroy_expander(void);
 extern int expand_node(parse_node_ptr p);
 extern void reset_macro_dict(void);
+extern void reset_loop_check(void);
 extern char* last_label;
 extern char* current_scope;
 extern void dump_op_table(void);
diff --git a/CMakePasm/source/pass.cc b/CMakePasm/source/pass.cc
index 7867869..0d93d95 100644
--- a/CMakePasm/source/pass.cc
+++ b/CMakePasm/source/pass.cc
@@ -66,6 +66,7 @@ void reset_lex(void)
     head_node->type = type_head_node;
 
     reset_macro_dict();
+    reset_loop_check();
 
     // initialize expander
     init_expander();
-- 
2.43.0


From 571905397233ea087fcb702a61043891a194d4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:46 +0000
Subject: [PATCH 52/80] fix: endless macro recursion and section nesting are
 errors

---
 CMakePasm/source/error.cc  |  1 +
 CMakePasm/source/error.h   |  1 +
 CMakePasm/source/expand.cc | 28 ++++++++++++++++++++++++++--
 3 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/CMakePasm/source/error.cc b/CMakePasm/source/error.cc
index fc583a3..044c704 100644
--- a/CMakePasm/source/error.cc
+++ b/CMakePasm/source/error.cc
@@ -69,6 +69,7 @@ const char* errors[] =
     "Error path name too long.",
     "Error writing to symbol file.",
     "Error writing to list file.",
+    "Macro calls or sections nested too deep.",
 };
 
 /**
diff --git a/CMakePasm/source/error.h b/CMakePasm/source/error.h
index e7aba31..1c6cf57 100644
--- a/CMakePasm/source/error.h
+++ b/CMakePasm/source/error.h
@@ -61,5 +61,6 @@ enum
     error_path_name_too_long,
     error_writing_symbol_file,
     error_writing_list_file,
+    error_nested_too_deep,
     error_max
 };
diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 95696a9..e7ff6c7 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -723,6 +723,11 @@ int expand_operator_section_node(const parse_node_ptr p)
     if (current_scope != nullptr)
     {
         const size_t len = strlen(current_scope) + strlen(name) + 2;
+        if (len > max_line_len)
+        {
+            error(error_nested_too_deep);
+            return 0;
+        }
         char* temp_name = static_cast<char*>(MALLOC(len));
         if (temp_name == nullptr)
         {
@@ -1438,6 +1443,11 @@ int expand_macro_id_node(const parse_node_ptr p)
     return sym->value;
 }
 
+// nest level of the macro calls
+const int max_macro_expansion_level = 1000;
+static int macro_expansion_level = 0;
+static bool macro_nested_too_deep = false;
+
 /// <summary>
 /// Operator Macro Expansion (macro call)
 /// </summary>
@@ -1445,6 +1455,17 @@ int expand_macro_id_node(const parse_node_ptr p)
 /// <returns>int.</returns>
 int expand_macro_expansion_node(const parse_node_ptr p)
 {
+    // a macro that never stops to call itself is an error, the calls that are left are not expanded
+    if (macro_expansion_level >= max_macro_expansion_level)
+    {
+        if (!macro_nested_too_deep)
+            error(error_nested_too_deep);
+        macro_nested_too_deep = true;
+    }
+    if (macro_nested_too_deep)
+        return 0;
+    macro_expansion_level++;
+
     macro_dict_entry* macro_dict_entry = create_macro_entry(p->macro.name);
     push_macro_params();
 
@@ -1474,6 +1495,7 @@ int expand_macro_expansion_node(const parse_node_ptr p)
 
     last_label = temp;
     pop_macro_params();
+    macro_expansion_level--;
 
     return 0;
 }
@@ -1504,8 +1526,9 @@ int expand_operator_macro_definition_node(const parse_node_ptr p)
     return 0;
 }
 
-// iterations of loops since the program counter last moved
+// iterations of loops since the program counter last moved, before and after an error
 const int max_idle_iterations = 1000000;
+const int max_idle_iterations_error = 1000;
 static int idle_iterations = 0;
 static int idle_program_counter = -1;
 
@@ -1528,7 +1551,8 @@ static bool is_endless_loop(void)
         idle_program_counter = program_counter;
         idle_iterations = 0;
     }
-    return program_counter > max_address || ++idle_iterations > max_idle_iterations;
+    idle_iterations++;
+    return program_counter > max_address || idle_iterations > (error_count > 0 ? max_idle_iterations_error : max_idle_iterations);
 }
 
 /// <summary>
-- 
2.43.0


From d0abee4a0b0c753a8097fc15d1f61a4a3034c620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:37 +0000
Subject: [PATCH 53/80] fix: names longer than the line buffer in errors and
 macro scopes

---
 CMakePasm/source/error.cc  |  2 ++
 CMakePasm/source/expand.cc | 22 ++++++++++++++++++----
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/CMakePasm/source/error.cc b/CMakePasm/source/error.cc
index 044c704..d547198 100644
--- a/CMakePasm/source/error.cc
+++ b/CMakePasm/source/error.cc
@@ -110,7 +110,9 @@ void error2(const int err_num, const char* parameter)
     }
     else
     {
+        // the parameter does not fit
         error(err_num);
+        return;
     }
     yyerror(internal_buffer);
 }
diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index e7ff6c7..7b77e30 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1415,6 +1415,22 @@ void reset_macro_dict(void)
     }
 }
 
+/// <summary>
+/// Name of the scope of the labels in a macro, the name of the macro can have any length
+/// </summary>
+static char* macro_scope_name(const char* name, const int digits, const int times)
+{
+    const size_t len = strlen(name) + 16;
+    char* scope = static_cast<char*>(MALLOC(len));
+    if (scope == nullptr)
+    {
+        error(error_out_of_memory);
+        exit(-1);
+    }
+    snprintf(scope, len, "%s::%.*X", name, digits, times);
+    return scope;
+}
+
 /// <summary>
 /// Operator Macro Symbol
 /// </summary>
@@ -1425,8 +1441,7 @@ int expand_macro_id_node(const parse_node_ptr p)
     const macro_dict_entry* macro_dict_entry = create_macro_entry(p->id.name);
 
     char* temp = last_label;
-    sprintf(internal_buffer, "%s::%8.8X", p->id.name, macro_dict_entry->times_executed);
-    last_label = const_cast<char*>(STRDUP(internal_buffer));
+    last_label = macro_scope_name(p->id.name, 8, macro_dict_entry->times_executed);
 
     expand_id_node(p);
 
@@ -1485,8 +1500,7 @@ int expand_macro_expansion_node(const parse_node_ptr p)
     }
 
     char* temp = last_label;
-    sprintf(internal_buffer, "%s::%.4X", p->macro.name, macro_dict_entry->times_executed);
-    last_label = (char*) STRDUP(internal_buffer);
+    last_label = macro_scope_name(p->macro.name, 4, macro_dict_entry->times_executed);
 
     if (p->macro.macro != nullptr)
         expand_node(static_cast<parse_node_ptr>(p->macro.macro));
-- 
2.43.0


From 98733228e83a03304d96439a71d3630637052137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:02 +0000
Subject: [PATCH 54/80] fix: defining a symbol with an empty name read in front
 of it

---
 CMakePasm/source/sym.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CMakePasm/source/sym.cc b/CMakePasm/source/sym.cc
index 94ad542..896e740 100644
--- a/CMakePasm/source/sym.cc
+++ b/CMakePasm/source/sym.cc
@@ -156,7 +156,7 @@ symbol_table_ptr add_symbol(char* name)
     }
 
     size_t len = strlen(name);
-    if (name[len - 1] == ':')
+    if (len > 0 && name[len - 1] == ':')
         name[len - 1] = 0;
 
     symbol_table_ptr tmp_ptr = look_up_symbol(name);
-- 
2.43.0


From fb3afaaa6e97b0701db40758cf49e1f8f87e9b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:14 +0000
Subject: [PATCH 55/80] fix: fills, loads and reservations beyond the address
 space are one error and end

---
 CMakePasm/source/expand.cc | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 7b77e30..4494cfb 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -378,6 +378,13 @@ int expand_operator_fill_node(const parse_node_ptr p)
         generate_fill_node2 = nullptr;
         generate_fill_node1 = nullptr;
 
+        // the bytes must not run over the end of the address space
+        if (count > max_address + 1 - program_counter)
+        {
+            error(error_value_out_of_range);
+            return byt;
+        }
+
         while (count > 0)
         {
             if (count > 1)
@@ -414,7 +421,7 @@ int expand_operator_fill_node(const parse_node_ptr p)
     }
     else
     {
-        program_counter += count;
+        program_counter += count > max_address + 1 ? max_address + 1 : count;
     }
     return byt;
 }
@@ -437,6 +444,14 @@ int expand_operator_load_node(const parse_node_ptr p)
     fseek(fd, 0, SEEK_SET);
     size_t pos = ftell(fd);
 
+    // the file must not run over the end of the address space
+    if (static_cast<long>(len) > max_address + 1 - (final_pass ? program_counter : 0))
+    {
+        error(error_value_out_of_range);
+        fclose(fd);
+        return 0;
+    }
+
     while (!feof(fd) && len - pos > 0)
     {
         pos = ftell(fd);
@@ -1763,6 +1778,13 @@ int expand_operator_ds_node(const parse_node_ptr p)
         error(error_value_out_of_range);
         exit(-1);
     }
+    // more than the address space cannot be reserved
+    if (count > max_address + 1)
+    {
+        if (final_pass)
+            error(error_value_out_of_range);
+        count = max_address + 1;
+    }
 
 //    if (final_pass)
     {
-- 
2.43.0


From d8d7a8af048062caa23989543760a5459e4d0ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:48 +0000
Subject: [PATCH 56/80] fix: dividing the lowest value by -1 crashed, divisors
 were evaluated twice

---
 CMakePasm/source/expand.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 4494cfb..bb466ce 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1969,12 +1969,19 @@ int expand_operator_multiply_node(const parse_node_ptr p)
 /// <returns>int.</returns>
 int expand_operator_divide_node(const parse_node_ptr p)
 {
-    if (expand_node(p->op[1]) == 0)
+    const int divisor = expand_node(p->op[1]);
+    if (divisor == 0)
     {
         error(error_divide_by_zero);
         return 0;
     }
-    return expand_node(p->op[0]) / expand_node(p->op[1]);
+    const int dividend = expand_node(p->op[0]);
+
+    // the quotient of the lowest value and -1 is not an int
+    if (divisor == -1)
+        return static_cast<int>(0u - static_cast<unsigned int>(dividend));
+
+    return dividend / divisor;
 }
 
 /// <summary>
-- 
2.43.0


From 4aa45a35e9ab14c7e88692023670b0dd268f04ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:28 +0000
Subject: [PATCH 57/80] fix: eolconvert used a string after its end and a
 directory that is not there

---
 CMakePasm/eolconvert/eolconvert.cc | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/CMakePasm/eolconvert/eolconvert.cc b/CMakePasm/eolconvert/eolconvert.cc
index 39b7408..c30e6a9 100644
--- a/CMakePasm/eolconvert/eolconvert.cc
+++ b/CMakePasm/eolconvert/eolconvert.cc
@@ -23,7 +23,7 @@ int process_directories(const set<fs::path>& directories, const fs::path& source
 int process_directory(const fs::path& directory, const fs::path& source_root, const fs::path& install_path);
 int process_files(const set<fs::path>& files, const fs::path& source_root, const fs::path& install_path);
 int process_file(const fs::path& path, const fs::path& source_root, const fs::path& install_path);
-char* extract_directory(int n, string path);
+string extract_directory(int n, string path);
 
 bool is_eol(uint8_t ch);
 int replace_eol(const fs::path& path, const fs::path& out_path);
@@ -44,7 +44,14 @@ int main(const int argc, char** argv)
     cout << '\n';
     
     fs::path install_root_path;
-    fs::path source_path = realpath("../../CMakePasm/samples", NULL);
+    char* real_source_path = realpath("../../CMakePasm/samples", NULL);
+    if (real_source_path == NULL)
+    {
+        cout << "../../CMakePasm/samples is not a directory.";
+        return 0;
+    }
+    fs::path source_path = real_source_path;
+    free(real_source_path);
     fs::path source_root_path = extract_directory(1, source_path.string());
 
     if (!is_directory(source_path))
@@ -84,9 +91,9 @@ int main(const int argc, char** argv)
     return 0;
 }
 
-char* extract_directory(int n, string path)
+string extract_directory(int n, string path)
 {
-    char buffer[1024] = { 0 };
+    string buffer;
     int count = 0;
     int len = path.length();
     int index = len - 1;
@@ -99,19 +106,18 @@ char* extract_directory(int n, string path)
             if (count == n)
             {
                 index++;
-                auto i = 0;
                 while (index < len)
                 {
-                    buffer[i++] = path[index];
+                    buffer += path[index];
                     index++;
                 }
-                buffer[i] = ch;
-                return (char*)string(buffer).c_str();
+                buffer += ch;
+                return buffer;
             }
         }
         index--;
     }
-    return NULL;
+    return buffer;
 } 
 
 //--------------------------------------------------------------------------//
-- 
2.43.0


From 8e9cacf8b6fc9cdc071390342105d1526580445c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:27 +0000
Subject: [PATCH 58/80] fix: eolconvert doubled line ends after a lone CR and
 left texts with tabs unconverted

---
 CMakePasm/eolconvert/eolconvert.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/CMakePasm/eolconvert/eolconvert.cc b/CMakePasm/eolconvert/eolconvert.cc
index c30e6a9..9e3d70e 100644
--- a/CMakePasm/eolconvert/eolconvert.cc
+++ b/CMakePasm/eolconvert/eolconvert.cc
@@ -261,8 +261,9 @@ int replace_eol(const fs::path& path, const fs::path& out_path)
                         count = 0;
                     continue;
                 }
+                // a line end of its own, CR CR LF are two of them
                 ss << '\n';
-                count = 0;
+                count = 1;
             }
         }
 
@@ -339,7 +340,7 @@ bool is_text_file(const fs::path& path)
         file.close();
 
         return (std::all_of(in_buf.cbegin(), in_buf.cend(), [](const uint8_t ch)
-            { return isprint(ch) || is_eol(ch); }));
+            { return isprint(ch) || ch == '\t' || is_eol(ch); }));
     }
 
     return false;
-- 
2.43.0


From 18ad309757504be8b2a1899f5ff45cd1f5ef36c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:36 +0000
Subject: [PATCH 59/80] fix: an error in data is reported once, not again for
 the next statement

---
 CMakePasm/source/genoutput.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CMakePasm/source/genoutput.cc b/CMakePasm/source/genoutput.cc
index 1f02276..3881a95 100644
--- a/CMakePasm/source/genoutput.cc
+++ b/CMakePasm/source/genoutput.cc
@@ -293,7 +293,8 @@ int generate_output(FILE* file, const parse_node_ptr p)
     }
 
     const int delta = program_counter - (origin + total_bytes_written);
-    if (delta > 0)
+    // after an error bytes are missing, that was reported already
+    if (delta > 0 && error_count == 0)
     {
         error(error_value_out_of_range);
         exit(-1);        
-- 
2.43.0


From b34cb84e82a6eb8c2add70b1995352f22037184d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:11 +0000
Subject: [PATCH 60/80] fix: a file that is read twice keeps its anonymous
 labels apart

---
 CMakePasm/source/file.cc    |  2 ++
 CMakePasm/source/globals.cc |  4 ++++
 CMakePasm/source/pasm.h     |  3 +++
 CMakePasm/source/pasm.l     |  1 +
 CMakePasm/source/pass.cc    |  2 ++
 CMakePasm/source/sym.cc     | 13 ++++++++-----
 CMakePasm/source/sym.h      |  1 +
 7 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/CMakePasm/source/file.cc b/CMakePasm/source/file.cc
index ddf8768..7d27904 100644
--- a/CMakePasm/source/file.cc
+++ b/CMakePasm/source/file.cc
@@ -196,10 +196,12 @@ int open_include_file(char* file)
     file_line_stack_entry file_line;
     file_line.file = current_file_name;
     file_line.line = yylineno;
+    file_line.instance = current_file_instance;
     
     file_stack->push(file_stack->instance, &file_line);
 
     current_file_name = file;
+    current_file_instance = ++last_file_instance;
 
     yyin = open_file(file, "r");
     yylineno = 0;
diff --git a/CMakePasm/source/globals.cc b/CMakePasm/source/globals.cc
index 346eeff..d7c138d 100644
--- a/CMakePasm/source/globals.cc
+++ b/CMakePasm/source/globals.cc
@@ -30,6 +30,8 @@ bool verbose = false;
 char** input_files = nullptr;
 char* internal_buffer = nullptr;
 char* current_file_name = nullptr;
+int current_file_instance = 0;   // a file that is read twice in a pass has two instances
+int last_file_instance = 0;
 char* directories = nullptr;
 char* output_file_name = nullptr;
 char* sym_file_name = nullptr;
@@ -70,6 +72,8 @@ void init_globals()
     input_files = nullptr;
     internal_buffer = nullptr;
     current_file_name = nullptr;
+    current_file_instance = 0;
+    last_file_instance = 0;
     directories = nullptr;
     output_file_name = nullptr;
     sym_file_name = nullptr;
diff --git a/CMakePasm/source/pasm.h b/CMakePasm/source/pasm.h
index 4481399..f4191aa 100644
--- a/CMakePasm/source/pasm.h
+++ b/CMakePasm/source/pasm.h
@@ -18,6 +18,7 @@ typedef struct file_line_stack_entry
 {
     char* file;
     int line;
+    int instance;
 } file_line_stack_entry;
 
 extern void reset_lex(void);
@@ -45,6 +46,8 @@ extern stack_ptr changed_sym_stack;
 
 extern char* internal_buffer;
 extern char* current_file_name;
+extern int current_file_instance;
+extern int last_file_instance;
 extern char* directories;
 extern char** input_files;
 extern char* output_file_name;
diff --git a/CMakePasm/source/pasm.l b/CMakePasm/source/pasm.l
index 2f742bb..6be3b4e 100644
--- a/CMakePasm/source/pasm.l
+++ b/CMakePasm/source/pasm.l
@@ -456,6 +456,7 @@ $[0-9A-Fa-f]*               { SV_TOK INT(1, 16)}
                                     const file_line_stack_entry* file_line = (file_line_stack_entry*) file_stack->pop(file_stack->instance);
                                     current_file_name = file_line->file;
                                     yylineno = file_line->line;
+                                    current_file_instance = file_line->instance;
 
                                     if (final_pass) generate_list_node(NULL);
                                 }
diff --git a/CMakePasm/source/pass.cc b/CMakePasm/source/pass.cc
index 0d93d95..aa97b0a 100644
--- a/CMakePasm/source/pass.cc
+++ b/CMakePasm/source/pass.cc
@@ -96,6 +96,7 @@ void reset_lex(void)
         ifdef_stack->clear(ifdef_stack->instance);
     }
     in_macro_definition = 0;
+    last_file_instance = 0;
 }
 
 
@@ -113,6 +114,7 @@ void parse_pass(void)
         yylineno = 0;
 
         current_file_name = input_files[in_file_index];
+        current_file_instance = ++last_file_instance;
         yyin = open_file(current_file_name, "r");
         if (yyin == nullptr)
         {
diff --git a/CMakePasm/source/sym.cc b/CMakePasm/source/sym.cc
index 896e740..c7a4313 100644
--- a/CMakePasm/source/sym.cc
+++ b/CMakePasm/source/sym.cc
@@ -59,6 +59,7 @@ int compare_plus_minus_sym(const plus_minus_sym* a, const plus_minus_sym* b)
 {
     const int result = stricmp(a->file, b->file);
     if (result != 0) return result;
+    if (a->instance != b->instance) return a->instance - b->instance;
     return a->line - b->line;
 }
 
@@ -69,7 +70,7 @@ int plus_minus_sym_cmp_function(const void* a, const void* b)
 
 int compare_plus_minus_sym_value(const plus_minus_sym* a, const char* file, const int line)
 {
-    const plus_minus_sym b = { file, line, 0 };
+    const plus_minus_sym b = { file, line, 0, current_file_instance };
     return compare_plus_minus_sym(a, &b);
 }
 
@@ -335,7 +336,7 @@ int find_minus_symbol(const int depth, const char* file, const int line)
         if (minus_symbol_table[index].file == NULL)
             continue;
 
-        if (stricmp(file, minus_symbol_table[index].file) != 0)
+        if (stricmp(file, minus_symbol_table[index].file) != 0 || minus_symbol_table[index].instance != current_file_instance)
             continue;
 
         if (minus_symbol_table[index].line <= line)
@@ -347,7 +348,7 @@ int find_minus_symbol(const int depth, const char* file, const int line)
     {
         // not beyond the labels of this file
         found_index = found_index + 1 - depth;
-        if (found_index >= 0 && stricmp(file, minus_symbol_table[found_index].file) == 0)
+        if (found_index >= 0 && stricmp(file, minus_symbol_table[found_index].file) == 0 && minus_symbol_table[found_index].instance == current_file_instance)
             return found_index;
     }
     return -1;
@@ -359,7 +360,7 @@ int find_plus_symbol(const int depth, const char* file, const int line)
     int found_index = -1;
     for (int index = 0; index < plus_symbol_table_index; ++index)
     {
-        if (stricmp(file, plus_symbol_table[index].file) != 0)
+        if (stricmp(file, plus_symbol_table[index].file) != 0 || plus_symbol_table[index].instance != current_file_instance)
             continue;
 
         if (plus_symbol_table[index].line > line)
@@ -372,7 +373,7 @@ int find_plus_symbol(const int depth, const char* file, const int line)
     {
         // not beyond the labels of this file
         found_index = found_index -1 + depth;
-        if (found_index < plus_symbol_table_index && stricmp(file, plus_symbol_table[found_index].file) == 0)
+        if (found_index < plus_symbol_table_index && stricmp(file, plus_symbol_table[found_index].file) == 0 && plus_symbol_table[found_index].instance == current_file_instance)
             return found_index;
     }
     return -1;
@@ -406,6 +407,7 @@ void add_minus_symbol(const char* file, const int line, const int value)
     minus_symbol_table[minus_symbol_table_index].file = (char*)STRDUP(file);
     minus_symbol_table[minus_symbol_table_index].line = line;
     minus_symbol_table[minus_symbol_table_index].value = value;
+    minus_symbol_table[minus_symbol_table_index].instance = current_file_instance;
     ++minus_symbol_table_index;
 
     qsort(minus_symbol_table, minus_symbol_table_index, sizeof(plus_minus_sym), plus_minus_sym_cmp_function);
@@ -434,6 +436,7 @@ void add_plus_symbol(const char* file, const int line, const int value)
     plus_symbol_table[plus_symbol_table_index].file = (char*)STRDUP(file);
     plus_symbol_table[plus_symbol_table_index].line = line;
     plus_symbol_table[plus_symbol_table_index].value = value;
+    plus_symbol_table[plus_symbol_table_index].instance = current_file_instance;
     ++plus_symbol_table_index;
 
     qsort(plus_symbol_table, plus_symbol_table_index, sizeof(plus_minus_sym), plus_minus_sym_cmp_function);
diff --git a/CMakePasm/source/sym.h b/CMakePasm/source/sym.h
index aabb5a4..19cc5fb 100644
--- a/CMakePasm/source/sym.h
+++ b/CMakePasm/source/sym.h
@@ -10,6 +10,7 @@ typedef struct plus_minus_sym
     const char* file;
     int line;
     int value;
+    int instance;
 } plus_minus_symbol;
 
 typedef struct symbol_table
-- 
2.43.0


From fa85f4ccd0b755b85bd7382764358985cb4c299d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:41 +0000
Subject: [PATCH 61/80] fix: the listing takes files whose names differ in case
 for one

---
 CMakePasm/source/genlist.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/CMakePasm/source/genlist.cc b/CMakePasm/source/genlist.cc
index 06cd753..b18f891 100644
--- a/CMakePasm/source/genlist.cc
+++ b/CMakePasm/source/genlist.cc
@@ -27,7 +27,7 @@ file_line_node* get_file_line(char* file, const int line)
     file_entry* current_file_entry = source_file_list;
     file_entry* prev = nullptr;
 
-    for (; current_file_entry != nullptr && stricmp(current_file_entry->filename, file) != 0; current_file_entry = current_file_entry->next)
+    for (; current_file_entry != nullptr && strcmp(current_file_entry->filename, file) != 0; current_file_entry = current_file_entry->next)
         prev = current_file_entry;
 
     if (!current_file_entry)
@@ -47,7 +47,7 @@ file_line_node* get_file_line(char* file, const int line)
         if (source_file_list == nullptr)
             source_file_list = current_file_entry;
 
-        if (stricmp(current_file_entry->filename, file) == 0)
+        if (strcmp(current_file_entry->filename, file) == 0)
         {
             file_line_node* line_entry = current_file_entry->lines;
             for (; line_entry && line_entry->line_number < line; line_entry = line_entry->next)
@@ -106,7 +106,7 @@ void generate_list_file(FILE* list_file)
     // loop through all list  nodes
     for (; list_node; list_node = list_node->next)
     {
-        if (current_file_name == nullptr || stricmp(current_file_name, list_node->filename))
+        if (current_file_name == nullptr || strcmp(current_file_name, list_node->filename))
         {
 
 
@@ -129,7 +129,7 @@ void generate_list_file(FILE* list_file)
 
         const int start_line = list_node->line;
         int end_line = start_line;
-        if (list_node->next && stricmp(list_node->filename, list_node->next->filename) == 0 &&
+        if (list_node->next && strcmp(list_node->filename, list_node->next->filename) == 0 &&
             list_node->next->line > list_node->line)
             end_line = list_node->next->line - 1;
 
-- 
2.43.0


From 07c6dcdc5a6ef64a53d1bde8f32a753a51fcb6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:37 +0000
Subject: [PATCH 62/80] fix: the time to assemble grows with the square of the
 bytes written

---
 CMakePasm/source/genlist.cc | 13 +++++--------
 CMakePasm/source/node.cc    | 10 ----------
 2 files changed, 5 insertions(+), 18 deletions(-)

diff --git a/CMakePasm/source/genlist.cc b/CMakePasm/source/genlist.cc
index b18f891..32c83b2 100644
--- a/CMakePasm/source/genlist.cc
+++ b/CMakePasm/source/genlist.cc
@@ -20,6 +20,7 @@
 bool Debug_AddList = false;
 
 list_table_ptr list_head = nullptr;
+static list_table_ptr list_tail = nullptr;
 file_entry* source_file_list = nullptr;
 
 file_line_node* get_file_line(char* file, const int line)
@@ -74,6 +75,7 @@ void delete_list_table(void)
         list_node = next;
     }
     list_head = nullptr;
+    list_tail = nullptr;
 }
 
 void generate_list_file(FILE* list_file)
@@ -237,18 +239,13 @@ list_table_ptr add_list(const char* file, int line, const char* output)
         error(error_out_of_memory);
         exit(-1);
     }
-    list_table_ptr tmp_ptr = list_head;
 
     if (list_head == nullptr)
-    {
         list_head = var_ptr;
-        return var_ptr;
-    }
-
-    while (tmp_ptr->next != nullptr)
-        tmp_ptr = tmp_ptr->next;
+    else
+        list_tail->next = var_ptr;
 
-    tmp_ptr->next = var_ptr;
+    list_tail = var_ptr;
 
     return var_ptr;
 }
diff --git a/CMakePasm/source/node.cc b/CMakePasm/source/node.cc
index 741a5bc..bca14c5 100644
--- a/CMakePasm/source/node.cc
+++ b/CMakePasm/source/node.cc
@@ -1691,16 +1691,6 @@ int generate_list_node(const parse_node_ptr p)
             return 0;
         }
 
-        // see if we can append to last node
-        list_table_ptr current_list_ptr = list_head;
-        if (current_list_ptr)
-        {
-            while (current_list_ptr->next)
-            {
-                current_list_ptr = current_list_ptr->next;
-            }
-        }
-
         // output lo byte
         sprintf(current_ptr, " $%02X", lo);
         current_ptr += strlen(current_ptr);
-- 
2.43.0


From 272f5cdebad119fecb524fc6934d345adaa8c98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:37 +0000
Subject: [PATCH 63/80] fix: a division by a forward reference is refused as a
 division by zero

---
 CMakePasm/source/expand.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index bb466ce..0787214 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1972,7 +1972,9 @@ int expand_operator_divide_node(const parse_node_ptr p)
     const int divisor = expand_node(p->op[1]);
     if (divisor == 0)
     {
-        error(error_divide_by_zero);
+        // before the final pass the divisor may depend on unresolved forward references
+        if (final_pass)
+            error(error_divide_by_zero);
         return 0;
     }
     const int dividend = expand_node(p->op[0]);
-- 
2.43.0


From 0a85c8db52f2c9ba2b9a19d4e716bf28f9a50b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:37 +0000
Subject: [PATCH 64/80] fix: .fill and .ds refuse forward references that are
 negative while they are unknown

---
 CMakePasm/source/expand.cc | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 0787214..438259f 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -362,15 +362,20 @@ int expand_operator_fill_node(const parse_node_ptr p)
     const int byt = expand_node(p->op[0]);
     int count = expand_node(p->op[1]);
 
-    if (byt < 0 || byt > 255)
+    // before the final pass the values may depend on unresolved forward references
+    if (final_pass && (byt < 0 || byt > 255))
     {
         error(error_value_out_of_range);
         exit(-1);
     }
     if (count < 0)
     {
-        error(error_value_out_of_range);
-        exit(-1);
+        if (final_pass)
+        {
+            error(error_value_out_of_range);
+            exit(-1);
+        }
+        count = 0;
     }
     if (final_pass) 
     {
@@ -1773,10 +1778,15 @@ int expand_operator_ds_node(const parse_node_ptr p)
 {
     const int op = expand_node(p->op[0]);
     int count = op;
+    // before the final pass the value may depend on unresolved forward references
     if (count < 0)
     {
-        error(error_value_out_of_range);
-        exit(-1);
+        if (final_pass)
+        {
+            error(error_value_out_of_range);
+            exit(-1);
+        }
+        count = 0;
     }
     // more than the address space cannot be reserved
     if (count > max_address + 1)
-- 
2.43.0


From 72b7fb613331e1bd3dd7c7e351515a1653809fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:37 +0000
Subject: [PATCH 65/80] fix: register loops refuse forward references that are
 out of range while they are unknown

---
 CMakePasm/source/expand.cc | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 438259f..c2867ce 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -613,23 +613,32 @@ int expand_operator_for_reg_node(const parse_node_ptr p)
     }
 
     // get the start value
-    const int start = expand_node(p->op[0]);
+    int start = expand_node(p->op[0]);
 
     // range check
+    // before the final pass the value may depend on unresolved forward references
     if (start < 0 || start > 255)
     {
-        error(error_value_out_of_range);
-        return 0;
+        if (final_pass)
+        {
+            error(error_value_out_of_range);
+            return 0;
+        }
+        start &= 0xFF;
     }
 
     // get the end value
-    const int end = expand_node(p->op[1]);
+    int end = expand_node(p->op[1]);
 
     // range check
     if (end < 0 || end > 255)
     {
-        error(error_value_out_of_range);
-        return 0;
+        if (final_pass)
+        {
+            error(error_value_out_of_range);
+            return 0;
+        }
+        end &= 0xFF;
     }
 
     // get flag for increment / decrement
-- 
2.43.0


From 503a7a6126fcae816ea4b39140e56cca4896e99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:37 +0000
Subject: [PATCH 66/80] fix: a loop to a forward reference is refused as
 endless in the first pass

---
 CMakePasm/source/expand.cc | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index c2867ce..7e75fb3 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1569,11 +1569,14 @@ int expand_operator_macro_definition_node(const parse_node_ptr p)
     return 0;
 }
 
+// passes whose loops may go wrong for want of the values of later symbols
+const int max_unsettled_passes = 4;
 // iterations of loops since the program counter last moved, before and after an error
 const int max_idle_iterations = 1000000;
 const int max_idle_iterations_error = 1000;
 static int idle_iterations = 0;
 static int idle_program_counter = -1;
+static bool loop_abandoned = false;
 
 /// <summary>
 /// Forget the iterations of the previous pass
@@ -1582,6 +1585,7 @@ void reset_loop_check(void)
 {
     idle_iterations = 0;
     idle_program_counter = -1;
+    loop_abandoned = false;
 }
 
 /// <summary>
@@ -1595,7 +1599,16 @@ static bool is_endless_loop(void)
         idle_iterations = 0;
     }
     idle_iterations++;
-    return program_counter > max_address || idle_iterations > (error_count > 0 ? max_idle_iterations_error : max_idle_iterations);
+
+    const bool shorten = error_count > 0 || loop_abandoned;
+    if (program_counter <= max_address && idle_iterations <= (shorten ? max_idle_iterations_error : max_idle_iterations))
+        return false;
+
+    // in the first passes the end of the loop may depend on unresolved forward references
+    loop_abandoned = true;
+    if (final_pass || pass > max_unsettled_passes)
+        error(error_infinite_loop_detected);
+    return true;
 }
 
 /// <summary>
@@ -1610,10 +1623,7 @@ int expand_operator_while_node(const parse_node_ptr p)
         expand_node(p->op[1]);
 
         if (is_endless_loop())
-        {
-            error(error_infinite_loop_detected);
             return 0;
-        }
     }
     return 0;
 }
@@ -1630,10 +1640,7 @@ int expand_operator_repeat_node(const parse_node_ptr p)
         expand_node(p->op[0]);
 
         if (is_endless_loop())
-        {
-            error(error_infinite_loop_detected);
             return 0;
-        }
     } while (expand_node(p->op[1]) == 0);
     return 0;
 }
@@ -1649,10 +1656,7 @@ int expand_operator_do_node(const parse_node_ptr p)
     {
         expand_node(p->op[0]);
         if (is_endless_loop())
-        {
-            error(error_infinite_loop_detected);
             return 0;
-        }
     } while (expand_node(p->op[1]));
     return 0;
 }
@@ -1713,10 +1717,7 @@ int expand_operator_for_node(const parse_node_ptr p)
             expand_node(p->op[2]);
 
             if (is_endless_loop())
-            {
-                error(error_infinite_loop_detected);
                 return 0;
-            }
             set_symbol_value(sym, sym->value + step_val);
         } while (true);
     }
-- 
2.43.0


From c33ab655ed8deb013a31dc91154f2d8267ba1e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:22 +0000
Subject: [PATCH 67/80] fix: symbols in the operand of || and && that is not
 evaluated stayed unresolved

---
 CMakePasm/source/expand.cc | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 7e75fb3..3404685 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -2056,6 +2056,21 @@ int expand_operator_greater_than_node(const parse_node_ptr p)
     return expand_node(p->op[0]) > expand_node(p->op[1]);
 }
 
+/// <summary>
+/// Resolve the symbols of an operand that does not have to be evaluated
+/// </summary>
+/// <param name="p">The parse_node_ptr p.</param>
+static void resolve_symbols(const parse_node_ptr p)
+{
+    if (p->type == type_id || p->type == type_label)
+    {
+        expand_node(p);
+        return;
+    }
+    for (int index = 0; index < p->number_of_ops; index++)
+        resolve_symbols(p->op[index]);
+}
+
 /// <summary>
 /// Operator Or
 /// </summary>
@@ -2063,7 +2078,12 @@ int expand_operator_greater_than_node(const parse_node_ptr p)
 /// <returns>int.</returns>
 int expand_operator_or_node(const parse_node_ptr p)
 {
-    return expand_node(p->op[0]) || expand_node(p->op[1]);
+    if (expand_node(p->op[0]))
+    {
+        resolve_symbols(p->op[1]);
+        return 1;
+    }
+    return expand_node(p->op[1]) != 0;
 }
 
 /// <summary>
@@ -2073,7 +2093,12 @@ int expand_operator_or_node(const parse_node_ptr p)
 /// <returns>int.</returns>
 int expand_operator_and_node(const parse_node_ptr p)
 {
-    return expand_node(p->op[0]) && expand_node(p->op[1]);
+    if (!expand_node(p->op[0]))
+    {
+        resolve_symbols(p->op[1]);
+        return 0;
+    }
+    return expand_node(p->op[1]) != 0;
 }
 
 /// <summary>
-- 
2.43.0


From 40e59d9dae709aa4f047436ec5ade937767bcfe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:14 +0000
Subject: [PATCH 68/80] fix: say that a value given with -d is out of range

---
 CMakePasm/source/parseargs.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/CMakePasm/source/parseargs.cc b/CMakePasm/source/parseargs.cc
index acdcf51..88a0a25 100644
--- a/CMakePasm/source/parseargs.cc
+++ b/CMakePasm/source/parseargs.cc
@@ -337,6 +337,7 @@ int parse_arguments(const int argc, char* argv[])
             {
                 if (sym_val < 0 || sym_val > 0xFFFF || set_symbol_value(sym, (int)sym_val) == NULL)
                 {
+                    error(error_invalid_parameters);
                     usage();
                     exit(-1);
                 }
-- 
2.43.0


From fa9c91559cdc705906f29b14247bb69e2d44d1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:43 +0000
Subject: [PATCH 69/80] fix: widen a branch to a local label at address 0

---
 CMakePasm/source/expand.cc | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 3404685..4c91b2f 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -923,13 +923,7 @@ int expand_op_code_node(const parse_node_ptr p)
         for (int index = 0; index < p->number_of_ops; index++)
         {
             const parse_node_ptr pp = p->op[index];
-            int op_value = expand_node(pp);
-
-            // fix for local labels
-            const char ch = (pp->type == type_id) ? pp->id.name[0] : 0;
-            if (op_value == 0 && p->opcode.mode == r && p->number_of_ops == 1 && pp->type == type_id 
-                && (ch == '@' || ch == '-' || ch =='+') )
-                op_value = program_counter;
+            const int op_value = expand_node(pp);
 
             // ReSharper disable once CppRedundantParentheses
             large_op = large_op | ((op_value & ~0xFF) != 0);
-- 
2.43.0


From 806081b2607eab2bfdc05a240a15ad53fb1f7571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:29 +0000
Subject: [PATCH 70/80] fix: do not take a part of a qualified name for a
 conditional in skipped text

---
 CMakePasm/source/pasm.l | 1 +
 1 file changed, 1 insertion(+)

diff --git a/CMakePasm/source/pasm.l b/CMakePasm/source/pasm.l
index 6be3b4e..68a0ebf 100644
--- a/CMakePasm/source/pasm.l
+++ b/CMakePasm/source/pasm.l
@@ -231,6 +231,7 @@ SYMB                        @?[A-Za-z_][A-Za-z0-9_.]*
 <IF_DEF>[/][/][^\n]*        { /* ignore comments */ }
 <IF_DEF>"/*"([^*]|"*"+[^*/])*"*"+"/" { /* ignore comments */ }
 <IF_DEF>{STRVALUE}          { /* ignore strings */ }
+<IF_DEF>{SYMB}              { /* ignore symbols, a qualified name can hold .if */ }
 <IF_DEF>.|[\n]              { /* ignore ifdef false */ }
 ".ENDIF"                    {  
                                 P_TOK("ENDIF")
-- 
2.43.0


From 0ed01fb613e16c202fe89feb7bbee8dfa90a5c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:29 +0000
Subject: [PATCH 71/80] fix: do not take a character constant for a string in
 skipped text

---
 CMakePasm/source/pasm.l | 1 +
 1 file changed, 1 insertion(+)

diff --git a/CMakePasm/source/pasm.l b/CMakePasm/source/pasm.l
index 68a0ebf..fe500b8 100644
--- a/CMakePasm/source/pasm.l
+++ b/CMakePasm/source/pasm.l
@@ -230,6 +230,7 @@ SYMB                        @?[A-Za-z_][A-Za-z0-9_.]*
 <IF_DEF>;[^\n]*             { /* ignore comments */ }
 <IF_DEF>[/][/][^\n]*        { /* ignore comments */ }
 <IF_DEF>"/*"([^*]|"*"+[^*/])*"*"+"/" { /* ignore comments */ }
+<IF_DEF>[\'][\\]?.[\']     { /* ignore characters */ }
 <IF_DEF>{STRVALUE}          { /* ignore strings */ }
 <IF_DEF>{SYMB}              { /* ignore symbols, a qualified name can hold .if */ }
 <IF_DEF>.|[\n]              { /* ignore ifdef false */ }
-- 
2.43.0


From 96ea4b8b27fe62f9a76ee2ad8e740b09d27e9caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:29 +0000
Subject: [PATCH 72/80] fix: print a symbol whose name starts with on or off

---
 CMakePasm/source/pasm.l | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/CMakePasm/source/pasm.l b/CMakePasm/source/pasm.l
index fe500b8..3f07eb5 100644
--- a/CMakePasm/source/pasm.l
+++ b/CMakePasm/source/pasm.l
@@ -337,6 +337,13 @@ SYMB                        @?[A-Za-z_][A-Za-z0-9_.]*
 ".C64"                      {                       SV_TOK output_file_format = c64;                }
 ".PRINT"[ \t]+"ON"          {                       P_TOK("PRINTON") SV_TOK return PRINTON;         }
 ".PRINT"[ \t]+"OFF"         {                       P_TOK("PRINTOFF") SV_TOK return PRINTOFF;       }
+".PRINT"[ \t]+("ON"|"OFF")[A-Za-z0-9_.]+ {
+                                // the name of a symbol
+                                yyless(6);
+                                P_TOK("PRINT")
+                                SV_TOK
+                                return PRINT;
+                            }
 
 ".DEBUG_TOKEN"[ \t]"ON"     { P_TOK("DEBUGTOKEN ON")       SV_TOK Debug_Token = true;               }
 ".DEBUG_TOKEN"[ \t]"OFF"    { P_TOK("DEBUGTOKEN OFF")      SV_TOK Debug_Token = false;              }
-- 
2.43.0


From 78a47900603eef293b8e708fc98467ccff21e711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:29 +0000
Subject: [PATCH 73/80] fix: allow the program counter to be compared

---
 CMakePasm/source/pasm.l | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/CMakePasm/source/pasm.l b/CMakePasm/source/pasm.l
index 3f07eb5..a18beb2 100644
--- a/CMakePasm/source/pasm.l
+++ b/CMakePasm/source/pasm.l
@@ -395,6 +395,13 @@ $[0-9A-Fa-f]*               { SV_TOK INT(1, 16)}
 [\'][\\][0-7]{3}[\']        { SV_TOK INT(2, 8) }
 
 {STRVALUE}                  { P_TOK("STRING_LITERAL") SV_TOK yylval.strValue = (char*)STRDUP(yytext); return STRING_LITERAL; }
+"*"[ \t]*"=="               {
+                                // the program counter is compared
+                                yyless(1);
+                                P_C_TOK('*')
+                                SV_TOK
+                                return '*';
+                            }
 "*"[ \t]*[=]                { P_TOK("PCASSIGN") SV_TOK unput('='); return PCASSIGN; }
 "*"[ \t]*".EQU"             { P_TOK("PCASSIGN") SV_TOK unput('='); return PCASSIGN; }
 "X"                         { P_TOK("X") SV_TOK return 'X'; }
-- 
2.43.0


From 6ec038007fb80c983e7e8ff9a7967b76b06d4b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:50 +0000
Subject: [PATCH 74/80] fix: allow the program counter alone as the operand of
 an instruction

---
 CMakePasm/source/pasm.y | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/CMakePasm/source/pasm.y b/CMakePasm/source/pasm.y
index 2933f41..b4fab5d 100644
--- a/CMakePasm/source/pasm.y
+++ b/CMakePasm/source/pasm.y
@@ -183,6 +183,9 @@ opcode
     | OPCODE expr                       { B_TOK("opcode OPCODE expr")               $$ = opcode_node($1, a, 1, $2);     }
     | OPCODE expr ',' 'X'               { B_TOK("opcode OPCODE expr , X")           $$ = opcode_node($1, ax, 1, $2);    }
     | OPCODE expr ',' 'Y'               { B_TOK("opcode OPCODE expr , Y")           $$ = opcode_node($1, ay, 1, $2);    }
+    | OPCODE '*'                        { B_TOK("opcode OPCODE PC")               $$ = opcode_node($1, a, 1, constant_node(program_counter, true));  }
+    | OPCODE '*' ',' 'X'                { B_TOK("opcode OPCODE PC , X")           $$ = opcode_node($1, ax, 1, constant_node(program_counter, true));  }
+    | OPCODE '*' ',' 'Y'                { B_TOK("opcode OPCODE PC , Y")           $$ = opcode_node($1, ay, 1, constant_node(program_counter, true));  }
     | OPCODE '(' subexpr ')'            { B_TOK("opcode OPCODE ( subexpr )")        $$ = opcode_node($1, ind, 1, $3);   }
     | OPCODE '(' subexpr ',' 'X' ')'    { B_TOK("opcode OPCODE ( subexpr , X)")     $$ = opcode_node($1, aix, 1, $3);   }
     | OPCODE '(' subexpr ')' ',' 'Y'    { B_TOK("opcode OPCODE ( subexpr ) , Y")    $$ = opcode_node($1, izy, 1, $3);   }
-- 
2.43.0


From 2f64fb7107a2eef5f163a6f95d975754d2cd757d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:35 +0000
Subject: [PATCH 75/80] fix: look up the names in the body of a macro for each
 expansion

The names of a macro body kept the symbols found at the first call, so a
macro called in several sections used the symbols of the wrong section or
was refused with too many passes.
---
 CMakePasm/source/expand.cc | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 4c91b2f..653d941 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -534,6 +534,18 @@ int expand_plus_minus_node(const parse_node_ptr p)
     return sym->value;
 }
 
+// nest level of the macro bodies being expanded
+static int macro_body_level = 0;
+
+//
+// A local symbol, or any symbol in the body of a macro,
+// may be another one each time the node is expanded
+//
+static bool look_up_again(const parse_node_ptr p)
+{
+    return p->id.i == nullptr || p->id.name[0] == '@' || macro_body_level > 0;
+}
+
 //
 // symbol
 //
@@ -543,7 +555,7 @@ int expand_id_node(const parse_node_ptr p)
         return expand_plus_minus_node(p);
 
     symbol_table_ptr sym = p->id.i;
-    if (p->id.name[0] == '@')
+    if (look_up_again(p))
     {
         sym = add_symbol(p->id.name);
         p->id.i = sym;
@@ -574,7 +586,7 @@ int expand_label_node(const parse_node_ptr p)
         return expand_plus_minus_node(p);
 
     symbol_table_ptr symbol_ptr = p->id.i;
-    if (symbol_ptr == nullptr)
+    if (symbol_ptr == nullptr || macro_body_level > 0)
     {
         p->id.i = add_symbol(p->id.name);
         symbol_ptr = p->id.i;
@@ -1224,7 +1236,7 @@ int expand_operator_expression_list_node(const parse_node_ptr p)
             case type_id:
             case type_label:
                 symbol_ptr = pp->id.i;
-                if (symbol_ptr == nullptr)
+                if (symbol_ptr == nullptr || macro_body_level > 0)
                 {
                     pp->id.i = add_symbol(pp->id.name);
                     symbol_ptr = pp->id.i;
@@ -1525,8 +1537,10 @@ int expand_macro_expansion_node(const parse_node_ptr p)
     char* temp = last_label;
     last_label = macro_scope_name(p->macro.name, 4, macro_dict_entry->times_executed);
 
+    macro_body_level++;
     if (p->macro.macro != nullptr)
         expand_node(static_cast<parse_node_ptr>(p->macro.macro));
+    macro_body_level--;
 
     macro_dict_entry->times_executed++;
 
@@ -1671,7 +1685,7 @@ int expand_operator_for_node(const parse_node_ptr p)
     const parse_node_ptr pp = p->op[0];
     if (pp->op[0]->type == type_id)
     {
-        if (pp->op[0]->id.i == nullptr)
+        if (look_up_again(pp->op[0]))
             pp->op[0]->id.i = add_symbol(pp->op[0]->id.name);
         start_sym = pp->op[0]->id.i;
         if (start_sym == nullptr)
@@ -1682,7 +1696,7 @@ int expand_operator_for_node(const parse_node_ptr p)
     }
 
     expand_node(p->op[0]);
-    if (p->op[3]->id.i == nullptr)
+    if (look_up_again(p->op[3]))
         p->op[3]->id.i = add_symbol(p->op[3]->id.name);
 
     const symbol_table_ptr sym = p->op[3]->id.i;
@@ -1886,7 +1900,7 @@ int expand_operator_equ_node(const parse_node_ptr p)
         return op;
     }
 
-    if (p->op[0]->id.i == nullptr || p->op[0]->id.name[0] == '@')
+    if (look_up_again(p->op[0]))
         p->op[0]->id.i = add_symbol(p->op[0]->id.name);
     symbol_table_ptr sym = p->op[0]->id.i;
     if (sym == nullptr)
-- 
2.43.0


From 6bdec7cb4f8f1ecfbfa08793f490b3c78204712c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:13 +0000
Subject: [PATCH 76/80] fix: search the directories of -dir also without a
 separator at their end

The name of the file was put directly behind the name of the directory, so
-dir include did not find include/macros.asm.
---
 CMakePasm/source/file.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/CMakePasm/source/file.cc b/CMakePasm/source/file.cc
index 7d27904..3daa5e0 100644
--- a/CMakePasm/source/file.cc
+++ b/CMakePasm/source/file.cc
@@ -53,6 +53,9 @@ void open_file_stream(std::ofstream& file, const char* filename, const std::ios:
             error2(error_path_name_too_long, path);
             exit(-1);  // NOLINT(concurrency-mt-unsafe)
         }
+        // the separator behind the name of a directory may be left out
+        if (len > 0 && path[len - 1] != '/' && path[len - 1] != '\\')
+            strcat(path, "/");
         strcat(path, filename);
         file.open(path, mode);
         if (file.is_open())
@@ -99,6 +102,9 @@ FILE* open_file(const char* file, const char* mode)
             error2(error_path_name_too_long, path);
             exit(-1);  // NOLINT(concurrency-mt-unsafe)
         }
+        // the separator behind the name of a directory may be left out
+        if (len > 0 && path[len - 1] != '/' && path[len - 1] != '\\')
+            strcat(path, "/");
         strcat(path, file);
         fd = fopen(path, mode);
         if (fd != NULL)
-- 
2.43.0


From 506d1f0c4877061ead33ce59f65499f20493046c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:50:34 +0000
Subject: [PATCH 77/80] fix: refuse -d values that are not numbers

---
 CMakePasm/source/parseargs.cc | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/CMakePasm/source/parseargs.cc b/CMakePasm/source/parseargs.cc
index 88a0a25..7baee6e 100644
--- a/CMakePasm/source/parseargs.cc
+++ b/CMakePasm/source/parseargs.cc
@@ -302,40 +302,43 @@ int parse_arguments(const int argc, char* argv[])
             const char* val = argv[arg_index];
 
             long long sym_val = 0;
+            const char* digits = val;
+            char* end = NULL;
 
             if (val[0] == '$')
             {
-                sym_val = strtoll(val + 1, NULL, 16);
+                sym_val = strtoll(digits = val + 1, &end, 16);
             }
             else if (val[0] == '%')
             {
-                sym_val = strtoll(val + 1, NULL, 2);
+                sym_val = strtoll(digits = val + 1, &end, 2);
             }
             else if (strlen(val) > 2)
             {
                 if (val[0] == '0' && val[1] == 'x')
                 {
-                    sym_val = strtoll(val + 2, NULL, 16);
+                    sym_val = strtoll(digits = val + 2, &end, 16);
                 }
                 else if (val[0] == '0' && val[1] == 'b')
                 {
-                    sym_val = strtoll(val + 2, NULL, 2);
+                    sym_val = strtoll(digits = val + 2, &end, 2);
                 }
                 else
                 {
-                    sym_val = strtoll(val, NULL, 10);
+                    sym_val = strtoll(val, &end, 10);
                 }
             }
             else
             {
-                sym_val = strtoll(val, NULL, 10);
+                sym_val = strtoll(val, &end, 10);
             }
 
             // ReSharper disable once CppLocalVariableMayBeConst
             symbol_table_ptr sym = add_symbol(sym_name);
             if (sym != NULL)
             {
-                if (sym_val < 0 || sym_val > 0xFFFF || set_symbol_value(sym, (int)sym_val) == NULL)
+                // the whole text must be a number
+                if (end == digits || *end != 0 || sym_val < 0 || sym_val > 0xFFFF || set_symbol_value(sym, (int)sym_val) == NULL)
                 {
                     error(error_invalid_parameters);
                     usage();
-- 
2.43.0


From 9ed4458be0f52d7fbc473eb46cd8f40de7e18945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:57:11 +0000
Subject: [PATCH 78/80] fix: local labels behind labels of the same name in
 different sections

---
 CMakePasm/source/node.cc | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/CMakePasm/source/node.cc b/CMakePasm/source/node.cc
index bca14c5..6c87852 100644
--- a/CMakePasm/source/node.cc
+++ b/CMakePasm/source/node.cc
@@ -185,6 +185,34 @@ parse_node_ptr id_node(const char* name)
     return id_node_common(name, type_id);
 }
 
+/// <summary>
+/// Name of the scope of the local labels behind a label, labels of the same name
+/// in other sections have other scopes.
+/// </summary>
+/// <param name="name">The name of the label.</param>
+/// <returns>name of the scope</returns>
+static char* label_scope_name(char* name)
+{
+    if (current_scope == nullptr)
+        return name;
+
+    const size_t len = strlen(current_scope) + strlen(name) + 2;
+    char* scope = static_cast<char*>(MALLOC(len));
+    if (scope == nullptr)
+    {
+        error(error_out_of_memory);
+        exit(-1);  // NOLINT(concurrency-mt-unsafe)
+    }
+    snprintf(scope, len, "%s:%s", current_scope, name);
+    for (char* ptr = scope; *ptr; ++ptr)
+    {
+        // a dot would make it a qualified name
+        if (*ptr == '.')
+            *ptr = ':';
+    }
+    return scope;
+}
+
 /// <summary>
 /// Identifier specified name.
 /// </summary>
@@ -193,7 +221,7 @@ parse_node_ptr id_node(const char* name)
 parse_node_ptr label_node(char* name)
 {
     if (name[0] != '@' && name[0] != '-' && name[0] != '+')
-        last_label = name;
+        last_label = label_scope_name(name);
     else if (last_label != nullptr && name[0] == '@' && in_macro_definition == 0)
     {
         return id_node_common(format_local_sym(name, last_label), type_label);
-- 
2.43.0


From 0cf8fefe6927962c841032d799085fcc70d19e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:42 +0000
Subject: [PATCH 79/80] fix: a failing write to the log file is an error

---
 CMakePasm/source/error.cc | 1 +
 CMakePasm/source/error.h  | 1 +
 CMakePasm/source/pass.cc  | 7 +++++++
 3 files changed, 9 insertions(+)

diff --git a/CMakePasm/source/error.cc b/CMakePasm/source/error.cc
index d547198..a3ee07c 100644
--- a/CMakePasm/source/error.cc
+++ b/CMakePasm/source/error.cc
@@ -70,6 +70,7 @@ const char* errors[] =
     "Error writing to symbol file.",
     "Error writing to list file.",
     "Macro calls or sections nested too deep.",
+    "Error writing to log file.",
 };
 
 /**
diff --git a/CMakePasm/source/error.h b/CMakePasm/source/error.h
index 1c6cf57..5cdca7e 100644
--- a/CMakePasm/source/error.h
+++ b/CMakePasm/source/error.h
@@ -62,5 +62,6 @@ enum
     error_writing_symbol_file,
     error_writing_list_file,
     error_nested_too_deep,
+    error_writing_log_file,
     error_max
 };
diff --git a/CMakePasm/source/pass.cc b/CMakePasm/source/pass.cc
index aa97b0a..d96ed87 100644
--- a/CMakePasm/source/pass.cc
+++ b/CMakePasm/source/pass.cc
@@ -330,6 +330,13 @@ int assemble(void)
 
     delete_list_table();
 
+    if (log_file.is_open())
+    {
+        log_file.close();
+        if (!log_file)
+            error(error_writing_log_file);
+    }
+
     // errors that only the final pass can see (value out of range, divide by zero, ...)
     if (error_count > 0)
     {
-- 
2.43.0


From ea066d874e57c3af97dfbcae3ec4fa3cd685e72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:05:41 +0000
Subject: [PATCH 80/80] fix: a symbol first used in a late pass is in the
 symbol file

---
 CMakePasm/source/expand.cc | 2 ++
 CMakePasm/source/sym.cc    | 2 +-
 CMakePasm/source/sym.h     | 1 +
 3 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 653d941..ff79aec 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -574,6 +574,8 @@ int expand_id_node(const parse_node_ptr p)
     {
         yyerror("Undefined symbol.");
     }
+    if (final_pass)
+        sym->is_used = true;
     return sym->is_initialized ? sym->value : 0;
 }
 
diff --git a/CMakePasm/source/sym.cc b/CMakePasm/source/sym.cc
index c7a4313..4c271aa 100644
--- a/CMakePasm/source/sym.cc
+++ b/CMakePasm/source/sym.cc
@@ -675,7 +675,7 @@ void dump_symbols(FILE* file)
             const auto sym = static_cast<symbol_table_ptr>(element->value);
             if (sym->is_var == false && sym->is_macro_param == false && 
                 sym->is_macro_name == false && sym->is_plus_minus == false && sym->is_local == false &&
-                pass * 2 <= sym->times_accessed && is_local_sym(sym->name) == false)
+                (sym->is_used || pass * 2 <= sym->times_accessed) && is_local_sym(sym->name) == false)
             {
                 current_entry->name = static_cast<char*>(element->key);
                 current_entry->value = sym->value;
diff --git a/CMakePasm/source/sym.h b/CMakePasm/source/sym.h
index 19cc5fb..d6c1eed 100644
--- a/CMakePasm/source/sym.h
+++ b/CMakePasm/source/sym.h
@@ -17,6 +17,7 @@ typedef struct symbol_table
 {
     int value;
     int times_accessed;
+    bool is_used;
     bool is_initialized;
     bool is_macro_name;
     bool is_macro_param;
-- 
2.43.0

