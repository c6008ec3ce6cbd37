From 53a80452a41b3756c606f0c891f23b9c1e12dca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:05 +0000
Subject: [PATCH 01/65] fix: restore the buffer a discarded resolvent was built
 in

The hyperresolution partial clause is built in hyper_termbuf, but the double cut
simplification switches build_buffer to queue_termbuf. When the simplified clause
was then discarded as overweight, the position taken from hyper_termbuf was stored
into queue_termbuf, so clauses already waiting in the queues were overwritten.
---
 Reasoner/derive.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Reasoner/derive.c b/Reasoner/derive.c
index 503af69..e44e4eb 100644
--- a/Reasoner/derive.c
+++ b/Reasoner/derive.c
@@ -100,6 +100,7 @@ void wr_process_resolve_result
   gint resmeta,history, hash;
   int ruleflag;
   gint initial_queue_termbuf_next=0;
+  cvec initial_buffer=NULL; // the buffer the initial next-to-take above belongs to
   int weight;
   double avg;
   gint cl_metablock[CLMETABLOCK_ELS];
@@ -255,6 +256,7 @@ void wr_process_resolve_result
     initial_queue_termbuf_next=CVEC_NEXT(g->build_buffer); // to be restored if not actually used
   }  
 
+  initial_buffer=g->build_buffer; // double cut below may switch g->build_buffer
   history=wr_build_resolve_history(g,xcl_as_active,ycl,cutpos1,cutpos2,g->cut_clvec);
   res=wr_derived_build_cl_from_initial_cl(g,rptr,rpos,ruleflag,history);
 
@@ -358,7 +360,7 @@ void wr_process_resolve_result
     //printf(" weight %d average %f count %d \n",weight,(g->avg_kept_weight),(g->stat_kept_cl));
     if (!wr_derived_weight_check(g,avg,weight,size,depth,length,xatomnr,yatomnr)) {
       (g->stat_weight_discarded_cl)++;
-      CVEC_NEXT(g->build_buffer)=initial_queue_termbuf_next; // initial next-to-take restored
+      CVEC_NEXT(initial_buffer)=initial_queue_termbuf_next; // initial next-to-take restored
       if (g->print_derived_cl) wr_printf("\nw discarded overweight");
       return;
     }
-- 
2.43.0


From bae9eea6323ea3776997576e7bfcbc298fd9a768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:46 +0000
Subject: [PATCH 02/65] fix: comma after the rule part of merge and inst steps
 in json proofs

---
 Reasoner/history.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Reasoner/history.c b/Reasoner/history.c
index 28ebc46..614cb48 100644
--- a/Reasoner/history.c
+++ b/Reasoner/history.c
@@ -2159,7 +2159,8 @@ int wr_strprint_one_history
       bpos=wr_strprint_history_extra(g,buf,blen,bpos,history);
       if (bpos<0) return bpos;
     } else {
-      bpos+=snprintf((*buf)+bpos,(*blen)-bpos,"] ");  
+      if (g->print_json) bpos+=snprintf((*buf)+bpos,(*blen)-bpos,"], ");
+      else bpos+=snprintf((*buf)+bpos,(*blen)-bpos,"] ");
     } 
     bpos=wr_strprint_clause(g,cl,buf,blen,bpos);        
     if (bpos<0) return bpos;
@@ -2198,7 +2199,8 @@ int wr_strprint_one_history
       bpos=wr_strprint_history_extra(g,buf,blen,bpos,history);
       if (bpos<0) return bpos;
     } else {
-      bpos+=snprintf((*buf)+bpos,(*blen)-bpos,"] ");  
+      if (g->print_json) bpos+=snprintf((*buf)+bpos,(*blen)-bpos,"], ");
+      else bpos+=snprintf((*buf)+bpos,(*blen)-bpos,"] ");
     } 
     bpos=wr_strprint_clause(g,cl,buf,blen,bpos);        
     if (bpos<0) return bpos;
-- 
2.43.0


From fa277b13bd608b3a9911c5c27f1e35e4f7dd203d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:09 +0000
Subject: [PATCH 03/65] fix: keep the lasting copy of a simplified two-literal
 clause in the double cut hash

---
 Reasoner/rgenloop.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Reasoner/rgenloop.c b/Reasoner/rgenloop.c
index 858e380..8286881 100644
--- a/Reasoner/rgenloop.c
+++ b/Reasoner/rgenloop.c
@@ -452,7 +452,7 @@ int wr_genloop(glb* g) {
       continue; 
     }    
     if (simplen!=origlen && simplen==2) {
-      wr_add_cl_to_doublehash(g,given_cl);
+      wr_add_cl_to_doublehash(g,given_cl_cand);
     }  
      
     // do factorizations with the given clause
-- 
2.43.0


From 6c2ccadf306bbd037c700e4c843265b5ef089e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:07 +0000
Subject: [PATCH 04/65] fix: closing parenthesis of unnamed input steps in tptp
 proofs

---
 Reasoner/history.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Reasoner/history.c b/Reasoner/history.c
index 614cb48..cbf03bd 100644
--- a/Reasoner/history.c
+++ b/Reasoner/history.c
@@ -1912,6 +1912,8 @@ int wr_strprint_one_history
       bpos+=snprintf((*buf)+bpos,(*blen)-bpos,"plain, ");
       bpos=wr_strprint_clause(g,cl,buf,blen,bpos);  
       if (bpos<0) return bpos;
+      if (!wr_str_guarantee_space(g,buf,blen,bpos+100)) return -1;
+      bpos+=snprintf((*buf)+bpos,(*blen)-bpos,")");
     } else if (name && wg_get_encoded_type(db,name)==WG_INTTYPE) {
       if (!(g->print_proof_tptp)) {
         bpos+=snprintf((*buf)+bpos,(*blen)-bpos,",%d",(int)(wg_decode_int(db,name)));
-- 
2.43.0


From 251fb663b6e7c71cac84bd097755e4b94eb0fb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:52 +0000
Subject: [PATCH 05/65] fix: quoted strings longer than 1023 chars overflowed
 the lexer buffer

---
 Builtparser/dbotter.yy.c | 52 +++++++++++++++++++++++++++-------------
 Parser/dbotter.l         | 52 +++++++++++++++++++++++++++-------------
 2 files changed, 72 insertions(+), 32 deletions(-)

diff --git a/Builtparser/dbotter.yy.c b/Builtparser/dbotter.yy.c
index b69708c..1dd2332 100644
--- a/Builtparser/dbotter.yy.c
+++ b/Builtparser/dbotter.yy.c
@@ -834,8 +834,28 @@ lex_parsestr(const char *s)
 /* static: dbprolog.l used to declare identical copies, which linked only via
    pre-gcc-10 common-symbol merging; keep these lexer-local */
 static char linebuf[1024];
-static char elmparsestrbuf[1024];
-static char *s;
+static char *elmparsestrbuf=NULL;  // grows as needed, see addstrch
+static size_t elmparsestrsize=0;
+static size_t elmparsestrpos=0;
+
+// append one char to elmparsestrbuf: a quoted string may have any length
+
+static void addstrch(char c) {
+  char* tmp;
+  size_t newsize;
+
+  if (elmparsestrpos>=elmparsestrsize) {
+    newsize=elmparsestrsize ? 2*elmparsestrsize : 1024;
+    tmp=realloc(elmparsestrbuf,newsize);
+    if (!tmp) {
+      printf("{\"error\": \"cannot allocate memory for a quoted string\"}\n");
+      exit(1);
+    }
+    elmparsestrbuf=tmp;
+    elmparsestrsize=newsize;
+  }
+  elmparsestrbuf[elmparsestrpos++]=c;
+}
 
 #line 841 "Parser/dbotter.yy.c"
 #define YY_NO_INPUT 1
@@ -1329,27 +1349,27 @@ YY_RULE_SETUP
 case 16:
 YY_RULE_SETUP
 #line 218 "Parser/dbotter.l"
-{ BEGIN STRSTATE; s = elmparsestrbuf; } 
+{ BEGIN STRSTATE; elmparsestrpos = 0; } 
 	YY_BREAK
 case 17:
 YY_RULE_SETUP
 #line 219 "Parser/dbotter.l"
-{ *s++ = '\n'; } 
+{ addstrch('\n'); } 
 	YY_BREAK
 case 18:
 YY_RULE_SETUP
 #line 220 "Parser/dbotter.l"
-{ *s++ = '\t'; } 
+{ addstrch('\t'); } 
 	YY_BREAK
 case 19:
 YY_RULE_SETUP
 #line 221 "Parser/dbotter.l"
-{ *s++ = '\"'; } 
+{ addstrch('\"'); } 
 	YY_BREAK
 case 20:
 YY_RULE_SETUP
 #line 222 "Parser/dbotter.l"
-{ *s = 0; BEGIN 0; 
+{ addstrch(0); BEGIN 0; 
                   parseprintf("found '%s'\n", elmparsestrbuf); 
 		              *yylval=elmparsestrbuf;
 		              return UNIQUEURI;
@@ -1359,7 +1379,7 @@ case 21:
 /* rule 21 can match eol */
 YY_RULE_SETUP
 #line 227 "Parser/dbotter.l"
-{ *s++ = '\n'; 
+{ addstrch('\n'); 
                  /* parseprintf("elm parser error: invalid string (newline in string)"); 
                     exit(1); 
 		             */   
@@ -1368,32 +1388,32 @@ YY_RULE_SETUP
 case 22:
 YY_RULE_SETUP
 #line 232 "Parser/dbotter.l"
-{ *s++ = *yytext; }
+{ addstrch(*yytext); }
 	YY_BREAK
 case 23:
 YY_RULE_SETUP
 #line 235 "Parser/dbotter.l"
-{ BEGIN QUOTESTATE; s = elmparsestrbuf; } /* *s++ = '#';}  */
+{ BEGIN QUOTESTATE; elmparsestrpos = 0; } /* addstrch('#');}  */
 	YY_BREAK
 case 24:
 YY_RULE_SETUP
 #line 236 "Parser/dbotter.l"
-{ *s++ = '\n'; } 
+{ addstrch('\n'); } 
 	YY_BREAK
 case 25:
 YY_RULE_SETUP
 #line 237 "Parser/dbotter.l"
-{ *s++ = '\t'; } 
+{ addstrch('\t'); } 
 	YY_BREAK
 case 26:
 YY_RULE_SETUP
 #line 238 "Parser/dbotter.l"
-{ *s++ = '\''; } 
+{ addstrch('\''); } 
 	YY_BREAK
 case 27:
 YY_RULE_SETUP
 #line 239 "Parser/dbotter.l"
-{ *s = 0; BEGIN 0; 
+{ addstrch(0); BEGIN 0; 
                   parseprintf("found '%s'\n", elmparsestrbuf); 
 		              *yylval=elmparsestrbuf;
 		              return CONSTURI;
@@ -1403,7 +1423,7 @@ case 28:
 /* rule 28 can match eol */
 YY_RULE_SETUP
 #line 244 "Parser/dbotter.l"
-{ *s++ = '\n'; 
+{ addstrch('\n'); 
                  /* parseprintf("elm parser error: invalid string (newline in quote)"); 
                     exit(1); 
 		             */   
@@ -1412,7 +1432,7 @@ YY_RULE_SETUP
 case 29:
 YY_RULE_SETUP
 #line 249 "Parser/dbotter.l"
-{ *s++ = *yytext; }
+{ addstrch(*yytext); }
 	YY_BREAK
 case 30:
 YY_RULE_SETUP
diff --git a/Parser/dbotter.l b/Parser/dbotter.l
index e78046b..f0d6737 100644
--- a/Parser/dbotter.l
+++ b/Parser/dbotter.l
@@ -97,8 +97,28 @@ lex_parsestr(const char *s)
 /* static: dbprolog.l used to declare identical copies, which linked only via
    pre-gcc-10 common-symbol merging; keep these lexer-local */
 static char linebuf[1024];
-static char elmparsestrbuf[1024];
-static char *s;
+static char *elmparsestrbuf=NULL;  // grows as needed, see addstrch
+static size_t elmparsestrsize=0;
+static size_t elmparsestrpos=0;
+
+// append one char to elmparsestrbuf: a quoted string may have any length
+
+static void addstrch(char c) {
+  char* tmp;
+  size_t newsize;
+
+  if (elmparsestrpos>=elmparsestrsize) {
+    newsize=elmparsestrsize ? 2*elmparsestrsize : 1024;
+    tmp=realloc(elmparsestrbuf,newsize);
+    if (!tmp) {
+      printf("{\"error\": \"cannot allocate memory for a quoted string\"}\n");
+      exit(1);
+    }
+    elmparsestrbuf=tmp;
+    elmparsestrsize=newsize;
+  }
+  elmparsestrbuf[elmparsestrpos++]=c;
+}
 
 %}
 
@@ -215,38 +235,38 @@ ID       [a-zA-Z\x80-\xff][a-zA-Z0-9_:+\-*/<>\x80-\xff]*
               return TIME; 
 	    }  	    
 
-\"              { BEGIN STRSTATE; s = elmparsestrbuf; } 
-<STRSTATE>\\n   { *s++ = '\n'; } 
-<STRSTATE>\\t   { *s++ = '\t'; } 
-<STRSTATE>\\\"  { *s++ = '\"'; } 
-<STRSTATE>\"    { *s = 0; BEGIN 0; 
+\"              { BEGIN STRSTATE; elmparsestrpos = 0; } 
+<STRSTATE>\\n   { addstrch('\n'); } 
+<STRSTATE>\\t   { addstrch('\t'); } 
+<STRSTATE>\\\"  { addstrch('\"'); } 
+<STRSTATE>\"    { addstrch(0); BEGIN 0; 
                   parseprintf("found '%s'\n", elmparsestrbuf); 
 		              *yylval=elmparsestrbuf;
 		              return UNIQUEURI;
                 } 
-<STRSTATE>\n    { *s++ = '\n'; 
+<STRSTATE>\n    { addstrch('\n'); 
                  /* parseprintf("elm parser error: invalid string (newline in string)"); 
                     exit(1); 
 		             */   
 	        } 
-<STRSTATE>.     { *s++ = *yytext; }
+<STRSTATE>.     { addstrch(*yytext); }
 
 
-\'              { BEGIN QUOTESTATE; s = elmparsestrbuf; } /* *s++ = '#';}  */
-<QUOTESTATE>\\n   { *s++ = '\n'; } 
-<QUOTESTATE>\\t   { *s++ = '\t'; } 
-<QUOTESTATE>\\\'  { *s++ = '\''; } 
-<QUOTESTATE>\'    { *s = 0; BEGIN 0; 
+\'              { BEGIN QUOTESTATE; elmparsestrpos = 0; } /* addstrch('#');}  */
+<QUOTESTATE>\\n   { addstrch('\n'); } 
+<QUOTESTATE>\\t   { addstrch('\t'); } 
+<QUOTESTATE>\\\'  { addstrch('\''); } 
+<QUOTESTATE>\'    { addstrch(0); BEGIN 0; 
                   parseprintf("found '%s'\n", elmparsestrbuf); 
 		              *yylval=elmparsestrbuf;
 		              return CONSTURI;
                 } 
-<QUOTESTATE>\n    { *s++ = '\n'; 
+<QUOTESTATE>\n    { addstrch('\n'); 
                  /* parseprintf("elm parser error: invalid string (newline in quote)"); 
                     exit(1); 
 		             */   
 	        } 
-<QUOTESTATE>.     { *s++ = *yytext; }
+<QUOTESTATE>.     { addstrch(*yytext); }
 
 
 "/*"         BEGIN(COMMENT);  
-- 
2.43.0


From a9b2408a85ac74ee1a9533f6d47968b72392d92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:26 +0000
Subject: [PATCH 06/65] fix: factor equations that unify with their sides
 swapped

---
 Reasoner/resolve.c | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/Reasoner/resolve.c b/Reasoner/resolve.c
index 2533c05..21f24a5 100644
--- a/Reasoner/resolve.c
+++ b/Reasoner/resolve.c
@@ -397,6 +397,7 @@ void wr_factor(glb* g, gptr cl, gptr cl_as_active) {
   gint yatom;
   gptr xcl;
   int ures;  
+  gptr xptr,yptr;
 
 #ifdef DEBUG
   wr_printf("\n!!! wr_factor called for clause ");
@@ -451,6 +452,28 @@ void wr_factor(glb* g, gptr cl, gptr cl_as_active) {
           }  
         }      
         wr_clear_varstack(g,g->varstack);             
+        // an equation has no direction: try to unify the sides crosswise as well
+        if (wr_equality_atom(g,xatom) && wr_equality_atom(g,yatom)) {
+          xptr=rotp(g,xatom);
+          yptr=rotp(g,yatom);
+          if (get_record_len(xptr)>=(g->unify_firstuseterm)+3 &&
+              get_record_len(yptr)>=(g->unify_firstuseterm)+3) {
+            ures=wr_unify_term(g,xptr[RECORD_HEADER_GINTS+(g->unify_funarg1pos)],
+                                 yptr[RECORD_HEADER_GINTS+(g->unify_funarg2pos)],1);
+            if (ures) {
+              ures=wr_unify_term(g,xptr[RECORD_HEADER_GINTS+(g->unify_funarg2pos)],
+                                   yptr[RECORD_HEADER_GINTS+(g->unify_funarg1pos)],1);
+            }
+            if (ures) {
+              wr_process_factor_result(g,xcl,len,i,xatom,j,yatom,cl_as_active);
+              if (g->proof_found || g->alloc_err) {
+                wr_clear_varstack(g,g->varstack); 
+                if (wr_enough_answers(g) || g->alloc_err) return;                      
+              }  
+            }
+            wr_clear_varstack(g,g->varstack);             
+          }
+        }
       }     
     }  
   }      
-- 
2.43.0


From a534a63bd0895fb48191596a1844e6d04a099622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:25 +0000
Subject: [PATCH 07/65] fix: registering a second proof without an answer
 dereferenced a null clause

---
 Reasoner/history.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Reasoner/history.c b/Reasoner/history.c
index cbf03bd..e0f55cc 100644
--- a/Reasoner/history.c
+++ b/Reasoner/history.c
@@ -2552,6 +2552,8 @@ int wr_same_answers(glb* g, gptr cl1, gptr cl2, int uniquestrflag) {
   wg_print_record(db,cl2);
   wr_printf("\n");
 #endif
+  // a proof without an answer is registered with a NULL clause
+  if (cl1==NULL || cl2==NULL) return (cl1==cl2);
   // check fact clause cases first
   if (!wg_rec_is_rule_clause(db,cl1)) {
     if (!wg_rec_is_rule_clause(db,cl2)) {
-- 
2.43.0


From 17c8bd04bce9bb9bc26026148d10660494c08667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:56 +0000
Subject: [PATCH 08/65] fix: fewer answers than asked for printed a second
 result, proof not found

---
 Reasoner/rmain.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Reasoner/rmain.c b/Reasoner/rmain.c
index 23f4c0e..1ad299c 100644
--- a/Reasoner/rmain.c
+++ b/Reasoner/rmain.c
@@ -841,6 +841,7 @@ int wg_run_reasoner(void *db, char* inputname, char* stratfile, int informat,
     } else if (res==1) {
       if (wr_have_answers(g)) {
         wr_show_result(g,g->proof_history);
+        res=0; // fewer answers than asked for are a result as well
       } else {
         if ((g->print_level_flag)>11) {  
           if (maxforks) {        
-- 
2.43.0


From 351b95d63629698204d9a80a9ec0d006641ccad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:30 +0000
Subject: [PATCH 09/65] fix: each tptp proof of several answers ends with its
 own SZS output end line

---
 Reasoner/history.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/Reasoner/history.c b/Reasoner/history.c
index e0f55cc..69c8fc9 100644
--- a/Reasoner/history.c
+++ b/Reasoner/history.c
@@ -1456,7 +1456,7 @@ int wr_show_result(glb* g, gint history) {
     }  
     assoc=wg_reverselist(db,mpool,assoc); 
     if (!(g->print_json)) {
-      if (!wr_str_guarantee_space(g,&buf,&blen,bpos+100)) return -1;
+      if (!wr_str_guarantee_space(g,&buf,&blen,bpos+100+strlen(g->filename))) return -1;
 #ifdef TPTP  
       if (!(g->print_tptp)) {
         bpos+=snprintf(buf+bpos,blen-bpos,"proof:");
@@ -1508,6 +1508,18 @@ int wr_show_result(glb* g, gint history) {
       }  
     } else {
       bpos+=snprintf(buf+bpos,blen-bpos,"\n");
+#ifdef TPTP
+      if ((g->print_tptp) && ansnr+2<((g->answers)[1])) {
+        // end this proof, more coming
+        if (!wr_str_guarantee_space(g,&buf,&blen,bpos+100+strlen(g->filename))) {
+          if (buf) wr_free(g,buf);
+          if (mpool) wg_free_mpool(db,mpool);
+          return -1;
+        }
+        bpos+=snprintf(buf+bpos,blen-bpos,
+          "\n%% SZS output end CNFRefutation for %s\n",g->filename);
+      }
+#endif
     }
 
     if (mpool) wg_free_mpool(db,mpool); 
@@ -1522,6 +1534,10 @@ int wr_show_result(glb* g, gint history) {
     if (!(g->print_tptp)) {
       //bpos+=snprintf(buf+bpos,blen-bpos,"\n");
     } else {
+      if (!wr_str_guarantee_space(g,&buf,&blen,bpos+100+strlen(g->filename))) {
+        if (buf) wr_free(g,buf);
+        return -1;
+      }
       bpos+=snprintf(buf+bpos,blen-bpos,
         "\n%% SZS output end CNFRefutation for %s\n",g->filename);
     }    
-- 
2.43.0


From 13515e58f3b0af30379efbe56789f954ca08d020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:19 +0000
Subject: [PATCH 10/65] fix: an empty string in JSON input is a string, not a
 null pointer

---
 Db/dbmpool.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/Db/dbmpool.c b/Db/dbmpool.c
index 57ce946..70847f1 100644
--- a/Db/dbmpool.c
+++ b/Db/dbmpool.c
@@ -777,8 +777,7 @@ int wg_atomtype(void* db, void* ptr) {
 
 char* wg_atomstr1(void* db, void* ptr) {
   if (ptr==NULL) return NULL;
-  if (*(((char*)ptr)+1)==(char)0) return NULL;
-  else return ((char*)ptr)+1;
+  return ((char*)ptr)+1;
 }
 
 char* wg_atomstr2(void* db, void* ptr) {
-- 
2.43.0


From 79d742c95a45e01e540f7e4e1a01b7aa7c99f458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:50 +0000
Subject: [PATCH 11/65] fix: escape control characters and backslashes in JSON
 output, and reserve the space escaping needs

---
 Builtparser/dbparse.c  | 12 ++++++++----
 Parser/dbparse.c       | 12 ++++++++----
 Printer/dbotterprint.c | 32 ++++++++++++++++++++------------
 Reasoner/history.c     |  8 ++++++--
 Reasoner/rmain.c       |  4 ++++
 5 files changed, 46 insertions(+), 22 deletions(-)

diff --git a/Builtparser/dbparse.c b/Builtparser/dbparse.c
index 91d05ea..773222f 100644
--- a/Builtparser/dbparse.c
+++ b/Builtparser/dbparse.c
@@ -465,7 +465,9 @@ void* wr_preprocess_clauselist
 */
       if ((dbmemsegh(db)->convert) && (dbmemsegh(db)->tptp)) {
         bpos=0; 
-        if (!wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,bpos+1000)) return NULL;
+        if (!wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,
+              strlen(wg_atomstr1(db,clname))+
+              strlen(wg_atomstr1(db,clrole))+1000)) return NULL;
         bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,
                        "cnf('%s',%s,",wg_atomstr1(db,clname),wg_atomstr1(db,clrole)); 
         wg_expand_frm_for_print(db,mpool,cl);                             
@@ -475,7 +477,7 @@ void* wr_preprocess_clauselist
       } else if ((dbmemsegh(db)->convert) && (dbmemsegh(db)->json)) {  
         bpos=0;
         if (!wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,
-              strlen(wg_atomstr1(db,clname))+
+              6*strlen(wg_atomstr1(db,clname))+
               strlen(wg_atomstr1(db,clrole))+1000)) return NULL;
         bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,"{\"@name\":");
         if (wg_contains_dquote(wg_atomstr1(db,clname))) {                   
@@ -532,7 +534,9 @@ void* wr_preprocess_clauselist
       */
       if ((dbmemsegh(db)->convert) && (dbmemsegh(db)->tptp)) {
         bpos=0;
-        if (!wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,bpos+1000)) return NULL;
+        if (!wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,
+              strlen(wg_atomstr1(db,clname))+
+              strlen(wg_atomstr1(db,clrole))+1000)) return NULL;
         bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,
                        "fof('%s',%s,",wg_atomstr1(db,clname),wg_atomstr1(db,clrole));
         wg_expand_frm_for_print(db,mpool,cl);                
@@ -542,7 +546,7 @@ void* wr_preprocess_clauselist
       } else if ((dbmemsegh(db)->convert) && (dbmemsegh(db)->json)) {  
         bpos=0;
         if (!wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,
-              strlen(wg_atomstr1(db,clname))+
+              6*strlen(wg_atomstr1(db,clname))+
               strlen(wg_atomstr1(db,clrole))+1000)) return NULL;
         bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,"{\"@name\":");
         if (wg_contains_dquote(wg_atomstr1(db,clname))) {                   
diff --git a/Parser/dbparse.c b/Parser/dbparse.c
index 91d05ea..773222f 100644
--- a/Parser/dbparse.c
+++ b/Parser/dbparse.c
@@ -465,7 +465,9 @@ void* wr_preprocess_clauselist
 */
       if ((dbmemsegh(db)->convert) && (dbmemsegh(db)->tptp)) {
         bpos=0; 
-        if (!wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,bpos+1000)) return NULL;
+        if (!wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,
+              strlen(wg_atomstr1(db,clname))+
+              strlen(wg_atomstr1(db,clrole))+1000)) return NULL;
         bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,
                        "cnf('%s',%s,",wg_atomstr1(db,clname),wg_atomstr1(db,clrole)); 
         wg_expand_frm_for_print(db,mpool,cl);                             
@@ -475,7 +477,7 @@ void* wr_preprocess_clauselist
       } else if ((dbmemsegh(db)->convert) && (dbmemsegh(db)->json)) {  
         bpos=0;
         if (!wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,
-              strlen(wg_atomstr1(db,clname))+
+              6*strlen(wg_atomstr1(db,clname))+
               strlen(wg_atomstr1(db,clrole))+1000)) return NULL;
         bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,"{\"@name\":");
         if (wg_contains_dquote(wg_atomstr1(db,clname))) {                   
@@ -532,7 +534,9 @@ void* wr_preprocess_clauselist
       */
       if ((dbmemsegh(db)->convert) && (dbmemsegh(db)->tptp)) {
         bpos=0;
-        if (!wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,bpos+1000)) return NULL;
+        if (!wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,
+              strlen(wg_atomstr1(db,clname))+
+              strlen(wg_atomstr1(db,clrole))+1000)) return NULL;
         bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,
                        "fof('%s',%s,",wg_atomstr1(db,clname),wg_atomstr1(db,clrole));
         wg_expand_frm_for_print(db,mpool,cl);                
@@ -542,7 +546,7 @@ void* wr_preprocess_clauselist
       } else if ((dbmemsegh(db)->convert) && (dbmemsegh(db)->json)) {  
         bpos=0;
         if (!wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,
-              strlen(wg_atomstr1(db,clname))+
+              6*strlen(wg_atomstr1(db,clname))+
               strlen(wg_atomstr1(db,clrole))+1000)) return NULL;
         bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,"{\"@name\":");
         if (wg_contains_dquote(wg_atomstr1(db,clname))) {                   
diff --git a/Printer/dbotterprint.c b/Printer/dbotterprint.c
index 664986f..f80fdfd 100644
--- a/Printer/dbotterprint.c
+++ b/Printer/dbotterprint.c
@@ -873,7 +873,7 @@ int wr_strprint_simpleterm_otter(glb* g, gint enc,int printlevel, char** buf, in
       if (strdata) len1=strlen(strdata);
       if (exdata) len2=strlen(exdata);
       //printf("\nstrdata %s exdata %s\n",strdata,exdata);
-      if (!wr_str_guarantee_space(g,buf,len,pos+len1+len2+100)) return -1;
+      if (!wr_str_guarantee_space(g,buf,len,pos+6*len1+len2+100)) return -1;
       if (exdata==NULL) {        
         if (g->print_clauses_json) {
           if (isneg) {          
@@ -1098,10 +1098,12 @@ int wg_contains_quote(char* s) {
   return 0;
 }
 
+// true if the string has chars which have to be escaped in a json string
+
 int wg_contains_dquote(char* s) {
   if (!s) return 0;  
   for(; *s!=0; s++) {
-    if ((*s)=='"') return 1;   
+    if ((*s)=='"' || (*s)=='\\' || (unsigned char)(*s)<32) return 1;   
   }
   return 0;
 }
@@ -1185,6 +1187,8 @@ int wg_print_quoted2(char** buf, int len, int pos, char* es, char* s) {
 }
 
 
+// prints as a json string: takes up to 6*strlen(s)+5 chars
+
 int wg_print_dquoted(char** buf, int len, int pos, char* s, int negflag, int uniqueflag) {
   char c;
   int i;
@@ -1204,7 +1208,12 @@ int wg_print_dquoted(char** buf, int len, int pos, char* s, int negflag, int uni
   }
   for(i=1; *s!=0; s++, i++) {
     c=*s;
-    if (c=='"') {
+    if ((unsigned char)c<32) {
+      if ((i+pos+6)>=len) return i;
+      i+=sprintf((*buf)+pos+i,"\\u%04x",(unsigned int)(unsigned char)c)-1;
+      continue;
+    }
+    if (c=='"' || c=='\\') {
       *((*buf)+pos+i)='\\';
       i++;
     }     
@@ -1496,7 +1505,7 @@ int wg_print_subfrm_tptp(void* db, void* ptr,int depth,int pflag, int termflag,
     type=wg_atomtype(db,ptr);    
     p=wg_atomstr1(db,ptr);   
     //p2=wg_atomstr2(db,ptr); 
-    if (!wg_str_guarantee_space(db,buf,len,pos+1000)) return -1; 
+    if (!wg_str_guarantee_space(db,buf,len,pos+(p ? 2*strlen(p) : 0)+1000)) return -1; 
     switch (type) {
       /*
       case 0: printf("_:"); break;
@@ -1534,7 +1543,7 @@ int wg_print_subfrm_tptp(void* db, void* ptr,int depth,int pflag, int termflag,
         p2=wg_atomstr2(db,ptr);
         //printf("\n type==WG_ANONCONSTTYPE %d p %s p2 %s\n",type==WG_ANONCONSTTYPE,p,p2);
         if (p && *p=='#' && *(p+1)==':') {            
-            pos+=wg_print_dquoted(buf,*len,pos,p+2,0,0);   
+            pos+=wg_print_quoted2(buf,*len,pos,"#",p+2);   
 
         } else if (p && *p=='+' && *(p+1)=='\0') {
           pos+=snprintf((*buf)+pos,(*len)-pos,"$sum"); 
@@ -1562,7 +1571,6 @@ int wg_print_subfrm_tptp(void* db, void* ptr,int depth,int pflag, int termflag,
       }
       default: {         
         if (p!=NULL) {
-          if (!wg_str_guarantee_space(db,buf,len,pos+1000)) return -1;
           if (!strcmp(p,EMPTYSTRING)) {
             pos+=snprintf((*buf)+pos,(*len)-pos,"''");
             return pos;
@@ -1583,7 +1591,7 @@ int wg_print_subfrm_tptp(void* db, void* ptr,int depth,int pflag, int termflag,
             }  
           } 
           if ((p2 && *p2=='#' && *(p2+1)=='\0')) {            
-            pos+=wg_print_dquoted(buf,*len,pos,p,0,0);            
+            pos+=wg_print_quoted2(buf,*len,pos,"#",p);            
           } else if (wg_contains_quote(p)) {                       
             pos+=wg_print_quoted(buf,*len,pos,p); 
           } else if ((p2 && *p2=='c' && *(p2+1)=='\0') || wg_should_quote(p)) {            
@@ -1769,6 +1777,7 @@ int wg_print_subcnf_tptp(void* db, void* ptr,int depth,int pflag, int termflag,
   } else if (wg_isatom(db,ptr)) {
     type=wg_atomtype(db,ptr);    
     p=wg_atomstr1(db,ptr);        
+    if (!wg_str_guarantee_space(db,buf,len,pos+(p ? 2*strlen(p) : 0)+1000)) return -1;
     switch (type) {    
       case WG_INTTYPE: pos+=snprintf((*buf)+pos,(*len)-pos,"%s",p); break;
       case WG_DOUBLETYPE: pos+=snprintf((*buf)+pos,(*len)-pos,"%s",p); break;
@@ -1801,7 +1810,6 @@ int wg_print_subcnf_tptp(void* db, void* ptr,int depth,int pflag, int termflag,
       }
       default: {          
         if (p!=NULL) {
-          if (!wg_str_guarantee_space(db,buf,len,pos+1000)) return -1;
           if (!strcmp(p,EMPTYSTRING)) {
             pos+=snprintf((*buf)+pos,(*len)-pos,"''");
             return pos;
@@ -1822,7 +1830,7 @@ int wg_print_subcnf_tptp(void* db, void* ptr,int depth,int pflag, int termflag,
             }  
           }           
           if ((p2 && *p2=='#' && *(p2+1)=='\0')) {          
-            pos+=wg_print_dquoted(buf,*len,pos,p,0,0);         
+            pos+=wg_print_quoted2(buf,*len,pos,"#",p);         
           } else if (wg_contains_quote(p)) {                        
             pos+=wg_print_quoted(buf,*len,pos,p); 
           } else if ((p2 && *p2=='c' && *(p2+1)=='\0') || wg_should_quote(p)) {           
@@ -2010,7 +2018,7 @@ int wg_print_term_tptp(void* db, void* ptr,int depth,int pflag,char** buf, int *
     */
 
     if (p!=NULL) {      
-      if (!wg_str_guarantee_space(db,buf,len,pos+strlen(p)+1000)) return -1; 
+      if (!wg_str_guarantee_space(db,buf,len,pos+2*strlen(p)+1000)) return -1; 
       if (!strcmp(p,EMPTYSTRING)) {
         printf("''");
       } else if (wg_should_quote(p)) {
@@ -2023,7 +2031,7 @@ int wg_print_term_tptp(void* db, void* ptr,int depth,int pflag,char** buf, int *
     }
     p=wg_atomstr2(db,ptr);
     if (p!=NULL) {
-      if (!wg_str_guarantee_space(db,buf,len,pos+strlen(p)+1000)) return -1;
+      if (!wg_str_guarantee_space(db,buf,len,pos+2*strlen(p)+1000)) return -1;
       if (wg_should_quote(p)) {
         printf("^^\"%s\"",p);
       } else {
@@ -2117,7 +2125,7 @@ int wg_print_subfrm_json(void* db, void* mpool, void* ptr,int depth,int pflag,
     type=wg_atomtype(db,ptr); 
     p=wg_atomstr1(db,ptr); 
     //p2=wg_atomstr2(db,ptr);  
-    if (!wg_str_guarantee_space(db,buf,len,pos+strlen(p)+1000)) return -1; 
+    if (!wg_str_guarantee_space(db,buf,len,pos+(p ? 6*strlen(p) : 0)+1000)) return -1; 
     switch (type) {
       /*
       case 0: printf("_:"); break;
diff --git a/Reasoner/history.c b/Reasoner/history.c
index 69c8fc9..4dc3499 100644
--- a/Reasoner/history.c
+++ b/Reasoner/history.c
@@ -1891,8 +1891,12 @@ int wr_strprint_one_history
         if (bpos<0) return bpos;
       }
       namestr=wg_decode_str(db,name);
-      if (!wr_str_guarantee_space(g,buf,blen,bpos+100+strlen(namestr))) return -1;
-      if (g->print_json) bpos+=snprintf((*buf)+bpos,(*blen)-bpos,", \"%s\"",namestr);
+      if (!wr_str_guarantee_space(g,buf,blen,bpos+100+6*strlen(namestr))) return -1;
+      if (g->print_json) {
+        bpos+=snprintf((*buf)+bpos,(*blen)-bpos,", ");
+        bpos+=wg_print_dquoted(buf,*blen,bpos,namestr,0,0);
+        *((*buf)+bpos)=0;
+      }
       else {
         if ((g->print_fof_conversion_proof) && (g->store_fof_skolem_steps) &&
             namestr) {
diff --git a/Reasoner/rmain.c b/Reasoner/rmain.c
index 1ad299c..0b374b0 100644
--- a/Reasoner/rmain.c
+++ b/Reasoner/rmain.c
@@ -1723,6 +1723,10 @@ int wr_print_all_clauses(glb* g, void* child_db) {
       namestr=namebuf;
     }  
     //printf("\nnamebuf %s namestr %s nameflag %d enctype %ld\n",namebuf,namestr,nameflag,enctype);
+    if (!wr_str_guarantee_space(g,&buf,&blen,bpos+6*strlen(namestr)+200)) {
+      if (buf) wr_free(g,buf);
+      return -1;
+    }
     objflag=0;
     if (g->print_json) {
       if ((nameflag && namestr[0]) && (decprior && decprior!=WR_HISTORY_AXIOM_ROLENR)) {        
-- 
2.43.0


From 8033bdabda8dc453b4292507c062187f99bedeba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:51 +0000
Subject: [PATCH 12/65] fix: clamp and sanitise the strings put into parser
 error messages

---
 Builtparser/dbclausify.c |  8 ++++++++
 Builtparser/dbotter.yy.c | 29 ++++++++++++-----------------
 Builtparser/dbparse.c    |  8 ++++++++
 Builtparser/jsparse.c    | 12 ++++++++++++
 Parser/dbclausify.c      |  8 ++++++++
 Parser/dbotter.l         | 29 ++++++++++++-----------------
 Parser/dbparse.c         |  8 ++++++++
 Parser/jsparse.c         | 12 ++++++++++++
 8 files changed, 80 insertions(+), 34 deletions(-)

diff --git a/Builtparser/dbclausify.c b/Builtparser/dbclausify.c
index 66d71ad..6dd47ad 100644
--- a/Builtparser/dbclausify.c
+++ b/Builtparser/dbclausify.c
@@ -1640,6 +1640,7 @@ void* show_clausify_error(glb* g, char* format, ...) {
 
 void* show_clausify_warning(glb* g, char* format, ...) {
   int tmp1,tmp2;
+  char* s;
   va_list args;
   va_start (args, format);
 #ifdef PRINTERR  
@@ -1653,6 +1654,13 @@ void* show_clausify_warning(glb* g, char* format, ...) {
   if (!(g->parse_errmsg)) return NULL;
   tmp1=snprintf((g->parse_errmsg),50,"{\"error\": \"clausification error: ");
   tmp2=vsnprintf((g->parse_errmsg)+tmp1,800,format,args);
+  if (tmp2<0) tmp2=0;
+  if (tmp2>799) tmp2=799;
+  for(s=(g->parse_errmsg)+tmp1; *s; s++) {
+    if (*s=='"') *s='\'';
+    else if (*s=='\\') *s='/';
+    else if ((unsigned char)(*s)<32) *s=' ';
+  }
   snprintf((g->parse_errmsg)+tmp1+tmp2,50,"\"}");
   va_end (args);
   //if (g && format && !strncmp(format,"could",5)) (g->parse_errflag)=1;
diff --git a/Builtparser/dbotter.yy.c b/Builtparser/dbotter.yy.c
index 1dd2332..66e7e84 100644
--- a/Builtparser/dbotter.yy.c
+++ b/Builtparser/dbotter.yy.c
@@ -2763,7 +2763,7 @@ void yyfree (void * ptr , yyscan_t yyscanner)
 
 
 void wg_yyottererror (parse_parm* parm, void* scanner, const char* msg) {
-  int i;
+  int i,tmp;
   char *s;
   //char* errmsg;
   //printf("\n yyerror called with xx msg %s\n",msg);
@@ -2774,25 +2774,20 @@ void wg_yyottererror (parse_parm* parm, void* scanner, const char* msg) {
     }
   }
   */
-  for(i=0;linebuf[i]!=0;i++) {
-    if (linebuf[i]=='"') linebuf[i]='\'';
-  }
   s=yyget_text(scanner);
-  if (s!=NULL) {
-    for(i=0;s[i]!=0;i++) {
-      if (s[i]=='"') s[i]='\'';
-    }
-  }
   if (parm->errmsg) return;
   parm->errmsg=malloc(2000);
-  if (1) { //(parm->json) {
-    snprintf(parm->errmsg,2000,"{\"error\": \"%s: file %s place '%s' in line %d:\n%s\"}", 
-          msg,parm->filename,s,yyget_lineno(scanner),linebuf);
-  } else {
-    snprintf(parm->errmsg,2000,"error: %s: file %s place '%s' in line %d:\n%s", 
-          msg,parm->filename,s,yyget_lineno(scanner),linebuf);
-  }        
-  (parm->errmsg)[2000-1]=0;
+  if (!(parm->errmsg)) return;
+  tmp=snprintf(parm->errmsg,1900,"{\"error\": \"");
+  snprintf((parm->errmsg)+tmp,1900-tmp,"%s: file %s place '%s' in line %d:\n%s", 
+          msg,parm->filename,(s ? s : ""),yyget_lineno(scanner),linebuf);
+  // the input text must not break the json of the message
+  for(i=tmp;(parm->errmsg)[i]!=0;i++) {
+    if ((parm->errmsg)[i]=='"') (parm->errmsg)[i]='\'';
+    else if ((parm->errmsg)[i]=='\\') (parm->errmsg)[i]='/';
+    else if ((unsigned char)((parm->errmsg)[i])<32) (parm->errmsg)[i]=' ';
+  }
+  snprintf((parm->errmsg)+i,2000-i,"\"}");
   // printf("{\"error\": \"%s: file %s place '%s' in line %d:\n%s\"}\n", 
   //        msg,parm->filename,s,yyget_lineno(scanner),linebuf);  
 }
diff --git a/Builtparser/dbparse.c b/Builtparser/dbparse.c
index 773222f..03cc09f 100644
--- a/Builtparser/dbparse.c
+++ b/Builtparser/dbparse.c
@@ -2043,6 +2043,7 @@ static int show_parse_error(void* db, char* msg) {
 int wr_show_parse_error(glb* g, char* format, ...) {
   //void* db=g->db;
   int tmp1,tmp2;
+  char* s;
   va_list args;
   va_start (args, format);
   /*
@@ -2060,6 +2061,13 @@ int wr_show_parse_error(glb* g, char* format, ...) {
   if (1) { //(g->print_json) {
     tmp1=snprintf((g->parse_errmsg),50,"{\"error\": \"parser error: ");
     tmp2=vsnprintf((g->parse_errmsg)+tmp1,800,format,args);
+    if (tmp2<0) tmp2=0;
+    if (tmp2>799) tmp2=799;
+    for(s=(g->parse_errmsg)+tmp1; *s; s++) {
+      if (*s=='"') *s='\'';
+      else if (*s=='\\') *s='/';
+      else if ((unsigned char)(*s)<32) *s=' ';
+    }
     snprintf((g->parse_errmsg)+tmp1+tmp2,50,"\"}");
   } else {
     tmp1=snprintf((g->parse_errmsg),50,"parser error: ");
diff --git a/Builtparser/jsparse.c b/Builtparser/jsparse.c
index 7aa3619..fe44d9b 100644
--- a/Builtparser/jsparse.c
+++ b/Builtparser/jsparse.c
@@ -3456,6 +3456,7 @@ void json_err_printf3(char* s1, int num, char* s2) {
 static int wr_show_jsparse_error(glb* g, parse_parm* pp, char* format, ...) {
   //void* db=g->db;
   int tmp1,tmp2;
+  char* s;
   va_list args;
   va_start (args, format);
   /*
@@ -3481,7 +3482,18 @@ static int wr_show_jsparse_error(glb* g, parse_parm* pp, char* format, ...) {
   } else {
     tmp1=snprintf((g->parse_errmsg),50,"{\"error\": \"json parser error: ");
   }  
+  // snprintf returns the untruncated length
+  if (tmp1>49) tmp1=49;
   tmp2=vsnprintf((g->parse_errmsg)+tmp1,800,format,args);
+  va_end(args);
+  if (tmp2<0) tmp2=0;
+  if (tmp2>799) tmp2=799;
+  // the strings printed must not break the json of the message
+  for(s=(g->parse_errmsg)+strlen("{\"error\": \""); *s; s++) {
+    if (*s=='"') *s='\'';
+    else if (*s=='\\') *s='/';
+    else if ((unsigned char)(*s)<32) *s=' ';
+  }
   snprintf((g->parse_errmsg)+tmp1+tmp2,50,"\"}");
 
   /*
diff --git a/Parser/dbclausify.c b/Parser/dbclausify.c
index 66d71ad..6dd47ad 100644
--- a/Parser/dbclausify.c
+++ b/Parser/dbclausify.c
@@ -1640,6 +1640,7 @@ void* show_clausify_error(glb* g, char* format, ...) {
 
 void* show_clausify_warning(glb* g, char* format, ...) {
   int tmp1,tmp2;
+  char* s;
   va_list args;
   va_start (args, format);
 #ifdef PRINTERR  
@@ -1653,6 +1654,13 @@ void* show_clausify_warning(glb* g, char* format, ...) {
   if (!(g->parse_errmsg)) return NULL;
   tmp1=snprintf((g->parse_errmsg),50,"{\"error\": \"clausification error: ");
   tmp2=vsnprintf((g->parse_errmsg)+tmp1,800,format,args);
+  if (tmp2<0) tmp2=0;
+  if (tmp2>799) tmp2=799;
+  for(s=(g->parse_errmsg)+tmp1; *s; s++) {
+    if (*s=='"') *s='\'';
+    else if (*s=='\\') *s='/';
+    else if ((unsigned char)(*s)<32) *s=' ';
+  }
   snprintf((g->parse_errmsg)+tmp1+tmp2,50,"\"}");
   va_end (args);
   //if (g && format && !strncmp(format,"could",5)) (g->parse_errflag)=1;
diff --git a/Parser/dbotter.l b/Parser/dbotter.l
index f0d6737..4030412 100644
--- a/Parser/dbotter.l
+++ b/Parser/dbotter.l
@@ -334,7 +334,7 @@ ID       [a-zA-Z\x80-\xff][a-zA-Z0-9_:+\-*/<>\x80-\xff]*
 
 
 void wg_yyottererror (parse_parm* parm, void* scanner, const char* msg) {
-  int i;
+  int i,tmp;
   char *s;
   //char* errmsg;
   //printf("\n yyerror called with xx msg %s\n",msg);
@@ -345,25 +345,20 @@ void wg_yyottererror (parse_parm* parm, void* scanner, const char* msg) {
     }
   }
   */
-  for(i=0;linebuf[i]!=0;i++) {
-    if (linebuf[i]=='"') linebuf[i]='\'';
-  }
   s=yyget_text(scanner);
-  if (s!=NULL) {
-    for(i=0;s[i]!=0;i++) {
-      if (s[i]=='"') s[i]='\'';
-    }
-  }
   if (parm->errmsg) return;
   parm->errmsg=malloc(2000);
-  if (1) { //(parm->json) {
-    snprintf(parm->errmsg,2000,"{\"error\": \"%s: file %s place '%s' in line %d:\n%s\"}", 
-          msg,parm->filename,s,yyget_lineno(scanner),linebuf);
-  } else {
-    snprintf(parm->errmsg,2000,"error: %s: file %s place '%s' in line %d:\n%s", 
-          msg,parm->filename,s,yyget_lineno(scanner),linebuf);
-  }        
-  (parm->errmsg)[2000-1]=0;
+  if (!(parm->errmsg)) return;
+  tmp=snprintf(parm->errmsg,1900,"{\"error\": \"");
+  snprintf((parm->errmsg)+tmp,1900-tmp,"%s: file %s place '%s' in line %d:\n%s", 
+          msg,parm->filename,(s ? s : ""),yyget_lineno(scanner),linebuf);
+  // the input text must not break the json of the message
+  for(i=tmp;(parm->errmsg)[i]!=0;i++) {
+    if ((parm->errmsg)[i]=='"') (parm->errmsg)[i]='\'';
+    else if ((parm->errmsg)[i]=='\\') (parm->errmsg)[i]='/';
+    else if ((unsigned char)((parm->errmsg)[i])<32) (parm->errmsg)[i]=' ';
+  }
+  snprintf((parm->errmsg)+i,2000-i,"\"}");
   // printf("{\"error\": \"%s: file %s place '%s' in line %d:\n%s\"}\n", 
   //        msg,parm->filename,s,yyget_lineno(scanner),linebuf);  
 }
diff --git a/Parser/dbparse.c b/Parser/dbparse.c
index 773222f..03cc09f 100644
--- a/Parser/dbparse.c
+++ b/Parser/dbparse.c
@@ -2043,6 +2043,7 @@ static int show_parse_error(void* db, char* msg) {
 int wr_show_parse_error(glb* g, char* format, ...) {
   //void* db=g->db;
   int tmp1,tmp2;
+  char* s;
   va_list args;
   va_start (args, format);
   /*
@@ -2060,6 +2061,13 @@ int wr_show_parse_error(glb* g, char* format, ...) {
   if (1) { //(g->print_json) {
     tmp1=snprintf((g->parse_errmsg),50,"{\"error\": \"parser error: ");
     tmp2=vsnprintf((g->parse_errmsg)+tmp1,800,format,args);
+    if (tmp2<0) tmp2=0;
+    if (tmp2>799) tmp2=799;
+    for(s=(g->parse_errmsg)+tmp1; *s; s++) {
+      if (*s=='"') *s='\'';
+      else if (*s=='\\') *s='/';
+      else if ((unsigned char)(*s)<32) *s=' ';
+    }
     snprintf((g->parse_errmsg)+tmp1+tmp2,50,"\"}");
   } else {
     tmp1=snprintf((g->parse_errmsg),50,"parser error: ");
diff --git a/Parser/jsparse.c b/Parser/jsparse.c
index 7aa3619..fe44d9b 100644
--- a/Parser/jsparse.c
+++ b/Parser/jsparse.c
@@ -3456,6 +3456,7 @@ void json_err_printf3(char* s1, int num, char* s2) {
 static int wr_show_jsparse_error(glb* g, parse_parm* pp, char* format, ...) {
   //void* db=g->db;
   int tmp1,tmp2;
+  char* s;
   va_list args;
   va_start (args, format);
   /*
@@ -3481,7 +3482,18 @@ static int wr_show_jsparse_error(glb* g, parse_parm* pp, char* format, ...) {
   } else {
     tmp1=snprintf((g->parse_errmsg),50,"{\"error\": \"json parser error: ");
   }  
+  // snprintf returns the untruncated length
+  if (tmp1>49) tmp1=49;
   tmp2=vsnprintf((g->parse_errmsg)+tmp1,800,format,args);
+  va_end(args);
+  if (tmp2<0) tmp2=0;
+  if (tmp2>799) tmp2=799;
+  // the strings printed must not break the json of the message
+  for(s=(g->parse_errmsg)+strlen("{\"error\": \""); *s; s++) {
+    if (*s=='"') *s='\'';
+    else if (*s=='\\') *s='/';
+    else if ((unsigned char)(*s)<32) *s=' ';
+  }
   snprintf((g->parse_errmsg)+tmp1+tmp2,50,"\"}");
 
   /*
-- 
2.43.0


From 875f69b85ca60a1ac0695685a92800730efd19b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:49 +0000
Subject: [PATCH 13/65] fix: text output still says that the search ended with
 fewer answers than asked for

---
 Reasoner/rmain.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Reasoner/rmain.c b/Reasoner/rmain.c
index 0b374b0..622d9e4 100644
--- a/Reasoner/rmain.c
+++ b/Reasoner/rmain.c
@@ -841,7 +841,7 @@ int wg_run_reasoner(void *db, char* inputname, char* stratfile, int informat,
     } else if (res==1) {
       if (wr_have_answers(g)) {
         wr_show_result(g,g->proof_history);
-        res=0; // fewer answers than asked for are a result as well
+        if (g->print_json) res=0; // json output has one result object
       } else {
         if ((g->print_level_flag)>11) {  
           if (maxforks) {        
-- 
2.43.0


From 07de61eb7e79d1544e8403df2965c3fb6ec9a020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:42 +0000
Subject: [PATCH 14/65] fix: arithmetic function symbols in JSON output are
 JSON strings

---
 Printer/dbotterprint.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Printer/dbotterprint.c b/Printer/dbotterprint.c
index f80fdfd..01b1ca2 100644
--- a/Printer/dbotterprint.c
+++ b/Printer/dbotterprint.c
@@ -774,7 +774,7 @@ int wr_strprint_term_otter(glb* g, gint rec,int printlevel, char** buf, int *len
   }  
   for(i=0; i<clen; i++) {
     if (i<(g->unify_firstuseterm)) continue;
-    if (!wr_str_guarantee_space(g,buf,len,pos+10)) return -1;
+    if (!wr_str_guarantee_space(g,buf,len,pos+50)) return -1;
     if(i>((g->unify_firstuseterm)+1)) pos+=snprintf((*buf)+pos,(*len)-pos,",");
     enc = wg_get_field(db, recptr, i);    
     if (wg_get_encoded_type(db, enc)==WG_RECORDTYPE) {
@@ -785,15 +785,15 @@ int wr_strprint_term_otter(glb* g, gint rec,int printlevel, char** buf, int *len
           wg_get_encoded_type(db,enc)==WG_URITYPE &&
           wg_decode_str(db,enc) && strlen(wg_decode_str(db,enc))==1) {
         if (!strcmp(wg_decode_str(db,enc),"+")) {
-          pos+=snprintf((*buf)+pos,(*len)-pos,"$sum");
+          pos+=snprintf((*buf)+pos,(*len)-pos,(g->print_clauses_json) ? "\"$sum\"" : "$sum");
         } else if (!strcmp(wg_decode_str(db,enc),"*")) {
-          pos+=snprintf((*buf)+pos,(*len)-pos,"$product");
+          pos+=snprintf((*buf)+pos,(*len)-pos,(g->print_clauses_json) ? "\"$product\"" : "$product");
         } else if (!strcmp(wg_decode_str(db,enc),"-")) {
-          pos+=snprintf((*buf)+pos,(*len)-pos,"$difference");
+          pos+=snprintf((*buf)+pos,(*len)-pos,(g->print_clauses_json) ? "\"$difference\"" : "$difference");
         } else if (!strcmp(wg_decode_str(db,enc),"/")) {
-          pos+=snprintf((*buf)+pos,(*len)-pos,"$quotient");
+          pos+=snprintf((*buf)+pos,(*len)-pos,(g->print_clauses_json) ? "\"$quotient\"" : "$quotient");
         } else if (!strcmp(wg_decode_str(db,enc),"<")) {
-          pos+=snprintf((*buf)+pos,(*len)-pos,"$less");  
+          pos+=snprintf((*buf)+pos,(*len)-pos,(g->print_clauses_json) ? "\"$less\"" : "$less");  
         } else {
           pos=wr_strprint_simpleterm_otter(g, enc,printlevel,buf,len,pos,0);
         }
-- 
2.43.0


From 84301b44c1d2412e9d3bc2444b64edfca053c4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:28 +0000
Subject: [PATCH 15/65] fix: a minus sign before a number in a term makes a
 negative number

---
 Builtparser/dbgenparse.h  |  1 +
 Builtparser/dbotter.tab.c |  2 +-
 Db/dbmpool.c              | 28 ++++++++++++++++++++++++++++
 Db/dbmpool.h              |  1 +
 Parser/dbgenparse.h       |  1 +
 Parser/dbotter.y          |  2 +-
 6 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/Builtparser/dbgenparse.h b/Builtparser/dbgenparse.h
index 7e5eeb4..db10cd3 100644
--- a/Builtparser/dbgenparse.h
+++ b/Builtparser/dbgenparse.h
@@ -49,6 +49,7 @@
 #define MKWGSTRING(pp,x)  (wg_mkatom(((parse_parm*)pp)->db,((parse_parm*)pp)->mpool,WG_STRTYPE,x,NULL))
 #define MKWGCONST(pp,x)  (wg_mkatom(((parse_parm*)pp)->db,((parse_parm*)pp)->mpool,WG_ANONCONSTTYPE,x,NULL))
 #define MKWGVAR(pp,x)     (wg_mkatom(((parse_parm*)pp)->db,((parse_parm*)pp)->mpool,WG_VARTYPE,x,NULL))
+#define MKWGMINUS(pp,x) (wg_mkminus(((parse_parm*)pp)->db,((parse_parm*)pp)->mpool,x))
 #define MKWGNIL NULL
 
 #define MKWGURILEN(pp,x,l)  (wg_mkatom_len(((parse_parm*)pp)->db,((parse_parm*)pp)->mpool,WG_URITYPE,x,NULL,l,0))
diff --git a/Builtparser/dbotter.tab.c b/Builtparser/dbotter.tab.c
index 6b0c382..2137f70 100644
--- a/Builtparser/dbotter.tab.c
+++ b/Builtparser/dbotter.tab.c
@@ -1562,7 +1562,7 @@ yyreduce:
 
   case 21:
 #line 137 "Parser/dbotter.y"
-                                  { yyval = MKWGPAIR(PP,MKWGCONST(PP,"not"),MKWGPAIR(PP,yyvsp[0],MKWGNIL)); }
+                                  { yyval = MKWGMINUS(PP,yyvsp[0]); }
 #line 1567 "Parser/dbotter.tab.c"
     break;
 
diff --git a/Db/dbmpool.c b/Db/dbmpool.c
index 70847f1..91d7625 100644
--- a/Db/dbmpool.c
+++ b/Db/dbmpool.c
@@ -749,6 +749,34 @@ void* wg_mkatom_double(void* db, void* mpool, double num) {
 }
 
 
+/** minus before a term: a number is negated, anything else becomes a not list
+*/
+
+void* wg_mkminus(void* db, void* mpool, void* ptr) {
+  int type;
+  char *str, *buf;
+  void* res;
+
+  if (ptr && wg_isatom(db,ptr)) {
+    type=wg_atomtype(db,ptr);
+    str=wg_atomstr1(db,ptr);
+    if ((type==WG_INTTYPE || type==WG_DOUBLETYPE) && *str!='-') {
+      buf=malloc(strlen(str)+2);
+      if (buf==NULL) {
+        show_mpool_error(db,"cannot create an atom in mpool");
+        return NULL;
+      }
+      *buf='-';
+      strcpy(buf+1,str);
+      res=wg_mkatom(db,mpool,type,buf,NULL);
+      free(buf);
+      return res;
+    }
+  }
+  return wg_mkpair(db,mpool,wg_mkatom(db,mpool,WG_ANONCONSTTYPE,"not",NULL),
+                   wg_mkpair(db,mpool,ptr,NULL));
+}
+
 void* wg_mkrecatom(void* db, void* mpool, gint rec) {
   char* ptr;
   char* curptr;
diff --git a/Db/dbmpool.h b/Db/dbmpool.h
index e21781f..64944ae 100644
--- a/Db/dbmpool.h
+++ b/Db/dbmpool.h
@@ -110,6 +110,7 @@ void* wg_mkatom(void* db, void* mpool, int type, char* str1, char* str2);
 void* wg_mkatom_len(void* db, void* mpool, int type, char* str1, char* str2, int len1, int len2);
 void* wg_mkatom_int(void* db, void* mpool, gint num);
 void* wg_mkatom_int2(void* db, void* mpool, double num);
+void* wg_mkminus(void* db, void* mpool, void* ptr);
 void* wg_mkatom_double(void* db, void* mpool, double num);
 
 void* wg_mkrecatom(void* db, void* mpool, wg_int rec);
diff --git a/Parser/dbgenparse.h b/Parser/dbgenparse.h
index 7e5eeb4..db10cd3 100644
--- a/Parser/dbgenparse.h
+++ b/Parser/dbgenparse.h
@@ -49,6 +49,7 @@
 #define MKWGSTRING(pp,x)  (wg_mkatom(((parse_parm*)pp)->db,((parse_parm*)pp)->mpool,WG_STRTYPE,x,NULL))
 #define MKWGCONST(pp,x)  (wg_mkatom(((parse_parm*)pp)->db,((parse_parm*)pp)->mpool,WG_ANONCONSTTYPE,x,NULL))
 #define MKWGVAR(pp,x)     (wg_mkatom(((parse_parm*)pp)->db,((parse_parm*)pp)->mpool,WG_VARTYPE,x,NULL))
+#define MKWGMINUS(pp,x) (wg_mkminus(((parse_parm*)pp)->db,((parse_parm*)pp)->mpool,x))
 #define MKWGNIL NULL
 
 #define MKWGURILEN(pp,x,l)  (wg_mkatom_len(((parse_parm*)pp)->db,((parse_parm*)pp)->mpool,WG_URITYPE,x,NULL,l,0))
diff --git a/Parser/dbotter.y b/Parser/dbotter.y
index f5d443f..10e1705 100644
--- a/Parser/dbotter.y
+++ b/Parser/dbotter.y
@@ -134,7 +134,7 @@ term:      prim                   { $$ = $1; }
          | term '+' term          { $$ = MKWGPAIR(PP,MKWGCONST(PP,"+"),MKWGPAIR(PP,$1,MKWGPAIR(PP,$3,MKWGNIL))); }
          | term '-' term          { $$ = MKWGPAIR(PP,MKWGCONST(PP,"-"),MKWGPAIR(PP,$1,MKWGPAIR(PP,$3,MKWGNIL))); }
          | term '*' term          { $$ = MKWGPAIR(PP,MKWGCONST(PP,"*"),MKWGPAIR(PP,$1,MKWGPAIR(PP,$3,MKWGNIL))); }
-         | '-' term               { $$ = MKWGPAIR(PP,MKWGCONST(PP,"not"),MKWGPAIR(PP,$2,MKWGNIL)); }	 
+         | '-' term               { $$ = MKWGMINUS(PP,$2); }	 
          | '~' term               { $$ = MKWGPAIR(PP,MKWGCONST(PP,"not"),MKWGPAIR(PP,$2,MKWGNIL)); }
          | '(' loglist')'         { $$ = $2; }
          | '[' termlist ']'       { $$ = MKWGPAIR(PP,MKWGCONST(PP,"$$lst"),MKWGPAIR(PP,$2,MKWGNIL)); }
-- 
2.43.0


From 2097a3274c54c31f575fe54cbb61712e752ffd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:56 +0000
Subject: [PATCH 16/65] fix: integers over 32 bits and small or large doubles
 keep their value when read and printed

---
 Builtparser/dbparse.c  |  2 +-
 Db/dbmpool.c           | 23 ++++++++++++++++++++++-
 Db/dbmpool.h           |  1 +
 Parser/dbparse.c       |  2 +-
 Printer/dbotterprint.c |  8 +++-----
 5 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/Builtparser/dbparse.c b/Builtparser/dbparse.c
index 03cc09f..51ffeb8 100644
--- a/Builtparser/dbparse.c
+++ b/Builtparser/dbparse.c
@@ -1654,7 +1654,7 @@ gint wr_parse_primitive(glb* g,void* mpool,void* atomptr, char** vardata, int po
   int type;
   char* str1;
   char* str2;
-  int intdata;
+  gint intdata;
   double doubledata;
   int i; 
 
diff --git a/Db/dbmpool.c b/Db/dbmpool.c
index 91d7625..e2ee2d0 100644
--- a/Db/dbmpool.c
+++ b/Db/dbmpool.c
@@ -719,6 +719,27 @@ void* wg_mkatom_int(void* db, void* mpool, gint num) {
 }
 
 
+/** print a double as %f if this keeps its value, otherwise with as many digits as needed
+
+  len must be at least 32
+*/
+
+int wg_snprint_double(char* buf, int len, double num) {
+  int n,prec;
+
+  n=snprintf(buf,len,"%f",num);
+  if (n<len && n<32 && strtod(buf,NULL)==num) return n;
+  for(prec=15; prec<=17; prec++) {
+    n=snprintf(buf,len,"%.*g",prec,num);
+    if (strtod(buf,NULL)==num) break;
+  }
+  if (n<len-2 && strspn(buf,"-0123456789")==n) {
+    strcpy(buf+n,".0");
+    n+=2;
+  }
+  return n;
+}
+
 void* wg_mkatom_double(void* db, void* mpool, double num) {
   char* ptr;
   char* curptr;
@@ -728,7 +749,7 @@ void* wg_mkatom_double(void* db, void* mpool, double num) {
   char* str1;
 
   //printf("\ndouble2c %lf\n",num);  
-  len1=snprintf(buf,38,"%f",num)+1;
+  len1=wg_snprint_double(buf,40,num)+1;
   str1=buf;
   size=size+len1;
   size++;  
diff --git a/Db/dbmpool.h b/Db/dbmpool.h
index 64944ae..5c0a4a9 100644
--- a/Db/dbmpool.h
+++ b/Db/dbmpool.h
@@ -111,6 +111,7 @@ void* wg_mkatom_len(void* db, void* mpool, int type, char* str1, char* str2, int
 void* wg_mkatom_int(void* db, void* mpool, gint num);
 void* wg_mkatom_int2(void* db, void* mpool, double num);
 void* wg_mkminus(void* db, void* mpool, void* ptr);
+int wg_snprint_double(char* buf, int len, double num);
 void* wg_mkatom_double(void* db, void* mpool, double num);
 
 void* wg_mkrecatom(void* db, void* mpool, wg_int rec);
diff --git a/Parser/dbparse.c b/Parser/dbparse.c
index 03cc09f..51ffeb8 100644
--- a/Parser/dbparse.c
+++ b/Parser/dbparse.c
@@ -1654,7 +1654,7 @@ gint wr_parse_primitive(glb* g,void* mpool,void* atomptr, char** vardata, int po
   int type;
   char* str1;
   char* str2;
-  int intdata;
+  gint intdata;
   double doubledata;
   int i; 
 
diff --git a/Printer/dbotterprint.c b/Printer/dbotterprint.c
index 01b1ca2..e362a76 100644
--- a/Printer/dbotterprint.c
+++ b/Printer/dbotterprint.c
@@ -328,8 +328,7 @@ void wr_print_simpleterm_otter(glb* g, gint enc,int printlevel) {
     //  wg_print_subrecord_otter(db,(gint*)ptrdata);
     //  break;    
     case WG_INTTYPE:
-      intdata = wg_decode_int(db, enc);
-      printf("%d", intdata);
+      printf("%ld", (long)wg_decode_int(db, enc));
       break;
     case WG_DOUBLETYPE:
       doubledata = wg_decode_double(db, enc);
@@ -845,11 +844,10 @@ int wr_strprint_simpleterm_otter(glb* g, gint enc,int printlevel, char** buf, in
     //  wg_print_subrecord_otter(db,(gint*)ptrdata);
     //  break;    
     case WG_INTTYPE:            
-      intdata = wg_decode_int(db, enc);     
-      return pos+snprintf((*buf)+pos,(*len)-pos,"%d", intdata);
+      return pos+snprintf((*buf)+pos,(*len)-pos,"%ld", (long)wg_decode_int(db, enc));
     case WG_DOUBLETYPE:     
       doubledata = wg_decode_double(db, enc);
-      return pos+snprintf((*buf)+pos,(*len)-pos,"%f", doubledata);
+      return pos+wg_snprint_double((*buf)+pos,(*len)-pos,doubledata);
     case WG_STRTYPE:
       strdata = wg_decode_str(db, enc);
       if (!wr_str_guarantee_space(g,buf,len,pos+strlen(strdata)+50)) return -1;
-- 
2.43.0


From 6ddbb9248aaf53e3691636a9af6050192bcf9f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:48 +0000
Subject: [PATCH 17/65] fix: quotient_e, integer quotients over 53 bits and
 negative or real remainders follow the TPTP definitions

---
 Reasoner/build.c | 44 ++++++++++++++++++++------------------------
 1 file changed, 20 insertions(+), 24 deletions(-)

diff --git a/Reasoner/build.c b/Reasoner/build.c
index 0c1bdce..bea472e 100644
--- a/Reasoner/build.c
+++ b/Reasoner/build.c
@@ -1340,23 +1340,25 @@ gint wr_compute_fun_arith2(glb* g, gptr tptr, int comp) {
         break;  
       case COMP_FUN_QUOTIENT_E:
         if (!bi) return encode_record(db,tptr);
-        if (bi<0) rd=floor((double)ai / (double)bi);
-        else rd=ceil((double)ai / (double)bi);
-        if (!wr_double_to_gint_checked(rd,&ri)) return encode_record(db,tptr);
+        if (ai==(gint)INTPTR_MIN && bi==-1) return encode_record(db,tptr);
+        ri=ai / bi;
+        if (ai % bi < 0) ri+=(bi<0) ? 1 : -1;
         break;  
       case COMP_FUN_QUOTIENT_T:
         if (!bi) return encode_record(db,tptr);
-        rd=trunc((double)ai / (double)bi);
-        if (!wr_double_to_gint_checked(rd,&ri)) return encode_record(db,tptr);
+        if (ai==(gint)INTPTR_MIN && bi==-1) return encode_record(db,tptr);
+        ri=ai / bi;
         break;   
       case COMP_FUN_QUOTIENT_F:
         if (!bi) return encode_record(db,tptr);
-        rd=floor((double)ai / (double)bi);
-        if (!wr_double_to_gint_checked(rd,&ri)) return encode_record(db,tptr);
+        if (ai==(gint)INTPTR_MIN && bi==-1) return encode_record(db,tptr);
+        ri=ai / bi;
+        if (ai % bi != 0 && ((ai<0) != (bi<0))) ri--;
         break;   
       case COMP_FUN_REMAINDER_E:
         if (!bi) return encode_record(db,tptr);
         ri=(ai==(gint)INTPTR_MIN && bi==-1) ? 0 : (gint)(ai % bi);
+        if (ri<0) ri=(bi<0) ? ri-bi : ri+bi;
         break;  
       case COMP_FUN_REMAINDER_T:
         if (!bi) return encode_record(db,tptr);
@@ -1365,6 +1367,7 @@ gint wr_compute_fun_arith2(glb* g, gptr tptr, int comp) {
       case COMP_FUN_REMAINDER_F:
         if (!bi) return encode_record(db,tptr);
         ri=(ai==(gint)INTPTR_MIN && bi==-1) ? 0 : (gint)(ai % bi);
+        if (ri && ((ri<0) != (bi<0))) ri+=bi;
         break;      
       default:
         return encode_record(db,tptr);
@@ -1393,8 +1396,8 @@ gint wr_compute_fun_arith2(glb* g, gptr tptr, int comp) {
         break; 
       case COMP_FUN_QUOTIENT_E:       
         if (bd==0.0) return encode_record(db,tptr);        
-        if (bd<0) rd=floor(ad/bd);
-        else rd=ceil(ad/bd);
+        if (bd<0) rd=ceil(ad/bd);
+        else rd=floor(ad/bd);
         if (!wr_double_to_gint_checked(rd,&ri)) return encode_record(db,tptr);
         return wg_encode_int(g->local_db,ri);        
         break;  
@@ -1411,25 +1414,18 @@ gint wr_compute_fun_arith2(glb* g, gptr tptr, int comp) {
         return wg_encode_int(g->local_db,ri);
         break;  
       case COMP_FUN_REMAINDER_E:       
-        if (!wr_double_to_gint_checked(ad,&ai) ||
-            !wr_double_to_gint_checked(bd,&bi) || !bi)
-          return encode_record(db,tptr);
-        ri=(ai==(gint)INTPTR_MIN && bi==-1) ? 0 : (gint)(ai % bi);
-        return wg_encode_int(g->local_db,ri);        
+        if (bd==0.0) return encode_record(db,tptr);
+        rd=fmod(ad,bd);
+        if (rd<0) rd+=fabs(bd);
         break;  
       case COMP_FUN_REMAINDER_T:        
-        if (!wr_double_to_gint_checked(ad,&ai) ||
-            !wr_double_to_gint_checked(bd,&bi) || !bi)
-          return encode_record(db,tptr);
-        ri=(ai==(gint)INTPTR_MIN && bi==-1) ? 0 : (gint)(ai % bi);
-        return wg_encode_int(g->local_db,ri);
+        if (bd==0.0) return encode_record(db,tptr);
+        rd=fmod(ad,bd);
         break;   
       case COMP_FUN_REMAINDER_F:
-        if (!wr_double_to_gint_checked(ad,&ai) ||
-            !wr_double_to_gint_checked(bd,&bi) || !bi)
-          return encode_record(db,tptr);
-        ri=(ai==(gint)INTPTR_MIN && bi==-1) ? 0 : (gint)(ai % bi);
-        return wg_encode_int(g->local_db,ri);
+        if (bd==0.0) return encode_record(db,tptr);
+        rd=fmod(ad,bd);
+        if (rd!=0.0 && ((rd<0) != (bd<0))) rd+=bd;
         break;      
       default: 
         return encode_record(db,tptr);
-- 
2.43.0


From 17e6027cc2381c326c7b4df8e2105bfdb538fcb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:21 +0000
Subject: [PATCH 18/65] fix: an error in a clause or an included file ends
 reading, and included paths and clauses of several includes are found

---
 Builtparser/dbparse.c | 12 ++++++++++--
 Parser/dbparse.c      | 12 ++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/Builtparser/dbparse.c b/Builtparser/dbparse.c
index 51ffeb8..e7f7115 100644
--- a/Builtparser/dbparse.c
+++ b/Builtparser/dbparse.c
@@ -151,6 +151,7 @@ int wr_import_otter_file(glb* g, char* filename, char* strasfile, cvec clvec, in
   void* pres2=NULL;
   void *mpool=NULL;  
   int tmp_comp_funs,tmplen;
+  gint clauselist;
   
   //printf("\nstarting to read file %s \n",filename);
 #ifdef DEBUG
@@ -172,6 +173,7 @@ int wr_import_otter_file(glb* g, char* filename, char* strasfile, cvec clvec, in
   //(g->parse_newpred_nr)=0;
   (g->parse_errmsg)=NULL;
   (g->parse_errflag)=0;
+  clauselist=(dbmemsegh(db)->clauselist); // included files may be the only ones to add clauses
 
   tmp_comp_funs=(g->use_comp_funs);
   (g->use_comp_funs)=0;
@@ -190,6 +192,7 @@ int wr_import_otter_file(glb* g, char* filename, char* strasfile, cvec clvec, in
       //if (g->print_flag)
       //printf("\ncould not open file %s\n",fnamestr);
       db_err_printf2("could not open file",fnamestr);
+      (g->parse_errflag)=1;
       return 1;
     }
     pp.db=db;
@@ -278,11 +281,13 @@ int wr_import_otter_file(glb* g, char* filename, char* strasfile, cvec clvec, in
      clause all exited 1 with no output at all
      (/opt/gk/Doc/MEMO_input_robustness.md S1/S2). Say what happened when
      nothing else has. */
-  if (!pres && pres2==NULL && !(g->parse_errmsg)) {
+  if (!pres && pres2==NULL && clauselist==(dbmemsegh(db)->clauselist) && 
+      !(g->parse_errmsg) && !(g->parse_errflag)) {
     db_err_printf2("no clauses found in",
                    (filename)?filename:(char*)"the input text");
   }
-  if (pres || pres2==NULL) return 1;
+  if (pres || g->parse_errflag) return 1;
+  if (pres2==NULL && clauselist==(dbmemsegh(db)->clauselist)) return 1;
   else return 0;
 }
 
@@ -983,6 +988,7 @@ void* wr_process_tptp_import_clause(glb* g, void* mpool, void* cl) {
   void* pathatom;
   char* str;
   char* filename=NULL;
+  char* tmpfilename;
   FILE* fp;
   int bytes;
   char* axiomfolder="/opt/TPTP/";
@@ -1079,7 +1085,9 @@ void* wr_process_tptp_import_clause(glb* g, void* mpool, void* cl) {
   printf("\nfilename %s\n",filename);
 #endif   
   tmp=(g->parse_is_included_file);
+  tmpfilename=(g->filename);
   wr_import_otter_file(g,filename,NULL,NULL,1);  
+  (g->filename)=tmpfilename;
   (g->parse_is_included_file)=tmp;
   return NULL;
 }
diff --git a/Parser/dbparse.c b/Parser/dbparse.c
index 51ffeb8..e7f7115 100644
--- a/Parser/dbparse.c
+++ b/Parser/dbparse.c
@@ -151,6 +151,7 @@ int wr_import_otter_file(glb* g, char* filename, char* strasfile, cvec clvec, in
   void* pres2=NULL;
   void *mpool=NULL;  
   int tmp_comp_funs,tmplen;
+  gint clauselist;
   
   //printf("\nstarting to read file %s \n",filename);
 #ifdef DEBUG
@@ -172,6 +173,7 @@ int wr_import_otter_file(glb* g, char* filename, char* strasfile, cvec clvec, in
   //(g->parse_newpred_nr)=0;
   (g->parse_errmsg)=NULL;
   (g->parse_errflag)=0;
+  clauselist=(dbmemsegh(db)->clauselist); // included files may be the only ones to add clauses
 
   tmp_comp_funs=(g->use_comp_funs);
   (g->use_comp_funs)=0;
@@ -190,6 +192,7 @@ int wr_import_otter_file(glb* g, char* filename, char* strasfile, cvec clvec, in
       //if (g->print_flag)
       //printf("\ncould not open file %s\n",fnamestr);
       db_err_printf2("could not open file",fnamestr);
+      (g->parse_errflag)=1;
       return 1;
     }
     pp.db=db;
@@ -278,11 +281,13 @@ int wr_import_otter_file(glb* g, char* filename, char* strasfile, cvec clvec, in
      clause all exited 1 with no output at all
      (/opt/gk/Doc/MEMO_input_robustness.md S1/S2). Say what happened when
      nothing else has. */
-  if (!pres && pres2==NULL && !(g->parse_errmsg)) {
+  if (!pres && pres2==NULL && clauselist==(dbmemsegh(db)->clauselist) && 
+      !(g->parse_errmsg) && !(g->parse_errflag)) {
     db_err_printf2("no clauses found in",
                    (filename)?filename:(char*)"the input text");
   }
-  if (pres || pres2==NULL) return 1;
+  if (pres || g->parse_errflag) return 1;
+  if (pres2==NULL && clauselist==(dbmemsegh(db)->clauselist)) return 1;
   else return 0;
 }
 
@@ -983,6 +988,7 @@ void* wr_process_tptp_import_clause(glb* g, void* mpool, void* cl) {
   void* pathatom;
   char* str;
   char* filename=NULL;
+  char* tmpfilename;
   FILE* fp;
   int bytes;
   char* axiomfolder="/opt/TPTP/";
@@ -1079,7 +1085,9 @@ void* wr_process_tptp_import_clause(glb* g, void* mpool, void* cl) {
   printf("\nfilename %s\n",filename);
 #endif   
   tmp=(g->parse_is_included_file);
+  tmpfilename=(g->filename);
   wr_import_otter_file(g,filename,NULL,NULL,1);  
+  (g->filename)=tmpfilename;
   (g->parse_is_included_file)=tmp;
   return NULL;
 }
-- 
2.43.0


From 696f4c9accd6c3c928eb6331309e3030814def70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:59 +0000
Subject: [PATCH 19/65] fix: matching a constant against a compound term read
 the constant as a record

---
 Reasoner/unify.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Reasoner/unify.c b/Reasoner/unify.c
index 20783ef..f015f33 100644
--- a/Reasoner/unify.c
+++ b/Reasoner/unify.c
@@ -303,6 +303,7 @@ gint wr_match_term_aux(glb* g, gint x, gint y, int uniquestrflag) {
   // now x is not var
   if (!isdatarec(x)) {
     if (WR_EQUAL_TERM(g,x,y,uniquestrflag)) return 1;  
+    return 0;
   } 
   if (!isdatarec(y)) return 0; // x is datarec but y is not    
   // now x and y are different datarecs
@@ -378,6 +379,7 @@ gint wr_eqmodvars_term_aux(glb* g, gint x, gint y, int uniquestrflag) {
   // now x is not var
   if (!isdatarec(x)) {
     if (WR_EQUAL_TERM(g,x,y,uniquestrflag)) return 1;  
+    return 0;
   } 
   if (!isdatarec(y)) return 0; // x is datarec but y is not    
   // now x and y are different datarecs
@@ -481,6 +483,7 @@ gint wr_nomatch_term_uniquevars(glb* g, gint x, gint y, int uniquestrflag) {
   // now x is not var
   if (!isdatarec(x)) {
     if (WR_EQUAL_TERM(g,x,y,uniquestrflag)) return 0;  
+    return (isvar(y)) ? 1 : 2;
   }   
   if (isvar(y)) return 1; // x is not var, y is var
   // x and y cannot be vars
-- 
2.43.0


From 7ab7f04b669b9c3f5ecd59bbc7372ee940718a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:25 +0000
Subject: [PATCH 20/65] fix: signed overflow and out of range conversion in
 term hashes

---
 Reasoner/hash.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/Reasoner/hash.c b/Reasoner/hash.c
index 81d4754..a99768a 100644
--- a/Reasoner/hash.c
+++ b/Reasoner/hash.c
@@ -32,6 +32,7 @@
 extern "C" {
 #endif
 
+#include <math.h>
 #include "rincludes.h"  
  
 
@@ -329,6 +330,7 @@ gint wr_term_hash(glb* g, gint x) {
   gptr xptr;
   int i, start, end;  
   gint hash=0;
+  size_t uhash;
   gint tmp;
 
   //printf("\nwr_term_hash called with x %d type %d\n",x,wg_get_encoded_type(g->db,x));
@@ -346,8 +348,11 @@ gint wr_term_hash(glb* g, gint x) {
   for(i=start;i<end;i++) {
     tmp=wr_term_hash(g,xptr[i]);  
     //printf("\nhash for subterm %d is %d \n:",i,hash); 
-    hash = tmp + (hash << 6) + (hash << 16) - hash;
-    if (hash<0) hash=0-hash;
+    // unsigned: wraps around for deep or wide terms
+    uhash = (size_t)hash;
+    uhash = (size_t)tmp + (uhash << 6) + (uhash << 16) - uhash;
+    hash = (gint)uhash;
+    if (hash<0) hash=(gint)(0-uhash);
   }   
   hash=(gint)(0+(hash%(NROF_CLTERM_HASHVEC_ELS-2)));
   if (hash<0) hash=0-hash;
@@ -461,6 +466,7 @@ static int int_hash(int x) {
 
 static int double_hash(double x) {
   if (x==(double)0) return 20;
+  if (x>2000000.0 || x<-2000000.0) x=fmod(x,2000000.0); // keep x*1000 in the int range
   return int_hash((int)(x*1000));  
 } 
 
-- 
2.43.0


From 2b6c250834b1d19b686dfe9d590fbdf8f91632af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:10 +0000
Subject: [PATCH 21/65] fix: the derivation tag of an input clause was read
 from beyond its history record

---
 Reasoner/history.c | 1 +
 Reasoner/resolve.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/Reasoner/history.c b/Reasoner/history.c
index 4dc3499..76dd76e 100644
--- a/Reasoner/history.c
+++ b/Reasoner/history.c
@@ -787,6 +787,7 @@ gptr wr_flatten_history(glb* g, void* mpool, gint history, gptr cl, int depth, i
   */
   if (!history) return NULL;
   len=wg_get_record_len(db,otp(db,history));   
+  if (len<=HISTORY_PREFIX_LEN) return *assoc; // input clause: no derivation fields
   head=wr_get_history_record_field(db,otp(db,history),HISTORY_DERIVATION_TAG_POS);
   htype=wg_get_encoded_type(db,head);
   if (htype!=WG_INTTYPE) return NULL;
diff --git a/Reasoner/resolve.c b/Reasoner/resolve.c
index 21f24a5..fbcc9ee 100644
--- a/Reasoner/resolve.c
+++ b/Reasoner/resolve.c
@@ -1362,6 +1362,7 @@ int wr_get_cl_history_tag(glb* g, gptr cl) {
   
   history=wr_get_history(g,cl);
   if (!history) return 0;
+  if (wg_get_record_len(db,otp(db,history))<=HISTORY_PREFIX_LEN) return 0; // input clause
   head=wr_get_history_record_field(db,otp(db,history),HISTORY_DERIVATION_TAG_POS);
   htype=wg_get_encoded_type(db,head);
   if (htype!=WG_INTTYPE) return 0;
-- 
2.43.0


From 8fc78c9c0c86e290f32db148b84f47ce28c2ad9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:38 +0000
Subject: [PATCH 22/65] fix: arithmetic instances used a clause hash that
 exists only for instance generating strategies

---
 Reasoner/arithinst.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Reasoner/arithinst.c b/Reasoner/arithinst.c
index d7b9cee..5fee402 100644
--- a/Reasoner/arithinst.c
+++ b/Reasoner/arithinst.c
@@ -716,7 +716,8 @@ static int wr_arith_store_result(glb* g,gptr parent,gptr rptr,int rpos,
     ++(g->stat_arithinst_proofs);
     return 1;
   }
-  tmp=wr_derived_cl_cut_and_subsume(g,rptr,rpos,&clhash);
+  // the clause hash exists only for strategies generating instances
+  tmp=wr_derived_cl_cut_and_subsume(g,rptr,rpos,(g->prop_hash_clauses ? &clhash : NULL));
   if (tmp<0) return 0;
   if (tmp>0) {
     cuts=g->cut_clvec;
@@ -764,7 +765,7 @@ static int wr_arith_store_result(glb* g,gptr parent,gptr rptr,int rpos,
   g->avg_kept_weight=avg;
   resmeta=wr_calc_clause_meta(g,res,cl_metablock);
   hash=wr_add_cl_to_unithash(g,res,resmeta);
-  if (hash<0) wr_push_prop_clausehash(g,rotp(g,g->prop_hash_clauses),clhash,res);
+  if (hash<0 && g->prop_hash_clauses) wr_push_prop_clausehash(g,rotp(g,g->prop_hash_clauses),clhash,res);
   if (g->propagate) {
     if (hash>=0) {
       wr_propagate_unit(g,res,resmeta,hash,parent);
-- 
2.43.0


From ff214c09a774c335fb6a33645c50c7ed55f3cdb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:35 +0000
Subject: [PATCH 23/65] fix: only one process of a parallel search prints a
 result, and a worker without a proof or killed by a signal does not end or
 hang the search

---
 Main/gkc.c       |  3 +++
 Reasoner/rmain.c | 55 ++++++++++++++++++++++++++++++++++++++++++++++--
 Reasoner/rmain.h |  2 ++
 3 files changed, 58 insertions(+), 2 deletions(-)

diff --git a/Main/gkc.c b/Main/gkc.c
index b33b20c..6c801fe 100644
--- a/Main/gkc.c
+++ b/Main/gkc.c
@@ -422,6 +422,7 @@ int gkc_main(int argc, char **argv) {
       err = wg_run_converter(shmptr,inputname,stratfile,informat,NULL,NULL);
     } else {      
       err = wg_run_reasoner(shmptr,inputname,stratfile,informat,NULL,strattext);
+      if (err && wg_is_worker_process()) exit(1); // the parent process says it
       if (err) {
         if (printlevel>11) printf("\n\n");
         if (json) printf("\n{\"result\": \"proof not found\"}\n");
@@ -709,6 +710,7 @@ int gkc_main(int argc, char **argv) {
       //err = wg_run_converter(shmptrlocal,inputname,stratfile,informat,NULL,NULL);
     } else {
       err = wg_run_reasoner(shmptrlocal,inputname,stratfile,informat,NULL,strattext);
+      if (err && wg_is_worker_process()) exit(1); // the parent process says it
       if (err) {
         if (printlevel>11) printf("\n\n");
         if (json) printf("\n{\"result\": \"proof not found\"}\n");        
@@ -912,6 +914,7 @@ int gkc_main(int argc, char **argv) {
 }
 
 void sig_handler(int signum){
+  if (!wg_claim_time_limit()) return; // a worker process is printing its result
   fflush(stdout);
   printf("\n{\"result\": \"time limit, proof not found\"}\n");
 #ifdef __EMSCRIPTEN__  
diff --git a/Reasoner/rmain.c b/Reasoner/rmain.c
index 622d9e4..7f1671c 100644
--- a/Reasoner/rmain.c
+++ b/Reasoner/rmain.c
@@ -48,7 +48,9 @@
 #include "../Parser/dbparse.h"
 #endif
 #include <sys/wait.h> 
+#include <sys/mman.h>
 #include <unistd.h> 
+#include <errno.h>
 //#include <sys/signal.h>
 #include <signal.h>
 #ifdef __linux__
@@ -114,6 +116,9 @@ void wr_store_offset_termhash(glb* g, gint* hasharr, int pos);
 
 void* wr_free_analyze_g(glb* g);
 
+static int worker_process=0;              // 1 in the forked processes of a parallel search
+static volatile int* result_claim=NULL;   // pid of the process that prints the result, shared by all processes
+
 /* ====== Functions ============== */
 
 
@@ -131,6 +136,36 @@ void sig_usr(int signo, siginfo_t *sinfo, void *context){
 */
 #endif
 
+/* 
+  Only one of the processes of a parallel search prints a result:
+  returns 1 if this is the one. No time limit message may come after.
+*/
+
+static int wr_claim_result(void) {
+#if !defined(_WIN32) && !defined(__EMSCRIPTEN__)
+  int pid;
+
+  alarm(0);
+  if (result_claim) {
+    pid=(int)getpid();
+    if (!__sync_bool_compare_and_swap(result_claim,0,pid) && *result_claim!=pid) return 0;
+  }
+#endif
+  return 1;
+}
+
+/* the same for the time limit message of the signal handler */
+
+int wg_claim_time_limit(void) {
+  return wr_claim_result();
+}
+
+/* 1 in a forked process of a parallel search */
+
+int wg_is_worker_process(void) {
+  return worker_process;
+}
+
 int wg_run_reasoner(void *db, char* inputname, char* stratfile, int informat,  
                     char* outfilename, char* guidestr) {
   glb* g;    // our g (globals)
@@ -157,6 +192,9 @@ int wg_run_reasoner(void *db, char* inputname, char* stratfile, int informat,
   float total_seconds,total_dseconds;
   int forkpids[64];
 
+  worker_process=0;
+  result_claim=NULL;
+
   //printf("\n guidestr %s\n",guidestr);
   if (!stratfile && (!guidestr || !strncmp(guidestr,"LTBSPECIAL",10))) {
     //guide=wr_parse_guide_file(argc,argv,&guidebuf);  
@@ -282,6 +320,10 @@ int wg_run_reasoner(void *db, char* inputname, char* stratfile, int informat,
   if (maxforks>64) maxforks=64;
   if (maxforks==1) maxforks=0;
   setbuf(stdout, 0);
+  if (maxforks) {
+    result_claim=(int*)mmap(NULL,sizeof(int),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
+    if ((void*)result_claim==MAP_FAILED) result_claim=NULL;
+  }
   for(forknr=0; forknr<maxforks; forknr++) {
     pid=fork();
 
@@ -295,6 +337,7 @@ int wg_run_reasoner(void *db, char* inputname, char* stratfile, int informat,
       break;
     } else if (pid==0) {
       // child
+      worker_process=1;
       //printf("\nafter fork nr %d with pid 0 (child)\n",forknr);
 #ifdef __linux__      
       // make child to terminate if parent terminates
@@ -337,16 +380,22 @@ int wg_run_reasoner(void *db, char* inputname, char* stratfile, int informat,
         }          
       }       
       cpid=waitpid(-1,&stat, 0);
+      if (cpid<0) {
+        if (errno==EINTR) continue;
+        break; // no workers left
+      }
 
       //printf("\nwaitpid ended for cpid %d\n",cpid);
       //fflush(stdout);
 
-      if (WIFEXITED(stat)) {
+      if (WIFEXITED(stat) || WIFSIGNALED(stat)) {
 
         //printf("\nWIFEXITED(stat) true for cpid %d\n",cpid);
         //fflush(stdout);
 
-        err = WEXITSTATUS(stat);
+        // a worker killed by a signal has no result
+        if (WIFEXITED(stat)) err = WEXITSTATUS(stat);
+        else err = 1;
 
         //printf("Child inside subprocess checking %d terminated with status err: %d\n", cpid, err); 
         //fflush(stdout);
@@ -837,9 +886,11 @@ int wg_run_reasoner(void *db, char* inputname, char* stratfile, int informat,
     //printf("\n res is %d\n",res);
     if (res==0) {
       //wr_printf("\n\nProof found.\n"); 
+      if (!wr_claim_result()) return 1;
       wr_show_result(g,g->proof_history);
     } else if (res==1) {
       if (wr_have_answers(g)) {
+        if (!wr_claim_result()) return 1;
         wr_show_result(g,g->proof_history);
         if (g->print_json) res=0; // json output has one result object
       } else {
diff --git a/Reasoner/rmain.h b/Reasoner/rmain.h
index cfad139..87ed1ab 100644
--- a/Reasoner/rmain.h
+++ b/Reasoner/rmain.h
@@ -39,6 +39,8 @@
 void sig_usr(int signo, siginfo_t *sinfo, void *context);
 */
 
+int wg_claim_time_limit(void);
+int wg_is_worker_process(void);
 int wg_run_reasoner(void *db, char* inputname, char* stratfile, int informat,  
                     char* outfilename, char* guidestr);
 int wg_run_converter(void *db, char* inputname, char* stratfile, int informat, 
-- 
2.43.0


From e57942b292ba11a2a30d4cd48b9b9d2841372eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:13 +0000
Subject: [PATCH 24/65] fix: a worker process whose next run is beyond the run
 list started an unlimited default run

---
 Reasoner/rmain.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Reasoner/rmain.c b/Reasoner/rmain.c
index 7f1671c..dbdf4bc 100644
--- a/Reasoner/rmain.c
+++ b/Reasoner/rmain.c
@@ -583,6 +583,12 @@ int wg_run_reasoner(void *db, char* inputname, char* stratfile, int informat,
       sys_free(g);
       if (analyze_g) analyze_g=wr_free_analyze_g(analyze_g);
       return -1;
+    } else if (guideres>0 && iter>=guideres && !guidetext) {
+      // the run list ends before this run of a worker process
+      (dbmemsegh(local_db)->local_g)=NULL;
+      sys_free(g);
+      if (!res) res=1;
+      break;
     } else if (guidetext) {
       tmp=strlen(guidetext);
       if (tmp>=MAX_GUIDETEXT_LEN) tmp=MAX_GUIDETEXT_LEN-2;
-- 
2.43.0


From 9246185ff50eec1b590507c3c81fc8c698eefef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:14 +0000
Subject: [PATCH 25/65] fix: a worker that has claimed the result prints it at
 once instead of waiting for an output slot

---
 Reasoner/history.c | 25 -------------------------
 1 file changed, 25 deletions(-)

diff --git a/Reasoner/history.c b/Reasoner/history.c
index 76dd76e..3cdc0e8 100644
--- a/Reasoner/history.c
+++ b/Reasoner/history.c
@@ -1270,37 +1270,12 @@ int wr_show_result(glb* g, gint history) {
   char* buf;
   int ansnr, blen, bpos;
   FILE* outfile; 
-  int sleepi;
-  gint sleept, coeff, limit_low, limit_high, usecs;
   /*
   printf("\n%d\n",(dbmemsegh(db)->tptp));
   printf("\n%d\n",(g->print_tptp));
   printf("\n%d\n",(g->print_clauses_tptp));
   printf("\n%d\n",(g->print_proof_tptp));
   */
- #ifndef _WIN32 
-  struct timeval now;
-  // selecting a timeslot for proof output  
-  if ((dbmemsegh(g->local_db)->max_forks)>1) {    
-    coeff=(gint)(1000000.0/((dbmemsegh(g->local_db)->max_forks))); 
-    sleept=1000;
-    limit_low=(g->current_fork_nr)*coeff;
-    limit_high=((g->current_fork_nr)+1)*coeff;
-    //printf("\ng->current_fork_nr %d coeff %ld limit_low  %ld limit_high %ld\n",
-    //         g->current_fork_nr,coeff,limit_low,limit_high);
-    for(sleepi=0;sleepi<2000;sleepi++) {
-      gettimeofday(&now, NULL);
-      usecs=now.tv_usec;
-      if (limit_low<usecs && usecs<limit_high) {
-        //printf("\ng->current_fork_nr %d found slot at usecs %ld\n",g->current_fork_nr,usecs);
-        break;
-      } 
-      usleep(sleept); 
-    }
-    //printf("\nsleepi iterations done: %d\n",sleepi);
-  }
-#endif      
-
   // create buf for printing
   namebuf[0]=0;
   blen=1000;
-- 
2.43.0


From d96789cb4cc9f6a52b0de98798b9c8bd9c9d3ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:12 +0000
Subject: [PATCH 26/65] fix: a strategy text or file name longer than its
 buffer is cut with a terminating zero

---
 Reasoner/rmain.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/Reasoner/rmain.c b/Reasoner/rmain.c
index dbdf4bc..ee8eaad 100644
--- a/Reasoner/rmain.c
+++ b/Reasoner/rmain.c
@@ -592,7 +592,8 @@ int wg_run_reasoner(void *db, char* inputname, char* stratfile, int informat,
     } else if (guidetext) {
       tmp=strlen(guidetext);
       if (tmp>=MAX_GUIDETEXT_LEN) tmp=MAX_GUIDETEXT_LEN-2;
-      memcpy(g->guidetext,guidetext,tmp+1);
+      memcpy(g->guidetext,guidetext,tmp);
+      (g->guidetext)[tmp]=0;
     }
     if (!(g->print_flag)) (g->print_level_flag)=0;
     if ((g->print_level_flag)<0) (g->print_level_flag)=default_print_level;
@@ -648,7 +649,8 @@ int wg_run_reasoner(void *db, char* inputname, char* stratfile, int informat,
       return -1; 
     }   
     if (filename) {
-      strncpy((g->filename),filename,MAX_FILENAME_LEN);
+      strncpy((g->filename),filename,MAX_FILENAME_LEN-1);
+      (g->filename)[MAX_FILENAME_LEN-1]=0;
     } else {
       strcpy((g->filename),"input_text");
     }  
@@ -1121,8 +1123,10 @@ int wg_run_converter(void *db, char* inputname, char* stratfile, int informat,
     sys_free(g);
     return -1; 
   }   
-  if (filename)
-    strncpy((g->filename),filename,MAX_FILENAME_LEN);
+  if (filename) {
+    strncpy((g->filename),filename,MAX_FILENAME_LEN-1);
+    (g->filename)[MAX_FILENAME_LEN-1]=0;
+  }
   else
     strncpy((g->filename),"input_text",MAX_FILENAME_LEN); 
   if (outfilename) (g->outfilename)=outfilename;    
-- 
2.43.0


From c59cf11bcbe0c8ddfabe70c241a33fb79aa4871e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:57 +0000
Subject: [PATCH 27/65] fix: the strategy text of a run without a run list was
 printed from uninitialised memory

---
 Reasoner/glb.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Reasoner/glb.c b/Reasoner/glb.c
index 68dda1b..343ad16 100644
--- a/Reasoner/glb.c
+++ b/Reasoner/glb.c
@@ -116,6 +116,7 @@ glb* wr_glb_new_simple(void* db) {
 
 int wr_glb_init_simple(glb* g) {
   //printf("\nwr_glb_init_simple called\n");
+  (g->guidetext)[0]=0;
   (g->filename)=NULL;
   (g->outfilename)=NULL;
   (g->proof_found)=0; // becomes 1 if proof found
-- 
2.43.0


From a30f3942f6d2a9bf9dfada561c16133c0baa4bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:49 +0000
Subject: [PATCH 28/65] fix: $is_list, $is_map, $is_atom and $is_distinct of a
 list evaluated to its first element

---
 Reasoner/build.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Reasoner/build.c b/Reasoner/build.c
index bea472e..d5d0827 100644
--- a/Reasoner/build.c
+++ b/Reasoner/build.c
@@ -1107,6 +1107,8 @@ gint wr_compute_from_termptr(glb* g, gptr tptr, int comp) {
     case COMP_FUN_IS_MAP:
     case COMP_FUN_IS_ATOM:
     case COMP_FUN_IS_UNIQUE:
+      res=wr_compute_fun_arith1(g,tptr,comp);
+      break;
     case COMP_FUN_FIRST:  
       res=wr_compute_fun_list(g,tptr,1);
       break;
-- 
2.43.0


From 14b48670f284820750379f9bbc151756b6603be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:48 +0000
Subject: [PATCH 29/65] fix: $substrat compared only the first character, and
 was left unevaluated instead of false where the string does not fit

---
 Reasoner/build.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Reasoner/build.c b/Reasoner/build.c
index d5d0827..0d01e6e 100644
--- a/Reasoner/build.c
+++ b/Reasoner/build.c
@@ -1469,12 +1469,12 @@ gint wr_compute_fun_str(glb* g, gptr tptr, int comp) {
       ctype=wg_get_encoded_type(db,c);
       if (ctype!=WG_INTTYPE) return encode_record(db,tptr);
       ci=wg_decode_int(db,c);
-      if (ci<0) return encode_record(db,tptr);
+      if (ci<0) return ACONST_FALSE;
       len=strlen(bs);
-      if (ci>len) return encode_record(db,tptr);      
+      if (ci>len) return ACONST_FALSE;
       len2=strlen(as);
-      if (len2+ci>len) return encode_record(db,tptr);
-      itmp=memcmp(bs+ci,as,1);
+      if (len2+ci>len) return ACONST_FALSE;
+      itmp=memcmp(bs+ci,as,len2);
       if (!itmp) return ACONST_TRUE;  
       else return ACONST_FALSE;     
       break;
-- 
2.43.0


From 2691071f96197d91a51aa2c450235a46a197cf70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:52 +0000
Subject: [PATCH 30/65] fix: $substr, $is_substr and $substrat were evaluated
 on ordinary constants

---
 Reasoner/build.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Reasoner/build.c b/Reasoner/build.c
index 0d01e6e..2b2467c 100644
--- a/Reasoner/build.c
+++ b/Reasoner/build.c
@@ -1455,6 +1455,8 @@ gint wr_compute_fun_str(glb* g, gptr tptr, int comp) {
   b=tptr[RECORD_HEADER_GINTS+(g->unify_funarg2pos)];
   btype=wg_get_encoded_type(db,b);
   if (btype!=WG_URITYPE) return encode_record(db,tptr);
+  // only distinct symbols are strings
+  if (!wr_uri_is_unique(g,a) || !wr_uri_is_unique(g,b)) return encode_record(db,tptr);
   as=wg_decode_uri(db,a);
   bs=wg_decode_uri(db,b);
   if(!as || !bs) return encode_record(db,tptr);
-- 
2.43.0


From 6619360cfb6a930077c948c4524e861dc9afe1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:18 +0000
Subject: [PATCH 31/65] fix: lists that differ after a position whose elements
 may be equal were not found unequal

---
 Reasoner/build.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/Reasoner/build.c b/Reasoner/build.c
index 2b2467c..087c550 100644
--- a/Reasoner/build.c
+++ b/Reasoner/build.c
@@ -1228,13 +1228,11 @@ gint wr_compute_fun_equal_terms(glb* g, gint a, gint b, gptr tptr) {
     bel=wg_get_field(db,bptr,2);    
     tmp=wr_compute_fun_equal_terms(g,ael,bel,tptr);
     if (tmp==ACONST_FALSE) return ACONST_FALSE;
-    if (tmp!=ACONST_TRUE) return tmp;
+    // the first elements may be equal: a later position can still differ
     ael=wg_get_field(db,aptr,3);
     bel=wg_get_field(db,bptr,3);     
-    tmp=wr_compute_fun_equal_terms(g,ael,bel,tptr);
-    if (tmp==ACONST_FALSE) return ACONST_FALSE;
-    if (tmp!=ACONST_TRUE) return tmp;
-    return ACONST_TRUE;
+    if (wr_compute_fun_equal_terms(g,ael,bel,tptr)==ACONST_FALSE) return ACONST_FALSE;
+    return encode_record(db,tptr);
   } else if (atype==WG_URITYPE && btype==WG_URITYPE &&
             (wr_uri_is_unique(g,a) || wr_uri_is_list(g,a)) && 
             (wr_uri_is_unique(g,b) || wr_uri_is_list(g,b)) ) { 
-- 
2.43.0


From 7cc575d52f7bea1c719117e8142c2f4502240810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:06 +0000
Subject: [PATCH 32/65] fix: equations rewrote numbers and distinct symbols
 into other constants, hiding that they are unequal

---
 Reasoner/strat.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/Reasoner/strat.c b/Reasoner/strat.c
index ce036a3..3542101 100644
--- a/Reasoner/strat.c
+++ b/Reasoner/strat.c
@@ -69,6 +69,7 @@ static int wr_order_eqterms_const_weight(glb* g, gint a);
 static int wr_order_eqterms_weight_vars(glb* g, gint x, gptr vars, gptr vb);
 static int wr_order_eqterms_lex_order(glb* g, gint x, gint y, gptr vb);
 static int wr_order_eqterms_const_lex_smaller(glb* g, gint x, gint y);
+static int wr_order_eqterms_typed_const(glb* g, gint x);
 
 /* ====== Functions ============== */
 
@@ -1459,11 +1460,28 @@ static int wr_order_eqterms_lex_order2(glb* g, gint x, gint y, gptr vb) {
 */
 
 static int wr_order_eqterms_const_lex_smaller(glb* g, gint x, gint y) {
+  // numbers, distinct symbols and the empty list are smaller than the other
+  // constants: rewriting these away would hide that they are unequal
+  int xtyped=wr_order_eqterms_typed_const(g,x);
+  int ytyped=wr_order_eqterms_typed_const(g,y);
+  if (xtyped!=ytyped) return xtyped;
   //if (x<y) return 1;  // TESTING
   if (x>y) return 1; // Normal in may 2020
   else return 0; 
 }
 
+static int wr_order_eqterms_typed_const(glb* g, gint x) {
+  switch (wg_get_encoded_type(g->db,x)) {
+    case WG_INTTYPE:
+    case WG_DOUBLETYPE:
+      return 1;
+    case WG_URITYPE:
+      return (wr_uri_is_unique(g,x) || wr_uri_is_list(g,x)) ? 1 : 0;
+    default:
+      return 0;
+  }
+}
+
 
 /*
  
-- 
2.43.0


From 392d0df249da8c6ba3584314155c7b84a43f2170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:09 +0000
Subject: [PATCH 33/65] fix: distinct symbols named as an arithmetic operator
 were printed as the function

---
 Printer/dbotterprint.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Printer/dbotterprint.c b/Printer/dbotterprint.c
index e362a76..72d6ee7 100644
--- a/Printer/dbotterprint.c
+++ b/Printer/dbotterprint.c
@@ -782,6 +782,7 @@ int wr_strprint_term_otter(glb* g, gint rec,int printlevel, char** buf, int *len
     } else {  
       if (//(g->print_clauses_tptp) && 
           wg_get_encoded_type(db,enc)==WG_URITYPE &&
+          wg_decode_uri_prefix(db,enc)==NULL &&
           wg_decode_str(db,enc) && strlen(wg_decode_str(db,enc))==1) {
         if (!strcmp(wg_decode_str(db,enc),"+")) {
           pos+=snprintf((*buf)+pos,(*len)-pos,(g->print_clauses_json) ? "\"$sum\"" : "$sum");
-- 
2.43.0


From b8939cf4bc137372189d33407f0599e63b490d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:31 +0000
Subject: [PATCH 34/65] fix: whether an input unit clause was computed depended
 on the clauses processed before it

---
 Reasoner/simp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Reasoner/simp.c b/Reasoner/simp.c
index c92f80d..91b075d 100644
--- a/Reasoner/simp.c
+++ b/Reasoner/simp.c
@@ -94,6 +94,7 @@ gptr wr_simplify_cl(glb* g, gptr cl, gptr cl_metablock) {
 
     //meta=RECORD_META_FACT_CLAUSE;
     //blt=wr_build_calc_term(g,rptr[LIT_ATOM_POS]);
+    if (g->use_comp_funs_strat) g->use_comp_funs=1;
     if ((g->use_rewrite_terms_strat) && (g->have_rewrite_terms)) (g->build_rewrite)=1;
     if ((g->build_rewrite) ||
         ((g->use_comp_funs) && wr_computable_termptr(g,cl)) ) {
-- 
2.43.0


From d8089e2c554b25d4f2c274d551f65488f98ebaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:22 +0000
Subject: [PATCH 35/65] fix: a missing operand in a formula was accepted and
 its value read from uninitialised memory

---
 Builtparser/dbotter.tab.c | 6 ++++++
 Parser/dbotter.y          | 3 ++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/Builtparser/dbotter.tab.c b/Builtparser/dbotter.tab.c
index 2137f70..5f93332 100644
--- a/Builtparser/dbotter.tab.c
+++ b/Builtparser/dbotter.tab.c
@@ -1614,6 +1614,12 @@ yyreduce:
 #line 1615 "Parser/dbotter.tab.c"
     break;
 
+  case 30:
+#line 154 "Parser/dbotter.y"
+                                { yyerror(parm,scanner,"syntax error, a term or a formula is missing"); YYABORT; }
+#line 1620 "Parser/dbotter.tab.c"
+    break;
+
   case 31:
 #line 155 "Parser/dbotter.y"
                                       { yyval = MKWGPAIR(
diff --git a/Parser/dbotter.y b/Parser/dbotter.y
index 10e1705..237c291 100644
--- a/Parser/dbotter.y
+++ b/Parser/dbotter.y
@@ -151,7 +151,8 @@ log:       term                   { $$ = $1; }
 ;
 
 
-connlog:           
+connlog:   /* an operand is missing */
+                                { yyerror(parm,scanner,"syntax error, a term or a formula is missing"); YYABORT; }
          | log '&' log    %prec '&'   { $$ = MKWGPAIR(
                                           PP,
                                           MKWGCONST(PP,"and"),
-- 
2.43.0


From 4fb8cbe2c02d5cef9867a4cc8df84bbca36ce04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:39 +0000
Subject: [PATCH 36/65] fix: a json file starting with a zero byte made the
 reader look before its line buffer

---
 Builtparser/jsparse.c | 8 ++------
 Parser/jsparse.c      | 8 ++------
 2 files changed, 4 insertions(+), 12 deletions(-)

diff --git a/Builtparser/jsparse.c b/Builtparser/jsparse.c
index fe44d9b..b2ccd20 100644
--- a/Builtparser/jsparse.c
+++ b/Builtparser/jsparse.c
@@ -803,12 +803,8 @@ int wg_getline(unsigned char **line, size_t *len, FILE *fp) {
     len_used += chunk_used;
     (*line)[len_used] = '\0';
 
-    // Check if *line contains '\n', if yes, return the *line length
-    if((*line)[len_used - 1] == '\n') {
-      return len_used;
-    } else {
-      return len_used;
-    }
+    // length is 0 if the chunk read starts with a zero byte
+    return len_used;
   }
   return -1;
 }
diff --git a/Parser/jsparse.c b/Parser/jsparse.c
index fe44d9b..b2ccd20 100644
--- a/Parser/jsparse.c
+++ b/Parser/jsparse.c
@@ -803,12 +803,8 @@ int wg_getline(unsigned char **line, size_t *len, FILE *fp) {
     len_used += chunk_used;
     (*line)[len_used] = '\0';
 
-    // Check if *line contains '\n', if yes, return the *line length
-    if((*line)[len_used - 1] == '\n') {
-      return len_used;
-    } else {
-      return len_used;
-    }
+    // length is 0 if the chunk read starts with a zero byte
+    return len_used;
   }
   return -1;
 }
-- 
2.43.0


From 9e0d3d0039711828827dd56603513fc97f8679ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:19 +0000
Subject: [PATCH 37/65] fix: a variable used as a function symbol was accepted
 and its term could grow without an end

---
 Builtparser/dbparse.c | 4 ++++
 Parser/dbparse.c      | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/Builtparser/dbparse.c b/Builtparser/dbparse.c
index e7f7115..86c8801 100644
--- a/Builtparser/dbparse.c
+++ b/Builtparser/dbparse.c
@@ -1815,6 +1815,10 @@ gint wr_parse_primitive(glb* g,void* mpool,void* atomptr, char** vardata, int po
         */       
         break; 
       case WG_VARTYPE:
+        if (!pos) {
+          wr_show_parse_error(g,"a variable used as a function or a predicate: %s",(str1 ? str1 : ""));
+          return WG_ILLEGAL;
+        }
         intdata=0;
         DPRINTF("starting WG_VARTYPE block\n");
         for(i=0;i<VARDATALEN;i++) {
diff --git a/Parser/dbparse.c b/Parser/dbparse.c
index e7f7115..86c8801 100644
--- a/Parser/dbparse.c
+++ b/Parser/dbparse.c
@@ -1815,6 +1815,10 @@ gint wr_parse_primitive(glb* g,void* mpool,void* atomptr, char** vardata, int po
         */       
         break; 
       case WG_VARTYPE:
+        if (!pos) {
+          wr_show_parse_error(g,"a variable used as a function or a predicate: %s",(str1 ? str1 : ""));
+          return WG_ILLEGAL;
+        }
         intdata=0;
         DPRINTF("starting WG_VARTYPE block\n");
         for(i=0;i<VARDATALEN;i++) {
-- 
2.43.0


From 4b9ba73f2162208fad3e624d51a76e7dc0be161f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:28 +0000
Subject: [PATCH 38/65] fix: json input without any clauses ended without a
 result or an error

---
 Builtparser/jsparse.c | 12 +++++++++---
 Parser/jsparse.c      | 12 +++++++++---
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/Builtparser/jsparse.c b/Builtparser/jsparse.c
index b2ccd20..fd02f07 100644
--- a/Builtparser/jsparse.c
+++ b/Builtparser/jsparse.c
@@ -190,7 +190,7 @@ int wr_import_js_file(glb* g, char* filename, char* strasfile, cvec clvec, int i
   //char* fnamestr;  
   //FILE* fp;    
   //char* buf; 
-  //int pres=1;
+  int pres=0;
   void* preprocessed=NULL;
   void* pres2=NULL;
   void *mpool;
@@ -297,7 +297,7 @@ int wr_import_js_file(glb* g, char* filename, char* strasfile, cvec clvec, int i
 #ifdef DEBUG
     printf("\nreading from file %s\n",filename);
 #endif          
-    wr_yajl_parse_file(g,&pp,filename, 
+    pres=wr_yajl_parse_file(g,&pp,filename, 
       clvec, isincluded,
       askpolarity, askinfo, mpool, streaming);   
   } else {
@@ -309,7 +309,7 @@ int wr_import_js_file(glb* g, char* filename, char* strasfile, cvec clvec, int i
 #endif    
     pp.length = strlen(strasfile);
     pp.pos = 0;
-    wr_yajl_parse_string(g,&pp,strasfile);       
+    pres=wr_yajl_parse_string(g,&pp,strasfile);       
   }   
 #ifdef DEBUG
   printf("\njson parser result:\n");    
@@ -325,6 +325,12 @@ int wr_import_js_file(glb* g, char* filename, char* strasfile, cvec clvec, int i
     }  
   }
   *askinfo=pp.askinfo;
+  // say what happened when nothing else has
+  if (!pres && pres2==NULL && !preprocessed && !isincluded && !(dbmemsegh(db)->convert) &&
+      !(dbmemsegh(db)->errflag) && !(g->parse_errmsg) && !(g->parse_errflag)) {
+    json_err_printf2("no clauses found in",
+                     (strasfile==NULL && filename)?filename:(char*)"the input text");
+  }
   wg_free_mpool(db,mpool);
   (g->use_comp_funs)=tmp_comp_funs; 
   //if (pres || pres2==NULL) return 1;
diff --git a/Parser/jsparse.c b/Parser/jsparse.c
index b2ccd20..fd02f07 100644
--- a/Parser/jsparse.c
+++ b/Parser/jsparse.c
@@ -190,7 +190,7 @@ int wr_import_js_file(glb* g, char* filename, char* strasfile, cvec clvec, int i
   //char* fnamestr;  
   //FILE* fp;    
   //char* buf; 
-  //int pres=1;
+  int pres=0;
   void* preprocessed=NULL;
   void* pres2=NULL;
   void *mpool;
@@ -297,7 +297,7 @@ int wr_import_js_file(glb* g, char* filename, char* strasfile, cvec clvec, int i
 #ifdef DEBUG
     printf("\nreading from file %s\n",filename);
 #endif          
-    wr_yajl_parse_file(g,&pp,filename, 
+    pres=wr_yajl_parse_file(g,&pp,filename, 
       clvec, isincluded,
       askpolarity, askinfo, mpool, streaming);   
   } else {
@@ -309,7 +309,7 @@ int wr_import_js_file(glb* g, char* filename, char* strasfile, cvec clvec, int i
 #endif    
     pp.length = strlen(strasfile);
     pp.pos = 0;
-    wr_yajl_parse_string(g,&pp,strasfile);       
+    pres=wr_yajl_parse_string(g,&pp,strasfile);       
   }   
 #ifdef DEBUG
   printf("\njson parser result:\n");    
@@ -325,6 +325,12 @@ int wr_import_js_file(glb* g, char* filename, char* strasfile, cvec clvec, int i
     }  
   }
   *askinfo=pp.askinfo;
+  // say what happened when nothing else has
+  if (!pres && pres2==NULL && !preprocessed && !isincluded && !(dbmemsegh(db)->convert) &&
+      !(dbmemsegh(db)->errflag) && !(g->parse_errmsg) && !(g->parse_errflag)) {
+    json_err_printf2("no clauses found in",
+                     (strasfile==NULL && filename)?filename:(char*)"the input text");
+  }
   wg_free_mpool(db,mpool);
   (g->use_comp_funs)=tmp_comp_funs; 
   //if (pres || pres2==NULL) return 1;
-- 
2.43.0


From f83707edeb3963de5e769a3623f7a57fe6adce8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:53 +0000
Subject: [PATCH 39/65] fix: large weights and penalties of a strategy
 overflowed the clause weights

---
 Reasoner/guide.c | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/Reasoner/guide.c b/Reasoner/guide.c
index bcfaaad..e29896b 100644
--- a/Reasoner/guide.c
+++ b/Reasoner/guide.c
@@ -57,6 +57,9 @@ extern "C" {
 #define json_valuestring(obj) ((obj)->valuestring)
 #define json_valueint(obj) ((obj)->valueint)
 
+// clause weights are sums and products of these: larger ones would not fit into an int
+#define MAX_GUIDE_WEIGHT 1000
+
 
 #define DEFAULT_GUIDE "{\"print\":1, " \
   "\"print_level\": 15, " \
@@ -66,9 +69,21 @@ extern "C" {
 
 /* ======= Private protos ================ */
 
+static int wr_guide_weight(cJSON* elem);
+
 
 /* ====== Functions ============== */
 
+/* value of a weight or penalty setting */
+
+static int wr_guide_weight(cJSON* elem) {
+  int val=json_valueint(elem);
+
+  if (val>MAX_GUIDE_WEIGHT) return MAX_GUIDE_WEIGHT;
+  if (val<(-MAX_GUIDE_WEIGHT)) return -MAX_GUIDE_WEIGHT;
+  return val;
+}
+
 
 cJSON* wr_parse_guide_file(char* stratfile, char** guidebuf) { 
   char* filename=NULL;  
@@ -294,16 +309,16 @@ int wr_parse_guide_section(glb* g, cJSON *guide, int runnr, char** outstr, int s
 
     } else if (!strcmp(key,"depth_penalty")) {
       //printf("depth_penalty %d\n", json_valueint(elem));
-      (g->cl_depth_penalty)=json_valueint(elem);
+      (g->cl_depth_penalty)=wr_guide_weight(elem);
     } else if (!strcmp(key,"length_penalty")) {
       //printf("length_penalty %d\n", json_valueint(elem));
-      (g->cl_length_penalty)=json_valueint(elem);  
+      (g->cl_length_penalty)=wr_guide_weight(elem);  
     } else if (!strcmp(key,"var_weight")) {
       //printf("var_weight %d\n", json_valueint(elem));
-      (g->var_weight)=json_valueint(elem);   
+      (g->var_weight)=wr_guide_weight(elem);   
     } else if (!strcmp(key,"repeat_var_weight")) {
       //printf("repeat_var_weight %d\n", json_valueint(elem));
-      (g->repeat_var_weight)=json_valueint(elem);     
+      (g->repeat_var_weight)=wr_guide_weight(elem);     
   
       
 
-- 
2.43.0


From d03540831447bc080c37dfa2a217dcd23f585f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:42 +0000
Subject: [PATCH 40/65] fix: hashes of literals overflowed a signed integer and
 could give a negative bucket

---
 Reasoner/hash.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Reasoner/hash.h b/Reasoner/hash.h
index 82f40ea..5295e93 100644
--- a/Reasoner/hash.h
+++ b/Reasoner/hash.h
@@ -57,8 +57,9 @@
 #define MAXHASHPOS 30
 
 
-#define WR_HASH_ADD(toadd,orig) ((toadd) + ((orig) << 6) + ((orig) << 16) - (orig))
-#define WR_HASH_NORM(tonorm,maxsize) (1+((abs((int)tonorm)) % ((maxsize)-2)))
+// wraps around for large hashes: calculated unsigned, since a signed overflow is undefined
+#define WR_HASH_ADD(toadd,orig) ((gint)((size_t)(toadd) + ((size_t)(orig) << 6) + ((size_t)(orig) << 16) - (size_t)(orig)))
+#define WR_HASH_NORM(tonorm,maxsize) (1+((int)(llabs((long long)((int)(tonorm))) % ((maxsize)-2))))
 
 /* ==== Protos ==== */
 
-- 
2.43.0


From 555629f49234736c08710bbeb98afe122baf4cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:57 +0000
Subject: [PATCH 41/65] fix: a json-ld @id that is a list or an object was read
 as a string of garbage

---
 Builtparser/jsparse.c | 4 ++++
 Parser/jsparse.c      | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/Builtparser/jsparse.c b/Builtparser/jsparse.c
index fd02f07..c666675 100644
--- a/Builtparser/jsparse.c
+++ b/Builtparser/jsparse.c
@@ -1947,6 +1947,10 @@ void* wr_json_mkid(glb* g, void* mpool, parse_parm* pp, void* givenid, void* map
   printf("\n");
   */
   if (givenid) {    
+    if (!wg_isatom(db,givenid)) {
+      wr_show_parse_error(g,"@id value must be a string");
+      return NULL;
+    }
     str=wg_atomstr1(g->db,givenid);
     if (!str) return NULL;
     if (*str=='_' && *(str+1)==':') {
diff --git a/Parser/jsparse.c b/Parser/jsparse.c
index fd02f07..c666675 100644
--- a/Parser/jsparse.c
+++ b/Parser/jsparse.c
@@ -1947,6 +1947,10 @@ void* wr_json_mkid(glb* g, void* mpool, parse_parm* pp, void* givenid, void* map
   printf("\n");
   */
   if (givenid) {    
+    if (!wg_isatom(db,givenid)) {
+      wr_show_parse_error(g,"@id value must be a string");
+      return NULL;
+    }
     str=wg_atomstr1(g->db,givenid);
     if (!str) return NULL;
     if (*str=='_' && *(str+1)==':') {
-- 
2.43.0


From 2fc9b0c5ad586fc52b87b0a989c0b922c09e8d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:33 +0000
Subject: [PATCH 42/65] fix: a negated json atom like ["-Pq",..] did not use
 the same predicate as ["Pq",..] when the name needs quoting or is expanded by
 a context

---
 Builtparser/jsparse.c | 11 ++++++++---
 Parser/jsparse.c      | 11 ++++++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/Builtparser/jsparse.c b/Builtparser/jsparse.c
index c666675..e6422e0 100644
--- a/Builtparser/jsparse.c
+++ b/Builtparser/jsparse.c
@@ -2316,16 +2316,21 @@ void* wr_process_json_term(glb* g, parse_parm* pp, void* cl, int atomlevel, int
                 ( (wg_atomstr1(db,head))[0]=='-' ||
                   (wg_atomstr1(db,head))[0]=='~' )) {  
       //tmpres=NULL;
+      // the symbol without its sign is processed like the symbol of a positive atom
+      tmp=wg_mkatom(db,mpool,WG_URITYPE,(wg_atomstr1(db,head)+1),NULL);
+      if (!tmp) {
+        wr_show_jsparse_error(g,pp,"cannot process neg atom: memory overflow");
+        return NULL;
+      }
+      *((gint*)cl)=(gint)tmp;
       for(n=0,part=cl; part!=NULL; part=wg_rest(db,part),n++) {
         tmp=wr_process_json_term(g,pp,wg_first(db,part),0,n);
         if (tmp==NULL) return NULL;
         *((gint*)part)=(gint)tmp;
         //tmpres=wg_mkpair(db,mpool,tmp,tmpres);
       }                          
-      tmp=wg_mkatom(db,mpool,WG_URITYPE,(wg_atomstr1(db,head)+1),NULL);      
-      *((gint*)cl)=(gint)tmp;
       preres=wg_mklist2(db,mpool,pp->logneg,cl);
-      if (!tmp || !preres) {
+      if (!preres) {
         wr_show_jsparse_error(g,pp,"cannot process neg atom: memory overflow");
         return NULL;
       }
diff --git a/Parser/jsparse.c b/Parser/jsparse.c
index c666675..e6422e0 100644
--- a/Parser/jsparse.c
+++ b/Parser/jsparse.c
@@ -2316,16 +2316,21 @@ void* wr_process_json_term(glb* g, parse_parm* pp, void* cl, int atomlevel, int
                 ( (wg_atomstr1(db,head))[0]=='-' ||
                   (wg_atomstr1(db,head))[0]=='~' )) {  
       //tmpres=NULL;
+      // the symbol without its sign is processed like the symbol of a positive atom
+      tmp=wg_mkatom(db,mpool,WG_URITYPE,(wg_atomstr1(db,head)+1),NULL);
+      if (!tmp) {
+        wr_show_jsparse_error(g,pp,"cannot process neg atom: memory overflow");
+        return NULL;
+      }
+      *((gint*)cl)=(gint)tmp;
       for(n=0,part=cl; part!=NULL; part=wg_rest(db,part),n++) {
         tmp=wr_process_json_term(g,pp,wg_first(db,part),0,n);
         if (tmp==NULL) return NULL;
         *((gint*)part)=(gint)tmp;
         //tmpres=wg_mkpair(db,mpool,tmp,tmpres);
       }                          
-      tmp=wg_mkatom(db,mpool,WG_URITYPE,(wg_atomstr1(db,head)+1),NULL);      
-      *((gint*)cl)=(gint)tmp;
       preres=wg_mklist2(db,mpool,pp->logneg,cl);
-      if (!tmp || !preres) {
+      if (!preres) {
         wr_show_jsparse_error(g,pp,"cannot process neg atom: memory overflow");
         return NULL;
       }
-- 
2.43.0


From 0f9e012c58a9405beea067a0442361c4d392c6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:40 +0000
Subject: [PATCH 43/65] fix: json output was preceded by a text line when the
 clause selection left no clauses

---
 Reasoner/rmain.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Reasoner/rmain.c b/Reasoner/rmain.c
index ee8eaad..b281cf8 100644
--- a/Reasoner/rmain.c
+++ b/Reasoner/rmain.c
@@ -787,7 +787,7 @@ int wg_run_reasoner(void *db, char* inputname, char* stratfile, int informat,
       break;
     } else if (!clause_count) {
       // no clauses found
-      wr_printf("\nNo clauses found.\n");
+      if (!(g->print_json)) wr_printf("\nNo clauses found.\n");
       wr_glb_free(g);
       if (analyze_g) analyze_g=wr_free_analyze_g(analyze_g);
       break;
-- 
2.43.0


From 6237b031a6179edbff102c0fc3db25335a9c0b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:16 +0000
Subject: [PATCH 44/65] fix: json syntax errors with a backslash or a line
 break were printed as malformed json

---
 Builtparser/jsparse.c | 29 +++++++++++++++++++++++------
 Parser/jsparse.c      | 29 +++++++++++++++++++++++------
 2 files changed, 46 insertions(+), 12 deletions(-)

diff --git a/Builtparser/jsparse.c b/Builtparser/jsparse.c
index e6422e0..b5ac87f 100644
--- a/Builtparser/jsparse.c
+++ b/Builtparser/jsparse.c
@@ -3448,19 +3448,36 @@ int wg_suitable_context_uri_end(void* db, char c) {
 /* ------------ errors ---------------- */
 
 
+// prints an error text inside a json string
+static void json_err_print_text(char* s) {
+  for(; s && *s; s++) {
+    if (*s=='"') putchar('\'');
+    else if (*s=='\\') putchar('/');
+    else if ((unsigned char)(*s)<32) {
+      if (*(s+1)) putchar(' '); // no trailing newline
+    } else putchar(*s);
+  }
+}
+
 void json_err_printf2(char* s1, char* s2) {
-  if (s1 && s2) printf("{\"error\": \"%s %s\"}\n",s1,s2);
-  else if (s1) printf("{\"error\": \"%s\"}\n",s1);
-  else if (s2) printf("{\"error\": \"%s\"}\n",s2);
-  else printf("{\"error\": \"unspecified\"}\n");  
+  printf("{\"error\": \"");
+  if (s1) json_err_print_text(s1);
+  if (s1 && s2) printf(" ");
+  if (s2) json_err_print_text(s2);
+  if (!s1 && !s2) printf("unspecified");
+  printf("\"}\n");
 }
 
 void json_err_printfn2(char* s1, int num, char* s2)  {
-  printf("{\"error\": \"%s %d %s\"}\n",s1,num,s2);
+  printf("{\"error\": \"");
+  json_err_print_text(s1);
+  printf(" %d ",num);
+  json_err_print_text(s2);
+  printf("\"}\n");
 }
 
 void json_err_printf3(char* s1, int num, char* s2) {
-  printf("{\"error\": \"%s %d %s\"}\n",s1,num,s2);
+  json_err_printfn2(s1,num,s2);
 }
 
 
diff --git a/Parser/jsparse.c b/Parser/jsparse.c
index e6422e0..b5ac87f 100644
--- a/Parser/jsparse.c
+++ b/Parser/jsparse.c
@@ -3448,19 +3448,36 @@ int wg_suitable_context_uri_end(void* db, char c) {
 /* ------------ errors ---------------- */
 
 
+// prints an error text inside a json string
+static void json_err_print_text(char* s) {
+  for(; s && *s; s++) {
+    if (*s=='"') putchar('\'');
+    else if (*s=='\\') putchar('/');
+    else if ((unsigned char)(*s)<32) {
+      if (*(s+1)) putchar(' '); // no trailing newline
+    } else putchar(*s);
+  }
+}
+
 void json_err_printf2(char* s1, char* s2) {
-  if (s1 && s2) printf("{\"error\": \"%s %s\"}\n",s1,s2);
-  else if (s1) printf("{\"error\": \"%s\"}\n",s1);
-  else if (s2) printf("{\"error\": \"%s\"}\n",s2);
-  else printf("{\"error\": \"unspecified\"}\n");  
+  printf("{\"error\": \"");
+  if (s1) json_err_print_text(s1);
+  if (s1 && s2) printf(" ");
+  if (s2) json_err_print_text(s2);
+  if (!s1 && !s2) printf("unspecified");
+  printf("\"}\n");
 }
 
 void json_err_printfn2(char* s1, int num, char* s2)  {
-  printf("{\"error\": \"%s %d %s\"}\n",s1,num,s2);
+  printf("{\"error\": \"");
+  json_err_print_text(s1);
+  printf(" %d ",num);
+  json_err_print_text(s2);
+  printf("\"}\n");
 }
 
 void json_err_printf3(char* s1, int num, char* s2) {
-  printf("{\"error\": \"%s %d %s\"}\n",s1,num,s2);
+  json_err_printfn2(s1,num,s2);
 }
 
 
-- 
2.43.0


From e82ed1c9ce7176e3319d59d6dafebfdca7c43820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:10 +0000
Subject: [PATCH 45/65] fix: a json syntax error did not stop the part read
 before it from being used: a second result or even a proof was printed

---
 Builtparser/jsparse.c | 2 +-
 Parser/jsparse.c      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Builtparser/jsparse.c b/Builtparser/jsparse.c
index b5ac87f..bccfbc2 100644
--- a/Builtparser/jsparse.c
+++ b/Builtparser/jsparse.c
@@ -316,7 +316,7 @@ int wr_import_js_file(glb* g, char* filename, char* strasfile, cvec clvec, int i
   wg_mpool_print(db,pp.result);
   printf("\n");
 #endif
-  if (pp.result!=NULL) {
+  if (!pres && pp.result!=NULL) {
     preprocessed=wr_preprocess_json_clauselist(g,&pp,clvec,pp.result,isincluded,streaming);
     //preprocessed=wr_clausify_clauselist(g,mpool,clvec,pp.result);
     if (!(dbmemsegh(db)->convert)) {
diff --git a/Parser/jsparse.c b/Parser/jsparse.c
index b5ac87f..bccfbc2 100644
--- a/Parser/jsparse.c
+++ b/Parser/jsparse.c
@@ -316,7 +316,7 @@ int wr_import_js_file(glb* g, char* filename, char* strasfile, cvec clvec, int i
   wg_mpool_print(db,pp.result);
   printf("\n");
 #endif
-  if (pp.result!=NULL) {
+  if (!pres && pp.result!=NULL) {
     preprocessed=wr_preprocess_json_clauselist(g,&pp,clvec,pp.result,isincluded,streaming);
     //preprocessed=wr_clausify_clauselist(g,mpool,clvec,pp.result);
     if (!(dbmemsegh(db)->convert)) {
-- 
2.43.0


From 6eca0c605b08ae9a21329724f300319b775e6653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:11 +0000
Subject: [PATCH 46/65] fix: an error in a json clause did not stop the clauses
 read before it from being used: a second result was printed

---
 Builtparser/jsparse.c | 2 +-
 Parser/jsparse.c      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Builtparser/jsparse.c b/Builtparser/jsparse.c
index bccfbc2..7b863ad 100644
--- a/Builtparser/jsparse.c
+++ b/Builtparser/jsparse.c
@@ -334,7 +334,7 @@ int wr_import_js_file(glb* g, char* filename, char* strasfile, cvec clvec, int i
   wg_free_mpool(db,mpool);
   (g->use_comp_funs)=tmp_comp_funs; 
   //if (pres || pres2==NULL) return 1;
-  if (pres2==NULL) return 1;
+  if (pres2==NULL || g->parse_errflag) return 1;
   else return 0;  
 }
 
diff --git a/Parser/jsparse.c b/Parser/jsparse.c
index bccfbc2..7b863ad 100644
--- a/Parser/jsparse.c
+++ b/Parser/jsparse.c
@@ -334,7 +334,7 @@ int wr_import_js_file(glb* g, char* filename, char* strasfile, cvec clvec, int i
   wg_free_mpool(db,mpool);
   (g->use_comp_funs)=tmp_comp_funs; 
   //if (pres || pres2==NULL) return 1;
-  if (pres2==NULL) return 1;
+  if (pres2==NULL || g->parse_errflag) return 1;
   else return 0;  
 }
 
-- 
2.43.0


From 98fac0c878592e6fe269e9cc88dea24f1ae38bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:28 +0000
Subject: [PATCH 47/65] fix: -convert -json of an atomic formula printed the
 rest of an earlier formula after it

---
 Printer/dbotterprint.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Printer/dbotterprint.c b/Printer/dbotterprint.c
index 72d6ee7..d77fcf9 100644
--- a/Printer/dbotterprint.c
+++ b/Printer/dbotterprint.c
@@ -1125,6 +1125,7 @@ int wg_print_quoted(char** buf, int len, int pos, char* s) {
   }  
   *((*buf)+pos+i)='\'';
   i++;
+  if (pos+i<len) *((*buf)+pos+i)='\0';
   //printf("\n i %d\n",i);
   return i;
 }
@@ -1179,6 +1180,7 @@ int wg_print_quoted2(char** buf, int len, int pos, char* es, char* s) {
 
   if (dquote) *((*buf)+pos+i+j)='\"';
   else *((*buf)+pos+i+j)='\'';
+  if (pos+i+j+1<len) *((*buf)+pos+i+j+1)='\0';
 
   //*((*buf)+pos+i+j)='\'';
   //printf("\n i %d\n",i);
@@ -1221,6 +1223,7 @@ int wg_print_dquoted(char** buf, int len, int pos, char* s, int negflag, int uni
   }  
   *((*buf)+pos+i)='"';
   i++;
+  if (pos+i<len) *((*buf)+pos+i)='\0';
   //printf("\n i %d\n",i);
   if (negflag) return i+1+(uniqueflag ? 2 : 0);
   else return i+(uniqueflag ? 2 : 0);
-- 
2.43.0


From 8a3d99578aab4129d2b6f5cac09903e91f01f3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:28 +0000
Subject: [PATCH 48/65] fix: lists nested in formulas were refused by the
 clausifier or converted to garbage, formula names with quotes were converted
 unquoted

---
 Builtparser/dbparse.c | 44 +++++++++++++++++++------------------------
 Parser/dbparse.c      | 44 +++++++++++++++++++------------------------
 2 files changed, 38 insertions(+), 50 deletions(-)

diff --git a/Builtparser/dbparse.c b/Builtparser/dbparse.c
index 86c8801..42bddba 100644
--- a/Builtparser/dbparse.c
+++ b/Builtparser/dbparse.c
@@ -401,6 +401,8 @@ void* wr_preprocess_clauselist
     wg_mpool_print(db,cl); 
     printf("\n");   
 #endif
+    // lists must be ordinary terms before clausification and printing
+    wg_expand_frm_for_print(db,mpool,cl);
 #ifdef STORE_SOURCE_FRM  
 /*
     //printf("\n in wr_preprocess_clauselist clause: ");
@@ -471,10 +473,11 @@ void* wr_preprocess_clauselist
       if ((dbmemsegh(db)->convert) && (dbmemsegh(db)->tptp)) {
         bpos=0; 
         if (!wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,
-              strlen(wg_atomstr1(db,clname))+
+              2*strlen(wg_atomstr1(db,clname))+
               strlen(wg_atomstr1(db,clrole))+1000)) return NULL;
-        bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,
-                       "cnf('%s',%s,",wg_atomstr1(db,clname),wg_atomstr1(db,clrole)); 
+        bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,"cnf(");
+        bpos+=wg_print_quoted(&(g->tmp_printbuf),blen,bpos,wg_atomstr1(db,clname));
+        bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,",%s,",wg_atomstr1(db,clrole)); 
         wg_expand_frm_for_print(db,mpool,cl);                             
         bpos=wg_print_frm_tptp(db,wg_nth(db,cl,3),&(g->tmp_printbuf),&blen,bpos);  
         bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,").");                       
@@ -485,11 +488,7 @@ void* wr_preprocess_clauselist
               6*strlen(wg_atomstr1(db,clname))+
               strlen(wg_atomstr1(db,clrole))+1000)) return NULL;
         bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,"{\"@name\":");
-        if (wg_contains_dquote(wg_atomstr1(db,clname))) {                   
-          bpos+=wg_print_dquoted(&(g->tmp_printbuf),blen,bpos,wg_atomstr1(db,clname),0,0);        
-        } else {
-          bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,"\"%s\"",wg_atomstr1(db,clname));         
-        }
+        bpos+=wg_print_dquoted(&(g->tmp_printbuf),blen,bpos,wg_atomstr1(db,clname),0,0);
         bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,",\"@role\":\"%s\",\"@logic\":",
                        wg_atomstr1(db,clrole));   
         wg_expand_frm_for_print(db,mpool,cl);                              
@@ -540,10 +539,11 @@ void* wr_preprocess_clauselist
       if ((dbmemsegh(db)->convert) && (dbmemsegh(db)->tptp)) {
         bpos=0;
         if (!wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,
-              strlen(wg_atomstr1(db,clname))+
+              2*strlen(wg_atomstr1(db,clname))+
               strlen(wg_atomstr1(db,clrole))+1000)) return NULL;
-        bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,
-                       "fof('%s',%s,",wg_atomstr1(db,clname),wg_atomstr1(db,clrole));
+        bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,"fof(");
+        bpos+=wg_print_quoted(&(g->tmp_printbuf),blen,bpos,wg_atomstr1(db,clname));
+        bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,",%s,",wg_atomstr1(db,clrole));
         wg_expand_frm_for_print(db,mpool,cl);                
         bpos=wg_print_frm_tptp(db,wg_nth(db,cl,3),&(g->tmp_printbuf),&blen,bpos);
         bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,").");                       
@@ -554,11 +554,7 @@ void* wr_preprocess_clauselist
               6*strlen(wg_atomstr1(db,clname))+
               strlen(wg_atomstr1(db,clrole))+1000)) return NULL;
         bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,"{\"@name\":");
-        if (wg_contains_dquote(wg_atomstr1(db,clname))) {                   
-          bpos+=wg_print_dquoted(&(g->tmp_printbuf),blen,bpos,wg_atomstr1(db,clname),0,0);        
-        } else {
-          bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,"\"%s\"",wg_atomstr1(db,clname));         
-        }
+        bpos+=wg_print_dquoted(&(g->tmp_printbuf),blen,bpos,wg_atomstr1(db,clname),0,0);
         bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,",\"@role\":\"%s\",\"@logic\":",
                        wg_atomstr1(db,clrole));
         wg_expand_frm_for_print(db,mpool,cl);                                 
@@ -762,16 +758,14 @@ void wg_expand_frm_for_print(void* db, void* mpool, void* frm) {
   for(part=frm; part!=NULL; part=wg_rest(db,part)) {
     term=wg_first(db,part);
     if (wg_ispair(db,term) && wg_isatom(db,wg_first(db,term)) &&
-       wg_atomstr1(db,wg_first(db,term)) ) {
-       
-      if (!strcmp("$$lst",wg_atomstr1(db,wg_first(db,term)))) {
-        if (!wg_ispair(db,wg_rest(db,term))) {
-          expanded=wg_mkatom(db,mpool,WG_URITYPE,"$nil",NULL);
-        } else {  
-          expanded=wg_expand_frm_for_print_aux(db,mpool,wg_first(db,wg_rest(db,term)));
-        }
-        *((gint*)part)=(gint)expanded;
+       wg_atomstr1(db,wg_first(db,term)) &&
+       !strcmp("$$lst",wg_atomstr1(db,wg_first(db,term)))) {
+      if (!wg_ispair(db,wg_rest(db,term))) {
+        expanded=wg_mkatom(db,mpool,WG_URITYPE,"$nil",NULL);
+      } else {  
+        expanded=wg_expand_frm_for_print_aux(db,mpool,wg_first(db,wg_rest(db,term)));
       }
+      *((gint*)part)=(gint)expanded;
     } else {
       wg_expand_frm_for_print(db,mpool,term);
     }  
diff --git a/Parser/dbparse.c b/Parser/dbparse.c
index 86c8801..42bddba 100644
--- a/Parser/dbparse.c
+++ b/Parser/dbparse.c
@@ -401,6 +401,8 @@ void* wr_preprocess_clauselist
     wg_mpool_print(db,cl); 
     printf("\n");   
 #endif
+    // lists must be ordinary terms before clausification and printing
+    wg_expand_frm_for_print(db,mpool,cl);
 #ifdef STORE_SOURCE_FRM  
 /*
     //printf("\n in wr_preprocess_clauselist clause: ");
@@ -471,10 +473,11 @@ void* wr_preprocess_clauselist
       if ((dbmemsegh(db)->convert) && (dbmemsegh(db)->tptp)) {
         bpos=0; 
         if (!wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,
-              strlen(wg_atomstr1(db,clname))+
+              2*strlen(wg_atomstr1(db,clname))+
               strlen(wg_atomstr1(db,clrole))+1000)) return NULL;
-        bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,
-                       "cnf('%s',%s,",wg_atomstr1(db,clname),wg_atomstr1(db,clrole)); 
+        bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,"cnf(");
+        bpos+=wg_print_quoted(&(g->tmp_printbuf),blen,bpos,wg_atomstr1(db,clname));
+        bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,",%s,",wg_atomstr1(db,clrole)); 
         wg_expand_frm_for_print(db,mpool,cl);                             
         bpos=wg_print_frm_tptp(db,wg_nth(db,cl,3),&(g->tmp_printbuf),&blen,bpos);  
         bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,").");                       
@@ -485,11 +488,7 @@ void* wr_preprocess_clauselist
               6*strlen(wg_atomstr1(db,clname))+
               strlen(wg_atomstr1(db,clrole))+1000)) return NULL;
         bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,"{\"@name\":");
-        if (wg_contains_dquote(wg_atomstr1(db,clname))) {                   
-          bpos+=wg_print_dquoted(&(g->tmp_printbuf),blen,bpos,wg_atomstr1(db,clname),0,0);        
-        } else {
-          bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,"\"%s\"",wg_atomstr1(db,clname));         
-        }
+        bpos+=wg_print_dquoted(&(g->tmp_printbuf),blen,bpos,wg_atomstr1(db,clname),0,0);
         bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,",\"@role\":\"%s\",\"@logic\":",
                        wg_atomstr1(db,clrole));   
         wg_expand_frm_for_print(db,mpool,cl);                              
@@ -540,10 +539,11 @@ void* wr_preprocess_clauselist
       if ((dbmemsegh(db)->convert) && (dbmemsegh(db)->tptp)) {
         bpos=0;
         if (!wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,
-              strlen(wg_atomstr1(db,clname))+
+              2*strlen(wg_atomstr1(db,clname))+
               strlen(wg_atomstr1(db,clrole))+1000)) return NULL;
-        bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,
-                       "fof('%s',%s,",wg_atomstr1(db,clname),wg_atomstr1(db,clrole));
+        bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,"fof(");
+        bpos+=wg_print_quoted(&(g->tmp_printbuf),blen,bpos,wg_atomstr1(db,clname));
+        bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,",%s,",wg_atomstr1(db,clrole));
         wg_expand_frm_for_print(db,mpool,cl);                
         bpos=wg_print_frm_tptp(db,wg_nth(db,cl,3),&(g->tmp_printbuf),&blen,bpos);
         bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,").");                       
@@ -554,11 +554,7 @@ void* wr_preprocess_clauselist
               6*strlen(wg_atomstr1(db,clname))+
               strlen(wg_atomstr1(db,clrole))+1000)) return NULL;
         bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,"{\"@name\":");
-        if (wg_contains_dquote(wg_atomstr1(db,clname))) {                   
-          bpos+=wg_print_dquoted(&(g->tmp_printbuf),blen,bpos,wg_atomstr1(db,clname),0,0);        
-        } else {
-          bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,"\"%s\"",wg_atomstr1(db,clname));         
-        }
+        bpos+=wg_print_dquoted(&(g->tmp_printbuf),blen,bpos,wg_atomstr1(db,clname),0,0);
         bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,",\"@role\":\"%s\",\"@logic\":",
                        wg_atomstr1(db,clrole));
         wg_expand_frm_for_print(db,mpool,cl);                                 
@@ -762,16 +758,14 @@ void wg_expand_frm_for_print(void* db, void* mpool, void* frm) {
   for(part=frm; part!=NULL; part=wg_rest(db,part)) {
     term=wg_first(db,part);
     if (wg_ispair(db,term) && wg_isatom(db,wg_first(db,term)) &&
-       wg_atomstr1(db,wg_first(db,term)) ) {
-       
-      if (!strcmp("$$lst",wg_atomstr1(db,wg_first(db,term)))) {
-        if (!wg_ispair(db,wg_rest(db,term))) {
-          expanded=wg_mkatom(db,mpool,WG_URITYPE,"$nil",NULL);
-        } else {  
-          expanded=wg_expand_frm_for_print_aux(db,mpool,wg_first(db,wg_rest(db,term)));
-        }
-        *((gint*)part)=(gint)expanded;
+       wg_atomstr1(db,wg_first(db,term)) &&
+       !strcmp("$$lst",wg_atomstr1(db,wg_first(db,term)))) {
+      if (!wg_ispair(db,wg_rest(db,term))) {
+        expanded=wg_mkatom(db,mpool,WG_URITYPE,"$nil",NULL);
+      } else {  
+        expanded=wg_expand_frm_for_print_aux(db,mpool,wg_first(db,wg_rest(db,term)));
       }
+      *((gint*)part)=(gint)expanded;
     } else {
       wg_expand_frm_for_print(db,mpool,term);
     }  
-- 
2.43.0


From 0e4a4e1a723c18d2e210b8e62346d1f1c15f7937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:34 +0000
Subject: [PATCH 49/65] fix: names starting with a digit or an underscore were
 printed without quotes, in a form which is read as something else

---
 Printer/dbotterprint.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Printer/dbotterprint.c b/Printer/dbotterprint.c
index d77fcf9..27d0a6e 100644
--- a/Printer/dbotterprint.c
+++ b/Printer/dbotterprint.c
@@ -1078,6 +1078,7 @@ int wg_should_quote(char* s) {
     if (c=='<') return 0;
   } 
   if (*s=='=' && *(s+1)==0) return 0;
+  if (*s=='_' || (*s>='0' && *s<='9')) return 1; // would be read as a variable or a number
   for(p=s; *p!=0; p++) {
     c=*p;
     if (c=='$' || c=='_') continue;
-- 
2.43.0


From 1f10dfb67f3a7f80de77aa78bdb59fea5b1b4768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:34 +0000
Subject: [PATCH 50/65] fix: a quoted symbol with the name of a bound variable
 was taken for the variable in the scoping of quantifiers

---
 Builtparser/dbclausify.c | 1 +
 Parser/dbclausify.c      | 1 +
 2 files changed, 2 insertions(+)

diff --git a/Builtparser/dbclausify.c b/Builtparser/dbclausify.c
index 6dd47ad..dcbca6a 100644
--- a/Builtparser/dbclausify.c
+++ b/Builtparser/dbclausify.c
@@ -565,6 +565,7 @@ int wr_freeoccs_invars(glb* g, void* mpool, void* vars, void* frm) {
 
   if (vars==NULL) return 0;
   db=g->db;
+  if (wg_atomstr2(db,frm)!=NULL) return 0; // quoted symbol, not a variable
   str=wg_atomstr1(db,frm);
   for(boundpart=vars; boundpart!=NULL; boundpart=wg_rest(db,boundpart)) {
     boundvar=wg_first(db,boundpart); 
diff --git a/Parser/dbclausify.c b/Parser/dbclausify.c
index 6dd47ad..dcbca6a 100644
--- a/Parser/dbclausify.c
+++ b/Parser/dbclausify.c
@@ -565,6 +565,7 @@ int wr_freeoccs_invars(glb* g, void* mpool, void* vars, void* frm) {
 
   if (vars==NULL) return 0;
   db=g->db;
+  if (wg_atomstr2(db,frm)!=NULL) return 0; // quoted symbol, not a variable
   str=wg_atomstr1(db,frm);
   for(boundpart=vars; boundpart!=NULL; boundpart=wg_rest(db,boundpart)) {
     boundvar=wg_first(db,boundpart); 
-- 
2.43.0


From 5cb280e1b59e80b993d45805ca5a95ec52906bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:25 +0000
Subject: [PATCH 51/65] fix: clause names with quotes were printed unquoted by
 -clausify -tptp

---
 Reasoner/rmain.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Reasoner/rmain.c b/Reasoner/rmain.c
index b281cf8..f7fac69 100644
--- a/Reasoner/rmain.c
+++ b/Reasoner/rmain.c
@@ -1843,7 +1843,13 @@ int wr_print_all_clauses(glb* g, void* child_db) {
         bpos+=snprintf(buf+bpos,blen-bpos,"\n");
       } 
       if (nameflag && wg_should_quote(namestr)) {
-        bpos+=snprintf(buf+bpos,blen-bpos,"cnf('%s',%s,",namestr,priorstr);
+        if (!wr_str_guarantee_space(g,&buf,&blen,bpos+2*strlen(namestr)+100)) {
+          if (buf) wr_free(g,buf);
+          return -1;
+        }
+        bpos+=snprintf(buf+bpos,blen-bpos,"cnf(");
+        bpos+=wg_print_quoted(&buf,blen,bpos,namestr);
+        bpos+=snprintf(buf+bpos,blen-bpos,",%s,",priorstr);
       } else {
         bpos+=snprintf(buf+bpos,blen-bpos,"cnf(%s,%s,",namestr,priorstr);
       }
-- 
2.43.0


From 6fb98e534ba2f82929fce752460c55cedd060312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:25 +0000
Subject: [PATCH 52/65] fix: an equality starting with a negative number was
 printed in a form which is read as its negation

---
 Printer/dbotterprint.c | 29 +++++++++++++++++++++++++++--
 Printer/dbotterprint.h |  1 +
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/Printer/dbotterprint.c b/Printer/dbotterprint.c
index 27d0a6e..faea0d3 100644
--- a/Printer/dbotterprint.c
+++ b/Printer/dbotterprint.c
@@ -476,6 +476,23 @@ int wr_strprint_clause_otter(glb* g, gptr rec, int printlevel, char** buf, int *
   return pos;
 }
 
+/** True iff enc is a negative integer or floating point number
+ *
+ */
+
+int wr_is_negative_number(glb* g, gint enc) {
+  void* db=g->db;
+
+  switch (wg_get_encoded_type(db, enc)) {
+    case WG_INTTYPE:
+      return wg_decode_int(db, enc)<0;
+    case WG_DOUBLETYPE:
+      return wg_decode_double(db, enc)<0;
+    default:
+      return 0;
+  }
+}
+
 /** Print single rule record
  *
  * return next-to-write position in buf or -1 if error
@@ -484,7 +501,7 @@ int wr_strprint_clause_otter(glb* g, gptr rec, int printlevel, char** buf, int *
 
 int wr_strprint_rule_clause_otter(glb* g, gint* rec,int printlevel, char** buf, int *len, int pos) {
   void* db=g->db;
-  gint meta, enc, encx, ency;
+  gint meta, enc, encx, ency, tmp;
   int i, clen, isneg;
   gptr tptr;
   
@@ -527,6 +544,10 @@ int wr_strprint_rule_clause_otter(glb* g, gint* rec,int printlevel, char** buf,
         tptr=rotp(g,enc);      
         encx=tptr[RECORD_HEADER_GINTS+(g->unify_funarg1pos)];
         ency=tptr[RECORD_HEADER_GINTS+(g->unify_funarg2pos)];
+        if (wr_is_negative_number(g,encx)) {
+          // a leading minus would be read as a negation of the equality
+          tmp=encx; encx=ency; ency=tmp;
+        }
         //pos+=snprintf((*buf)+pos,(*len)-pos,"("); 
         pos=wr_strprint_term_otter(g,encx,printlevel,buf,len,pos);
         if (pos<0) return pos;
@@ -578,7 +599,7 @@ int wr_strprint_rule_clause_otter(glb* g, gint* rec,int printlevel, char** buf,
 
 int wr_strprint_fact_clause_otter(glb* g, gint* rec, int printlevel, char** buf, int *len, int pos) {
   void* db=g->db;
-  gint encx, ency;
+  gint encx, ency, tmp;
   gptr tptr;  
   
   if (!wr_str_guarantee_space(g,buf,len,pos+10)) return -1;
@@ -606,6 +627,10 @@ int wr_strprint_fact_clause_otter(glb* g, gint* rec, int printlevel, char** buf,
       tptr=rec;            
       encx=tptr[RECORD_HEADER_GINTS+(g->unify_funarg1pos)];
       ency=tptr[RECORD_HEADER_GINTS+(g->unify_funarg2pos)];
+      if (wr_is_negative_number(g,encx)) {
+        // a leading minus would be read as a negation of the equality
+        tmp=encx; encx=ency; ency=tmp;
+      }
       pos+=snprintf((*buf)+pos,(*len)-pos,"("); 
       pos=wr_strprint_term_otter(g,encx,printlevel,buf,len,pos);
       if (pos<0) return pos;
diff --git a/Printer/dbotterprint.h b/Printer/dbotterprint.h
index 729edb8..3470df1 100644
--- a/Printer/dbotterprint.h
+++ b/Printer/dbotterprint.h
@@ -58,6 +58,7 @@ void wr_print_clause_via_buf(glb* g, gptr rec);
 
 int wr_strprint_clause(glb* g, gptr rec, char** buf, int *len, int pos);
 int wr_strprint_clause_otter(glb* g, gptr rec, int printlevel, char** buf, int *len, int pos);
+int wr_is_negative_number(glb* g, gint enc);
 int wr_strprint_rule_clause_otter(glb* g, gint* rec,int printlevel, char** buf, int *len, int pos);
 int wr_strprint_fact_clause_otter(glb* g, gint* rec, int printlevel, char** buf, int *len, int pos);
 int wr_strprint_prop_clause_otter(glb* g, gint* rec,int printlevel, char** buf, int *len, int pos);
-- 
2.43.0


From 87dcfc795f35c5d4445f0f4a33bc4ed318569f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:19 +0000
Subject: [PATCH 53/65] fix: names containing @ were printed without quotes, in
 a form which is read as an application

---
 Printer/dbotterprint.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Printer/dbotterprint.c b/Printer/dbotterprint.c
index faea0d3..9af4d3c 100644
--- a/Printer/dbotterprint.c
+++ b/Printer/dbotterprint.c
@@ -1108,7 +1108,7 @@ int wg_should_quote(char* s) {
     c=*p;
     if (c=='$' || c=='_') continue;
     if (c<48) return 1;
-    if (c>57 && c<64) return 1;
+    if (c>57 && c<65) return 1;
     if (c>90 && c<97) return 1;
     if (c>122) return 1;
   }
-- 
2.43.0


From cae0a6004069f9964d0d4029e3136a53111ff7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:54 +0000
Subject: [PATCH 54/65] fix: formula names with quotes were printed unescaped
 by -convert -tptp

---
 Builtparser/jsparse.c | 8 +++++++-
 Parser/jsparse.c      | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/Builtparser/jsparse.c b/Builtparser/jsparse.c
index 7b863ad..bf4cc09 100644
--- a/Builtparser/jsparse.c
+++ b/Builtparser/jsparse.c
@@ -1303,7 +1303,13 @@ void* wr_process_json_formula(glb* g,parse_parm* pp, void* cl, int isincluded) {
       rolestr="negated_conjecture";
     }
     if (namestr && wg_should_quote(namestr)) {
-      bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,"fof('%s',%s,",namestr,rolestr);
+      if (!wr_str_guarantee_space(g,&(g->tmp_printbuf),&blen,bpos+2*strlen(namestr)+100)) {
+        if (g->tmp_printbuf) wr_free(g,(g->tmp_printbuf));
+        return NULL;
+      }
+      bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,"fof(");
+      bpos+=wg_print_quoted(&(g->tmp_printbuf),blen,bpos,namestr);
+      bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,",%s,",rolestr);
     } else {
       bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,"fof(%s,%s,",namestr,rolestr);
     }  
diff --git a/Parser/jsparse.c b/Parser/jsparse.c
index 7b863ad..bf4cc09 100644
--- a/Parser/jsparse.c
+++ b/Parser/jsparse.c
@@ -1303,7 +1303,13 @@ void* wr_process_json_formula(glb* g,parse_parm* pp, void* cl, int isincluded) {
       rolestr="negated_conjecture";
     }
     if (namestr && wg_should_quote(namestr)) {
-      bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,"fof('%s',%s,",namestr,rolestr);
+      if (!wr_str_guarantee_space(g,&(g->tmp_printbuf),&blen,bpos+2*strlen(namestr)+100)) {
+        if (g->tmp_printbuf) wr_free(g,(g->tmp_printbuf));
+        return NULL;
+      }
+      bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,"fof(");
+      bpos+=wg_print_quoted(&(g->tmp_printbuf),blen,bpos,namestr);
+      bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,",%s,",rolestr);
     } else {
       bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,"fof(%s,%s,",namestr,rolestr);
     }  
-- 
2.43.0


From b91c2f1f6d71f64cce0b4c7328483529de20718d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:54 +0000
Subject: [PATCH 55/65] fix: -convert -tptp printed an equality starting with a
 negative number in a form which is read as its negation

---
 Printer/dbotterprint.c | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/Printer/dbotterprint.c b/Printer/dbotterprint.c
index 9af4d3c..077de89 100644
--- a/Printer/dbotterprint.c
+++ b/Printer/dbotterprint.c
@@ -1500,7 +1500,7 @@ int wg_print_subfrm_tptp(void* db, void* ptr,int depth,int pflag, int termflag,
 #endif   
   int type;
   char *p, *p2;
-  int count;
+  int count, first, start;
   int ppflag=0;
   int i;
   void *curptr;
@@ -1660,11 +1660,19 @@ int wg_print_subfrm_tptp(void* db, void* ptr,int depth,int pflag, int termflag,
        !(wg_atomstr1(db,op))[1]) {
       // equality predicate
       pos+=snprintf((*buf)+pos,(*len)-pos,"(");
+      first=1;
+      start=pos;
       pos=wg_print_subfrm_tptp(db,wg_nth(db,ptr,1),depth+1,0,1,buf,len,pos);
       if (pos<0) return pos;
+      if (*((*buf)+start)=='-') {
+        // a leading minus would be read as a negation of the equality: swap the sides
+        first=2;
+        pos=wg_print_subfrm_tptp(db,wg_nth(db,ptr,2),depth+1,0,1,buf,len,start);
+        if (pos<0) return pos;
+      }
       if (!wg_str_guarantee_space(db,buf,len,pos+1000)) return -1;
       pos+=snprintf((*buf)+pos,(*len)-pos," = ");
-      pos=wg_print_subfrm_tptp(db,wg_nth(db,ptr,2),depth+1,0,1,buf,len,pos);
+      pos=wg_print_subfrm_tptp(db,wg_nth(db,ptr,3-first),depth+1,0,1,buf,len,pos);
       if (pos<0) return pos;
       if (!wg_str_guarantee_space(db,buf,len,pos+1000)) return -1;
       pos+=snprintf((*buf)+pos,(*len)-pos,")");
@@ -1782,7 +1790,7 @@ int wg_print_cnf_tptp(void* db, void* ptr, char** buf, int *len, int pos) {
 int wg_print_subcnf_tptp(void* db, void* ptr,int depth,int pflag, int termflag, char** buf, int *len, int pos) {
   int type;
   char *p, *p2;
-  int count;
+  int count, first, start;
   int ppflag=0;
   int i;
   void *curptr;
@@ -1887,11 +1895,19 @@ int wg_print_subcnf_tptp(void* db, void* ptr,int depth,int pflag, int termflag,
        !(wg_atomstr1(db,op))[1]) {
       // equality predicate
       pos+=snprintf((*buf)+pos,(*len)-pos,"(");
+      first=1;
+      start=pos;
       pos=wg_print_subcnf_tptp(db,wg_nth(db,ptr,1),depth+1,0,1,buf,len,pos);
       if (pos<0) return pos;
+      if (*((*buf)+start)=='-') {
+        // a leading minus would be read as a negation of the equality: swap the sides
+        first=2;
+        pos=wg_print_subcnf_tptp(db,wg_nth(db,ptr,2),depth+1,0,1,buf,len,start);
+        if (pos<0) return pos;
+      }
       if (!wg_str_guarantee_space(db,buf,len,pos+1000)) return -1;
       pos+=snprintf((*buf)+pos,(*len)-pos," = ");
-      pos=wg_print_subcnf_tptp(db,wg_nth(db,ptr,2),depth+1,0,1,buf,len,pos);
+      pos=wg_print_subcnf_tptp(db,wg_nth(db,ptr,3-first),depth+1,0,1,buf,len,pos);
       if (pos<0) return pos;
       if (!wg_str_guarantee_space(db,buf,len,pos+1000)) return -1;
       pos+=snprintf((*buf)+pos,(*len)-pos,")");
-- 
2.43.0


From c4d6afde9650ef1479100e418faefd37dec32047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:01 +0000
Subject: [PATCH 56/65] fix: -convert -tptp printed negated disjunctions as cnf
 clauses with the negation on the first literal only

---
 Builtparser/dbparse.c | 9 +++++++++
 Parser/dbparse.c      | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/Builtparser/dbparse.c b/Builtparser/dbparse.c
index 42bddba..a99c87f 100644
--- a/Builtparser/dbparse.c
+++ b/Builtparser/dbparse.c
@@ -870,6 +870,15 @@ void *wr_parse_freeoccs(glb* g, void* mpool, void* vars, void* frm, int* clausef
     if (wg_islogconnective(db,op)) {
       if (!(wg_islogor(db,op) || wg_islogneg(db,op))) *clauseflag=0;
       termpart=wg_rest(db,frm);
+      if (wg_islogneg(db,op) && termpart!=NULL) {
+        // only an atom may be negated in a clause
+        term=wg_first(db,termpart);
+        while (term!=NULL && wg_ispair(db,term) && wg_ispair(db,wg_first(db,term)) &&
+               wg_list_len(db,term)<2) {
+          term=wg_first(db,term);
+        }
+        if (term!=NULL && wg_ispair(db,term) && wg_islogconnective(db,wg_first(db,term))) *clauseflag=0;
+      }
     } else {
       termpart=wg_rest(db,frm); //frm;
     }  
diff --git a/Parser/dbparse.c b/Parser/dbparse.c
index 42bddba..a99c87f 100644
--- a/Parser/dbparse.c
+++ b/Parser/dbparse.c
@@ -870,6 +870,15 @@ void *wr_parse_freeoccs(glb* g, void* mpool, void* vars, void* frm, int* clausef
     if (wg_islogconnective(db,op)) {
       if (!(wg_islogor(db,op) || wg_islogneg(db,op))) *clauseflag=0;
       termpart=wg_rest(db,frm);
+      if (wg_islogneg(db,op) && termpart!=NULL) {
+        // only an atom may be negated in a clause
+        term=wg_first(db,termpart);
+        while (term!=NULL && wg_ispair(db,term) && wg_ispair(db,wg_first(db,term)) &&
+               wg_list_len(db,term)<2) {
+          term=wg_first(db,term);
+        }
+        if (term!=NULL && wg_ispair(db,term) && wg_islogconnective(db,wg_first(db,term))) *clauseflag=0;
+      }
     } else {
       termpart=wg_rest(db,frm); //frm;
     }  
-- 
2.43.0


From 3b6adbdfabf983cdfec7399b14a1ff678ffc8c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:25 +0000
Subject: [PATCH 57/65] fix: queries to a shared knowledge base followed
 pointers of the process which had read it

---
 Reasoner/analyze.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Reasoner/analyze.c b/Reasoner/analyze.c
index 0fdccd3..fcb397c 100644
--- a/Reasoner/analyze.c
+++ b/Reasoner/analyze.c
@@ -538,6 +538,11 @@ int wr_analyze_sine(glb* g, void* db, void* child_db) {
   // setup
   memset((g->sine_k_values),0,(g->sine_k_bytes));
   memset((g->sine_uri_k_values),0,(g->sine_uri_k_bytes));
+  if ((g->kb_g) || db_get_kb_db(child_db)) {
+    // the occurrence lists of the symbols of a shared kb exist only in the process which built it
+    (g->sine_strat_used)=0;
+    return 0;
+  }
   tmpinkb=(g->inkb);
   (g->inkb)=0; // use malloc temporarily
   uriinfo=wr_cvec_new(g,INITIAL_URITMPVEC_LEN);
-- 
2.43.0


From df38449f0bf47971a06f6239a188abbc11bf690a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:15 +0000
Subject: [PATCH 58/65] fix: -writekb crashed: it tried to lock the knowledge
 base, which is attached read-only

---
 Main/gkc.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/Main/gkc.c b/Main/gkc.c
index 6c801fe..49e01a7 100644
--- a/Main/gkc.c
+++ b/Main/gkc.c
@@ -732,7 +732,6 @@ int gkc_main(int argc, char **argv) {
 
   if (!(strncmp(cmdstr,"-writekb",15))) {
      wg_int err;
-     int flags = 0;
 
     if (cmdfileslen<2) {
       err_printf(json,"-writekb needs a file as an argument");
@@ -744,11 +743,9 @@ int gkc_main(int argc, char **argv) {
       return(1);
     }
 
-    /* Locking is handled internally by the dbdump.c functions */
-    if(flags & FLAGS_FORCE)
-      err = wg_dump_internal(shmptr,cmdfiles[1], 0);
-    else
-      err = wg_dump(shmptr,cmdfiles[1]);
+    /* Existing segments are attached read-only and never written to after
+       they are built: no lock is possible or necessary */
+    err = wg_dump_internal(shmptr,cmdfiles[1], 0);
 
     if(err<-1) {
       err_printf(json,"cannot write to file, kb may have"\
-- 
2.43.0


From 1e6a4171e47c7fac1495da8c2d55acfbb249c83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:51 +0000
Subject: [PATCH 59/65] fix: -loadkb failed when a knowledge base with the
 number already existed

---
 Main/gkc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Main/gkc.c b/Main/gkc.c
index 49e01a7..224f78d 100644
--- a/Main/gkc.c
+++ b/Main/gkc.c
@@ -774,6 +774,8 @@ int gkc_main(int argc, char **argv) {
       return(1);
     }
 
+    /* existing segments are attached read-only: replace, like -readkb does */
+    wg_delete_database(shmname);
     shmptr=wg_attach_memsegment(shmname, minsize, maxsize, 1,
       (flags & FLAGS_LOGGING), 0);
     if(!shmptr) {
-- 
2.43.0


From 75e35f83bda6d73af8e7d01a678308c3bc7c91ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:20 +0000
Subject: [PATCH 60/65] fix: a dump which could not be written completely was
 reported as written

---
 Db/dbdump.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/Db/dbdump.c b/Db/dbdump.c
index 5cc740c..2bdd7c5 100644
--- a/Db/dbdump.c
+++ b/Db/dbdump.c
@@ -140,8 +140,8 @@ gint wg_dump_internal(void * db, char fileName[], int locking) {
   /* Now, write the memory area to file */
   if(fwrite(dbmemseg(db), dbsize, 1, f) == 1) {
     /* Overwrite checksum field */
-    fseek(f, ptrtooffset(db, &(dbh->checksum)), SEEK_SET);
-    if(fwrite(&crc, sizeof(gint32), 1, f) == 1) {
+    if(!fseek(f, ptrtooffset(db, &(dbh->checksum)), SEEK_SET) &&
+      fwrite(&crc, sizeof(gint32), 1, f) == 1 && !fflush(f)) {
       err = 0;
     }
   }
@@ -174,8 +174,10 @@ gint wg_dump_internal(void * db, char fileName[], int locking) {
   }
 #endif
 
-  fflush(f);
-  fclose(f);
+  if(fclose(f) && !err) {
+    show_dump_error(db, "Error writing file");
+    err = -1;
+  }
 
   return err;
 }
-- 
2.43.0


From e7f560e1ff9c71884ec31315bec0cc1887b7723f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:20 +0000
Subject: [PATCH 61/65] fix: the error message of -loadkb had a %s in it

---
 Main/gkc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Main/gkc.c b/Main/gkc.c
index 224f78d..1727482 100644
--- a/Main/gkc.c
+++ b/Main/gkc.c
@@ -770,7 +770,7 @@ int gkc_main(int argc, char **argv) {
     }  
     err = wg_check_dump(NULL, cmdfiles[1], &minsize, &maxsize);
     if(err) {
-      err_printf2(json,"loading failed, problem with %s",cmdfiles[1]);
+      err_printf2(json,"loading failed, problem with",cmdfiles[1]);
       return(1);
     }
 
-- 
2.43.0


From 12138d263e0b1acd1f70e99e4a52b241f865145a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:36 +0000
Subject: [PATCH 62/65] fix: a knowledge base left half built by an error or a
 killed -readkb could be used

---
 Main/gkc.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Main/gkc.c b/Main/gkc.c
index 1727482..2933c16 100644
--- a/Main/gkc.c
+++ b/Main/gkc.c
@@ -482,6 +482,8 @@ int gkc_main(int argc, char **argv) {
       err_printf(json,"failed to attach to database");
       return(1);
     }
+    // until it is completely built nobody can attach to the kb
+    dbmemsegh(shmptr)->mark=(gint32) MEMSEGMENT_MAGIC_INIT;
 #ifdef SHOWTIME       
     printf("\nto wg_import_otter_file %s\n",cmdfiles[1]);
     gkc_show_cur_time();
@@ -514,6 +516,7 @@ int gkc_main(int argc, char **argv) {
       wg_delete_database(shmname);
       return(1);
     }  
+    dbmemsegh(shmptr)->mark=(gint32) MEMSEGMENT_MAGIC_MARK;
     printf("\nDb ready in shared memory.\n");   
 #ifdef SHOWTIME         
     gkc_show_cur_time();
@@ -837,6 +840,8 @@ int gkc_main(int argc, char **argv) {
       err_printf(json,"failed to attach to database");
       return(1);
     }
+    // until it is completely built nobody can attach to the kb
+    dbmemsegh(shmptr)->mark=(gint32) MEMSEGMENT_MAGIC_INIT;
 #ifdef SHOWTIME       
     printf("\nto wg_import_otter_file %s\n",cmdfiles[1]);
     gkc_show_cur_time();
@@ -869,6 +874,7 @@ int gkc_main(int argc, char **argv) {
       wg_delete_database(shmname);
       return(1);
     }  
+    dbmemsegh(shmptr)->mark=(gint32) MEMSEGMENT_MAGIC_MARK;
     printf("\nDb ready in shared memory.\n");   
 #ifdef SHOWTIME         
     gkc_show_cur_time();
-- 
2.43.0


From 853731d5f5ca22769756c621c63f3deaa4c1d74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:06 +0000
Subject: [PATCH 63/65] fix: reading a knowledge base crashed when its memory
 ran out

---
 Reasoner/clstore.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Reasoner/clstore.c b/Reasoner/clstore.c
index b774727..8dad8b6 100644
--- a/Reasoner/clstore.c
+++ b/Reasoner/clstore.c
@@ -889,6 +889,7 @@ gint wr_create_clpick_queues(glb* g, int count) {
 #endif
 
   queues=wr_vec_new_zero(g,NROF_CLPICK_QUEUES*CLPICK_QUEUE_BLOCKGINTS); // use as vec
+  if (queues==NULL) return 0; // alloc_err is set
   clpick_queues=rpto(g,queues); // return offset
   limit=queues[0]; 
   // do big block-size steps over array
-- 
2.43.0


From ae7a71b20831e72baf58a1dca19796b1400f8c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:07 +0000
Subject: [PATCH 64/65] fix: a sequential strategy printed debug text into the
 output

---
 Reasoner/guide.c | 2 --
 Reasoner/rmain.c | 6 +++---
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/Reasoner/guide.c b/Reasoner/guide.c
index e29896b..a38c9bc 100644
--- a/Reasoner/guide.c
+++ b/Reasoner/guide.c
@@ -392,11 +392,9 @@ int wr_parse_guide_section(glb* g, cJSON *guide, int runnr, char** outstr, int s
               cJSON *seqrun=(run->child);
               int curseqnr=0;
               while(seqrun!=NULL) {
-                CP3
                 if (seqnr==curseqnr) {
                   //out=cJSON_Print(seqrun);
                   //printf("curseqnr %d %s \n",curseqnr,out);
-                  CP4
                   tmp=wr_parse_guide_section(g,seqrun,-1,outstr,seqnr);
                   if (tmp<0) return -1; 
                   return 0;
diff --git a/Reasoner/rmain.c b/Reasoner/rmain.c
index f7fac69..8a35bdd 100644
--- a/Reasoner/rmain.c
+++ b/Reasoner/rmain.c
@@ -805,7 +805,7 @@ int wg_run_reasoner(void *db, char* inputname, char* stratfile, int informat,
 
     if (!(g->proof_found) || !(wr_enough_answers(g))) {   
       if (guideres==10 && (g->guidetext)) {
-        printf("\nseqstrat\n");
+        if ((g->print_flag) && (g->print_runs)) wr_printf("\nseqstrat\n");
         int seqnr=0, seqguideres;
         //char *out;
         char* guidetext1;
@@ -818,10 +818,10 @@ int wg_run_reasoner(void *db, char* inputname, char* stratfile, int informat,
           wr_arithinst_reset_run(g);
           if (seqguideres<0) break;
           //seqguideres=0;
-          printf("seqnr %d seqguideres %d strat %s\n",seqnr,seqguideres,guidetext1);
+          if ((g->print_flag) && (g->print_runs)) wr_printf("seqnr %d seqguideres %d strat %s\n",seqnr,seqguideres,guidetext1);
           if (seqnr>0) (g->forward_subsume_derived)=0;
           res=wr_genloop(g);          
-          printf("\ngenloop ended with res %d\n",res);
+          if ((g->print_flag) && (g->print_runs)) wr_printf("\ngenloop ended with res %d\n",res);
           //wr_hashlists_explore(g);
           //exit(0);
           //print_datastructs(g);
-- 
2.43.0


From 1ea7e321124462d3dc5b9ffb778c0277407d1eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:33 +0000
Subject: [PATCH 65/65] fix: the runs after a run for which sine selected no
 clauses were not tried

---
 Reasoner/rmain.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Reasoner/rmain.c b/Reasoner/rmain.c
index 8a35bdd..9a304c9 100644
--- a/Reasoner/rmain.c
+++ b/Reasoner/rmain.c
@@ -787,6 +787,12 @@ int wg_run_reasoner(void *db, char* inputname, char* stratfile, int informat,
       break;
     } else if (!clause_count) {
       // no clauses found
+      if ((g->sine_strat) && (iter+1)<guideres) {
+        // sine selected none for this run: the following runs have to be tried
+        if (local_db) (dbmemsegh(local_db)->local_g)=NULL;
+        wr_glb_free(g);
+        continue;
+      }
       if (!(g->print_json)) wr_printf("\nNo clauses found.\n");
       wr_glb_free(g);
       if (analyze_g) analyze_g=wr_free_analyze_g(analyze_g);
-- 
2.43.0

