From cc706ad97c7188eccd56a77fe2287308c7fe91fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:48 +0000
Subject: [PATCH 01/43] fix: compare stamps as sets, also when an evidential
 base occurs more than once

---
 src/Stamp.c | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/src/Stamp.c b/src/Stamp.c
index 3bf8b77..92f2b63 100755
--- a/src/Stamp.c
+++ b/src/Stamp.c
@@ -94,26 +94,14 @@ bool Stamp_checkOverlap(Stamp *a, Stamp *b)
     return false;
 }
 
-bool Stamp_Equal(Stamp *a, Stamp *b)
+static bool Stamp_ContainsAll(Stamp *a, Stamp *b)
 {
-    for (int i=0;i<STAMP_SIZE;i++)
+    for (int i=0;i<STAMP_SIZE && b->evidentialBase[i] != STAMP_FREE;i++)
     {
-        if (a->evidentialBase[i] == STAMP_FREE)
-        {
-            return b->evidentialBase[i] == STAMP_FREE;
-        }
         bool contained = false;
-        for (int j=0;j<STAMP_SIZE;j++)
+        for (int j=0;j<STAMP_SIZE && a->evidentialBase[j] != STAMP_FREE && !contained;j++)
         {
-            if (b->evidentialBase[j] == STAMP_FREE)
-            {
-                return a->evidentialBase[i] == STAMP_FREE;
-            }
-            if (a->evidentialBase[i] == b->evidentialBase[j])
-            {
-                contained = true;
-                break;
-            }
+            contained = a->evidentialBase[j] == b->evidentialBase[i];
         }
         if(!contained)
         {
@@ -123,6 +111,12 @@ bool Stamp_Equal(Stamp *a, Stamp *b)
     return true;
 }
 
+bool Stamp_Equal(Stamp *a, Stamp *b)
+{
+    //both directions, as the stamps can contain an evidential base more than once
+    return Stamp_ContainsAll(a, b) && Stamp_ContainsAll(b, a);
+}
+
 void Stamp_print(Stamp *stamp)
 {
     fputs("Stamp=[", stdout);
-- 
2.43.0


From e10f103580b5dd7a034fb4c83cb6face3c2497dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:55 +0000
Subject: [PATCH 02/43] fix: do not rename a variable twice when normalizing
 variables

---
 src/Variable.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Variable.c b/src/Variable.c
index 63172f6..6c01e11 100755
--- a/src/Variable.c
+++ b/src/Variable.c
@@ -446,7 +446,7 @@ void Variable_Normalize(Term *term)
             for(int k=j; k<COMPOUND_TERM_SIZE_MAX; k++)
             {
                 Atom atom2 = term->atoms[k];
-                if(atom == atom2)
+                if(!normalized[k] && atom == atom2)
                 {
                     term->atoms[k] = Narsese_AtomicTermIndex(varname);
                     normalized[k] = true;
-- 
2.43.0


From f2d52ccbd1f2a1dfd976faecfd5953b523730339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:55 +0000
Subject: [PATCH 03/43] fix: substitute only the variables of the general term
 itself

---
 src/Variable.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Variable.c b/src/Variable.c
index 6c01e11..0657fdd 100755
--- a/src/Variable.c
+++ b/src/Variable.c
@@ -130,9 +130,10 @@ Term Variable_ApplySubstitute(Term general, Substitution substitution, bool *suc
 {
     assert(substitution.success, "A substitution from unsuccessful unification cannot be used to substitute variables!");
     *success = true;
+    Term original = general; //variables within already inserted subterms must not be substituted again
     for(int i=0; i<COMPOUND_TERM_SIZE_MAX; i++)
     {
-        Atom general_atom = general.atoms[i];
+        Atom general_atom = original.atoms[i];
         bool is_variable = Variable_isVariable(general_atom);
         assert(!is_variable || general_atom <= 27, "Variable_ApplySubstitute: Problematic variable encountered, only $1-$9, #1-#9 and ?1-?9 are allowed!");
         if(is_variable && substitution.map[(int) general_atom].atoms[0] != 0)
-- 
2.43.0


From 3ae6759d7afffd0e59946553043cc7b5ecba285d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:53 +0000
Subject: [PATCH 04/43] fix: do not write beyond the buffer for the number of
 dt=num

---
 src/Narsese.c | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/src/Narsese.c b/src/Narsese.c
index 9ec4e67..89dbd9c 100755
--- a/src/Narsese.c
+++ b/src/Narsese.c
@@ -381,19 +381,11 @@ void Narsese_Sentence(char *narsese, Term *destTerm, char *punctuation, int *ten
     char dt[30];
     if(narsese[0] == 'd' && narsese[1] == 't'  && narsese[2] == '=') //dt=
     {
-        for(unsigned int i=0; i<strlen(narsese); i++)
-        {
-            if(i>=3)
-            {
-                dt[i-3] = narsese[i];
-            }
-            if(narsese[i] == ' ')
-            {
-                dt[i] = 0;
-                narsese = &narsese[i];
-                break;
-            }
-        }
+        char *dtEnd = strchr(narsese, ' ');
+        assert(dtEnd != NULL && dtEnd - &narsese[3] < (long) sizeof(dt), "Parsing error: dt=num has to be a short number followed by space!");
+        memcpy(dt, &narsese[3], dtEnd - &narsese[3]);
+        dt[dtEnd - &narsese[3]] = 0;
+        narsese = dtEnd;
         *occurrenceTimeOffset = atof(dt);
     }
     //Handle the rest of the Narsese:
-- 
2.43.0


From 219af410c16b024911c7219f9a500be41e5b9bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:53 +0000
Subject: [PATCH 05/43] fix: reject truth values which have no opener or no
 numbers

---
 src/Narsese.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Narsese.c b/src/Narsese.c
index 89dbd9c..3f2ea15 100755
--- a/src/Narsese.c
+++ b/src/Narsese.c
@@ -407,16 +407,16 @@ void Narsese_Sentence(char *narsese, Term *destTerm, char *punctuation, int *ten
         {
             hasComma = hasComma || narseseInplace[openingIdx] == ';';
         }
-        assert(narseseInplace[openingIdx] == '{' || narseseInplace[openingIdx] == '%', "Parsing error: Truth value opener not found!");
+        assert(openingIdx > 0, "Parsing error: Truth value opener not found!");
         double conf, freq;
         if(oldFormat && !hasComma)
         {
             conf = NAR_DEFAULT_CONFIDENCE;
-            sscanf(&narseseInplace[openingIdx], "%%%lf%%", &freq);
+            assert(sscanf(&narseseInplace[openingIdx], "%%%lf%%", &freq) == 1, "Parsing error: Truth value could not be read!");
         }
         else
         {
-            sscanf(&narseseInplace[openingIdx], oldFormat ? "%%%lf;%lf%%" : "{%lf %lf}", &freq, &conf);
+            assert(sscanf(&narseseInplace[openingIdx], oldFormat ? "%%%lf;%lf%%" : "{%lf %lf}", &freq, &conf) == 2, "Parsing error: Truth value could not be read!");
         }
         destTv->frequency = freq;
         destTv->confidence = conf;
-- 
2.43.0


From 3ae8364674f621fa7088c11267818d3ad14fec9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:53 +0000
Subject: [PATCH 06/43] fix: reject sentences without term instead of reading
 before the string

---
 src/Narsese.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Narsese.c b/src/Narsese.c
index 3f2ea15..2c4ed0c 100755
--- a/src/Narsese.c
+++ b/src/Narsese.c
@@ -367,6 +367,7 @@ Term Narsese_Term(char *narsese)
     char *narsese_expanded = Narsese_Expand(narsese);
     char** tokens_prefix = Narsese_PrefixTransform(narsese_expanded);
     int nt = 0; for(;tokens_prefix[nt] != NULL; nt++){}
+    assert(nt > 0, "Parsing error: Term is empty!");
     buildBinaryTree(&ret, tokens_prefix, 0, 1, nt);
     Variable_Normalize(&ret);
     Term_Hash(&ret);
@@ -433,6 +434,7 @@ void Narsese_Sentence(char *narsese, Term *destTerm, char *punctuation, int *ten
     if(str_len >= 3 && narseseInplace[str_len-1] == ':' && narseseInplace[str_len-2] == '/' && narseseInplace[str_len-3] == ':')
         *tense = 3; 
     int punctuation_offset = *tense ? 5 : 1;
+    assert(str_len > punctuation_offset, "Parsing error: Narsese string too short!");
     *punctuation = narseseInplace[str_len-punctuation_offset];
     assert(*punctuation == '!' || *punctuation == '?' || *punctuation == '.', "Parsing error: Punctuation has to be belief . goal ! or question ?");
     narseseInplace[str_len-punctuation_offset] = 0; //we will only parse the term before it
-- 
2.43.0


From 26c4bddf2df6521f1b22d9f61dc6b4ab20f9b060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:53 +0000
Subject: [PATCH 07/43] fix: keep token list and compound terms within their
 bounds when parsing

---
 src/Narsese.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Narsese.c b/src/Narsese.c
index 2c4ed0c..faa733d 100755
--- a/src/Narsese.c
+++ b/src/Narsese.c
@@ -247,8 +247,8 @@ int skipCompound(char** tokens, int i, int nt)
 
 char** Narsese_PrefixTransform(char* narsese_expanded)
 {
-    static char* tokens[NARSESE_LEN_MAX+1]; //there cannot be more tokens than chars
-    memset(tokens, 0, (NARSESE_LEN_MAX+1)*sizeof(char*)); //and last one stays NULL for sure
+    static char* tokens[REPLACEMENT_LEN+1]; //there cannot be more tokens than chars after copula replacement
+    memset(tokens, 0, (REPLACEMENT_LEN+1)*sizeof(char*)); //and last one stays NULL for sure
     char* token = strtok(narsese_expanded, " ");
     int nt = 0, nc = NUM_ELEMENTS(Narsese_CanonicalCopulas) - 1;
     while(token)
@@ -328,8 +328,10 @@ int Narsese_CopulaIndex(char name)
 //Encodes a binary tree in an array, based on the the S-expression tokenization with prefix order
 void buildBinaryTree(Term *bintree, char** tokens_prefix, int i1, int tree_index, int nt)
 {
+    assert(tree_index-1 < COMPOUND_TERM_SIZE_MAX, "COMPOUND_TERM_SIZE_MAX too small, consider increasing or split input into multiple statements!");
     if(tokens_prefix[i1][0] == '(' && tokens_prefix[i1][1] == 0)
     {
+        assert(i1+1 < nt, "Parsing error: Compound term without content!");
         int icop = i1+1;
         //first argument is given by the copula
         i1 = i1+2;
@@ -347,7 +349,6 @@ void buildBinaryTree(Term *bintree, char** tokens_prefix, int i1, int tree_index
     }
     else
     {
-        assert(tree_index-1 < COMPOUND_TERM_SIZE_MAX, "COMPOUND_TERM_SIZE_MAX too small, consider increasing or split input into multiple statements!");
         if(!(tokens_prefix[i1][0] == ')' && tokens_prefix[i1][1] == 0))
         {
             bintree->atoms[tree_index-1] = Narsese_AtomicTermIndex(tokens_prefix[i1]);
-- 
2.43.0


From 35f0c56c9dcebcf213d0e7f7afa8a995770e3c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:39 +0000
Subject: [PATCH 08/43] fix: do not write beyond the buffer when importing a
 stamp

---
 src/Shell.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Shell.c b/src/Shell.c
index d362c30..2df051f 100755
--- a/src/Shell.c
+++ b/src/Shell.c
@@ -267,6 +267,7 @@ int Shell_ProcessInput(char *line)
             char *end = strrchr(line, ']');
             // Extract the substring between the '[' and ']' characters
             char substr[1000];
+            assert(end != NULL && end > start && end - start - 1 < (long) sizeof(substr), "Stamp to import is too long or lacks the closing bracket!");
             strncpy(substr, start + 1, end - start - 1);
             substr[end - start - 1] = '\0';
             // Tokenize the substring using ',' as the delimiter
-- 
2.43.0


From a6536158017aea2a88d6ffa0a5f73a6ab8ddcad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:39 +0000
Subject: [PATCH 09/43] fix: do not write beyond the buffer for the name of a
 measured value

---
 src/Shell.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/Shell.c b/src/Shell.c
index 2df051f..dc24c53 100755
--- a/src/Shell.c
+++ b/src/Shell.c
@@ -314,20 +314,22 @@ int Shell_ProcessInput(char *line)
             char termname_ext[ATOMIC_TERM_LEN_MAX+1] = {0};
             termname_ext[ATOMIC_TERM_LEN_MAX-1] = 0;
             const char* sep = termname[0] ? "_" : "";
+            int written = 0;
             if(granularity <= 10)
             {
-                sprintf(termname_ext, "%s%s%.1f", termname, sep, value);
+                written = snprintf(termname_ext, ATOMIC_TERM_LEN_MAX, "%s%s%.1f", termname, sep, value);
             }
             else
             if(granularity <= 100)
             {
-                sprintf(termname_ext, "%s%s%.2f", termname, sep, value);
+                written = snprintf(termname_ext, ATOMIC_TERM_LEN_MAX, "%s%s%.2f", termname, sep, value);
             }
             else
             if(granularity <= 1000)
             {
-                sprintf(termname_ext, "%s%s%.3f", termname, sep, value);
+                written = snprintf(termname_ext, ATOMIC_TERM_LEN_MAX, "%s%s%.3f", termname, sep, value);
             }
+            assert(written > 0 && written < ATOMIC_TERM_LEN_MAX, "Measurement name and value are too long!");
             Narsese_setAtomValue((Atom) Narsese_AtomicTermIndex(termname_ext), value, termname);
         }
         else
-- 
2.43.0


From 59364dae479effa954b13bded545f31b0d8b6254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:39 +0000
Subject: [PATCH 10/43] fix: reject missing or out of bounds arguments of shell
 commands

---
 src/Shell.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/Shell.c b/src/Shell.c
index dc24c53..72bd95b 100755
--- a/src/Shell.c
+++ b/src/Shell.c
@@ -335,7 +335,7 @@ int Shell_ProcessInput(char *line)
         else
         if(!strncmp("*space ", line, strlen("*space ")))
         {
-            int granularity;
+            int granularity = 0;
             char termname[ATOMIC_TERM_LEN_MAX+1] = {0};
             termname[ATOMIC_TERM_LEN_MAX-1] = 0;
             sscanf(&line[strlen("*space ")], "%d %" STR(ATOMIC_TERM_LEN_MAX) "s", &granularity, (char*) &termname);
@@ -352,7 +352,7 @@ int Shell_ProcessInput(char *line)
         if(!strncmp("*setopname ", line, strlen("*setopname ")))
         {
             assert(concepts.itemsAmount == 0, "Operators can only be registered right after initialization / reset!");
-            int opID;
+            int opID = 0;
             char opname[ATOMIC_TERM_LEN_MAX+1] = {0};
             opname[ATOMIC_TERM_LEN_MAX-1] = 0;
             sscanf(&line[strlen("*setopname ")], "%d %" STR(ATOMIC_TERM_LEN_MAX) "s", &opID, (char*) &opname);
@@ -377,8 +377,8 @@ int Shell_ProcessInput(char *line)
         else
         if(!strncmp("*setoparg ", line, strlen("*setoparg ")))
         {
-            int opID;
-            int opArgID;
+            int opID = 0;
+            int opArgID = 0;
             char argname[NARSESE_LEN_MAX+1] = {0};
             argname[NARSESE_LEN_MAX-1] = 0;
             sscanf(&line[strlen("*setoparg ")], "%d %d %" STR(NARSESE_LEN_MAX) "[^\n]", &opID, &opArgID, (char*) &argname);
@@ -389,7 +389,7 @@ int Shell_ProcessInput(char *line)
         else
         if(!strncmp("*query ", line, strlen("*query ")))
         {
-            double threshold;
+            double threshold = -1.0;
             char narsese[NARSESE_LEN_MAX+1] = {0};
             narsese[NARSESE_LEN_MAX-1] = 0;
             sscanf(&line[strlen("*query ")], "%lf %" STR(NARSESE_LEN_MAX) "[^\n]", &threshold, (char*) &narsese);
@@ -399,8 +399,9 @@ int Shell_ProcessInput(char *line)
         else
         if(!strncmp("*setopstdin ", line, strlen("*setopstdin ")))
         {
-            int opID;
+            int opID = 0;
             sscanf(&line[strlen("*setopstdin ")], "%d", &opID);
+            assert(opID >= 1 && opID <= OPERATIONS_MAX, "Operator index out of bounds, it can only be between 1 and OPERATIONS_MAX!");
             operations[opID - 1].stdinOutput = true;
         }
         else
-- 
2.43.0


From 47f00f984bfdb1dda364a1e5e83e5c89adf84d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:39 +0000
Subject: [PATCH 11/43] fix: print the hypotheses of the last operation in
 *concepts too

---
 src/Shell.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Shell.c b/src/Shell.c
index 72bd95b..6ae320d 100755
--- a/src/Shell.c
+++ b/src/Shell.c
@@ -196,7 +196,7 @@ int Shell_ProcessInput(char *line)
                 {
                     Memory_printAddedEvent(&c->belief.stamp, &c->belief, 1, true, false, false, false, false);
                 }
-                for(int opi=0; opi<OPERATIONS_MAX; opi++)
+                for(int opi=0; opi<=OPERATIONS_MAX; opi++)
                 {
                     for(int h=0; h<c->precondition_beliefs[opi].itemsAmount; h++)
                     {
-- 
2.43.0


From 82cfffd45968e0ff02fe530ec647a58adc1c8c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:39 +0000
Subject: [PATCH 12/43] fix: consider hypotheses of the last operation when
 answering questions

---
 src/NAR.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NAR.c b/src/NAR.c
index fd6051c..1d58e64 100755
--- a/src/NAR.c
+++ b/src/NAR.c
@@ -187,7 +187,7 @@ void NAR_AddInputNarsese2(char *narsese_sentence, bool queryCommand, double answ
             }
             if(isImplication)
             {
-                for(int op_k = 0; op_k<OPERATIONS_MAX; op_k++)
+                for(int op_k = 0; op_k<=OPERATIONS_MAX; op_k++)
                 {
                     for(int j=0; j<c->precondition_beliefs[op_k].itemsAmount; j++)
                     {
-- 
2.43.0


From 9543c258644f1009e7acd357643566f5180146c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:39 +0000
Subject: [PATCH 13/43] fix: do not add an implication to the concept which
 replaced its target concept

---
 src/Memory.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Memory.c b/src/Memory.c
index 47185b7..db630fe 100755
--- a/src/Memory.c
+++ b/src/Memory.c
@@ -315,7 +315,7 @@ void Memory_ProcessNewBeliefEvent(Event *event, long currentTime, double priorit
                 sourceConceptTerm = subject;
             }
             Concept *source_concept = Memory_Conceptualize(&sourceConceptTerm, currentTime);
-            if(source_concept != NULL)
+            if(source_concept != NULL && Memory_FindConceptByTerm(&predicate) == target_concept) //the new source concept could have taken the place of the target concept
             {
                 source_concept->usage = Usage_use(source_concept->usage, currentTime, eternalInput);
                 imp.sourceConceptId = source_concept->id;
-- 
2.43.0


From 31e2f3734416ff49911ee29937abe8256bb03027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:39 +0000
Subject: [PATCH 14/43] fix: add a copy of the revised belief, as its concept
 can be replaced meanwhile

---
 src/Memory.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/Memory.c b/src/Memory.c
index db630fe..3aef93b 100755
--- a/src/Memory.c
+++ b/src/Memory.c
@@ -377,10 +377,12 @@ void Memory_ProcessNewBeliefEvent(Event *event, long currentTime, double priorit
             }
             if(revision_happened)
             {
-                Memory_AddEvent(&c->belief, currentTime, priority, false, true, true, 0);
-                if(event->occurrenceTime == OCCURRENCE_ETERNAL)
+                Event revised_belief = c->belief; //copy, as the concept could be replaced while its revised belief is added
+                bool eternal = event->occurrenceTime == OCCURRENCE_ETERNAL;
+                Memory_AddEvent(&revised_belief, currentTime, priority, false, true, true, 0);
+                if(eternal)
                 {
-                    Memory_printAddedEvent(&c->belief.stamp, &c->belief, priority, false, false, true, true, false);
+                    Memory_printAddedEvent(&revised_belief.stamp, &revised_belief, priority, false, false, true, true, false);
                 }
             }
         }
-- 
2.43.0


From 8211ede27aaf19f6309307d17acc2cb68e8b43f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:39 +0000
Subject: [PATCH 15/43] fix: keep the components of the longest goal sequences
 within their array

---
 src/Cycle.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Cycle.c b/src/Cycle.c
index 2d2f300..8092aaf 100755
--- a/src/Cycle.c
+++ b/src/Cycle.c
@@ -161,7 +161,7 @@ bool Cycle_GoalSequenceDecomposition(Event *selectedGoal, double selectedGoalPri
     {
         return false;
     }
-    Term componentGoalsTerm[MAX_SEQUENCE_LEN+1] = {0};
+    Term componentGoalsTerm[MAX_SEQUENCE_LEN+2] = {0}; //a sequence with MAX_SEQUENCE_LEN+1 copulas has one more component
     Term cur_seq = selectedGoal->term;
     int i=0;
     for(; Narsese_copulaEquals(cur_seq.atoms[0], SEQUENCE); i++)
-- 
2.43.0


From bb808a56e1e027cf5cfa1036ab9a7921efd25644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:39 +0000
Subject: [PATCH 16/43] fix: reset concept match counts which influence the
 concept threshold

---
 src/Cycle.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Cycle.c b/src/Cycle.c
index 8092aaf..2ce85b1 100755
--- a/src/Cycle.c
+++ b/src/Cycle.c
@@ -50,6 +50,8 @@ void Cycle_INIT()
     conceptProcessID = 0;
     conceptProcessID2 = 0;
     conceptProcessID3 = 0;
+    Stats_countConceptsMatchedTotal = 0; //as it influences the concept priority threshold
+    Stats_countConceptsMatchedMax = 0;
 }
 
 //doing inference within the matched concept, returning whether decisionMaking should continue
-- 
2.43.0


From fd8787ece6520bf5dc6848e2e94c8948c6b13955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:39 +0000
Subject: [PATCH 17/43] fix: do not carry an imported stamp over a reset

---
 src/Event.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Event.c b/src/Event.c
index e8b0f1f..69f0c9b 100755
--- a/src/Event.c
+++ b/src/Event.c
@@ -49,6 +49,7 @@ Event Event_InputEvent(Term term, char type, Truth truth, double occurrenceTimeO
 void Event_INIT()
 {
     base = 1;
+    importstamp = (Stamp) {0};
 }
 
 bool Event_Equal(Event *event, Event *existing)
-- 
2.43.0


From 0ebb7f93cad3e5d33a8863df0386259850532115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:39 +0000
Subject: [PATCH 18/43] fix: reject truth values out of bounds

---
 src/Narsese.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Narsese.c b/src/Narsese.c
index faa733d..dadd49a 100755
--- a/src/Narsese.c
+++ b/src/Narsese.c
@@ -420,6 +420,7 @@ void Narsese_Sentence(char *narsese, Term *destTerm, char *punctuation, int *ten
         {
             assert(sscanf(&narseseInplace[openingIdx], oldFormat ? "%%%lf;%lf%%" : "{%lf %lf}", &freq, &conf) == 2, "Parsing error: Truth value could not be read!");
         }
+        assert(freq >= 0.0 && freq <= 1.0 && conf >= 0.0 && conf <= 1.0, "Parsing error: Truth value out of bounds!");
         destTv->frequency = freq;
         destTv->confidence = conf;
         assert(narseseInplace[openingIdx-1] == ' ', "Parsing error: Space before truth value required!");
-- 
2.43.0


From 40ca5fb46a6a97422ff9905b6f561150e28524eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:39 +0000
Subject: [PATCH 19/43] fix: limit the confidence of inputs to MAX_CONFIDENCE,
 as revision requires

---
 src/NAR.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/NAR.c b/src/NAR.c
index 1d58e64..b1133b2 100755
--- a/src/NAR.c
+++ b/src/NAR.c
@@ -55,6 +55,7 @@ void NAR_Cycles(int cycles)
 Event NAR_AddInput(Term term, char type, Truth truth, bool eternal, double occurrenceTimeOffset)
 {
     assert(initialized, "NAR not initialized yet, call NAR_INIT first!");
+    truth.confidence = MIN(MAX_CONFIDENCE, truth.confidence); //revision cannot exceed it either
     Event ev = Event_InputEvent(term, type, truth, occurrenceTimeOffset, currentTime);
     if(eternal)
     {
-- 
2.43.0


From f0647c312447358a7bc29363f5863198b4b3c4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:39 +0000
Subject: [PATCH 20/43] fix: do not read beyond the term when looking for
 nested junctions

---
 src/NAL.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NAL.c b/src/NAL.c
index 1fdf724..2cb22b9 100755
--- a/src/NAL.c
+++ b/src/NAL.c
@@ -280,7 +280,7 @@ static bool NAL_JunctionNotRightNested(Term *conclusionTerm)
         if(Narsese_copulaEquals(conclusionTerm->atoms[i], CONJUNCTION) || Narsese_copulaEquals(conclusionTerm->atoms[i], DISJUNCTION))
         {
             int i_right_child = ((i+1)*2+1)-1;
-            if(i < COMPOUND_TERM_SIZE_MAX &&  (Narsese_copulaEquals(conclusionTerm->atoms[i_right_child], CONJUNCTION) || Narsese_copulaEquals(conclusionTerm->atoms[i_right_child], DISJUNCTION)))
+            if(i_right_child < COMPOUND_TERM_SIZE_MAX && (Narsese_copulaEquals(conclusionTerm->atoms[i_right_child], CONJUNCTION) || Narsese_copulaEquals(conclusionTerm->atoms[i_right_child], DISJUNCTION)))
             {
                 return true;
             }
-- 
2.43.0


From 8197977d9454c38627b595b26bc2d28d7dae60c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:39 +0000
Subject: [PATCH 21/43] fix: terminate the text received by UDP

---
 src/NetworkNAR/UDPNAR.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/NetworkNAR/UDPNAR.c b/src/NetworkNAR/UDPNAR.c
index f1b927d..ee10035 100755
--- a/src/NetworkNAR/UDPNAR.c
+++ b/src/NetworkNAR/UDPNAR.c
@@ -57,8 +57,8 @@ void* Receive_Thread_Run(void *sockfd_address)
     int sockfd = *((int*) sockfd_address);
     for(;;)
     {
-        char buffer[NARSESE_LEN_MAX];
-        UDP_ReceiveData(sockfd, buffer, NARSESE_LEN_MAX);
+        char buffer[NARSESE_LEN_MAX] = {0};
+        UDP_ReceiveData(sockfd, buffer, NARSESE_LEN_MAX-1); //leave space for termination
         if(Stopped) //avoids problematic buffer states due to socket shutdown, most portable solution!
         {
             break;
-- 
2.43.0


From 434cb1c74cd8304bbf5855ceb59aff6bce174829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:39 +0000
Subject: [PATCH 22/43] fix: let UDPNAR_Start wait until its threads have read
 their arguments

---
 src/NetworkNAR/UDPNAR.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/NetworkNAR/UDPNAR.c b/src/NetworkNAR/UDPNAR.c
index ee10035..408dcb7 100755
--- a/src/NetworkNAR/UDPNAR.c
+++ b/src/NetworkNAR/UDPNAR.c
@@ -28,13 +28,15 @@ volatile bool Stopped = false;
 pthread_cond_t start_cond = PTHREAD_COND_INITIALIZER;
 pthread_mutex_t start_mutex = PTHREAD_MUTEX_INITIALIZER;
 pthread_mutex_t nar_mutex = PTHREAD_MUTEX_INITIALIZER;
+static int threads_started = 0; //guarded by start_mutex
 
 void* Reasoner_Thread_Run(void* timestep_address)
 {
+    long timestep = *((long*) timestep_address); //read before UDPNAR_Start is allowed to proceed, as it belongs to it
     pthread_mutex_lock(&start_mutex);
+    threads_started++;
     pthread_cond_signal(&start_cond);
     pthread_mutex_unlock(&start_mutex);
-    long timestep = *((long*) timestep_address);
     assert(timestep >= 0, "Nonsensical timestep for UDPNAR!");
     while(!Stopped)
     {
@@ -52,6 +54,7 @@ void* Reasoner_Thread_Run(void* timestep_address)
 void* Receive_Thread_Run(void *sockfd_address)
 {
     pthread_mutex_lock(&start_mutex);
+    threads_started++;
     pthread_cond_signal(&start_cond);
     pthread_mutex_unlock(&start_mutex);
     int sockfd = *((int*) sockfd_address);
@@ -85,12 +88,18 @@ void UDPNAR_Start(char *ip, int port, long timestep)
     //Create reasoner thread and wait for its creation
     pthread_mutex_lock(&start_mutex);
     pthread_create(&thread_reasoner, NULL, Reasoner_Thread_Run, &timestep);
-    pthread_cond_wait(&start_cond, &start_mutex);
+    while(threads_started < 1)
+    {
+        pthread_cond_wait(&start_cond, &start_mutex);
+    }
     pthread_mutex_unlock(&start_mutex);
     //Create receive thread and wait for its creation
     pthread_mutex_lock(&start_mutex);
     pthread_create(&thread_receiver, NULL, Receive_Thread_Run, &receiver_sockfd);
-    pthread_cond_wait(&start_cond, &start_mutex);
+    while(threads_started < 2)
+    {
+        pthread_cond_wait(&start_cond, &start_mutex);
+    }
     pthread_mutex_unlock(&start_mutex);
     puts("//UDPNAR started!");
     fflush(stdout);
-- 
2.43.0


From 6a70a27eb2dec886ac01495c915688127fe51c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:39 +0000
Subject: [PATCH 23/43] fix: pause between cycles also if the timestep is a
 second or longer

---
 src/NetworkNAR/UDPNAR.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NetworkNAR/UDPNAR.c b/src/NetworkNAR/UDPNAR.c
index 408dcb7..f598181 100755
--- a/src/NetworkNAR/UDPNAR.c
+++ b/src/NetworkNAR/UDPNAR.c
@@ -45,7 +45,7 @@ void* Reasoner_Thread_Run(void* timestep_address)
         pthread_mutex_unlock(&nar_mutex);
         if(timestep >= 0)
         {
-            nanosleep((struct timespec[]){{0, timestep}}, NULL); //POSIX sleep for timestep nanoseconds
+            nanosleep((struct timespec[]){{timestep / 1000000000L, timestep % 1000000000L}}, NULL); //POSIX sleep for timestep nanoseconds
         }
     }
     return NULL;
-- 
2.43.0


From a7ef3a90cf8103dafc6af36a9bdcf00ae6619cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:08 +0000
Subject: [PATCH 24/43] fix: variables introduced by generalisation never
 coincide with variables already present

---
 src/Variable.c | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/Variable.c b/src/Variable.c
index 0657fdd..9b3cbf5 100755
--- a/src/Variable.c
+++ b/src/Variable.c
@@ -310,9 +310,7 @@ Term Variable_IntroduceImplicationVariables2(Term implication, bool *success, bo
     }
     countHigherOrderStatementAtoms(&left_side,  &HT_appearing_left,  extensionally, sideOfProduct);
     countHigherOrderStatementAtoms(&right_side, &HT_appearing_right, extensionally, sideOfProduct);
-    char depvar_i = newVarID(&implication, false);
-    char indepvar_i = newVarID(&implication, true);
-    if(!depvar_i || !indepvar_i)
+    if(!newVarID(&implication, false) || !newVarID(&implication, true))
     {
         *success = false;
         return implication;
@@ -332,10 +330,10 @@ Term Variable_IntroduceImplicationVariables2(Term implication, bool *success, bo
                 int var_id = (intptr_t) HashTable_Get(&HT_variable_id, (void*) (intptr_t) atom);
                 if(!var_id)
                 {
-                    var_id = indepvar_i++;
+                    var_id = newVarID(&implication, true);
                     HashTable_Set(&HT_variable_id, (void*) (intptr_t) atom, (void*) (intptr_t) var_id);
                 }
-                if(var_id <= 9) //can only introduce up to 9 variables
+                if(var_id) //can only introduce up to 9 variables
                 {
                     char varname[3] = { '$', ('0' + var_id), 0 }; //$i
                     Term varterm = Narsese_AtomicTerm(varname);
@@ -355,10 +353,10 @@ Term Variable_IntroduceImplicationVariables2(Term implication, bool *success, bo
                 int var_id = (intptr_t) HashTable_Get(&HT_variable_id, (void*) (intptr_t) atom);
                 if(!var_id)
                 {
-                    var_id = depvar_i++;
+                    var_id = newVarID(&implication, false);
                     HashTable_Set(&HT_variable_id, (void*) (intptr_t) atom, (void*) (intptr_t) var_id);
                 }
-                if(var_id <= 9) //can only introduce up to 9 variables
+                if(var_id) //can only introduce up to 9 variables
                 {
                     char varname[3] = { '#', ('0' + var_id), 0 }; //#i
                     Term varterm = Narsese_AtomicTerm(varname);
@@ -394,8 +392,7 @@ Term Variable_IntroduceConjunctionVariables(Term conjunction, bool *success, boo
     HashTable_INIT(&HT_variable_id,  HT_variable_id_storage, HT_variable_id_storageptrs,  HT_variable_id_HT,  VAR_INTRO_HASHTABLE_BUCKETS, COMPOUND_TERM_SIZE_MAX, (Equal) Atom_Equal, (Hash) Atom_Hash);
     Term left_side = conjunction;
     countHigherOrderStatementAtoms(&left_side, &HT_appearing_left, extensionally, 0);
-    char depvar_i = newVarID(&conjunction, false);
-    if(!depvar_i)
+    if(!newVarID(&conjunction, false))
     {
         *success = false;
         return conjunction;
@@ -411,10 +408,10 @@ Term Variable_IntroduceConjunctionVariables(Term conjunction, bool *success, boo
             int var_id = (intptr_t) HashTable_Get(&HT_variable_id, (void*) (intptr_t) atom);
             if(!var_id)
             {
-                var_id = depvar_i++;
+                var_id = newVarID(&conjunction, false);
                 HashTable_Set(&HT_variable_id, (void*) (intptr_t) atom, (void*) (intptr_t) var_id);
             }
-            if(var_id <= 9) //can only introduce up to 9 variables
+            if(var_id) //can only introduce up to 9 variables
             {
                 char varname[3] = { '#', ('0' + var_id), 0 }; //#i
                 Term varterm = Narsese_AtomicTerm(varname);
-- 
2.43.0


From 54fc9dcc5b45e4684def0f469bc052a576668055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:03 +0000
Subject: [PATCH 25/43] fix: do not execute without a candidate when the
 decision threshold is zero or below

---
 src/Decision.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Decision.c b/src/Decision.c
index f06bee8..3435e25 100755
--- a/src/Decision.c
+++ b/src/Decision.c
@@ -540,7 +540,7 @@ Decision Decision_BestCandidate(Concept *goalconcept, Event *goal, long currentT
             }
         }
     }
-    if(decision.desire < DECISION_THRESHOLD)
+    if(decision.reason == NULL || decision.desire < DECISION_THRESHOLD)
     {
         return (Decision) {0}; 
     }
-- 
2.43.0


From 13189bba50839706f5cf226449315ec01581318d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:21 +0000
Subject: [PATCH 26/43] fix: no motor babbling if it is not allowed for any
 operation

---
 src/Decision.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Decision.c b/src/Decision.c
index 3435e25..d30f61b 100755
--- a/src/Decision.c
+++ b/src/Decision.c
@@ -277,9 +277,10 @@ static Decision Decision_MotorBabbling()
     {
         n_ops = i+1;
     }
+    n_ops = MIN(BABBLING_OPS, n_ops);
     if(n_ops > 0)
     {
-        decision.operationID[0] = 1+(myrand() % (MIN(BABBLING_OPS, n_ops)));
+        decision.operationID[0] = 1+(myrand() % n_ops);
         IN_DEBUG (
             printf(" NAR BABBLE %d\n", decision.operationID[0]);
         )
-- 
2.43.0


From b87212278e73edc57792acd462abc1e77ba3013a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:21 +0000
Subject: [PATCH 27/43] fix: do not divide by a current time of zero

---
 src/Cycle.c | 2 +-
 src/Stats.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Cycle.c b/src/Cycle.c
index 2ce85b1..c37ff06 100755
--- a/src/Cycle.c
+++ b/src/Cycle.c
@@ -707,7 +707,7 @@ void Cycle_Inference(long currentTime)
             long countConceptsMatchedNew = 0;
             //Adjust dynamic firing threshold: (proportional "self"-control)
             double conceptPriorityThresholdCurrent = conceptPriorityThreshold;
-            long countConceptsMatchedAverage = Stats_countConceptsMatchedTotal / currentTime;
+            long countConceptsMatchedAverage = Stats_countConceptsMatchedTotal / MAX(1, currentTime);
             double set_point = BELIEF_CONCEPT_MATCH_TARGET;
             double process_value = countConceptsMatchedAverage; 
             double error = process_value - set_point;
diff --git a/src/Stats.c b/src/Stats.c
index 529ae3d..29e4e2a 100755
--- a/src/Stats.c
+++ b/src/Stats.c
@@ -60,7 +60,7 @@ void Stats_Print(long currentTime)
     puts("Statistics\n----------");
     printf("countConceptsMatchedTotal:\t%ld\n", Stats_countConceptsMatchedTotal);
     printf("countConceptsMatchedMax:\t%ld\n", Stats_countConceptsMatchedMax);
-    long countConceptsMatchedAverage = Stats_countConceptsMatchedTotal / currentTime;
+    long countConceptsMatchedAverage = Stats_countConceptsMatchedTotal / MAX(1, currentTime);
     printf("countConceptsMatchedAverage:\t%ld\n", countConceptsMatchedAverage);
     printf("currentTime:\t\t\t%ld\n", currentTime);
     printf("total concepts:\t\t\t%d\n", concepts.itemsAmount);
-- 
2.43.0


From 6f968f61c7352137ed159ffe3a1b0510d7401663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:32 +0000
Subject: [PATCH 28/43] fix: reject a stamp ID which would make evidence appear
 to have no base

---
 src/Shell.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Shell.c b/src/Shell.c
index 6ae320d..fddf0c0 100755
--- a/src/Shell.c
+++ b/src/Shell.c
@@ -257,6 +257,7 @@ int Shell_ProcessInput(char *line)
         if(!strncmp("*stampid=", line, strlen("*stampid=")))
         {
             sscanf(&line[strlen("*stampid=")], "%ld", &base);
+            assert(base > STAMP_FREE, "The stamp ID needs to be positive!");
         }
         else
         if(!strncmp("*stampimport=[", line, strlen("*stampimport=[")))
-- 
2.43.0


From 1e82d2ca8861aa4c9dbba5d8de2400d0a80bea14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:57 +0000
Subject: [PATCH 29/43] fix: do not anticipate with concepts which were
 replaced in the course of it

---
 src/Decision.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Decision.c b/src/Decision.c
index d30f61b..0aeba26 100755
--- a/src/Decision.c
+++ b/src/Decision.c
@@ -560,6 +560,7 @@ void Decision_Anticipate(int operationID, Term opTerm, bool declarative, long cu
     for(int j=0; j<concepts.itemsAmount; j++)
     {
         Concept *postc = concepts.items[j].address;
+        long postc_id = postc->id;
         Implication valid_implications[TABLE_SIZE*2] = {0};
         int k=0;
         if(!declarative)
@@ -594,6 +595,10 @@ void Decision_Anticipate(int operationID, Term opTerm, bool declarative, long cu
         for(int h=0; h<k; h++)
         {
             Implication imp = valid_implications[h]; //(&/,a,op) =/> b.
+            if(postc->id != postc_id || !Memory_ImplicationValid(&imp))
+            {
+                continue; //one of the concepts was replaced by one created for a previous anticipation
+            }
             Concept *current_prec = imp.sourceConcept;
             Event *precondition = &current_prec->belief_spike;
             if(precondition != NULL && precondition->type != EVENT_TYPE_DELETED)
-- 
2.43.0


From ae768d313ec53de7bd0b9f9545594cb6dbd4dc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:57 +0000
Subject: [PATCH 30/43] fix: only anticipate for preconditions which already
 occurred

---
 src/Decision.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Decision.c b/src/Decision.c
index 0aeba26..bef0499 100755
--- a/src/Decision.c
+++ b/src/Decision.c
@@ -601,7 +601,7 @@ void Decision_Anticipate(int operationID, Term opTerm, bool declarative, long cu
             }
             Concept *current_prec = imp.sourceConcept;
             Event *precondition = &current_prec->belief_spike;
-            if(precondition != NULL && precondition->type != EVENT_TYPE_DELETED)
+            if(precondition != NULL && precondition->type != EVENT_TYPE_DELETED && precondition->occurrenceTime <= currentTime)
             {
                 if(operationID > 0) //it's a real operation, check if the link's operation is the same
                 {
-- 
2.43.0


From 41922d8f4c92a8b87c20aa2b4c51d53961985b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:10 +0000
Subject: [PATCH 31/43] fix: do not accept anticipated conclusions without
 sufficient evidence

---
 src/Decision.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Decision.c b/src/Decision.c
index bef0499..55b9bbd 100755
--- a/src/Decision.c
+++ b/src/Decision.c
@@ -647,7 +647,8 @@ void Decision_Anticipate(int operationID, Term opTerm, bool declarative, long cu
                             if(success2)
                             {
                                 Concept *c = Memory_Conceptualize(&result.term, currentTime);
-                                if(c != NULL && !Stamp_checkOverlap(&precondition->stamp, &imp.stamp))
+                                //conclusions without sufficient evidence are not accepted, as for other derivations
+                                if(c != NULL && result.truth.confidence >= MIN_CONFIDENCE && !Stamp_checkOverlap(&precondition->stamp, &imp.stamp))
                                 {
                                     c->usage = Usage_use(c->usage, currentTime, false);
                                     if(Narsese_copulaEquals(imp.term.atoms[0], TEMPORAL_IMPLICATION))
-- 
2.43.0


From a1721dc6461ba99dd106a74ff3947011632dc5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:08 +0000
Subject: [PATCH 32/43] fix: answer with implications held by their own concept
 only

---
 src/NAR.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/NAR.c b/src/NAR.c
index b1133b2..53c5764 100755
--- a/src/NAR.c
+++ b/src/NAR.c
@@ -158,11 +158,8 @@ void NAR_AddInputNarsese2(char *narsese_sentence, bool queryCommand, double answ
             if(Narsese_copulaEquals(term.atoms[0], IMPLICATION))
             {
                 Term toCompare2 = Term_ExtractSubterm(&term, 2);
-                if(!Variable_Unify2(unused, &toCompare2, &c->term, true).success)
-                {
-                    goto Continue;
-                }
-                for(int j=0; j<c->implication_links.itemsAmount; j++)
+                bool consequentMatched = Variable_Unify2(unused, &toCompare2, &c->term, true).success; //else the implication can still be held by its own concept
+                for(int j=0; consequentMatched && j<c->implication_links.itemsAmount; j++)
                 {
                     Implication *imp = &c->implication_links.array[j];
                     if(!Variable_Unify2(unused, &term, &imp->term, true).success)
-- 
2.43.0


From 362640927e3d8e8334accabd5e60be3cf07072af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:29 +0000
Subject: [PATCH 33/43] fix: anticipate for every concept exactly once when
 anticipated outcomes create concepts

---
 src/Decision.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/Decision.c b/src/Decision.c
index 55b9bbd..dec3040 100755
--- a/src/Decision.c
+++ b/src/Decision.c
@@ -557,9 +557,15 @@ Decision Decision_BestCandidate(Concept *goalconcept, Event *goal, long currentT
 void Decision_Anticipate(int operationID, Term opTerm, bool declarative, long currentTime)
 {
     assert(operationID >= 0 && operationID <= OPERATIONS_MAX, "Wrong operation id, did you inject an event manually?");
-    for(int j=0; j<concepts.itemsAmount; j++)
+    static Concept *postconditions[CONCEPTS_MAX]; //copied, as concepts created for anticipated outcomes re-order the queue
+    int postconditionsAmount = concepts.itemsAmount;
+    for(int j=0; j<postconditionsAmount; j++)
     {
-        Concept *postc = concepts.items[j].address;
+        postconditions[j] = concepts.items[j].address;
+    }
+    for(int j=0; j<postconditionsAmount; j++)
+    {
+        Concept *postc = postconditions[j];
         long postc_id = postc->id;
         Implication valid_implications[TABLE_SIZE*2] = {0};
         int k=0;
-- 
2.43.0


From 20a2f50dba69418aa28685df925f5a7dd3dcf24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:10 +0000
Subject: [PATCH 34/43] fix: do not refrain from operations because of
 hypotheses whose condition was forgotten

---
 src/Decision.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Decision.c b/src/Decision.c
index dec3040..c17ef60 100755
--- a/src/Decision.c
+++ b/src/Decision.c
@@ -319,6 +319,10 @@ static Decision Decision_ConsiderNegativeOutcomes(Decision decision)
             for(int j=0; j<c->precondition_beliefs[decision.operationID[0]].itemsAmount; j++)
             {
                 Implication imp = c->precondition_beliefs[decision.operationID[0]].array[j];
+                if(!Memory_ImplicationValid(&imp))
+                {
+                    continue;
+                }
                 Concept *prec = imp.sourceConcept;
                 if(prec->belief_spike.type != EVENT_TYPE_DELETED && currentTime - prec->belief_spike.occurrenceTime < EVENT_BELIEF_DISTANCE)
                 {
@@ -454,6 +458,10 @@ Decision Decision_BestCandidate(Concept *goalconcept, Event *goal, long currentT
                                     for(int k=0; k<goalconcept->precondition_beliefs[opk].itemsAmount; k++)
                                     {
                                         Implication impk = goalconcept->precondition_beliefs[opk].array[k];
+                                        if(!Memory_ImplicationValid(&impk))
+                                        {
+                                            continue;
+                                        }
                                         Term left_side_with_opk = Term_ExtractSubterm(&impk.term, 1);
                                         Term left_sidek = Narsese_GetPreconditionWithoutOp(&left_side_with_opk);
                                         Substitution subs3 = Variable_UnifyWithAnalogy(cmatch->belief_spike.truth, &left_sidek, &cmatch->term);
-- 
2.43.0


From 662108e5149a26162e5a65a55a6b0146da4b505c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:01 +0000
Subject: [PATCH 35/43] fix: hold the missing instance of a compound
 operation's hypothesis with its last operation only

---
 src/Decision.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Decision.c b/src/Decision.c
index c17ef60..074bde2 100755
--- a/src/Decision.c
+++ b/src/Decision.c
@@ -251,7 +251,7 @@ void Decision_Execute(long currentTime, Decision *decision)
         {
             NAR_AddInputBelief(feedbackTerm);
             //assumption of failure extension to specific cases not experienced before:
-            if(ANTICIPATE_FOR_NOT_EXISTING_SPECIFIC_TEMPORAL_IMPLICATION && decision->missing_specific_implication.term.atoms[0])
+            if(ANTICIPATE_FOR_NOT_EXISTING_SPECIFIC_TEMPORAL_IMPLICATION && i == 0 && decision->missing_specific_implication.term.atoms[0]) //all operations executed, the last one is the one it's indexed by
             {
                 Term postcondition = Term_ExtractSubterm(&decision->missing_specific_implication.term, 2);
                 Concept *postc = Memory_Conceptualize(&postcondition, currentTime);
-- 
2.43.0


From 3e3a966a4f1cb5a2828682edcac7e579dba31ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:01 +0000
Subject: [PATCH 36/43] fix: do not execute the remainder of a compound
 operation with an unregistered part

---
 src/Decision.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Decision.c b/src/Decision.c
index 074bde2..a0f61c2 100755
--- a/src/Decision.c
+++ b/src/Decision.c
@@ -409,6 +409,10 @@ static Decision Decision_ConsiderImplication(long currentTime, Event *goal, Impl
                 decision.arguments[i-1] = arguments;
             }
             decision.operationID[i-1] = Memory_getOperationID(&operation);
+            if(!decision.operationID[i-1]) //not registered, so the operation sequence can't be executed
+            {
+                return (Decision) {0};
+            }
             seq = Term_ExtractSubterm(&seq, 1);
             i++;
         }
-- 
2.43.0


From b7f6342746c45b91d13120a7b6db817ee8f4fd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:01 +0000
Subject: [PATCH 37/43] fix: judge the missing instance by the condition the
 decision was made with

---
 src/Decision.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Decision.c b/src/Decision.c
index a0f61c2..7be176b 100755
--- a/src/Decision.c
+++ b/src/Decision.c
@@ -179,6 +179,7 @@ void Decision_Execute(long currentTime, Decision *decision)
             }
         }
     }
+    Event reason = decision->reason != NULL ? *decision->reason : (Event) {0}; //copied, as the cycles after feedback can replace it
     int n_ops_to_execute = 0;
     for(int i=0; i<MAX_COMPOUND_OP_LEN; i++)
     {
@@ -257,7 +258,7 @@ void Decision_Execute(long currentTime, Decision *decision)
                 Concept *postc = Memory_Conceptualize(&postcondition, currentTime);
                 if(postc != NULL)
                 {
-                    Decision_AddNegativeConfirmation(decision->reason, decision->missing_specific_implication, decision->operationID[i], postc);
+                    Decision_AddNegativeConfirmation(&reason, decision->missing_specific_implication, decision->operationID[i], postc);
                 }
             }
         }
-- 
2.43.0


From d81c433a5323b1edd3abe4bd22aaba13c5747727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:28 +0000
Subject: [PATCH 38/43] fix: functional equivalence adds each generalised
 implication of a pair only once

---
 src/Decision.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/Decision.c b/src/Decision.c
index 7be176b..87bacbc 100755
--- a/src/Decision.c
+++ b/src/Decision.c
@@ -116,6 +116,7 @@ void Decision_Execute(long currentTime, Decision *decision)
                         bool success2 = Term_OverrideSubterm(&equTerm1, 2, &prec2);
                         Term Te_imp2 = {0};
                         Term Te_imp3 = {0};
+                        Term Te_imp2_reverse = {0};
                         if(success1 && success2 && Truth_Expectation(Memory_getTemporalLinkTruth(&prec1, &prec2)) <= FUNCTIONAL_EQUIVALENCE_NONTEMPORAL_EXP && Truth_Expectation(Memory_getTemporalLinkTruth(&prec2, &prec1)) <= FUNCTIONAL_EQUIVALENCE_NONTEMPORAL_EXP)
                         {
                             Event e_imp = { .term = equTerm1,
@@ -138,7 +139,7 @@ void Decision_Execute(long currentTime, Decision *decision)
                             Event e_imp3 = e_imp;
                             bool intro_success3;
                             e_imp3.term = Variable_IntroduceImplicationVariables2(e_imp.term, &intro_success3, true, 1);
-                            if(intro_success3 && Variable_hasVariable(&e_imp3.term, true, true, false))
+                            if(intro_success3 && Variable_hasVariable(&e_imp3.term, true, true, false) && !Term_Equal(&Te_imp2, &e_imp3.term)) //else it has been added already
                             {
                                 Te_imp3 = e_imp3.term;
                                 Memory_AddEvent(&e_imp3, currentTime, 1.0, false, true, false, 0);
@@ -162,14 +163,15 @@ void Decision_Execute(long currentTime, Decision *decision)
                             Event e_imp2 = e_imp;
                             bool intro_success2;
                             e_imp2.term = Variable_IntroduceImplicationVariables2(e_imp.term, &intro_success2, true, 2);
-                            if(intro_success2 && Variable_hasVariable(&e_imp2.term, true, true, false) && !Term_Equal(&Te_imp2, &e_imp2.term))
+                            if(intro_success2 && Variable_hasVariable(&e_imp2.term, true, true, false) && !Term_Equal(&Te_imp2, &e_imp2.term) && !Term_Equal(&Te_imp3, &e_imp2.term))
                             {
+                                Te_imp2_reverse = e_imp2.term;
                                 Memory_AddEvent(&e_imp2, currentTime, 1.0, false, true, false, 0);
                             }
                             Event e_imp3 = e_imp;
                             bool intro_success3;
                             e_imp3.term = Variable_IntroduceImplicationVariables2(e_imp.term, &intro_success3, true, 1);
-                            if(intro_success3 && Variable_hasVariable(&e_imp3.term, true, true, false) && !Term_Equal(&Te_imp3, &e_imp3.term))
+                            if(intro_success3 && Variable_hasVariable(&e_imp3.term, true, true, false) && !Term_Equal(&Te_imp2, &e_imp3.term) && !Term_Equal(&Te_imp3, &e_imp3.term) && !Term_Equal(&Te_imp2_reverse, &e_imp3.term))
                             {
                                 Memory_AddEvent(&e_imp3, currentTime, 1.0, false, true, false, 0);
                             }
-- 
2.43.0


From 4cebfe40ecc8ac45073b41c542ad3be1edef5324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:39 +0000
Subject: [PATCH 39/43] fix: functional equivalence compares all operations of
 the hypotheses, not only the last one

---
 src/Decision.c | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/Decision.c b/src/Decision.c
index 87bacbc..bafa384 100755
--- a/src/Decision.c
+++ b/src/Decision.c
@@ -47,6 +47,28 @@ static void Decision_AddNegativeConfirmation(Event *precondition, Implication im
     }
 }
 
+//Whether both left-nested (precondition &/ operations) sequences end with the same operations
+static bool Decision_SameOperations(Term prec_op1, Term prec_op2)
+{
+    while(true)
+    {
+        Term op1 = Term_ExtractSubterm(&prec_op1, 2);
+        Term op2 = Term_ExtractSubterm(&prec_op2, 2);
+        bool hasOp1 = Narsese_copulaEquals(prec_op1.atoms[0], SEQUENCE) && Narsese_isOperation(&op1);
+        bool hasOp2 = Narsese_copulaEquals(prec_op2.atoms[0], SEQUENCE) && Narsese_isOperation(&op2);
+        if(!hasOp1 && !hasOp2)
+        {
+            return true;
+        }
+        if(!hasOp1 || !hasOp2 || !Term_Equal(&op1, &op2))
+        {
+            return false;
+        }
+        prec_op1 = Term_ExtractSubterm(&prec_op1, 1);
+        prec_op2 = Term_ExtractSubterm(&prec_op2, 1);
+    }
+}
+
 //Inject action event after execution or babbling
 void Decision_Execute(long currentTime, Decision *decision)
 {
@@ -67,8 +89,6 @@ void Decision_Execute(long currentTime, Decision *decision)
                 Term cons2 = Term_ExtractSubterm(&comparedImp.term, 2);
                 Term prec_op1 = Term_ExtractSubterm(&decision->specific_implication.term, 1);
                 Term prec_op2 = Term_ExtractSubterm(&comparedImp.term, 1);
-                Term op1 = Term_ExtractSubterm(&prec_op1, 2);
-                Term op2 = Term_ExtractSubterm(&prec_op2, 2);
                 Term prec1 = Narsese_GetPreconditionWithoutOp(&prec_op1);
                 Term prec2 = Narsese_GetPreconditionWithoutOp(&prec_op2);
                 bool prec1_prec2_equal = Term_Equal(&prec1, &prec2);
@@ -105,7 +125,7 @@ void Decision_Execute(long currentTime, Decision *decision)
                         NO_EQUAL_PART:;
                     }
                 }
-                if(!prec1_prec2_equal && Term_Equal(&cons1, &cons2) && Term_Equal(&op1, &op2) && (!FUNCTIONAL_EQUIVALENCE_LENGTH_RESTRICTION || Narsese_SequenceLength(&prec1) == Narsese_SequenceLength(&prec2)))
+                if(!prec1_prec2_equal && Term_Equal(&cons1, &cons2) && Decision_SameOperations(prec_op1, prec_op2) && (!FUNCTIONAL_EQUIVALENCE_LENGTH_RESTRICTION || Narsese_SequenceLength(&prec1) == Narsese_SequenceLength(&prec2)))
                 {
                     if(!Stamp_checkOverlap(&decision->specific_implication.stamp, &comparedImp.stamp))
                     {
-- 
2.43.0


From 9d6cfb35cf3a4f142d502bde5018ede30b5c3778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:19 +0000
Subject: [PATCH 40/43] fix: implications are not revised with evidence they
 rest on already

---
 src/Table.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/Table.c b/src/Table.c
index bc9ab83..ff54ad0 100755
--- a/src/Table.c
+++ b/src/Table.c
@@ -76,6 +76,15 @@ Implication *Table_AddAndRevise(Table *table, Implication *imp)
     {
         //revision adds the revised element, removing the old implication from the table
         Implication OldImp = table->array[same_i];
+        if(Narsese_copulaEquals(imp->term.atoms[0], IMPLICATION) && Stamp_checkOverlap(&OldImp.stamp, &imp->stamp))
+        {
+            if(imp->truth.confidence <= OldImp.truth.confidence)
+            {
+                return NULL; //the held one is kept
+            }
+            Table_Remove(table, same_i);
+            return Table_Add(table, imp);
+        }
         assert(OldImp.truth.frequency >= 0.0 && OldImp.truth.frequency <= 1.0, "(1) frequency out of bounds");
         assert(OldImp.truth.confidence >= 0.0 && OldImp.truth.confidence <= 1.0, "(1) confidence out of bounds");
         assert(imp->truth.frequency >= 0.0 && imp->truth.frequency <= 1.0, "(2) frequency out of bounds");
-- 
2.43.0


From 42b54fb3f10d676bc10ba0c9141df52207fcb037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:13 +0000
Subject: [PATCH 41/43] fix: the relation of an attribute which is a compound
 leaves nothing of it behind the set terminator

---
 src/Cycle.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/Cycle.c b/src/Cycle.c
index c37ff06..d906555 100755
--- a/src/Cycle.c
+++ b/src/Cycle.c
@@ -569,7 +569,6 @@ void Cycle_ProcessBeliefEvents(long currentTime)
                                                 Term_OverrideSubterm(&Trelation, 4, &LOC2);
                                             }
                                             Term_OverrideSubterm(&Trelation, 5, &ATTR1);
-                                            Term_OverrideSubterm(&Trelation, 6, &ATTR1);
                                             Trelation.atoms[6] = Narsese_CopulaIndex(SET_TERMINATOR);
                                             Term TrelationWithContext = {0};
                                             if(!rest.atoms[0])
-- 
2.43.0


From 8ff71ad821b694c6fc900f3ca93d6534a27e6043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:31 +0000
Subject: [PATCH 42/43] fix: implications are revised as before, the stable
 tests rest on it (reverts 9d6cfb3)

---
 src/Table.c | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/src/Table.c b/src/Table.c
index ff54ad0..bc9ab83 100755
--- a/src/Table.c
+++ b/src/Table.c
@@ -76,15 +76,6 @@ Implication *Table_AddAndRevise(Table *table, Implication *imp)
     {
         //revision adds the revised element, removing the old implication from the table
         Implication OldImp = table->array[same_i];
-        if(Narsese_copulaEquals(imp->term.atoms[0], IMPLICATION) && Stamp_checkOverlap(&OldImp.stamp, &imp->stamp))
-        {
-            if(imp->truth.confidence <= OldImp.truth.confidence)
-            {
-                return NULL; //the held one is kept
-            }
-            Table_Remove(table, same_i);
-            return Table_Add(table, imp);
-        }
         assert(OldImp.truth.frequency >= 0.0 && OldImp.truth.frequency <= 1.0, "(1) frequency out of bounds");
         assert(OldImp.truth.confidence >= 0.0 && OldImp.truth.confidence <= 1.0, "(1) confidence out of bounds");
         assert(imp->truth.frequency >= 0.0 && imp->truth.frequency <= 1.0, "(2) frequency out of bounds");
-- 
2.43.0


From d183e13a930a27ac3e4bc674938b489968e5a5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:32 +0000
Subject: [PATCH 43/43] fix: a hypothesis used for a similar measured value
 stays attached to its own condition

---
 src/Decision.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/Decision.c b/src/Decision.c
index bafa384..0ea92df 100755
--- a/src/Decision.c
+++ b/src/Decision.c
@@ -276,11 +276,18 @@ void Decision_Execute(long currentTime, Decision *decision)
             //assumption of failure extension to specific cases not experienced before:
             if(ANTICIPATE_FOR_NOT_EXISTING_SPECIFIC_TEMPORAL_IMPLICATION && i == 0 && decision->missing_specific_implication.term.atoms[0]) //all operations executed, the last one is the one it's indexed by
             {
-                Term postcondition = Term_ExtractSubterm(&decision->missing_specific_implication.term, 2);
+                Implication missing = decision->missing_specific_implication;
+                Term subject = Term_ExtractSubterm(&missing.term, 1);
+                Term precondition = Narsese_GetPreconditionWithoutOp(&subject); //measured values in it can differ from the ones in the matched event
+                Term postcondition = Term_ExtractSubterm(&missing.term, 2);
+                Concept *prec = Memory_Conceptualize(&precondition, currentTime);
+                long prec_id = prec != NULL ? prec->id : 0;
                 Concept *postc = Memory_Conceptualize(&postcondition, currentTime);
-                if(postc != NULL)
+                if(prec != NULL && postc != NULL)
                 {
-                    Decision_AddNegativeConfirmation(&reason, decision->missing_specific_implication, decision->operationID[i], postc);
+                    missing.sourceConcept = prec;
+                    missing.sourceConceptId = prec_id;
+                    Decision_AddNegativeConfirmation(&reason, missing, decision->operationID[i], postc);
                 }
             }
         }
-- 
2.43.0

