From e4ae999c7680699ec922f3249889cc8bbb151d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:20 +0000
Subject: [PATCH 01/42] fix: pretransfer lost the character after a single ] in
 a word-bound blank

---
 apertium/pretransfer.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/apertium/pretransfer.cc b/apertium/pretransfer.cc
index deb1be7..ead9ab1 100644
--- a/apertium/pretransfer.cc
+++ b/apertium/pretransfer.cc
@@ -41,6 +41,8 @@ UString storeAndWriteWblank(InputFile& input, UFILE* output)
         u_fputc(mychar, output);
         break;
       }
+      // a single ] is part of the content: what follows it is yet to be copied
+      input.unget(mychar);
     }
   }
 
-- 
2.43.0


From a0b019b62a18318a95e90b85ecfa54e6c2578b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:20 +0000
Subject: [PATCH 02/42] fix: pretransfer looped forever on input that ends
 inside a surface form

---
 apertium/pretransfer.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/apertium/pretransfer.cc b/apertium/pretransfer.cc
index ead9ab1..761b7ac 100644
--- a/apertium/pretransfer.cc
+++ b/apertium/pretransfer.cc
@@ -81,6 +81,11 @@ void procWord(InputFile& input, UFILE* output, bool surface_forms, bool compound
   if(surface_forms)
   {
     while((mychar = input.get()) != '/') {
+      if(input.eof())
+      {
+        std::cerr << "ERROR: Unexpected EOF" << std::endl;
+        exit(EXIT_FAILURE);
+      }
       if (mychar == '\\') input.get();
     }
   }
-- 
2.43.0


From 510a018a8e12c53ea69a4cbbb1322330794eae68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:20 +0000
Subject: [PATCH 03/42] fix: pretransfer treated escaped characters in lexical
 units as special

---
 apertium/pretransfer.cc | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/apertium/pretransfer.cc b/apertium/pretransfer.cc
index 761b7ac..d9be432 100644
--- a/apertium/pretransfer.cc
+++ b/apertium/pretransfer.cc
@@ -98,6 +98,23 @@ void procWord(InputFile& input, UFILE* output, bool surface_forms, bool compound
       exit(EXIT_FAILURE);
     }
 
+    if(mychar == '\\')
+    {
+      // an escaped character is never special, wherever it is
+      int escaped = input.get();
+      if(buffer_mode)
+      {
+        buffer += mychar;
+        buffer += escaped;
+      }
+      else
+      {
+        u_fputc(mychar, output);
+        u_fputc(escaped, output);
+      }
+      continue;
+    }
+
     switch(mychar)
     {
     case '<':
-- 
2.43.0


From d39eda63b97b15337d64558e07cabe52b51cc1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:44 +0000
Subject: [PATCH 04/42] fix: pretransfer -e did not split at a ~ that follows a
 queue

---
 apertium/pretransfer.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/apertium/pretransfer.cc b/apertium/pretransfer.cc
index d9be432..3884a3a 100644
--- a/apertium/pretransfer.cc
+++ b/apertium/pretransfer.cc
@@ -167,6 +167,13 @@ void procWord(InputFile& input, UFILE* output, bool surface_forms, bool compound
         buffer.append("^"_u);
         buffer_mode = true;
       }
+      else if(mychar == '~' && compound_sep == true && queuing == true)
+      {
+        buffer.append("$"_u);
+        buffer.append(wblank);
+        buffer.append("^"_u);
+        buffer_mode = true;
+      }
       else
       {
         u_fputc(mychar, output);
-- 
2.43.0


From ae7e62920a817fa56a2c0d7fb3222e63a8ee246a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:40 +0000
Subject: [PATCH 05/42] fix: wblank-attach dropped the escapes inside
 word-bound blanks

---
 apertium/wblank-attach.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/apertium/wblank-attach.cc b/apertium/wblank-attach.cc
index e379ad9..aacaac7 100644
--- a/apertium/wblank-attach.cc
+++ b/apertium/wblank-attach.cc
@@ -23,7 +23,7 @@
 #include <array>
 
 void trim_wb(std::string& wb) {
-	while (!wb.empty() && (wb.back() == ';' || wb.back() == ' ')) {
+	while (!wb.empty() && (wb.back() == ';' || wb.back() == ' ') && !(wb.size() > 1 && wb[wb.size() - 2] == '\\')) {
 		wb.pop_back();
 	}
 	size_t h = 0;
@@ -68,6 +68,7 @@ int main(int argc, char* argv[]) {
 			if (in_blank) {
 				blank += c;
 				blank += n;
+				unesc += c;
 				unesc += n;
 			}
 			else {
@@ -156,7 +157,10 @@ int main(int argc, char* argv[]) {
 				wb_stack.push_back(0);
 				size_t b = 0;
 				while (b < blank.size()) {
-					size_t e = blank.find(';', b);
+					size_t e = b;
+					while (e < blank.size() && blank[e] != ';') {
+						e += (blank[e] == '\\') ? 2 : 1;
+					}
 					unesc.assign(blank, b, e - b);
 					trim_wb(unesc);
 					// Deduplicate
-- 
2.43.0


From 0fbe623d9b657dc115b8754cd4174aa886dbfaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:50 +0000
Subject: [PATCH 06/42] fix: wblank-attach popped word-bound blanks that a null
 flush had discarded

---
 apertium/wblank-attach.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apertium/wblank-attach.cc b/apertium/wblank-attach.cc
index aacaac7..05d8ba4 100644
--- a/apertium/wblank-attach.cc
+++ b/apertium/wblank-attach.cc
@@ -79,7 +79,8 @@ int main(int argc, char* argv[]) {
 		}
 
 		if (c == '\0') {
-			in_token = in_blank = false;
+			in_token = in_blank = in_wblank = false;
+			wb_stack.clear();
 			if (!wbs.empty()) {
 				std::cerr << "tf-apertium-spread warning: Null-flush found, but had open word-bound blanks on line " << line << ":";
 				for (auto& wb : wbs) {
-- 
2.43.0


From 549f4d04c14102a7b673a73ee0367ff052cc0192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:40 +0000
Subject: [PATCH 07/42] fix: transfer and interchunk lost words after a rule
 was rejected with shifting

---
 apertium/interchunk.cc | 1 +
 apertium/transfer.cc   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/apertium/interchunk.cc b/apertium/interchunk.cc
index dcc1bba..4a918a6 100644
--- a/apertium/interchunk.cc
+++ b/apertium/interchunk.cc
@@ -501,6 +501,7 @@ Interchunk::interchunk(InputFile& in, UFILE* out)
               num_consumed_words++;
             }
           }
+          last = input_buffer.getPos();
         }
         else
         {
diff --git a/apertium/transfer.cc b/apertium/transfer.cc
index 3b8a585..c730bfc 100644
--- a/apertium/transfer.cc
+++ b/apertium/transfer.cc
@@ -1022,6 +1022,7 @@ Transfer::transfer(InputFile& in, UFILE* out)
               num_consumed_words++;
             }
           }
+          last = input_buffer.getPos();
         }
         else
         {
-- 
2.43.0


From 43ef2115dc827366661860298798d33fbbee28b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:40 +0000
Subject: [PATCH 08/42] fix: blanks inside a rejected match were output twice

---
 apertium/interchunk.cc    |  2 +-
 apertium/transfer.cc      |  2 +-
 apertium/transfer_base.cc | 10 ++++++++--
 apertium/transfer_base.h  |  2 +-
 4 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/apertium/interchunk.cc b/apertium/interchunk.cc
index 4a918a6..75b0474 100644
--- a/apertium/interchunk.cc
+++ b/apertium/interchunk.cc
@@ -612,7 +612,7 @@ Interchunk::applyRule()
     word[i] = new InterchunkWord(*tmpword[i]);
   }
 
-  int words_to_consume = processRule(lastrule);
+  int words_to_consume = processRule(lastrule, last_lword);
   lastrule = NULL;
 
   if(word)
diff --git a/apertium/transfer.cc b/apertium/transfer.cc
index c730bfc..99059e3 100644
--- a/apertium/transfer.cc
+++ b/apertium/transfer.cc
@@ -1350,7 +1350,7 @@ Transfer::applyRule()
     }
   }
 
-  words_to_consume = processRule(lastrule);
+  words_to_consume = processRule(lastrule, last_lword);
   lastrule = NULL;
 
   if(word)
diff --git a/apertium/transfer_base.cc b/apertium/transfer_base.cc
index a5403ef..6ff7f0a 100644
--- a/apertium/transfer_base.cc
+++ b/apertium/transfer_base.cc
@@ -250,7 +250,7 @@ TransferBase::evalString(xmlNode* element)
 }
 
 int
-TransferBase::processRule(xmlNode* localroot)
+TransferBase::processRule(xmlNode* localroot, int nwords)
 {
   int words_to_consume = -1;
   // iterating over the <action> tag
@@ -262,9 +262,15 @@ TransferBase::processRule(xmlNode* localroot)
       break;
     }
   }
+  // if the rule was rejected, the blanks that follow the words it
+  // consumed are going to be read again
+  size_t reread = 0;
+  if (words_to_consume != -1 && nwords > max(words_to_consume, 1)) {
+    reread = nwords - max(words_to_consume, 1);
+  }
   // flush remaining non-space blanks
   while (!blank_queue.empty()) {
-    if (blank_queue.front() != " "_u) {
+    if (blank_queue.size() > reread && blank_queue.front() != " "_u) {
       write(blank_queue.front(), output);
     }
     blank_queue.pop();
diff --git a/apertium/transfer_base.h b/apertium/transfer_base.h
index d0a55a9..eaa35af 100644
--- a/apertium/transfer_base.h
+++ b/apertium/transfer_base.h
@@ -80,7 +80,7 @@ protected:
   virtual UString processMlu(xmlNode* element) = 0;
   virtual UString processChunk(xmlNode* element) = 0;
 
-  int processRule(xmlNode* localroot);
+  int processRule(xmlNode* localroot, int nwords = 0);
   int processInstruction(xmlNode* localroot);
   int processRejectCurrentRule(xmlNode* localroot);
   int processChoose(xmlNode* localroot);
-- 
2.43.0


From 4e80a65d3c7b71f496ea113df692fb20db7c96ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:40 +0000
Subject: [PATCH 09/42] fix: transfer stages never ended on input that stops
 inside a blank or chunk

---
 apertium/interchunk.cc | 10 ++++++++++
 apertium/postchunk.cc  | 10 ++++++++++
 apertium/transfer.cc   |  5 +++++
 3 files changed, 25 insertions(+)

diff --git a/apertium/interchunk.cc b/apertium/interchunk.cc
index 75b0474..5f7e8f8 100644
--- a/apertium/interchunk.cc
+++ b/apertium/interchunk.cc
@@ -392,6 +392,11 @@ Interchunk::readToken(InputFile& in)
         } else if(val2 == ']') {
           content += ']';
           break;
+        } else if(val2 == U_EOF) {
+          break;
+        } else if(val2 == '\0' && internal_null_flush) {
+          in.unget(val2);
+          break;
         } else {
           content += val2;
         }
@@ -411,6 +416,11 @@ Interchunk::readToken(InputFile& in)
           if(val3 == '$') {
             break;
           }
+        } else if(val2 == U_EOF) {
+          break;
+        } else if(val2 == '\0' && internal_null_flush) {
+          in.unget(val2);
+          break;
         } else {
           content += val2;
         }
diff --git a/apertium/postchunk.cc b/apertium/postchunk.cc
index 5189c7b..790c7c8 100644
--- a/apertium/postchunk.cc
+++ b/apertium/postchunk.cc
@@ -486,6 +486,11 @@ Postchunk::readToken(InputFile& in)
         } else if(val2 == ']') {
           content += ']';
           break;
+        } else if(val2 == U_EOF) {
+          break;
+        } else if(val2 == '\0' && internal_null_flush) {
+          in.unget(val2);
+          break;
         } else {
           content += val2;
         }
@@ -505,6 +510,11 @@ Postchunk::readToken(InputFile& in)
           if(val3 == '$') {
             break;
           }
+        } else if(val2 == U_EOF) {
+          break;
+        } else if(val2 == '\0' && internal_null_flush) {
+          in.unget(val2);
+          break;
         } else {
           content += val2;
         }
diff --git a/apertium/transfer.cc b/apertium/transfer.cc
index 99059e3..7d1f295 100644
--- a/apertium/transfer.cc
+++ b/apertium/transfer.cc
@@ -822,6 +822,11 @@ Transfer::readToken(InputFile& in)
           in_wblank = false;
           return input_buffer.add(TransferToken(content, tt_word));
         }
+        else if(val3 == U_EOF || (val3 == '\0' && internal_null_flush))
+        {
+          in_wblank = false;
+          return input_buffer.add(TransferToken(content, tt_eof));
+        }
         else if(val3 == '\0' && null_flush)
         {
           in_wblank = false;
-- 
2.43.0


From 34bebf9e8506932402134088e5379d935ebd3ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:01 +0000
Subject: [PATCH 10/42] fix: after an mlu, variables lost the word-bound blanks
 of the clips assigned to them

---
 apertium/transfer.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/apertium/transfer.cc b/apertium/transfer.cc
index 7d1f295..1ba2601 100644
--- a/apertium/transfer.cc
+++ b/apertium/transfer.cc
@@ -362,6 +362,8 @@ Transfer::processMlu(xmlNode* element)
 	value.append(myword);
   }
 
+  in_lu = false;
+
   if(last_lword == 1) {
     out_wblank = word[0]->getWblank();
   }
-- 
2.43.0


From 8e37378421663a777bf38c21046e2661468a088a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:01 +0000
Subject: [PATCH 11/42] fix: word-bound blanks of variables leaked past a null
 flush

---
 apertium/postchunk.cc | 1 +
 apertium/transfer.cc  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/apertium/postchunk.cc b/apertium/postchunk.cc
index 790c7c8..629e05c 100644
--- a/apertium/postchunk.cc
+++ b/apertium/postchunk.cc
@@ -549,6 +549,7 @@ Postchunk::postchunk_wrapper_null_flush(InputFile& in, UFILE* out)
     u_fputc('\0', out);
     u_fflush(out);
     variables = variable_defaults;
+    var_out_wblank.clear();
   }
 
   internal_null_flush = false;
diff --git a/apertium/transfer.cc b/apertium/transfer.cc
index 1ba2601..a18d0f5 100644
--- a/apertium/transfer.cc
+++ b/apertium/transfer.cc
@@ -915,6 +915,7 @@ Transfer::tmp_clear()
   tmpblank.clear();
   tmpword.clear();
   variables = variable_defaults;
+  var_out_wblank.clear();
 }
 
 void
-- 
2.43.0


From 6ebc3521705b7741091e245e589c7a69da5db9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:01 +0000
Subject: [PATCH 12/42] fix: transfer -n put a word-bound blank inside the
 lexical unit of a default chunk

---
 apertium/transfer.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/apertium/transfer.cc b/apertium/transfer.cc
index a18d0f5..10526b4 100644
--- a/apertium/transfer.cc
+++ b/apertium/transfer.cc
@@ -1165,9 +1165,12 @@ Transfer::transfer(InputFile& in, UFILE* out)
           u_fprintf(output, "%S$", tr.first.c_str());
         } else {
           if(tr.first[0] == '*') {
-            u_fprintf(output, "^unknown<unknown>{%S^", tr_wblank.c_str());
+            u_fprintf(output, "^unknown<unknown>{%S", tr_wblank.c_str());
           } else {
-            u_fprintf(output, "^default<default>{%S^", tr_wblank.c_str());
+            u_fprintf(output, "^default<default>{%S", tr_wblank.c_str());
+          }
+          if(tr.first[0] != '[' || tr.first[1] != '[') {
+            u_fprintf(output, "^");
           }
           u_fprintf(output, "%S$}$", tr.first.c_str());
         }
-- 
2.43.0


From 92bc97d82ea486829c7f7d229617e9c0e7a7cf3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:01 +0000
Subject: [PATCH 13/42] fix: postchunk dropped the last character of a chunk
 that does not end in a word

---
 apertium/postchunk.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apertium/postchunk.cc b/apertium/postchunk.cc
index 629e05c..59e9105 100644
--- a/apertium/postchunk.cc
+++ b/apertium/postchunk.cc
@@ -831,7 +831,7 @@ Postchunk::beginChunk(UString const &chunk)
 int
 Postchunk::endChunk(UString const &chunk)
 {
-  return chunk.size()-2;
+  return chunk.size()-1;
 }
 
 UString
-- 
2.43.0


From 0fca0a2b99b1d6b5d0f3cae625930dab4fa6c483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:22 +0000
Subject: [PATCH 14/42] fix: postchunk -w still changed the case of chunks
 matched by a rule

---
 apertium/postchunk.cc | 4 ++--
 apertium/postchunk.h  | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/apertium/postchunk.cc b/apertium/postchunk.cc
index 59e9105..ec5a4f2 100644
--- a/apertium/postchunk.cc
+++ b/apertium/postchunk.cc
@@ -980,11 +980,11 @@ Postchunk::splitWordsAndBlanks(UString const &chunk, vector<UString *> &words,
   bool uppercase_first = false;
   bool lastblank = true;
 
-  if(case_info == "AA"_u)
+  if(!dictionary_case && case_info == "AA"_u)
   {
     uppercase_all = true;
   }
-  else if(case_info == "Aa"_u)
+  else if(!dictionary_case && case_info == "Aa"_u)
   {
     uppercase_first = true;
   }
diff --git a/apertium/postchunk.h b/apertium/postchunk.h
index 3dda423..df66df0 100644
--- a/apertium/postchunk.h
+++ b/apertium/postchunk.h
@@ -62,9 +62,9 @@ private:
   static vector<UString> getVecTags(UString const &chunk);
   static int beginChunk(UString const &chunk);
   static int endChunk(UString const &chunk);
-  static void splitWordsAndBlanks(UString const &chunk,
-				  vector<UString *> &words,
-				  vector<UString *> &blanks);
+  void splitWordsAndBlanks(UString const &chunk,
+			   vector<UString *> &words,
+			   vector<UString *> &blanks);
   static UString pseudolemma(UString const &chunk);
   static UString wordzero(UString const &chunk);
   bool checkIndex(xmlNode *element, int index, int limit);
-- 
2.43.0


From 718fd2739d1fc4cdd685511c6ace2418adefcdf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:48 +0000
Subject: [PATCH 15/42] fix: postchunk cut word-bound blanks that end in an
 escaped bracket

---
 apertium/postchunk.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/apertium/postchunk.cc b/apertium/postchunk.cc
index ec5a4f2..8171dd8 100644
--- a/apertium/postchunk.cc
+++ b/apertium/postchunk.cc
@@ -1076,10 +1076,10 @@ Postchunk::splitWordsAndBlanks(UString const &chunk, vector<UString *> &words,
             ref += '\\';
             ref += chunk[++i];
           }
-          else if(chunk[i] == ']' && chunk[i-1] == ']')
+          else if(chunk[i] == ']' && chunk[i+1] == ']')
           {
-            ref += chunk[i];
-            i++; //i->"^"_u
+            ref += "]]"_u;
+            i += 2; //i->"^"_u
             break;
           }
           else
-- 
2.43.0


From 6f922048ebc8fff5248925d710379f15a50821fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:18 +0000
Subject: [PATCH 16/42] fix: mlu in a macro without parameters crashed transfer

---
 apertium/transfer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apertium/transfer.cc b/apertium/transfer.cc
index 10526b4..49d9013 100644
--- a/apertium/transfer.cc
+++ b/apertium/transfer.cc
@@ -364,7 +364,7 @@ Transfer::processMlu(xmlNode* element)
 
   in_lu = false;
 
-  if(last_lword == 1) {
+  if(last_lword == 1 && word != nullptr) {
     out_wblank = word[0]->getWblank();
   }
 
-- 
2.43.0


From 0b4aa0b6f7044ee837d7dc84f99e0cfba88973b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:30 +0000
Subject: [PATCH 17/42] fix: transfer ended a word at an escaped $ that starts
 its word-bound blank

---
 apertium/transfer.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/apertium/transfer.cc b/apertium/transfer.cc
index 49d9013..b02cf7a 100644
--- a/apertium/transfer.cc
+++ b/apertium/transfer.cc
@@ -810,6 +810,10 @@ Transfer::readToken(InputFile& in)
     {
       content = "[["_u;
       content += val;
+      if(val == '\\')
+      {
+        content += in.get();
+      }
 
       while(true)
       {
-- 
2.43.0


From 716e1895762baf527bc784f264aab7532738702d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:52 +0000
Subject: [PATCH 18/42] fix: attribute values with a hyphen or another regex
 character matched other tags

---
 apertium/transfer_regex.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/apertium/transfer_regex.cc b/apertium/transfer_regex.cc
index 6698254..9ccb259 100644
--- a/apertium/transfer_regex.cc
+++ b/apertium/transfer_regex.cc
@@ -1,5 +1,7 @@
 #include <transfer_regex.h>
 
+#include <cstring>
+
 struct TrieNode {
   UChar32 c;
   bool end;
@@ -43,6 +45,13 @@ add_entry(TrieNode* root, const std::vector<int32_t>& vec)
   cur->end = true;
 }
 
+// characters that need a backslash to stand for themselves in a regular expression
+bool
+is_regex_special(UChar32 c)
+{
+  return c < 128 && c > 0 && strchr("+*?.-[](){}^$|&\\", c) != nullptr;
+}
+
 UString
 unbuildTrie(TrieNode* root)
 {
@@ -52,7 +61,7 @@ unbuildTrie(TrieNode* root)
   int single_count = 0;
   for (auto it : root->next) {
     if (it->end && it->next.empty()) {
-      if (it->c == '+' || it->c == '*' || it->c == '?' || it->c == '.') {
+      if (is_regex_special(it->c)) {
         single += '\\';
       }
       single += it->c;
@@ -70,7 +79,7 @@ unbuildTrie(TrieNode* root)
     }
   }
   UString ret;
-  if (root->c == '+' || root->c == '*' || root->c == '?' || root->c == '.') {
+  if (is_regex_special(root->c)) {
     ret += '\\';
   }
   ret += root->c;
-- 
2.43.0


From 04339624db1a37e64768c7fdf6c4b3f7e8a350f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:34 +0000
Subject: [PATCH 19/42] fix: restore-caps dropped the word-bound blanks after
 the first c: entry

---
 apertium/caps_restorer.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/apertium/caps_restorer.cc b/apertium/caps_restorer.cc
index 4b0508f..efc2eee 100644
--- a/apertium/caps_restorer.cc
+++ b/apertium/caps_restorer.cc
@@ -176,10 +176,13 @@ CapsRestorer::read_word(InputFile& input)
   if (!cur.wblank.empty()) {
     std::vector<UString> new_pieces;
     auto pieces = StringUtils::split(cur.wblank.substr(2, cur.wblank.size()-4), "; "_u);
+    bool found = false;
     for (auto& it : pieces) {
       if (StringUtils::startswith(it, "c:"_u)) {
-        src_caps = it.substr(2);
-        break;
+        if (!found) {
+          src_caps = it.substr(2);
+          found = true;
+        }
       } else if (delete_wblanks) {
         new_pieces.push_back(it);
       }
-- 
2.43.0


From b6f06080638a271904ef60014d72b9fb74fee41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:34 +0000
Subject: [PATCH 20/42] fix: restore-caps applied the last word's rules again
 to the blank at the end of a segment

---
 apertium/caps_restorer.cc | 11 ++++++++---
 apertium/caps_restorer.h  |  3 ++-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/apertium/caps_restorer.cc b/apertium/caps_restorer.cc
index efc2eee..7ec6aad 100644
--- a/apertium/caps_restorer.cc
+++ b/apertium/caps_restorer.cc
@@ -49,7 +49,9 @@ CapsRestorer::process(InputFile& input, UFILE* output)
       u_fflush(output);
       continue;
     }
-    read_word(input);
+    if (!read_word(input)) {
+      continue;
+    }
     current_state.step_optional(word_boundary);
     if (current_state.isFinal(finals)) {
       auto path_set = current_state.filterFinalsLRX(finals, alpha, escaped_chars, false, false, 0);
@@ -144,7 +146,7 @@ CapsRestorer::step(int32_t sym)
   }
 }
 
-void
+bool
 CapsRestorer::read_word(InputFile& input)
 {
   LU cur;
@@ -155,8 +157,10 @@ CapsRestorer::read_word(InputFile& input)
     cur.wblank = input.finishWBlank();
   }
   if (input.peek() != '^') {
+    // just a blank: the rules that matched the words before it have already
+    // been applied
     words.push_back(std::move(cur));
-    return;
+    return false;
   }
   input.get();
   read_seg(input, cur.form);
@@ -216,4 +220,5 @@ CapsRestorer::read_word(InputFile& input)
   current_state.step(word_boundary);
 
   words.push_back(std::move(cur));
+  return true;
 }
diff --git a/apertium/caps_restorer.h b/apertium/caps_restorer.h
index 857288f..22f63d6 100644
--- a/apertium/caps_restorer.h
+++ b/apertium/caps_restorer.h
@@ -54,7 +54,8 @@ private:
 
   std::vector<LU> words;
 
-  void read_word(InputFile& input);
+  // returns false if there was no lexical unit after the blank
+  bool read_word(InputFile& input);
   void output_all(UFILE* output);
   void step(int32_t sym);
   void read_seg(InputFile& input, UString& str);
-- 
2.43.0


From 382903f142cdc00481b3d101ca3d0eb857f0208b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:09 +0000
Subject: [PATCH 21/42] fix: extract-caps took an escaped < in a lemma for the
 start of its tags

---
 apertium/apertium_extract_caps.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/apertium/apertium_extract_caps.cc b/apertium/apertium_extract_caps.cc
index 4a026e8..750e4f7 100644
--- a/apertium/apertium_extract_caps.cc
+++ b/apertium/apertium_extract_caps.cc
@@ -66,7 +66,10 @@ UString lemma_case(UStringView lu)
 {
   auto last_lem = lu.rfind(">+"_u);
   if (last_lem == UStringView::npos) last_lem = 0;
-  auto lem_end = lu.find('<', last_lem);
+  auto lem_end = last_lem;
+  while (lem_end < lu.size() && lu[lem_end] != '<') {
+    lem_end += (lu[lem_end] == '\\' ? 2 : 1);
+  }
   return StringUtils::getcase(lu.substr(0, lem_end));
 }
 
-- 
2.43.0


From c38ebee1dd67042fb87702a1402f89d2bca1d260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:16 +0000
Subject: [PATCH 22/42] fix: interchunk and postchunk took the contents of a
 tagless chunk for part of its lemma

---
 apertium/interchunk.cc      | 2 +-
 apertium/interchunk_word.cc | 6 +++---
 apertium/interchunk_word.h  | 3 ++-
 apertium/postchunk.cc       | 2 +-
 4 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/apertium/interchunk.cc b/apertium/interchunk.cc
index 5f7e8f8..7843a66 100644
--- a/apertium/interchunk.cc
+++ b/apertium/interchunk.cc
@@ -57,7 +57,7 @@ Interchunk::evalCachedString(xmlNode* element)
         UString wf = word[ti.getPos()]->chunkPart(attr_items[ti.getContent()]);
         return wf.substr(1, wf.length()-2); // trim { and }
       } else {
-        return word[ti.getPos()]->chunkPart(attr_items[ti.getContent()]);
+        return word[ti.getPos()]->chunkPart(attr_items[ti.getContent()], ti.getContent() == "whole"_u);
       }
     }
     break;
diff --git a/apertium/interchunk_word.cc b/apertium/interchunk_word.cc
index 14a27b3..8589fa5 100644
--- a/apertium/interchunk_word.cc
+++ b/apertium/interchunk_word.cc
@@ -98,7 +98,7 @@ InterchunkWord::init(UString const &chunk)
 }
 
 UString
-InterchunkWord::chunkPart(ApertiumRE const &part)
+InterchunkWord::chunkPart(ApertiumRE const &part, bool whole)
 {
   UString result = part.match(chunk);
   if(result.size() == 0)
@@ -113,9 +113,9 @@ InterchunkWord::chunkPart(ApertiumRE const &part)
       return result;
     }
   }
-  else if(result.size() == chunk.size())
+  else if(whole)
   {
-    return part.match(chunk+queue);
+    return result + queue;
   }
   else
   {
diff --git a/apertium/interchunk_word.h b/apertium/interchunk_word.h
index bd0c5ed..5dfbb6c 100644
--- a/apertium/interchunk_word.h
+++ b/apertium/interchunk_word.h
@@ -95,9 +95,10 @@ public:
   /**
    * Reference a chunk part
    * @param part regular expression to match
+   * @param whole if the part is the whole chunk, including its contents
    * @returns reference to the part of string matched
    */
-  UString chunkPart(ApertiumRE const &part);
+  UString chunkPart(ApertiumRE const &part, bool whole = false);
   
   /**
    * Reference the wordbound blank (for postchunk)
diff --git a/apertium/postchunk.cc b/apertium/postchunk.cc
index 8171dd8..ace94b8 100644
--- a/apertium/postchunk.cc
+++ b/apertium/postchunk.cc
@@ -61,7 +61,7 @@ Postchunk::evalCachedString(xmlNode* element)
                                                    word[ti.getPos()]->getWblank());
         }
       }
-      return word[ti.getPos()]->chunkPart(attr_items[ti.getContent()]);
+      return word[ti.getPos()]->chunkPart(attr_items[ti.getContent()], ti.getContent() == "whole"_u);
     }
     break;
 
-- 
2.43.0


From fccd6f15d17c2fc4dc410aebf31077d21d99a779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:35 +0000
Subject: [PATCH 23/42] fix: do not write an empty blank after a dot of the
 text

With -n (and before a heading mark) the deformatter wrote an empty blank
after a full stop of the document, which the reformatter took for an
inserted sentence mark and dropped together with the full stop.
---
 apertium/deformat.xsl | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/apertium/deformat.xsl b/apertium/deformat.xsl
index 864ead8..8cbfe73 100644
--- a/apertium/deformat.xsl
+++ b/apertium/deformat.xsl
@@ -176,6 +176,7 @@ bool isDot, isEoh, hasWrite_dot, hasWrite_white;
 bool eosIncond;
 bool noDot;
 bool markEoh;
+bool lastIsDot;
 UFILE* formatfile;
 string last;
 int current;
@@ -199,6 +200,10 @@ void put(const UString&amp; str, FILE* f)
   string temp;
   utf8::utf16to8(str.begin(), str.end(), std::back_inserter(temp));
   fputs_unlocked(temp.c_str(), f);
+  if (!str.empty())
+  {
+    lastIsDot = (str.back() == '.');
+  }
 }
 
 template &lt;size_t N&gt;
@@ -445,13 +450,23 @@ void printBuffer(int ind=-1, string end_tag="")
   </xsl:when>
   <xsl:otherwise>
 
+// An empty blank right after a dot of the text would be read back as the
+// ".[]" inserted at sentence ends, and the dot would be lost.
+void emptyBlank()
+{
+  if(!lastIsDot)
+  {
+    fputs_unlocked("[]", yyout);
+  }
+}
+
 void preDot()
 {
   if(eosIncond)
   {
     if(noDot)
     {
-      fputs_unlocked("[]", yyout);
+      emptyBlank();
     }
     else
     {
@@ -464,14 +479,16 @@ void printBuffer()
 {
   if(isEoh &amp;&amp; markEoh)
   {
-	put(u"[]\u2761", yyout);
+    emptyBlank();
+    put(u"\u2761", yyout);
+    lastIsDot = false;
     isEoh = false;
   }
   if(isDot &amp;&amp; !eosIncond)
   {
     if(noDot)
     {
-      fputs_unlocked("[]", yyout);
+      emptyBlank();
     }
     else
     {
@@ -490,6 +507,7 @@ void printBuffer()
     fputc_unlocked('@', yyout);
     fputs_unlocked(filename.c_str(), yyout);
     fputc_unlocked(']', yyout);
+    lastIsDot = false;
   }
   else if(buffer.size() &gt; 1)
   {
@@ -502,6 +520,7 @@ void printBuffer()
     }
 	put(tmp, yyout);
     fputc_unlocked(']', yyout);
+    lastIsDot = false;
   }
   else if(buffer.size() == 1 &amp;&amp; buffer[0] != ' ')
   {
@@ -515,6 +534,7 @@ void printBuffer()
     put(tmp, yyout);
 
     fputc_unlocked(']', yyout);
+    lastIsDot = false;
   }
   else
   {
-- 
2.43.0


From f6c593eaadf40fdd090fb9681966b17a930d7509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:35 +0000
Subject: [PATCH 24/42] fix: mark the sentence end after an RTF paragraph
 control followed by white space

The general control word rule includes the trailing white space, so it
matched longer than the rule of the paragraph, row and cell controls and
no sentence end was marked.
---
 apertium/rtf-format.xml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apertium/rtf-format.xml b/apertium/rtf-format.xml
index 5f02055..c4d647e 100644
--- a/apertium/rtf-format.xml
+++ b/apertium/rtf-format.xml
@@ -169,7 +169,7 @@
 
     <!-- End of sentence tags: par, row, cell -->
     <format-rule type="empty" eos="yes" priority="2">
-      <tag regexp="&quot;\\par&quot;|&quot;\\row&quot;|&quot;\\cell&quot;" />
+      <tag regexp="(&quot;\\par&quot;|&quot;\\row&quot;|&quot;\\cell&quot;)[ \n\r]*" />
     </format-rule>
 
 
-- 
2.43.0


From 0cefcc8506fd4bdb7ffb181d8c936bb02f354be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:12 +0000
Subject: [PATCH 25/42] fix: do not overwrite the open class when an unseen
 ambiguity class is looked up

---
 apertium/tagger_utils.cc | 8 ++++----
 apertium/tagger_utils.h  | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/apertium/tagger_utils.cc b/apertium/tagger_utils.cc
index 3da0415..cbf1ece 100644
--- a/apertium/tagger_utils.cc
+++ b/apertium/tagger_utils.cc
@@ -145,9 +145,9 @@ tagger_utils::add_neccesary_ambg_classes(TaggerData &td) {
   }
 }
 
-set<TTag> &
+set<TTag>
 tagger_utils::find_similar_ambiguity_class(TaggerData &td, set<TTag> &c) {
-  set<TTag> &ret = td.getOpenClass();
+  set<TTag> ret = td.getOpenClass();
   Collection &output = td.getOutput();
 
   for (int k=0; k<output.size(); k++) {
@@ -192,7 +192,7 @@ static void _warn_absent_ambiguity_class(TaggerWord &word) {
   cerr << "New ambiguity class: " << word.get_string_tags() << "\n";
 }
 
-set<TTag> &
+set<TTag>
 tagger_utils::require_similar_ambiguity_class(TaggerData &td, set<TTag> &tags, TaggerWord &word, bool warn) {
   if (td.getOutput().has_not(tags)) {
     if (warn) {
@@ -203,7 +203,7 @@ tagger_utils::require_similar_ambiguity_class(TaggerData &td, set<TTag> &tags, T
   return tags;
 }
 
-set<TTag> &
+set<TTag>
 tagger_utils::require_similar_ambiguity_class(TaggerData &td, set<TTag> &tags) {
   if (td.getOutput().has_not(tags)) {
     return find_similar_ambiguity_class(td, tags);
diff --git a/apertium/tagger_utils.h b/apertium/tagger_utils.h
index 31b6458..2c3a1df 100644
--- a/apertium/tagger_utils.h
+++ b/apertium/tagger_utils.h
@@ -92,15 +92,15 @@ void count_ambg_class_freq(Collection &output, vector<unsigned int> &acc,
 *  @param c set of tags (ambiguity class)
 *  @return a known ambiguity class
 */
-set<TTag> & find_similar_ambiguity_class(TaggerData &td, set<TTag> &c);
+set<TTag> find_similar_ambiguity_class(TaggerData &td, set<TTag> &c);
 
 /** Dies with an error message if the tags aren't in the tagger data */
 void require_ambiguity_class(TaggerData &td, set<TTag> &tags, TaggerWord &word, int nw);
 
 /** As with find_similar_ambiguity_class, but returns tags if it's already fine
  * & prints a warning if warn */
-set<TTag> & require_similar_ambiguity_class(TaggerData &td, set<TTag> &tags, TaggerWord &word, bool warn);
-set<TTag> & require_similar_ambiguity_class(TaggerData &td, set<TTag> &tags);
+set<TTag> require_similar_ambiguity_class(TaggerData &td, set<TTag> &tags, TaggerWord &word, bool warn);
+set<TTag> require_similar_ambiguity_class(TaggerData &td, set<TTag> &tags);
 
 /** Just prints a warning if warn */
 void warn_absent_ambiguity_class(TaggerData &td, set<TTag> &tags, TaggerWord &word, bool warn);
-- 
2.43.0


From 11433568a47ca67456cc96411e27cddd5b7e039e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:12 +0000
Subject: [PATCH 26/42] fix: discard-on-ambiguity removed readings that no
 discard rule matches

---
 apertium/tagger_word.cc | 23 +++++------------------
 1 file changed, 5 insertions(+), 18 deletions(-)

diff --git a/apertium/tagger_word.cc b/apertium/tagger_word.cc
index cb86bdc..f79e0ad 100644
--- a/apertium/tagger_word.cc
+++ b/apertium/tagger_word.cc
@@ -344,31 +344,18 @@ TaggerWord::discardOnAmbiguity(UString const &tags)
 {
   if(isAmbiguous())
   {
-    map<TTag, UString>::iterator it = lexical_forms.begin(),
-                              limit = lexical_forms.end();
-    set<TTag> newsettag;
-    while(it != limit)
+    map<TTag, UString>::iterator it = lexical_forms.begin();
+    while(it != lexical_forms.end() && lexical_forms.size() > 1)
     {
       if(match(it->second, tags))
       {
-        lexical_forms.erase(it);
-        it = lexical_forms.begin();
+        this->tags.erase(it->first);
+        it = lexical_forms.erase(it);
       }
       else
       {
-        newsettag.insert(it->first);
+        it++;
       }
-
-      if(lexical_forms.size() == 1)
-      {
-        newsettag.insert(lexical_forms.begin()->first);
-        break;
-      }
-      it++;
-    }
-    if(tags.size() != newsettag.size())
-    {
-      this->tags = newsettag;
     }
   }
 }
-- 
2.43.0


From 251ee0c681bb84f36cf4d259bb73ffd47a9ddd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:12 +0000
Subject: [PATCH 27/42] fix: apertium-tagger -f wrote the later parts of a
 split reading as readings of their own

---
 apertium/tagger_word.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/apertium/tagger_word.cc b/apertium/tagger_word.cc
index f79e0ad..f5b43b8 100644
--- a/apertium/tagger_word.cc
+++ b/apertium/tagger_word.cc
@@ -230,7 +230,9 @@ TaggerWord::get_all_chosen_tag_first(TTag &t, int const TAG_kEOF) {
     ret += "/*"_u;
     ret.append(superficial_form);
   } else {
-    ret+="/"_u;
+    if (!previous_plus_cut) {
+      ret += '/';
+    }
     ret.append(lexical_forms[t]);
     if (lexical_forms.size()>1) {
       for (auto& it : tags) {
-- 
2.43.0


From 45e10ee7ff99453618839b3e8708dd453a076823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:16 +0000
Subject: [PATCH 28/42] fix: apertium-tagger -w dropped the text after the last
 word and misplaced null flushes

---
 apertium/lswpost.cc | 54 +++++++++++++++++++++++++++------------------
 1 file changed, 32 insertions(+), 22 deletions(-)

diff --git a/apertium/lswpost.cc b/apertium/lswpost.cc
index d93c9bd..90aba4d 100644
--- a/apertium/lswpost.cc
+++ b/apertium/lswpost.cc
@@ -345,21 +345,43 @@ LSWPoST::tagger(MorphoStream &morpho_stream, UFILE* Output) {
 
   warn_absent_ambiguity_class(tdlsw, tags_left, *word_left, TheFlags.getDebug());
   word_mid = morpho_stream.get_next_word(); // word mid
-  word_mid->set_show_sf(TheFlags.getShowSuperficial());
-  tags_mid = word_mid->get_tags();          // tags mid
 
-  warn_absent_ambiguity_class(tdlsw, tags_mid, *word_mid, TheFlags.getDebug());
-  if (morpho_stream.getEndOfFile()) {
-    delete word_left;
-    delete word_mid;
-    return;
+  if (word_mid) {
+    word_mid->set_show_sf(TheFlags.getShowSuperficial());
+    tags_mid = word_mid->get_tags();          // tags mid
+
+    warn_absent_ambiguity_class(tdlsw, tags_mid, *word_mid, TheFlags.getDebug());
   }
-  word_right = morpho_stream.get_next_word(); // word_right
-  word_right->set_show_sf(TheFlags.getShowSuperficial());
 
   UString micad;
 
-  while (word_right) {
+  while (word_mid) {
+    if (morpho_stream.getEndOfFile()) {
+      // word mid is the end of the text, together with the blank before it
+      TTag tag_eof = (tdlsw.getTagIndex())["TAG_kEOF"_u];
+      micad = word_mid->get_lexical_form(tag_eof, tag_eof);
+      write(micad, Output);
+      if (TheFlags.getNullFlush()) {
+        u_fputc('\0', Output);
+      }
+      u_fflush(Output);
+      morpho_stream.setEndOfFile(false);
+
+      tags_left.clear();
+      tags_left.insert(eos);
+      delete word_mid;
+      word_mid = morpho_stream.get_next_word();
+      if (word_mid) {
+        word_mid->set_show_sf(TheFlags.getShowSuperficial());
+        tags_mid = word_mid->get_tags();
+
+        warn_absent_ambiguity_class(tdlsw, tags_mid, *word_mid, TheFlags.getDebug());
+      }
+      continue;
+    }
+
+    word_right = morpho_stream.get_next_word(); // word_right
+    word_right->set_show_sf(TheFlags.getShowSuperficial());
     tags_right = word_right->get_tags();
     warn_absent_ambiguity_class(tdlsw, tags_right, *word_right, TheFlags.getDebug());
 
@@ -382,24 +404,12 @@ LSWPoST::tagger(MorphoStream &morpho_stream, UFILE* Output) {
 
     micad = word_mid->get_lexical_form(tag_max, (tdlsw.getTagIndex())["TAG_kEOF"_u]);
     write(micad, Output);
-    if (morpho_stream.getEndOfFile()) {
-      if (TheFlags.getNullFlush()) {
-        u_fputc('\0', Output);
-      }
-      u_fflush(Output);
-      morpho_stream.setEndOfFile(false);
-    }
 
     delete word_left;
     word_left = word_mid;
     tags_left = tags_mid;
     word_mid = word_right;
     tags_mid = tags_right;
-    word_right = morpho_stream.get_next_word();
-    if (word_right != NULL) {
-      word_right->set_show_sf(TheFlags.getShowSuperficial());
-    }
   }
   delete word_left;
-  delete word_mid;
 }
-- 
2.43.0


From f94df8c6434ed76a19abce823c181c934c2c98c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:16 +0000
Subject: [PATCH 29/42] fix: unigram and perceptron taggers lost null
 characters

---
 apertium/sentence_stream.cc | 13 +++++++------
 apertium/unigram_tagger.cc  |  4 ++--
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/apertium/sentence_stream.cc b/apertium/sentence_stream.cc
index 79b2798..19c8748 100644
--- a/apertium/sentence_stream.cc
+++ b/apertium/sentence_stream.cc
@@ -43,19 +43,20 @@ void SentenceTagger::tag(Stream &in, std::ostream &out, bool sent_seg) {
 
     if (token.TheLexicalUnit) {
       lexical_sent.push_back(token);
-      if (isSentenceEnd(token, in, sent_seg)) {
+      if (in.flush_() || isSentenceEnd(token, in, sent_seg)) {
         tagAndPutSentence(out);
       }
     } else {
       tagAndPutSentence(out);
-      if (in.flush_()) {
-        out << '\0';
-        out.flush();
-        clearBuffers();
-      } else {
+      if (!in.flush_()) {
         break;
       }
     }
+    if (in.flush_()) {
+      out << '\0';
+      out.flush();
+      clearBuffers();
+    }
   }
 }
 
diff --git a/apertium/unigram_tagger.cc b/apertium/unigram_tagger.cc
index 8fb543b..7b9bb2c 100644
--- a/apertium/unigram_tagger.cc
+++ b/apertium/unigram_tagger.cc
@@ -250,7 +250,7 @@ UnigramTagger::tag(Stream &Input, std::ostream &Output)
       if (!Input.flush_())
         break;
 
-      Output << std::flush;
+      Output << '\0' << std::flush;
       continue;
     }
     if(TheFlags.getDebug())
@@ -261,7 +261,7 @@ UnigramTagger::tag(Stream &Input, std::ostream &Output)
     tag(*StreamedType_.TheLexicalUnit, Output);
 
     if (Input.flush_())
-      Output << std::flush;
+      Output << '\0' << std::flush;
   }
 }
 
-- 
2.43.0


From e80168e3bd000d1366c570e5cbdcd5b899259180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:13 +0000
Subject: [PATCH 30/42] fix: apertium-tagger -r discarded the model it was to
 retrain

---
 apertium/tagger.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/apertium/tagger.cc b/apertium/tagger.cc
index 8022c0f..83e957e 100644
--- a/apertium/tagger.cc
+++ b/apertium/tagger.cc
@@ -559,7 +559,9 @@ MorphoStream* apertium_tagger::setup_untagged_morpho_stream(
     UFILE* *UntaggedCorpus) {
   *UntaggedCorpus = try_open_file_utf8("UNTAGGED_CORPUS", UntaggedFn, "r");
 
-  FILE_Tagger_.read_dictionary(DicFn);
+  if (DicFn != NULL) {
+    FILE_Tagger_.read_dictionary(DicFn);
+  }
 
   return new FileMorphoStream(UntaggedFn, true, &FILE_Tagger_.get_tagger_data());
 }
-- 
2.43.0


From d7381b2cfe0e14eebb7b30e2c290a223e5e535db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:34 +0000
Subject: [PATCH 31/42] fix: discard-on-ambiguity rules were lost when a tagger
 was trained

---
 apertium/tagger_data.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apertium/tagger_data.cc b/apertium/tagger_data.cc
index 0eb93ec..ec83d9b 100644
--- a/apertium/tagger_data.cc
+++ b/apertium/tagger_data.cc
@@ -31,6 +31,7 @@ TaggerData::copy(TaggerData const &o)
   constants = o.constants;
   output = o.output;
   plist = o.plist;
+  discard = o.discard;
 }
 
 TaggerData::TaggerData()
-- 
2.43.0


From c6c7025280dbde03bbb1be46118d12aa0019d35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:25 +0000
Subject: [PATCH 32/42] fix: unigram and perceptron taggers moved the lemma
 queue of a joined reading to its last part

---
 apertium/analysis.cc | 16 ++++++++++++++++
 apertium/morpheme.cc | 15 ---------------
 2 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/apertium/analysis.cc b/apertium/analysis.cc
index 48dfcd3..d59200f 100644
--- a/apertium/analysis.cc
+++ b/apertium/analysis.cc
@@ -60,6 +60,22 @@ Analysis::read(InputFile& in)
     TheMorphemes.push_back(Morpheme());
     TheMorphemes.back().read(in);
     c = in.get();
+    // the lemma queue belongs to the first morpheme
+    if (c == '#') {
+      while (c != '<' && c != '$' && c != '/' && c != '\0' && c != '+') {
+        TheMorphemes.front().TheLemma += c;
+        if (c == '\\') {
+          if (in.eof() || in.peek() == '\0') {
+            throw Exception::Stream::UnexpectedEndOfFile("trailing backslash");
+          }
+          TheMorphemes.front().TheLemma += in.get();
+        }
+        c = in.get();
+      }
+      if (c == '<') {
+        throw Exception::Stream::UnexpectedCharacter("unexpected < after lemma queue");
+      }
+    }
   } while (c == '+');
   if (in.eof() || c == '\0') {
     throw Exception::Stream::UnexpectedEndOfFile("Unterminated lexical unit");
diff --git a/apertium/morpheme.cc b/apertium/morpheme.cc
index 7a78c36..c884100 100644
--- a/apertium/morpheme.cc
+++ b/apertium/morpheme.cc
@@ -90,21 +90,6 @@ Morpheme::read(InputFile& in)
   if (TheTags.empty()) {
     throw Exception::Morpheme::TheTags_empty("morpheme has no tags");
   }
-  if (c == '#') {
-    while (c != '<' && c != '$' && c != '/' && c != '\0' && c != '+') {
-      TheLemma += c;
-      if (c == '\\') {
-        if (in.eof() || in.peek() == '\0') {
-          throw Exception::Stream::UnexpectedEndOfFile("trailing backslash");
-        }
-        TheLemma += in.get();
-      }
-      c = in.get();
-    }
-    if (c == '<') {
-      throw Exception::Stream::UnexpectedCharacter("unexpected < after lemma queue");
-    }
-  }
   in.unget(c);
 }
 }
-- 
2.43.0


From 29e269a4e4075e460b48f38925c5f7f1509edd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:20 +0000
Subject: [PATCH 33/42] fix: a beam-width element in a perceptron specification
 could not be read

---
 apertium/mtx_reader.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apertium/mtx_reader.cc b/apertium/mtx_reader.cc
index ea7e597..97ec055 100644
--- a/apertium/mtx_reader.cc
+++ b/apertium/mtx_reader.cc
@@ -1163,6 +1163,7 @@ MTXReader::parse()
     std::istringstream val_ss(attrib_str("val"_u));
     val_ss >> val;
     spec.beam_width = val;
+    stepPastSelfClosingTag("beam-width"_u);
   } else {
     spec.beam_width = 4;
   }
-- 
2.43.0


From 2427efb5456bda6d4b98ee16f6e0d43c69e76950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:29 +0000
Subject: [PATCH 34/42] fix: perceptron training went on from an erased feature
 weight

---
 apertium/feature_vec_averager.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/apertium/feature_vec_averager.cc b/apertium/feature_vec_averager.cc
index a45025d..4e7b4f2 100644
--- a/apertium/feature_vec_averager.cc
+++ b/apertium/feature_vec_averager.cc
@@ -38,15 +38,15 @@ FeatureVecAverager::operator-=(const FeatureVec &other) {
 
 void
 FeatureVecAverager::average() {
-  FeatureVec::Map::iterator weights_it;
-  for (weights_it = weights.data.begin();
-       weights_it != weights.data.end(); weights_it++) {
+  FeatureVec::Map::iterator weights_it = weights.data.begin();
+  while (weights_it != weights.data.end()) {
     const FeatureKey &fk = weights_it->first;
     updateTotal(fk);
     if (totals[fk] == 0) {
-      weights.data.erase(weights_it);
+      weights_it = weights.data.erase(weights_it);
     } else {
       weights_it->second = totals[fk] / iterations;
+      weights_it++;
     }
   }
 }
-- 
2.43.0


From c51337bebe66e23cce84e05570796a8bd8321c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:27 +0000
Subject: [PATCH 35/42] fix: skipping a sentence whose first words differ
 discarded the sentence before it

---
 apertium/sentence_stream.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/apertium/sentence_stream.cc b/apertium/sentence_stream.cc
index 19c8748..a9fa299 100644
--- a/apertium/sentence_stream.cc
+++ b/apertium/sentence_stream.cc
@@ -123,8 +123,10 @@ TrainingCorpus::TrainingCorpus(Stream &tagged, Stream &untagged,
       }
 
       skipped++;
-      training_sentence->first.clear();
-      training_sentence->second.clear();
+      if (!was_sentence_end) {
+        training_sentence->first.clear();
+        training_sentence->second.clear();
+      }
 
       std::cerr << "fast forward\n";
       bool tagged_ended = contToEndOfSent(tagged, tagged_token, tagged_line);
-- 
2.43.0


From ac6914fbc4bfba05844a1704aaa0c0ad32a9637b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:18 +0000
Subject: [PATCH 36/42] fix: apertium-multiple-translations hung on input that
 ends inside a superblank

---
 apertium/transfer_mult.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/apertium/transfer_mult.cc b/apertium/transfer_mult.cc
index b28c4f0..a57397a 100644
--- a/apertium/transfer_mult.cc
+++ b/apertium/transfer_mult.cc
@@ -181,6 +181,10 @@ TransferMult::readToken(InputFile& in)
 	  content += ']';
 	  break;
 	}
+	else if(val2 == U_EOF)
+	{
+	  break;
+	}
 	else
 	{
 	  content += val2;
-- 
2.43.0


From 92777204a7b8558fd6579b69b4c62e3972d20b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:18 +0000
Subject: [PATCH 37/42] fix: a superblank [|] was taken for a separator of
 translations

---
 apertium/transfer_mult.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/apertium/transfer_mult.cc b/apertium/transfer_mult.cc
index a57397a..538ac6e 100644
--- a/apertium/transfer_mult.cc
+++ b/apertium/transfer_mult.cc
@@ -448,7 +448,12 @@ TransferMult::applyRule()
   output_string.clear();
   writeMultiple(words.begin(), blanks.begin(), words.end());
 
-  if(output_string.find("[|]"_u) != UString::npos) {
+  bool multiple = false;
+  for (auto& it : words) {
+    multiple = multiple || it.size() > 1;
+  }
+
+  if(multiple) {
     u_fprintf(output, "[{]%S.[][}]", output_string.c_str());
   } else {
     write(output_string, output);
-- 
2.43.0


From eef0a7eb620808729c6432187598c33d867a9b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:18 +0000
Subject: [PATCH 38/42] fix: a second of three translations marked as default
 was not put first

---
 apertium/transfer_mult.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apertium/transfer_mult.cc b/apertium/transfer_mult.cc
index 538ac6e..ad0a091 100644
--- a/apertium/transfer_mult.cc
+++ b/apertium/transfer_mult.cc
@@ -334,7 +334,7 @@ TransferMult::acceptions(UString str)
      {
        UString new_word = str.substr(low, i-low);
 
-       if(result.size() > 1 && isDefaultWord(new_word))
+       if(result.size() > 0 && isDefaultWord(new_word))
        {
 	 result.push_back(result[0]);
 	 result[0] = new_word;
-- 
2.43.0


From 2b18f62bde10481193b08aac0c8c13fd95a7f07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:31:28 +0000
Subject: [PATCH 39/42] fix: the perceptron and unigram taggers hung on input
 that ends inside a lexical unit

---
 apertium/analysis.cc | 2 +-
 apertium/morpheme.cc | 2 +-
 apertium/stream.cc   | 3 +++
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/apertium/analysis.cc b/apertium/analysis.cc
index d59200f..21d9714 100644
--- a/apertium/analysis.cc
+++ b/apertium/analysis.cc
@@ -62,7 +62,7 @@ Analysis::read(InputFile& in)
     c = in.get();
     // the lemma queue belongs to the first morpheme
     if (c == '#') {
-      while (c != '<' && c != '$' && c != '/' && c != '\0' && c != '+') {
+      while (c != '<' && c != '$' && c != '/' && c != '\0' && c != '+' && c != U_EOF) {
         TheMorphemes.front().TheLemma += c;
         if (c == '\\') {
           if (in.eof() || in.peek() == '\0') {
diff --git a/apertium/morpheme.cc b/apertium/morpheme.cc
index c884100..20ffe8a 100644
--- a/apertium/morpheme.cc
+++ b/apertium/morpheme.cc
@@ -66,7 +66,7 @@ void
 Morpheme::read(InputFile& in)
 {
   UChar32 c = in.get();
-  while (c != '<' && c != '$' && c != '/' && c != '\0') {
+  while (c != '<' && c != '$' && c != '/' && c != '\0' && c != U_EOF) {
     TheLemma += c;
     if (c == '\\') {
       if (in.eof() || in.peek() == '\0') {
diff --git a/apertium/stream.cc b/apertium/stream.cc
index 07e3652..d0cb8c4 100644
--- a/apertium/stream.cc
+++ b/apertium/stream.cc
@@ -40,6 +40,9 @@ StreamedType Stream::get() {
     TheStreamedType.TheLexicalUnit = LexicalUnit();
     UChar32 c = TheCharacterStream.get();
     while (c != '/' && c != '$') {
+      if (c == U_EOF) {
+        throw Exception::Stream::UnexpectedEndOfFile("unterminated lexical unit");
+      }
       TheStreamedType.TheLexicalUnit->TheSurfaceForm += c;
       if (c == '\\') {
         c = TheCharacterStream.get();
-- 
2.43.0


From e0b7a87404d010ce45052623d6764ce9089fdcd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:31:28 +0000
Subject: [PATCH 40/42] fix: apertium-transfer read past the end of a lexical
 unit with an unclosed tag or word-bound blank

---
 apertium/transfer.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/apertium/transfer.cc b/apertium/transfer.cc
index b02cf7a..41ada03 100644
--- a/apertium/transfer.cc
+++ b/apertium/transfer.cc
@@ -815,15 +815,20 @@ Transfer::readToken(InputFile& in)
         content += in.get();
       }
 
+      bool inside = false; // past the word-bound blank
       while(true)
       {
         UChar32 val3 = in.get();
+        if(val3 == '^' && content.size() >= 4 && content[content.size()-1] == ']' && content[content.size()-2] == ']')
+        {
+          inside = true;
+        }
         if(val3 == '\\')
         {
           content += '\\';
           content += in.get();
         }
-        else if(val3 == '$') //[[..]]^..$ is the LU
+        else if(val3 == '$' && inside) //[[..]]^..$ is the LU
         {
           in_wblank = false;
           return input_buffer.add(TransferToken(content, tt_word));
@@ -1132,7 +1137,7 @@ Transfer::transfer(InputFile& in, UFILE* out)
                 continue;
               }
               else if (*it == '<') {
-                while (*it != '>') {
+                while (it != tmpword[0]->end() && *it != '>') {
                   cur.push_back(*it);
                   if (*it == '\\') {
                     it++;
@@ -1140,6 +1145,9 @@ Transfer::transfer(InputFile& in, UFILE* out)
                   }
                   it++;
                 }
+                if (it == tmpword[0]->end()) {
+                  break; // the tag is not closed
+                }
               }
               cur.push_back(*it);
             }
-- 
2.43.0


From 537f5329a6904a24b2e67e4e59acb9f5e16a8909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:31:28 +0000
Subject: [PATCH 41/42] fix: apertium-postchunk read past the end of a chunk
 with an unclosed tag, word or blank

---
 apertium/postchunk.cc | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/apertium/postchunk.cc b/apertium/postchunk.cc
index ace94b8..a37f142 100644
--- a/apertium/postchunk.cc
+++ b/apertium/postchunk.cc
@@ -786,7 +786,7 @@ Postchunk::getVecTags(UString const &chunk)
 {
   vector<UString> vectags;
 
-  for(int i = 0, limit = chunk.size(); i != limit; i++)
+  for(int i = 0, limit = chunk.size(); i < limit; i++)
   {
     if(chunk[i] == '\\')
     {
@@ -799,7 +799,7 @@ Postchunk::getVecTags(UString const &chunk)
       {
         mytag += chunk[i++];
       }
-      while(chunk[i] != '>');
+      while(i < limit && chunk[i] != '>');
       mytag += '>';
       vectags.push_back(mytag);
     }
@@ -894,7 +894,7 @@ Postchunk::unchunk(UString const &chunk, UFILE* output)
       u_fputc(chunk[++i], output);
     } else if(chunk[i] == '^') {
       u_fputc('^', output);
-      while(chunk[++i] != '$')
+      while(++i < int(chunk.size()) && chunk[i] != '$')
       {
         if(chunk[i] == '\\')
         {
@@ -906,7 +906,7 @@ Postchunk::unchunk(UString const &chunk, UFILE* output)
           if(u_isdigit(chunk[i+1]))
           {
             int j = ++i;
-            while (chunk[++i] != '>');
+            while (++i < int(chunk.size()) && chunk[i] != '>');
             unsigned long value = StringUtils::stoi(chunk.substr(j, i-j)) - 1;
             if(vectags.size() > value)
             {
@@ -916,7 +916,7 @@ Postchunk::unchunk(UString const &chunk, UFILE* output)
           else
           {
             u_fputc('<', output);
-            while(chunk[++i] != '>') u_fputc(chunk[i], output);
+            while(++i < int(chunk.size()) && chunk[i] != '>') u_fputc(chunk[i], output);
             u_fputc('>', output);
           }
         }
@@ -948,7 +948,7 @@ Postchunk::unchunk(UString const &chunk, UFILE* output)
     else if(chunk[i] == '[')
     {
       u_fputc('[', output);
-      while(chunk[++i] != ']')
+      while(++i < int(chunk.size()) && chunk[i] != ']')
       {
         if(chunk[i] == '\\')
         {
@@ -1001,7 +1001,7 @@ Postchunk::splitWordsAndBlanks(UString const &chunk, vector<UString *> &words,
       UString *myword = new UString();
       UString &ref = *myword;
 
-      while(chunk[++i] != '$')
+      while(++i < int(chunk.size()) && chunk[i] != '$')
       {
         if(chunk[i] == '\\')
         {
@@ -1014,7 +1014,7 @@ Postchunk::splitWordsAndBlanks(UString const &chunk, vector<UString *> &words,
           {
             // replace tag
             int j = ++i;
-            while (chunk[++i] != '>');
+            while (++i < int(chunk.size()) && chunk[i] != '>');
             unsigned long value = StringUtils::stoi(chunk.substr(j, i-j)) - 1;
             if(vectags.size() > value)
             {
@@ -1024,7 +1024,7 @@ Postchunk::splitWordsAndBlanks(UString const &chunk, vector<UString *> &words,
           else
           {
             ref += '<';
-            while(chunk[++i] != '>') ref += chunk[i];
+            while(++i < int(chunk.size()) && chunk[i] != '>') ref += chunk[i];
             ref += '>';
           }
         }
@@ -1090,7 +1090,7 @@ Postchunk::splitWordsAndBlanks(UString const &chunk, vector<UString *> &words,
           i++;
         }
 
-        while(chunk[++i] != '$')
+        while(++i < int(chunk.size()) && chunk[i] != '$')
         {
           if(chunk[i] == '\\')
           {
@@ -1103,7 +1103,7 @@ Postchunk::splitWordsAndBlanks(UString const &chunk, vector<UString *> &words,
             {
               // replace tag
               int j = ++i;
-              while (chunk[++i] != '>');
+              while (++i < int(chunk.size()) && chunk[i] != '>');
               unsigned long value = StringUtils::stoi(chunk.substr(j, i-j)) - 1;
               if(vectags.size() > value)
               {
@@ -1113,7 +1113,7 @@ Postchunk::splitWordsAndBlanks(UString const &chunk, vector<UString *> &words,
             else
             {
               ref += '<';
-              while(chunk[++i] != '>') ref += chunk[i];
+              while(++i < int(chunk.size()) && chunk[i] != '>') ref += chunk[i];
               ref += '>';
             }
           }
@@ -1153,7 +1153,7 @@ Postchunk::splitWordsAndBlanks(UString const &chunk, vector<UString *> &words,
         }
         UString &ref = *(blanks.back());
         ref += '[';
-        while(chunk[++i] != ']')
+        while(++i < int(chunk.size()) && chunk[i] != ']')
         {
           if(chunk[i] == '\\')
           {
-- 
2.43.0


From d5abde30d3bf7ce30dd2beb1ef031e011401d378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:36:26 +0000
Subject: [PATCH 42/42] fix: apertium-postchunk crashed on an empty chunk when
 its rule assigns to a word of it

---
 apertium/postchunk.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/apertium/postchunk.cc b/apertium/postchunk.cc
index a37f142..1658176 100644
--- a/apertium/postchunk.cc
+++ b/apertium/postchunk.cc
@@ -290,7 +290,7 @@ Postchunk::processLet(xmlNode *localroot)
         return;
 
       case ti_clip_tl:
-      {
+      if (checkIndex(leftSide, ti.getPos(), lword)) {
         bool match = word[ti.getPos()]->setChunkPart(attr_items[ti.getContent()], evalString(rightSide));
         if(!match && trace)
         {
@@ -335,6 +335,9 @@ Postchunk::processLet(xmlNode *localroot)
     }
 
 
+    if (!checkIndex(leftSide, pos, lword)) {
+      return;
+    }
     bool match = word[pos]->setChunkPart(attr_items[part],
 					 evalString(rightSide));
     if(!match && trace)
@@ -377,6 +380,9 @@ Postchunk::processModifyCase(xmlNode *localroot)
       }
     }
 
+    if (!checkIndex(leftSide, pos, lword)) {
+      return;
+    }
     UString const result = StringUtils::copycase(evalString(rightSide),
 				   word[pos]->chunkPart(attr_items[part]));
     bool match = word[pos]->setChunkPart(attr_items[part], result);
@@ -429,7 +435,7 @@ Postchunk::processCallMacro(xmlNode *localroot)
     int pos = atoi((const char *) i->properties->children->content);
     if(!checkIndex(localroot, pos, lword)) {
       indexesOK = false;      // avoid segfaulting on empty chunks, e.g. ^x<x>{}$
-      pos = 1;
+      pos = 0;
     }
     myword[idx] = word[pos];
     idx++;
-- 
2.43.0

