From ec877be51a651d3cfb6f0433c7588f8fd8cc36c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:44 +0000
Subject: [PATCH 01/23] fix: col_match_results_get_relevancy returned the
 document ID

---
 src/ColumbusCAPI.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ColumbusCAPI.cc b/src/ColumbusCAPI.cc
index 5fd3bbf..d7c70c0 100644
--- a/src/ColumbusCAPI.cc
+++ b/src/ColumbusCAPI.cc
@@ -203,7 +203,7 @@ DocumentID col_match_results_get_id(ColMatchResults mr, size_t i) {
 double col_match_results_get_relevancy(ColMatchResults mr, size_t i) {
     try {
         MatchResults *results = reinterpret_cast<MatchResults*>(mr);
-        return results->getDocumentID(i);
+        return results->getRelevancy(i);
     } catch(exception &e) {
         fprintf(stderr, "Exception when getting result document ID: %s\n", e.what());
     }
-- 
2.43.0


From 389b96fd3a977c34fdffcc5d17fafd49cce8d87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:44 +0000
Subject: [PATCH 02/23] fix: price leading unmatched query letters with the
 insertion error

The first row of the error matrix was filled with the deletion error, so
searching aborted (or was mispriced in release builds) as soon as the
deletion error differed from the insertion error.
---
 src/LevenshteinIndex.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LevenshteinIndex.cc b/src/LevenshteinIndex.cc
index b144e87..7e532b3 100644
--- a/src/LevenshteinIndex.cc
+++ b/src/LevenshteinIndex.cc
@@ -105,7 +105,7 @@ void LevenshteinIndex::findWords(const Word &query, const ErrorValues &e, const
     TrieOffset root;
     TrieOffset sibling;
     ErrorMatrix em(p->longestWordLength+1, query.length()+1,
-            e.getDeletionError(), e.getStartInsertionError(query.length()));
+            e.getInsertionError(), e.getStartInsertionError(query.length()));
 
     assert(em.get(0, 0) == 0);
     if(query.length() > 0)
-- 
2.43.0


From bb0d4436bd7fb0a81f21e80150bede389079673a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:44 +0000
Subject: [PATCH 03/23] fix: do not prune words reachable through a cheap
 transposition

With a transpose error smaller than the other errors, a row of the matrix
could exceed the bound although the row after it did not.
---
 src/LevenshteinIndex.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/LevenshteinIndex.cc b/src/LevenshteinIndex.cc
index 7e532b3..eddd07c 100644
--- a/src/LevenshteinIndex.cc
+++ b/src/LevenshteinIndex.cc
@@ -154,7 +154,9 @@ void LevenshteinIndex::searchRecursive(const Word &query, TrieOffset node, const
     if(em.totalError(depth) <= maxError && p->trie.getWordID(node) != INVALID_WORDID) {
         matches.addMatch(query, p->trie.getWordID(node), em.totalError(depth));
     }
-    if(em.minError(depth) <= maxError) {
+    // A transposition skips a row, so it can continue from the previous row
+    // even if every error in this one is already too big.
+    if(em.minError(depth) <= maxError || em.minError(depth-1) + e.getTransposeError() <= maxError) {
         TrieOffset sibling = p->trie.getSiblingList(node);
         while(sibling != 0) {
             Letter l = p->trie.getLetter(sibling);
-- 
2.43.0


From 176d8e956ab857be0825527b9efa16f237afc775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:44 +0000
Subject: [PATCH 04/23] fix: refuse words with an unpaired high surrogate

A high surrogate at the end of a word was accepted and one followed by
another high surrogate aborted instead of throwing.
---
 src/Word.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Word.cc b/src/Word.cc
index 98e9d30..a2c0316 100644
--- a/src/Word.cc
+++ b/src/Word.cc
@@ -178,8 +178,10 @@ bool Word::hasBrokenSurrogates() {
             if(expectHigh && !cur.isHighSurrogate()) {
                 return true;
             }
+            if(!expectHigh && !cur.isLowSurrogate()) {
+                return true;
+            }
 
-            assert(expectHigh || (!expectHigh && cur.isLowSurrogate()));
             if(expectHigh) {
                 expectHigh = false;
                 expectSurrogate = true;
@@ -196,7 +198,7 @@ bool Word::hasBrokenSurrogates() {
         }
 #endif /* 0 */
     }
-    return false;
+    return expectSurrogate;
 }
 
 bool Word::operator==(const Word &w) const {
-- 
2.43.0


From 8dcfea9a292d83decee8b457c19500dfc600c7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:44 +0000
Subject: [PATCH 05/23] fix: a refused assignment left a word with a length but
 no letters

---
 src/Word.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Word.cc b/src/Word.cc
index a2c0316..ffd91a7 100644
--- a/src/Word.cc
+++ b/src/Word.cc
@@ -94,6 +94,7 @@ void Word::convertString(const char *utf8Word) {
     if(hasWhitespace()) {
         delete []text;
         text = nullptr;
+        len = 0;
         std::string err("Tried to create a word with whitespace in it: ");
         err += (const char*)utf8Word;
         throw std::invalid_argument(err);
@@ -101,6 +102,7 @@ void Word::convertString(const char *utf8Word) {
     else if(hasBrokenSurrogates()) {
         delete []text;
         text = nullptr;
+        len = 0;
         std::string err("Tried to create a word with broken surrogates in it: ");
         err += (const char*)utf8Word;
         throw std::invalid_argument(err);
-- 
2.43.0


From dff7e04e67456929bbf8d7f0bbfb899c3d5309e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:44 +0000
Subject: [PATCH 06/23] fix: do not read before an empty letter array

---
 src/Word.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Word.cc b/src/Word.cc
index ffd91a7..f450731 100644
--- a/src/Word.cc
+++ b/src/Word.cc
@@ -60,7 +60,7 @@ Word::Word(Word &&w) :
 }
 
 Word::Word(Letter *letters, size_t length) {
-    if(letters[length-1] == 0) {
+    if(length > 0 && letters[length-1] == 0) {
         text = new Letter[length];
         len = length-1;
     } else {
-- 
2.43.0


From 81570c32d34a7c9ecea565e02ff69e857888d1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:44 +0000
Subject: [PATCH 07/23] fix: refuse words with embedded zero letters

Zero marks an unused slot in the trie, so inserting such a word followed
a null child offset and wrote over the trie header.
---
 src/Word.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Word.cc b/src/Word.cc
index f450731..4c7021c 100644
--- a/src/Word.cc
+++ b/src/Word.cc
@@ -157,7 +157,7 @@ Word& Word::operator=(Word &&w) {
 bool Word::hasWhitespace() {
     for(unsigned int i=0; i<len; i++) {
         Letter cur = text[i];
-        if(isWhitespace(cur))
+        if(isWhitespace(cur) || cur == 0)
             return true;
     }
     return false;
-- 
2.43.0


From fe2a0548774c2f5d0013a6ec58f774426382d65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:44 +0000
Subject: [PATCH 08/23] fix: do not write the terminating null past the end of
 the caller's buffer

---
 src/ColumbusHelpers.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ColumbusHelpers.cc b/src/ColumbusHelpers.cc
index 7d916ed..0ee7fc8 100644
--- a/src/ColumbusHelpers.cc
+++ b/src/ColumbusHelpers.cc
@@ -104,8 +104,12 @@ void internalToUtf8(const Letter* source, unsigned int characters, char *buf, un
         throw std::runtime_error("Could not create iconv converter.");
     }
 
+    if(bufsize == 0) {
+        iconv_close(ic);
+        throw std::runtime_error("Output buffer is too small.");
+    }
     inBytes = characters*sizeof(Letter);
-    outBytes = bufsize;
+    outBytes = bufsize-1; // Leave room for the terminating null.
     outBytesOriginal = outBytes;
 
     outBuf = buf;
-- 
2.43.0


From 8734f954b84db496ef1771ae0884e66e09300e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:16:19 +0000
Subject: [PATCH 09/23] fix: make the letter lookup table agree with the
 general rule

For letters small enough to be in the table a group error replaced an
individually set one and a letter could differ from itself, neither of
which is true for other letters.
---
 include/ErrorValues.hh | 2 +-
 src/ErrorValues.cc     | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/ErrorValues.hh b/include/ErrorValues.hh
index 76686b3..054ae35 100644
--- a/include/ErrorValues.hh
+++ b/include/ErrorValues.hh
@@ -53,7 +53,7 @@ private:
 
     void clearLUT();
     void addToLUT(Letter l1, Letter l2, int value);
-    void addGroupErrorToLUT(const Word &groupLetters, const int error);
+    void addGroupErrorToLUT(const Word &groupLetters);
     int substituteErrorSlow(Letter l1, Letter l2) const;
     void setPadError(const Letter number, const char letters[4], int letterCount, int error);
 
diff --git a/src/ErrorValues.cc b/src/ErrorValues.cc
index 870c730..d030f32 100644
--- a/src/ErrorValues.cc
+++ b/src/ErrorValues.cc
@@ -87,7 +87,7 @@ void ErrorValues::setError(Letter l1, Letter l2, const int error) {
     }
     pair<Letter, Letter> in(l1, l2);
     p->singleErrors[in] = error;
-    addToLUT(l1, l2, error);
+    addToLUT(l1, l2, substituteErrorSlow(l1, l2));
 }
 
 int ErrorValues::getSubstituteError(Letter l1, Letter l2) const {
@@ -143,19 +143,19 @@ void ErrorValues::setGroupError(const Word &groupLetters, const int error) {
             p->groupMap[curLetter] = newGroupID;
         }
     }
-    addGroupErrorToLUT(groupLetters, error);
+    addGroupErrorToLUT(groupLetters);
 
     debugMessage("Added error group: %s\n", groupLetters.asUtf8().c_str());
 }
 
-void ErrorValues::addGroupErrorToLUT(const Word &groupLetters, const int error) {
+void ErrorValues::addGroupErrorToLUT(const Word &groupLetters) {
     for(size_t i=0; i<groupLetters.length(); i++) {
         for(size_t j=i; j<groupLetters.length(); j++) {
             Letter l1 = groupLetters[i];
             Letter l2 = groupLetters[j];
             if(l1 == l2)
                 continue;
-            addToLUT(l1, l2, error);
+            addToLUT(l1, l2, substituteErrorSlow(l1, l2));
         }
     }
 }
-- 
2.43.0


From 497cf986ec599627ee44b30839ff47a13746174c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:16:19 +0000
Subject: [PATCH 10/23] fix: a refused error group no longer leaves some of its
 letters grouped

---
 src/ErrorValues.cc | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/ErrorValues.cc b/src/ErrorValues.cc
index d030f32..04928ec 100644
--- a/src/ErrorValues.cc
+++ b/src/ErrorValues.cc
@@ -133,15 +133,14 @@ void ErrorValues::clearErrors() {
 
 void ErrorValues::setGroupError(const Word &groupLetters, const int error) {
     size_t newGroupID = p->groupErrors.size();
+    // Check everything first so that a refused group changes nothing.
+    for(size_t i = 0; i < groupLetters.length(); i++) {
+        if(isInGroup(groupLetters[i]))
+            throw runtime_error("Tried to add letter to two different error groups.");
+    }
     p->groupErrors.push_back(error);
     for(size_t i = 0; i < groupLetters.length(); i++) {
-        Letter curLetter = groupLetters[i];
-        if(isInGroup(curLetter)) {
-            if(p->groupMap.find(curLetter)->second != newGroupID)
-                throw runtime_error("Tried to add letter to two different error groups.");
-        } else {
-            p->groupMap[curLetter] = newGroupID;
-        }
+        p->groupMap[groupLetters[i]] = newGroupID;
     }
     addGroupErrorToLUT(groupLetters);
 
-- 
2.43.0


From adfe74c14a432f696b6baa40f3a321b8ec28203d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:16:19 +0000
Subject: [PATCH 11/23] fix: number pad neighbours in the first column and row
 were ignored

---
 src/ErrorValues.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ErrorValues.cc b/src/ErrorValues.cc
index 04928ec..5f0dabb 100644
--- a/src/ErrorValues.cc
+++ b/src/ErrorValues.cc
@@ -247,11 +247,11 @@ void ErrorValues::addNumberpadErrors() {
     for(int j=0; j<h; j++) {
         for(int i=0; i<w; i++) {
             setPadError(padNumbers[j][i], padLetters[j][i], letterCount[j][i], sameButton);
-            if(i-1 > 0)
+            if(i-1 >= 0)
                 setPadError(padNumbers[j][i], padLetters[j][i-1], letterCount[j][i-1], adjacentButton);
             if(i+1 < w)
                 setPadError(padNumbers[j][i], padLetters[j][i+1], letterCount[j][i+1], adjacentButton);
-            if(j-1 > 0)
+            if(j-1 >= 0)
                 setPadError(padNumbers[j][i], padLetters[j-1][i], letterCount[j-1][i], adjacentButton);
             if(j+1 < h)
                 setPadError(padNumbers[j][i], padLetters[j+1][i], letterCount[j+1][i], adjacentButton);
-- 
2.43.0


From 196e85b9a482c5659f02abbfba435764515fb793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:16:19 +0000
Subject: [PATCH 12/23] fix: neighbouring keys of the bottom keyboard row had
 no typo error

---
 src/ErrorValues.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ErrorValues.cc b/src/ErrorValues.cc
index 5f0dabb..9d9ce59 100644
--- a/src/ErrorValues.cc
+++ b/src/ErrorValues.cc
@@ -197,13 +197,15 @@ void ErrorValues::addKeyboardErrors() {
 
     const Letter *keyboard_layout[4] = {line1, line2, line3, line4};
     const size_t lineLens[] = {11, 11, 12, 10};
-    for(size_t i = 0; i < 3; i++) {
+    for(size_t i = 0; i < 4; i++) {
         const Letter *cur_row = keyboard_layout[i];
-        const Letter *next_row = keyboard_layout[i+1];
+        const Letter *next_row = i < 3 ? keyboard_layout[i+1] : nullptr;
         for(size_t j1=0; j1 < lineLens[i]; j1++) {
             Letter l1 = cur_row[j1];
             if(j1 + 1 < lineLens[i])
                 setError(l1, cur_row[j1+1], error);
+            if(!next_row)
+                continue;
             if(j1 > 0 && j1-1 < lineLens[i+1])
                 setError(l1, next_row[j1-1], error);
             if(j1 < lineLens[i+1])
-- 
2.43.0


From acb4da59645a63496b933f560b78cf4eaa086f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:16:19 +0000
Subject: [PATCH 13/23] fix: filtering added the filter's words to the
 matcher's word store

After that onlineMatch accepted a field that has never been indexed.
---
 src/Matcher.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Matcher.cc b/src/Matcher.cc
index 726d92d..10dd1b2 100644
--- a/src/Matcher.cc
+++ b/src/Matcher.cc
@@ -237,6 +237,10 @@ static bool subtermsMatch(MatcherPrivate *p, const ResultFilter &filter, size_t
     for(size_t subTerm=0; subTerm < filter.numSubTerms(term); subTerm++) {
         const Word &filterName = filter.getField(term, subTerm);
         const Word &value = filter.getWord(term, subTerm);
+        // Do not let getID add new words to the store, queries must not change the matcher.
+        if(!p->store.hasWord(filterName) || !p->store.hasWord(value)) {
+            return false;
+        }
         bool termFound = p->reverseIndex.documentHasTerm(
                 p->store.getID(value), p->store.getID(filterName), id);
         if(!termFound) {
-- 
2.43.0


From 6a99cf6a1c70ed3d423b0063056df1a8d606b99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:16:19 +0000
Subject: [PATCH 14/23] fix: unmap the trie's backing file when it is destroyed

---
 src/Trie.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Trie.cc b/src/Trie.cc
index 0710356..1939e2d 100644
--- a/src/Trie.cc
+++ b/src/Trie.cc
@@ -89,6 +89,7 @@ Trie::Trie() {
 
 
 Trie::~Trie() {
+    munmap(p->map, p->h->totalSize);
     fclose(p->f);
     delete p;
 }
-- 
2.43.0


From 49f8b42e4ea38908439cfffa75b952bfd96cf0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:16:19 +0000
Subject: [PATCH 15/23] fix: release the backing file if creating a trie fails

---
 src/Trie.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/Trie.cc b/src/Trie.cc
index 1939e2d..ea3d3e6 100644
--- a/src/Trie.cc
+++ b/src/Trie.cc
@@ -77,10 +77,17 @@ Trie::Trie() {
     if(!p->f) {
         string msg("Could not create temporary file: ");
         msg += strerror(errno);
+        delete p;
         throw runtime_error(msg);
     }
     p->map = nullptr;
-    expand();
+    try {
+        expand();
+    } catch(...) {
+        fclose(p->f);
+        delete p;
+        throw;
+    }
     p->h->firstFree = sizeof(TrieHeader);
     p->root = p->h->firstFree;
     p->h->numWords = 0;
-- 
2.43.0


From df4aab6167e17d462d99595c536446a8320c76e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:16:19 +0000
Subject: [PATCH 16/23] fix: keep the trie usable when its backing file cannot
 be enlarged

The old mapping was dropped before the new one was known to exist, so
after the exception every access was to unmapped memory.
---
 src/Trie.cc | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/Trie.cc b/src/Trie.cc
index ea3d3e6..49a5ffd 100644
--- a/src/Trie.cc
+++ b/src/Trie.cc
@@ -102,30 +102,29 @@ Trie::~Trie() {
 }
 
 void Trie::expand() {
-    TrieOffset newSize;
-    if(p->map) {
-        TrieOffset oldSize = p->h->totalSize;
-        newSize = oldSize*2;
-        if(munmap(p->map, oldSize) != 0) {
-            string err = "Munmap failed: ";
-            err += strerror(errno);
-            throw runtime_error(err);
-        }
-    } else {
-        newSize = 1024;
-    }
+    TrieOffset oldSize = p->map ? p->h->totalSize : 0;
+    TrieOffset newSize = p->map ? oldSize*2 : 1024;
+    char *newMap;
     if(ftruncate(fileno(p->f), newSize) != 0) {
         string err = "Truncate failed: ";
         err += strerror(errno);
         throw runtime_error(err);
     }
-    p->map = (char*)mmap(NULL, newSize, PROT_READ | PROT_WRITE, MAP_SHARED,
+    // Keep the old mapping until the new one exists so that nothing is lost on failure.
+    newMap = (char*)mmap(NULL, newSize, PROT_READ | PROT_WRITE, MAP_SHARED,
                   fileno(p->f), 0);
-    if(p->map == MAP_FAILED) {
+    if(newMap == MAP_FAILED) {
         string err = "MMap failed: ";
         err += strerror(errno);
         throw runtime_error(err);
     }
+    if(p->map && munmap(p->map, oldSize) != 0) {
+        string err = "Munmap failed: ";
+        err += strerror(errno);
+        munmap(newMap, newSize);
+        throw runtime_error(err);
+    }
+    p->map = newMap;
     if(madvise(p->map, newSize, MADV_RANDOM | MADV_WILLNEED) != 0) {
         fprintf(stderr, "Problem with madvise: %s\n", strerror(errno));
     }
-- 
2.43.0


From 5c738d529cfd636da58bf59d76ec3e8391e7bcdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:16:19 +0000
Subject: [PATCH 17/23] fix: do not leak conversion buffers when text is not
 valid UTF-8

---
 src/ColumbusHelpers.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ColumbusHelpers.cc b/src/ColumbusHelpers.cc
index 0ee7fc8..3c1d89c 100644
--- a/src/ColumbusHelpers.cc
+++ b/src/ColumbusHelpers.cc
@@ -70,6 +70,7 @@ Letter* utf8ToInternal(const char *utf8Text, unsigned int &resultStringSize) {
     free(tmp);
     iconv_close(ic);
     if(badConvertedCharacters == (size_t)-1) {
+        delete []txt;
         std::string err("Could not convert UTF8-string to internal representation: ");
         err += (const char*)(utf8Text);
         throw std::runtime_error(err);
@@ -173,9 +174,9 @@ WordList split(const char *utf8Text, const Letter *splitChars, int numChars) {
         try {
             Word w(word);
             list.addWord(w);
-        } catch(std::invalid_argument &ex) {
+        } catch(...) {
             delete []word;
-            throw ex;
+            throw;
         }
     } while(end < strSize);
     delete []word;
-- 
2.43.0


From 8ebf955ab4401eeb1ccca8ac1e55dcd384a6c6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:16:19 +0000
Subject: [PATCH 18/23] fix: copyResult copied an arbitrary entry from an
 unsorted result list

---
 src/MatchResults.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/MatchResults.cc b/src/MatchResults.cc
index c08d762..d4ce1d1 100644
--- a/src/MatchResults.cc
+++ b/src/MatchResults.cc
@@ -88,6 +88,7 @@ void MatchResults::copyResult(const MatchResults &other, const size_t i) {
     if(i >= other.p->results.size()) {
         throw out_of_range("Tried to copy an out-of-range result.");
     }
+    other.sortIfRequired();
     p->results.push_back(other.p->results[i]);
     p->sorted = false;
 }
-- 
2.43.0


From fc557688f9cc5ebc41b291cce316b84dda8c5b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:16:19 +0000
Subject: [PATCH 19/23] fix: leave moved-from result and word lists empty but
 usable

Assigning to a moved-from list dereferenced a null pointer.
---
 src/MatchResults.cc | 11 ++++++-----
 src/WordList.cc     |  9 ++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/MatchResults.cc b/src/MatchResults.cc
index d4ce1d1..87881a8 100644
--- a/src/MatchResults.cc
+++ b/src/MatchResults.cc
@@ -42,8 +42,9 @@ MatchResults::MatchResults(const MatchResults &other) {
 }
 
 MatchResults::MatchResults(MatchResults &&other) {
-    p = other.p;
-    other.p = nullptr;
+    p = new MatchResultsPrivate();
+    p->sorted = true;
+    swap(p, other.p);
 }
 
 MatchResults::~MatchResults() {
@@ -52,9 +53,9 @@ MatchResults::~MatchResults() {
 
 const MatchResults& MatchResults::operator=(MatchResults &&other) {
     if(this != &other) {
-        delete p;
-        p = other.p;
-        other.p = nullptr;
+        swap(p, other.p);
+        other.p->results.clear();
+        other.p->sorted = true;
     }
     return *this;
 }
diff --git a/src/WordList.cc b/src/WordList.cc
index 8fec94a..f180488 100644
--- a/src/WordList.cc
+++ b/src/WordList.cc
@@ -40,8 +40,8 @@ WordList::WordList(const WordList &wl) {
 }
 
 WordList::WordList(WordList &&wl) {
-    p = wl.p;
-    wl.p = nullptr;
+    p = new WordListPrivate();
+    swap(p, wl.p);
 }
 
 WordList::~WordList() {
@@ -70,9 +70,8 @@ const WordList& WordList::operator=(const WordList &l) {
 
 const WordList& WordList::operator=(WordList &&wl) {
     if(this != &wl) {
-        delete p;
-        p = wl.p;
-        wl.p = nullptr;
+        swap(p, wl.p);
+        wl.p->words.clear();
     }
     return *this;
 }
-- 
2.43.0


From b4fafb83ee675d21a2069d119cd6b849cf6bfbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:16:19 +0000
Subject: [PATCH 20/23] fix: accept the empty word in a word store

Asking for its ID threw an exception, which also made indexing stop in
the middle of a corpus that contained an empty word or field name.
---
 src/Trie.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/Trie.cc b/src/Trie.cc
index 49a5ffd..22541f3 100644
--- a/src/Trie.cc
+++ b/src/Trie.cc
@@ -176,11 +176,13 @@ TrieOffset Trie::addNewSibling(const TrieOffset node, const TrieOffset sibling,
 TrieOffset Trie::insertWord(const Word &word, const WordID wordID) {
     size_t i=0;
     TrieOffset node = p->root;
-    Letter lw = word[0];
 
     // A word mustn't begin with a broken surrogate pair.
-    if(lw.isSurrogate() && !lw.isHighSurrogate()) {
-        assert(false);
+    if(word.length() > 0) {
+        Letter lw = word[0];
+        if(lw.isSurrogate() && !lw.isHighSurrogate()) {
+            assert(false);
+        }
     }
 
     while(word.length() > i) {
-- 
2.43.0


From 1bd47f9ac86c43099d37d00f8e8aa9ddecf69d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:20:40 +0000
Subject: [PATCH 21/23] fix: searching after a failed insertion read past the
 error matrix

---
 src/LevenshteinIndex.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/LevenshteinIndex.cc b/src/LevenshteinIndex.cc
index eddd07c..fa8f70e 100644
--- a/src/LevenshteinIndex.cc
+++ b/src/LevenshteinIndex.cc
@@ -88,10 +88,11 @@ void LevenshteinIndex::insertWord(const Word &word, const WordID wordID) {
     } else {
         newCount = 1;
     }
-    p->trie.insertWord(word, wordID);
-    p->wordCounts[wordID] = newCount;
+    // Even a failed insertion may leave nodes this deep in the trie.
     if(word.length() > p->longestWordLength)
         p->longestWordLength = word.length();
+    p->trie.insertWord(word, wordID);
+    p->wordCounts[wordID] = newCount;
     if(p->maxCount < newCount)
         p->maxCount = newCount;
     return;
-- 
2.43.0


From fdf009819bbd86b9df8ac4b08b434c2f15c7ff7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:50 +0000
Subject: [PATCH 22/23] fix: Python: let set_error and get_substitute_error
 take letters

Letters became a class that Boost.Python has no converter for, so both
methods refused every argument.
---
 python/columbus.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/columbus.cc b/python/columbus.cc
index 63babf5..5fb7782 100644
--- a/python/columbus.cc
+++ b/python/columbus.cc
@@ -28,6 +28,9 @@ void (Document::*addAdaptor) (const Word &, const std::string &) = &Document::ad
 MatchResults (Matcher::*queryAdaptor) (const std::string &) = &Matcher::match;
 
 BOOST_PYTHON_MODULE(columbus) {
+    // Letters are plain integers in Python.
+    implicitly_convertible<Letter_, Letter>();
+
     class_<Corpus, boost::noncopyable>("Corpus", init<>())
         .def("size", &Corpus::size)
         .def("add_document", &Corpus::addDocument)
-- 
2.43.0


From 651b7dfcefc95c20a802e8d689d597fe082d0702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:50 +0000
Subject: [PATCH 23/23] fix: do not let tables and matchers be copied by
 accident

Matcher, ErrorValues, IndexWeights and SearchParameters own their data but
had an implicit copy constructor: a copy shared the data with the original
and released it a second time.
---
 include/ErrorValues.hh      | 1 +
 include/IndexWeights.hh     | 1 +
 include/Matcher.hh          | 1 +
 include/SearchParameters.hh | 1 +
 python/columbus.cc          | 6 +++---
 5 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/ErrorValues.hh b/include/ErrorValues.hh
index 054ae35..d7ded71 100644
--- a/include/ErrorValues.hh
+++ b/include/ErrorValues.hh
@@ -61,6 +61,7 @@ public:
 
     ErrorValues();
     ~ErrorValues();
+    ErrorValues(const ErrorValues &other) = delete;
     const ErrorValues& operator=(const ErrorValues &other) = delete;
 
     int getInsertionError() const { return insertionError; }
diff --git a/include/IndexWeights.hh b/include/IndexWeights.hh
index da628f2..475ea06 100644
--- a/include/IndexWeights.hh
+++ b/include/IndexWeights.hh
@@ -32,6 +32,7 @@ class COL_PUBLIC IndexWeights final {
 public:
     IndexWeights();
     ~IndexWeights();
+    IndexWeights(const IndexWeights &other) = delete;
     const IndexWeights & operator=(const IndexWeights &other) = delete;
 
     void setWeight(const Word &w, double weigth);
diff --git a/include/Matcher.hh b/include/Matcher.hh
index 7d3f698..3ae1a84 100644
--- a/include/Matcher.hh
+++ b/include/Matcher.hh
@@ -47,6 +47,7 @@ private:
 public:
     Matcher();
     ~Matcher();
+    Matcher(const Matcher &m) = delete;
     Matcher& operator=(const Matcher &m) = delete;
 
     // The simple API
diff --git a/include/SearchParameters.hh b/include/SearchParameters.hh
index 73c3f7d..2046b9b 100644
--- a/include/SearchParameters.hh
+++ b/include/SearchParameters.hh
@@ -35,6 +35,7 @@ private:
 public:
     SearchParameters();
     ~SearchParameters();
+    SearchParameters(const SearchParameters &other) = delete;
     SearchParameters & operator=(const SearchParameters &other) = delete;
 
     bool isDynamic() const;
diff --git a/python/columbus.cc b/python/columbus.cc
index 5fb7782..20d25f1 100644
--- a/python/columbus.cc
+++ b/python/columbus.cc
@@ -68,7 +68,7 @@ BOOST_PYTHON_MODULE(columbus) {
             .def("__len__", &MatchResults::size)
             ;
 
-    class_<Matcher>("Matcher")
+    class_<Matcher, boost::noncopyable>("Matcher")
             .def("index", &Matcher::index)
             .def("match", queryAdaptor)
             .def("get_errorvalues", &Matcher::getErrorValues,
@@ -77,7 +77,7 @@ BOOST_PYTHON_MODULE(columbus) {
                     return_internal_reference<>())
             ;
 
-    class_<ErrorValues>("ErrorValues", init<>())
+    class_<ErrorValues, boost::noncopyable>("ErrorValues", init<>())
             .def("add_standard_errors", &ErrorValues::addStandardErrors)
             .def("set_substring_mode", &ErrorValues::setSubstringMode)
             .def("set_end_deletion_error", &ErrorValues::setEndDeletionError)
@@ -90,7 +90,7 @@ BOOST_PYTHON_MODULE(columbus) {
             .def("clear_errors", &ErrorValues::clearErrors)
             ;
 
-    class_<IndexWeights>("IndexWeights")
+    class_<IndexWeights, boost::noncopyable>("IndexWeights")
             .def("set_weight", &IndexWeights::setWeight)
             .def("get_weight", &IndexWeights::getWeight)
             ;
-- 
2.43.0

