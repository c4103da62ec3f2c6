From b82b1ee0ab9d8a77f15d6d74fc6d179760c3bca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:21 +0000
Subject: [PATCH 01/30] fix: symbol_set keeps its canonical form when given an
 empty range

---
 TameParse/Dfa/symbol_set.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/TameParse/Dfa/symbol_set.cpp b/TameParse/Dfa/symbol_set.cpp
index d228a9e..634d3ee 100644
--- a/TameParse/Dfa/symbol_set.cpp
+++ b/TameParse/Dfa/symbol_set.cpp
@@ -36,6 +36,9 @@ symbol_set::symbol_set() {
 
 /// \brief Creates set containing a range of symbols
 symbol_set::symbol_set(const symbol_range& symbol) {
+    // An empty range contains no symbols
+    if (symbol.lower() >= symbol.upper()) return;
+    
     m_Symbols.insert(symbol);
 }
 
@@ -66,6 +69,9 @@ symbol_set& symbol_set::operator|=(const symbol_set& mergeWith) {
 
 /// \brief Merges this symbol set with a range of symbols
 symbol_set& symbol_set::operator|=(const symbol_range& mergeWith) {
+    // Merging an empty range does not change the set
+    if (mergeWith.lower() >= mergeWith.upper()) return *this;
+    
     // Find the first range >= the merge point
     // We've modified the comparator used by the set so that only the lower bound is compared, so this is the first item with a lower bound >= the
     // new range (additionally, we maintain the set in such a way that there are no overlapping ranges)
@@ -119,6 +125,9 @@ void symbol_set::exclude(const symbol_set& toExclude) {
 
 /// \brief Excludes a range of symbols from this set
 void symbol_set::exclude(const symbol_range& exclude) {
+    // Excluding an empty range does not change the set (and must not split the range that surrounds it)
+    if (exclude.lower() >= exclude.upper()) return;
+    
     // Find the first range >= the merge point
     symbol_store::iterator firstGreaterThan = m_Symbols.lower_bound(exclude);
     
-- 
2.43.0


From 9aa91f3be7ba0db52ec53d4800df21c06ca05b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:21 +0000
Subject: [PATCH 02/30] fix: merging or excluding a symbol_set with itself used
 freed ranges

---
 TameParse/Dfa/symbol_set.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/TameParse/Dfa/symbol_set.cpp b/TameParse/Dfa/symbol_set.cpp
index 634d3ee..aec1bb3 100644
--- a/TameParse/Dfa/symbol_set.cpp
+++ b/TameParse/Dfa/symbol_set.cpp
@@ -58,6 +58,9 @@ symbol_set::~symbol_set() {
 
 /// \brief Merges this symbol set with another
 symbol_set& symbol_set::operator|=(const symbol_set& mergeWith) {
+    // Merging a set with itself does nothing (merging the ranges would invalidate the iterator below)
+    if (&mergeWith == this) return *this;
+    
     // Merge each of the ranges in turn
     // TODO: this will perform a search for each range, we can take advantage of the ordering to improve performance here
     for (symbol_store::const_iterator symRange = mergeWith.m_Symbols.begin(); symRange != mergeWith.m_Symbols.end(); ++symRange) {
@@ -116,6 +119,12 @@ symbol_set& symbol_set::operator|=(const symbol_range& mergeWith) {
 
 /// \brief Excludes a range of symbols from this set
 void symbol_set::exclude(const symbol_set& toExclude) {
+    // Excluding a set from itself leaves nothing (excluding the ranges would invalidate the iterator below)
+    if (&toExclude == this) {
+        m_Symbols.clear();
+        return;
+    }
+    
     // Exclude each of the ranges in turn
     // TODO: this will perform a search for each range, we can take advantage of the ordering to improve performance here
     for (symbol_store::const_iterator excluded = toExclude.m_Symbols.begin(); excluded != toExclude.m_Symbols.end(); ++excluded) {
-- 
2.43.0


From a5973f608fe0115b0ae38aa01ea4abb958f88ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:01 +0000
Subject: [PATCH 03/30] fix: symbol_set::exclude read the excluded range after
 erasing it when it came from the same set

---
 TameParse/Dfa/symbol_set.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/TameParse/Dfa/symbol_set.cpp b/TameParse/Dfa/symbol_set.cpp
index aec1bb3..789f1f6 100644
--- a/TameParse/Dfa/symbol_set.cpp
+++ b/TameParse/Dfa/symbol_set.cpp
@@ -133,7 +133,10 @@ void symbol_set::exclude(const symbol_set& toExclude) {
 }
 
 /// \brief Excludes a range of symbols from this set
-void symbol_set::exclude(const symbol_range& exclude) {
+void symbol_set::exclude(const symbol_range& toExclude) {
+    // Take a copy, as the range may be one that belongs to this set (and will be erased below)
+    symbol_range exclude = toExclude;
+    
     // Excluding an empty range does not change the set (and must not split the range that surrounds it)
     if (exclude.lower() >= exclude.upper()) return;
     
-- 
2.43.0


From a0f9de7f20c6a505d6d56f188f776689c7fa52fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:05 +0000
Subject: [PATCH 04/30] fix: signed overflow in symbol_set when a range ends at
 the largest symbol

---
 TameParse/Dfa/symbol_set.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/TameParse/Dfa/symbol_set.cpp b/TameParse/Dfa/symbol_set.cpp
index 789f1f6..10d7cf0 100644
--- a/TameParse/Dfa/symbol_set.cpp
+++ b/TameParse/Dfa/symbol_set.cpp
@@ -102,7 +102,7 @@ symbol_set& symbol_set::operator|=(const symbol_range& mergeWith) {
     // There's some overlap between ranges
     
     // Find the first item that is > the upper value (ie, the first item we don't merge with)
-    symbol_store::iterator  finalValue  = m_Symbols.upper_bound(mergeWith.upper());
+    symbol_store::iterator  finalValue  = m_Symbols.upper_bound(symbol_range(mergeWith.upper(), mergeWith.upper()));
     symbol_range            mergedRange = mergeWith;
 
     // Merge any ranges that overlap
@@ -164,7 +164,7 @@ void symbol_set::exclude(const symbol_range& toExclude) {
     // There's some overlap between ranges
     
     // Find the first item that is > the upper value
-    symbol_store::iterator finalValue  = m_Symbols.upper_bound(exclude.upper());
+    symbol_store::iterator finalValue  = m_Symbols.upper_bound(symbol_range(exclude.upper(), exclude.upper()));
     
     // Change it to the final value in the range affected by this exclusion
     symbol_store::iterator eraseTo = finalValue;
@@ -216,7 +216,7 @@ void symbol_set::invert() {
 /// \brief True if the specified symbol is in this set
 bool symbol_set::operator[](int symbol) {
     // Find the item nearest this symbol
-    symbol_store::iterator nearestValue = m_Symbols.upper_bound(symbol);
+    symbol_store::iterator nearestValue = m_Symbols.upper_bound(symbol_range(symbol, symbol));
     
     // Doesn't exist if this is at the start
     if (nearestValue == m_Symbols.begin()) return false;
-- 
2.43.0


From ab3d4a3f3c0875028a2709960e881b138fac4f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:58 +0000
Subject: [PATCH 05/30] fix: the position offset did not count CR, VT, FF, NEL,
 LS and PS symbols

---
 TameParse/Dfa/position.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/TameParse/Dfa/position.h b/TameParse/Dfa/position.h
index 4c3c80b..040524a 100644
--- a/TameParse/Dfa/position.h
+++ b/TameParse/Dfa/position.h
@@ -174,6 +174,7 @@ namespace dfa {
                     break;
                     
                 case 0x0d:              // CR: Carriage Return
+                    m_CurrentPosition.increment();
                     m_CurrentPosition.newline();
                     m_SeenReturn = true;
                     break;
@@ -183,6 +184,7 @@ namespace dfa {
                 case 0x85:              // NEL: NExt Line
                 case 0x2028:            // LS: Line Separator
                 case 0x2029:            // PS: Paragraph Separator
+                    m_CurrentPosition.increment();
                     m_CurrentPosition.newline();
                     m_SeenReturn = false;
                     break;
-- 
2.43.0


From a5955f58ea01dba2fd58bb84bfd2d40c5feaeb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:01 +0000
Subject: [PATCH 06/30] fix: transition::operator<= disagreed with operator<

---
 TameParse/Dfa/transition.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TameParse/Dfa/transition.cpp b/TameParse/Dfa/transition.cpp
index 462731f..666ad73 100644
--- a/TameParse/Dfa/transition.cpp
+++ b/TameParse/Dfa/transition.cpp
@@ -50,5 +50,5 @@ bool transition::operator<(const transition& compareTo) const {
 
 /// \brief Orders this symbol set
 bool transition::operator<=(const transition& compareTo) const {
-    return m_NewState < compareTo.m_NewState || m_SymbolSet < compareTo.m_SymbolSet || operator==(compareTo);
+    return !compareTo.operator<(*this);
 }
-- 
2.43.0


From 6ee6570702885706bf62d25e59d1e7aa0fb72a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:02 +0000
Subject: [PATCH 07/30] fix: container >= and <= compared the container with
 itself

---
 TameParse/Util/container.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TameParse/Util/container.h b/TameParse/Util/container.h
index 01829af..77c4a3b 100644
--- a/TameParse/Util/container.h
+++ b/TameParse/Util/container.h
@@ -153,12 +153,12 @@ namespace util {
         
         /// \brief Ordering operator
         inline bool operator>=(const container& compareTo) const {
-            return !operator<(*this);
+            return !operator<(compareTo);
         }
         
         /// \brief Ordering operator
         inline bool operator<=(const container& compareTo) const {
-            return !operator>(*this);
+            return !operator>(compareTo);
         }
         
         /// \brief Comparison operator
-- 
2.43.0


From 155908dfd6f57e22f91d9ae1e7e35f4f627f31b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:02 +0000
Subject: [PATCH 08/30] fix: lr1_item::operator> was true of equal items

---
 TameParse/Lr/lr_item.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/TameParse/Lr/lr_item.h b/TameParse/Lr/lr_item.h
index 4afb849..ea8bf48 100644
--- a/TameParse/Lr/lr_item.h
+++ b/TameParse/Lr/lr_item.h
@@ -226,9 +226,9 @@ namespace lr {
         inline lr1_item* clone() const { return new lr1_item(*this); }
         
         inline bool operator!=(const lr1_item& compareTo) const { return !operator==(compareTo); }
-        inline bool operator>(const lr1_item& compareTo) const { return !operator<(compareTo); }
-        inline bool operator<=(const lr1_item& compareTo) const { return operator<(compareTo) || operator==(compareTo); }
-        inline bool operator>=(const lr1_item& compareTo) const { return !operator<(compareTo) || operator==(compareTo); }
+        inline bool operator>(const lr1_item& compareTo) const { return compareTo.operator<(*this); }
+        inline bool operator<=(const lr1_item& compareTo) const { return !operator>(compareTo); }
+        inline bool operator>=(const lr1_item& compareTo) const { return !operator<(compareTo); }
         
         /// \brief Static ordering operator
         static inline bool compare(const lr1_item* a, const lr1_item* b) {
-- 
2.43.0


From 42735d5b45478d31686b04895fbc6ca1bd5b687f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:02 +0000
Subject: [PATCH 09/30] fix: lr_state::compare ordered states by their
 addresses

---
 TameParse/Lr/lr_state.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TameParse/Lr/lr_state.h b/TameParse/Lr/lr_state.h
index c18cb0d..02babdb 100644
--- a/TameParse/Lr/lr_state.h
+++ b/TameParse/Lr/lr_state.h
@@ -161,7 +161,7 @@ namespace lr {
             if (!a) return true;
             if (!b) return false;
             
-            return a < b;
+            return *a < *b;
         }
         
     public:
-- 
2.43.0


From 7f3a8a99582334d6cdacafbcf20d2f803f914ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:02 +0000
Subject: [PATCH 10/30] fix: astnode::operator< could order two nodes both ways
 round

---
 TameParse/Util/astnode.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/TameParse/Util/astnode.cpp b/TameParse/Util/astnode.cpp
index 6408be1..379caa0 100644
--- a/TameParse/Util/astnode.cpp
+++ b/TameParse/Util/astnode.cpp
@@ -64,8 +64,11 @@ astnode* astnode::clone() const {
 bool astnode::operator<(const astnode& compareTo) const {
     if (&compareTo == this) return false;
     
-    if (m_ItemIdentifier < compareTo.m_ItemIdentifier || m_Lexeme < compareTo.m_Lexeme) return true;
-    if (compareTo.m_ItemIdentifier < m_ItemIdentifier || compareTo.m_Lexeme < m_Lexeme) return false;
+    if (m_ItemIdentifier < compareTo.m_ItemIdentifier) return true;
+    if (compareTo.m_ItemIdentifier < m_ItemIdentifier) return false;
+    
+    if (m_Lexeme < compareTo.m_Lexeme) return true;
+    if (compareTo.m_Lexeme < m_Lexeme) return false;
     
     if (children().size() < compareTo.children().size()) return true;
     if (children().size() > compareTo.children().size()) return false;
-- 
2.43.0


From 208d8d5b377dbae43f3518738e45f31bb264664f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:46 +0000
Subject: [PATCH 11/30] fix: a rule kept its cached identifier after items were
 appended to it

---
 TameParse/ContextFree/rule.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/TameParse/ContextFree/rule.cpp b/TameParse/ContextFree/rule.cpp
index 24f0afc..d29775a 100644
--- a/TameParse/ContextFree/rule.cpp
+++ b/TameParse/ContextFree/rule.cpp
@@ -139,6 +139,9 @@ rule& rule::operator<<(const item_container& item) {
     m_Items.push_back(item);
     m_ItemKeys.push_back(0);
     
+    // The cached identifier is for the rule as it was before this item was added
+    m_LastGrammar = NULL;
+    
     return *this;
 }
 
@@ -149,6 +152,10 @@ rule& rule::operator<<(const rule& rule) {
         m_Items.push_back(*sym);
         m_ItemKeys.push_back(rule.get_key(sym));
     }
+    
+    // The cached identifier is for the rule as it was before these items were added
+    m_LastGrammar = NULL;
+    
     return *this;
 }
 
-- 
2.43.0


From b7aba4ae1f623cb8027786f5756800d7ffd46737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:50 +0000
Subject: [PATCH 12/30] fix: item sets with the same members did not compare
 equal after an erase emptied the last word

---
 TameParse/ContextFree/item_set.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/TameParse/ContextFree/item_set.cpp b/TameParse/ContextFree/item_set.cpp
index be720d1..3b3df19 100644
--- a/TameParse/ContextFree/item_set.cpp
+++ b/TameParse/ContextFree/item_set.cpp
@@ -173,6 +173,10 @@ bool item_set::erase(int itemId) {
     if ((m_Items[setId]&mask) != 0) {
         m_Items[setId] &= ~mask;
         m_Size--;
+
+        // Sets with the same members must compare as equal, so there must be no empty words at the end
+        while (m_MaxItem > 0 && m_Items[m_MaxItem-1] == 0) --m_MaxItem;
+
         return true;
     } else {
         return false;
-- 
2.43.0


From c9e1d46d48a0f830146ce2f0754fdd3628503a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:10 +0000
Subject: [PATCH 13/30] fix: symbol tables lost the symbols of a page following
 a range that ends at a page boundary

---
 TameParse/Dfa/symbol_table.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/TameParse/Dfa/symbol_table.h b/TameParse/Dfa/symbol_table.h
index ee84c40..2084f74 100644
--- a/TameParse/Dfa/symbol_table.h
+++ b/TameParse/Dfa/symbol_table.h
@@ -116,8 +116,14 @@ namespace dfa {
                 return;
             }
             
+            // The upper bound is not part of the range, so the final entry is the one containing the symbol before it
+            int finalSymbol = range.upper() - base - 1;
+            endIndex = finalSymbol < 0 ? -1 : finalSymbol >> shift;
             if (endIndex > c_MaxIndex-1) endIndex = c_MaxIndex-1;
             
+            // Nothing to do if this item contains no symbols from the range
+            if (startIndex > endIndex) return;
+            
             // Create the symbol set if needed
             if (!Symbols) {
                 Symbols = new next_level*[c_MaxIndex];
-- 
2.43.0


From 31d59dd19b87576f9f535ce5d602f353a471d2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:10 +0000
Subject: [PATCH 14/30] fix: a range outside of a symbol table hid the default
 symbol of the table

---
 TameParse/Dfa/symbol_table.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/TameParse/Dfa/symbol_table.h b/TameParse/Dfa/symbol_table.h
index 2084f74..2bc4ce5 100644
--- a/TameParse/Dfa/symbol_table.h
+++ b/TameParse/Dfa/symbol_table.h
@@ -289,6 +289,9 @@ namespace dfa {
             
             if (endIndex > c_MaxIndex) endIndex = c_MaxIndex;
             
+            // Nothing to do if this item contains no symbols from the range
+            if (startIndex >= endIndex) return;
+            
             // Create the symbol array if needed
             if (!Symbols) {
                 Symbols = new int[c_MaxIndex];
-- 
2.43.0


From 80e8cf3c1cc3e40e6eb3ea78bd41a521e53d3284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:10 +0000
Subject: [PATCH 15/30] fix: hard coded symbol tables returned the default set
 for most symbols outside of the first page

---
 TameParse/Dfa/hard_coded_symbol_table.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TameParse/Dfa/hard_coded_symbol_table.h b/TameParse/Dfa/hard_coded_symbol_table.h
index bc9e724..f34d6ea 100644
--- a/TameParse/Dfa/hard_coded_symbol_table.h
+++ b/TameParse/Dfa/hard_coded_symbol_table.h
@@ -70,10 +70,10 @@ namespace dfa {
         int highest = lowHigh>>8;
         
         // Return the default value if the symbol is out of range
-        if ((int) symbol < lowest || (int) symbol >= highest) return table[offset + 0];
+        int pos         = ((unsigned int) symbol&0xff);
+        if (pos < lowest || pos >= highest) return table[offset + 0];
         
         // Look up the symbol set
-        int pos         = ((unsigned int) symbol&0xff);
         int symbolSet   = table[offset + 2 + (pos - lowest)];
         
         // Use the default symbol if the offset is -1
-- 
2.43.0


From 463a84a5f605645482407090a2f760206a4f1a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:22 +0000
Subject: [PATCH 16/30] fix: UTF-8 lead bytes were looked for in the previous
 character

---
 TameParse/Util/utf8reader.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/TameParse/Util/utf8reader.cpp b/TameParse/Util/utf8reader.cpp
index 92c8fa7..ee5c30a 100644
--- a/TameParse/Util/utf8reader.cpp
+++ b/TameParse/Util/utf8reader.cpp
@@ -95,7 +95,7 @@ utf8reader& utf8reader::get(wchar_t& target) {
     }
 
     // Work out how many bytes are in the complete character
-    else if ((target & 0xe0) == 0xc0) {
+    else if ((firstChar & 0xe0) == 0xc0) {
         // Begins 110xxxx (0x80 - 0x7ff)
 
         // Read the remaining characters
@@ -111,7 +111,7 @@ utf8reader& utf8reader::get(wchar_t& target) {
         // Create the result
         target = ((firstChar&0x1f)<<6) | (secondChar&0x3f);
         return *this;
-    } else if ((target & 0xf0) == 0xe0) {
+    } else if ((firstChar & 0xf0) == 0xe0) {
         // Begins 1110xxxx (0x800 - 0xffff)
 
         // Read the remaining characters
@@ -128,7 +128,7 @@ utf8reader& utf8reader::get(wchar_t& target) {
         // Create the result
         target = ((firstChar&0xf)<<12) | ((secondChar&0x3f)<<6) | (thirdChar&0x3f);
         return *this;
-    } else if ((target & 0xf8) == 0xf0) {
+    } else if ((firstChar & 0xf8) == 0xf0) {
         // Begins 11110000 (0x10000 - 0x1fffff)
 
         // Read the remaining characters
-- 
2.43.0


From ee4645c0fb7cdad566d1e3b7d246303b051cdbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:22 +0000
Subject: [PATCH 17/30] fix: the last byte of a four byte UTF-8 character was
 ignored

---
 TameParse/Util/utf8reader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TameParse/Util/utf8reader.cpp b/TameParse/Util/utf8reader.cpp
index ee5c30a..56877d5 100644
--- a/TameParse/Util/utf8reader.cpp
+++ b/TameParse/Util/utf8reader.cpp
@@ -144,7 +144,7 @@ utf8reader& utf8reader::get(wchar_t& target) {
         }
 
         // Construct the UCS-4 character
-        unsigned int ucs4 = ((firstChar&0x7)<<18) | ((secondChar&0x3f)<<12) | ((thirdChar&0x3f)<<6) | (secondChar&0x3f);
+        unsigned int ucs4 = ((firstChar&0x7)<<18) | ((secondChar&0x3f)<<12) | ((thirdChar&0x3f)<<6) | (fourthChar&0x3f);
 
         // Must be less than 0x110000 to be a valid surrogate pair
         if (ucs4 >= 0x110000) {
-- 
2.43.0


From 5f78246cc8c158e65347934067743a5c86607b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:22 +0000
Subject: [PATCH 18/30] fix: overlong UTF-8 sequences were decoded, those of
 four bytes to a nonsense surrogate pair

---
 TameParse/Util/utf8reader.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/TameParse/Util/utf8reader.cpp b/TameParse/Util/utf8reader.cpp
index 56877d5..e6007d8 100644
--- a/TameParse/Util/utf8reader.cpp
+++ b/TameParse/Util/utf8reader.cpp
@@ -108,6 +108,13 @@ utf8reader& utf8reader::get(wchar_t& target) {
             return *this;
         }
 
+        // Characters below 0x80 may not be encoded this way
+        if (firstChar < 0xc2) {
+            m_BadUTF8   = true;
+            target      = 0;
+            return *this;
+        }
+
         // Create the result
         target = ((firstChar&0x1f)<<6) | (secondChar&0x3f);
         return *this;
@@ -125,6 +132,13 @@ utf8reader& utf8reader::get(wchar_t& target) {
             return *this;
         }
 
+        // Characters below 0x800 may not be encoded this way
+        if (firstChar == 0xe0 && secondChar < 0xa0) {
+            m_BadUTF8   = true;
+            target      = 0;
+            return *this;
+        }
+
         // Create the result
         target = ((firstChar&0xf)<<12) | ((secondChar&0x3f)<<6) | (thirdChar&0x3f);
         return *this;
@@ -146,8 +160,8 @@ utf8reader& utf8reader::get(wchar_t& target) {
         // Construct the UCS-4 character
         unsigned int ucs4 = ((firstChar&0x7)<<18) | ((secondChar&0x3f)<<12) | ((thirdChar&0x3f)<<6) | (fourthChar&0x3f);
 
-        // Must be less than 0x110000 to be a valid surrogate pair
-        if (ucs4 >= 0x110000) {
+        // Must be between 0x10000 and 0x10ffff to be a valid surrogate pair
+        if (ucs4 < 0x10000 || ucs4 >= 0x110000) {
             m_BadUTF8   = true;
             target      = 0;
             return *this;
-- 
2.43.0


From 4813017235765161f437a43b50ce406089c90bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:25 +0000
Subject: [PATCH 19/30] fix: lexer symbol streams deliver bytes above 0x7f as
 symbols, not as negative control symbols

---
 TameParse/Dfa/basic_lexer.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/TameParse/Dfa/basic_lexer.h b/TameParse/Dfa/basic_lexer.h
index 99abafa..baefe73 100644
--- a/TameParse/Dfa/basic_lexer.h
+++ b/TameParse/Dfa/basic_lexer.h
@@ -83,6 +83,11 @@ namespace dfa {
             /// The stream that this refers to
             stream& m_Stream; 
             
+            /// \brief The symbol for a character (bytes are never negative, which is where the special symbols are)
+            template<typename C> static inline int symbol_for(C next)   { return (int)(unsigned)next; }
+            static inline int symbol_for(char next)                     { return (int)(unsigned char)next; }
+            static inline int symbol_for(signed char next)              { return (int)(unsigned char)next; }
+            
         public:
             stream_stream(stream& str)
             : m_Stream(str) {
@@ -96,7 +101,7 @@ namespace dfa {
                 if (!m_Stream.good()) {
                     result = symbol_set::end_of_input;
                 } else {
-                    result = (int)(unsigned)next;
+                    result = symbol_for(next);
                 }
                 return *this;
             }
-- 
2.43.0


From bdedfbcc31bd08fcac7389cffd8c728851343319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:11 +0000
Subject: [PATCH 20/30] fix: container assignment releases the old item last

---
 TameParse/Util/container.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/TameParse/Util/container.h b/TameParse/Util/container.h
index 77c4a3b..fd7256f 100644
--- a/TameParse/Util/container.h
+++ b/TameParse/Util/container.h
@@ -229,9 +229,12 @@ namespace util {
         inline container<ItemType, ItemAllocator>& operator=(const container<ItemType, ItemAllocator>& assignFrom) {
             if (&assignFrom == this) return *this;
             
-            assignFrom.m_Ref->retain();
-            m_Ref->release();
+            // The container we're assigning from can be destroyed by the release (if it's stored inside our item)
+            reference* oldRef = m_Ref;
+            
             m_Ref = assignFrom.m_Ref;
+            m_Ref->retain();
+            oldRef->release();
 
             return *this;
         }
-- 
2.43.0


From 6755cea69a2615071ddc118f9e94b8e325ee328e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:11 +0000
Subject: [PATCH 21/30] fix: syntax_ptr assignment releases the old value last

---
 TameParse/Util/syntax_ptr.h | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/TameParse/Util/syntax_ptr.h b/TameParse/Util/syntax_ptr.h
index c237bb7..43c25c1 100644
--- a/TameParse/Util/syntax_ptr.h
+++ b/TameParse/Util/syntax_ptr.h
@@ -102,19 +102,20 @@ namespace util {
             // Nothing to do if the reference is the same
             if (m_Reference == assignFrom.m_Reference) return *this;
             
-            // Deallocate the reference
-            m_Reference->usageCount--;
-            if (m_Reference->usageCount <= 0) {
-                delete (ptr_type*) m_Reference->value;
-                m_Reference->value = NULL;
-                delete m_Reference;
-            }
-            m_Reference = NULL;
+            // Switch to the reference in the other object (which can be destroyed below, if it's stored inside our value)
+            syntax_ptr_reference* oldReference = m_Reference;
             
-            // Switch to the reference in the other object
             m_Reference = assignFrom.m_Reference;
             ++m_Reference->usageCount;
             
+            // Deallocate the reference
+            oldReference->usageCount--;
+            if (oldReference->usageCount <= 0) {
+                delete (ptr_type*) oldReference->value;
+                oldReference->value = NULL;
+                delete oldReference;
+            }
+            
             return *this;
         }
         
-- 
2.43.0


From dfc44d606bfc91e1b88807f29cfae03e4fbab1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:11 +0000
Subject: [PATCH 22/30] fix: copying a remapped symbol map copies its symbol
 sets

---
 TameParse/Dfa/remapped_symbol_map.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/TameParse/Dfa/remapped_symbol_map.cpp b/TameParse/Dfa/remapped_symbol_map.cpp
index 7b97f3b..585316c 100644
--- a/TameParse/Dfa/remapped_symbol_map.cpp
+++ b/TameParse/Dfa/remapped_symbol_map.cpp
@@ -45,7 +45,8 @@ remapped_symbol_map::remapped_symbol_map() {
 
 /// \brief Copy constructor
 remapped_symbol_map::remapped_symbol_map(const remapped_symbol_map& copyFrom) 
-: m_OldToNew(copyFrom.m_OldToNew) {
+: symbol_map(copyFrom)
+, m_OldToNew(copyFrom.m_OldToNew) {
 }
 
 /// \brief Finds or adds an identifier for the specified symbol, adding the specified set of new symbols as the new symbols
-- 
2.43.0


From 5df232418aea093d56200a4ffd50c022f9a132eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:11 +0000
Subject: [PATCH 23/30] fix: remapped symbols stay within the sets they come
 from

---
 TameParse/Dfa/remapped_symbol_map.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/TameParse/Dfa/remapped_symbol_map.cpp b/TameParse/Dfa/remapped_symbol_map.cpp
index 585316c..b07928e 100644
--- a/TameParse/Dfa/remapped_symbol_map.cpp
+++ b/TameParse/Dfa/remapped_symbol_map.cpp
@@ -131,6 +131,7 @@ static void add_set(sets_for_range& sets, const symbol_set& symbols, int identif
             // If there's a gap between the remaining set and the current position, then fill it in
             if (firstGreaterThan->first.lower() > remaining.lower()) {
                 int newUpper = firstGreaterThan->first.lower();
+                if (newUpper > remaining.upper()) newUpper = remaining.upper();
                 
                 // Insert a value to fill the gap
                 firstGreaterThan = sets.insert(firstGreaterThan, sets_for_range::value_type(symbol_range(remaining.lower(), newUpper), justUs));
-- 
2.43.0


From 240482f0f73eaefcd4630815f8d35519e2e751f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:11 +0000
Subject: [PATCH 24/30] fix: parser stack references survive copies, assignment
 and growth

---
 TameParse/Lr/parser_stack.h | 68 +++++++++++++++++++++++--------------
 1 file changed, 42 insertions(+), 26 deletions(-)

diff --git a/TameParse/Lr/parser_stack.h b/TameParse/Lr/parser_stack.h
index 4e238fb..ecb9af9 100644
--- a/TameParse/Lr/parser_stack.h
+++ b/TameParse/Lr/parser_stack.h
@@ -199,7 +199,7 @@ namespace lr {
                 // Collect if we've run out of free items, and grow the stack if it's still looking empty
                 if (m_NumFree <= 0) {
                     collect();
-                    if (m_NumFree < initial_depth/2) {
+                    if (m_NumFree <= 0 || m_NumFree < initial_depth/2) {
                         grow_stack();
                     }
                 }
@@ -240,35 +240,61 @@ namespace lr {
         pstack* m_Next;
         
     private:
-        parser_stack(pstack* stack, int index)
-        : m_Index(index)
-        , m_Stack(stack) {
+        /// \brief Adds this reference to the start of the list of references for its stack
+        inline void link() {
             m_Next = m_Stack->m_RootReference;
             m_Last = NULL;
+            if (m_Next) {
+                m_Next->m_Last = this;
+            }
             m_Stack->m_RootReference = this;
         }
         
+        /// \brief Removes this reference from the list of references for its stack, and deletes the stack if it was the last one
+        inline void unlink() {
+            if (m_Next) {
+                m_Next->m_Last = m_Last;
+            }
+            if (m_Last) {
+                m_Last->m_Next = m_Next;
+            } else {
+                m_Stack->m_RootReference = m_Next;
+            }
+            
+            if (m_Stack->m_RootReference == NULL) {
+                delete m_Stack;
+            }
+        }
+        
+        parser_stack(pstack* stack, int index)
+        : m_Index(index)
+        , m_Stack(stack) {
+            link();
+        }
+        
     public:
         parser_stack() 
         : m_Stack(new internal_stack())
         , m_Index(m_Stack->get_new()) {
-            m_Next = m_Stack->m_RootReference;
-            m_Last = NULL;
-            m_Stack->m_RootReference = this;
+            link();
         }
         
         /// \brief Creates a copy of a particular reference
         inline parser_stack(const parser_stack& copyFrom)
         : m_Stack(copyFrom.m_Stack)
         , m_Index(copyFrom.m_Index) {
-            m_Next = m_Stack->m_RootReference;
-            m_Last = NULL;
-            m_Stack->m_RootReference = this;
+            link();
         }
         
         /// \brief Assignment operator
         inline parser_stack& operator=(const parser_stack& copyFrom) {
-            // This will only work for references from the same stack
+            // Move to the other stack's list of references if we're assigning from a different stack
+            if (m_Stack != copyFrom.m_Stack) {
+                unlink();
+                m_Stack = copyFrom.m_Stack;
+                link();
+            }
+            
             m_Index = copyFrom.m_Index;
             
             return *this;
@@ -276,19 +302,7 @@ namespace lr {
         
         /// \brief Destructor
         inline ~parser_stack() {
-            // Remove this reference from the list of references
-            if (m_Next) {
-                m_Next->m_Last = m_Last;
-            }
-            if (m_Last) {
-                m_Last->m_Next = m_Next;
-            } else {
-                m_Stack->m_RootReference = m_Next;
-            }
-            
-            if (m_Stack->m_RootReference == NULL) {
-                delete m_Stack;
-            }
+            unlink();
         }
         
         inline entry& operator*() {
@@ -333,12 +347,14 @@ namespace lr {
 
         /// \brief Pushes a new item onto the stack, and updates this to point at it
         inline void push(int state, const item_type& newItem) {
-            int newIndex = m_Stack->get_new();
+            // The item might be stored in this stack, so it can move when we allocate the new entry
+            item_type   itemCopy(newItem);
+            int         newIndex = m_Stack->get_new();
             
             entry& newEntry = m_Stack->m_Stack[newIndex];
             
             newEntry.state              = state;
-            newEntry.item               = newItem;
+            newEntry.item               = itemCopy;
             newEntry.m_PreviousIndex    = m_Index;
             
             m_Index = newIndex;
-- 
2.43.0


From 5553804fdb3fd77bad9456e75da00801b13e20f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:11 +0000
Subject: [PATCH 25/30] fix: compacting a DFA keeps accepting and other states
 apart

---
 TameParse/Dfa/ndfa_transformations.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/TameParse/Dfa/ndfa_transformations.cpp b/TameParse/Dfa/ndfa_transformations.cpp
index a229064..da07986 100644
--- a/TameParse/Dfa/ndfa_transformations.cpp
+++ b/TameParse/Dfa/ndfa_transformations.cpp
@@ -271,9 +271,8 @@ ndfa* ndfa::to_compact_dfa(const vector<int>& initialState, bool firstAction) co
     }
     
     // Bundle all of the non-accepting states up into a single state
-    // (If all of the remaining states are accepting then we'll end up with a free bonus state here :-/)
-    int nonAcceptingStates = (int) newStates.size();
-    newStates.push_back(state_set());
+    // (This is only created once we find such a state, so there are never any empty states in the result)
+    int nonAcceptingStates = -1;
     
     // Also remember which new state contains which set of accepting actions
     map<action_set, int> stateForActions;
@@ -288,6 +287,11 @@ ndfa* ndfa::to_compact_dfa(const vector<int>& initialState, bool firstAction) co
 
         // If this state is not an accepting state then add it to the non-accepting set
         if (acceptActions == m_Accept->end() || acceptActions->second.empty()) {
+            if (nonAcceptingStates == -1) {
+                nonAcceptingStates = (int) newStates.size();
+                newStates.push_back(state_set());
+            }
+            
             newStates[nonAcceptingStates].insert(stateId);
             oldToNew[stateId] = nonAcceptingStates;
         }
@@ -323,7 +327,7 @@ ndfa* ndfa::to_compact_dfa(const vector<int>& initialState, bool firstAction) co
             
             if (existingState == stateForActions.end()) {
                 // Create a new state
-                targetState = (int) newStates.size()-1;
+                targetState = (int) newStates.size();
                 newStates.push_back(state_set());
             } else {
                 // Add to the existing state
@@ -395,7 +399,7 @@ ndfa* ndfa::to_compact_dfa(const vector<int>& initialState, bool firstAction) co
                 if (splitStateId == -1) {
                     // Assign a new state
                     changed         = true;
-                    splitStateId    = (int) newStates.size()-1;
+                    splitStateId    = (int) newStates.size();
                     newStates.push_back(state_set());
                 }
                 
-- 
2.43.0


From dc7aec5ea0b11ec0362683da80f3c79d32d8bb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:11 +0000
Subject: [PATCH 26/30] fix: merging symbols only merges those used the same
 way everywhere

---
 TameParse/Dfa/ndfa_transformations.cpp | 134 ++++++++-----------------
 1 file changed, 44 insertions(+), 90 deletions(-)

diff --git a/TameParse/Dfa/ndfa_transformations.cpp b/TameParse/Dfa/ndfa_transformations.cpp
index da07986..9637d1d 100644
--- a/TameParse/Dfa/ndfa_transformations.cpp
+++ b/TameParse/Dfa/ndfa_transformations.cpp
@@ -475,6 +475,9 @@ ndfa* ndfa::to_ndfa_with_merged_symbols() const {
     // A set of all the symbols in this NDFA
     set<int> symbols;
 
+    // The symbol set representing epsilon (-1 if there isn't one)
+    int epsilonSet = m_Symbols->find_identifier_for_symbols(epsilon());
+
     // Begin with a set of all symbols, as ID 0
     uniqueSymbols.push_back(set<int>());
     for (symbol_map::iterator symbolSet = m_Symbols->begin(); symbolSet != m_Symbols->end(); ++symbolSet) {
@@ -488,98 +491,46 @@ ndfa* ndfa::to_ndfa_with_merged_symbols() const {
         // Fetch this state
         const state& thisState = get_state(stateId);
 
-        // Maps new symbol sets to the state that they transfer to
-        map<int, int> stateForSet;
-
-        // Start at the initial transition
-        state::iterator transit = thisState.begin();
-
-        // Iterate through the symbols
-        set<int>::iterator oldSymbolSet = symbols.begin();
+        // Find the states that each symbol set moves to from this state
+        map<int, set<int> > targetsForSymbol;
 
-        // Iterate through the transitions for this state
-        for (;oldSymbolSet != symbols.end();) {
-            // Get the new symbol set for this transit
-            int newSymbolSet = symbolForSymbol[*oldSymbolSet];
-
-            // Look for the state that this symbol produces
-            map<int, int>::iterator foundState = stateForSet.find(newSymbolSet);
-
-            // Get the state this transition moves to (-1 if this is a rejecting symbol)
-            int newState = -1;
-            if (transit != thisState.end() && transit->symbol_set() == *oldSymbolSet) {
-                newState = transit->new_state();
-            }
-
-            // Just remember this target state if it hasn't been encountered before
-            if (foundState == stateForSet.end()) {
-                stateForSet[newSymbolSet] = newState;
-            } 
-
-            // Otherwise, do nothing if this transition maps to the same state
-            else if (foundState->second == newState) {
-                // Nothing to do
-            }
-
-            // This symbol set is different: create a new set consisting of all of the symbols that map to the same set and transit to this alternate state
-            else {
-                // Create a new symbol set
-                uniqueSymbols.push_back(set<int>());
-                int         newSetId    = (int)uniqueSymbols.size()-1;
-                set<int>&   newSet      = uniqueSymbols.back();
-
-                // Add any symbol that has the same set and target state
-                if (newState != -1) {
-                    // Add all of the symbols that go to the same state as this one
-                    for (state::iterator similarTransit = transit; similarTransit != thisState.end(); ++similarTransit) {
-                        // Check that this transit goes to the same state
-                        if (similarTransit->new_state() != newState) continue;
-
-                        // It must also use the same symbol set as before
-                        int originalSet = similarTransit->symbol_set();
-                        int similarSet  = symbolForSymbol[originalSet];
-                        if (similarSet != newSymbolSet) continue;
-
-                        // This symbol should be remapped to the set we just created
-                        uniqueSymbols[newSymbolSet].erase(originalSet);
-                        newSet.insert(originalSet);
-                        symbolForSymbol[originalSet] = newSetId;
-                    }
-                } else {
-                    // Add all of the symbols that go nowhere
-                    set<int> goNowhere = symbols;
-
-                    // Remove any symbols that go somewhere
-                    for (state::iterator otherTransit = thisState.begin(); otherTransit != thisState.end(); ++otherTransit) {
-                        goNowhere.erase(otherTransit->symbol_set());
-                    }
-
-                    // Add all of the goNowhere symbols
-                    for (set<int>::iterator nowhere = goNowhere.begin(); nowhere != goNowhere.end(); ++nowhere) {
-                        // Only remap symbols with a similar set
-                        int similarSet  = symbolForSymbol[*nowhere];
-                        if (similarSet != newSymbolSet) continue;
+        for (state::iterator transit = thisState.begin(); transit != thisState.end(); ++transit) {
+            targetsForSymbol[transit->symbol_set()].insert(transit->new_state());
+        }
 
-                        // This symbol should be remapped to the set we just created
-                        uniqueSymbols[newSymbolSet].erase(*nowhere);
-                        newSet.insert(*nowhere);
-                        symbolForSymbol[*nowhere] = newSetId;
-                    }
+        // Symbol sets that are currently merged must be split if they move to different states (or if only one of them is epsilon).
+        // The first of the different targets keeps the existing merged set; the others are moved to a new one.
+        typedef pair<bool, set<int> >           transition_target;
+        typedef map<transition_target, int>     set_for_target;
+        map<int, set_for_target> newSetForTarget;
+
+        for (set<int>::iterator oldSymbolSet = symbols.begin(); oldSymbolSet != symbols.end(); ++oldSymbolSet) {
+            // Get the set this symbol is currently merged into, and where it goes
+            int                 mergedSet       = symbolForSymbol[*oldSymbolSet];
+            const set<int>&     targetStates    = targetsForSymbol[*oldSymbolSet];
+            transition_target   target(*oldSymbolSet == epsilonSet && !targetStates.empty(), targetStates);
+            set_for_target&     knownTargets    = newSetForTarget[mergedSet];
+
+            // Look for the symbol sets we've already seen with the same target states
+            set_for_target::iterator foundTarget = knownTargets.find(target);
+
+            if (foundTarget == knownTargets.end()) {
+                int targetSet = mergedSet;
+
+                if (!knownTargets.empty()) {
+                    // This symbol set is different: create a new set
+                    targetSet = (int)uniqueSymbols.size();
+                    uniqueSymbols.push_back(set<int>());
                 }
-            }
 
-            // Move on to the next transit and/or symbol set
-            if (newState == -1) {
-                // The transition applies to a later symbol set: only move the symbol set on
-                ++oldSymbolSet;
-            } else {
-                // The transition matches the symbols: move the transition on
-                ++transit;
+                foundTarget = knownTargets.insert(set_for_target::value_type(target, targetSet)).first;
+            }
 
-                // Move the symbols on as well if the transition now has a different set
-                if (transit == thisState.end() || transit->symbol_set() != *oldSymbolSet) {
-                    ++oldSymbolSet;
-                }
+            // Move this symbol set to its new merged set
+            if (foundTarget->second != mergedSet) {
+                uniqueSymbols[mergedSet].erase(*oldSymbolSet);
+                uniqueSymbols[foundTarget->second].insert(*oldSymbolSet);
+                symbolForSymbol[*oldSymbolSet] = foundTarget->second;
             }
         }
     }
@@ -587,6 +538,9 @@ ndfa* ndfa::to_ndfa_with_merged_symbols() const {
     // Create the new symbol sets
     symbol_map* newSymbolMap = new symbol_map();
 
+    // Identifiers of the merged sets in the new map
+    vector<int> idForUniqueSet;
+
     // Iterate through the different symbol sets that we found
     for (int newSymbolId = 0; newSymbolId < (int) uniqueSymbols.size(); ++newSymbolId) {
         // Get the old sets that are mapped to this new set
@@ -598,8 +552,8 @@ ndfa* ndfa::to_ndfa_with_merged_symbols() const {
             newSymbolSet |= (*m_Symbols)[*oldSymbolId];
         }
 
-        // Add to the new map (relies on the symbol map counting from 0)
-        newSymbolMap->identifier_for_symbols(newSymbolSet);
+        // Add to the new map (overlapping symbol sets can be merged into the same set)
+        idForUniqueSet.push_back(newSymbolMap->identifier_for_symbols(newSymbolSet));
     }
 
     // Create the new set of states with the remapped symbol sets
@@ -615,7 +569,7 @@ ndfa* ndfa::to_ndfa_with_merged_symbols() const {
 
         // Transform the transitions
         for (state::iterator transit=oldState.begin(); transit != oldState.end(); ++transit) {
-            newState->add(transition(symbolForSymbol[transit->symbol_set()], transit->new_state()));
+            newState->add(transition(idForUniqueSet[symbolForSymbol[transit->symbol_set()]], transit->new_state()));
         }
 
         // Copy the actions for this state
-- 
2.43.0


From fb1f4028a81eeb48c26ce80b0a52ea233797fb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:11 +0000
Subject: [PATCH 27/30] fix: FIRST and FOLLOW sets of recursive and EBNF rules
 are complete

---
 TameParse/ContextFree/ebnf_items.cpp     | 45 ++++--------------------
 TameParse/ContextFree/grammar.cpp        | 36 +++++++++++++++----
 TameParse/ContextFree/grammar.h          |  5 ++-
 TameParse/ContextFree/standard_items.cpp | 33 +----------------
 4 files changed, 42 insertions(+), 77 deletions(-)

diff --git a/TameParse/ContextFree/ebnf_items.cpp b/TameParse/ContextFree/ebnf_items.cpp
index a062241..927f3ae 100644
--- a/TameParse/ContextFree/ebnf_items.cpp
+++ b/TameParse/ContextFree/ebnf_items.cpp
@@ -183,16 +183,8 @@ item_set ebnf_optional::first(const grammar& gram) const {
     item_set result(gram);
     result.insert(the_empty_item);
     
-    // Get the rule
-    const rule& r = *get_rule();
-    
-    // Add items if the rule has a first item
-    if (r.items().size() > 0) {
-        const item_set& ruleItems = gram.first(*(r.items()[0]));
-        result.merge(ruleItems);
-    } else {
-        result.insert(the_empty_item);
-    }
+    // Add the items that can start the rule
+    result.merge(gram.first_for_rule(*get_rule()));
     
     return result;
 }
@@ -235,14 +227,8 @@ item_set ebnf_repeating::first(const grammar& gram) const {
     // Result is the first item in the rule
     item_set result(gram);
     
-    // Get the rule
-    const rule& r = *get_rule();
-    
-    // Add items if the rule has a first item
-    if (r.items().size() > 0) {
-        const item_set& ruleItems = gram.first(*(r.items()[0]));
-        result.merge(ruleItems);
-    }
+    // Add the items that can start the rule
+    result.merge(gram.first_for_rule(*get_rule()));
     
     return result;
 }
@@ -287,16 +273,8 @@ item_set ebnf_repeating_optional::first(const grammar& gram) const {
     item_set result(gram);
     result.insert(the_empty_item);
     
-    // Get the rule
-    const rule& r = *get_rule();
-    
-    // Add items if the rule has a first item
-    if (r.items().size() > 0) {
-        const item_set& ruleItems = gram.first(*(r.items()[0]));
-        result.merge(ruleItems);
-    } else {
-        result.insert(the_empty_item);
-    }
+    // Add the items that can start the rule
+    result.merge(gram.first_for_rule(*get_rule()));
     
     return result;    
 }
@@ -351,16 +329,7 @@ item_set ebnf_alternate::first(const grammar& gram) const {
     
     // Iterate through all of the rules
     for (rule_iterator nextRule = first_rule(); nextRule != last_rule(); ++nextRule) {
-        // Get the rule
-        const rule& r = **nextRule;
-        
-        // Add items if the rule has a first item
-        if (r.items().size() > 0) {
-            const item_set& ruleItems = gram.first(*(r.items()[0]));
-            result.merge(ruleItems);
-        } else {
-            result.insert(the_empty_item);
-        }
+        result.merge(gram.first_for_rule(**nextRule));
     }
     
     return result;
diff --git a/TameParse/ContextFree/grammar.cpp b/TameParse/ContextFree/grammar.cpp
index f4cbff7..5fe14b0 100644
--- a/TameParse/ContextFree/grammar.cpp
+++ b/TameParse/ContextFree/grammar.cpp
@@ -244,11 +244,28 @@ const item_set& grammar::first(const item_container& item) const {
     
     // Not found: create an empty item set so recursive calls to this method terminate
     found = m_CachedFirstSets.insert(pair<item_container, item_set>(item, item_set(this))).first;
+    m_PendingFirstSets.push_back(item);
     
     // Ask the item for its first set, and update the cache
-    found->second = item->first(*this);
+    found->second.merge(item->first(*this));
+    
+    // If this is the outermost call, then any items that refer to each other recursively may have used sets that weren't complete
+    // Update all of the sets that were generated until there are no more changes
+    if (m_PendingFirstSets[0] == item) {
+        bool changed = true;
+        while (changed) {
+            changed = false;
+            for (size_t pos = 0; pos < m_PendingFirstSets.size(); ++pos) {
+                item_container pending = m_PendingFirstSets[pos];
+                if (m_CachedFirstSets.find(pending)->second.merge(pending->first(*this))) {
+                    changed = true;
+                }
+            }
+        }
+        
+        m_PendingFirstSets.clear();
+    }
     
-    // Return the newly added item (have to do another lookup as map doesn't have a replace operator)
     return found->second;
 }
 
@@ -293,7 +310,7 @@ const item_set& grammar::follow(const item_container& nonterminal) const {
         // Iterate through all of the rules in this grammar and build up the follow set for each one
         for (nonterminal_rule_map::const_iterator nextNt = m_Nonterminals.begin(); nextNt != m_Nonterminals.end(); ++nextNt) {
             for (rule_list::const_iterator ruleIt = nextNt->second.begin(); ruleIt != nextNt->second.end(); ++ruleIt) {
-                fill_follow(**ruleIt, dependencies);
+                fill_follow(**ruleIt, (*ruleIt)->nonterminal(), dependencies);
             }
         }
         
@@ -339,7 +356,9 @@ const item_set& grammar::follow(const item_container& nonterminal) const {
 }
 
 /// \brief Updates the follow set cache using the content of a particular rule
-void grammar::fill_follow(const rule& rule, item_map<item_set>::type& dependencies) const {
+///
+/// The owner is the item that the rule is for (the nonterminal of the rule, or the EBNF item that contains it)
+void grammar::fill_follow(const rule& rule, const item_container& owner, item_map<item_set>::type& dependencies) const {
     // Empty rules don't change the follow set for anything
     if (rule.items().size() == 0) return;
     
@@ -381,14 +400,19 @@ void grammar::fill_follow(const rule& rule, item_map<item_set>::type& dependenci
                 depend = dependencies.insert(item_map<item_set>::type::value_type(thisItem, item_set(this))).first;
             }
             
-            depend->second.insert(rule.nonterminal());
+            depend->second.insert(owner);
         }
         
         // If this item is an EBNF rule, then we need to process each of its children
         const ebnf* ebnfItem = thisItem->cast_ebnf();
         if (ebnfItem) {
             for (ebnf::rule_iterator subRule = ebnfItem->first_rule(); subRule != ebnfItem->last_rule(); ++subRule) {
-                fill_follow(**subRule, dependencies);
+                // Repeating items can be followed by another copy of their own content
+                if (thisItem->type() == item::repeat || thisItem->type() == item::repeat_zero_or_one) {
+                    followSet->second.merge(first_for_rule(**subRule));
+                }
+                
+                fill_follow(**subRule, thisItem, dependencies);
             }
         }
     }
diff --git a/TameParse/ContextFree/grammar.h b/TameParse/ContextFree/grammar.h
index 627ad86..f8663a2 100644
--- a/TameParse/ContextFree/grammar.h
+++ b/TameParse/ContextFree/grammar.h
@@ -103,6 +103,9 @@ namespace contextfree {
         /// \brief Cached map of FIRST sets for this grammar
         mutable item_set_map m_CachedFirstSets;
         
+        /// \brief The items whose first sets are currently being computed (the cached first sets for these items may be incomplete)
+        mutable std::vector<item_container> m_PendingFirstSets;
+        
         /// \brief Cached map of FOLLOW sets for this grammar
         mutable item_set_map m_CachedFollowSets;
 
@@ -208,7 +211,7 @@ namespace contextfree {
         
     private:
         /// \brief Updates the follow set cache using the content of a particular rule
-        void fill_follow(const rule& rule, item_map<item_set>::type& dependencies) const;
+        void fill_follow(const rule& rule, const item_container& owner, item_map<item_set>::type& dependencies) const;
         
     public:
         ///
diff --git a/TameParse/ContextFree/standard_items.cpp b/TameParse/ContextFree/standard_items.cpp
index a311b3e..009904e 100644
--- a/TameParse/ContextFree/standard_items.cpp
+++ b/TameParse/ContextFree/standard_items.cpp
@@ -119,38 +119,7 @@ item_set nonterminal::first(const grammar& gram) const {
     
     // Merge in the first set for each of the initial symbols
     for (rule_list::const_iterator nextRule = rules.begin(); nextRule != rules.end(); ++nextRule) {
-        // Get the items for this rule
-        const item_list& ruleItems = (*nextRule)->items();
-        
-        // Add the empty item if this is an empty rule
-        if (ruleItems.size() == 0) {
-            result.insert(an_empty_item_c);
-            continue;
-        }
-        
-        // Get the first set for the first item in this rule
-        const item_set& ruleFirst = gram.first(ruleItems[0]);
-
-        // Insert into the result
-        result.merge(ruleFirst);
-
-        if (ruleFirst.contains(an_empty_item_c)) {
-            // If there's an empty item, then merge the first sets from the later parts of the rule
-            int pos;
-            for (pos = 1; pos < (int) ruleItems.size(); ++pos) {
-                // Remove the empty item from the current set
-                result.erase(an_empty_item);
-                
-                // Get the first set for the next item
-                const item_set& nextFirst = gram.first(*(ruleItems[pos]));
-                
-                // Merge it with the current set
-                result.merge(nextFirst);
-                
-                // Stop if there's no longer an empty item
-                if (!nextFirst.contains(an_empty_item_c)) break;
-            }
-        }
+        result.merge(gram.first_for_rule(**nextRule));
     }
 
     return result;
-- 
2.43.0


From 4f29085cd5473291495fb03c8be42160df7f7ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:11 +0000
Subject: [PATCH 28/30] fix: surrogate ranges cover all of the low surrogates

---
 TameParse/Dfa/ndfa.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TameParse/Dfa/ndfa.cpp b/TameParse/Dfa/ndfa.cpp
index 851c1f7..bad521b 100644
--- a/TameParse/Dfa/ndfa.cpp
+++ b/TameParse/Dfa/ndfa.cpp
@@ -241,14 +241,14 @@ static void add_surrogate_transition(const range<int>& surrogateRange, int curre
         nfa->add_transition(currentState, range<int>(surrogateLower.first, surrogateLower.first+1), tmpState1);
 
         // Transit to the final state for all the 'lower' symbols
-        nfa->add_transition(tmpState1, range<int>(surrogateLower.second, 0xdc00), targetState);
+        nfa->add_transition(tmpState1, range<int>(surrogateLower.second, 0xe000), targetState);
 
         // ... do the same for the 'upper' set of symbols
         int tmpState2 = nfa->add_state();
         nfa->add_transition(currentState, range<int>(surrogateHigher.first, surrogateHigher.first+1), tmpState2);
 
         // Transit to the final state for all the 'lower' symbols
-        nfa->add_transition(tmpState2, range<int>(0xd800, surrogateHigher.second+1), targetState);
+        nfa->add_transition(tmpState2, range<int>(0xdc00, surrogateHigher.second+1), targetState);
 
         // If there's a middle range, then add transitions for that as well
         if (surrogateHigher.first-1 > surrogateLower.first) {
-- 
2.43.0


From 0f959e079ed9ff5e4ae271fc0b8b79bfbd9a7ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:11 +0000
Subject: [PATCH 29/30] fix: repeated parts of a regular expression do not leak
 into their neighbours

---
 TameParse/Dfa/ndfa.cpp       |  2 ++
 TameParse/Dfa/ndfa_regex.cpp | 20 ++++++++++++++++----
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/TameParse/Dfa/ndfa.cpp b/TameParse/Dfa/ndfa.cpp
index bad521b..193567e 100644
--- a/TameParse/Dfa/ndfa.cpp
+++ b/TameParse/Dfa/ndfa.cpp
@@ -414,7 +414,9 @@ void ndfa::builder::begin_or() {
     }
     
     // Move back to the 'initial state' (the point where the or expression starts)
+    // The new alternative gets its own first state, so repeating part of it can't go back to the other alternatives
     m_CurrentState = initialState;
+    *this >> epsilon();
 }
 
 /// \brief Moves to the state after the current 'or' expression, if there is one
diff --git a/TameParse/Dfa/ndfa_regex.cpp b/TameParse/Dfa/ndfa_regex.cpp
index 7291232..128500c 100644
--- a/TameParse/Dfa/ndfa_regex.cpp
+++ b/TameParse/Dfa/ndfa_regex.cpp
@@ -178,6 +178,10 @@ int ndfa_regex::add_regex(builder& cons, const symbol_string& regex) {
     // Create an epsilon transform to an initial state for this regex
     cons >> epsilon();
     
+    // Any alternatives at the top level start from this state (each alternative has its own first state)
+    cons.push();
+    cons >> epsilon();
+    
     // Compile until we reach the end of the regex
     symbol_string::const_iterator pos = regex.begin();
     symbol_string::const_iterator end = regex.end();
@@ -194,6 +198,7 @@ int ndfa_regex::add_regex(builder& cons, const symbol_string& regex) {
     
     // Compile the end of the expression
     compile(end, end, cons);
+    cons.pop();
     
     // Return the final state
     return ((state)cons).identifier();
@@ -236,6 +241,9 @@ void ndfa_regex::compile(symbol_string::const_iterator& pos, const symbol_string
         case '(':           // Group start
             // Start a new bracketed section by pushing the current state
             cons.push();
+            
+            // The content starts in its own state, so repeating part of it can't go back to the start of the group
+            cons >> epsilon();
             break;
             
         case ')':           // Group end
@@ -262,8 +270,10 @@ void ndfa_regex::compile(symbol_string::const_iterator& pos, const symbol_string
             cons.goto_state(current);
             cons >> previous >> epsilon();
             
-            // Final state is the current state (and preserve the 'previous' state)
-            cons.goto_state(current, previous);
+            // Final state is a new state (so what follows can't go back into this expression). Preserve the 'previous' state.
+            cons.goto_state(current);
+            cons >> epsilon();
+            cons.goto_state(cons.current_state(), previous);
             break;
         }
 
@@ -277,8 +287,10 @@ void ndfa_regex::compile(symbol_string::const_iterator& pos, const symbol_string
             cons.goto_state(current);
             cons >> previous >> epsilon();
             
-            // Final state is the current state (and preserve the 'previous' state)
-            cons.goto_state(current, previous);
+            // Final state is a new state (so what follows can't go back into this expression). Preserve the 'previous' state.
+            cons.goto_state(current);
+            cons >> epsilon();
+            cons.goto_state(cons.current_state(), previous);
             break;
         }
             
-- 
2.43.0


From a9f2829f155d092aec4f71452a7dba8a673b128e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:11 +0000
Subject: [PATCH 30/30] fix: case conversion of a range starting inside a block

---
 TameParse/Util/unicode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TameParse/Util/unicode.cpp b/TameParse/Util/unicode.cpp
index c834673..de4c001 100644
--- a/TameParse/Util/unicode.cpp
+++ b/TameParse/Util/unicode.cpp
@@ -92,7 +92,7 @@ static symbol_set convert_range(const symbol_range& range, const map_entry* map,
             int initialChar = curItem->map_to + (lowerChar - curItem->lower);
 
             // The number of characters to map
-            int numChars = curItem->upper - curItem->lower;
+            int numChars = curItem->upper - lowerChar;
             if (numChars > upperChar - lowerChar) {
                 numChars = upperChar - lowerChar;
             }
-- 
2.43.0

