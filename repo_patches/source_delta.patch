From 3200ea1dc55799072873bb1b742d56dff64526f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:54 +0000
Subject: [PATCH 01/37] fix: moving an Html must transfer ownership of the
 gumbo output

---
 libhext/include/hext/Html.h |  4 ++--
 libhext/src/Html.cpp        | 18 ++++++++++++++++++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/libhext/include/hext/Html.h b/libhext/include/hext/Html.h
index bbee510..c71e201 100644
--- a/libhext/include/hext/Html.h
+++ b/libhext/include/hext/Html.h
@@ -64,8 +64,8 @@ public:
   Html(const char * buffer, std::size_t size) noexcept;
 
   ~Html() noexcept;
-  Html(Html&&) noexcept = default;
-  Html& operator=(Html&&) noexcept = default;
+  Html(Html&& other) noexcept;
+  Html& operator=(Html&& other) noexcept;
 
   /// Returns a non-owning pointer to the root node of the HTML document.
   ///
diff --git a/libhext/src/Html.cpp b/libhext/src/Html.cpp
index 553ce7c..ec73541 100644
--- a/libhext/src/Html.cpp
+++ b/libhext/src/Html.cpp
@@ -15,6 +15,7 @@
 #include "hext/Html.h"
 
 #include <cstring>
+#include <utility>
 
 
 namespace hext {
@@ -42,6 +43,23 @@ Html::~Html() noexcept
     gumbo_destroy_output(&kGumboDefaultOptions, this->g_outp_);
 }
 
+Html::Html(Html&& other) noexcept
+: g_outp_(std::exchange(other.g_outp_, nullptr))
+{
+}
+
+Html& Html::operator=(Html&& other) noexcept
+{
+  if( this != &other )
+  {
+    if( this->g_outp_ )
+      gumbo_destroy_output(&kGumboDefaultOptions, this->g_outp_);
+    this->g_outp_ = std::exchange(other.g_outp_, nullptr);
+  }
+
+  return *this;
+}
+
 const GumboNode * Html::root() const noexcept
 {
   return this->g_outp_ ? this->g_outp_->root : nullptr;
-- 
2.43.0


From 63c277f428efd7f90bee4b2b222cab06c90e6d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:54 +0000
Subject: [PATCH 02/37] fix: copy-assigning a capture without a pipe
 dereferenced a null pointer

---
 libhext/src/AttributeCapture.cpp | 2 +-
 libhext/src/FunctionCapture.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libhext/src/AttributeCapture.cpp b/libhext/src/AttributeCapture.cpp
index 8631433..c772099 100644
--- a/libhext/src/AttributeCapture.cpp
+++ b/libhext/src/AttributeCapture.cpp
@@ -43,7 +43,7 @@ AttributeCapture& AttributeCapture::operator=(const AttributeCapture& other)
   {
     this->attr_name_ = other.attr_name_;
     this->name_ = other.name_;
-    this->pipe_ = other.pipe_->clone();
+    this->pipe_ = other.pipe_ ? other.pipe_->clone() : nullptr;
   }
 
   return *this;
diff --git a/libhext/src/FunctionCapture.cpp b/libhext/src/FunctionCapture.cpp
index a3b0d0b..dd60108 100644
--- a/libhext/src/FunctionCapture.cpp
+++ b/libhext/src/FunctionCapture.cpp
@@ -43,7 +43,7 @@ FunctionCapture& FunctionCapture::operator=(const FunctionCapture& other)
   {
     this->func_ = other.func_;
     this->name_ = other.name_;
-    this->pipe_ = other.pipe_->clone();
+    this->pipe_ = other.pipe_ ? other.pipe_->clone() : nullptr;
   }
 
   return *this;
-- 
2.43.0


From 2aeedf933c00074aba9f2f47c4340685efd1b86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:21 +0000
Subject: [PATCH 03/37] fix: MatchRange must return the last matching node

If the last rule of the range had no match, the matches of the preceding
rules were ignored and the remaining siblings were skipped.
---
 libhext/src/RuleMatching.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/libhext/src/RuleMatching.cpp b/libhext/src/RuleMatching.cpp
index cf77658..9515bdd 100644
--- a/libhext/src/RuleMatching.cpp
+++ b/libhext/src/RuleMatching.cpp
@@ -277,22 +277,27 @@ const GumboNode * MatchRange(const Rule *      r_begin,
   if( !n_begin )
     return n_end;
 
-  const GumboNode * matching_node = n_end;
+  // A lone greedy rule leaves nothing behind that it could match.
+  const bool match_all = r_begin && r_begin->is_greedy() && r_begin->next() == r_end;
+
+  // The last node that was matched by any of the given rules.
+  const GumboNode * last_match = n_end;
   while( r_begin && r_begin != r_end )
   {
-    matching_node = MatchRuleOnce(r_begin, n_begin, n_end, result, max_searches);
+    auto matching_node = MatchRuleOnce(r_begin, n_begin, n_end, result, max_searches);
     const auto has_matched = ( matching_node && matching_node != n_end );
     if( has_matched )
     {
       result.push_back({r_begin, matching_node});
       n_begin = NextNode(matching_node);
+      last_match = matching_node;
     }
     
     if( !(r_begin->is_greedy() && has_matched) )
       r_begin = r_begin->next();
   }
 
-  return matching_node;
+  return match_all ? n_end : last_match;
 }
 
 const Rule * FindMandatoryRule(const Rule * begin, const Rule * end)
-- 
2.43.0


From 7652f52334ef996473080b9175a771868bc6fb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:21 +0000
Subject: [PATCH 04/37] fix: optional child rules must not require the element
 to have children

---
 libhext/src/RuleMatching.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/libhext/src/RuleMatching.cpp b/libhext/src/RuleMatching.cpp
index 9515bdd..5121218 100644
--- a/libhext/src/RuleMatching.cpp
+++ b/libhext/src/RuleMatching.cpp
@@ -193,9 +193,23 @@ bool RuleMatchesNodeRecursive(const Rule *      rule,
   if( !rule->child() && rule->nested().empty() )
     return true;
 
-  if( node->type != GUMBO_NODE_ELEMENT || !node->v.element.children.length )
+  if( node->type != GUMBO_NODE_ELEMENT )
     return false;
 
+  if( !node->v.element.children.length )
+  {
+    // There is nothing to match against, which is fine as long as there are
+    // only optional rules.
+    if( FindMandatoryRule(rule->child(), nullptr) )
+      return false;
+
+    for( const auto& nested : rule->nested() )
+      if( FindMandatoryRule(&nested, nullptr) )
+        return false;
+
+    return true;
+  }
+
   auto first_child = static_cast<const GumboNode *>(
       node->v.element.children.data[0]);
 
-- 
2.43.0


From 5770940f80d3d9933e781dcb5bac1a99c5f149e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:34 +0000
Subject: [PATCH 05/37] fix: regex flags must not leak into the following regex

---
 libhext/ragel/hext-machine.rl |   2 +
 libhext/src/Parser.cpp        | 142 +++++++++++++++++-----------------
 2 files changed, 74 insertions(+), 70 deletions(-)

diff --git a/libhext/ragel/hext-machine.rl b/libhext/ragel/hext-machine.rl
index 9b9502f..44105a9 100644
--- a/libhext/ragel/hext-machine.rl
+++ b/libhext/ragel/hext-machine.rl
@@ -107,6 +107,8 @@ regex = (
      auto mark_len = static_cast<std::size_t>(this->p - tok_begin + 1);
      this->throw_regex_error(mark_len, e.code());
    }
+   // Flags only apply to a single regex
+   pv.regex_flag = boost::regex::perl;
 };
 # Wrap a regular expression into a RegexTest.
 regex_test = regex %{ assert(pv.regex); pv.set_test<RegexTest>(*pv.regex); };
diff --git a/libhext/src/Parser.cpp b/libhext/src/Parser.cpp
index b299e10..2dd4246 100644
--- a/libhext/src/Parser.cpp
+++ b/libhext/src/Parser.cpp
@@ -64,7 +64,7 @@ namespace hext {
 namespace ragel {
   /// Embed the ragel state machine.
   
-#line 67 "Parser.cpp.tmp"
+#line 64 "Parser.cpp.tmp"
 static const char _hext_actions[] = {
 	0, 1, 2, 1, 3, 1, 4, 1, 
 	5, 1, 6, 1, 7, 1, 8, 1, 
@@ -1830,12 +1830,12 @@ Rule Parser::parse()
 #endif
 #endif
   
-#line 1833 "Parser.cpp.tmp"
+#line 1826 "Parser.cpp.tmp"
 	{
 	cs = hext_start;
 	}
 
-#line 1838 "Parser.cpp.tmp"
+#line 1829 "Parser.cpp.tmp"
 	{
 	int _klen;
 	unsigned int _trans;
@@ -2027,182 +2027,184 @@ _match:
      auto mark_len = static_cast<std::size_t>(this->p - tok_begin + 1);
      this->throw_regex_error(mark_len, e.code());
    }
+   // Flags only apply to a single regex
+   pv.regex_flag = boost::regex::perl;
 }
 	break;
 	case 28:
-#line 112 "hext-machine.rl"
+#line 114 "hext-machine.rl"
 	{ assert(pv.regex); pv.set_test<RegexTest>(*pv.regex); }
 	break;
 	case 29:
-#line 117 "hext-machine.rl"
+#line 119 "hext-machine.rl"
 	{ pv.set_trait<ChildCountMatch>(0); }
 	break;
 	case 30:
-#line 122 "hext-machine.rl"
+#line 124 "hext-machine.rl"
 	{ tk_start(); }
 	break;
 	case 31:
-#line 123 "hext-machine.rl"
+#line 125 "hext-machine.rl"
 	{ tk_stop(); pv.set_trait<ChildCountMatch>(std::stoi(tok)); }
 	break;
 	case 32:
-#line 129 "hext-machine.rl"
+#line 131 "hext-machine.rl"
 	{ tk_start(); }
 	break;
 	case 33:
-#line 130 "hext-machine.rl"
+#line 132 "hext-machine.rl"
 	{ tk_stop(); pv.set_trait<AttributeCountMatch>(std::stoi(tok)); }
 	break;
 	case 34:
-#line 135 "hext-machine.rl"
+#line 137 "hext-machine.rl"
 	{ pv.set_trait<NthChildMatch>(pv.nth); }
 	break;
 	case 35:
-#line 139 "hext-machine.rl"
+#line 141 "hext-machine.rl"
 	{ pv.set_trait<NthChildMatch>(pv.nth, NthChildMatch::Last); }
 	break;
 	case 36:
-#line 143 "hext-machine.rl"
+#line 145 "hext-machine.rl"
 	{ pv.set_trait<NthChildMatch>(pv.nth, NthChildMatch::First|NthChildMatch::OfType); }
 	break;
 	case 37:
-#line 147 "hext-machine.rl"
+#line 149 "hext-machine.rl"
 	{ pv.set_trait<NthChildMatch>(0, 1); }
 	break;
 	case 38:
-#line 151 "hext-machine.rl"
+#line 153 "hext-machine.rl"
 	{ pv.set_trait<NthChildMatch>(0, 1, NthChildMatch::First|NthChildMatch::OfType); }
 	break;
 	case 39:
-#line 155 "hext-machine.rl"
+#line 157 "hext-machine.rl"
 	{ pv.set_trait<NthChildMatch>(0, 1, NthChildMatch::Last); }
 	break;
 	case 40:
-#line 159 "hext-machine.rl"
+#line 161 "hext-machine.rl"
 	{ pv.set_trait<NthChildMatch>(0, 1, NthChildMatch::Last|NthChildMatch::OfType); }
 	break;
 	case 41:
-#line 163 "hext-machine.rl"
+#line 165 "hext-machine.rl"
 	{ pv.set_trait<NthChildMatch>(pv.nth, NthChildMatch::Last|NthChildMatch::OfType); }
 	break;
 	case 42:
-#line 166 "hext-machine.rl"
+#line 168 "hext-machine.rl"
 	{ pv.set_trait<OnlyChildMatch>(); }
 	break;
 	case 43:
-#line 169 "hext-machine.rl"
+#line 171 "hext-machine.rl"
 	{ pv.set_trait<OnlyChildMatch>(OnlyChildMatch::OfType); }
 	break;
 	case 44:
-#line 173 "hext-machine.rl"
+#line 175 "hext-machine.rl"
 	{ pv.set_trait<TypeRegexMatch>(*pv.regex); }
 	break;
 	case 45:
-#line 177 "hext-machine.rl"
+#line 179 "hext-machine.rl"
 	{ pv.negate = std::make_unique<NegateMatch>(); }
 	break;
 	case 46:
-#line 180 "hext-machine.rl"
+#line 182 "hext-machine.rl"
 	{
        assert(pv.negate);
        pv.negate->append_match(std::move(pv.trait));
      }
 	break;
 	case 47:
-#line 191 "hext-machine.rl"
+#line 193 "hext-machine.rl"
 	{ pv.builtin = TextBuiltin; }
 	break;
 	case 48:
-#line 193 "hext-machine.rl"
+#line 195 "hext-machine.rl"
 	{ pv.builtin = InnerHtmlBuiltin; }
 	break;
 	case 49:
-#line 195 "hext-machine.rl"
+#line 197 "hext-machine.rl"
 	{ pv.builtin = StripTagsBuiltin; }
 	break;
 	case 50:
-#line 203 "hext-machine.rl"
+#line 205 "hext-machine.rl"
 	{ pv.add_pipe<TrimPipe>(); }
 	break;
 	case 51:
-#line 205 "hext-machine.rl"
+#line 207 "hext-machine.rl"
 	{ pv.add_pipe<TrimPipe>(pv.literal_value); }
 	break;
 	case 52:
-#line 207 "hext-machine.rl"
+#line 209 "hext-machine.rl"
 	{ pv.add_pipe<CollapseWsPipe>(); }
 	break;
 	case 53:
-#line 209 "hext-machine.rl"
+#line 211 "hext-machine.rl"
 	{ pv.add_pipe<CasePipe>(); }
 	break;
 	case 54:
-#line 211 "hext-machine.rl"
+#line 213 "hext-machine.rl"
 	{ pv.add_pipe<CasePipe>(CasePipe::ToUpper); }
 	break;
 	case 55:
-#line 213 "hext-machine.rl"
+#line 215 "hext-machine.rl"
 	{ pv.add_pipe<PrependPipe>(pv.literal_value); }
 	break;
 	case 56:
-#line 215 "hext-machine.rl"
+#line 217 "hext-machine.rl"
 	{ pv.add_pipe<AppendPipe>(pv.literal_value); }
 	break;
 	case 57:
-#line 217 "hext-machine.rl"
+#line 219 "hext-machine.rl"
 	{ pv.add_pipe<RegexPipe>(*pv.regex); }
 	break;
 	case 58:
-#line 220 "hext-machine.rl"
+#line 222 "hext-machine.rl"
 	{ pv.add_pipe<RegexReplacePipe>(*pv.regex, pv.literal_value); }
 	break;
 	case 59:
-#line 226 "hext-machine.rl"
+#line 228 "hext-machine.rl"
 	{ pv.cap_var = pv.literal_value; }
 	break;
 	case 60:
-#line 228 "hext-machine.rl"
+#line 230 "hext-machine.rl"
 	{ tk_start(); }
 	break;
 	case 61:
-#line 229 "hext-machine.rl"
+#line 231 "hext-machine.rl"
 	{ tk_stop(); pv.cap_var = tok; }
 	break;
 	case 62:
-#line 236 "hext-machine.rl"
+#line 238 "hext-machine.rl"
 	{ pv.set_test<ContainsWordsTest>(pv.literal_value); }
 	break;
 	case 63:
-#line 239 "hext-machine.rl"
+#line 241 "hext-machine.rl"
 	{ pv.set_test<EqualsTest>(pv.literal_value); }
 	break;
 	case 64:
-#line 242 "hext-machine.rl"
+#line 244 "hext-machine.rl"
 	{ pv.set_test<BeginsWithTest>(pv.literal_value); }
 	break;
 	case 65:
-#line 245 "hext-machine.rl"
+#line 247 "hext-machine.rl"
 	{ pv.set_test<ContainsTest>(pv.literal_value); }
 	break;
 	case 66:
-#line 248 "hext-machine.rl"
+#line 250 "hext-machine.rl"
 	{ pv.set_test<EndsWithTest>(pv.literal_value); }
 	break;
 	case 67:
-#line 256 "hext-machine.rl"
+#line 258 "hext-machine.rl"
 	{ cur_rule().append_capture<FunctionCapture>(
              pv.builtin, pv.cap_var, std::move(pv.pipe)); }
 	break;
 	case 68:
-#line 261 "hext-machine.rl"
+#line 263 "hext-machine.rl"
 	{ cur_rule().append_match<FunctionValueMatch>(pv.builtin, std::move(pv.test)); }
 	break;
 	case 69:
-#line 265 "hext-machine.rl"
+#line 267 "hext-machine.rl"
 	{ cur_rule().append_match<FunctionValueMatch>(pv.builtin, std::move(pv.test)); }
 	break;
 	case 70:
-#line 269 "hext-machine.rl"
+#line 271 "hext-machine.rl"
 	{ cur_rule().append_capture<AttributeCapture>(
              pv.attr_name, pv.cap_var, std::move(pv.pipe));
          if( !pv.optional )
@@ -2210,80 +2212,80 @@ _match:
        }
 	break;
 	case 71:
-#line 277 "hext-machine.rl"
+#line 279 "hext-machine.rl"
 	{ cur_rule().append_match<AttributeMatch>(pv.attr_name, std::move(pv.test)); }
 	break;
 	case 72:
-#line 281 "hext-machine.rl"
+#line 283 "hext-machine.rl"
 	{ cur_rule().append_match<AttributeMatch>(pv.attr_name, std::move(pv.test)); }
 	break;
 	case 73:
-#line 285 "hext-machine.rl"
+#line 287 "hext-machine.rl"
 	{ pv.test = nullptr; }
 	break;
 	case 74:
-#line 288 "hext-machine.rl"
+#line 290 "hext-machine.rl"
 	{ cur_rule().append_match<AttributeMatch>(pv.attr_name, std::move(pv.test)); }
 	break;
 	case 75:
-#line 289 "hext-machine.rl"
+#line 291 "hext-machine.rl"
 	{ pv.reset(); }
 	break;
 	case 76:
-#line 299 "hext-machine.rl"
+#line 301 "hext-machine.rl"
 	{ push_rule(); }
 	break;
 	case 77:
-#line 304 "hext-machine.rl"
+#line 306 "hext-machine.rl"
 	{ cur_rule().set_optional(true); }
 	break;
 	case 78:
-#line 308 "hext-machine.rl"
+#line 310 "hext-machine.rl"
 	{ cur_rule().set_greedy(true); }
 	break;
 	case 79:
-#line 312 "hext-machine.rl"
+#line 314 "hext-machine.rl"
 	{ tk_start(); }
 	break;
 	case 80:
-#line 313 "hext-machine.rl"
+#line 315 "hext-machine.rl"
 	{ tk_stop(); set_open_tag_or_throw(tok); }
 	break;
 	case 81:
-#line 316 "hext-machine.rl"
+#line 318 "hext-machine.rl"
 	{ cur_rule().append_match(std::move(pv.negate)); }
 	break;
 	case 82:
-#line 319 "hext-machine.rl"
+#line 321 "hext-machine.rl"
 	{ cur_rule().append_match(std::move(pv.trait)); }
 	break;
 	case 83:
-#line 327 "hext-machine.rl"
+#line 329 "hext-machine.rl"
 	{ pop_rule(); }
 	break;
 	case 84:
-#line 334 "hext-machine.rl"
+#line 336 "hext-machine.rl"
 	{ tk_start(); }
 	break;
 	case 85:
-#line 335 "hext-machine.rl"
+#line 337 "hext-machine.rl"
 	{ tk_stop();
                             validate_close_tag_or_throw(tok);
                             pop_rule(); }
 	break;
 	case 86:
-#line 352 "hext-machine.rl"
+#line 354 "hext-machine.rl"
 	{ push_nested(); }
 	break;
 	case 87:
-#line 356 "hext-machine.rl"
+#line 358 "hext-machine.rl"
 	{ pop_nested(); }
 	break;
 	case 88:
-#line 360 "hext-machine.rl"
+#line 362 "hext-machine.rl"
 	{ this->throw_unexpected(); }
 	break;
-#line 2286 "Parser.cpp.tmp"
+#line 2189 "Parser.cpp.tmp"
 		}
 	}
 
@@ -2300,22 +2302,22 @@ _again:
 	while ( __nacts-- > 0 ) {
 		switch ( *__acts++ ) {
 	case 83:
-#line 327 "hext-machine.rl"
+#line 329 "hext-machine.rl"
 	{ pop_rule(); }
 	break;
 	case 86:
-#line 352 "hext-machine.rl"
+#line 354 "hext-machine.rl"
 	{ push_nested(); }
 	break;
 	case 87:
-#line 356 "hext-machine.rl"
+#line 358 "hext-machine.rl"
 	{ pop_nested(); }
 	break;
 	case 88:
-#line 360 "hext-machine.rl"
+#line 362 "hext-machine.rl"
 	{ this->throw_unexpected(); }
 	break;
-#line 2318 "Parser.cpp.tmp"
+#line 2216 "Parser.cpp.tmp"
 		}
 	}
 	}
-- 
2.43.0


From b9de561dde5d7aa0fd211c0f2a22b958b0b25a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:11 +0000
Subject: [PATCH 06/37] fix: out of range numbers in hext are syntax errors

std::stoi's std::out_of_range escaped ParseHext.
---
 libhext/ragel/Parser.cpp.rl   | 14 ++++++++++++++
 libhext/ragel/hext-machine.rl |  8 ++++----
 libhext/src/Parser.cpp        | 36 ++++++++++++++++++++++++-----------
 libhext/src/Parser.h          |  5 +++++
 4 files changed, 48 insertions(+), 15 deletions(-)

diff --git a/libhext/ragel/Parser.cpp.rl b/libhext/ragel/Parser.cpp.rl
index b0c7523..cdc1753 100644
--- a/libhext/ragel/Parser.cpp.rl
+++ b/libhext/ragel/Parser.cpp.rl
@@ -46,6 +46,8 @@
 #include "PatternValues.h"
 #include "StringUtil.h"
 
+#include <stdexcept>
+#include <string>
 #include <vector>
 #include <sstream>
 #include <utility>
@@ -336,6 +338,18 @@ void Parser::validate_close_tag_or_throw(const std::string& tag_name)
   }
 }
 
+int Parser::to_int_or_throw(const std::string& number) const
+{
+  try
+  {
+    return std::stoi(number);
+  }
+  catch( const std::out_of_range& )
+  {
+    this->throw_error_message("Number out of range");
+  }
+}
+
 void Parser::throw_unexpected() const
 {
   assert(this->p && this->p_begin_ && this->pe);
diff --git a/libhext/ragel/hext-machine.rl b/libhext/ragel/hext-machine.rl
index 44105a9..79b3e9a 100644
--- a/libhext/ragel/hext-machine.rl
+++ b/libhext/ragel/hext-machine.rl
@@ -70,13 +70,13 @@ nth_pattern = (
 
   ( ( ( '-'? [0-9]+ )
       >{ tk_start(); }
-      %{ tk_stop(); pv.nth = {0, std::stoi(tok)}; }
+      %{ tk_stop(); pv.nth = {0, this->to_int_or_throw(tok)}; }
     )
     ( 'n'
       %{ pv.nth = {pv.nth.second, 0}; }
       ( ( ('+'|'-') [0-9]+ )
         >{ tk_start(); }
-        %{ tk_stop(); pv.nth.second = std::stoi(tok); }
+        %{ tk_stop(); pv.nth.second = this->to_int_or_throw(tok); }
       )?
     )?
   )
@@ -122,14 +122,14 @@ trait = ':' (
   ( 'child-count('
     ( [0-9]+
       >{ tk_start(); }
-      %{ tk_stop(); pv.set_trait<ChildCountMatch>(std::stoi(tok)); } )
+      %{ tk_stop(); pv.set_trait<ChildCountMatch>(this->to_int_or_throw(tok)); } )
     ')' )
   |
 
   ( 'attribute-count('
     ( [0-9]+
       >{ tk_start(); }
-      %{ tk_stop(); pv.set_trait<AttributeCountMatch>(std::stoi(tok)); } )
+      %{ tk_stop(); pv.set_trait<AttributeCountMatch>(this->to_int_or_throw(tok)); } )
     ')' )
   |
 
diff --git a/libhext/src/Parser.cpp b/libhext/src/Parser.cpp
index 2dd4246..68ea8b6 100644
--- a/libhext/src/Parser.cpp
+++ b/libhext/src/Parser.cpp
@@ -49,6 +49,8 @@
 #include "PatternValues.h"
 #include "StringUtil.h"
 
+#include <stdexcept>
+#include <string>
 #include <vector>
 #include <sstream>
 #include <utility>
@@ -64,7 +66,7 @@ namespace hext {
 namespace ragel {
   /// Embed the ragel state machine.
   
-#line 64 "Parser.cpp.tmp"
+#line 66 "Parser.cpp.tmp"
 static const char _hext_actions[] = {
 	0, 1, 2, 1, 3, 1, 4, 1, 
 	5, 1, 6, 1, 7, 1, 8, 1, 
@@ -1758,7 +1760,7 @@ static const int hext_error = 0;
 static const int hext_en_main = 816;
 
 
-#line 67 "Parser.cpp.rl"
+#line 69 "Parser.cpp.rl"
 
 } // namespace ragel
 
@@ -1830,12 +1832,12 @@ Rule Parser::parse()
 #endif
 #endif
   
-#line 1826 "Parser.cpp.tmp"
+#line 1828 "Parser.cpp.tmp"
 	{
 	cs = hext_start;
 	}
 
-#line 1829 "Parser.cpp.tmp"
+#line 1831 "Parser.cpp.tmp"
 	{
 	int _klen;
 	unsigned int _trans;
@@ -1971,7 +1973,7 @@ _match:
 	break;
 	case 15:
 #line 73 "hext-machine.rl"
-	{ tk_stop(); pv.nth = {0, std::stoi(tok)}; }
+	{ tk_stop(); pv.nth = {0, this->to_int_or_throw(tok)}; }
 	break;
 	case 16:
 #line 76 "hext-machine.rl"
@@ -1983,7 +1985,7 @@ _match:
 	break;
 	case 18:
 #line 79 "hext-machine.rl"
-	{ tk_stop(); pv.nth.second = std::stoi(tok); }
+	{ tk_stop(); pv.nth.second = this->to_int_or_throw(tok); }
 	break;
 	case 19:
 #line 88 "hext-machine.rl"
@@ -2045,7 +2047,7 @@ _match:
 	break;
 	case 31:
 #line 125 "hext-machine.rl"
-	{ tk_stop(); pv.set_trait<ChildCountMatch>(std::stoi(tok)); }
+	{ tk_stop(); pv.set_trait<ChildCountMatch>(this->to_int_or_throw(tok)); }
 	break;
 	case 32:
 #line 131 "hext-machine.rl"
@@ -2053,7 +2055,7 @@ _match:
 	break;
 	case 33:
 #line 132 "hext-machine.rl"
-	{ tk_stop(); pv.set_trait<AttributeCountMatch>(std::stoi(tok)); }
+	{ tk_stop(); pv.set_trait<AttributeCountMatch>(this->to_int_or_throw(tok)); }
 	break;
 	case 34:
 #line 137 "hext-machine.rl"
@@ -2285,7 +2287,7 @@ _match:
 #line 362 "hext-machine.rl"
 	{ this->throw_unexpected(); }
 	break;
-#line 2189 "Parser.cpp.tmp"
+#line 2191 "Parser.cpp.tmp"
 		}
 	}
 
@@ -2317,7 +2319,7 @@ _again:
 #line 362 "hext-machine.rl"
 	{ this->throw_unexpected(); }
 	break;
-#line 2216 "Parser.cpp.tmp"
+#line 2218 "Parser.cpp.tmp"
 		}
 	}
 	}
@@ -2325,7 +2327,7 @@ _again:
 	_out: {}
 	}
 
-#line 142 "Parser.cpp.rl"
+#line 144 "Parser.cpp.rl"
 
 #ifndef _MSC_VER
 #pragma GCC diagnostic pop
@@ -2523,6 +2525,18 @@ void Parser::validate_close_tag_or_throw(const std::string& tag_name)
   }
 }
 
+int Parser::to_int_or_throw(const std::string& number) const
+{
+  try
+  {
+    return std::stoi(number);
+  }
+  catch( const std::out_of_range& )
+  {
+    this->throw_error_message("Number out of range");
+  }
+}
+
 void Parser::throw_unexpected() const
 {
   assert(this->p && this->p_begin_ && this->pe);
diff --git a/libhext/src/Parser.h b/libhext/src/Parser.h
index c44f4fc..61ec53e 100644
--- a/libhext/src/Parser.h
+++ b/libhext/src/Parser.h
@@ -93,6 +93,11 @@ private:
   /// does not equal the tag from the top most rule.
   void validate_close_tag_or_throw(const std::string& tag_name);
 
+  /// Convert a decimal number to an int.
+  ///
+  /// @throws SyntaxError  If the number is not representable as an int.
+  int to_int_or_throw(const std::string& number) const;
+
   /// Throws SyntaxError with an error message marking an unexpected character.
   [[noreturn]]
   void throw_unexpected() const;
-- 
2.43.0


From f9401684c96ec0456b37d7e7ff601155832fe56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:11 +0000
Subject: [PATCH 07/37] fix: signed integer overflow in NthChildMatch

---
 libhext/src/NthChildMatch.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libhext/src/NthChildMatch.cpp b/libhext/src/NthChildMatch.cpp
index 6c266e8..5c4cde9 100644
--- a/libhext/src/NthChildMatch.cpp
+++ b/libhext/src/NthChildMatch.cpp
@@ -15,6 +15,7 @@
 #include "hext/NthChildMatch.h"
 
 #include <cassert>
+#include <cstdint>
 
 
 namespace hext {
@@ -67,7 +68,7 @@ bool NthChildMatch::matches(const GumboNode * node) const noexcept
 
     // If step is positive, and the node is positioned after or equal to the
     // shift it must be a multiple of step, or it doesn't match.
-    return ( node_pos - this->shift_ ) % this->step_ == 0;
+    return ( static_cast<std::int64_t>(node_pos) - this->shift_ ) % this->step_ == 0;
   }
   else
   {
@@ -76,7 +77,7 @@ bool NthChildMatch::matches(const GumboNode * node) const noexcept
     if( node_pos > this->shift_ )
       return false;
 
-    return ( this->shift_ - node_pos ) % ( -1 * this->step_ ) == 0;
+    return ( static_cast<std::int64_t>(this->shift_) - node_pos ) % this->step_ == 0;
   }
 }
 
-- 
2.43.0


From da0d641f28d24e7ecaa7451916476755f6f1e986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:27 +0000
Subject: [PATCH 08/37] fix: of-type traits must tell custom elements apart by
 name

---
 libhext/src/NodeUtil.cpp       | 26 ++++++++++++++++++++++++++
 libhext/src/NodeUtil.h         |  6 ++++++
 libhext/src/NthChildMatch.cpp  |  5 +++--
 libhext/src/OnlyChildMatch.cpp |  6 +++---
 4 files changed, 38 insertions(+), 5 deletions(-)

diff --git a/libhext/src/NodeUtil.cpp b/libhext/src/NodeUtil.cpp
index 5328b8e..d8efd0f 100644
--- a/libhext/src/NodeUtil.cpp
+++ b/libhext/src/NodeUtil.cpp
@@ -302,6 +302,32 @@ bool TagWrapsText(GumboTag tag) noexcept
 }
 
 
+bool ElementsAreOfSameType(const GumboElement& left,
+                           const GumboElement& right) noexcept
+{
+  if( left.tag != right.tag )
+    return false;
+
+  if( left.tag != GUMBO_TAG_UNKNOWN )
+    return true;
+
+  if( &left == &right )
+    return true;
+
+  // Custom elements are told apart by their name.
+  GumboStringPiece left_name = left.original_tag;
+  GumboStringPiece right_name = right.original_tag;
+  if( !left_name.data || !left_name.length ||
+      !right_name.data || !right_name.length )
+    return false;
+
+  gumbo_tag_from_original_text(&left_name);
+  gumbo_tag_from_original_text(&right_name);
+  return left_name.length == right_name.length &&
+         gumbo_string_equals_ignore_case(&left_name, &right_name);
+}
+
+
 const GumboNode * NextNode(const GumboNode * node) noexcept
 {
   if( !node || node->parent->type != GUMBO_NODE_ELEMENT )
diff --git a/libhext/src/NodeUtil.h b/libhext/src/NodeUtil.h
index 709fb6d..d84f7b4 100644
--- a/libhext/src/NodeUtil.h
+++ b/libhext/src/NodeUtil.h
@@ -74,6 +74,12 @@ bool TagIsSelfClosing(GumboTag tag) noexcept;
 bool TagWrapsText(GumboTag tag) noexcept;
 
 
+/// Returns true if both elements have the same type, i.e. the same tag. Custom
+/// elements have the same type if their names are equal (ignoring case).
+bool ElementsAreOfSameType(const GumboElement& left,
+                           const GumboElement& right) noexcept;
+
+
 /// Returns the next sibling of node.
 const GumboNode * NextNode(const GumboNode * node) noexcept;
 
diff --git a/libhext/src/NthChildMatch.cpp b/libhext/src/NthChildMatch.cpp
index 5c4cde9..dc4cf68 100644
--- a/libhext/src/NthChildMatch.cpp
+++ b/libhext/src/NthChildMatch.cpp
@@ -13,6 +13,7 @@
 // limitations under the License.
 
 #include "hext/NthChildMatch.h"
+#include "NodeUtil.h"
 
 #include <cassert>
 #include <cstdint>
@@ -105,7 +106,7 @@ int NthChildMatch::count_preceding_siblings(
 
     if( child && child->type == GUMBO_NODE_ELEMENT )
       if( count_tag == HtmlTag::ANY
-          || child->v.element.tag == static_cast<GumboTag>(count_tag) )
+          || ElementsAreOfSameType(child->v.element, node->v.element) )
         ++count;
 
     if( node == child )
@@ -143,7 +144,7 @@ int NthChildMatch::count_following_siblings(
     assert(child != nullptr);
     if( child && child->type == GUMBO_NODE_ELEMENT )
       if( count_tag == HtmlTag::ANY ||
-          child->v.element.tag == static_cast<GumboTag>(count_tag) )
+          ElementsAreOfSameType(child->v.element, node->v.element) )
         ++count;
 
     if( node == child )
diff --git a/libhext/src/OnlyChildMatch.cpp b/libhext/src/OnlyChildMatch.cpp
index 8e4bda7..4798cfa 100644
--- a/libhext/src/OnlyChildMatch.cpp
+++ b/libhext/src/OnlyChildMatch.cpp
@@ -13,6 +13,7 @@
 // limitations under the License.
 
 #include "hext/OnlyChildMatch.h"
+#include "NodeUtil.h"
 
 #include <cassert>
 
@@ -35,15 +36,14 @@ bool OnlyChildMatch::matches(const GumboNode * node) const noexcept
   if( !parent || parent->type != GUMBO_NODE_ELEMENT )
     return false;
 
-  GumboTag count_tag = node->v.element.tag;
-
   const GumboVector& child_nodes = parent->v.element.children;
   for(unsigned int i = 0; i < child_nodes.length; ++i)
   {
     auto child = static_cast<const GumboNode *>(child_nodes.data[i]);
 
     if( child && child->type == GUMBO_NODE_ELEMENT && node != child )
-      if( !(this->options_ & OfType) || child->v.element.tag == count_tag )
+      if( !(this->options_ & OfType) ||
+          ElementsAreOfSameType(child->v.element, node->v.element) )
         return false;
   }
 
-- 
2.43.0


From 3174b116c6017468e0bbd1f0c60526fa69a8ac7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:18 +0000
Subject: [PATCH 09/37] fix: htmlext must not ignore read errors

---
 htmlext/htmlext/File.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/htmlext/htmlext/File.cpp b/htmlext/htmlext/File.cpp
index e014da2..559f5cc 100644
--- a/htmlext/htmlext/File.cpp
+++ b/htmlext/htmlext/File.cpp
@@ -14,8 +14,10 @@
 
 #include "htmlext/File.h"
 
+#include <cstddef>
+#include <cstdio>
 #include <fstream>
-#include <sstream>
+#include <ios>
 // strerror_r, strerror_s are not part of the C++ stdlib
 #include <string.h>
 
@@ -77,15 +79,22 @@ std::string ReadFileOrThrow(const std::string& path)
       );
   }
 
-  std::stringstream buffer;
-  buffer << file.rdbuf();
+  // Note: operator<<(std::streambuf *) would hide errors that occur while
+  // reading.
+  std::string contents;
+  std::string buffer(BUFSIZ, '\0');
+  while( file )
+  {
+    file.read(&buffer[0], static_cast<std::streamsize>(buffer.size()));
+    contents.append(buffer, 0, static_cast<std::size_t>(file.gcount()));
+  }
 
-  if( file.fail() )
+  if( file.bad() )
     throw FileError(
       "cannot read '" + path + "': " + StrError(errno)
     );
 
-  return buffer.str();
+  return contents;
 }
 
 
-- 
2.43.0


From 8e168700627d253262cf2b3358df940aaee1139d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:18 +0000
Subject: [PATCH 10/37] fix: htmlext must not ignore write errors

---
 htmlext/main.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/htmlext/main.cpp b/htmlext/main.cpp
index c4049c3..a0a307b 100644
--- a/htmlext/main.cpp
+++ b/htmlext/main.cpp
@@ -29,6 +29,21 @@
 #include <vector>
 
 
+namespace {
+
+
+/// Flushes stdout. Throws htmlext::FileError if any output was lost.
+void FlushOutputOrThrow()
+{
+  std::cout.flush();
+  if( !std::cout )
+    throw htmlext::FileError("cannot write to standard output");
+}
+
+
+} // namespace
+
+
 int main(int argc, const char ** argv)
 {
   std::ios_base::sync_with_stdio(false);
@@ -43,12 +58,14 @@ int main(int argc, const char ** argv)
     if( po.contains("help") )
     {
       po.print(argv[0], std::cout);
+      FlushOutputOrThrow();
       return EXIT_SUCCESS;
     }
 
     if( po.contains("version") )
     {
       htmlext::PrintVersion(std::cout);
+      FlushOutputOrThrow();
       return EXIT_SUCCESS;
     }
 
@@ -115,6 +132,8 @@ int main(int argc, const char ** argv)
           htmlext::PrintJson(result, po.get_json_options(), std::cout);
         }
       }
+
+    FlushOutputOrThrow();
   }
   catch( const htmlext::FileError& e )
   {
-- 
2.43.0


From 6771d245adf3c49b61a8e659ba79077bb3fc7475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:18 +0000
Subject: [PATCH 11/37] fix: htmlext must parse Hext files beyond an embedded
 null byte

---
 htmlext/main.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/htmlext/main.cpp b/htmlext/main.cpp
index a0a307b..7165f60 100644
--- a/htmlext/main.cpp
+++ b/htmlext/main.cpp
@@ -81,8 +81,8 @@ int main(int argc, const char ** argv)
     for(const auto& filename : hext_filenames)
     {
       try {
-        rules.emplace_back(
-            hext::ParseHext(htmlext::ReadFileOrThrow(filename).c_str()));
+        const auto hext = htmlext::ReadFileOrThrow(filename);
+        rules.emplace_back(hext::ParseHext(hext.c_str(), hext.size()));
       } catch( const hext::SyntaxError& e ) {
         errout.print(std::string("Error in " + filename), e.what());
         return EXIT_FAILURE;
-- 
2.43.0


From dd2bac72888db1aafe18eb2fb6821c877e4825b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:41 +0000
Subject: [PATCH 12/37] fix: htmlext truncated JSON strings at a null byte

---
 htmlext/htmlext/Json.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/htmlext/htmlext/Json.cpp b/htmlext/htmlext/Json.cpp
index ab3c672..8d4d249 100644
--- a/htmlext/htmlext/Json.cpp
+++ b/htmlext/htmlext/Json.cpp
@@ -34,8 +34,15 @@ void PrintJson(const hext::Result result, JsonOption opt, std::ostream& out)
 
     for(const auto& p : group)
     {
-      rapidjson::Value name(p.first.c_str(), alloc);
-      rapidjson::Value value(p.second.c_str(), alloc);
+      // Values may contain null bytes
+      rapidjson::Value name(
+          p.first.data(),
+          static_cast<rapidjson::SizeType>(p.first.size()),
+          alloc);
+      rapidjson::Value value(
+          p.second.data(),
+          static_cast<rapidjson::SizeType>(p.second.size()),
+          alloc);
       // If the key is already taken, transform the value into an array
       if( obj.HasMember(name) )
       {
-- 
2.43.0


From cd7908c0e79297482badf790a3d69d67835fd4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:41 +0000
Subject: [PATCH 13/37] fix: do not allocate in noexcept constructors

Running out of memory while creating an error, or a Rule with a custom tag
name, called std::terminate instead of throwing std::bad_alloc.
---
 htmlext/htmlext/File.cpp              | 4 ++--
 htmlext/htmlext/File.h                | 2 +-
 libhext/include/hext/MaxSearchError.h | 4 ++--
 libhext/include/hext/SyntaxError.h    | 2 +-
 libhext/src/Rule.cpp                  | 2 +-
 libhext/src/SyntaxError.cpp           | 4 ++--
 6 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/htmlext/htmlext/File.cpp b/htmlext/htmlext/File.cpp
index 559f5cc..949cf9b 100644
--- a/htmlext/htmlext/File.cpp
+++ b/htmlext/htmlext/File.cpp
@@ -59,8 +59,8 @@ std::string StrError(int errnum)
 namespace htmlext {
 
 
-FileError::FileError(const std::string& msg) noexcept
-: std::runtime_error(msg)  // noexcept
+FileError::FileError(const std::string& msg)
+: std::runtime_error(msg)  // not noexcept (copies the message)
 {
 }
 
diff --git a/htmlext/htmlext/File.h b/htmlext/htmlext/File.h
index 20fa229..baf5ec1 100644
--- a/htmlext/htmlext/File.h
+++ b/htmlext/htmlext/File.h
@@ -26,7 +26,7 @@ namespace htmlext {
 class FileError : public std::runtime_error
 {
 public:
-  explicit FileError(const std::string& msg) noexcept;
+  explicit FileError(const std::string& msg);
 };
 
 
diff --git a/libhext/include/hext/MaxSearchError.h b/libhext/include/hext/MaxSearchError.h
index 37aedc0..0b97e9c 100644
--- a/libhext/include/hext/MaxSearchError.h
+++ b/libhext/include/hext/MaxSearchError.h
@@ -32,8 +32,8 @@ namespace hext {
 class HEXT_PUBLIC MaxSearchError : public std::runtime_error
 {
 public:
-  explicit MaxSearchError(const std::string& msg) noexcept
-  : std::runtime_error(msg)  // noexcept
+  explicit MaxSearchError(const std::string& msg)
+  : std::runtime_error(msg)  // not noexcept (copies the message)
   {}
 };
 
diff --git a/libhext/include/hext/SyntaxError.h b/libhext/include/hext/SyntaxError.h
index 06dd5ac..cea20fa 100644
--- a/libhext/include/hext/SyntaxError.h
+++ b/libhext/include/hext/SyntaxError.h
@@ -32,7 +32,7 @@ namespace hext {
 class HEXT_PUBLIC SyntaxError : public std::runtime_error
 {
 public:
-  explicit SyntaxError(const std::string& msg) noexcept;
+  explicit SyntaxError(const std::string& msg);
 };
 
 
diff --git a/libhext/src/Rule.cpp b/libhext/src/Rule.cpp
index e76d8cc..999209d 100644
--- a/libhext/src/Rule.cpp
+++ b/libhext/src/Rule.cpp
@@ -48,7 +48,7 @@ Rule::Rule(std::string tag,
 , is_optional_(optional)
 , is_greedy_(greedy)
 , tagname_(this->tag_ == HtmlTag::UNKNOWN
-           ? std::optional<std::string>(tag)
+           ? std::optional<std::string>(std::move(tag))
            : std::nullopt)
 {
 }
diff --git a/libhext/src/SyntaxError.cpp b/libhext/src/SyntaxError.cpp
index 1591ddf..7d3342a 100644
--- a/libhext/src/SyntaxError.cpp
+++ b/libhext/src/SyntaxError.cpp
@@ -18,8 +18,8 @@
 namespace hext {
 
 
-SyntaxError::SyntaxError(const std::string& msg) noexcept
-: std::runtime_error(msg)  // noexcept
+SyntaxError::SyntaxError(const std::string& msg)
+: std::runtime_error(msg)  // not noexcept (copies the message)
 {
 }
 
-- 
2.43.0


From d246fead4a0090e3fd9505c83692df5d2b4ff68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:04 +0000
Subject: [PATCH 14/37] fix: C++ exceptions must not escape the language
 bindings

Rule::extract may throw exceptions other than MaxSearchError, e.g. if the
complexity of a regex exceeds the bounds set by boost::regex. These called
std::terminate, taking down the interpreter.
---
 libhext/bindings/nodejs/src/Rule.cpp | 10 +++++++++-
 libhext/bindings/php/phphext.i       | 10 ++++++++++
 libhext/bindings/python/pyhext.i     | 10 ++++++++++
 libhext/bindings/ruby/rbhext.i       | 10 ++++++++++
 4 files changed, 39 insertions(+), 1 deletion(-)

diff --git a/libhext/bindings/nodejs/src/Rule.cpp b/libhext/bindings/nodejs/src/Rule.cpp
index b950767..716386f 100644
--- a/libhext/bindings/nodejs/src/Rule.cpp
+++ b/libhext/bindings/nodejs/src/Rule.cpp
@@ -20,6 +20,8 @@
 #include <hext/Result.h>
 
 #include <cstdint>
+#include <exception>
+#include <string>
 
 
 Rule::Rule(const Napi::CallbackInfo& info)
@@ -57,6 +59,12 @@ Rule::Rule(const Napi::CallbackInfo& info)
     Napi::Error::New(env, message).ThrowAsJavaScriptException();
     return;
   }
+  catch( const std::exception& e )
+  {
+    auto message = std::string("Error: ") + e.what();
+    Napi::Error::New(env, message).ThrowAsJavaScriptException();
+    return;
+  }
 }
 
 Napi::Value Rule::extract(const Napi::CallbackInfo& info)
@@ -143,7 +151,7 @@ Napi::Value Rule::extract(const Napi::CallbackInfo& info)
   {
     result = this->rule_->extract(html->root(), max_searches);
   }
-  catch( const hext::MaxSearchError& e )
+  catch( const std::exception& e )
   {
     auto message = std::string("Error: ") + e.what();
     Napi::Error::New(
diff --git a/libhext/bindings/php/phphext.i b/libhext/bindings/php/phphext.i
index 52a143b..44c6076 100644
--- a/libhext/bindings/php/phphext.i
+++ b/libhext/bindings/php/phphext.i
@@ -73,6 +73,11 @@
   {
     SWIG_exception(SWIG_ValueError, e.what());
   }
+  catch(const std::exception& e)
+  {
+    // e.g. a regex whose complexity exceeds the bounds set by boost::regex
+    SWIG_exception(SWIG_RuntimeError, e.what());
+  }
 }
 %exception Rule::extract {
   try
@@ -83,6 +88,11 @@
   {
     SWIG_exception(SWIG_RuntimeError, e.what());
   }
+  catch(const std::exception& e)
+  {
+    // e.g. a regex whose complexity exceeds the bounds set by boost::regex
+    SWIG_exception(SWIG_RuntimeError, e.what());
+  }
 }
 
 %ignore Html::root() const;
diff --git a/libhext/bindings/python/pyhext.i b/libhext/bindings/python/pyhext.i
index 813d5df..e2d13f9 100644
--- a/libhext/bindings/python/pyhext.i
+++ b/libhext/bindings/python/pyhext.i
@@ -130,6 +130,11 @@ struct ScopedPyObject
   {
     SWIG_exception(SWIG_ValueError, e.what());
   }
+  catch(const std::exception& e)
+  {
+    // e.g. a regex whose complexity exceeds the bounds set by boost::regex
+    SWIG_exception(SWIG_RuntimeError, e.what());
+  }
 }
 %exception Rule::extract {
   try
@@ -140,6 +145,11 @@ struct ScopedPyObject
   {
     SWIG_exception(SWIG_RuntimeError, e.what());
   }
+  catch(const std::exception& e)
+  {
+    // e.g. a regex whose complexity exceeds the bounds set by boost::regex
+    SWIG_exception(SWIG_RuntimeError, e.what());
+  }
 }
 
 // Improve error messages for argument type mismatch
diff --git a/libhext/bindings/ruby/rbhext.i b/libhext/bindings/ruby/rbhext.i
index 4f68d3c..7b947b0 100644
--- a/libhext/bindings/ruby/rbhext.i
+++ b/libhext/bindings/ruby/rbhext.i
@@ -69,6 +69,11 @@
   {
     SWIG_exception(SWIG_ValueError, e.what());
   }
+  catch(const std::exception& e)
+  {
+    // e.g. a regex whose complexity exceeds the bounds set by boost::regex
+    SWIG_exception(SWIG_RuntimeError, e.what());
+  }
 }
 %exception Rule::extract {
   try
@@ -79,6 +84,11 @@
   {
     SWIG_exception(SWIG_RuntimeError, e.what());
   }
+  catch(const std::exception& e)
+  {
+    // e.g. a regex whose complexity exceeds the bounds set by boost::regex
+    SWIG_exception(SWIG_RuntimeError, e.what());
+  }
 }
 
 %ignore Html::root() const;
-- 
2.43.0


From d68e6e329821c71fdfb7be847e00033374987a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:17 +0000
Subject: [PATCH 15/37] fix: @inner-html must escape attribute values as HTML

std::quoted uses backslashes, which have no meaning in HTML: Attributes
containing quotes, backslashes or ampersands did not survive.
---
 libhext/src/NodeUtil.cpp | 26 ++++++++++++++++++++++++--
 libhext/src/NodeUtil.h   |  8 ++++++++
 2 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/libhext/src/NodeUtil.cpp b/libhext/src/NodeUtil.cpp
index d8efd0f..50bd5cd 100644
--- a/libhext/src/NodeUtil.cpp
+++ b/libhext/src/NodeUtil.cpp
@@ -16,7 +16,6 @@
 
 #include <cassert>
 #include <cstddef>
-#include <iomanip>
 #include <iterator>
 #include <string_view>
 
@@ -138,6 +137,25 @@ void SerializeDocument(const GumboDocument& d, std::ostringstream& os)
   os << ">\n";
 }
 
+void SerializeEscaped(std::string_view    str,
+                      std::string_view    special,
+                      std::ostringstream& os)
+{
+  for(char c : str)
+  {
+    if( special.find(c) == std::string_view::npos )
+      os << c;
+    else if( c == '&' )
+      os << "&amp;";
+    else if( c == '"' )
+      os << "&quot;";
+    else if( c == '<' )
+      os << "&lt;";
+    else if( c == '>' )
+      os << "&gt;";
+  }
+}
+
 void SerializeAttribute(const GumboAttribute& a, std::ostringstream& os)
 {
   if( a.name )
@@ -162,7 +180,11 @@ void SerializeAttribute(const GumboAttribute& a, std::ostringstream& os)
     }
     os << a.name;
     if( a.value )
-      os << '=' << std::quoted(a.value);
+    {
+      os << "=\"";
+      SerializeEscaped(a.value, "&\"", os);
+      os << '"';
+    }
   }
 }
 
diff --git a/libhext/src/NodeUtil.h b/libhext/src/NodeUtil.h
index d84f7b4..a82574c 100644
--- a/libhext/src/NodeUtil.h
+++ b/libhext/src/NodeUtil.h
@@ -19,6 +19,7 @@
 
 #include <sstream>
 #include <string>
+#include <string_view>
 
 #include <gumbo.h>
 
@@ -51,6 +52,13 @@ void SerializeNode(const GumboNode& node, std::ostringstream& os);
 void SerializeDocument(const GumboDocument& d, std::ostringstream& os);
 
 
+/// Appends str to os, replacing every character that is contained in special
+/// with its HTML character reference. Supported are the characters `&"<>`.
+void SerializeEscaped(std::string_view    str,
+                      std::string_view    special,
+                      std::ostringstream& os);
+
+
 /// Serializes GumboAttribute to string and appends it to os.
 void SerializeAttribute(const GumboAttribute& a, std::ostringstream& os);
 
-- 
2.43.0


From 2ab24706715da763c284eb078e7bddbe4e90c6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:17 +0000
Subject: [PATCH 16/37] fix: @inner-html must escape text

Text containing markup, e.g. &lt;b&gt;, was turned into actual markup.
---
 libhext/src/NodeUtil.cpp | 18 +++++++++++++++++-
 libhext/src/NodeUtil.h   |  5 +++++
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/libhext/src/NodeUtil.cpp b/libhext/src/NodeUtil.cpp
index 50bd5cd..331cd69 100644
--- a/libhext/src/NodeUtil.cpp
+++ b/libhext/src/NodeUtil.cpp
@@ -116,7 +116,11 @@ void SerializeNode(const GumboNode& n, std::ostringstream& os)
     case GUMBO_NODE_TEXT:
     case GUMBO_NODE_WHITESPACE:
     {
-      os << n.v.text.text;
+      if( n.parent && n.parent->type == GUMBO_NODE_ELEMENT
+          && TagContainsRawText(n.parent->v.element.tag) )
+        os << n.v.text.text;
+      else
+        SerializeEscaped(n.v.text.text, "&<>", os);
       break;
     }
     default:
@@ -271,6 +275,18 @@ bool TagIsSelfClosing(GumboTag tag) noexcept
 }
 
 
+bool TagContainsRawText(GumboTag tag) noexcept
+{
+  return tag == GUMBO_TAG_STYLE
+      || tag == GUMBO_TAG_SCRIPT
+      || tag == GUMBO_TAG_XMP
+      || tag == GUMBO_TAG_IFRAME
+      || tag == GUMBO_TAG_NOEMBED
+      || tag == GUMBO_TAG_NOFRAMES
+      || tag == GUMBO_TAG_PLAINTEXT;
+}
+
+
 bool TagWrapsText(GumboTag tag) noexcept
 {
 #ifndef _MSC_VER
diff --git a/libhext/src/NodeUtil.h b/libhext/src/NodeUtil.h
index a82574c..6827f0a 100644
--- a/libhext/src/NodeUtil.h
+++ b/libhext/src/NodeUtil.h
@@ -76,6 +76,11 @@ void SerializeElementTag(const GumboElement& e, std::ostringstream& os);
 bool TagIsSelfClosing(GumboTag tag) noexcept;
 
 
+/// Returns true if the text within an HTML tag is not subject to character
+/// references, i.e. it may not be escaped.
+bool TagContainsRawText(GumboTag tag) noexcept;
+
+
 /// Returns true if an HTML tag is a tag for an element that is to be embedded
 /// in newlines when converting HTML to text (that excludes most inline
 /// elements, e.g. `<span>`).
-- 
2.43.0


From dfe663f19fa562300daa00f7047189d0b360e8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:53 +0000
Subject: [PATCH 17/37] fix: move-assigning a rule from its own part used freed
 memory

---
 libhext/include/hext/Rule.h | 2 +-
 libhext/src/Rule.cpp        | 8 ++++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/libhext/include/hext/Rule.h b/libhext/include/hext/Rule.h
index aacd79a..22265f4 100644
--- a/libhext/include/hext/Rule.h
+++ b/libhext/include/hext/Rule.h
@@ -124,7 +124,7 @@ public:
   ~Rule() noexcept = default;
   Rule(Rule&&) noexcept = default;
   Rule(const Rule& other);
-  Rule& operator=(Rule&&) noexcept = default;
+  Rule& operator=(Rule&& other) noexcept;
   Rule& operator=(const Rule& other);
 
   /// Returns the child or nullptr if childless.
diff --git a/libhext/src/Rule.cpp b/libhext/src/Rule.cpp
index 999209d..603c086 100644
--- a/libhext/src/Rule.cpp
+++ b/libhext/src/Rule.cpp
@@ -79,6 +79,14 @@ Rule::Rule(const Rule& other)
     this->captures_.emplace_back(c ? c->clone() : nullptr);
 }
 
+Rule& Rule::operator=(Rule&& other) noexcept
+{
+  // other may be a part of this rule, e.g. rule = std::move(*rule.child())
+  Rule tmp(std::move(other));
+  this->swap(tmp);
+  return *this;
+}
+
 Rule& Rule::operator=(const Rule& other)
 {
   Rule tmp(other);
-- 
2.43.0


From 36c5eb1016f9924933b79b0ceca02efd380caf3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:58 +0000
Subject: [PATCH 18/37] fix: @inner-html must not prefix the attribute xmlns

---
 libhext/src/NodeUtil.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libhext/src/NodeUtil.cpp b/libhext/src/NodeUtil.cpp
index 331cd69..d233e2c 100644
--- a/libhext/src/NodeUtil.cpp
+++ b/libhext/src/NodeUtil.cpp
@@ -176,7 +176,9 @@ void SerializeAttribute(const GumboAttribute& a, std::ostringstream& os)
         os << "xml:";
         break;
       case GUMBO_ATTR_NAMESPACE_XMLNS:
-        os << "xmlns:";
+        // The attribute "xmlns" itself has no prefix
+        if( std::string_view(a.name) != "xmlns" )
+          os << "xmlns:";
         break;
       default:
         assert(false);
-- 
2.43.0


From b9b756d75550a597f73f195d149145da315c4f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:14 +0000
Subject: [PATCH 19/37] fix: @inner-html must keep the content of foreign
 elements

---
 libhext/src/NodeUtil.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libhext/src/NodeUtil.cpp b/libhext/src/NodeUtil.cpp
index d233e2c..174d95a 100644
--- a/libhext/src/NodeUtil.cpp
+++ b/libhext/src/NodeUtil.cpp
@@ -117,6 +117,7 @@ void SerializeNode(const GumboNode& n, std::ostringstream& os)
     case GUMBO_NODE_WHITESPACE:
     {
       if( n.parent && n.parent->type == GUMBO_NODE_ELEMENT
+          && n.parent->v.element.tag_namespace == GUMBO_NAMESPACE_HTML
           && TagContainsRawText(n.parent->v.element.tag) )
         os << n.v.text.text;
       else
@@ -206,7 +207,9 @@ void SerializeElement(const GumboElement& e, std::ostringstream& os)
     SerializeAttribute(*attribute, os);
   }
 
-  if( !TagIsSelfClosing(e.tag) )
+  // Elements of foreign content (SVG, MathML) may have the names of HTML
+  // elements that have no content.
+  if( e.tag_namespace != GUMBO_NAMESPACE_HTML || !TagIsSelfClosing(e.tag) )
   {
     os << '>';
 
-- 
2.43.0


From d48cd24e4f69b98864951d8cb3e71eb3d0da0a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:07 +0000
Subject: [PATCH 20/37] fix: running out of memory must not truncate messages
 and inner HTML

std::stringstream swallows exceptions unless told otherwise, so that a
std::bad_alloc silently shortened the messages of SyntaxError and the
values of @inner-html.
---
 libhext/ragel/Parser.cpp.rl | 5 +++++
 libhext/src/NodeUtil.cpp    | 2 ++
 libhext/src/Parser.cpp      | 5 +++++
 3 files changed, 12 insertions(+)

diff --git a/libhext/ragel/Parser.cpp.rl b/libhext/ragel/Parser.cpp.rl
index cdc1753..3cbc71f 100644
--- a/libhext/ragel/Parser.cpp.rl
+++ b/libhext/ragel/Parser.cpp.rl
@@ -356,6 +356,7 @@ void Parser::throw_unexpected() const
   assert(this->p <= this->pe && this->p >= this->p_begin_);
 
   std::stringstream error_msg;
+  error_msg.exceptions(std::ios_base::badbit);
   if( this->p == this->pe || !this->p )
     error_msg << "Premature termination ";
   else
@@ -375,6 +376,7 @@ void Parser::throw_regex_error(
 ) const
 {
   std::stringstream error_msg;
+  error_msg.exceptions(std::ios_base::badbit);
   error_msg << "In regular expression ";
 
   auto unexpected_char = this->p - 1;
@@ -396,6 +398,7 @@ void Parser::throw_missing_tag(
 ) const
 {
   std::stringstream error_msg;
+  error_msg.exceptions(std::ios_base::badbit);
   error_msg << "Missing closing tag '</";
 
   if( missing_tagname )
@@ -419,6 +422,7 @@ void Parser::throw_unexpected_tag(
 ) const
 {
   std::stringstream error_msg;
+  error_msg.exceptions(std::ios_base::badbit);
   error_msg << "Unexpected closing tag '</"
             << tag
             << ">'";
@@ -450,6 +454,7 @@ void Parser::throw_unexpected_tag(
 void Parser::throw_error_message(const std::string& msg) const
 {
   std::stringstream error_msg;
+  error_msg.exceptions(std::ios_base::badbit);
   error_msg << msg << " ";
   std::size_t mark_len = 1;
   auto unexpected_char = this->p - 1;
diff --git a/libhext/src/NodeUtil.cpp b/libhext/src/NodeUtil.cpp
index 174d95a..e945ccb 100644
--- a/libhext/src/NodeUtil.cpp
+++ b/libhext/src/NodeUtil.cpp
@@ -73,6 +73,8 @@ std::string NodeInnerHtml(const GumboNode * node)
     return "";
 
   std::ostringstream os;
+  // Without this, the stream swallows exceptions, e.g. std::bad_alloc.
+  os.exceptions(std::ios_base::badbit);
   const GumboVector& children = node->v.element.children;
   for(unsigned int i = 0; i < children.length; ++i)
   {
diff --git a/libhext/src/Parser.cpp b/libhext/src/Parser.cpp
index 68ea8b6..5994c10 100644
--- a/libhext/src/Parser.cpp
+++ b/libhext/src/Parser.cpp
@@ -2543,6 +2543,7 @@ void Parser::throw_unexpected() const
   assert(this->p <= this->pe && this->p >= this->p_begin_);
 
   std::stringstream error_msg;
+  error_msg.exceptions(std::ios_base::badbit);
   if( this->p == this->pe || !this->p )
     error_msg << "Premature termination ";
   else
@@ -2562,6 +2563,7 @@ void Parser::throw_regex_error(
 ) const
 {
   std::stringstream error_msg;
+  error_msg.exceptions(std::ios_base::badbit);
   error_msg << "In regular expression ";
 
   auto unexpected_char = this->p - 1;
@@ -2583,6 +2585,7 @@ void Parser::throw_missing_tag(
 ) const
 {
   std::stringstream error_msg;
+  error_msg.exceptions(std::ios_base::badbit);
   error_msg << "Missing closing tag '</";
 
   if( missing_tagname )
@@ -2606,6 +2609,7 @@ void Parser::throw_unexpected_tag(
 ) const
 {
   std::stringstream error_msg;
+  error_msg.exceptions(std::ios_base::badbit);
   error_msg << "Unexpected closing tag '</"
             << tag
             << ">'";
@@ -2637,6 +2641,7 @@ void Parser::throw_unexpected_tag(
 void Parser::throw_error_message(const std::string& msg) const
 {
   std::stringstream error_msg;
+  error_msg.exceptions(std::ios_base::badbit);
   error_msg << msg << " ";
   std::size_t mark_len = 1;
   auto unexpected_char = this->p - 1;
-- 
2.43.0


From a08dd3bef407ee0f5aa7d6201d524a874978cb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:30 +0000
Subject: [PATCH 21/37] fix: --lint must not silently ignore positional
 arguments

---
 htmlext/htmlext/ProgramOptions.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/htmlext/htmlext/ProgramOptions.cpp b/htmlext/htmlext/ProgramOptions.cpp
index f7a8650..2497e75 100644
--- a/htmlext/htmlext/ProgramOptions.cpp
+++ b/htmlext/htmlext/ProgramOptions.cpp
@@ -80,8 +80,10 @@ void ProgramOptions::store_and_validate_or_throw(int argc, const char * argv[])
   {
     pos_opt.add("hext", 1);
     pos_opt.add("html", -1);
-    cli_parser.positional(pos_opt);
   }
+  // Positional arguments would be ignored if the parser was not told that there
+  // are none.
+  cli_parser.positional(pos_opt);
 
   po::store(cli_parser.run(), this->vm_);
   po::notify(this->vm_);
-- 
2.43.0


From d53b8a12e0eabfaa740209267fc1c2ef9aff0be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:23 +0000
Subject: [PATCH 22/37] fix: Python results must keep null bytes and must not
 crash if they are not UTF-8

---
 libhext/bindings/python/pyhext.i | 36 +++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/libhext/bindings/python/pyhext.i b/libhext/bindings/python/pyhext.i
index e2d13f9..e961952 100644
--- a/libhext/bindings/python/pyhext.i
+++ b/libhext/bindings/python/pyhext.i
@@ -41,7 +41,7 @@ struct ScopedPyObject
   : obj(object)
   {}
 
-  ~ScopedPyObject() noexcept { Py_DECREF(this->obj); }
+  ~ScopedPyObject() noexcept { Py_XDECREF(this->obj); }
 
   PyObject * obj;
 };
@@ -54,7 +54,8 @@ struct ScopedPyObject
 
 
 // Convert vector of multimaps to list of dicts
-%typemap(out) std::vector<std::multimap<std::string, std::string>>
+%typemap(out, fragment="SWIG_FromCharPtrAndSize")
+  std::vector<std::multimap<std::string, std::string>>
 {
   $result = PyList_New(0);
   if( !$result )
@@ -69,17 +70,25 @@ struct ScopedPyObject
     auto it = map.cbegin();
     while( it != map.cend() )
     {
+      // Keys and values may contain null bytes
+      ScopedPyObject key(
+          SWIG_FromCharPtrAndSize(it->first.data(), it->first.size()));
+      if( !key.obj )
+        SWIG_exception(SWIG_RuntimeError,
+            "SWIG_FromCharPtrAndSize returned nullptr");
+
       if( map.count(it->first) < 2 )
       {
-        ScopedPyObject value(PyString_FromString(it->second.c_str()));
+        ScopedPyObject value(
+            SWIG_FromCharPtrAndSize(it->second.data(), it->second.size()));
         if( !value.obj )
           SWIG_exception(SWIG_RuntimeError,
-              "PyString_FromString returned nullptr");
+              "SWIG_FromCharPtrAndSize returned nullptr");
 
-        // does not steal a reference to value
-        if( PyDict_SetItemString(dict.obj, it->first.c_str(), value.obj) )
+        // does not steal a reference to key or value
+        if( PyDict_SetItem(dict.obj, key.obj, value.obj) )
           SWIG_exception(SWIG_RuntimeError,
-              "PyDict_SetItemString returned != 0");
+              "PyDict_SetItem returned != 0");
 
         ++it;
       }
@@ -93,22 +102,21 @@ struct ScopedPyObject
         auto upper = map.upper_bound(it->first);
         for(; lower != upper; ++lower)
         {
-          // Swig defines PyString_FromString, which forwards to
-          // PyUnicode_FromString
-          ScopedPyObject value(PyString_FromString(lower->second.c_str()));
+          ScopedPyObject value(SWIG_FromCharPtrAndSize(
+              lower->second.data(), lower->second.size()));
           if( !value.obj )
             SWIG_exception(SWIG_RuntimeError,
-                "PyString_FromString returned nullptr");
+                "SWIG_FromCharPtrAndSize returned nullptr");
 
           // does not steal a reference to value
           if( PyList_Append(list.obj, value.obj) )
             SWIG_exception(SWIG_RuntimeError, "PyList_Append returned != 0");
         }
 
-        // does not steal a reference to list
-        if( PyDict_SetItemString(dict.obj, it->first.c_str(), list.obj) )
+        // does not steal a reference to key or list
+        if( PyDict_SetItem(dict.obj, key.obj, list.obj) )
           SWIG_exception(SWIG_RuntimeError,
-              "PyDict_SetItemString returned != 0");
+              "PyDict_SetItem returned != 0");
 
         it = upper;
       }
-- 
2.43.0


From 8a395a9c5b831691a99b9453bc59c5a3868b021c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:23 +0000
Subject: [PATCH 23/37] fix: PHP results must keep null bytes

---
 libhext/bindings/php/phphext.i | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/libhext/bindings/php/phphext.i b/libhext/bindings/php/phphext.i
index 44c6076..1d3f940 100644
--- a/libhext/bindings/php/phphext.i
+++ b/libhext/bindings/php/phphext.i
@@ -32,10 +32,13 @@
     {
       if( map.count(it->first) < 2 )
       {
-        add_assoc_string(
+        // Keys and values may contain null bytes
+        add_assoc_stringl_ex(
           &out_map,
           it->first.c_str(),
-          it->second.c_str()
+          it->first.size(),
+          it->second.c_str(),
+          it->second.size()
         );
         ++it;
       }
@@ -54,7 +57,12 @@
             lower->second.size()
           );
 
-        add_assoc_zval(&out_map, it->first.c_str(), &values);
+        add_assoc_zval_ex(
+          &out_map,
+          it->first.c_str(),
+          it->first.size(),
+          &values
+        );
         it = upper;
       }
     }
-- 
2.43.0


From 3e63559e9c1b847404359f841434269bc66defe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:23 +0000
Subject: [PATCH 24/37] fix: JavaScript rules must not end at the first null
 byte

---
 libhext/bindings/nodejs/src/Rule.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libhext/bindings/nodejs/src/Rule.cpp b/libhext/bindings/nodejs/src/Rule.cpp
index 716386f..d6961e5 100644
--- a/libhext/bindings/nodejs/src/Rule.cpp
+++ b/libhext/bindings/nodejs/src/Rule.cpp
@@ -50,8 +50,10 @@ Rule::Rule(const Napi::CallbackInfo& info)
 
   try
   {
+    // The string may contain null bytes
+    const auto hext = info[0].As<Napi::String>().Utf8Value();
     this->rule_ = std::make_unique<hext::Rule>(
-        hext::ParseHext(info[0].As<Napi::String>().Utf8Value().c_str()));
+        hext::ParseHext(hext.c_str(), hext.size()));
   }
   catch( const hext::SyntaxError& e )
   {
-- 
2.43.0


From 50dcb6cb7b3761925dfe87b94d94622cdb2d219a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:50 +0000
Subject: [PATCH 25/37] fix: JavaScript results must not lose the name
 __proto__

---
 libhext/bindings/nodejs/src/Rule.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/libhext/bindings/nodejs/src/Rule.cpp b/libhext/bindings/nodejs/src/Rule.cpp
index d6961e5..4985607 100644
--- a/libhext/bindings/nodejs/src/Rule.cpp
+++ b/libhext/bindings/nodejs/src/Rule.cpp
@@ -24,6 +24,21 @@
 #include <string>
 
 
+namespace {
+
+
+// Unlike Object::Set, this adds an ordinary property for any key, even
+// "__proto__".
+void DefineProperty(Napi::Object object, Napi::String key, Napi::Value value)
+{
+  object.DefineProperty(
+      Napi::PropertyDescriptor::Value(key, value, napi_default_jsproperty));
+}
+
+
+} // namespace
+
+
 Rule::Rule(const Napi::CallbackInfo& info)
 : ObjectWrap(info)
 , rule_(nullptr)
@@ -172,7 +187,8 @@ Napi::Value Rule::extract(const Napi::CallbackInfo& info)
     {
       if( group.count(it->first) < 2 )
       {
-        map.Set(
+        DefineProperty(
+            map,
             Napi::String::New(env, it->first),
             Napi::String::New(env, it->second));
         ++it;
@@ -187,7 +203,8 @@ Napi::Value Rule::extract(const Napi::CallbackInfo& info)
           array.Set(
               array.Length(),
               Napi::String::New(env, lower->second));
-        map.Set(
+        DefineProperty(
+            map,
             Napi::String::New(env, it->first),
             array);
         it = upper;
-- 
2.43.0


From 9e33f3cf33e475efe6d465b9072290d206f4a449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:50 +0000
Subject: [PATCH 26/37] fix: JavaScript search limits must not wrap around at
 32 bits

---
 libhext/bindings/nodejs/src/Rule.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/libhext/bindings/nodejs/src/Rule.cpp b/libhext/bindings/nodejs/src/Rule.cpp
index 4985607..bf715da 100644
--- a/libhext/bindings/nodejs/src/Rule.cpp
+++ b/libhext/bindings/nodejs/src/Rule.cpp
@@ -120,7 +120,18 @@ Napi::Value Rule::extract(const Napi::CallbackInfo& info)
     }
     else
     {
-      max_searches = info[1].ToNumber().Uint32Value();
+      // Uint32Value would wrap around
+      auto amount = info[1].As<Napi::Number>().Int64Value();
+      if( amount < 0 )
+      {
+        Napi::RangeError::New(
+            env,
+            "Argument error: Optional argument 'max_searches' must not be "
+            "negative")
+          .ThrowAsJavaScriptException();
+        return env.Null();
+      }
+      max_searches = static_cast<std::uint64_t>(amount);
     }
   }
 
-- 
2.43.0


From b78ee09ea298e6f205ec1008829fa2d340142a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:08 +0000
Subject: [PATCH 27/37] fix: Python: keep the message of a syntax error that
 cuts a multi-byte character

---
 libhext/bindings/python/pyhext.i | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/libhext/bindings/python/pyhext.i b/libhext/bindings/python/pyhext.i
index e961952..b315c0e 100644
--- a/libhext/bindings/python/pyhext.i
+++ b/libhext/bindings/python/pyhext.i
@@ -32,6 +32,8 @@
 %inline %{
 
 
+#include <cstring>
+
 namespace {
 
 
@@ -136,7 +138,13 @@ struct ScopedPyObject
   }
   catch(const hext::SyntaxError& e)
   {
-    SWIG_exception(SWIG_ValueError, e.what());
+    // The message quotes the input and may end within a multi-byte character,
+    // which PyErr_SetString would turn into a UnicodeDecodeError.
+    ScopedPyObject message(
+        PyUnicode_DecodeUTF8(e.what(), std::strlen(e.what()), "replace"));
+    if( message.obj )
+      PyErr_SetObject(PyExc_ValueError, message.obj);
+    SWIG_fail;
   }
   catch(const std::exception& e)
   {
-- 
2.43.0


From 33fe78012447478a7dd21766df329be444c45634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:08 +0000
Subject: [PATCH 28/37] fix: htmlext.py: do not translate line ends

---
 libhext/bindings/python/htmlext.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libhext/bindings/python/htmlext.py b/libhext/bindings/python/htmlext.py
index 42497f1..ad25dff 100644
--- a/libhext/bindings/python/htmlext.py
+++ b/libhext/bindings/python/htmlext.py
@@ -14,6 +14,7 @@
 
 from __future__ import print_function
 import hext
+import io
 import json
 import sys
 import os
@@ -30,8 +31,9 @@ if len(sys.argv) < 3:
     sys.exit(1)
 
 
-strhext = open(sys.argv[1]).read()
-strhtml = open(sys.argv[2]).read()
+# Line ends are part of the input: do not let Python translate them.
+strhext = io.open(sys.argv[1], newline='').read()
+strhtml = io.open(sys.argv[2], newline='').read()
 
 try:
     rule = hext.Rule(strhext)
-- 
2.43.0


From 14d928cb2b6e4fefbc6bc9f82b373278122f7c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:08 +0000
Subject: [PATCH 29/37] fix: htmlext.php: a syntax error is an Error since PHP
 8

---
 libhext/bindings/php/htmlext.php | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libhext/bindings/php/htmlext.php b/libhext/bindings/php/htmlext.php
index f0f6ea1..346a9d7 100644
--- a/libhext/bindings/php/htmlext.php
+++ b/libhext/bindings/php/htmlext.php
@@ -46,7 +46,7 @@ try
 {
   $rule = new HextRule($strhext);
 }
-catch(Exception $e)
+catch(Throwable $e)
 {
   fwrite(STDERR, "$scriptname: In '{$argv[1]}': {$e->getMessage()}\n");
   exit(1);
@@ -59,7 +59,7 @@ try
 {
   $result = $rule->extract($html, /* max_searches: */10000);
 }
-catch(Exception $e)
+catch(Throwable $e)
 {
   fwrite(STDERR, "$scriptname: In '{$argv[1]}': {$e->getMessage()}\n");
   exit(1);
-- 
2.43.0


From 702e6b781b861a5bd513d3d1a4cd789204461819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:55 +0000
Subject: [PATCH 30/37] fix: htmlext.php: print an object even if its names are
 numbers

---
 libhext/bindings/php/htmlext.php | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libhext/bindings/php/htmlext.php b/libhext/bindings/php/htmlext.php
index 346a9d7..9a73a5d 100644
--- a/libhext/bindings/php/htmlext.php
+++ b/libhext/bindings/php/htmlext.php
@@ -66,5 +66,10 @@ catch(Throwable $e)
 }
 
 foreach($result as $map)
+{
+  // A map whose names are the numbers 0..n is a map, not a list.
+  if( array_values($map) === $map )
+    $map = (object)$map;
   echo json_encode($map, JSON_UNESCAPED_SLASHES | JSON_UNESCAPED_UNICODE)."\n";
+}
 
-- 
2.43.0


From 882dfcb50794fc1c3ac34df7238b1cc8cf340f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:08 +0000
Subject: [PATCH 31/37] fix: htmlext.js: do not cut off long error messages

---
 libhext/bindings/nodejs/htmlext.js | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libhext/bindings/nodejs/htmlext.js b/libhext/bindings/nodejs/htmlext.js
index 09fc218..0c15495 100755
--- a/libhext/bindings/nodejs/htmlext.js
+++ b/libhext/bindings/nodejs/htmlext.js
@@ -62,7 +62,9 @@ try
 catch(e)
 {
   console.error(util.format("%s: In %s: %s", scriptname, args[0], e.message));
-  process.exit(1);
+  // process.exit() would cut off a message that does not fit into a pipe
+  process.exitCode = 1;
+  return;
 }
 
 var html = new hext.Html(strhtml);
@@ -74,7 +76,9 @@ try
 catch(e)
 {
   console.error(util.format("%s: In %s: %s", scriptname, args[0], e.message));
-  process.exit(1);
+  // process.exit() would cut off a message that does not fit into a pipe
+  process.exitCode = 1;
+  return;
 }
 
 for(var i in result)
-- 
2.43.0


From abfc14e17456da9110530f731cf9bd8f6480c5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:05 +0000
Subject: [PATCH 32/37] fix: Ruby binding: release the C++ exception and the
 arguments before raising

---
 libhext/bindings/ruby/rbhext.i | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/libhext/bindings/ruby/rbhext.i b/libhext/bindings/ruby/rbhext.i
index 7b947b0..c6ddeca 100644
--- a/libhext/bindings/ruby/rbhext.i
+++ b/libhext/bindings/ruby/rbhext.i
@@ -60,34 +60,45 @@
 }
 
 %include "exception.i"
+// Raising an exception in Ruby leaves the function without destroying its
+// objects: not before the C++ exception and the arguments are released.
 %exception Rule::Rule {
+  VALUE error = Qnil;
   try
   {
     $action
   }
   catch(const hext::SyntaxError& e)
   {
-    SWIG_exception(SWIG_ValueError, e.what());
+    error = rb_exc_new_cstr(SWIG_Ruby_ErrorType(SWIG_ValueError), e.what());
   }
   catch(const std::exception& e)
   {
     // e.g. a regex whose complexity exceeds the bounds set by boost::regex
-    SWIG_exception(SWIG_RuntimeError, e.what());
+    error = rb_exc_new_cstr(SWIG_Ruby_ErrorType(SWIG_RuntimeError), e.what());
+  }
+  if( !NIL_P(error) )
+  {
+    $cleanup
+    rb_exc_raise(error);
   }
 }
 %exception Rule::extract {
+  VALUE error = Qnil;
   try
   {
     $action
   }
-  catch(const hext::MaxSearchError& e)
+  catch(const std::exception& e)
   {
-    SWIG_exception(SWIG_RuntimeError, e.what());
+    // hext::MaxSearchError, or e.g. a regex whose complexity exceeds the
+    // bounds set by boost::regex
+    error = rb_exc_new_cstr(SWIG_Ruby_ErrorType(SWIG_RuntimeError), e.what());
   }
-  catch(const std::exception& e)
+  if( !NIL_P(error) )
   {
-    // e.g. a regex whose complexity exceeds the bounds set by boost::regex
-    SWIG_exception(SWIG_RuntimeError, e.what());
+    $cleanup
+    rb_exc_raise(error);
   }
 }
 
-- 
2.43.0


From 31a43e8ed3d5b3b4a377bdb9ae303e8edd5f57c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:28 +0000
Subject: [PATCH 33/37] fix: CDATA sections are text in @text, @strip-tags and
 @inner-html

---
 libhext/src/NodeUtil.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/libhext/src/NodeUtil.cpp b/libhext/src/NodeUtil.cpp
index e945ccb..43acbf0 100644
--- a/libhext/src/NodeUtil.cpp
+++ b/libhext/src/NodeUtil.cpp
@@ -57,6 +57,7 @@ std::string StripTags(const GumboNode * node, bool smart_wrap)
     }
   }
   else if( node->type == GUMBO_NODE_TEXT ||
+           node->type == GUMBO_NODE_CDATA ||
            node->type == GUMBO_NODE_WHITESPACE )
   {
     const GumboText& node_text = node->v.text;
@@ -105,16 +106,12 @@ void SerializeNode(const GumboNode& n, std::ostringstream& os)
       SerializeElement(n.v.element, os);
       break;
     }
-    case GUMBO_NODE_CDATA:
-    {
-      // ignore
-      break;
-    }
     case GUMBO_NODE_COMMENT:
     {
       os << "<!--" << n.v.text.text << "-->";
       break;
     }
+    case GUMBO_NODE_CDATA:
     case GUMBO_NODE_TEXT:
     case GUMBO_NODE_WHITESPACE:
     {
-- 
2.43.0


From b4a21605eb0cba86ad857faa5bc5e85d8727dcb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:28 +0000
Subject: [PATCH 34/37] fix: @inner-html: keep a newline at the start of pre,
 textarea and listing

---
 libhext/src/NodeUtil.cpp | 19 +++++++++++++++++++
 libhext/src/NodeUtil.h   |  5 +++++
 2 files changed, 24 insertions(+)

diff --git a/libhext/src/NodeUtil.cpp b/libhext/src/NodeUtil.cpp
index 43acbf0..a781eb1 100644
--- a/libhext/src/NodeUtil.cpp
+++ b/libhext/src/NodeUtil.cpp
@@ -213,6 +213,17 @@ void SerializeElement(const GumboElement& e, std::ostringstream& os)
     os << '>';
 
     const GumboVector& children = e.children;
+    if( children.length && e.tag_namespace == GUMBO_NAMESPACE_HTML
+        && TagIgnoresFirstNewline(e.tag) )
+    {
+      // The parser ignores the first newline, but not the second
+      auto first_child = static_cast<const GumboNode *>(children.data[0]);
+      if( ( first_child->type == GUMBO_NODE_TEXT ||
+            first_child->type == GUMBO_NODE_WHITESPACE ) &&
+          *first_child->v.text.text == '\n' )
+        os << '\n';
+    }
+
     for(unsigned int i = 0; i < children.length; ++i)
     {
       auto child_node = static_cast<const GumboNode *>(children.data[i]);
@@ -291,6 +302,14 @@ bool TagContainsRawText(GumboTag tag) noexcept
 }
 
 
+bool TagIgnoresFirstNewline(GumboTag tag) noexcept
+{
+  return tag == GUMBO_TAG_PRE
+      || tag == GUMBO_TAG_TEXTAREA
+      || tag == GUMBO_TAG_LISTING;
+}
+
+
 bool TagWrapsText(GumboTag tag) noexcept
 {
 #ifndef _MSC_VER
diff --git a/libhext/src/NodeUtil.h b/libhext/src/NodeUtil.h
index 6827f0a..db2638a 100644
--- a/libhext/src/NodeUtil.h
+++ b/libhext/src/NodeUtil.h
@@ -81,6 +81,11 @@ bool TagIsSelfClosing(GumboTag tag) noexcept;
 bool TagContainsRawText(GumboTag tag) noexcept;
 
 
+/// Returns true if a newline immediately after the start tag is not part of the
+/// element's content.
+bool TagIgnoresFirstNewline(GumboTag tag) noexcept;
+
+
 /// Returns true if an HTML tag is a tag for an element that is to be embedded
 /// in newlines when converting HTML to text (that excludes most inline
 /// elements, e.g. `<span>`).
-- 
2.43.0


From e08b1bebe8816b836342d62f72badb8fab886d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:28 +0000
Subject: [PATCH 35/37] fix: htmlext: recognize --lint in grouped and
 abbreviated options

---
 htmlext/htmlext/ProgramOptions.cpp | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/htmlext/htmlext/ProgramOptions.cpp b/htmlext/htmlext/ProgramOptions.cpp
index 2497e75..d8a12ae 100644
--- a/htmlext/htmlext/ProgramOptions.cpp
+++ b/htmlext/htmlext/ProgramOptions.cpp
@@ -14,6 +14,7 @@
 
 #include "htmlext/ProgramOptions.h"
 
+#include <algorithm>
 #include <cstdint>
 #ifdef _WIN32
 #include <io.h>
@@ -65,27 +66,32 @@ void ProgramOptions::store_and_validate_or_throw(int argc, const char * argv[])
 {
   namespace po = boost::program_options;
 
-  po::command_line_parser cli_parser(argc, argv);
   po::positional_options_description pos_opt;
-  cli_parser.options(this->desc_);
+  pos_opt.add("hext", 1);
+  pos_opt.add("html", -1);
+  po::parsed_options parsed = po::command_line_parser(argc, argv)
+                                .options(this->desc_)
+                                .positional(pos_opt)
+                                .run();
 
   // If --lint was given, then do not add positional options to avoid
   // confusion. For example, the following would only parse first.hext,
   // but not second.hext because it is interpreted as the positional
   // option <html-file>:
   // ./htmlext --lint first.hext second.hext
-  const auto end = argv + argc;
-  if( std::find(argv, end, std::string("-l")) == end &&
-      std::find(argv, end, std::string("--lint")) == end )
+  const auto is_lint = [](const po::option& opt)
+    { return opt.string_key == "lint"; };
+  if( std::any_of(parsed.options.begin(), parsed.options.end(), is_lint) )
   {
-    pos_opt.add("hext", 1);
-    pos_opt.add("html", -1);
+    // Positional arguments would be ignored if the parser was not told that
+    // there are none.
+    parsed = po::command_line_parser(argc, argv)
+               .options(this->desc_)
+               .positional(po::positional_options_description())
+               .run();
   }
-  // Positional arguments would be ignored if the parser was not told that there
-  // are none.
-  cli_parser.positional(pos_opt);
 
-  po::store(cli_parser.run(), this->vm_);
+  po::store(parsed, this->vm_);
   po::notify(this->vm_);
 
   if( this->contains("help") || this->contains("version") )
-- 
2.43.0


From a3787be6dd5da85f26197a959034c6b89acf1aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:27 +0000
Subject: [PATCH 36/37] fix: name a hext file with any characters in the errors
 of the Ruby script

---
 libhext/bindings/ruby/htmlext.rb | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libhext/bindings/ruby/htmlext.rb b/libhext/bindings/ruby/htmlext.rb
index 8226b32..897ffa2 100644
--- a/libhext/bindings/ruby/htmlext.rb
+++ b/libhext/bindings/ruby/htmlext.rb
@@ -33,7 +33,7 @@ rule = nil
 begin
   rule = Hext::Rule.new(strhext)
 rescue ArgumentError => e
-  abort "%s: In '%s': %s" % [scriptname, ARGV[0], e.message]
+  abort "%s: In '%s': %s" % [scriptname, ARGV[0], e.message].map(&:b)
 end
 
 html = Hext::Html.new(strhtml)
@@ -41,7 +41,7 @@ html = Hext::Html.new(strhtml)
 begin
   result = rule.extract(html)
 rescue RuntimeError => e
-  abort "%s: In '%s': %s" % [scriptname, ARGV[0], e.message]
+  abort "%s: In '%s': %s" % [scriptname, ARGV[0], e.message].map(&:b)
 end
 
 result.each do |map|
-- 
2.43.0


From d5e937d7f7c8019a9f8e2177cd08d0c8b48f83da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:29 +0000
Subject: [PATCH 37/37] fix: filter must not end at a null byte in the value

RegexPipe::transform searched str.c_str(), which ends at the first null
byte: what follows a null byte that another pipe has added was ignored.
---
 libhext/src/RegexPipe.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libhext/src/RegexPipe.cpp b/libhext/src/RegexPipe.cpp
index 144cf6f..d99b74a 100644
--- a/libhext/src/RegexPipe.cpp
+++ b/libhext/src/RegexPipe.cpp
@@ -25,8 +25,9 @@ RegexPipe::RegexPipe(boost::regex regex)
 
 std::string RegexPipe::transform(std::string str) const
 {
-  boost::match_results<const char *> mr;
-  if( boost::regex_search(str.c_str(), mr, this->regex_) )
+  // str may contain null bytes, e.g. from a literal of another pipe
+  boost::smatch mr;
+  if( boost::regex_search(str, mr, this->regex_) )
   {
     // If there are no parentheses contained within the regex, return whole
     // regex capture (mr[0]), if there are, then return the first one.
-- 
2.43.0

