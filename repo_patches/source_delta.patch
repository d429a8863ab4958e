From 9d770b6df39ac599e586fbef2d068c32ced12658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:19 +0000
Subject: [PATCH 01/52] fix: reject bare words in arrays unless ascii types are
 allowed

---
 include/json_struct/json_struct.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 9bcf75c..e679ead 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -2720,6 +2720,8 @@ inline Error Tokenizer::populateNextTokenFromDataRef(Token &next_token, const Da
       expecting_prop_or_anonymous_data = false;
       if (token_state == InTokenState::FindingName)
       {
+        if (tmp_token.name_type == Type::Ascii && !allow_ascii_properties)
+          return Error::IllegalDataValue;
         populate_anonymous_token(tmp_token.name, tmp_token.name_type, next_token);
         return Error::NoError;
       }
-- 
2.43.0


From 193ffa0eefe1fa0365d4f19a7844299c84d4305b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:19 +0000
Subject: [PATCH 02/52] fix: reject stray . _ ^ ` \ / characters where a name
 or value is expected

---
 include/json_struct/json_struct.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index e679ead..716d92e 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -2254,7 +2254,7 @@ JSON_STRUCT_FORCE_INLINE Error Tokenizer::findStartOfNextValue(Type *type, const
       *chars_ahead = current_pos - cursor_index;
       return Error::NoError;
     }
-    else if (JSON_STRUCT_UNLIKELY(lc == 0))
+    else if (JSON_STRUCT_UNLIKELY(!(lc & Internal::WhiteSpaceOrNull)))
     {
       *chars_ahead = current_pos - cursor_index;
       return Error::EncounteredIllegalChar;
-- 
2.43.0


From 28ab88e83ab08abc47b7cc16f199d01a014582eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:19 +0000
Subject: [PATCH 03/52] fix: keep a member name when the buffer ends between
 the name and its value

---
 include/json_struct/json_struct.h | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 716d92e..4962931 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -2631,6 +2631,14 @@ inline size_t strnlen(const char *data, size_t size)
 inline Error Tokenizer::populateNextTokenFromDataRef(Token &next_token, const DataRef &json_data)
 {
   Token tmp_token;
+  if (intermediate_token.active &&
+      (token_state == InTokenState::FindingDelimiter || token_state == InTokenState::FindingData))
+  {
+    // The name was completed in an earlier buffer
+    tmp_token.name = DataRef(intermediate_token.name);
+    tmp_token.name_type =
+      Internal::getType(intermediate_token.name_type, tmp_token.name.data, tmp_token.name.size);
+  }
   while (cursor_index < json_data.size)
   {
     size_t diff = 0;
@@ -2806,6 +2814,14 @@ inline Error Tokenizer::populateNextTokenFromDataRef(Token &next_token, const Da
       break;
     }
   }
+  if (!intermediate_token.active &&
+      (token_state == InTokenState::FindingDelimiter || token_state == InTokenState::FindingData))
+  {
+    // The buffer ends between the name and its value, keep the name for the next buffer
+    intermediate_token.name.append(tmp_token.name.data, tmp_token.name.size);
+    intermediate_token.name_type = tmp_token.name_type;
+    intermediate_token.active = true;
+  }
   return Error::NeedMoreData;
 }
 
-- 
2.43.0


From 083d159a2f2e21e1b280ad54fa332339c5e3bac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:19 +0000
Subject: [PATCH 04/52] fix: do not use the SIMD string scanner when an escape
 is carried over from the previous buffer

---
 include/json_struct/json_struct.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 4962931..6aa2686 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -1931,7 +1931,7 @@ JSON_STRUCT_FORCE_INLINE Error Tokenizer::findStringEnd(const DataRef &json_data
   const bool escaped_before_simd = is_escaped;
 #endif
 #ifdef JSON_STRUCT_HAS_AVX2
-  if (JSON_STRUCT_LIKELY(json_data.size - cursor_index >= 32))
+  if (JSON_STRUCT_LIKELY(json_data.size - cursor_index >= 32 && !is_escaped))
   {
     size_t consumed =
       Internal::findStringEndAVX2(json_data.data + cursor_index, json_data.size - cursor_index, is_escaped);
@@ -1942,7 +1942,7 @@ JSON_STRUCT_FORCE_INLINE Error Tokenizer::findStringEnd(const DataRef &json_data
     }
   }
 #elif defined(JSON_STRUCT_HAS_NEON)
-  if (JSON_STRUCT_LIKELY(json_data.size - cursor_index >= 16))
+  if (JSON_STRUCT_LIKELY(json_data.size - cursor_index >= 16 && !is_escaped))
   {
     size_t consumed =
       Internal::findStringEndNEON(json_data.data + cursor_index, json_data.size - cursor_index, is_escaped);
@@ -1953,7 +1953,7 @@ JSON_STRUCT_FORCE_INLINE Error Tokenizer::findStringEnd(const DataRef &json_data
     }
   }
 #elif defined(JSON_STRUCT_HAS_SSE2)
-  if (JSON_STRUCT_LIKELY(json_data.size - cursor_index >= 16))
+  if (JSON_STRUCT_LIKELY(json_data.size - cursor_index >= 16 && !is_escaped))
   {
     size_t consumed =
       Internal::findStringEndSIMD(json_data.data + cursor_index, json_data.size - cursor_index, is_escaped);
-- 
2.43.0


From 698eae361fa7e3f643dcc9d759379fe841921e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:19 +0000
Subject: [PATCH 05/52] fix: keep the state of a // comment that is split over
 two buffers

---
 include/json_struct/json_struct.h | 48 +++++++++++++++++++++++++++++++
 1 file changed, 48 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 6aa2686..cb7257e 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -1397,6 +1397,13 @@ private:
     FindingTokenEnd
   };
 
+  enum class InCommentState : unsigned char
+  {
+    NoComment,
+    FoundSlash,
+    FindingEnd
+  };
+
   enum class InPropertyState : unsigned char
   {
     NoStartFound,
@@ -1421,6 +1428,7 @@ private:
 
   InTokenState token_state = InTokenState::FindingName;
   InPropertyState property_state = InPropertyState::NoStartFound;
+  InCommentState comment_state = InCommentState::NoComment;
   Type property_type = Type::Error;
   bool is_escaped;
   bool allow_ascii_properties : 1;
@@ -2198,6 +2206,12 @@ JSON_STRUCT_FORCE_INLINE Error Tokenizer::findStartOfNextValue(Type *type, const
     const char c = json_data.data[current_pos];
     unsigned char lc = Internal::lookup()[(unsigned char)c];
 
+    if (JSON_STRUCT_UNLIKELY(allow_comments && c == '/' && current_pos + 1 == json_data.size))
+    {
+      comment_state = InCommentState::FoundSlash;
+      return Error::NeedMoreData;
+    }
+
     if (JSON_STRUCT_UNLIKELY(allow_comments && c == '/' && current_pos + 1 < json_data.size &&
                              json_data.data[current_pos + 1] == '/'))
     {
@@ -2297,6 +2311,12 @@ JSON_STRUCT_FORCE_INLINE Error Tokenizer::findDelimiter(const DataRef &json_data
   {
     const char c = json_data.data[end];
 
+    if (JSON_STRUCT_UNLIKELY(allow_comments && c == '/' && end + 1 == json_data.size))
+    {
+      comment_state = InCommentState::FoundSlash;
+      return Error::NeedMoreData;
+    }
+
     if (JSON_STRUCT_UNLIKELY(allow_comments && c == '/' && end + 1 < json_data.size && json_data.data[end + 1] == '/'))
     {
       cursor_index = end + 2;
@@ -2379,6 +2399,12 @@ JSON_STRUCT_FORCE_INLINE Error Tokenizer::findTokenEnd(const DataRef &json_data,
   {
     const char c = json_data.data[end];
 
+    if (JSON_STRUCT_UNLIKELY(allow_comments && c == '/' && end + 1 == json_data.size))
+    {
+      comment_state = InCommentState::FoundSlash;
+      return Error::NeedMoreData;
+    }
+
     if (JSON_STRUCT_UNLIKELY(allow_comments && c == '/' && end + 1 < json_data.size && json_data.data[end + 1] == '/'))
     {
       cursor_index = end + 2;
@@ -2468,6 +2494,7 @@ inline Error Tokenizer::skipComment(const DataRef &json_data, size_t *chars_ahea
     }
     return Error::NoError;
   }
+  comment_state = InCommentState::FindingEnd;
   return Error::NeedMoreData;
 }
 
@@ -2645,6 +2672,27 @@ inline Error Tokenizer::populateNextTokenFromDataRef(Token &next_token, const Da
     DataRef data;
     Type type;
     Error error;
+    if (JSON_STRUCT_UNLIKELY(comment_state != InCommentState::NoComment))
+    {
+      // A comment was started in an earlier buffer
+      if (comment_state == InCommentState::FoundSlash)
+      {
+        if (json_data.data[cursor_index] != '/')
+        {
+          comment_state = InCommentState::NoComment;
+          return token_state == InTokenState::FindingDelimiter  ? Error::ExpectedDelimiter
+                 : token_state == InTokenState::FindingTokenEnd ? Error::InvalidToken
+                                                                : Error::EncounteredIllegalChar;
+        }
+        cursor_index++;
+      }
+      comment_state = InCommentState::NoComment;
+      error = skipComment(json_data, &diff);
+      if (error != Error::NoError)
+        return error;
+      cursor_index += diff;
+      continue;
+    }
     switch (token_state)
     {
     case InTokenState::FindingName:
-- 
2.43.0


From 32512c7952ae07e2cc1ca298d9029df9cbf1763b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:11 +0000
Subject: [PATCH 06/52] fix: reject containers without a member name inside
 objects

---
 include/json_struct/json_struct.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index cb7257e..0d739f1 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -2741,6 +2741,8 @@ inline Error Tokenizer::populateNextTokenFromDataRef(Token &next_token, const Da
 
         case Type::ObjectStart:
         case Type::ArrayStart:
+          if (!container_stack.empty() && container_stack.back() == Type::ObjectStart)
+            return Error::IllegalPropertyName;
           populate_anonymous_token(data, type, next_token);
           expecting_prop_or_anonymous_data = false;
           token_state = InTokenState::FindingName;
-- 
2.43.0


From f234e6004714bf7548825bf73be8a6a015d5b651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:25 +0000
Subject: [PATCH 07/52] fix: reject a closing bracket in place of a member
 value

---
 include/json_struct/json_struct.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 0d739f1..692482e 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -2823,6 +2823,9 @@ inline Error Tokenizer::populateNextTokenFromDataRef(Token &next_token, const Da
         return error;
       }
 
+      if (type == Type::ObjectEnd || type == Type::ArrayEnd)
+        return Error::ExpectedDataToken;
+
       if (intermediate_token.active)
       {
         intermediate_token.data.append(data.data, data.size);
-- 
2.43.0


From f77d71d7c5ae52609ce040560b8d253169cd3b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:15 +0000
Subject: [PATCH 08/52] fix: escape all control characters in serialized
 strings

---
 include/json_struct/json_struct.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 692482e..0ae9377 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -6048,7 +6048,7 @@ static void handle_json_escapes_in(const DataRef &ref, std::string &to_type)
 }
 
 // Returns the offset of the first character in [data, data+len) that needs
-// JSON string escaping (byte <= 0x0d, '"', or '\\'), or len if none. The clean
+// JSON string escaping (byte <= 0x1f, '"', or '\\'), or len if none. The clean
 // (no-escape) run is by far the common case, so scan it with SIMD when possible.
 static JSON_STRUCT_FORCE_INLINE size_t findFirstEscapeOut(const char *JSON_STRUCT_RESTRICT data, size_t len)
 {
@@ -6057,7 +6057,7 @@ static JSON_STRUCT_FORCE_INLINE size_t findFirstEscapeOut(const char *JSON_STRUC
   {
     const __m256i vquote = _mm256_set1_epi8('"');
     const __m256i vbackslash = _mm256_set1_epi8('\\');
-    const __m256i vctrl = _mm256_set1_epi8(0x0d);
+    const __m256i vctrl = _mm256_set1_epi8(0x1f);
     for (; i + 32 <= len; i += 32)
     {
       __m256i chunk = _mm256_loadu_si256(reinterpret_cast<const __m256i *>(data + i));
@@ -6074,7 +6074,7 @@ static JSON_STRUCT_FORCE_INLINE size_t findFirstEscapeOut(const char *JSON_STRUC
   {
     const __m128i vquote = _mm_set1_epi8('"');
     const __m128i vbackslash = _mm_set1_epi8('\\');
-    const __m128i vctrl = _mm_set1_epi8(0x0d);
+    const __m128i vctrl = _mm_set1_epi8(0x1f);
     for (; i + 16 <= len; i += 16)
     {
       __m128i chunk = _mm_loadu_si128(reinterpret_cast<const __m128i *>(data + i));
@@ -6091,7 +6091,7 @@ static JSON_STRUCT_FORCE_INLINE size_t findFirstEscapeOut(const char *JSON_STRUC
   for (; i < len; i++)
   {
     unsigned char c = static_cast<unsigned char>(data[i]);
-    if (c <= 0x0d || c == '"' || c == '\\')
+    if (c <= 0x1f || c == '"' || c == '\\')
       return i;
   }
   return len;
@@ -6143,9 +6143,14 @@ static DataRef handle_json_escapes_out(const std::string &data, std::string &buf
       buffer.append("\\\\", 2);
       break;
     default:
-      buffer.push_back(cur);
+    {
+      // The remaining control characters only have the \u00XX form
+      static const char hex[] = "0123456789abcdef";
+      const char escaped[] = {'\\', 'u', '0', '0', hex[(cur >> 4) & 0x0f], hex[cur & 0x0f]};
+      buffer.append(escaped, sizeof(escaped));
       break;
     }
+    }
     i++;
   }
   if (buffer.size())
-- 
2.43.0


From 0a9cf2530d5a6508f1a8780fb36f3e37b5e1f17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:15 +0000
Subject: [PATCH 09/52] fix: stop parsing a map when the tokenizer fails

---
 include/json_struct/json_struct.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 0ae9377..923d5b9 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -9813,10 +9813,12 @@ struct TypeHandlerMap
       Key key(str.data(), str.size());
       Value v;
       error = TypeHandler<Value>::to(v, context);
-      to_type[std::move(key)] = std::move(v);
       if (error != JS::Error::NoError)
         return error;
+      to_type[std::move(key)] = std::move(v);
       error = context.nextToken();
+      if (error != JS::Error::NoError)
+        return error;
     }
 
     return error;
-- 
2.43.0


From 6ea27399c82855fa9c0b9cb643ff4b61f85d733e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:15 +0000
Subject: [PATCH 10/52] fix: escape the keys of serialized maps

---
 include/json_struct/json_struct.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 923d5b9..2daa920 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -9831,7 +9831,8 @@ struct TypeHandlerMap
     serializer.write(token);
     for (auto it = from.begin(); it != from.end(); ++it)
     {
-      token.name = DataRef(it->first);
+      std::string buffer;
+      token.name = Internal::handle_json_escapes_out(it->first, buffer);
       token.name_type = Type::String;
       TypeHandler<Value>::from(it->second, token, serializer);
     }
-- 
2.43.0


From 513eac7877c41d1fa30657755664157aab9fece8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:15 +0000
Subject: [PATCH 11/52] fix: write empty member names

---
 include/json_struct/json_struct.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 2daa920..82357a6 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -1576,6 +1576,7 @@ private:
 
   bool m_first;
   bool m_token_start;
+  std::vector<Type> m_containers;
   SerializerOptions m_option;
 };
 
@@ -3302,6 +3303,8 @@ inline bool Serializer::write(const Token &in_token)
       return false;
     }
     m_option.setDepth(m_option.depth() - 1);
+    if (m_containers.size())
+      m_containers.pop_back();
   }
 
   bool shortcut_front = false;
@@ -3379,9 +3382,10 @@ inline bool Serializer::write(const Token &in_token)
       if (!write(m_option.prefix()))
         return false;
   }
-  if (token.name.size)
+  const bool empty_name = !token.name.size && !isEnd && m_containers.size() && m_containers.back() == Type::ObjectStart;
+  if (token.name.size || empty_name)
   {
-    if (!write(token.name_type, token.name))
+    if (!write(empty_name ? Type::String : token.name_type, token.name))
       return false;
 
     if (m_option.style() == SerializerOptions::Pretty)
@@ -3402,6 +3406,7 @@ inline bool Serializer::write(const Token &in_token)
   m_token_start = (token.value_type == Type::ObjectStart || token.value_type == Type::ArrayStart);
   if (m_token_start)
   {
+    m_containers.push_back(token.value_type);
     m_option.setDepth(m_option.depth() + 1);
   }
   return true;
-- 
2.43.0


From 62b1e51530625cdb655431712dffec0b49dd0cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:15 +0000
Subject: [PATCH 12/52] fix: serialize documents nested more than 255 levels

---
 include/json_struct/json_struct.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 82357a6..ee11907 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -1491,7 +1491,7 @@ public:
   bool convertAsciiToString() const;
   void setConvertAsciiToString(bool set);
 
-  unsigned char depth() const;
+  int depth() const;
   void setDepth(int depth);
 
   void skipDelimiter(bool skip);
@@ -1503,7 +1503,7 @@ public:
 
 private:
   uint8_t m_shift_size;
-  uint8_t m_depth;
+  int m_depth;
   Style m_style;
   bool m_convert_ascii_to_string;
 
@@ -3186,7 +3186,7 @@ inline void SerializerOptions::setShiftSize(unsigned char set)
   m_shift_size = set;
 }
 
-inline unsigned char SerializerOptions::depth() const
+inline int SerializerOptions::depth() const
 {
   return m_depth;
 }
@@ -3224,7 +3224,7 @@ inline void SerializerOptions::skipDelimiter(bool skip)
 
 inline void SerializerOptions::setDepth(int depth)
 {
-  m_depth = (unsigned char)depth;
+  m_depth = depth;
   m_prefix = m_style == Pretty ? std::string(depth * size_t(m_shift_size), ' ') : std::string();
 }
 
-- 
2.43.0


From 01ccc64e1b71298353c28a5d45080e36b1a34d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:15 +0000
Subject: [PATCH 13/52] fix: count scope depth beyond 65535 levels

---
 include/json_struct/json_struct.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index ee11907..3b1a576 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -1332,7 +1332,7 @@ namespace Internal
 struct ScopeCounter
 {
   JS::Type type;
-  uint16_t depth;
+  size_t depth;
   inline void handleType(JS::Type in_type)
   {
     if (type == JS::Type::ArrayStart || type == JS::Type::ObjectStart)
-- 
2.43.0


From b1121552eec26086c229769739e125aef3d6fd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:15 +0000
Subject: [PATCH 14/52] fix: report truncated documents in reformat

---
 include/json_struct/json_struct.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 3b1a576..55faf3e 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -2995,15 +2995,20 @@ static inline JS::Error reformat(const char *data, size_t size, std::string &out
     out.resize(4096);
   serializer.setBuffer(&out[0], out.size());
 
+  size_t level = 0;
   while (error == Error::NoError)
   {
     error = tokenizer.nextToken(token);
     if (error != Error::NoError)
       break;
+    if (token.value_type == Type::ObjectStart || token.value_type == Type::ArrayStart)
+      level++;
+    else if (token.value_type == Type::ObjectEnd || token.value_type == Type::ArrayEnd)
+      level--;
     serializer.write(token);
   }
   out.resize(last_pos + serializer.currentBuffer().used);
-  if (error == Error::NeedMoreData)
+  if (error == Error::NeedMoreData && level == 0)
     return Error::NoError;
 
   return error;
-- 
2.43.0


From b1367a625cf6961d34f68a9c5dbee1717236f44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:15 +0000
Subject: [PATCH 15/52] fix: set the size of a completely filled
 ArrayVariableContent

---
 include/json_struct/json_struct.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 55faf3e..33f8bdf 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -10200,19 +10200,18 @@ struct TypeHandler<ArrayVariableContent<T, COUNT>>
     if (context.token.value_type != Type::ArrayStart)
       return JS::Error::ExpectedArrayStart;
 
+    to_type.size = 0;
     context.nextToken();
     for (size_t i = 0; i < COUNT; i++)
     {
       if (context.error != JS::Error::NoError)
         return context.error;
       if (context.token.value_type == Type::ArrayEnd)
-      {
-        to_type.size = i;
         break;
-      }
       context.error = TypeHandler<T>::to(to_type.data[i], context);
       if (context.error != JS::Error::NoError)
         return context.error;
+      to_type.size = i + 1;
 
       context.nextToken();
     }
-- 
2.43.0


From 745902a00580a96c2d6beaf53890ccd41be63bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:15 +0000
Subject: [PATCH 16/52] fix: replace previous contents when parsing a scalar
 into OneOrMany or a token vector

---
 include/json_struct/json_struct.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 33f8bdf..8e16ec8 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -9253,6 +9253,7 @@ public:
   {
     if (context.token.value_type != JS::Type::ArrayStart && context.token.value_type != JS::Type::ObjectStart)
     {
+      to_type.clear();
       to_type.push_back(context.token);
       return context.error;
     }
@@ -9741,6 +9742,7 @@ public:
     }
     else
     {
+      to_type.data.clear();
       to_type.data.push_back(T());
       context.error = TypeHandler<T>::to(to_type.data.back(), context);
     }
-- 
2.43.0


From e14967b7a9125997a7bec9f57a601766de77c3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:15 +0000
Subject: [PATCH 17/52] fix: raw captures replace previous contents and never
 leave a dangling copy buffer

---
 include/json_struct/json_struct.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 8e16ec8..bb18e74 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -9344,6 +9344,7 @@ struct TypeHandler<JsonArray>
     if (context.token.value_type != JS::Type::ArrayStart)
       return Error::ExpectedArrayStart;
 
+    to_type.data.clear();
     context.tokenizer.copyFromValue(context.token, to_type.data);
 
     size_t level = 1;
@@ -9357,8 +9358,7 @@ struct TypeHandler<JsonArray>
         level--;
     }
 
-    if (error == JS::Error::NoError)
-      context.tokenizer.copyIncludingValue(context.token, to_type.data);
+    context.tokenizer.copyIncludingValue(context.token, to_type.data);
 
     return error;
   }
@@ -9423,6 +9423,7 @@ struct TypeHandler<JsonObject>
     if (context.token.value_type != JS::Type::ObjectStart)
       return Error::ExpectedObjectStart;
 
+    to_type.data.clear();
     context.tokenizer.copyFromValue(context.token, to_type.data);
 
     size_t level = 1;
@@ -9529,6 +9530,7 @@ struct TypeHandler<JsonObjectOrArray>
       return Error::ExpectedObjectStart;
     }
 
+    to_type.data.clear();
     context.tokenizer.copyFromValue(context.token, to_type.data);
 
     size_t level = 1;
-- 
2.43.0


From d878246b51365960ba3fe514b6f7b2895ba3f24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:16 +0000
Subject: [PATCH 18/52] fix: keep the magnitude of numbers with leading zeros
 or more digits than the significand holds

---
 include/json_struct/json_struct.h | 65 +++++++++++++++----------------
 1 file changed, 31 insertions(+), 34 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index bb18e74..b341c2b 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -7989,8 +7989,10 @@ inline parse_string_error parseNumber(const char *number, size_t size, parsed_st
 {
   const char *current;
   set_end_ptr<T> setendptr(parsedString, current);
-  int desimal_position = -1;
-  bool increase_significand = true;
+  bool found_decimal_point = false;
+  bool found_digit = false;
+  bool significand_full = false;
+  int decimal_exponent = 0;
 
   parsedString.negative = false;
   parsedString.inf = 0;
@@ -8018,43 +8020,40 @@ inline parse_string_error parseNumber(const char *number, size_t size, parsed_st
 
     if (c == '.')
     {
-      if (desimal_position >= 0)
+      if (found_decimal_point)
         return parse_string_error::multiple_commas;
-      desimal_position = parsedString.significand_digit_count;
+      found_decimal_point = true;
     }
     else
     {
-      bool keep_digit = NoDigitCount;
-      if (!keep_digit)
-        keep_digit = parsedString.significand_digit_count < 19;
-      if (keep_digit)
+      static_assert(NoDigitCount || std::is_same<T, uint64_t>::value,
+                    "When NoDigitCount is not used the significand type has to be uint64_t");
+      const T digit = T(int(c) - '0');
+      found_digit = true;
+      significand_full = significand_full || parsedString.significand > (T(~T(0)) - digit) / T(10);
+      if (!significand_full)
       {
-        parsedString.significand = parsedString.significand * T(10) + T(int(c) - '0');
-        parsedString.significand_digit_count++;
+        parsedString.significand = parsedString.significand * T(10) + digit;
+        // leading zeros are not significant
+        if (parsedString.significand)
+          parsedString.significand_digit_count++;
+        if (found_decimal_point)
+          decimal_exponent--;
       }
-      else if (increase_significand && parsedString.significand_digit_count < 20)
+      else if (!found_decimal_point)
       {
-        increase_significand = false;
-        uint64_t digit = uint64_t(c) - '0';
-        static_assert(NoDigitCount || std::is_same<T, uint64_t>::value,
-                      "When NoDigitCount is used the significand type has to be uint64_t");
-        auto biggest_multiplier = (std::numeric_limits<uint64_t>::max() - digit) / parsedString.significand;
-
-        if (biggest_multiplier >= 10)
-        {
-          parsedString.significand = parsedString.significand * uint64_t(10) + digit;
-          parsedString.significand_digit_count++;
-        }
+        // the digit does not fit, so it only contributes to the magnitude
+        decimal_exponent++;
       }
     }
     current++;
   }
+  if (!found_digit)
+    return parse_string_error::invalid_format;
   if (current == number_end || (*current != 'e' && *current != 'E'))
   {
-    if (desimal_position >= 0)
-      parsedString.exp = desimal_position - parsedString.significand_digit_count;
-    else
-      parsedString.exp = 0;
+    parsedString.exp = decimal_exponent;
+    parsedString.inf = NoDigitCount && significand_full && parsedString.exp > 0;
     return parse_string_error::ok;
   }
   current++;
@@ -8095,10 +8094,8 @@ inline parse_string_error parseNumber(const char *number, size_t size, parsed_st
   if (exponent_nagative)
     exponent = -exponent;
 
-  if (desimal_position >= 0)
-    parsedString.exp = desimal_position - parsedString.significand_digit_count + exponent;
-  else
-    parsedString.exp = exponent;
+  parsedString.exp = decimal_exponent + exponent;
+  parsedString.inf = NoDigitCount && significand_full && parsedString.exp > 0;
   return parse_string_error::ok;
 }
 
@@ -8130,6 +8127,10 @@ inline uint64_t getPow10(uint32_t pow)
 template <typename T, typename SignificandType>
 inline T convertToNumber(const parsed_string<SignificandType> &parsed)
 {
+  if (parsed.significand == 0)
+  {
+    return make_zero<T>(parsed.negative);
+  }
   int base10exponent = parsed.exp + parsed.significand_digit_count - 1;
   if (base10exponent > float_info<T>::max_base10_exponent())
   {
@@ -8139,10 +8140,6 @@ inline T convertToNumber(const parsed_string<SignificandType> &parsed)
   {
     return make_zero<T>(parsed.negative);
   }
-  if (parsed.significand == 0)
-  {
-    return make_zero<T>(parsed.negative);
-  }
 
 #if 1
   if (parsed.significand < ((uint64_t(1) << 53)) && iabs<int>(parsed.exp) < count_chars((uint64_t(1) << 53)))
-- 
2.43.0


From 87dbc29cb58312055cf45dbfc37c931fddd77a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:16 +0000
Subject: [PATCH 19/52] fix: saturate integers that are out of range

---
 include/json_struct/json_struct.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index b341c2b..ed8102b 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -8290,8 +8290,10 @@ inline typename std::enable_if<std::is_signed<T>::value, T>::type make_integer_r
 
 template <typename T, typename SignificandType>
 inline typename std::enable_if<std::is_unsigned<T>::value, T>::type make_integer_return_value(
-  SignificandType significand, bool)
+  SignificandType significand, bool negative)
 {
+  if (negative)
+    return T(0);
   if (SignificandType(significand) > SignificandType(std::numeric_limits<T>::max()))
     return std::numeric_limits<T>::max();
   return T(significand);
@@ -8318,13 +8320,12 @@ inline T convert_to_integer(const parsed_string<SignificandType> &parsed)
       exp++;
     }
   }
-  else if (exp > 0)
+  else if (exp > 0 && significand != 0)
   {
-    int chars_in_sig = count_chars(significand);
-    if (exp > ft::StaticLog10<T, std::numeric_limits<T>::max(), 0, 0, true>::get() - chars_in_sig)
-      return parsed.negative ? std::numeric_limits<T>::min() : std::numeric_limits<T>::max();
     while (exp > 0)
     {
+      if (significand > SignificandType(~SignificandType(0)) / 10)
+        return parsed.negative ? std::numeric_limits<T>::min() : std::numeric_limits<T>::max();
       significand *= 10;
       exp--;
     }
-- 
2.43.0


From 7aac50e63155309e120c92b0253eff4f6f6a14d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:04 +0000
Subject: [PATCH 20/52] fix: round to the nearest float at the underflow and
 overflow thresholds

---
 include/json_struct/json_struct.h | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index ed8102b..7f1022d 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -8504,20 +8504,25 @@ inline bool float_mantissa_is_even(float g)
 
 inline float correctly_round_float(const char *str, size_t size, double d, float f)
 {
-  if (f != f || f == 0.0f)
+  if (f != f || d == 0.0)
     return f;
-  float af = f < 0.0f ? -f : f;
+  double ad = d < 0.0 ? -d : d;
   JS_FP_NONFINITE_DIAG_PUSH
-  if (!std::isfinite(af))
+  if (!std::isfinite(ad))
     return f;
-  double ad = d < 0.0 ? -d : d;
+  float af = std::fabs(f);
+  bool overflowed = !std::isfinite(af);
+  if (overflowed)
+    af = std::numeric_limits<float>::max();
   float up = std::nextafter(af, std::numeric_limits<float>::infinity());
   float dn = std::nextafter(af, 0.0f);
-  bool have_up = up > af && std::isfinite(up);
+  bool have_up = std::isfinite(up);
   double ulp_d = std::nextafter(ad, std::numeric_limits<double>::infinity()) - ad;
   JS_FP_NONFINITE_DIAG_POP
-  bool near_hi = have_up && std::fabs(ad - 0.5 * (double(af) + double(up))) <= 4.0 * ulp_d;
-  bool near_lo = std::fabs(ad - 0.5 * (double(dn) + double(af))) <= 4.0 * ulp_d;
+  // above the largest float the threshold is halfway to 2^128
+  double mid_hi = have_up ? 0.5 * (double(af) + double(up)) : double(af) + 0.5 * (double(af) - double(dn));
+  bool near_hi = std::fabs(ad - mid_hi) <= 4.0 * ulp_d;
+  bool near_lo = !overflowed && std::fabs(ad - 0.5 * (double(dn) + double(af))) <= 4.0 * ulp_d;
   if (!near_hi && !near_lo)
     return f;
 
@@ -8571,7 +8576,15 @@ inline float correctly_round_float(const char *str, size_t size, double d, float
   {
     big_uint_cmp mid;
     int e2;
-    float_pair_midpoint(af, up, mid, e2);
+    if (have_up)
+    {
+      float_pair_midpoint(af, up, mid, e2);
+    }
+    else
+    {
+      mid.w[0] = 0x1ffffff;
+      e2 = 103;
+    }
     int c = compare_value_scaled(digits, decimal_exp, mid, e2);
     if (c > 0)
       mag = up;
-- 
2.43.0


From d712977249fadb1bd6008b18062ed5913f441cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:45 +0000
Subject: [PATCH 21/52] fix: print floating point numbers with the shortest
 digits that read back

---
 include/json_struct/json_struct.h | 39 +++++++++++++++++--------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 7f1022d..d94d41b 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -7519,27 +7519,24 @@ inline void normalize(int &exp, uint64_t &mentissa)
 }
 
 inline void compute_shortest(uint64_t a, uint64_t b, uint64_t c, bool accept_smaller, bool accept_larger,
-                             bool break_tie_down, int &exponent_adjuster, uint64_t &shortest_base10)
+                             bool b_is_exact, int &exponent_adjuster, uint64_t &shortest_base10)
 {
   int i = 0;
   if (!accept_larger)
     c -= 1;
 
-  bool all_a_zero = true;
-  bool all_b_zero = true;
+  bool all_a_zero = accept_smaller;
+  bool all_b_zero = b_is_exact;
+  uint32_t b_remainder = 0;
   uint64_t a_next = a / 10;
-  uint32_t a_remainder = a % 10;
   uint64_t b_next = b / 10;
-  uint32_t b_remainder = b % 10;
   uint64_t c_next = c / 10;
   while (a_next < c_next)
   {
-    a_remainder = a % 10;
+    all_a_zero &= a % 10 == 0;
+    all_b_zero &= b_remainder == 0;
     b_remainder = b % 10;
 
-    all_b_zero &= bool(!b_remainder);
-    all_a_zero &= bool(!a_remainder);
-
     a = a_next;
     b = b_next;
     c = c_next;
@@ -7548,28 +7545,26 @@ inline void compute_shortest(uint64_t a, uint64_t b, uint64_t c, bool accept_sma
     c_next = c / 10;
     i++;
   }
-  if (accept_smaller && all_a_zero && a % 10 == 0)
+  if (all_a_zero)
   {
-    while (!(a_next % 10))
+    while (a && a % 10 == 0)
     {
+      all_b_zero &= b_remainder == 0;
       b_remainder = b % 10;
 
-      all_b_zero &= bool(!b_remainder);
-
       a = a_next;
       b = b_next;
-      c = c_next;
       a_next = a / 10;
       b_next = b / 10;
-      c_next = c / 10;
       i++;
     }
   }
   exponent_adjuster = i;
 
   bool is_tie = b_remainder == 5 && all_b_zero;
-  bool want_to_round_down = b_remainder < 5 || (is_tie && break_tie_down);
-  bool round_down = (want_to_round_down && (a != b || all_a_zero)) || (b + 1 > c);
+  bool want_to_round_down = b_remainder < 5 || (is_tie && b % 2 == 0);
+  // a itself is a candidate only when it lies exactly on an accepted lower bound
+  bool round_down = want_to_round_down && (a != b || all_a_zero);
   if (round_down)
   {
     shortest_base10 = b;
@@ -7769,7 +7764,15 @@ static float_base10<SignificandType> decode(T f)
     }
   }
   auto cache_value = exp >= 0 ? cache_values<T>::greater_than_equals(q) : cache_values<T>::less_than(-exp - q);
-  uint64_t a = multiply_and_shift<T>(u, cache_value, shift_right, true);
+  // The inverse powers are truncated, the products are only exact with the next larger multiplier
+  uint64_t inverse_value[2] = {};
+  if (exp >= 0)
+  {
+    inverse_value[0] = cache_value[0] + 1;
+    inverse_value[1] = sizeof(T) > sizeof(float) ? cache_value[1] : 0;
+    cache_value = inverse_value;
+  }
+  uint64_t a = multiply_and_shift<T>(u, cache_value, shift_right, false);
   uint64_t b = multiply_and_shift<T>(mentissa, cache_value, shift_right, false);
   uint64_t c = multiply_and_shift<T>(w, cache_value, shift_right, false);
 
-- 
2.43.0


From 0a8ec7d3cdb1da88aa8936f71c0c67a1551dfaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:57 +0000
Subject: [PATCH 22/52] fix: reject times that do not fit the time point

---
 include/json_struct/json_struct.h | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index d94d41b..5cf98e7 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -9065,6 +9065,15 @@ struct is_specialization<Template<Args...>, Template> : std::true_type
 template <class T>
 struct TypeHandler<T, typename std::enable_if_t<Internal::is_specialization<T, std::chrono::time_point>::value>>
 {
+  template <typename Unit>
+  static inline Error assign(T &to_type, uint64_t t)
+  {
+    if (t > uint64_t(std::chrono::duration_cast<Unit>(T::duration::max()).count()))
+      return JS::Error::IllegalDataValue;
+    to_type = T{Unit{t}};
+    return JS::Error::NoError;
+  }
+
   static inline Error to(T &to_type, ParseContext &context)
   {
     uint64_t t;
@@ -9073,11 +9082,11 @@ struct TypeHandler<T, typename std::enable_if_t<Internal::is_specialization<T, s
       return err;
 
     if (t <= 1e11) // Seconds => 10 digits, normally
-      to_type = T{std::chrono::seconds{t}};
+      return assign<std::chrono::seconds>(to_type, t);
     else if (t <= 1e14) // Milliseconds => 13 digits, normally
-      to_type = T{std::chrono::milliseconds{t}};
+      return assign<std::chrono::milliseconds>(to_type, t);
     else if (t <= 1e17) // Microseconds
-      to_type = T{std::chrono::microseconds{t}};
+      return assign<std::chrono::microseconds>(to_type, t);
     else if (t <= 1e20) // Nanoseconds
       if constexpr (std::is_same_v<std::chrono::high_resolution_clock::time_point, T>)
         to_type = T{std::chrono::nanoseconds{t}};
-- 
2.43.0


From d22408d8793cf7daddd8c824da37fd8076103055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:47 +0000
Subject: [PATCH 23/52] fix: reject numbers that are not enumerators

---
 include/json_struct/json_struct.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 5cf98e7..39f8b98 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -5896,6 +5896,9 @@ struct EnumHandler
       auto err = TypeHandler<enum_int_t>::to(tmp, context);
       if (err != Error::NoError)
         return err;
+      // a negative number becomes a large index
+      if (static_cast<size_t>(tmp) >= F::strings().size())
+        return Error::IllegalDataValue;
       to_type = static_cast<T>(tmp);
       return Error::NoError;
     }
-- 
2.43.0


From 8913b674ca4db67c9fc3839f4f4a9db5d3fcd42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:17 +0000
Subject: [PATCH 24/52] fix: do not compute with uninitialized digits of a
 malformed low surrogate

---
 include/json_struct/json_struct.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 39f8b98..77c2cc2 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -5990,7 +5990,7 @@ static void handle_json_escapes_in(const DataRef &ref, std::string &to_type)
         // which 4 are the current hex digits, so a trailing "\uXXXX" needs 6 more.
         if (cp >= 0xD800 && cp <= 0xDBFF && size >= 10 && next_it[6] == '\\' && next_it[7] == 'u')
         {
-          unsigned char lo[4];
+          unsigned char lo[4] = {0, 0, 0, 0};
           bool lo_ok = true;
           for (int k = 0; lo_ok && k < 4; k++)
           {
-- 
2.43.0


From edce361a54ffb8bce3f61d713ee674adc44539d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:46 +0000
Subject: [PATCH 25/52] fix: do not misread the members after a container that
 is read into a string

---
 include/json_struct/json_struct.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 77c2cc2..4534cfe 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -6185,6 +6185,12 @@ struct TypeHandler<std::string>
   {
     to_type.clear();
     Internal::handle_json_escapes_in(context.token.value, to_type);
+    if (context.token.value_type == Type::ObjectStart || context.token.value_type == Type::ArrayStart)
+    {
+      // do not read the contents of the container as if they followed the string
+      Internal::skipArrayOrObject(context);
+      return context.error;
+    }
     return Error::NoError;
   }
 
-- 
2.43.0


From 6c8f5fe3f545c701593e5258b8bd0d37e3583a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:28 +0000
Subject: [PATCH 26/52] fix: forget the state of the previous input when new
 input is set with resetData

---
 include/json_struct/json_struct.h | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 4534cfe..8a9277e 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -1411,6 +1411,7 @@ private:
     FoundEnd
   };
 
+  void resetState();
   void resetForNewToken();
   void resetForNewValue();
   Error findStringEnd(const DataRef &json_data, size_t *chars_ahead);
@@ -1662,7 +1663,7 @@ inline void Tokenizer::resetData(const char *data, size_t size, size_t index)
   parsed_data_vector = nullptr;
   cursor_index = index;
   addData(data, size);
-  resetForNewToken();
+  resetState();
 }
 
 inline void Tokenizer::resetData(const std::vector<Token> *parsedData, size_t index)
@@ -1675,7 +1676,7 @@ inline void Tokenizer::resetData(const std::vector<Token> *parsedData, size_t in
   data_list.clear();
   parsed_data_vector = parsedData;
   cursor_index = index;
-  resetForNewToken();
+  resetState();
 }
 
 inline size_t Tokenizer::registeredBuffers() const
@@ -1916,6 +1917,19 @@ inline void Tokenizer::setErrorContextConfig(size_t lineContext, size_t rangeCon
   range_context = rangeContext;
 }
 
+inline void Tokenizer::resetState()
+{
+  token_state = InTokenState::FindingName;
+  comment_state = InCommentState::NoComment;
+  is_escaped = false;
+  expecting_prop_or_anonymous_data = false;
+  continue_after_need_more_data = false;
+  container_stack.clear();
+  copy_buffers.clear();
+  error_context.clear();
+  resetForNewToken();
+}
+
 JSON_STRUCT_FORCE_INLINE void Tokenizer::resetForNewToken()
 {
   intermediate_token.clear();
-- 
2.43.0


From ee56570017209cc0c8ab83eb796e65abcdb10341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:28 +0000
Subject: [PATCH 27/52] fix: do not iterate past the members of a Map

---
 include/json_struct/json_struct.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 8a9277e..805e071 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -10005,7 +10005,8 @@ struct Map
   inline It end() const
   {
     It e(*this);
-    e.index = uint32_t(tokens.data.size());
+    // the last token closes the container and is not one of its members
+    e.index = tokens.data.size() > 1 ? uint32_t(tokens.data.size() - 1) : 1;
     e.next_meta = 0;
     e.next_complex = 0;
     return e;
-- 
2.43.0


From 88f78b88221bb34fd6347d223b042f07aee3936c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:28 +0000
Subject: [PATCH 28/52] fix: report failed conversions of a Map in the parse
 context

---
 include/json_struct/json_struct.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 805e071..c499a69 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -10021,9 +10021,15 @@ struct Map
   template <typename T>
   JS::Error castToType(JS::ParseContext &parseContext, T &to) const
   {
+    if (tokens.data.empty())
+    {
+      parseContext.error = JS::Error::NeedMoreData;
+      return parseContext.error;
+    }
     parseContext.tokenizer.resetData(&tokens.data, 0);
     parseContext.nextToken();
-    return JS::TypeHandler<T>::to(to, parseContext);
+    parseContext.error = JS::TypeHandler<T>::to(to, parseContext);
+    return parseContext.error;
   }
 
   template <typename T>
@@ -10032,7 +10038,8 @@ struct Map
     assert(iterator.index < tokens.data.size());
     parseContext.tokenizer.resetData(&tokens.data, iterator.index);
     parseContext.nextToken();
-    return JS::TypeHandler<T>::to(to, parseContext);
+    parseContext.error = JS::TypeHandler<T>::to(to, parseContext);
+    return parseContext.error;
   }
 
   template <typename T>
-- 
2.43.0


From adad0d8b88924c34d9284ee7a06a8617b56a0cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:48 +0000
Subject: [PATCH 29/52] fix: escape and unescape the member names of a Map

---
 include/json_struct/json_struct.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index c499a69..1904573 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -10014,8 +10014,14 @@ struct Map
 
   inline It find(const std::string &name) const
   {
-    return std::find_if(begin(), end(),
-                        [&name](const Token &token) { return Internal::compareDataRefWithString(token.name, name); });
+    std::string token_name;
+    return std::find_if(begin(), end(), [&name, &token_name](const Token &token) {
+      if (!token.name.size || !memchr(token.name.data, '\\', token.name.size))
+        return Internal::compareDataRefWithString(token.name, name);
+      token_name.clear();
+      Internal::handle_json_escapes_in(token.name, token_name);
+      return token_name == name;
+    });
   }
 
   template <typename T>
@@ -10165,7 +10171,8 @@ struct Map
     token.value = DataRef(objectStart);
     serializeContext.serializer.write(token);
 
-    token.name = DataRef(name);
+    std::string name_buffer;
+    token.name = Internal::handle_json_escapes_out(name, name_buffer);
     token.name_type = Type::String;
     JS::TypeHandler<T>::from(value, token, serializeContext.serializer);
 
-- 
2.43.0


From 1b73125ec011f417c8169b85d62f457ea29f414d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:10 +0000
Subject: [PATCH 30/52] fix: keep the index of a Map in step with the members
 that are set

---
 include/json_struct/json_struct.h | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 1904573..fcc34bf 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -10145,6 +10145,10 @@ struct Map
         meta[0].size--;
         tokens.data.erase(tokens.data.begin() + it.index);
         tokens_removed = 1;
+        for (int i = int(it.next_meta); i < int(meta.size()); i++)
+        {
+          meta[i].position--;
+        }
       }
       {
         int index_to_remove = -1;
@@ -10185,6 +10189,11 @@ struct Map
     JS::JsonTokens new_tokens;
     JS::ParseContext pc(out.c_str(), out.size(), new_tokens);
     auto new_meta = metaForTokens(new_tokens);
+    if (!new_meta[0].children) // the value is one that is left out when it is serialized
+    {
+      updateHasData();
+      return JS::Error::NoError;
+    }
 
     json_data.emplace_back(int(tokens.data.size() - 1), std::move(out));
     int old_tokens_size = int(tokens.data.size());
@@ -10208,8 +10217,18 @@ struct Map
       meta[0].size++;
     }
 
+    updateHasData();
     return JS::Error::NoError;
   }
+
+private:
+  void updateHasData()
+  {
+    bool has_data = meta[0].children > meta[0].complex_children;
+    for (size_t i = 1; i < meta.size() && !has_data; i++)
+      has_data = meta[i].has_data;
+    meta[0].has_data = has_data;
+  }
 };
 
 template <>
-- 
2.43.0


From d50487b9c5f31cae99862bdd18ca2ab6619d653b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:10 +0000
Subject: [PATCH 31/52] fix: refuse to set a member of a Map that does not hold
 an object

---
 include/json_struct/json_struct.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index fcc34bf..ac4844b 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -10103,7 +10103,11 @@ struct Map
   template <typename T>
   JS::Error setValue(const std::string &name, JS::ParseContext &parseContext, const T &value)
   {
-    (void)parseContext;
+    if (tokens.data.size() && tokens.data.front().value_type != JS::Type::ObjectStart)
+    {
+      parseContext.error = JS::Error::ExpectedObjectStart;
+      return parseContext.error;
+    }
     if (tokens.data.empty())
     {
       tokens.data.reserve(10);
-- 
2.43.0


From 0dd8ecc0cbe852d2831522f7d9093f526c66249d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:28 +0000
Subject: [PATCH 32/52] fix: do not keep the previous content of a Map when it
 is parsed again

---
 include/json_struct/json_struct.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index ac4844b..2f16c17 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -10241,10 +10241,16 @@ struct TypeHandler<Map>
   static inline Error to(Map &to_type, ParseContext &context)
   {
     Error error = TypeHandler<JS::JsonTokens>::to(to_type.tokens, context);
+    to_type.meta.clear();
+    to_type.json_data.clear();
     if (error == Error::NoError)
     {
       to_type.meta = metaForTokens(to_type.tokens);
     }
+    else
+    {
+      to_type.tokens.data.clear();
+    }
 
     return error;
   }
-- 
2.43.0


From 9f7d213348cfc532b03810791ff2d06e431f239c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:27 +0000
Subject: [PATCH 33/52] fix: copy objects and arrays that are read from
 recorded tokens

---
 include/json_struct/json_struct.h | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 2f16c17..7c12b52 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -1372,6 +1372,7 @@ public:
   void setReleaseCallback(std::function<void(const char *)> &callback);
   Error nextToken(Token &next_token);
   const char *currentPosition() const;
+  bool hasParsedData() const;
 
   void copyFromValue(const Token &token, std::string &to_buffer);
   void copyIncludingValue(const Token &token, std::string &to_buffer);
@@ -1777,6 +1778,11 @@ inline Error Tokenizer::nextToken(Token &next_token)
   return error;
 }
 
+inline bool Tokenizer::hasParsedData() const
+{
+  return parsed_data_vector != nullptr;
+}
+
 inline const char *Tokenizer::currentPosition() const
 {
   if (parsed_data_vector)
@@ -9346,6 +9352,25 @@ public:
   }
 };
 
+namespace Internal
+{
+// The tokens that are read may come from a token vector, and then there is no text to copy
+static inline Error copyParsedData(std::string &to_buffer, ParseContext &context)
+{
+  std::vector<Token> tokens;
+  Error error = TypeHandler<std::vector<Token>>::to(tokens, context);
+  if (error != Error::NoError)
+    return error;
+  tokens.front().name = DataRef("");
+  SerializerContext serializerContext(to_buffer);
+  serializerContext.serializer.setOptions(SerializerOptions(SerializerOptions::Compact));
+  Token token;
+  TypeHandler<std::vector<Token>>::from(tokens, token, serializerContext.serializer);
+  serializerContext.flush();
+  return error;
+}
+} // namespace Internal
+
 /// \private
 template <>
 struct TypeHandler<JsonArrayRef>
@@ -9391,6 +9416,8 @@ struct TypeHandler<JsonArray>
       return Error::ExpectedArrayStart;
 
     to_type.data.clear();
+    if (context.tokenizer.hasParsedData())
+      return Internal::copyParsedData(to_type.data, context);
     context.tokenizer.copyFromValue(context.token, to_type.data);
 
     size_t level = 1;
@@ -9470,6 +9497,8 @@ struct TypeHandler<JsonObject>
       return Error::ExpectedObjectStart;
 
     to_type.data.clear();
+    if (context.tokenizer.hasParsedData())
+      return Internal::copyParsedData(to_type.data, context);
     context.tokenizer.copyFromValue(context.token, to_type.data);
 
     size_t level = 1;
@@ -9577,6 +9606,8 @@ struct TypeHandler<JsonObjectOrArray>
     }
 
     to_type.data.clear();
+    if (context.tokenizer.hasParsedData())
+      return Internal::copyParsedData(to_type.data, context);
     context.tokenizer.copyFromValue(context.token, to_type.data);
 
     size_t level = 1;
-- 
2.43.0


From d5c6a79766dbb0b3a8776428c5039eb72fb25e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:20 +0000
Subject: [PATCH 34/52] fix: write recorded tokens under the name of the member
 that holds them

---
 include/json_struct/json_struct.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 7c12b52..05dc708 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -9329,9 +9329,15 @@ public:
 
   static inline void from(const std::vector<Token, A> &from_type, Token &token, Serializer &serializer)
   {
+    const Token first = token;
     for (auto &t : from_type)
     {
       token = t;
+      if (&t == &from_type.front())
+      {
+        token.name = first.name;
+        token.name_type = first.name_type;
+      }
       serializer.write(token);
     }
   }
-- 
2.43.0


From ed1167a214560d7bb5c9eefb352fb1bac48e39a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:15 +0000
Subject: [PATCH 35/52] fix: do not report the custom message of an earlier
 error

---
 include/json_struct/json_struct.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 05dc708..b8de6b1 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -1321,6 +1321,7 @@ public:
     line = 0;
     character = 0;
     error = Error::NoError;
+    custom_message.clear();
     lines.clear();
   }
 };
-- 
2.43.0


From 489178e428fb5673d7ab6d40000a6d584158f8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:58 +0000
Subject: [PATCH 36/52] fix: do not call functions named inside a malformed
 parameter

---
 include/json_struct/json_struct.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index b8de6b1..f02be29 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -5574,12 +5574,17 @@ inline Error CallFunctionContext::callFunctions(T &container)
       parse_context.error = error;
     }
     Internal::add_error(execution_list.back(), parse_context);
-    parse_context.tokenizer.goToEndOfScope(parse_context.token);
+    Error scope_error = parse_context.tokenizer.goToEndOfScope(parse_context.token);
     parse_context.tokenizer.popScope();
     if (error == Error::MissingFunction && allow_missing)
       error = Error::NoError;
     if (stop_execute_on_fail && error != Error::NoError)
       return error;
+    if (scope_error != Error::NoError)
+    {
+      parse_context.error = scope_error;
+      return scope_error;
+    }
 
     error = parse_context.nextToken();
     if (error != JS::Error::NoError)
-- 
2.43.0


From 856a594082fab7ebccce158f496a1a183d84badf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:59 +0000
Subject: [PATCH 37/52] fix: allow leaving a scope that could not be read to
 its end

---
 include/json_struct/json_struct.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index f02be29..fb0ebe0 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -1841,7 +1841,7 @@ inline void Tokenizer::pushScope(JS::Type type)
 
 inline void Tokenizer::popScope()
 {
-  assert(scope_counter.size() && scope_counter.back().depth == 0);
+  assert(scope_counter.size());
   scope_counter.pop_back();
 }
 
-- 
2.43.0


From fb4e6851f238228ff071778bd904ea3d218885ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:09 +0000
Subject: [PATCH 38/52] fix: keep a leading underscore in the names of
 enumerators

---
 include/json_struct/json_struct.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index fb0ebe0..1956a6e 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -5682,7 +5682,7 @@ void populateEnumNames(std::vector<DataRef> &names, const char (&data)[N])
     switch (state)
     {
     case ParseEnumStringState::FindingNameStart:
-      if ((c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'))
+      if (!(c == '\0' || c == '\t' || c == '\n' || c == '\r' || c == ' ' || c == ','))
       {
         name_starts_at = i;
         state = ParseEnumStringState::FindingNameEnd;
-- 
2.43.0


From d44cf49ee7a799972a81412546ef49185cb874e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:30 +0000
Subject: [PATCH 39/52] fix: write compact output when the style of the options
 is set to compact

---
 include/json_struct/json_struct.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 1956a6e..64b94f6 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -3334,7 +3334,7 @@ inline bool Serializer::write(const Token &in_token)
   }
 
   bool shortcut_front = false;
-  if (m_option.shiftSize() == 2 && !m_first)
+  if (m_option.style() == SerializerOptions::Pretty && m_option.shiftSize() == 2 && !m_first)
   {
     if (!m_token_start && !isEnd && m_option.tokenDelimiter().empty())
     {
-- 
2.43.0


From 02886382513ffc449ee8438578433dc883a41a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:00 +0000
Subject: [PATCH 40/52] fix: show the text at the failing place in error
 excerpts

---
 include/json_struct/json_struct.h | 32 ++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 64b94f6..125675e 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -2911,19 +2911,17 @@ struct Lines
 
 JSON_STRUCT_COLD inline Error Tokenizer::updateErrorContext(Error error, const std::string &custom_message)
 {
+  error_context.lines.clear();
   error_context.error = error;
   error_context.custom_message = custom_message;
   if ((!parsed_data_vector || parsed_data_vector->empty()) && data_list.empty())
     return error;
 
-  const DataRef json_data =
-    parsed_data_vector && parsed_data_vector->size()
-      ? DataRef(parsed_data_vector->front().value.data,
-                size_t(parsed_data_vector->back().value.data - parsed_data_vector->front().value.data))
-      : data_list.front();
-  int64_t real_cursor_index = parsed_data_vector && parsed_data_vector->size()
-                                ? int64_t(parsed_data_vector->at(cursor_index).value.data - json_data.data)
-                                : int64_t(cursor_index);
+  // Recorded tokens do not have to be part of the same buffer, so only the text of the current token can be shown
+  const DataRef json_data = parsed_data_vector && parsed_data_vector->size()
+                              ? parsed_data_vector->at(cursor_index ? cursor_index - 1 : 0).value
+                              : data_list.front();
+  int64_t real_cursor_index = parsed_data_vector && parsed_data_vector->size() ? 0 : int64_t(cursor_index);
   const int64_t stop_back = real_cursor_index - std::min(int64_t(real_cursor_index), int64_t(line_range_context));
   const int64_t stop_forward = std::min(real_cursor_index + int64_t(line_range_context), int64_t(json_data.size));
   std::vector<Internal::Lines> lines;
@@ -2933,14 +2931,12 @@ JSON_STRUCT_COLD inline Error Tokenizer::updateErrorContext(Error error, const s
   int64_t lines_forward = 0;
   int64_t cursor_back;
   int64_t cursor_forward;
-  for (cursor_back = real_cursor_index - 1; cursor_back > stop_back; cursor_back--)
+  for (cursor_back = real_cursor_index - 1; cursor_back >= stop_back; cursor_back--)
   {
     if (*(json_data.data + cursor_back) == '\n')
     {
       lines.front().start = size_t(cursor_back + 1);
       lines_back++;
-      if (lines_back == 1)
-        error_context.character = size_t(real_cursor_index - cursor_back);
       if (lines_back == int64_t(line_context))
       {
         lines_back--;
@@ -2950,27 +2946,30 @@ JSON_STRUCT_COLD inline Error Tokenizer::updateErrorContext(Error error, const s
       lines.insert(lines.begin(), {0, size_t(cursor_back)});
     }
   }
-  if (lines.front().start == 0 && cursor_back > 0)
-    lines.front().start = size_t(cursor_back);
+  if (lines.front().start == 0 && cursor_back >= 0)
+    lines.front().start = size_t(cursor_back + 1);
   bool add_new_line = false;
+  bool found_line_end = false;
   for (cursor_forward = real_cursor_index; cursor_forward < stop_forward; cursor_forward++)
   {
     if (add_new_line)
     {
       lines.push_back({size_t(cursor_forward), 0});
       add_new_line = false;
+      found_line_end = false;
     }
     if (*(json_data.data + cursor_forward) == '\n')
     {
       lines.back().end = size_t(cursor_forward);
+      found_line_end = true;
       lines_forward++;
       if (lines_forward == int64_t(line_context))
         break;
       add_new_line = true;
     }
   }
-  if (lines.back().end == 0)
-    lines.back().end = size_t(cursor_forward - 1);
+  if (!found_line_end)
+    lines.back().end = size_t(cursor_forward);
 
   if (lines.size() > 1)
   {
@@ -2980,6 +2979,7 @@ JSON_STRUCT_COLD inline Error Tokenizer::updateErrorContext(Error error, const s
       error_context.lines.push_back(std::string(json_data.data + line.start, line.end - line.start));
     }
     error_context.line = size_t(lines_back);
+    error_context.character = size_t(real_cursor_index) - lines[error_context.line].start;
   }
   else
   {
@@ -2989,6 +2989,8 @@ JSON_STRUCT_COLD inline Error Tokenizer::updateErrorContext(Error error, const s
     int64_t right = real_cursor_index + int64_t(range_context) > int64_t(json_data.size)
                       ? int64_t(json_data.size)
                       : real_cursor_index + int64_t(range_context);
+    left = std::max(left, int64_t(lines.front().start));
+    right = std::min(right, int64_t(lines.front().end));
     error_context.character = size_t(real_cursor_index - left);
     error_context.lines.push_back(std::string(json_data.data + left, size_t(right - left)));
   }
-- 
2.43.0


From a28ee4867db0b535ff54a7d6bc4bf700fd99d896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:11 +0000
Subject: [PATCH 41/52] fix: report only the members of the latest parse as
 missing or unassigned

---
 include/json_struct/json_struct.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 125675e..b79298c 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -4711,6 +4711,8 @@ static bool skipArrayOrObject(ParseContext &context)
 template <typename T>
 JS_NODISCARD inline Error ParseContext::parseTo(T &to_type)
 {
+  missing_members.clear();
+  unassigned_required_members.clear();
   error = tokenizer.nextToken(token);
   if (error != JS::Error::NoError)
     return error;
-- 
2.43.0


From fe60d45d56e99f8afe44f996cd606a58006856b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:56 +0000
Subject: [PATCH 42/52] fix: count the tokens of nested scopes in the outer
 scopes

---
 include/json_struct/json_struct.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index b79298c..5bd8dba 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -1343,7 +1343,7 @@ struct ScopeCounter
       else if (in_type == JS::Type(static_cast<int>(type) + 1))
         depth--;
     }
-    else
+    else if (depth)
     {
       depth--;
     }
@@ -1713,8 +1713,8 @@ inline Error Tokenizer::nextToken(Token &next_token)
       cursor_index = 0;
       parsed_data_vector = nullptr;
     }
-    if (scope_counter.size())
-      scope_counter.back().handleType(next_token.value_type);
+    for (auto &scope : scope_counter)
+      scope.handleType(next_token.value_type);
     return Error::NoError;
   }
   if (JSON_STRUCT_UNLIKELY(data_list.empty()))
@@ -1773,8 +1773,8 @@ inline Error Tokenizer::nextToken(Token &next_token)
       }
       container_stack.pop_back();
     }
-    if (JSON_STRUCT_LIKELY(scope_counter.size()))
-      scope_counter.back().handleType(next_token.value_type);
+    for (auto &scope : scope_counter)
+      scope.handleType(next_token.value_type);
   }
   return error;
 }
-- 
2.43.0


From 7235cc8e8b510b5688d7b15fe5bdddce56d764a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:21 +0000
Subject: [PATCH 43/52] fix: do not read past the end of an empty token
 recording

---
 include/json_struct/json_struct.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 5bd8dba..6affcfc 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -1704,8 +1704,14 @@ inline Error Tokenizer::nextToken(Token &next_token)
   {
     return Error::ScopeHasEnded;
   }
+  if (parsed_data_vector && cursor_index >= parsed_data_vector->size())
+  {
+    cursor_index = 0;
+    parsed_data_vector = nullptr;
+  }
   if (parsed_data_vector)
   {
+    error_context.clear();
     next_token = (*parsed_data_vector)[cursor_index];
     cursor_index++;
     if (cursor_index == parsed_data_vector->size())
-- 
2.43.0


From aaff6e9a8a4a7f21f55dbdf581a398806b30c334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:08 +0000
Subject: [PATCH 44/52] fix: mark all items of a new array as new in the diff

---
 include/json_struct/json_struct_diff.h | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/include/json_struct/json_struct_diff.h b/include/json_struct/json_struct_diff.h
index f580e16..889d1c2 100644
--- a/include/json_struct/json_struct_diff.h
+++ b/include/json_struct/json_struct_diff.h
@@ -687,15 +687,10 @@ namespace Internal
                     // New items in array.
                     if (baseToken.value_type == Type::ArrayEnd)
                     {
-                        int arrayEndCount = 0;
-                        while (arrayEndCount >= 0)
+                        while (diff.tokens.data[dPos].value_type != Type::ArrayEnd)
                         {
-                            diff.set(dPos++, DiffType::NewArrayItem);
-                            const Token& dToken = diff.tokens.data[dPos];
-                            if (dToken.value_type == Type::ArrayStart)
-                                arrayEndCount++;
-                            else if (dToken.value_type == Type::ArrayEnd)
-                                arrayEndCount--;
+                            setStateForEntireToken(diff, dPos, DiffType::NewArrayItem);
+                            diff.skip(&dPos);
                         }
                         arrayDiffDone = true;
                     }
-- 
2.43.0


From cde9a04a1977c1958b450b0ac6c46292d49a0445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:08 +0000
Subject: [PATCH 45/52] fix: forget the missing array items when a diff is
 invalidated

---
 include/json_struct/json_struct_diff.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/json_struct/json_struct_diff.h b/include/json_struct/json_struct_diff.h
index 889d1c2..294f472 100644
--- a/include/json_struct/json_struct_diff.h
+++ b/include/json_struct/json_struct_diff.h
@@ -118,6 +118,7 @@ struct DiffTokens
     void invalidate()
     {
         missingMembers.clear();
+        missingArrayItems.clear();
         diffs.clear();
         error = DiffError::NoError;
         diff_count = 0;
@@ -128,6 +129,7 @@ struct DiffTokens
     {
         tokens.data.clear();
         missingMembers.clear();
+        missingArrayItems.clear();
         diffs.clear();
         meta.clear();
         error = DiffError::NoError;
-- 
2.43.0


From f123504097d434ddef96cadb82d302bcea1e420d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:08 +0000
Subject: [PATCH 46/52] fix: compare numbers outside the range of double in the
 diff

---
 include/json_struct/json_struct_diff.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/json_struct/json_struct_diff.h b/include/json_struct/json_struct_diff.h
index 294f472..5d092a0 100644
--- a/include/json_struct/json_struct_diff.h
+++ b/include/json_struct/json_struct_diff.h
@@ -33,6 +33,8 @@
 
 #include "json_struct.h"
 
+#include <cstdlib>
+
 namespace JS {
 
 enum DiffFlags : unsigned char
@@ -439,6 +441,8 @@ namespace Internal
 
         inline bool fuzzyEquals(double d1, double d2, double epsilon)
         {
+            if (d1 == d2)
+                return true; // Also when both are infinite
             double diff = d2 - d1;
             return diff > 0 ? (diff <= epsilon) : (-diff <= epsilon);
         }
@@ -453,8 +457,8 @@ namespace Internal
 
         inline void diffNumberValues(const Token &baseToken, const Token &diffToken, DiffTokens &diff, const size_t diffPos, const DiffOptions &options)
         {
-            double baseValue = std::stod(std::string(baseToken.value.data, baseToken.value.size));
-            double diffValue = std::stod(std::string(diffToken.value.data, diffToken.value.size));
+            double baseValue = std::strtod(std::string(baseToken.value.data, baseToken.value.size).c_str(), nullptr);
+            double diffValue = std::strtod(std::string(diffToken.value.data, diffToken.value.size).c_str(), nullptr);
 
             if (options.flags & DiffFlags::FuzzyFloatComparison)
             {
-- 
2.43.0


From 5df5f56898d7e364b44c0145f623ea6ad4886ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:08 +0000
Subject: [PATCH 47/52] fix: mark the whole array item when its type differs in
 the diff

---
 include/json_struct/json_struct_diff.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/json_struct/json_struct_diff.h b/include/json_struct/json_struct_diff.h
index 5d092a0..2effff7 100644
--- a/include/json_struct/json_struct_diff.h
+++ b/include/json_struct/json_struct_diff.h
@@ -715,7 +715,7 @@ namespace Internal
                     }
                     else
                     {
-                        diff.set(dPos, DiffType::TypeDiff);
+                        setStateForEntireToken(diff, dPos, DiffType::TypeDiff);
                         base.skip(&bPos);
                         diff.skip(&dPos);
                     }
-- 
2.43.0


From b0c235b48e57aae67893c2c7c98ad53df17473e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:08 +0000
Subject: [PATCH 48/52] fix: report the error of the new base from
 DiffContext::reset

---
 include/json_struct/json_struct_diff.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/json_struct/json_struct_diff.h b/include/json_struct/json_struct_diff.h
index 2effff7..212b656 100644
--- a/include/json_struct/json_struct_diff.h
+++ b/include/json_struct/json_struct_diff.h
@@ -814,7 +814,7 @@ struct DiffContext
         base.reset(baseJson, baseSize);
         options = opt;
         diffs.clear();
-        error = DiffError::NoError;
+        error = base.error;
     }
 
     void reset(const std::string &baseJson, const DiffOptions &opt = {})
-- 
2.43.0


From faf4ba648e089bf9d0869d07f59a9f506660a782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:09 +0000
Subject: [PATCH 49/52] fix: give an error text also when members are not
 tracked

---
 include/json_struct/json_struct.h | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 6affcfc..e755495 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -4016,13 +4016,9 @@ struct ParseContext
 
   std::string makeErrorString() const
   {
-    if (error == Error::MissingPropertyMember)
+    if (error == Error::MissingPropertyMember && missing_members.size())
     {
-      if (missing_members.size() == 0)
-      {
-        return "";
-      }
-      else if (missing_members.size() == 1)
+      if (missing_members.size() == 1)
       {
         return std::string("JSON Object contained member not found in C++ struct/class. JSON Object member is: ") +
                missing_members.front();
@@ -4033,13 +4029,9 @@ struct ParseContext
       return std::string("JSON Object contained members not found in C++ struct/class. JSON Object members are: ") +
              member_string;
     }
-    else if (error == Error::UnassignedRequiredMember)
+    else if (error == Error::UnassignedRequiredMember && unassigned_required_members.size())
     {
-      if (unassigned_required_members.size() == 0)
-      {
-        return "";
-      }
-      else if (unassigned_required_members.size() == 1)
+      if (unassigned_required_members.size() == 1)
       {
         return std::string("C++ struct/class has a required member that is not present in input JSON. The unassigned "
                            "C++ member is: ") +
-- 
2.43.0


From b2b1e8602f2033b42319af6c18297fae87a6db15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:09 +0000
Subject: [PATCH 50/52] fix: refuse to record a lone end of an array or object

---
 include/json_struct/json_struct.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index e755495..c73e302 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -9311,6 +9311,11 @@ struct TypeHandler<std::vector<Token, A>>
 public:
   static inline Error to(std::vector<Token, A> &to_type, ParseContext &context)
   {
+    if (context.token.value_type == JS::Type::ArrayEnd || context.token.value_type == JS::Type::ObjectEnd)
+    {
+      to_type.clear();
+      return context.token.value_type == JS::Type::ArrayEnd ? Error::UnexpectedArrayEnd : Error::UnexpectedObjectEnd;
+    }
     if (context.token.value_type != JS::Type::ArrayStart && context.token.value_type != JS::Type::ObjectStart)
     {
       to_type.clear();
-- 
2.43.0


From 427e96052aecc1a7f0f5e332053df7fc6e57a9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:15 +0000
Subject: [PATCH 51/52] fix: keep what is written to a SerializerContext after
 a flush

---
 include/json_struct/json_struct.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index c73e302..a2b5451 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -4734,8 +4734,8 @@ struct SerializerContext
     serializer.setBuffer(&json_out[0], json_out.size());
     serializer.setRequestBufferCallback([this](Serializer &serializer_p) {
       size_t end = this->json_out.size();
-      this->json_out.resize(end * 2);
-      serializer_p.setBuffer(&(this->json_out[0]) + end, end);
+      this->json_out.resize(end ? end * 2 : 4096);
+      serializer_p.setBuffer(&(this->json_out[0]) + end, this->json_out.size() - end);
       this->last_pos = end;
     });
   }
@@ -4755,7 +4755,10 @@ struct SerializerContext
 
   void flush()
   {
-    json_out.resize(last_pos + serializer.currentBuffer().used);
+    last_pos += serializer.currentBuffer().used;
+    json_out.resize(last_pos);
+    // the rest of the buffer is gone, what is written later goes to a new one
+    serializer.setBuffer(nullptr, 0);
   }
 
   Serializer serializer;
-- 
2.43.0


From 6a13557cbe92f6dfafe6b0b41dbf2b477e8a88e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:27 +0000
Subject: [PATCH 52/52] fix: reject times in nanoseconds that do not fit the
 time point

---
 include/json_struct/json_struct.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index a2b5451..ee0ed36 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -9129,7 +9129,7 @@ struct TypeHandler<T, typename std::enable_if_t<Internal::is_specialization<T, s
       return assign<std::chrono::microseconds>(to_type, t);
     else if (t <= 1e20) // Nanoseconds
       if constexpr (std::is_same_v<std::chrono::high_resolution_clock::time_point, T>)
-        to_type = T{std::chrono::nanoseconds{t}};
+        return assign<std::chrono::nanoseconds>(to_type, t);
       else
         return JS::Error::IllegalDataValue;
     else
-- 
2.43.0

